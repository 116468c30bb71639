// Oracle for enumeration under a global objective, shared by C04 and C07.
#pragma once
#include "shared.hh"

namespace shared {

struct Step { // parsed --objective=global,step
    Q c = 0, k = 0;
    std::string text = "global";
};

inline Step gen_step(Src &s, bool strict) {
    Step r;
    switch (s.weighted({30, 45, 10, strict ? 15u : 0u})) {
        case 1: {
            static std::vector<std::pair<std::string, Q>> const st{{"1", 1}, {"2", 2}, {"1/2", Q(1, 2)}, {"1/3", Q(1, 3)}, {"3", 3}, {"10", 10}, {"2/4", Q(1, 2)}, {"1/1000000007", Q(1, 1000000007)}};
            auto const &x = s.pick(st);
            r.text = "global," + x.first;
            r.c = x.second;
            break;
        }
        case 2: r.text = "global,0"; break;
        case 3: r.text = "global,e"; r.k = 1; break;
        default: break;
    }
    return r;
}

// the reported sequence of answers of one exhausted solve call
inline void check_global(Prog const &p, Expected const &e, std::vector<Model> const &models, Step const &st, bool strict, int upto = 1 << 30, bool sequential = true) {
    std::set<Atoms> seen;
    bool has = p.has_objective(upto);
    bool line = false;
    for (auto const &m : models) {
        auto const *x = e.find(m.atoms);
        CHECK(x != nullptr, "answer " << m.id() << " is not a stable model of the regular part");
        CHECK(x->feasible, "answer " << m.id() << " has an unsatisfiable constraint system");
        if (sequential) { CHECK(seen.insert(m.atoms).second, "answer " << m.id() << " reported twice"); }
        else { seen.insert(m.atoms); }
        check_sound(p, m, x->rows, strict);
        check_objective(p, m, x->rows, upto);
        line = line || m.objective.has_value();
    }
    CHECK((e.feasible > 0) == !models.empty(), (models.empty() ? "no answer reported although one is feasible" : "answers reported although none is feasible"));
    if (models.empty()) { return; }
    if (!has || !line) { // nothing to optimise
        CHECK(seen.size() == e.feasible, "no objective, but " << seen.size() << " of " << e.feasible << " answers reported");
        return;
    }
    for (auto const &m : models) { CHECK(m.objective, "answer " << m.id() << " has no objective value"); }
    QK step{st.c, st.k};
    Model const *prev = nullptr;
    if (sequential) {
        for (auto const &m : models) {
            if (prev && !prev->objective->second) { CHECK(!m.objective->second, "bounded answer " << m.id() << " after an unbounded one"); }
            if (prev && prev->objective->second && m.objective->second) {
                auto need = prev->objective->first + step;
                CHECK(need <= m.objective->first, "answer " << m.id() << " with objective " << m.raw_objective << " follows one with " << prev->raw_objective << " and step is " << step.str());
            }
            prev = &m;
        }
    }
    // reference optimum over all feasible models
    struct O { Expected::M const *m; ref::Opt o; };
    std::vector<O> opts;
    bool unbounded = false;
    std::optional<Q> best;
    bool attained = false;
    for (auto const &x : e.models) {
        if (!x.feasible) { continue; }
        auto o = ref::optimum(x.rows, p.objective(x.atoms, upto));
        opts.push_back({&x, o});
        if (!o.bounded) { unbounded = true; continue; }
        if (!best || o.sup > *best) { best = o.sup; attained = o.attained; }
        else if (o.sup == *best) { attained = attained || o.attained; }
    }
    auto id = [](Atoms const &a) { Model m; m.atoms = a; return m.id(); };
    auto const &last = models.back();
    bool zero = st.c == 0 && st.k == 0;
    if (unbounded) {
        bool any = std::any_of(models.begin(), models.end(), [](auto const &m) { return !m.objective->second; });
        CHECK(any, "some stable model is unbounded, but only bounded answers are reported");
        if (sequential) { CHECK(!last.objective->second, "some stable model is unbounded, but the last answer is bounded"); }
        if (zero) { for (auto const &x : opts) { CHECK(x.o.bounded || seen.count(x.m->atoms), "unbounded answer " << id(x.m->atoms) << " is not reported"); } }
        return;
    }
    // without an order, the best one has to be there
    Model const *b = &last;
    if (!sequential) { for (auto const &m : models) { if (b->objective->first < m.objective->first) { b = &m; } } }
    CHECK(b->objective->second, "unbounded answer, but all stable models are bounded");
    auto const &v = b->objective->first;
    if (zero || st.c == 0) {
        CHECK(v.c == *best, "last answer has objective " << b->raw_objective << " but the optimum is " << *best);
        if (zero && attained) { CHECK(v.k == 0, "last answer has objective " << b->raw_objective << " but " << *best << " can be attained"); }
    } else {
        CHECK(*best <= v.c + st.c, "last answer has objective " << b->raw_objective << ", step is " << st.c << ", but the optimum is " << *best);
        if (!strict) { CHECK(*best < v.c + st.c, "last answer has objective " << b->raw_objective << ", step is " << st.c << ", but the optimum is " << *best); }
        else if (attained && v.k <= 0 && v.c != *best) { CHECK(!(v.c + st.c == *best), "last answer has objective " << b->raw_objective << ", step is " << st.c << ", but " << *best << " can be attained"); }
    }
    if (zero) {
        for (auto const &x : opts) {
            if (x.o.sup != *best || (attained && !x.o.attained) || !attained) { continue; }
            CHECK(seen.count(x.m->atoms), "answer " << id(x.m->atoms) << " is optimal (" << *best << ") but not reported");
        }
    }
}

inline void box(Src &s, Prog &p, uint32_t percent) {
    for (auto const &v : p.vars) {
        if (!s.chance(percent)) { continue; }
        Con k;
        k.kind = Con::Dom;
        k.guard = spell_var(s, v, 0);
        int a = s.range(-5, 5), b = a + s.range(0, 10);
        k.dom_lo = num_expr(s, a, 0);
        k.dom_hi = num_expr(s, b, 0);
        p.cons.push_back(k);
    }
}

} // namespace shared
