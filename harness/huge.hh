// Programs with hundreds of atoms, variables and constraints: all constraints
// are (scaled) differences, so that feasibility and optima of the reported
// answers are decided by shortest paths, and the programs have planted answers.
#pragma once
#include "global_oracle.hh"
#include "large.hh"

namespace shared {

struct HugeEdge { int from, to; long d; bool strict; int con; }; // x_to - x_from <= d

struct Huge {
    Prog p;
    std::vector<HugeEdge> edges;
    int nodes = 1;        // variable i is node i + 1, node 0 is zero
    bool unsat = false;
    size_t atleast = 1;   // known number of answers
    int head = -1, tail = -1; // objective: maximise (or minimise the negation of) head - tail
    bool has_objective = false;
};

inline Huge gen_huge(Src &s, bool strict, bool objective, std::string &family) {
    Huge h;
    auto &p = h.p;
    int shape = static_cast<int>(s.weighted({50, 16, 16, 18}));
    int nv = 0, na = 0, nc = 0;
    auto big = [&] { return s.chance(70) ? s.range(257, 400) : s.range(60, 256); };
    switch (shape) {
        case 0: family = "many atoms"; na = big(); nc = na; nv = s.range(5, 30); break;
        case 1: family = "many variables"; nv = big(); na = s.range(10, 60); nc = nv + s.range(0, 60); break;
        case 2: family = "many bounds"; nv = s.range(1, 3); na = s.range(20, 200); nc = big(); break;
        default: family = "many rows"; nv = s.range(8, 30); na = s.range(10, 60); nc = big(); break;
    }
    h.nodes = nv + 1;
    for (int i = 0; i < nv; ++i) { p.vars.push_back("x" + std::to_string(i)); }
    std::string all;
    for (int i = 0; i < na; ++i) {
        p.choice.push_back("a" + std::to_string(i));
        all += (i ? "; a" : "a") + std::to_string(i);
    }
    p.regular.push_back({"{ " + all + " }."});
    std::vector<long> x{0};
    for (int i = 0; i < nv; ++i) { x.push_back(s.range(-20, 20)); }
    std::vector<bool> hidden, free;
    for (int i = 0; i < na; ++i) {
        hidden.push_back(s.chance(50));
        free.push_back(true);
    }
    int hard = s.pick(std::vector<int>{0, 5, 20, 50}), fact = s.pick(std::vector<int>{0, 10, 50});
    auto add = [&](int from, int to, long d, bool st, bool eq, std::vector<Lit> body) {
        Q c = s.range(1, 4);
        if (s.chance(15)) { c /= s.range(2, 5); }
        if (s.chance(50)) { c = -c; }
        std::vector<LargeTerm> ts;
        if (to) { ts.push_back({c, p.vars[to - 1]}); }
        if (from) { ts.push_back({-c, p.vars[from - 1]}); }
        if (s.chance(30)) { std::reverse(ts.begin(), ts.end()); }
        Rel rel = eq ? Rel::EQ : c > 0 ? (st ? Rel::LT : Rel::LE) : (st ? Rel::GT : Rel::GE);
        int con = static_cast<int>(p.cons.size());
        p.cons.push_back(large_con(s, ts, rel, c * d, std::move(body)));
        h.edges.push_back({from, to, d, st, con});
        if (eq) { h.edges.push_back({to, from, -d, false, con}); }
    };
    for (int k = 0; k < nc; ++k) {
        int a = 0, b = 0;
        if (shape == 1 && k < nv) { a = k > 0 && s.chance(80) ? k : s.range(0, nv); b = k + 1; }
        else { a = shape == 2 && s.chance(90) ? 0 : s.range(0, nv); b = s.range(1, nv); }
        if (a == b) { a = 0; }
        if (s.chance(50)) { std::swap(a, b); }
        bool st = strict && s.chance(20), eq = !st && s.chance(4);
        int atom = shape == 0 ? k : s.range(0, na - 1);
        bool neg = s.chance(50);
        long d = x[b] - x[a];
        std::vector<Lit> body{{"a" + std::to_string(atom), neg}};
        if (s.chance(hard)) { // violated by the planted assignment: must not be active in the planted answer
            neg = hidden[atom];
            body[0].neg = neg;
            free[atom] = false;
            d -= s.range(1, 10);
        } else {
            if (s.chance(fact)) { body.clear(); }
            if (!eq && s.chance(70)) { d += s.range(0, 8); }
            if (st && d == x[b] - x[a]) { ++d; }
        }
        add(a, b, d, st, eq, std::move(body));
    }
    if (s.chance(12) && nv >= 3) { // three jobs that do not fit
        h.unsat = true;
        int i0 = s.range(1, nv - 2);
        long len = s.range(2, 5);
        for (int i = 0; i < 3; ++i) {
            add(i0 + i, 0, 0, false, false, {});
            add(0, i0 + i, 3 * len - 1 - len, false, false, {});
            for (int j = i + 1; j < 3; ++j) {
                std::string a = "a" + std::to_string(s.range(0, na - 1));
                add(i0 + j, i0 + i, -len, false, false, {{a, false}});
                add(i0 + i, i0 + j, -len, false, false, {{a, true}});
            }
        }
    }
    for (int i = 0; i < na && h.atleast < 1000; ++i) { if (free[i]) { h.atleast *= 2; } }
    if (objective) {
        h.has_objective = true;
        h.head = s.range(0, nv);
        h.tail = s.range(0, nv);
        if (h.head == h.tail) { h.head = h.tail ? 0 : 1; }
        Obj o;
        o.minimise = s.chance(50);
        auto term = [&](int v, int co) { if (v) { Elem el; el.e = term_expr(s, o.minimise ? -co : co, p.vars[v - 1], 0); o.elems.push_back(el); } };
        term(h.head, 1);
        term(h.tail, -1);
        p.objs.push_back(o);
    }
    if (s.chance(50)) {
        std::vector<int> at(p.cons.size());
        for (size_t i = 0; i < at.size(); ++i) { at[i] = static_cast<int>(i); }
        for (size_t i = at.size(); i > 1; --i) { std::swap(at[i - 1], at[s.u(static_cast<uint32_t>(i))]); }
        std::vector<Con> cons(at.size());
        for (size_t i = 0; i < at.size(); ++i) { cons[at[i]] = std::move(p.cons[i]); }
        p.cons = std::move(cons);
        for (auto &e : h.edges) { e.con = at[e.con]; }
    }
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &k) { return k.strict(); });
    return h;
}

using HugeDist = std::pair<long, long>; // value, minus the number of strict edges

// shortest distances of the edges of active constraints; false if infeasible
inline bool huge_paths(Huge const &h, std::vector<bool> const &active, int source, std::vector<std::optional<HugeDist>> &dist) {
    dist.assign(h.nodes, std::nullopt);
    if (source >= 0) { dist[source] = HugeDist{0, 0}; } else { dist.assign(h.nodes, HugeDist{0, 0}); }
    for (int round = 0; round <= h.nodes; ++round) {
        bool changed = false;
        for (auto const &e : h.edges) {
            if (!active[e.con] || !dist[e.from]) { continue; }
            HugeDist n{dist[e.from]->first + e.d, dist[e.from]->second - (e.strict ? 1 : 0)};
            if (!dist[e.to] || n < *dist[e.to]) { dist[e.to] = n; changed = true; }
        }
        if (!changed) { return true; }
    }
    return false;
}

enum class HugeMode { Sound, Answers, Optimum, All };

inline void huge(Ctx &c, bool strict, bool objective, HugeMode mode) {
    auto &s = c.src;
    std::string family;
    auto h = gen_huge(s, strict, objective, family);
    auto &p = h.p;
    strict = strict || p.strict;
    auto o = gen_options(s, strict, s.chance(70));
    if (s.chance(40) && std::none_of(o.clasp.begin(), o.clasp.end(), [](auto const &x) { return x.rfind("--sign-def", 0) == 0; })) { o.clasp.push_back(s.chance(50) ? "--sign-def=rnd" : "--sign-def=pos"); }
    o.clasp.push_back("--solve-limit=" + std::to_string(s.pick(std::vector<int>{20, 100, 300})));
    c.describe(show(p, o));
    c.label("huge: " + family);
    size_t limit = 1 + s.u(s.chance(40) ? 40 : 4);
    auto r = lpx(p.text(), o, limit);
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    bool all = mode == HugeMode::All;
    if (mode != HugeMode::Sound && mode != HugeMode::Optimum) {
        if (h.unsat) { CHECK(!r.sat, "answer reported although there is none"); }
        else {
            CHECK(!r.unsat, "no answer reported although there is one");
            CHECK(!r.exhausted || r.models.size() >= std::min(limit, h.atleast), "only " << r.models.size() << " answers although there are at least " << h.atleast);
        }
    }
    if (!r.sat && !r.unsat) { c.label("huge: undecided"); }
    std::set<Atoms> seen;
    for (auto const &m : r.models) {
        auto rows = p.rows(m.atoms);
        std::vector<bool> active;
        for (auto const &k : p.cons) { active.push_back(holds(k.body, m.atoms)); }
        std::vector<std::optional<HugeDist>> dist;
        bool feasible = huge_paths(h, active, -1, dist);
        if (all || mode == HugeMode::Answers) {
            CHECK(seen.insert(m.atoms).second, "answer " << m.id() << " reported twice");
            CHECK(feasible, "answer " << m.id() << " has an unsatisfiable constraint system");
        }
        if (all || mode == HugeMode::Sound) { check_sound(p, m, rows, o.strict); }
        if (feasible && h.has_objective && (all || mode == HugeMode::Optimum)) {
            CHECK(m.objective, "answer " << m.id() << ": no objective value reported");
            CHECK(huge_paths(h, active, h.tail, dist), "oracle: no shortest path");
            auto const &best = dist[h.head];
            CHECK(best.has_value() == m.objective->second, "answer " << m.id() << ": optimum is " << (best ? "bounded" : "unbounded") << " but " << m.raw_objective << " is reported as " << (m.objective->second ? "bounded" : "unbounded"));
            if (best) {
                Q sup = p.objs[0].minimise ? Q(best->first) : Q(best->first);
                CHECK(m.objective->first.c == sup, "answer " << m.id() << ": optimum is " << sup << " but " << m.raw_objective << " is reported");
                CHECK(best->second == 0 ? m.objective->first.k == 0 : m.objective->first.k < 0, "answer " << m.id() << ": optimum " << sup << (best->second == 0 ? " is attained" : " is not attained") << " but " << m.raw_objective << " is reported");
                auto val = p.objective(m.atoms).eval(m.values);
                CHECK(val == m.objective->first, "answer " << m.id() << ": assignment has objective value " << val.str() << " but " << m.raw_objective << " is reported");
                c.label("huge: bounded optimum");
            }
        }
    }
    if (h.unsat) { c.label("huge: no answer"); }
    c.nontrivial = !r.models.empty() || (h.unsat && r.unsat);
}

// hundreds of improvements of a global objective
inline void huge_global(Ctx &c, bool strict, Step const &st) {
    auto &s = c.src;
    Prog p;
    p.vars = {"x"};
    p.regular.emplace_back();
    auto &rules = p.regular[0];
    int n = s.chance(80) ? s.range(257, 330) : s.range(100, 256);
    bool chain = s.chance(40), minimise = s.chance(50), open = s.chance(8);
    Q at = s.range(-300, 20), inc = s.chance(60) ? Q(1) : Q(s.range(1, 5), s.range(1, 4));
    inc.canonicalize();
    Q scale = s.range(1, 3);
    std::vector<Q> value;
    std::vector<bool> below;
    std::string all;
    for (int i = 0; i < n; ++i) {
        p.choice.push_back("a" + std::to_string(i));
        all += (i ? "; a" : "a") + std::to_string(i);
        if (chain && i) { rules.push_back(":- a" + std::to_string(i - 1) + ", not a" + std::to_string(i) + "."); }
    }
    rules.push_back(chain ? "{ " + all + " }." : "1 { " + all + " } 1.");
    p.cons.push_back(large_con(s, {{scale, "x"}}, Rel::GE, scale * (at - 1)));
    for (int i = 0; i < n; ++i) {
        // value of the answer with the choice of a_i (or of the first i atoms of the chain)
        value.push_back(at + inc * i);
        below.push_back(strict && s.chance(30));
    }
    // the objective is x (or the negation to be minimised); x <= value
    for (int i = 0; i < n; ++i) {
        if (open && i == n - 1) { break; }
        std::vector<Lit> body{{"a" + std::to_string(chain ? n - 1 - i : i), chain}};
        p.cons.push_back(large_con(s, {{scale, "x"}}, below[i] ? Rel::LT : Rel::LE, scale * value[i], body));
    }
    if (chain && !open) { p.cons.push_back(large_con(s, {{1, "x"}}, Rel::LE, at + inc * n)); }
    Obj o;
    o.minimise = minimise;
    Elem el;
    el.e = term_expr(s, minimise ? -1 : 1, "x", 0);
    o.elems.push_back(el);
    p.objs.push_back(o);
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &k) { return k.strict(); });
    auto opt = gen_options(s, strict, s.chance(50));
    opt.objective = st.text;
    c.describe(show(p, opt));
    c.label("huge: many improvements");
    auto r = lpx(p.text(), opt, 2000);
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    if (r.truncated) { throw pbt::Discard{}; }
    CHECK(r.sat && r.exhausted, "wrong verdict");
    Model const *prev = nullptr;
    std::set<Atoms> seen;
    for (auto const &m : r.models) {
        CHECK(seen.insert(m.atoms).second, "answer " << m.id() << " reported twice");
        CHECK(m.objective, "no objective reported");
        check_sound(p, m, p.rows(m.atoms), strict);
        std::optional<std::pair<Q, bool>> sup; // least bound
        auto bound = [&](Q const &v, bool strict) { if (!sup || v < sup->first || (v == sup->first && strict)) { sup = {v, strict}; } };
        for (int i = 0; i < n; ++i) {
            if (open && i == n - 1) { continue; }
            if (holds({{"a" + std::to_string(chain ? n - 1 - i : i), chain}}, m.atoms)) { bound(value[i], below[i]); }
        }
        if (chain && !open) { bound(at + inc * n, false); }
        CHECK(m.objective->second == sup.has_value(), "answer " << m.id() << ": reported as " << (sup ? "unbounded" : "bounded"));
        if (sup) {
            CHECK(m.objective->first.c == sup->first && (m.objective->first.k != 0) == sup->second, "answer " << m.id() << ": optimum is " << sup->first << (sup->second ? " (not attained)" : "") << " but " << m.raw_objective << " is reported");
        }
        if (prev) {
            CHECK(prev->objective->second || !m.objective->second, "bounded answer after an unbounded one");
            if (m.objective->second) { CHECK((prev->objective->first + QK{st.c, st.k}) <= m.objective->first, "objective " << m.raw_objective << " follows " << prev->raw_objective); }
        }
        prev = &m;
    }
    CHECK(!open || !prev->objective->second, "last answer is bounded although there is an unbounded one");
    if (!open) {
        Q best = chain ? at + inc * n : value[n - 1], last = prev->objective->first.c;
        CHECK(st.c == 0 ? last == best : best <= last + st.c, "last answer has objective " << prev->raw_objective << ", the best one has " << best);
        CHECK(st.c == 0 || best < last + st.c || strict, "last answer has objective " << prev->raw_objective << ", the best one has " << best);
    }
    if (r.models.size() > 256) { c.label("huge: more than 256 improvements"); }
    c.nontrivial = r.models.size() > 20;
}

} // namespace shared
