// Larger programs.  Their stable models are too many to look at each, so the
// reference is a small SMT solver: plain clingo searches over the regular part
// while a propagator asks the exact LP about each total assignment and excludes
// the truth values its certificate of infeasibility depends on.
#pragma once
#include "shared.hh"

namespace shared {

class Lazy : Clingo::Propagator {
  public:
    // only models whose objective is at least (greater than if strict) the given value
    struct Least { Q value; bool strict = false; };

    Lazy(Prog const &p, std::optional<Least> least = {}, size_t lps = 600) : p_{p}, least_{std::move(least)}, lps_{lps} {
        auto lits = [](std::set<std::string> &out, std::vector<Lit> const &b) { for (auto const &l : b) { out.insert(l.atom); } };
        for (auto const &k : p.cons) {
            atoms_.emplace_back();
            lits(atoms_.back(), k.body);
            for (auto const &el : k.elems) { lits(atoms_.back(), el.cond); }
        }
        atoms_.emplace_back();
        for (auto const &o : p.objs) { for (auto const &el : o.elems) { lits(atoms_.back(), el.cond); } }
    }
    // up to limit feasible models; complete if there are no more
    Expected run(size_t limit) {
        Expected e;
        complete = false;
        Clingo::Control ctl{{std::to_string(limit + 1).c_str()}, [](Clingo::WarningCode, char const *) {}, 1000};
        ctl.register_propagator(*this);
        ctl.add("base", {}, p_.regular_text().c_str());
        ctl.ground({{"base", {}}});
        {
            auto h = ctl.solve(Clingo::LiteralSpan{}, nullptr, false, true);
            for (auto const &m : h) {
                if (e.models.size() == limit) { return e; }
                Expected::M x;
                for (auto const &s : m.symbols(Clingo::ShowType::Shown)) { x.atoms.insert(s.to_string()); }
                x.rows = p_.rows(x.atoms);
                x.feasible = true;
                e.models.push_back(std::move(x));
                ++e.feasible;
            }
            if (failed_) { throw pbt::Discard{}; }
        }
        complete = true;
        return e;
    }
    bool complete = false;
    size_t checked = 0, conflicts = 0;

  private:
    void init(Clingo::PropagateInit &init) override {
        lit_.clear();
        for (auto a : init.symbolic_atoms()) { lit_[a.symbol().to_string()] = init.solver_literal(a.literal()); }
    }
    void check(Clingo::PropagateControl &ctl) override {
        if (failed_) { ctl.add_clause({}); return; }
        auto ass = ctl.assignment();
        Atoms m;
        for (auto const &[a, l] : lit_) { if (ass.is_true(l)) { m.insert(a); } }
        std::vector<ref::Row> rows;
        std::vector<size_t> owner;
        for (size_t i = 0; i < p_.cons.size(); ++i) {
            p_.cons[i].rows(m, rows);
            owner.resize(rows.size(), i);
        }
        if (least_) {
            Lin least;
            least.cst = least_->value;
            rows.push_back(ref::make_row(p_.objective(m), least_->strict ? Rel::GT : Rel::GE, least));
            owner.push_back(p_.cons.size());
        }
        if (++checked > lps_) { failed_ = true; ctl.add_clause({}); return; }
        std::set<size_t> core;
        if (ref::feasible(rows, &core)) { return; }
        ++conflicts;
        std::set<std::string> fixed;
        for (auto i : core) { fixed.insert(atoms_[owner[i]].begin(), atoms_[owner[i]].end()); }
        std::vector<Clingo::literal_t> clause;
        for (auto const &a : fixed) {
            auto it = lit_.find(a);
            if (it != lit_.end()) { clause.push_back(ass.is_true(it->second) ? -it->second : it->second); }
        }
        ctl.add_clause(clause);
    }

    Prog const &p_;
    std::optional<Least> least_;
    std::vector<std::set<std::string>> atoms_; // the rows of a constraint depend on
    std::map<std::string, Clingo::literal_t> lit_;
    size_t lps_;
    bool failed_ = false;
};

// is this the set of atoms of a stable model
inline bool stable(Prog const &p, Atoms const &a) {
    Clingo::Control ctl{{"2"}, [](Clingo::WarningCode, char const *) {}, 1000};
    std::string text = p.regular_text();
    for (auto const &x : p.choice) { text += a.count(x) ? ":- not " + x + ".\n" : ":- " + x + ".\n"; }
    ctl.add("base", {}, text.c_str());
    ctl.ground({{"base", {}}});
    auto h = ctl.solve(Clingo::LiteralSpan{}, nullptr, false, true);
    for (auto const &m : h) {
        Atoms b;
        for (auto const &s : m.symbols(Clingo::ShowType::Shown)) { b.insert(s.to_string()); }
        if (a == b) { return true; }
    }
    return false;
}

struct LargeTerm { Q co; std::string var; std::vector<Lit> cond = {}; };

inline Con large_con(Src &s, std::vector<LargeTerm> const &ts, Rel rel, Q const &rhs, std::vector<Lit> body = {}) {
    Con k;
    for (auto const &t : ts) {
        Elem el;
        el.e = t.var.empty() ? num_expr(s, t.co, 0) : term_expr(s, t.co, t.var, s.chance(10) ? 1 : 0);
        el.cond = t.cond;
        k.elems.push_back(std::move(el));
    }
    k.rel = rel;
    k.guard = num_expr(s, rhs, 0);
    k.body = std::move(body);
    return k;
}

inline Prog gen_large(Src &s, bool strict, int objective, std::string &family) {
    Prog p;
    p.regular.emplace_back();
    auto &rules = p.regular[0];
    auto var = [&](int i) { std::string v = "x" + std::to_string(i); if (std::find(p.vars.begin(), p.vars.end(), v) == p.vars.end()) { p.vars.push_back(v); } return v; };
    auto atom = [&](int i) { std::string a = "a" + std::to_string(i); if (std::find(p.choice.begin(), p.choice.end(), a) == p.choice.end()) { p.choice.push_back(a); } return a; };
    auto choose = [&](int n) { // choices between all atoms so far
        std::string all;
        for (int i = 0; i < n; ++i) { all += (i ? "; " : "") + atom(i); }
        int lo = s.chance(40) ? s.range(0, n / 2) : 0, hi = s.chance(40) ? s.range(n / 2, n) : n;
        rules.push_back(std::to_string(lo) + " { " + all + " } " + std::to_string(hi) + ".");
    };
    auto le = [&] { return strict && s.chance(30) ? Rel::LT : Rel::LE; };
    auto ge = [&] { return strict && s.chance(30) ? Rel::GT : Rel::GE; };
    auto add = [&](Con k) { p.cons.push_back(std::move(k)); };
    std::vector<LargeTerm> goal;
    bool minimise = s.chance(50);
    auto coef = [&](int hi) { Q q = s.range(1, hi); if (s.chance(50)) { q = -q; } if (s.chance(6)) { q /= s.range(2, 7); } return q; };
    switch (s.weighted({20, 30, 14, 14, 12, 10})) {
        case 0: { // disjunctive scheduling
            family = "scheduling";
            int n = s.range(3, 6), machines = s.range(1, 2), k = 0;
            std::vector<Q> d;
            Q sum = 0;
            for (int i = 0; i < n; ++i) { d.push_back(s.chance(10) ? Q(s.range(1, 20), 3) : Q(s.range(1, 9))); d.back().canonicalize(); sum += d.back(); }
            Q horizon = sum * s.range(6, 11) / 10;
            std::vector<int> on;
            for (int i = 0; i < n; ++i) {
                on.push_back(s.range(0, machines - 1));
                add(large_con(s, {{1, var(i)}}, ge(), 0));
                if (s.chance(85)) { add(large_con(s, {{1, var(i)}}, le(), horizon - d[i])); }
            }
            for (int i = 0; i < n; ++i) {
                for (int j = i + 1; j < n; ++j) {
                    if (on[i] == on[j]) {
                        rules.push_back("{ " + atom(k) + " }.");
                        add(large_con(s, {{1, var(j)}, {-1, var(i)}}, ge(), d[i], {{atom(k), false}}));
                        add(large_con(s, {{1, var(i)}, {-1, var(j)}}, ge(), d[j], {{atom(k), true}}));
                        ++k;
                    } else if (s.chance(25)) { add(large_con(s, {{1, var(j)}, {-1, var(i)}}, ge(), d[i])); }
                }
            }
            if (s.chance(60)) {
                for (int i = 0; i < n; ++i) { add(large_con(s, {{1, var(n)}, {-1, var(i)}}, Rel::GE, d[i])); }
                goal.push_back({1, var(n)});
            } else { for (int i = 0; i < n; ++i) { goal.push_back({s.range(1, 3), var(i)}); } }
            minimise = s.chance(80);
            break;
        }
        case 1: { // switched rows around a hidden point
            family = "switched rows";
            int nv = s.range(6, 20), na = s.range(4, 12), nc = s.range(10, 30);
            choose(na);
            std::vector<Q> x;
            for (int i = 0; i < nv; ++i) { x.push_back(s.range(-6, 6)); }
            std::vector<bool> h;
            for (int i = 0; i < na; ++i) { h.push_back(s.chance(50)); }
            bool box = s.chance(60);
            for (int i = 0; i < nv && box; ++i) {
                add(large_con(s, {{1, var(i)}}, ge(), x[i] - s.range(1, 6)));
                add(large_con(s, {{1, var(i)}}, le(), x[i] + s.range(1, 6)));
            }
            for (int c = 0; c < nc; ++c) {
                std::vector<LargeTerm> ts;
                std::set<int> used;
                Q v = 0;
                for (int n = s.range(2, s.chance(20) ? nv : 5); n > 0; --n) {
                    int i = s.range(0, nv - 1);
                    if (!used.insert(i).second) { continue; }
                    ts.push_back({coef(5), var(i)});
                    v += ts.back().co * x[i];
                }
                std::vector<Lit> body;
                bool in = true;
                for (int n = s.range(s.chance(20) ? 0 : 1, 2); n > 0; --n) {
                    int a = s.range(0, na - 1);
                    bool neg = s.chance(50);
                    body.push_back({atom(a), neg});
                    in = in && h[a] != neg;
                }
                bool up = s.chance(50);
                Q off = in || s.chance(30) ? Q(s.chance(50) ? 0 : s.range(0, 8)) : Q(-s.range(1, 20));
                if (s.chance(8) && in) { add(large_con(s, ts, Rel::EQ, v, body)); }
                else if (up) { add(large_con(s, ts, Rel::LE, v + off, body)); }
                else { add(large_con(s, ts, Rel::GE, v - off, body)); }
            }
            for (int n = s.range(1, 6); n > 0; --n) { goal.push_back({coef(4), var(s.range(0, nv - 1))}); }
            break;
        }
        case 2: { // long sums of conditional elements
            family = "conditional sums";
            int nv = s.range(2, 5), na = s.range(5, 10);
            choose(na);
            for (int i = 0; i < nv; ++i) {
                add(large_con(s, {{1, var(i)}}, ge(), s.range(0, 2)));
                if (s.chance(80)) { add(large_con(s, {{1, var(i)}}, le(), s.range(2, 9))); }
            }
            for (int k = s.range(1, 3); k > 0; --k) {
                std::vector<LargeTerm> ts;
                for (int n = s.range(8, 30); n > 0; --n) {
                    LargeTerm t{coef(6), s.chance(20) ? "" : var(s.range(0, nv - 1))};
                    int m = s.range(0, 2);
                    for (; m > 0; --m) { t.cond.push_back({atom(s.range(0, na - 1)), s.chance(40)}); }
                    ts.push_back(t);
                }
                // the same element may not occur twice
                std::set<std::string> keys;
                auto c = large_con(s, ts, s.chance(15) ? Rel::EQ : s.chance(50) ? le() : ge(), s.range(-30, 30));
                c.elems.erase(std::remove_if(c.elems.begin(), c.elems.end(), [&](Elem const &e) { return !keys.insert(e.key()).second; }), c.elems.end());
                add(c);
            }
            for (int n = s.range(1, nv); n > 0; --n) { goal.push_back({coef(4), var(s.range(0, nv - 1)), s.chance(50) ? std::vector<Lit>{{atom(s.range(0, na - 1)), false}} : std::vector<Lit>{}}); }
            break;
        }
        case 3: { // transportation
            family = "transportation";
            int m = s.range(2, 5), n = s.range(2, 6), na = s.range(0, 6);
            if (na) { choose(na); }
            std::vector<int> need(n, 0), have(m, 0);
            for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) { int q = s.range(0, 4); have[i] += q; need[j] += q; } }
            for (int i = 0; i < m; ++i) {
                std::vector<LargeTerm> ts;
                for (int j = 0; j < n; ++j) { ts.push_back({1, var(i * n + j)}); add(large_con(s, {{1, var(i * n + j)}}, Rel::GE, 0)); }
                add(large_con(s, ts, s.chance(50) ? Rel::EQ : Rel::LE, have[i] + (s.chance(15) ? s.range(-1, 2) : 0)));
            }
            for (int j = 0; j < n; ++j) {
                std::vector<LargeTerm> ts;
                for (int i = 0; i < m; ++i) { ts.push_back({1, var(i * n + j)}); }
                add(large_con(s, ts, s.chance(50) ? Rel::EQ : Rel::GE, need[j]));
            }
            for (int a = 0; a < na; ++a) {
                for (int k = s.range(1, 3); k > 0; --k) { add(large_con(s, {{1, var(s.range(0, m * n - 1))}}, le(), s.range(0, 2), {{atom(a), s.chance(50)}})); }
            }
            for (int i = 0; i < m * n; ++i) { goal.push_back({s.range(1, 9), var(i)}); }
            minimise = s.chance(80);
            break;
        }
        case 4: { // many bounds for few variables
            family = "many bounds";
            int nv = s.range(1, 4), na = s.range(6, 12);
            choose(na);
            for (int k = s.range(12, 40); k > 0; --k) {
                bool up = s.chance(50);
                Q b = s.range(-9, 9);
                if (up) { b += 4; } else { b -= 4; }
                std::vector<Lit> body;
                for (int n = s.range(1, 2); n > 0; --n) { body.push_back({atom(s.range(0, na - 1)), s.chance(40)}); }
                if (s.chance(70) || nv == 1) { add(large_con(s, {{coef(3), var(s.range(0, nv - 1))}}, s.chance(7) ? Rel::EQ : up ? le() : ge(), b, body)); }
                else { add(large_con(s, {{1, var(0)}, {s.chance(70) ? 1 : -1, var(1)}}, s.chance(7) ? Rel::EQ : up ? le() : ge(), b, body)); }
            }
            for (int i = 0; i < nv; ++i) { if (s.chance(60)) { add(large_con(s, {{1, var(i)}}, le(), s.range(0, 12))); add(large_con(s, {{1, var(i)}}, ge(), -s.range(0, 12))); } }
            for (int i = 0; i < static_cast<int>(p.vars.size()); ++i) { goal.push_back({coef(3), var(i)}); }
            break;
        }
        default: { // chains
            family = "chain";
            int n = s.range(5, 14);
            for (int i = 0; i < n; ++i) {
                rules.push_back("{ " + atom(i) + " }.");
                int lo = s.range(0, 2), hi = lo + s.range(1, 3);
                add(large_con(s, {{1, var(i + 1)}, {-1, var(i)}}, Rel::GE, lo));
                add(large_con(s, {{1, var(i + 1)}, {-1, var(i)}}, Rel::LE, hi));
                bool up = s.chance(50);
                add(large_con(s, {{1, var(i + 1)}, {-1, var(i)}}, up ? ge() : le(), Q(lo + hi) / 2, {{atom(i), s.chance(30)}}));
            }
            Q total = s.range(n / 2, 2 * n);
            add(large_con(s, {{1, var(n)}, {-1, var(0)}}, s.chance(50) ? Rel::EQ : s.chance(50) ? le() : ge(), total));
            if (s.chance(50)) { add(large_con(s, {{1, var(0)}}, Rel::EQ, s.range(-3, 3))); }
            goal.push_back({1, var(s.range(0, n))});
            if (s.chance(50)) { goal.push_back({-1, var(s.range(0, n))}); }
            break;
        }
    }
    if (objective == 2 || (objective == 1 && s.chance(40))) {
        Obj o;
        o.minimise = minimise;
        std::set<std::string> keys;
        for (auto const &t : goal) {
            Elem el;
            el.e = term_expr(s, t.co, t.var, 0);
            el.cond = t.cond;
            if (keys.insert(el.key()).second) { o.elems.push_back(el); }
        }
        p.objs.push_back(o);
    }
    // order matters to simplex
    if (s.chance(50)) { for (size_t i = p.cons.size(); i > 1; --i) { std::swap(p.cons[i - 1], p.cons[s.u(static_cast<uint32_t>(i))]); } }
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return x.strict(); });
    return p;
}

// answers (and optima) of a larger program; all if there are at most 40
inline void large(Ctx &c, bool strict, int objective) {
    auto &s = c.src;
    std::string family;
    auto p = gen_large(s, strict, objective, family);
    strict = strict || p.strict;
    auto o = gen_options(s, strict, s.chance(70));
    c.describe(show(p, o));
    c.label("large: " + family);
    Lazy lazy{p};
    auto e = lazy.run(40);
    Result r = lpx(p.text(), o, lazy.complete ? e.models.size() + 20 : 1 + s.u(20));
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    if (lazy.complete) {
        check_answers(e, r);
        c.label("large: all answers compared");
    } else { CHECK(r.sat && !r.models.empty(), "no answer reported although there are some"); }
    std::set<Atoms> seen;
    for (auto const &m : r.models) {
        CHECK(seen.insert(m.atoms).second, "answer " << m.id() << " reported twice");
        if (!lazy.complete) { CHECK(stable(p, m.atoms), "answer " << m.id() << " is not a stable model of the regular part"); }
        auto rows = p.rows(m.atoms);
        check_sound(p, m, rows, o.strict);
        if (seen.size() < 8) { check_objective(p, m, rows); }
    }
    c.nontrivial = lazy.conflicts > 0 || (!r.models.empty() && p.cons.size() > 10);
}

// the best answer of a larger program
inline void large_global(Ctx &c, Q const &step, std::string const &objective) {
    auto &s = c.src;
    std::string family;
    auto p = gen_large(s, false, 2, family);
    auto o = gen_options(s, false, s.chance(70));
    o.objective = objective;
    c.describe(show(p, o));
    c.label("large: " + family);
    Lazy any{p};
    auto e = any.run(1);
    auto r = lpx(p.text(), o, 300);
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    CHECK(r.sat == (e.feasible > 0), "wrong verdict");
    if (r.truncated) { throw pbt::Discard{}; }
    CHECK(r.exhausted, "search not exhausted");
    Model const *prev = nullptr;
    for (auto const &m : r.models) {
        auto rows = p.rows(m.atoms);
        CHECK(stable(p, m.atoms), "answer " << m.id() << " is not a stable model of the regular part");
        check_sound(p, m, rows, false);
        check_objective(p, m, rows);
        if (!m.objective) { return; }
        if (prev) {
            CHECK(prev->objective->second || !m.objective->second, "bounded answer after an unbounded one");
            if (prev->objective->second && m.objective->second) { CHECK(prev->objective->first.c + step <= m.objective->first.c, "objective " << m.raw_objective << " follows " << prev->raw_objective); }
        }
        prev = &m;
    }
    if (!prev || !prev->objective->second) { c.nontrivial = prev != nullptr; return; }
    Lazy better{p, Lazy::Least{prev->objective->first.c + step, step == 0}};
    auto b = better.run(1);
    CHECK(b.models.empty(), "last answer has objective " << prev->raw_objective << ", but the answer with " << b.models.size() << " shown atoms is better: " << [&] { Model m; if (!b.models.empty()) { m.atoms = b.models[0].atoms; } return m.id(); }());
    c.label("large: optimum confirmed");
    c.nontrivial = better.conflicts > 0;
}

} // namespace shared
