// C05 C10 C11 C21 C22: relations between programs or between configurations
#include "history.hh"
#include "other.hh"

using namespace shared;

namespace {

using Key = std::pair<Atoms, std::string>;

std::string obj_key(Model const &m, bool strict, Q const &factor = 1) {
    if (!m.objective) { return "none"; }
    if (!m.objective->second) { return "unbounded"; }
    auto const &v = m.objective->first;
    std::ostringstream o;
    Q x = factor * v.c;
    o << x;
    // only the sign of the infinitesimal part is determined
    if (strict) { Q k = factor * v.k; o << (k == 0 ? "" : k < 0 ? " -e" : " +e"); }
    return o.str();
}

std::map<Atoms, std::string> table(Result const &r, bool strict, Q const &factor = 1) {
    CHECK(!r.error, "unexpected error: " << r.msg);
    CHECK(r.exhausted && r.sat != r.unsat, "search not completed");
    std::map<Atoms, std::string> t;
    for (auto const &m : r.models) { CHECK(t.emplace(m.atoms, obj_key(m, strict, factor)).second, "answer " << m.id() << " reported twice"); }
    CHECK(r.sat == !t.empty(), "verdict does not match the number of answers");
    return t;
}

void compare(std::map<Atoms, std::string> const &a, std::map<Atoms, std::string> const &b, std::string const &wa, std::string const &wb) {
    auto id = [](Atoms const &x) { Model m; m.atoms = x; return m.id(); };
    for (auto const &[k, v] : a) {
        auto it = b.find(k);
        CHECK(it != b.end(), "answer " << id(k) << " is reported " << wa << " but not " << wb);
        CHECK(it->second == v, "answer " << id(k) << " has objective " << v << " " << wa << " but " << it->second << " " << wb);
    }
    for (auto const &[k, v] : b) { CHECK(a.count(k), "answer " << id(k) << " is reported " << wb << " but not " << wa); }
}

// --- C05
void c05(Ctx &c) {
    bool strict = c.src.chance(20);
    auto conf = mixed(c.src, strict);
    if (c.src.chance(30)) { conf.atoms_lo = std::max(conf.atoms_lo, 4); conf.atoms_hi = std::max(conf.atoms_hi, 6); conf.cons_hi = 24; conf.avg_cons = 16; }
    auto p = gen_prog(c.src, conf);
    strict = strict || p.strict;
    Options base;
    base.strict = strict;
    auto r0 = lpx(p.text(), base);
    c.ran();
    if (r0.error) { pbt::fail("unexpected error: " + r0.msg); }
    if (r0.models.size() > 2000) { throw pbt::Discard{}; }
    int n = c.src.range(2, 4);
    std::string d = "strict: " + std::to_string(strict) + "\n" + p.text();
    c.describe(d);
    auto t0 = table(r0, strict);
    double pivots = r0.step.pivots;
    bool differ = false;
    for (int i = 0; i < n; ++i) {
        Options o;
        o.strict = strict;
        o.select = std::vector<std::string>{"", "match", "conflict", "none"}[c.src.u(4)];
        o.store = std::vector<std::string>{"", "partial", "total", "no"}[c.src.u(4)];
        o.bounds = std::vector<std::string>{"", "full", "changed", "none"}[c.src.u(4)];
        o.conflicts = std::vector<std::string>{"", "yes", "no"}[c.src.u(3)];
        gen_clasp(c.src, o);
        d += "options:" + o.str() + "\n";
        c.describe(d);
        auto r = lpx(p.text(), o, r0.models.size() + 50);
        c.ran();
        CHECK(!r.truncated, "more answers than with default options");
        compare(t0, table(r, strict), "with default options", "with" + o.str());
        differ = differ || r.step.pivots != pivots;
    }
    if (!p.choice.empty() && c.src.chance(35)) { // together with another propagator
        Options o;
        o.strict = strict;
        o.bounds = std::vector<std::string>{"", "full", "changed", "none"}[c.src.u(4)];
        o.conflicts = std::vector<std::string>{"", "yes", "no"}[c.src.u(3)];
        if (c.src.chance(60)) { gen_clasp(c.src, o); }
        Other other;
        auto extra = other.gen(c.src, p.choice);
        bool before = c.src.chance(50);
        if (!before) { other.last(); }
        d += "options:" + o.str() + " and a propagator, registered " + (before ? "before" : "after") + " the theory, for\n" + extra;
        c.describe(d);
        auto ok = [&](Atoms const &m) { return std::none_of(other.nogoods.begin(), other.nogoods.end(), [&](auto const &n) { return holds(n, m); }); };
        auto want = t0;
        for (auto it = want.begin(); it != want.end();) { it = ok(it->first) ? std::next(it) : want.erase(it); }
        auto r = lpx(p.text(), o, r0.models.size() + 50, other, before);
        c.ran();
        CHECK(!r.truncated, "more answers than without the other propagator");
        compare(want, table(r, strict), "when filtered afterwards", "with the other propagator");
        if (other.clauses) { c.label("clauses of another propagator"); }
        if (other.decided) { c.label("decisions of another propagator"); }
        differ = differ || (r.step.pivots != pivots);
    }
    if (differ) { c.label("search differs between option sets"); }
    if (p.has_objective()) { c.label("with objective"); }
    if (r0.models.size() > 1) { c.label("several answers"); }
    c.nontrivial = differ && !r0.models.empty();
}
pbt::Register r05{{"C05", c05,
                   "one random program solved under default options and 2-4 random combinations of --select, --store, --propagate-bounds, --propagate-conflicts and "
                   "clasp search options; answer sets and per-answer optima are compared; non-trivial: at least one answer and the number of pivots differs between "
                   "two of the runs (so that the search really differed)",
                   24000, 400000}};

// --- C10
Expr respell(Src &s, Lin const &l) { return lin_expr(s, l, s.range(0, 2)); }

Expr num(Q const &q, Src &s) { return num_expr(s, q, s.range(0, 1)); }

Elem elem(Expr e, std::vector<Lit> cond = {}) { Elem x; x.e = std::move(e); x.cond = std::move(cond); return x; }

void c10(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(15);
    auto conf = mixed(s, strict);
    conf.must_objective = s.chance(60);
    auto p = gen_prog(s, conf);
    // extra &dom and &diff constraints
    int extra = s.range(1, 4);
    auto style = gen_style(s, conf, p.vars);
    for (int i = 0; i < extra; ++i) {
        Con k;
        if (!p.choice.empty() && s.chance(60)) { k.body = gen_body(s, p.choice, 2); }
        if (s.chance(50)) {
            k.kind = Con::Dom;
            k.guard = spell_var(s, s.pick(p.vars), 0);
            Q a = gen_q(s, style, false), w = gen_q(s, style, false);
            k.dom_lo = num(a, s);
            k.dom_hi = num(a + w, s); // possibly empty
        } else {
            k.kind = Con::Diff;
            auto side = [&]() { return s.chance(80) ? spell_var(s, s.pick(p.vars), 0) : num(gen_q(s, style, false), s); };
            auto x = side(), y = side();
            Elem el;
            el.e = mk_add(s, x, y, true);
            k.elems.push_back(el);
            k.rel = std::vector<Rel>{Rel::LE, Rel::GE, Rel::EQ, Rel::LT, Rel::GT}[s.u(strict ? 5 : 3)];
            k.guard = num(gen_q(s, style, false), s);
        }
        p.strict = p.strict || k.strict();
        p.cons.push_back(k);
    }
    strict = strict || p.strict;
    // the rewritten program
    Prog q = p;
    q.cons.clear();
    int rewritten = 0;
    for (auto const &k : p.cons) {
        if (k.kind == Con::Dom && s.chance(80)) {
            for (int side = 0; side < 2; ++side) {
                Con n;
                n.body = k.body;
                n.rel = side == 0 ? Rel::GE : Rel::LE;
                Lin v = k.guard.val, b = side == 0 ? k.dom_lo.val : k.dom_hi.val;
                if (s.chance(30)) { // bound first
                    n.elems.push_back(elem(respell(s, b)));
                    n.guard = respell(s, v);
                    n.rel = ref::rel_invert(n.rel);
                } else {
                    n.elems.push_back(elem(respell(s, v)));
                    n.guard = respell(s, b);
                }
                q.cons.push_back(n);
            }
            ++rewritten;
        } else if (k.kind == Con::Diff && s.chance(80)) {
            Con n;
            n.body = k.body;
            n.rel = k.rel;
            n.elems.push_back(elem(respell(s, k.elems[0].e.val)));
            n.guard = k.guard;
            q.cons.push_back(n);
            ++rewritten;
        } else if (k.kind == Con::Sum) {
            // sums that are differences of variables or bounds can be written as &diff
            bool plain = k.elems.size() == 1 && k.elems[0].cond.empty() && k.guard.val.constant();
            auto const *l = plain ? &k.elems[0].e.val : nullptr;
            if (plain && l->co.size() == 2 && l->cst == 0 && s.chance(80)) {
                auto a = l->co.begin(), b = std::next(a);
                if (a->second == -b->second && abs(a->second) == 1) {
                    if (a->second < 0) { std::swap(a, b); }
                    Con n = k;
                    n.kind = Con::Diff;
                    n.elems.clear();
                    n.elems.push_back(elem(mk_add(s, spell_var(s, a->first, 0), spell_var(s, b->first, 0), true)));
                    n.guard = num_expr(s, k.guard.val.cst, 1);
                    q.cons.push_back(n);
                    ++rewritten;
                    continue;
                }
            }
            q.cons.push_back(k);
        } else {
            q.cons.push_back(k);
        }
    }
    Q factor = 1;
    if (!p.objs.empty() && s.chance(75)) {
        for (auto &o : q.objs) {
            o.minimise = !o.minimise;
            for (auto &el : o.elems) { el.e = mk_neg(s, el.e); }
        }
        c.label("objective turned around");
        ++rewritten;
    }
    if (may_collapse(q.objs) && !may_collapse(p.objs)) { return; }
    auto o = gen_options(s, strict, s.chance(50));
    c.describe(show(p, o) + "--- rewritten\n" + q.text());
    auto e = expected(p);
    classify(c, p, e);
    auto r1 = lpx(p.text(), o, e.models.size() + 20), r2 = lpx(q.text(), o, e.models.size() + 20);
    c.ran(2);
    // the reported value is always that of the maximised function, so it is unaffected by turning the objective around
    compare(table(r1, strict, factor), table(r2, strict, factor), "in the original", "in the rewritten program");
    // both also mean what the documentation says
    check_answers(e, r1);
    check_answers(e, r2);
    for (auto const *r : {&r1, &r2}) {
        for (auto const &m : r->models) {
            auto const *x = e.find(m.atoms);
            check_sound(p, m, x->rows, strict);
            check_objective(p, m, x->rows);
        }
    }
    c.nontrivial = rewritten > 0 && e.feasible > 0;
}
pbt::Register r10{{"C10", c10,
                   "random programs with &dom, &diff and &minimize/&maximize; a second program is obtained by replacing them by their documented expansions (and sums that "
                   "are differences by &diff); answers, satisfiability and optima of both are compared with each other and with the exact reference; non-trivial: at "
                   "least one atom was rewritten and some answer exists",
                   30000, 400000}};

// --- C11
// Elements whose terms and conditions are equal after grounding are one
// element; keep them apart.
struct Distinct {
    std::map<std::string, std::set<std::string>> seen;
    bool add(Elem const &el) {
        bool open = !el.cond.empty() && std::all_of(el.cond.begin(), el.cond.end(), [](Lit const &l) { return l.atom[0] == 'a'; });
        std::string cond;
        if (open) {
            std::set<std::string> ls;
            for (auto const &l : el.cond) { ls.insert(l.str()); }
            for (auto const &l : ls) { cond += l + ","; }
        }
        auto &x = seen[el.e.key];
        if (x.count("") || (!x.empty() && cond.empty())) { return false; }
        return x.insert(cond).second;
    }
};

// conditions in several parts and solve calls of one control
void later_conditions(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(20);
    HistoryConf hc;
    hc.conf.strict = strict;
    hc.conf.rich = s.range(0, 1);
    hc.conf.fix_cond = 70;
    auto h = gen_history(s, hc);
    strict = strict || h.p.strict;
    auto o = gen_options(s, strict, true);
    multi_shot(o);
    Session ses{o, 500};
    size_t models = 0;
    run_history(c, ses, h, hc, "options:" + o.str() + "\n", nullptr, [&](int step, Result const &r) {
        CHECK(!r.error, "unexpected error: " << r.msg);
        for (auto const &m : r.models) {
            auto rows = h.p.rows(m.atoms, step);
            check_sound(h.p, m, rows, strict);
            check_objective(h.p, m, rows, step);
            ++models;
        }
    });
    c.label("several parts and solve calls");
    c.nontrivial = models > 1;
}

void c11(Ctx &c) {
    auto &s = c.src;
    if (s.chance(10)) { return later_conditions(c); }
    Prog p;
    p.regular.resize(1);
    Conf conf;
    conf.atoms_lo = 1;
    conf.atoms_hi = 4;
    gen_regular(s, conf, p, p.regular[0], p.choice, "");
    if (p.choice.empty()) { throw pbt::Discard{}; }
    int rich = s.range(0, 1);
    int nv = s.range(1, 4);
    std::vector<std::string> vars;
    for (int i = 0; i < nv; ++i) { vars.push_back(var_name(s, i, rich)); }
    p.vars = vars;
    Style st = gen_style(s, conf, vars);
    st.rich = rich;
    std::vector<std::string> open; // atoms grounding cannot decide
    for (auto const &a : p.choice) { if (a[0] == 'a') { open.push_back(a); } }
    // a pool of conditions, so that they are shared
    std::vector<std::vector<Lit>> conds;
    int nc = s.range(1, 4);
    for (int i = 0; i < nc; ++i) { conds.push_back(gen_body(s, p.choice, 3)); }
    bool fixed = s.chance(70);
    if (fixed) {
        for (auto const &v : vars) {
            Con k;
            k.elems.push_back(elem(spell_var(s, v, 0)));
            k.rel = Rel::EQ;
            k.guard = num_expr(s, gen_q(s, st, false), 0);
            p.cons.push_back(k);
        }
    }
    int nout = s.range(1, 3);
    std::vector<std::string> outs;
    for (int i = 0; i < nout; ++i) {
        std::string out = "out" + std::to_string(i);
        Con k;
        int ne = s.range(1, 5);
        Distinct distinct;
        for (int j = 0; j < ne; ++j) {
            Elem el;
            el.e = s.chance(25) ? num_expr(s, gen_q(s, st, true), 1) : s.chance(70) ? term_expr(s, gen_q(s, st, true), s.pick(vars), rich) : random_expr(s, vars, 2, st);
            if (s.chance(85)) { el.cond = s.pick(conds); }
            if (!distinct.add(el)) { continue; }
            k.elems.push_back(el);
        }
        // identical expressions under different conditions are different elements
        k.rel = Rel::EQ;
        k.guard = spell_var(s, out, 0);
        if (s.chance(25)) { // out on the left, only inside an unconditional element
            Lin l;
            l.co[out] = -1;
            k.elems.push_back(elem(lin_expr(s, l, 0)));
            k.guard = num_expr(s, gen_q(s, st, false), 0);
        }
        if (s.chance(15)) { k.body = gen_body(s, p.choice, 1); }
        p.vars.push_back(out);
        outs.push_back(out);
        p.cons.push_back(k);
    }
    if (s.chance(60)) {
        Obj ob;
        ob.minimise = s.chance(50);
        int ne = s.range(1, 4);
        Distinct distinct;
        for (int j = 0; j < ne; ++j) {
            Elem el;
            bool cst = !open.empty() && s.chance(25);
            el.e = cst ? num_expr(s, gen_q(s, st, true), 1) : term_expr(s, gen_q(s, st, true), s.pick(p.vars), rich);
            if (cst) { el.cond = gen_body(s, open, 2); }
            else if (s.chance(75)) { el.cond = s.pick(conds); }
            if (!distinct.add(el)) { continue; }
            ob.elems.push_back(el);
        }
        if (!ob.elems.empty()) { p.objs.push_back(ob); }
        c.label("with objective");
    }
    auto o = gen_options(s, false, true);
    c.describe(show(p, o));
    auto e = expected(p);
    auto r = lpx(p.text(), o, e.models.size() + 20);
    c.ran();
    check_answers(e, r);
    std::set<std::string> sums;
    for (auto const &m : r.models) {
        auto const *x = e.find(m.atoms);
        check_sound(p, m, x->rows, false);
        check_objective(p, m, x->rows);
        std::string key;
        for (auto const &out : outs) { auto it = m.raw.find(out); key += it == m.raw.end() ? "-" : it->second; key += ";"; }
        if (m.objective) { key += m.raw_objective; }
        sums.insert(key);
    }
    if (fixed) { c.label("fixed variables"); }
    c.nontrivial = fixed && sums.size() > 1;
}
pbt::Register r11{{"C11", c11,
                   "programs whose sums and objectives have conditional elements over a shared pool of conditions (facts, contradictions, conjunctions), tied to output "
                   "variables; the value of each output is compared with the sum of the elements whose condition holds in the answer; non-trivial: all inputs "
                   "are fixed and two answers have different outputs or objective values",
                   70000, 700000}};

// --- C21
void permute(Src &s, std::vector<Con> &v) {
    for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[s.u(static_cast<uint32_t>(i))]); }
}

Con row(Src &s, Lin const &l, Rel rel, Q const &rhs) {
    Con k;
    Q f = 1;
    if (s.chance(30)) { f = s.range(1, 5); if (s.chance(30)) { f = 1 / f; } }
    if (s.chance(30)) { f = -f; }
    Lin m;
    m.add(l, f);
    if (m.co.empty()) { m.co.clear(); }
    k.elems.push_back(elem(lin_expr(s, m, 0)));
    k.rel = f < 0 ? ref::rel_invert(rel) : rel;
    k.guard = num_expr(s, rhs * f, 0);
    return k;
}

void c21(Ctx &c) {
    auto &s = c.src;
    Prog p;
    p.regular.resize(1);
    bool strict = s.chance(15);
    int kind = static_cast<int>(s.weighted({30, 15, 20, 15, 20}));
    std::vector<Con> cons;
    Lin obj;
    std::map<std::string, Q> pt;
    auto var = [&](int i) { std::string v = "x" + std::to_string(i); if (std::find(p.vars.begin(), p.vars.end(), v) == p.vars.end()) { p.vars.push_back(v); } return v; };
    auto rel = [&]() { auto k = s.weighted({45, 40, 15}); return k == 0 ? Rel::LE : k == 1 ? Rel::GE : Rel::EQ; };
    switch (kind) {
        case 0: case 4: { // random rows tight at one point
            int n = s.range(2, kind == 4 ? 9 : 5), m = s.range(n, kind == 4 ? 24 : 14);
            for (int i = 0; i < n; ++i) { pt[var(i)] = s.chance(50) ? Q(0) : Q(s.range(-3, 3)); }
            for (int j = 0; j < m; ++j) {
                Lin l;
                for (auto const &v : p.vars) { int k = s.chance(60) ? s.range(-3, 3) : 0; if (k != 0) { l.co[v] = k; } }
                if (l.co.empty()) { l.co[p.vars[0]] = 1; }
                Q rhs = 0;
                for (auto const &[v, q] : l.co) { rhs += q * pt[v]; }
                auto r = rel();
                if (strict && s.chance(10) && r != Rel::EQ) { r = r == Rel::LE ? Rel::LT : Rel::GT; }
                cons.push_back(row(s, l, r, rhs));
                if (s.chance(25)) { cons.push_back(row(s, l, r, rhs)); } // redundant copy
            }
            for (auto const &v : p.vars) { if (s.chance(80)) { obj.co[v] = s.range(-3, 3); if (obj.co[v] == 0) { obj.co.erase(v); } } }
            break;
        }
        case 1: { // Beale's cycling example and relatives, scaled and permuted
            struct Ex { std::vector<std::vector<Q>> a; std::vector<Q> b, c; };
            static std::vector<Ex> const ex{
                {{{Q(1, 4), -60, Q(-1, 25), 9}, {Q(1, 2), -90, Q(-1, 50), 3}, {0, 0, 1, 0}}, {0, 0, 1}, {Q(3, 4), -150, Q(1, 50), -6}},
                {{{Q(1, 2), Q(-11, 2), Q(-5, 2), 9}, {Q(1, 2), Q(-3, 2), Q(-1, 2), 1}, {1, 0, 0, 0}}, {0, 0, 1}, {10, -57, -9, -24}},
                {{{-2, -9, 1, 9}, {Q(1, 3), 1, Q(-1, 3), -2}, {2, 3, -1, -12}}, {0, 0, 2}, {2, 3, -1, -12}},
                {{{1, -2, -3, 4}, {4, -3, -2, 1}, {1, 1, 1, 1}}, {0, 0, 1}, {1, -2, -3, 4}},
                {{{Q(3, 5), Q(-32, 5), Q(24, 5), 0}, {Q(1, 5), Q(-9, 5), Q(3, 5), 0}, {Q(2, 5), Q(-8, 5), Q(1, 5), 1}}, {0, 0, 0}, {Q(2, 5), Q(2, 5), Q(-9, 5), 0}},
                {{{1, 1, 0, 0}, {0, 1, 1, 0}, {0, 0, 1, 1}, {1, 0, 0, 1}}, {0, 0, 0, 0}, {1, 2, 3, 4}},
            };
            auto const &x = ex[s.u(static_cast<uint32_t>(ex.size()))];
            int copies = s.range(1, 3);
            std::vector<int> perm{0, 1, 2, 3};
            for (size_t i = 4; i > 1; --i) { std::swap(perm[i - 1], perm[s.u(static_cast<uint32_t>(i))]); }
            for (int cp = 0; cp < copies; ++cp) {
                for (size_t i = 0; i < x.a.size(); ++i) {
                    Lin l;
                    for (int j = 0; j < 4; ++j) { if (x.a[i][j] != 0) { l.co[var(perm[j] + 4 * cp)] = x.a[i][j]; } }
                    cons.push_back(row(s, l, Rel::LE, x.b[i]));
                }
                for (int j = 0; j < 4; ++j) {
                    Lin l;
                    l.co[var(perm[j] + 4 * cp)] = 1;
                    if (s.chance(90)) { cons.push_back(row(s, l, Rel::GE, 0)); }
                    Q q = x.c[j] * (s.chance(80) ? 1 : -1);
                    if (q != 0) { obj.co[var(perm[j] + 4 * cp)] = q; }
                }
            }
            c.label("classic cycling example");
            break;
        }
        case 2: { // network rows: assignment/transport/circulation
            int n = s.range(2, 3);
            for (int i = 0; i < n; ++i) {
                Lin a, b;
                for (int j = 0; j < n; ++j) { a.co[var(i * n + j)] = 1; b.co[var(j * n + i)] = 1; }
                auto r = s.chance(60) ? Rel::EQ : Rel::LE;
                cons.push_back(row(s, a, r, 1));
                cons.push_back(row(s, b, r, 1));
            }
            for (auto const &v : p.vars) {
                Lin l;
                l.co[v] = 1;
                cons.push_back(row(s, l, Rel::GE, 0));
                int q = s.range(-3, 3);
                if (q != 0) { obj.co[v] = q; }
            }
            c.label("assignment polytope");
            break;
        }
        default: { // homogeneous systems and difference cycles
            int n = s.range(3, 7);
            for (int i = 0; i < n; ++i) { var(i); }
            for (int i = 0; i < n; ++i) {
                Lin l;
                l.co[var(i)] = 1;
                l.co[var((i + 1) % n)] = -1;
                cons.push_back(row(s, l, rel(), 0));
            }
            int m = s.range(0, 6);
            for (int j = 0; j < m; ++j) {
                Lin l;
                for (auto const &v : p.vars) { int k = s.range(-2, 2); if (k != 0) { l.co[v] = k; } }
                if (l.co.empty()) { l.co[var(0)] = 1; }
                cons.push_back(row(s, l, rel(), 0));
            }
            for (auto const &v : p.vars) { int q = s.range(-2, 2); if (q != 0) { obj.co[v] = q; } }
        }
    }
    permute(s, cons);
    if (s.chance(50)) { // switch some of the rows
        int na = s.range(1, 3);
        for (int i = 0; i < na; ++i) { p.regular[0].push_back("{ a" + std::to_string(i) + " }."); p.choice.push_back("a" + std::to_string(i)); }
        for (auto &k : cons) { if (s.chance(35)) { k.body = gen_body(s, p.choice, 1); } }
    }
    p.cons = cons;
    if (obj.co.empty()) { obj.co[p.vars[0]] = 1; }
    {
        Obj o;
        o.minimise = s.chance(30);
        for (auto const &[v, q] : obj.co) { o.elems.push_back(elem(term_expr(s, q, v, 0))); }
        p.objs.push_back(o);
    }
    p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return x.strict(); });
    auto o = gen_options(s, strict, true);
    c.describe(show(p, o));
    auto e = expected(p);
    auto r = lpx(p.text(), o, e.models.size() + 20);
    c.ran();
    check_answers(e, r);
    for (auto const &m : r.models) {
        auto const *x = e.find(m.atoms);
        check_sound(p, m, x->rows, strict);
        check_objective(p, m, x->rows);
    }
    if (e.feasible == 0) { c.label("infeasible"); }
    c.nontrivial = e.feasible > 0 && r.step.pivots >= 2;
}
pbt::Register r21{{"C21", c21,
                   "degenerate linear programs: rows tight at one point, redundant copies, homogeneous systems, assignment polytopes, Beale/Hoffman-style cycling examples, "
                   "scaled and permuted, optionally switched by choices; a run that needs more than 20 CPU seconds counts as not terminating; verdicts, assignments and "
                   "optima are compared with the exact reference; non-trivial: feasible and at least two pivots were made",
                   40000, 500000, 20}};

// --- C22

// a number as symbolic terms for numerator and denominator
std::string int_term(mpz_class const &n) { return abs(n) <= 2147483647 ? n.get_str() : "\"" + n.get_str() + "\""; }
std::string frac_term(Q const &q) { return int_term(q.get_num()) + "," + int_term(q.get_den()); }

// linear forms of the elements, one for each condition
std::map<std::string, Lin> by_condition(std::vector<Elem> const &es) {
    std::map<std::string, Lin> r;
    for (auto const &el : es) { r[body_str(el.cond)].add(el.e.val); }
    return r;
}

// elements whose terms come from a pool; with the number of the constraint if given
std::string pool_elems(std::map<std::string, Lin> const &m, std::string const &id) {
    std::string r;
    for (auto const &[cond, l] : m) {
        std::string pool, cst;
        for (auto const &[v, co] : l.co) {
            if (co == 0) { continue; }
            pool += (pool.empty() ? "" : ";") + id + (id.empty() ? "" : ",") + frac_term(co) + "," + v;
        }
        std::string tail = cond.empty() ? "" : "," + cond;
        if (!pool.empty()) { r += std::string(r.empty() ? " " : "; ") + "(K/D)*V : (" + (id.empty() ? "" : "I,") + "K,D,V)=(" + pool + ")" + tail; }
        if (l.cst != 0) { r += std::string(r.empty() ? " " : "; ") + "K/D : (" + (id.empty() ? "" : "I,") + "K,D)=(" + (id.empty() ? "" : id + ",") + frac_term(l.cst) + ")" + tail; }
    }
    return r;
}

// whether elements that differ in their conditions only would become equal if
// grounding decides these conditions
bool clashes(std::vector<Elem> const &es) {
    std::set<std::string> seen;
    for (auto const &[cond, l] : by_condition(es)) {
        for (auto const &[v, co] : l.co) { if (co != 0 && !seen.insert(frac_term(co) + "," + v).second) { return true; } }
        if (l.cst != 0 && !seen.insert(frac_term(l.cst)).second) { return true; }
    }
    return false;
}

// constraints and objectives as instances of rules with variables
bool schemas(Src &s, Prog &q) {
    bool any = false;
    std::map<std::string, std::vector<size_t>> group;
    for (size_t i = 0; i < q.cons.size(); ++i) {
        auto &k = q.cons[i];
        if (k.kind != Con::Sum || !k.guard.numeric || !s.chance(70) || clashes(k.elems)) { continue; }
        any = true;
        if (s.chance(60)) { group[std::string(ref::rel_str(k.rel)) + "|" + body_str(k.body)].push_back(i); }
        else { k.alt = "&sum {" + pool_elems(by_condition(k.elems), "") + " } " + ref::rel_str(k.rel) + " R/E :- (R,E)=(" + frac_term(k.guard.val.cst) + ")" + (k.body.empty() ? "" : ", " + body_str(k.body)) + "."; }
    }
    for (auto const &[key, g] : group) {
        std::string es, pool;
        for (auto i : g) {
            auto &k = q.cons[i];
            auto e = pool_elems(by_condition(k.elems), std::to_string(i));
            if (!e.empty()) { es += (es.empty() ? "" : ";") + e; }
            pool += (pool.empty() ? "" : ";") + std::to_string(i) + "," + frac_term(k.guard.val.cst);
            k.alt = " ";
        }
        auto const &k = q.cons[g[0]];
        q.cons[g[0]].alt = "&sum {" + es + " } " + ref::rel_str(k.rel) + " R/E :- (I,R,E)=(" + pool + ")" + (k.body.empty() ? "" : ", " + body_str(k.body)) + ".";
    }
    for (auto &o : q.objs) {
        // two statements may become equal when written alike
        if (q.objs.size() > 1 || !s.chance(60) || clashes(o.elems)) { continue; }
        any = true;
        o.alt = std::string(o.minimise ? "&minimize {" : "&maximize {") + pool_elems(by_condition(o.elems), "") + " }.";
    }
    return any;
}

void c22(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(20);
    auto conf = mixed(s, strict);
    bool large = s.chance(12);
    if (large) {
        conf.vars_lo = 7; conf.vars_hi = 13; conf.atoms_lo = 0; conf.atoms_hi = 2; conf.cons_hi = 22; conf.avg_cons = 14;
        conf.fix_shape = s.chance(60) ? 3 : 0; conf.fix_coef = static_cast<int>(s.u(2)); conf.fix_cond = s.u(2) * 8;
    }
    conf.must_objective = s.chance(60);
    auto p = gen_prog(s, conf);
    strict = strict || p.strict;
    Prog q = p;
    Q factor = 1;
    std::vector<std::string> did;
    // splitting and moving terms
    if (s.chance(60)) {
        did.push_back("terms");
        for (auto &k : q.cons) {
            if (k.kind != Con::Sum || !s.chance(60)) { continue; }
            Lin l; // unconditional part
            std::vector<Elem> rest;
            for (auto const &el : k.elems) { if (el.cond.empty()) { l.add(el.e.val); } else { rest.push_back(el); } }
            Lin g = k.guard.val, left, right;
            auto put = [&](Lin const &t) { if (s.chance(50)) { left.add(t); } else { right.add(t, -1); } };
            l.add(g, -1);
            for (auto const &[v, co] : l.co) {
                Lin a, b;
                if (s.chance(30)) { Q x = co / 2 + s.range(-1, 1); if (x != 0) { a.co[v] = x; } if (co - x != 0) { b.co[v] = co - x; } put(a); put(b); }
                else { a.co[v] = co; put(a); }
            }
            Lin cst;
            cst.cst = l.cst;
            put(cst);
            std::vector<Elem> es;
            std::set<std::string> seen;
            for (auto const &el : rest) { seen.insert(el.key()); }
            auto add = [&](Expr const &e) { Elem x; x.e = e; if (seen.insert(x.key()).second) { es.push_back(x); } else { right.add(x.e.val, -1); } };
            if (s.chance(50)) { for (auto const &[v, co] : left.co) { add(term_expr(s, co, v, 1)); } if (left.cst != 0) { add(num_expr(s, left.cst, 1)); } }
            else { add(lin_expr(s, left, 1)); }
            for (auto const &el : rest) { es.push_back(el); }
            k.elems = es;
            k.guard = lin_expr(s, right, 1);
        }
    }
    if (s.chance(60)) { // scaling
        did.push_back("scale");
        for (auto &k : q.cons) {
            if (k.kind != Con::Sum || !s.chance(60)) { continue; }
            Q f = s.chance(20) ? Q(mpz_class("123456789012345678901"), mpz_class("98765432109876543")) : Q(s.range(1, 9), s.range(1, 9));
            f.canonicalize();
            if (s.chance(50)) { f = -f; }
            auto mul = [&](Expr const &e) { auto n = num_expr(s, f, 0); return s.chance(50) ? mk_mul(s, n, e) : mk_mul(s, e, n); };
            for (auto &el : k.elems) { el.e = mul(el.e); }
            k.guard = mul(k.guard);
            if (f < 0) { k.rel = ref::rel_invert(k.rel); }
        }
        if (!q.objs.empty() && s.chance(60)) {
            factor = Q(s.range(1, 7), s.range(1, 7));
            factor.canonicalize();
            for (auto &o : q.objs) { for (auto &el : o.elems) { el.e = mk_mul(s, num_expr(s, factor, 0), el.e); } }
        }
    }
    if (s.chance(40) && q.cons.size() > 1) { // implied constraints: sum of two unconditional facts of the same direction
        did.push_back("implied");
        int n = s.range(1, 3);
        for (int i = 0; i < n; ++i) {
            auto const &k = q.cons[s.u(static_cast<uint32_t>(p.cons.size()))];
            if (k.kind == Con::Dom || ref::rel_strict(k.rel)) { continue; }
            Con m = k; // weaker copy
            Q d = s.range(0, 3);
            if (m.rel == Rel::EQ) { m.rel = s.chance(50) ? Rel::LE : Rel::GE; }
            m.guard = mk_add(s, m.guard, num_expr(s, m.rel == Rel::LE ? d : -d, 0), false);
            if (m.kind == Con::Diff) { m.kind = Con::Sum; }
            q.cons.push_back(m);
        }
    }
    if (s.chance(60)) {
        did.push_back("order");
        permute(s, q.cons);
        for (auto &k : q.cons) { for (size_t i = k.elems.size(); i > 1; --i) { std::swap(k.elems[i - 1], k.elems[s.u(static_cast<uint32_t>(i))]); } }
        if (q.objs.size() > 1 && s.chance(50)) { std::swap(q.objs[0], q.objs[1]); }
        for (auto &o : q.objs) { for (size_t i = o.elems.size(); i > 1; --i) { std::swap(o.elems[i - 1], o.elems[s.u(static_cast<uint32_t>(i))]); } }
    }
    if (s.chance(30) && schemas(s, q)) { did.push_back("rules with variables"); }
    auto o = gen_options(s, strict, s.chance(50));
    std::string qt = q.text();
    if (s.chance(40)) { // renaming x<i> to names whose order is different
        did.push_back("rename");
        auto ren = [&](std::string t) {
            for (size_t i = 0; i < p.vars.size(); ++i) {
                std::string from = "x" + std::to_string(i);
                if (p.vars[i] != from) { continue; }
                std::string to = "y" + std::to_string(90 - static_cast<int>(i));
                for (size_t pos = 0; (pos = t.find(from, pos)) != std::string::npos;) {
                    bool lb = pos == 0 || !(isalnum(static_cast<unsigned char>(t[pos - 1])) || t[pos - 1] == '_' || t[pos - 1] == '"');
                    bool rb = pos + from.size() >= t.size() || !isalnum(static_cast<unsigned char>(t[pos + from.size()]));
                    if (lb && rb) { t.replace(pos, from.size(), to); pos += to.size(); } else { pos += from.size(); }
                }
            }
            return t;
        };
        qt = q.regular_text() + ren(q.theory_text());
    }
    if (may_collapse(q.objs) && !may_collapse(p.objs)) { return; }
    c.describe(show(p, o) + "--- rewritten\n" + qt);
    // a rewritten program whose constraint lost all its variables keeps its meaning
    auto r1 = lpx(p.text(), o, 3000);
    if (r1.truncated) { throw pbt::Discard{}; }
    auto r2 = lpx(qt, o, 3000);
    c.ran(2);
    compare(table(r1, strict, factor), table(r2, strict), "in the original", "in the rewritten program");
    for (auto const &x : did) { c.label(x); }
    if (large) { c.label("large system"); }
    c.nontrivial = !did.empty() && !r1.models.empty() && r1.step.pivots >= 1;
}
pbt::Register r22{{"C22", c22,
                   "random programs (12% with 7-13 variables and up to 22 rows) and a rewritten twin: terms split and moved between element list and guard, constraints and "
                   "objective scaled, given as instances of rules with variables, implied constraints added, rules and elements reordered, variables renamed; answers and (scaled) optima must agree; non-trivial: "
                   "some rewriting was applied, some answer exists and at least one pivot was made",
                   36000, 400000}};

} // namespace
