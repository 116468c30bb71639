// C01 C02 C03 C12: answers and optima of single-shot programs
#include "huge.hh"

using namespace shared;

namespace {

// --- C01
void c01(Ctx &c) {
    if (c.src.u(250) == 0) { bool strict = c.src.chance(25), objective = c.src.chance(30); return huge(c, strict, objective, HugeMode::Sound); }
    if (c.src.chance(3)) { return large(c, c.src.chance(20), 1); }
    bool strict = c.src.chance(25);
    auto p = gen(c, strict);
    auto o = gen_options(c.src, strict || p.strict, true);
    c.describe(show(p, o));
    auto e = expected(p);
    classify(c, p, e);
    auto r = lpx(p.text(), o);
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    for (auto const &m : r.models) {
        auto const *x = e.find(m.atoms);
        CHECK(x != nullptr, "answer " << m.id() << " is not a stable model of the regular part");
        check_sound(p, m, x->rows, o.strict);
    }
    c.nontrivial = !r.models.empty() && std::any_of(e.models.begin(), e.models.end(), [](auto const &m) { return m.rows.size() >= 2; });
}
pbt::Register r01{{"C01", c01,
                   "random programs (choice rules, loops, derived atoms; &sum/&diff/&dom over 1-9 variables with small, fractional and huge coefficients, "
                   "conditional elements, bodies) solved under random theory and solver options, all models; non-trivial: at least one answer is reported and "
                   "some stable model activates at least two constraint rows; distinct by rendered program and options",
                   70000, 900000}};

// --- C02
void c02(Ctx &c) {
    if (c.src.u(250) == 0) { bool strict = c.src.chance(25), objective = false; return huge(c, strict, objective, HugeMode::Answers); }
    if (c.src.chance(3)) { return large(c, c.src.chance(20), 0); }
    bool strict = c.src.chance(20);
    auto p = gen(c, strict);
    // constraints without variables
    if (c.src.chance(15)) {
        int n = c.src.range(1, 2);
        for (int i = 0; i < n; ++i) {
            Con k;
            Lin l;
            l.cst = c.src.range(-2, 2);
            Elem el;
            if (c.src.chance(50)) { el.e = num_expr(c.src, l.cst, 1); }
            else {
                auto v = spell_var(c.src, p.vars[0], 1);
                el.e = mk_add(c.src, mk_add(c.src, v, num_expr(c.src, l.cst, 0), false), v, true);
            }
            k.elems.push_back(el);
            k.rel = std::vector<Rel>{Rel::LE, Rel::GE, Rel::EQ, Rel::LT, Rel::GT}[c.src.u(strict ? 5 : 3)];
            k.guard = num_expr(c.src, c.src.range(-2, 2), 0);
            if (!p.choice.empty() && c.src.chance(80)) { k.body = gen_body(c.src, p.choice, 2); }
            p.strict = p.strict || k.strict();
            p.cons.push_back(k);
        }
        c.label("variable-free constraints");
    }
    auto o = gen_options(c.src, strict || p.strict, true);
    c.describe(show(p, o));
    auto e = expected(p);
    classify(c, p, e);
    auto r = lpx(p.text(), o, e.models.size() + 20);
    c.ran();
    check_answers(e, r);
    c.nontrivial = interesting(p, e);
}
pbt::Register r02{{"C02", c02,
                   "random programs as for C01 plus constraints without variables; the set of answers is compared with the stable models of the regular part "
                   "(plain clingo) whose rows the exact reference LP finds satisfiable; non-trivial: some stable model is infeasible, or a feasible one activates "
                   "two or more rows; distinct by rendered program and options",
                   70000, 900000}};

// --- C03
void c03(Ctx &c) {
    if (c.src.u(250) == 0) { bool strict = c.src.chance(25), objective = true; return huge(c, strict, objective, HugeMode::Optimum); }
    if (c.src.chance(3)) { return large(c, c.src.chance(20), 2); }
    bool strict = c.src.chance(15);
    auto conf = mixed(c.src, strict);
    conf.must_objective = true;
    conf.atoms_hi = std::min(conf.atoms_hi, 4);
    conf.atoms_lo = std::min(conf.atoms_lo, conf.atoms_hi);
    auto p = gen_prog(c.src, conf);
    // box some variables to get bounded problems more often
    for (auto const &v : p.vars) {
        if (!c.src.chance(50)) { continue; }
        Con k;
        k.kind = Con::Dom;
        k.guard = prog::spell_var(c.src, v, 0);
        int a = c.src.range(-5, 5), b = a + c.src.range(0, 10);
        k.dom_lo = num_expr(c.src, a, 0);
        k.dom_hi = num_expr(c.src, b, 0);
        p.cons.push_back(k);
    }
    auto o = gen_options(c.src, strict || p.strict, true);
    if (c.src.chance(10)) { o.objective = "local"; }
    c.describe(show(p, o));
    auto e = expected(p);
    classify(c, p, e);
    auto r = lpx(p.text(), o, e.models.size() + 20);
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    bool nt = false;
    for (auto const &m : r.models) {
        auto const *x = e.find(m.atoms);
        CHECK(x != nullptr, "answer " << m.id() << " is not a stable model of the regular part");
        check_objective(p, m, x->rows);
        if (m.objective && m.objective->second) { c.label("bounded"); nt = nt || m.objective->first.c != 0; }
        if (m.objective && !m.objective->second) { c.label("unbounded"); nt = true; }
    }
    c.nontrivial = nt;
}
pbt::Register r03{{"C03", c03,
                   "random programs as for C01 with one or two objective statements (conditional terms and constants included) and boxed variables; every reported "
                   "objective value and flag is compared with the exact optimum of that answer's rows and with the reported assignment; non-trivial: some answer "
                   "has a non-zero bounded optimum or an unbounded one; distinct by rendered program and options",
                   70000, 800000}};


// --- C12
void c12(Ctx &c) {
    if (c.src.u(250) == 0) { bool strict = true, objective = c.src.chance(50); return huge(c, strict, objective, HugeMode::All); }
    if (c.src.chance(3)) { return large(c, true, 1); }
    bool with = c.src.chance(80);
    auto conf = mixed(c.src, with);
    conf.must_objective = c.src.chance(60);
    conf.atoms_hi = std::min(conf.atoms_hi, 4);
    conf.atoms_lo = std::min(conf.atoms_lo, conf.atoms_hi);
    auto p = gen_prog(c.src, conf);
    if (with) { // make relations strict more often, so that sharp boundaries meet
        for (auto &k : p.cons) {
            if (k.kind == Con::Dom || !c.src.chance(35)) { continue; }
            if (k.rel == Rel::LE) { k.rel = Rel::LT; }
            if (k.rel == Rel::GE) { k.rel = Rel::GT; }
        }
        p.strict = std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return x.strict(); });
    }
    auto o = gen_options(c.src, true, true);
    c.describe(show(p, o));
    auto e = expected(p);
    classify(c, p, e);
    auto r = lpx(p.text(), o, e.models.size() + 20);
    c.ran();
    check_answers(e, r);
    bool open = false;
    for (auto const &m : r.models) {
        auto const *x = e.find(m.atoms);
        check_sound(p, m, x->rows, true);
        check_objective(p, m, x->rows);
        open = open || std::any_of(m.values.begin(), m.values.end(), [](auto const &v) { return v.second.k != 0; });
    }
    if (open) { c.label("value with infinitesimal part"); }
    bool tight = false;
    for (auto const &m : e.models) {
        // feasible when relations are read non-strictly but not otherwise
        if (m.feasible) { continue; }
        auto rows = m.rows;
        for (auto &row : rows) { row.rel = row.rel == Rel::LT ? Rel::LE : row.rel == Rel::GT ? Rel::GE : row.rel; }
        tight = tight || ref::feasible(rows);
    }
    if (tight) { c.label("infeasible only by strictness"); }
    if (!p.strict) {
        auto o2 = o;
        o2.strict = false;
        auto r2 = lpx(p.text(), o2, e.models.size() + 20);
        c.ran();
        check_answers(e, r2);
        for (auto const &m : r2.models) {
            auto const *x = e.find(m.atoms);
            check_sound(p, m, x->rows, false);
            check_objective(p, m, x->rows);
        }
        c.label("without strict relations, both modes");
    }
    c.nontrivial = tight || open || (!p.strict && interesting(p, e));
}
pbt::Register r12{{"C12", c12,
                   "random programs with strict relations (20% without, run in both modes), all answers; answers, values c+k*e and optima are compared with the "
                   "exact reference that reads < and > strictly; non-trivial: some answer has an infinitesimal part, some stable model is infeasible only because "
                   "of strictness, or the program has no strict relation and was compared in both modes",
                   55000, 900000}};

} // namespace
