// C08 C09: linear expressions and their rejection
#include "illformed.hh"

using namespace shared;

namespace {

Elem elem(Expr e, std::vector<Lit> cond = {}) { Elem x; x.e = std::move(e); x.cond = std::move(cond); return x; }

Expr atom_expr(std::string const &t, Lin const &v, bool numeric) {
    Expr e;
    e.text = e.key = t;
    e.val = v;
    e.numeric = numeric;
    return e;
}

// names that are easily confused with each other
std::vector<std::string> const &confusable() {
    static std::vector<std::string> const v{
        "f(1)", "f(\"1\")", "f(1,1)", "f((1,))", "f(f(1))", "f(-1)", "\"f(1)\"", "f(x)", "f(-x)", "f(\"x\")", "(1,1)", "(1,)", "((1,),)", "x", "\"x\"", "x(0)", "(x,)",
        "\"1 \"", "\"1x\"", "\"1.\"", "\".5\"", "\"-\"", "\"--1\"", "\"+1\"", "\"1e3\"", "\"\"", "f(\"\")", "f(0)", "f(10)", "f(01x)", "\"1,5\"", "\"1.5.2\"", "\"0x1\"",
        "g(2147483647)", "g(-2147483647)", "g(0)", "fx", "f_x", "x'", "_x", "\"- 1\"", "\" 1\"", "(-x,)", "f(-g(1))", "f(g(1))", "f(-g(-1))", "\"\\\\\"", "\"\\n\"", "\"\\\"1\\\"\"",
    };
    return v;
}

// a decimal with many digits
Expr long_decimal(Src &s) {
    size_t n = s.chance(80) ? 5 + s.u(60) : s.chance(80) ? 60 + s.u(1500) : 1500 + s.u(s.chance(35) ? 100000 : 20000);
    size_t frac = s.chance(70) ? s.u(static_cast<uint32_t>(n)) : 0;
    std::string d;
    uint32_t seed = s.u(1000000);
    uint64_t st = pbt::mix(seed);
    for (size_t i = 0; i < n; ++i) { st = pbt::mix(st); d += static_cast<char>('0' + (st >> 20) % 10); }
    bool neg = s.chance(40);
    std::string t = "\"" + std::string(neg ? "-" : "") + d.substr(0, n - frac) + (frac ? "." + d.substr(n - frac) : "") + "\"";
    mpz_class num(d, 10), den;
    mpz_ui_pow_ui(den.get_mpz_t(), 10, frac);
    Q q(num, den);
    q.canonicalize();
    if (neg) { q = -q; }
    Lin l;
    l.cst = q;
    return atom_expr(t, l, true);
}

Expr rnd(Src &s, std::vector<std::string> const &vars, Style const &st, int depth) {
    if (s.chance(6)) {
        auto l = long_decimal(s);
        switch (s.u(3)) {
            case 0: return mk_mul(s, l, spell_var(s, s.pick(vars), st.rich));
            case 1: return mk_add(s, random_expr(s, vars, depth - 1, st), l, s.chance(50));
            default: return mk_mul(s, random_expr(s, vars, 1, st), l);
        }
    }
    return random_expr(s, vars, depth, st);
}

void c08(Ctx &c) {
    auto &s = c.src;
    Prog p;
    p.regular.resize(1);
    bool strict = s.chance(15);
    int rich = s.range(0, 3);
    std::vector<std::string> vars;
    int nv = s.range(1, 5);
    bool conf_names = s.chance(45);
    if (conf_names) {
        std::set<std::string> seen;
        for (int i = 0; i < nv; ++i) {
            auto const &v = s.pick(confusable());
            if (v == "f(01x)" || v == "x'" || !seen.insert(v).second) { continue; }
            vars.push_back(v);
        }
        if (vars.empty()) { vars.push_back("x"); }
    } else {
        for (int i = 0; i < nv; ++i) { vars.push_back(var_name(s, i, rich)); }
    }
    Style st;
    st.coef = static_cast<int>(s.weighted({40, 15, 25, 20}));
    st.rich = rich;
    bool fact = s.chance(40);
    if (fact) { p.regular[0].push_back("fact."); }
    p.vars = vars;
    for (auto const &v : vars) {
        Con k;
        k.elems.push_back(elem(spell_var(s, v, rich)));
        k.rel = Rel::EQ;
        k.guard = num_expr(s, gen_q(s, st, false), s.range(0, 2));
        p.cons.push_back(k);
    }
    int nout = s.range(1, 4);
    int depth = s.range(1, s.chance(20) ? 7 : 4);
    auto cond = [&] { std::vector<Lit> b; if (fact && s.chance(25)) { b.push_back(Lit{"fact", false}); } return b; };
    for (int i = 0; i < nout; ++i) {
        std::string out = "out" + std::to_string(i);
        p.vars.push_back(out);
        auto ov = spell_var(s, out, 0);
        Con k;
        k.rel = Rel::EQ;
        switch (s.weighted({35, 20, 20, 8, 10, 7})) {
            case 0: { // sum of several elements
                int n = s.range(1, 3);
                std::set<std::string> seen;
                for (int j = 0; j < n; ++j) {
                    auto e = rnd(s, vars, st, depth);
                    if (!seen.insert(e.key).second) { continue; }
                    k.elems.push_back(elem(e, cond()));
                }
                k.guard = ov;
                break;
            }
            case 1: k.elems.push_back(elem(ov, cond())); k.guard = rnd(s, vars, st, depth); break;
            case 2: { // out on both sides with different coefficients
                auto e = rnd(s, vars, st, depth), g = rnd(s, vars, st, depth);
                int a = s.range(1, 5);
                k.elems.push_back(elem(mk_add(s, e, term_expr(s, a, out, rich), s.chance(0))));
                k.guard = mk_add(s, g, term_expr(s, a + (s.chance(50) ? 1 : -1) * s.range(1, 3), out, rich), false);
                break;
            }
            case 3: { // &diff with an expression as guard
                k.kind = Con::Diff;
                k.elems.push_back(elem(mk_add(s, ov, spell_var(s, s.pick(vars), 0), true)));
                k.guard = rnd(s, vars, st, depth);
                break;
            }
            case 4: { // &dom with equal bounds
                k.kind = Con::Dom;
                Q v = gen_q(s, st, false);
                k.dom_lo = num_expr(s, v, s.range(0, 3));
                k.dom_hi = num_expr(s, v, s.range(0, 3));
                k.guard = ov;
                break;
            }
            default: { // two inequalities
                auto e = rnd(s, vars, st, depth);
                k.elems.push_back(elem(e, cond()));
                k.rel = Rel::LE;
                k.guard = ov;
                p.cons.push_back(k);
                k.rel = Rel::GE;
                break;
            }
        }
        p.cons.push_back(k);
        if (s.chance(60)) { vars.push_back(out); }
    }
    if (s.chance(40)) {
        Obj ob;
        ob.minimise = s.chance(50);
        auto e = rnd(s, vars, st, depth);
        if (e.val.cst == 0) { ob.elems.push_back(elem(e, cond())); }
        else { ob.elems.push_back(elem(mk_add(s, e, num_expr(s, e.val.cst, s.range(0, 2)), true))); }
        p.objs.push_back(ob);
    }
    Options o;
    o.strict = strict;
    auto text = p.text();
    c.describe(show(p, o));
    auto e = expected(p);
    auto r = lpx(text, o, e.models.size() + 5);
    c.ran();
    check_answers(e, r);
    for (auto const &m : r.models) {
        check_sound(p, m, e.find(m.atoms)->rows, strict);
        check_objective(p, m, e.find(m.atoms)->rows);
        for (auto const &v : p.vars) {
            bool used = false;
            for (auto const &row : e.find(m.atoms)->rows) { used = used || row.co.count(v); }
            CHECK(!used || m.values.count(v), "no value for " << v);
        }
    }
    if (conf_names) { c.label("names that are easily confused"); }
    if (rich >= 2) { c.label("respelled variables"); }
    if (!p.objs.empty()) { c.label("with objective"); }
    if (depth > 4) { c.label("deep expressions"); }
    if (text.size() > 1500) { c.label("long text"); }
    c.nontrivial = e.feasible > 0 && depth >= 2;
}
pbt::Register r08{{"C08", c08,
                   "programs that fix a few variables (plain, compound, quoted and easily confused names, respelled by arithmetic in their arguments) and tie output variables "
                   "to random expressions of nesting depth up to 7 over + - * / unary minus, integers, quoted decimals of up to 20000 digits, in element lists, guards, &diff, "
                   "&dom bounds and objectives; reported variables and exact values are compared with the denoted linear form; non-trivial: solvable and depth at "
                   "least two",
                   100000, 800000}};

// --- C09
void c09(Ctx &c) {
    auto &s = c.src;
    bool strict = s.chance(20);
    auto conf = mixed(s, strict);
    conf.cons_hi = 5;
    conf.avg_cons = 2;
    conf.atoms_hi = std::min(conf.atoms_hi, 3);
    conf.atoms_lo = std::min(conf.atoms_lo, conf.atoms_hi);
    auto p = gen_prog(s, conf);
    strict = strict || p.strict;
    std::vector<std::string> open;
    bool second = s.chance(25); // the ill-formed part arrives in a later step
    // clingo does not even look at theory atoms of programs it finds
    // inconsistent, and drops those that it finds to be false
    auto models = stable_models(p.regular_text(), 500);
    if (models.empty()) { throw pbt::Discard{}; }
    for (auto const &a : p.choice) {
        auto n = std::count_if(models.begin(), models.end(), [&](Atoms const &m) { return m.count(a) > 0; });
        if (!second && n > 0 && static_cast<size_t>(n) < models.size()) { open.push_back(a); }
    }
    Style st;
    st.coef = static_cast<int>(s.u(3));
    st.rich = s.range(0, 1);
    auto bad = ill_formed(s, p.vars, st, open);
    // constants of several objective statements could cancel
    if (bad.objective) { p.objs.clear(); }
    std::string rule = bad.atom;
    bool directive = rule.compare(0, 4, "&min") == 0 || rule.compare(0, 4, "&max") == 0;
    if (!directive && !open.empty() && s.chance(40)) { rule += " :- " + std::string(s.chance(40) ? "not " : "") + s.pick(open); }
    rule += ".\n";
    Options o = gen_options(s, strict, s.chance(30));
    bool before = s.chance(50);
    std::string text = before ? rule + p.text() : p.text() + rule;
    // the well-formed rest is solvable as such
    c.describe("options:" + o.str() + "\nill-formed (" + bad.kind + "): " + rule + "---\n" + (second ? "in a second step\n" : "") + text);
    c.label(bad.kind);
    bool error = false;
    std::string msg;
    try {
        multi_shot(o);
        Session ses{o, 2000};
        if (second) {
            ses.add("base", p.text());
            ses.ground("base");
            auto r0 = ses.solve();
            if (!r0.sat) { throw pbt::Discard{}; }
            ses.add("base", "#program later.\n" + rule);
            ses.ground("later");
        } else {
            ses.add("base", text);
            ses.ground("base");
        }
        auto r = ses.solve();
        error = r.error;
        msg = r.msg;
        CHECK(!error || r.models.empty(), "answers reported for a program with an ill-formed atom");
    } catch (pbt::Discard const &) { throw; } catch (pbt::Fail const &) { throw; } catch (std::exception const &e) {
        error = true;
        msg = e.what();
    }
    c.ran();
    CHECK(error, "program with an ill-formed atom (" << bad.kind << ") is accepted");
    CHECK(!msg.empty(), "no error message");
    c.nontrivial = true;
}
pbt::Register r09{{"C09", c09,
                   "well-formed random programs into which one ill-formed theory atom is injected (products, divisions by zero or by variables in nested expressions, missing "
                   "guards, wrong element counts, conditions, &dom bounds and variables, objective constants, arithmetic over non-numbers in names), as fact or with a "
                   "body, first or last, in the first or a later step; solving has to fail with a message and without answers; every case is non-trivial; distinct by text",
                   80000, 640000}};

} // namespace
