// C04: enumeration under a global objective
#include "global_oracle.hh"
#include "huge.hh"

using namespace shared;

namespace {

void c04(Ctx &c) {
    auto &s = c.src;
    if (s.u(400) == 0) {
        bool strict = s.chance(30);
        auto st = gen_step(s, strict);
        return huge_global(c, strict, st);
    }
    if (s.chance(3)) {
        auto st = gen_step(s, false);
        return large_global(c, st.c, st.text);
    }
    bool strict = s.chance(20);
    auto conf = mixed(s, strict);
    conf.must_objective = s.chance(95);
    conf.atoms_lo = std::max(conf.atoms_lo, 2);
    conf.atoms_hi = std::max(std::min(conf.atoms_hi, 5), conf.atoms_lo);
    auto p = gen_prog(s, conf);
    box(s, p, s.chance(70) ? 85 : 30);
    strict = strict || p.strict;
    // make the objective depend on the choices more often
    if (!p.objs.empty() && s.chance(50)) {
        std::vector<std::string> open;
        for (auto const &a : p.choice) { if (a[0] == 'a') { open.push_back(a); } }
        if (!open.empty()) {
            Con k;
            k.body = gen_body(s, open, 1);
            Elem el;
            el.e = spell_var(s, s.pick(p.vars), 0);
            k.elems.push_back(el);
            k.rel = s.chance(50) ? Rel::LE : Rel::GE;
            k.guard = num_expr(s, s.range(-4, 4), 0);
            p.cons.push_back(k);
        }
    }
    auto o = gen_options(s, strict, true);
    auto st = gen_step(s, strict);
    o.objective = st.text;
    c.describe(show(p, o));
    auto e = expected(p, 200);
    classify(c, p, e);
    auto r = lpx(p.text(), o, e.models.size() + 20);
    c.ran();
    CHECK(!r.error, "unexpected error: " << r.msg);
    CHECK(!r.truncated, "too many answers");
    CHECK(r.exhausted, "search not exhausted");
    check_global(p, e, r.models, st, strict);
    CHECK(r.sat == (e.feasible > 0) && r.unsat == (e.feasible == 0), "wrong verdict");
    bool line = !r.models.empty() && r.models.back().objective;
    if (line) {
        c.label(r.models.back().objective->second ? "bounded optimum" : "unbounded");
        c.label(st.c == 0 && st.k == 0 ? "step zero" : st.k != 0 ? "step e" : "positive step");
    }
    if (r.models.size() > 1) { c.label("several answers reported"); }
    if (r.models.size() < e.feasible) { c.label("answers skipped"); }
    c.nontrivial = line && e.feasible > 1 && (r.models.size() < e.feasible || r.models.size() > 1);
}
pbt::Register r04{{"C04", c04,
                   "random programs with an objective, mostly boxed variables and bounds switched by choices, solved with --objective=global and steps 0, rational or e; "
                   "the reported sequence is checked for soundness, own optima, step-wise increase and unboundedness, and its end against the exact optimum over all "
                   "feasible stable models; non-trivial: the answers have an objective line, at least two stable models are feasible, and several answers were "
                   "reported or some were skipped",
                   48000, 900000}};

} // namespace
