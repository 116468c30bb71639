// Generators and classification shared by several properties.
#pragma once
#include "run.hh"
#include <algorithm>

namespace shared {

using namespace run;
using namespace prog;
using pbt::Ctx;

// the usual mixture of program profiles
inline Conf mixed(Src &s, bool strict) {
    Conf c;
    c.strict = strict;
    switch (s.weighted({45, 20, 15, 12, 8})) {
        case 1: // few variables, many switched constraints over the same rows
            c.vars_lo = 1; c.vars_hi = 2; c.atoms_lo = 2; c.atoms_hi = 5; c.cons_hi = 14; c.avg_cons = 9;
            break;
        case 2: // equalities and switching
            c.vars_lo = 2; c.vars_hi = 4; c.atoms_lo = 3; c.atoms_hi = 5; c.cons_hi = 12; c.avg_cons = 8; c.fix_coef = 0;
            break;
        case 3: // larger systems
            c.vars_lo = 5; c.vars_hi = 9; c.atoms_lo = 0; c.atoms_hi = 3; c.cons_hi = 20; c.avg_cons = 14;
            break;
        case 4: // more atoms
            c.vars_lo = 2; c.vars_hi = 6; c.atoms_lo = 5; c.atoms_hi = 7; c.cons_hi = 18; c.avg_cons = 12;
            break;
        default: break;
    }
    return c;
}

inline Prog gen(Ctx &c, bool strict, bool must_obj = false) {
    auto conf = mixed(c.src, strict);
    conf.must_objective = must_obj;
    return gen_prog(c.src, conf);
}

// clasp's Vmtf heuristic can loop forever in later solve calls of a control
inline void multi_shot(Options &o) {
    o.clasp.erase(std::remove(o.clasp.begin(), o.clasp.end(), "--heuristic=Vmtf"), o.clasp.end());
}

inline void classify(Ctx &c, Prog const &p, Expected const &e) {
    c.label(e.models.empty() ? "regular part unsatisfiable" : e.feasible == 0 ? "all answers infeasible" : e.feasible == e.models.size() ? "all feasible" : "some feasible");
    if (p.has_objective()) { c.label("with objective"); }
    if (p.strict) { c.label("with strict relations"); }
    if (std::any_of(p.cons.begin(), p.cons.end(), [](Con const &x) { return std::any_of(x.elems.begin(), x.elems.end(), [](Elem const &y) { return !y.cond.empty(); }); })) { c.label("with conditions"); }
    if (e.models.size() > 8) { c.label(">8 stable models"); }
    if (p.vars.size() > 4) { c.label(">4 variables"); }
}

inline bool interesting(Prog const &p, Expected const &e) {
    return e.models.size() > e.feasible || (e.feasible > 0 && std::any_of(e.models.begin(), e.models.end(), [](auto const &m) { return m.rows.size() >= 2; }));
}

} // namespace shared
