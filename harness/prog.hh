// Generated programs: syntax (text given to the system under test) together
// with their independent meaning.
#pragma once
#include "engine.hh"
#include "ref.hh"

namespace prog {

using pbt::Src;
using ref::Lin;
using ref::Q;
using ref::Rel;

struct Expr {
    std::string text;
    std::string key; // structure, independent of redundant blanks and parentheses
    int prec = 9;    // 1: + -, 2: * /, 3: unary -, 9: atomic
    Lin val;
    bool numeric = false; // no variables syntactically
};

struct Lit {
    std::string atom;
    bool neg = false;
    std::string str() const { return (neg ? "not " : "") + atom; }
};
using Atoms = std::set<std::string>;
bool holds(std::vector<Lit> const &body, Atoms const &m);
std::string body_str(std::vector<Lit> const &body);

struct Elem {
    Expr e;
    std::vector<Lit> cond;
    std::string str() const { return e.text + (cond.empty() ? "" : " : " + body_str(cond)); }
    std::string key() const { return e.key + (cond.empty() ? "" : ":" + body_str(cond)); }
};

// a theory atom standing for one or more rows
struct Con {
    enum Kind { Sum, Diff, Dom } kind = Sum;
    std::vector<Elem> elems;
    Rel rel = Rel::LE;
    Expr guard;
    Expr dom_lo, dom_hi; // Dom
    std::vector<Lit> body;
    int step = 0;
    std::string alt; // text to use instead
    std::string head() const;
    std::string str() const { return !alt.empty() ? alt : head() + (body.empty() ? "." : " :- " + body_str(body) + "."); }
    void rows(Atoms const &m, std::vector<ref::Row> &out) const;
    bool strict() const { return kind != Dom && ref::rel_strict(rel); }
};

struct Obj {
    bool minimise = false;
    std::vector<Elem> elems;
    int step = 0;
    std::string alt; // text to use instead
    std::string str() const;
    // contribution to the maximised objective
    Lin eval(Atoms const &m) const;
};

struct Prog {
    std::vector<std::vector<std::string>> regular; // per step: rules without theory atoms
    std::vector<Con> cons;
    std::vector<Obj> objs;
    std::vector<std::string> vars;    // canonical names
    std::vector<std::string> choice;  // atoms usable in bodies and conditions
    bool strict = false;              // contains strict relations
    int steps() const { return static_cast<int>(regular.size()); }
    std::string regular_text(int step = 0) const;
    std::string theory_text(int step = 0) const;
    std::string text(int step = 0) const { return regular_text(step) + theory_text(step); }
    std::vector<ref::Row> rows(Atoms const &m, int upto = 1 << 30) const;
    bool has_objective(int upto = 1 << 30) const;
    Lin objective(Atoms const &m, int upto = 1 << 30) const;
};

// ---- generation

struct Style { // swarm parameters of one case
    int coef = 0;       // 0 small ints, 1 ints up to 20, 2 fractions/decimals, 3 huge
    int shape = 0;      // 0 mixed, 1 single variable bounds, 2 differences, 3 dense
    int point = 0;      // 0 random right-hand sides, 1 around a hidden point, 2 tight at a hidden point, 3 zero
    int rich = 0;       // syntactic richness of expressions
    bool strict = false;
    uint32_t cond = 0;  // percent of conditional elements
    uint32_t eq = 15;   // percent of equalities
    uint32_t body = 50; // percent of constraints with a body
    std::map<std::string, Q> hidden;
};

struct Conf {
    int vars_lo = 1, vars_hi = 5, atoms_lo = 0, atoms_hi = 4, cons_lo = 1, cons_hi = 9;
    uint32_t avg_cons = 5;
    bool objective = true, must_objective = false;
    bool conditions = true;
    bool strict = false;      // allow strict relations
    bool dom_diff = true;
    bool large = false;
    int rich = 1;             // maximal syntactic richness
    int fix_coef = -1, fix_shape = -1, fix_point = -1;
    uint32_t fix_cond = 999;
};

struct VarName { std::string canon; };
std::string var_name(Src &s, int i, int rich);
// some spelling of a variable with this canonical name
Expr spell_var(Src &s, std::string const &canon, int rich);
Expr spell_name(Src &s, std::string const &canon, int rich); // where only a name or number is read (&diff, guard of &dom)
Expr num_expr(Src &s, Q const &v, int rich); // some expression with this constant value
Expr mk_add(Src &s, Expr a, Expr b, bool minus);
Expr mk_mul(Src &s, Expr a, Expr b);
Expr mk_div(Src &s, Expr a, Expr b);
Expr mk_neg(Src &s, Expr a);
Expr term_expr(Src &s, Q const &c, std::string const &var, int rich); // c*var
Expr lin_expr(Src &s, Lin const &l, int rich);                         // some expression denoting l
// an expression grown top-down at random, well-formed by construction
Expr random_expr(Src &s, std::vector<std::string> const &vars, int depth, Style const &st);
Q gen_q(Src &s, Style const &st, bool nonzero);
Con gen_con(Src &s, Style const &st, Conf const &c, std::vector<std::string> const &vars, std::vector<std::string> const &atoms);
Prog gen_prog(Src &s, Conf const &c);
Style gen_style(Src &s, Conf const &c, std::vector<std::string> const &vars);
void gen_regular(Src &s, Conf const &c, Prog &p, std::vector<std::string> &rules, std::vector<std::string> &atoms, std::string const &suffix);
// whether elements or statements of an objective may become equal (and thus one)
bool may_collapse(std::vector<Obj> const &objs);
void gen_objective(Src &s, Style const &st, Conf const &c, Prog &p, std::vector<std::string> const &vars, std::vector<std::string> const &atoms, int step);
std::vector<Lit> gen_body(Src &s, std::vector<std::string> const &atoms, int hi);
std::vector<std::string> gen_vars(Src &s, int lo, int hi, int rich);

} // namespace prog
