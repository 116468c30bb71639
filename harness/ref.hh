// Exact reference arithmetic and linear programming (GMP), independent of the
// code under test.  Every verdict carries a certificate that is checked before
// it is returned, so the simplex below need not be trusted.
#pragma once
#include <gmpxx.h>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace ref {

using Q = mpq_class;
using Vars = std::map<std::string, Q>;

struct QK { // c + k*epsilon
    Q c, k;
    friend bool operator==(QK const &a, QK const &b) { return a.c == b.c && a.k == b.k; }
    friend bool operator!=(QK const &a, QK const &b) { return !(a == b); }
    friend bool operator<(QK const &a, QK const &b) { return a.c < b.c || (a.c == b.c && a.k < b.k); }
    friend bool operator<=(QK const &a, QK const &b) { return !(b < a); }
    friend QK operator+(QK const &a, QK const &b) { return {a.c + b.c, a.k + b.k}; }
    friend QK operator*(Q const &x, QK const &b) { return {x * b.c, x * b.k}; }
    std::string str() const;
};

enum class Rel { LE, GE, EQ, LT, GT };
char const *rel_str(Rel r);
Rel rel_invert(Rel r);
bool rel_strict(Rel r);

struct Lin { // sum of co*var + cst
    Vars co;
    Q cst = 0;
    void add(Lin const &o, Q const &f = 1) {
        for (auto const &[v, c] : o.co) {
            auto &x = co[v];
            x += f * c;
            if (x == 0) { co.erase(v); }
        }
        cst += f * o.cst;
    }
    bool constant() const { return co.empty(); }
    QK eval(std::map<std::string, QK> const &val) const;
    std::string str() const;
};

struct Row { // lhs (no constant) rel rhs
    Vars co;
    Rel rel = Rel::LE;
    Q rhs;
    std::string str() const;
};

Row make_row(Lin const &lhs, Rel rel, Lin const &rhs);

struct LpResult {
    enum { Infeasible, Optimal, Unbounded } status;
    Q value;
    Vars point;
};

// maximise obj over the rows read non-strictly
LpResult maximise(std::vector<Row> const &rows, Vars const &obj);
// satisfiable over the reals, strict relations read strictly
// (if not, core receives the indices of unsatisfiable rows)
bool feasible(std::vector<Row> const &rows, std::set<size_t> *core = nullptr);

struct Opt {
    bool feasible = false;
    bool bounded = false;
    bool attained = false;
    Q sup;
};
Opt optimum(std::vector<Row> const &rows, Lin const &obj);

// does the assignment satisfy the row for all sufficiently small positive epsilon
bool satisfies(Row const &r, std::map<std::string, QK> const &val);

// parse a value printed by clingo-lpx; checks canonical form
std::optional<QK> parse_value(std::string const &s, bool strict, std::string &err);

} // namespace ref
