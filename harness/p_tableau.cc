// C15: the sparse tableau against a dense matrix over GMP rationals
#include "engine.hh"
#include "tableau.hh"
#include <gmpxx.h>

using pbt::Ctx;
using pbt::Src;

namespace {

using Dense = std::vector<std::vector<mpq_class>>;

mpz_class Z(Integer const &a) {
    std::ostringstream oss;
    oss << a;
    return mpz_class(oss.str());
}
Integer to_I(mpz_class const &z) { return Integer{z.get_str(), 10}; }
Rational to_R(mpq_class const &q) { return Rational{to_I(q.get_num()), to_I(q.get_den())}; }
mpq_class frac(mpz_class const &n, mpz_class const &d) {
    mpq_class r(n, d);
    r.canonicalize();
    return r;
}

struct Case {
    Ctx &c;
    Src &s;
    Tableau t;
    Dense a;
    size_t m, n;
    std::string log;

    mpq_class value() {
        mpq_class r;
        switch (s.weighted({45, 35, 15, 5})) {
            case 0: r = s.range(-3, 3); break;
            case 1: r = frac(s.range(-12, 12), 1 + s.u(12)); break;
            case 2: r = frac(s.range(-200, 200), std::vector<int>{210, 64, 1001, 99991, 2147483647}[s.u(5)]); break;
            default: {
                mpz_class p(1);
                mpz_mul_2exp(p.get_mpz_t(), p.get_mpz_t(), 50 + s.u(40));
                r = frac(p + s.range(-3, 3), s.chance(50) ? mpz_class(1) : mpz_class(p * 3 - 1));
                if (s.chance(50)) { r = -r; }
                break;
            }
        }
        return r;
    }

    void check_row(size_t i, bool lowest) {
        std::map<index_t, mpz_class> seen;
        mpz_class den, g;
        bool first = true;
        index_t last = 0;
        std::string what = "row " + std::to_string(i);
        t.update_row(static_cast<index_t>(i), [&](index_t j, Integer const &num, Integer const &d) {
            CHECK(j < n, what << ": traversal visits column " << j << " of " << n);
            CHECK(first || j != last, what << ": column " << j << " visited twice");
            CHECK(seen.emplace(j, Z(num)).second, what << ": column " << j << " visited twice");
            mpz_class dd = Z(d);
            CHECK(dd != 0, what << ": zero denominator");
            CHECK(first || dd == den, what << ": denominator changes during traversal");
            den = dd;
            first = false;
            last = j;
        });
        for (auto const &[j, num] : seen) {
            CHECK(num != 0, what << ": traversal visits the zero entry in column " << j);
            CHECK(frac(num, den) == a[i][j], what << ", column " << j << ": traversal gives " << num << "/" << den << ", expected " << a[i][j]);
            mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), num.get_mpz_t());
        }
        for (size_t j = 0; j < n; ++j) { CHECK(a[i][j] == 0 || seen.count(static_cast<index_t>(j)), what << ": traversal misses column " << j << " with value " << a[i][j]); }
        if (lowest && !seen.empty()) {
            mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), den.get_mpz_t());
            CHECK(g == 1, what << ": not in lowest terms after pivoting, common factor " << g << " with denominator " << den);
        }
    }
    void check_col(size_t j) {
        std::set<index_t> seen;
        std::string what = "column " + std::to_string(j);
        t.update_col(static_cast<index_t>(j), [&](index_t i, Integer const &num, Integer const &d) {
            CHECK(i < m, what << ": traversal visits row " << i << " of " << m);
            CHECK(seen.insert(i).second, what << ": row " << i << " visited twice");
            mpz_class nn = Z(num), dd = Z(d);
            CHECK(dd != 0 && nn != 0, what << ": traversal visits " << nn << "/" << dd << " in row " << i);
            CHECK(frac(nn, dd) == a[i][j], what << ", row " << i << ": traversal gives " << nn << "/" << dd << ", expected " << a[i][j]);
        });
        for (size_t i = 0; i < m; ++i) { CHECK(a[i][j] == 0 || seen.count(static_cast<index_t>(i)), what << ": traversal misses row " << i << " with value " << a[i][j]); }
    }
    void check_all(std::set<size_t> const &lowest) {
        size_t nz = 0;
        for (size_t i = 0; i < m; ++i) {
            for (size_t j = 0; j < n; ++j) {
                std::ostringstream oss;
                oss << t.get(static_cast<index_t>(i), static_cast<index_t>(j));
                CHECK(oss.str() == a[i][j].get_str(), "entry (" << i << "," << j << ") is " << oss.str() << ", expected " << a[i][j]);
                if (a[i][j] != 0) {
                    ++nz;
                    Integer *num = nullptr, *den = nullptr;
                    t.unsafe_get(static_cast<index_t>(i), static_cast<index_t>(j), num, den);
                    CHECK(num != nullptr && den != nullptr && *den != 0 && frac(Z(*num), Z(*den)) == a[i][j], "mutable entry (" << i << "," << j << ") differs from " << a[i][j]);
                }
            }
        }
        CHECK(t.size() == nz, "size is " << t.size() << ", expected " << nz);
        CHECK(t.empty() == (nz == 0), "empty is " << t.empty() << " with " << nz << " entries");
        // outside of what was set
        std::ostringstream oss;
        oss << t.get(static_cast<index_t>(m + 3), 0) << t.get(0, static_cast<index_t>(n + 7));
        CHECK(oss.str() == "00", "entries outside are " << oss.str());
        size_t calls = 0;
        t.update_row(static_cast<index_t>(m + 3), [&](index_t, Integer const &, Integer const &) { ++calls; });
        t.update_col(static_cast<index_t>(n + 7), [&](index_t, Integer const &, Integer const &) { ++calls; });
        CHECK(calls == 0, "traversal outside visits entries");
        // columns first in half of the cases: traversing them changes the index
        bool cols = s.chance(50);
        for (int k = 0; k < 2; ++k) {
            if ((k == 0) == cols) {
                for (size_t j = 0; j < n; ++j) { check_col(j); }
            } else {
                for (size_t i = 0; i < m; ++i) { check_row(i, lowest.count(i) > 0); }
            }
        }
    }

    void set(size_t i, size_t j, mpq_class const &v) {
        log += "set " + std::to_string(i) + " " + std::to_string(j) + " " + v.get_str() + "\n";
        t.set(static_cast<index_t>(i), static_cast<index_t>(j), to_R(v));
        a[i][j] = v;
        c.ran();
    }

    std::set<size_t> pivot(size_t i, size_t j) {
        log += "pivot " + std::to_string(i) + " " + std::to_string(j) + "\n";
        Integer *num = nullptr, *den = nullptr;
        t.unsafe_get(static_cast<index_t>(i), static_cast<index_t>(j), num, den);
        t.pivot(static_cast<index_t>(i), static_cast<index_t>(j), *num, *den);
        c.ran();
        // y_i = sum a_il x_l  solved for x_j, inserted into the other rows
        mpq_class p = a[i][j];
        std::vector<mpq_class> row = a[i];
        std::set<size_t> touched{i};
        for (size_t l = 0; l < n; ++l) { a[i][l] = l == j ? mpq_class(1 / p) : mpq_class(-row[l] / p); }
        for (size_t k = 0; k < m; ++k) {
            if (k == i || a[k][j] == 0) { continue; }
            touched.insert(k);
            mpq_class f = a[k][j];
            for (size_t l = 0; l < n; ++l) {
                if (l == j) { a[k][l] = f / p; }
                else { a[k][l] -= f * row[l] / p; }
            }
        }
        return touched;
    }
};

void body(Case &k) {
    Src &s = k.s;
    k.m = 1 + s.u(7);
    k.n = 1 + s.u(7);
    if (s.chance(8)) { k.m += s.u(12); k.n += s.u(12); }
    k.a.assign(k.m, std::vector<mpq_class>(k.n));
    k.log = std::to_string(k.m) + "x" + std::to_string(k.n) + "\n";
    // density; the solver sets rows one after the other, columns in order
    uint32_t density = 15 + s.u(80);
    bool ordered = s.chance(70);
    std::vector<std::pair<size_t, size_t>> order;
    for (size_t i = 0; i < k.m; ++i) {
        for (size_t j = 0; j < k.n; ++j) {
            if (s.chance(density)) { order.emplace_back(i, j); }
        }
    }
    if (!ordered) {
        for (size_t x = order.size(); x > 1; --x) { std::swap(order[x - 1], order[s.u(static_cast<uint32_t>(x))]); }
    }
    for (auto [i, j] : order) { k.set(i, j, k.value()); }
    k.check_all({});
    size_t pivots = 0, fill = 0, cancel = 0, sets = 0, traversals = 0;
    bool rational = false;
    for (uint32_t step = 0; s.more(step, 2, 60, 14); ++step) {
        std::set<size_t> lowest;
        bool deep = s.chance(45); // without a check in between stale column entries accumulate
        switch (s.weighted({70, 14, 8, 4, 2, 2})) {
            case 0: {
                std::vector<std::pair<size_t, size_t>> cand;
                for (size_t i = 0; i < k.m; ++i) {
                    for (size_t j = 0; j < k.n; ++j) {
                        if (k.a[i][j] != 0) { cand.emplace_back(i, j); }
                    }
                }
                if (cand.empty()) { break; }
                auto [i, j] = s.pick(cand);
                if (k.c.minimising == false && mpz_sizeinbase(k.a[i][j].get_num_mpz_t(), 2) > 4000) { break; }
                Dense old = k.a;
                lowest = k.pivot(i, j);
                ++pivots;
                for (size_t x = 0; x < k.m; ++x) {
                    for (size_t y = 0; y < k.n; ++y) {
                        fill += old[x][y] == 0 && k.a[x][y] != 0;
                        cancel += old[x][y] != 0 && k.a[x][y] == 0;
                        rational = rational || k.a[x][y].get_den() != 1;
                    }
                }
                break;
            }
            case 1: k.set(s.u(static_cast<uint32_t>(k.m)), s.u(static_cast<uint32_t>(k.n)), s.chance(35) ? mpq_class(0) : k.value()); ++sets; break;
            case 2: { // a new row as in a later solve call
                k.a.emplace_back(k.n);
                ++k.m;
                for (size_t j = 0; j < k.n; ++j) {
                    if (s.chance(density)) { k.set(k.m - 1, j, k.value()); }
                }
                ++sets;
                break;
            }
            case 3: { // a new column
                for (auto &row : k.a) { row.emplace_back(); }
                ++k.n;
                for (size_t i = 0; i < k.m; ++i) {
                    if (s.chance(density)) { k.set(i, k.n - 1, k.value()); }
                }
                ++sets;
                break;
            }
            case 4: { // change entries during the traversal of a row or column
                ++traversals;
                int f = s.chance(50) ? 3 : -2;
                if (s.chance(50)) {
                    size_t i = s.u(static_cast<uint32_t>(k.m));
                    k.log += "scale row " + std::to_string(i) + " by " + std::to_string(f) + "\n";
                    k.t.update_row(static_cast<index_t>(i), [&](index_t, Integer &num, Integer &) { num *= f; });
                    for (auto &x : k.a[i]) { x *= f; }
                } else {
                    size_t j = s.u(static_cast<uint32_t>(k.n));
                    k.log += "scale column " + std::to_string(j) + " by " + std::to_string(f) + "\n";
                    k.t.update_col(static_cast<index_t>(j), [&](index_t, Integer &num, Integer &) { num *= f; });
                    for (auto &row : k.a) { row[j] *= f; }
                }
                break;
            }
            default: {
                if (s.chance(70)) { // copies and moves keep the contents
                    k.log += "copy\n";
                    Tableau t{k.t};
                    if (s.chance(50)) { k.t = std::move(t); } else { k.t.clear(); k.t = t; }
                } else {
                    k.log += "clear\n";
                    k.t.clear();
                    for (auto &row : k.a) { for (auto &x : row) { x = 0; } }
                    CHECK(k.t.empty() && k.t.size() == 0, "not empty after clear");
                }
                break;
            }
        }
        if (!deep) { k.check_all(lowest); }
        else {
            for (auto i : lowest) { k.check_row(i, true); }
            if (s.chance(30)) { k.check_col(s.u(static_cast<uint32_t>(k.n))); }
        }
    }
    k.check_all({});
    k.c.nontrivial = pivots >= 2 && fill > 0;
    if (fill) { k.c.label("fill-in"); }
    if (cancel) { k.c.label("cancellation"); }
    if (rational) { k.c.label("fractions"); }
    if (sets && pivots) { k.c.label("entries set between pivots"); }
    if (traversals) { k.c.label("changed during traversal"); }
}

void run(Ctx &c) {
    Case k{c, c.src, {}, {}, 0, 0, {}};
    try { body(k); }
    catch (...) { c.describe(k.log); throw; }
    c.describe(k.log);
}

pbt::Register r15{{"C15", run,
                   "random sparse tableaus (up to 19x19) under random sequences of pivots, settings, new rows and columns, scalings and copies; entry reads and both traversals must equal a dense matrix over GMP "
                   "rationals under textbook pivoting; non-trivial: at least two pivots and fill-in",
                   60000, 1000000}};

} // namespace
