#include "ref.hh"
#include "engine.hh"
#include <algorithm>
#include <sstream>

namespace ref {

std::string QK::str() const { return c.get_str() + "+" + k.get_str() + "e"; }
char const *rel_str(Rel r) {
    switch (r) { case Rel::LE: return "<="; case Rel::GE: return ">="; case Rel::EQ: return "="; case Rel::LT: return "<"; case Rel::GT: return ">"; }
    return "?";
}
Rel rel_invert(Rel r) {
    switch (r) { case Rel::LE: return Rel::GE; case Rel::GE: return Rel::LE; case Rel::EQ: return Rel::EQ; case Rel::LT: return Rel::GT; case Rel::GT: return Rel::LT; }
    return r;
}
bool rel_strict(Rel r) { return r == Rel::LT || r == Rel::GT; }

QK Lin::eval(std::map<std::string, QK> const &val) const {
    QK r{cst, 0};
    for (auto const &[v, c] : co) {
        auto it = val.find(v);
        if (it != val.end()) { r = r + c * it->second; }
    }
    return r;
}
static std::string vars_str(Vars const &co) {
    std::string s;
    for (auto const &[v, c] : co) { s += (s.empty() ? "" : " + ") + c.get_str() + "*" + v; }
    return s.empty() ? "0" : s;
}
std::string Lin::str() const { return vars_str(co) + " + " + cst.get_str(); }
std::string Row::str() const { return vars_str(co) + " " + rel_str(rel) + " " + rhs.get_str(); }

Row make_row(Lin const &lhs, Rel rel, Lin const &rhs) {
    Lin l = lhs;
    l.add(rhs, -1);
    return Row{l.co, rel, -l.cst};
}

namespace {

// inequalities a.x <= b over free variables
struct Ineqs {
    std::vector<std::vector<Q>> a;
    std::vector<Q> b;
    size_t n = 0;
};

struct Raw {
    int status; // 0 infeasible 1 optimal 2 unbounded
    Q value;
    std::vector<Q> x;
    std::vector<Q> y; // multipliers of an unsatisfiable system or an optimum
};

void require(bool c, char const *what) { if (!c) { throw pbt::OracleBug(what); } }

Raw solve(Ineqs const &s, std::vector<Q> const &c) {
    size_t n = s.n, m = s.a.size();
    // variable ids: 0..n-1 free, n+i slack of row i
    std::vector<size_t> basic(m), nonb(n);
    std::vector<std::vector<Q>> D(m, std::vector<Q>(n));
    std::vector<Q> d(m), z(c);
    Q z0 = 0;
    for (size_t j = 0; j < n; ++j) { nonb[j] = j; }
    for (size_t i = 0; i < m; ++i) {
        basic[i] = n + i;
        d[i] = s.b[i];
        for (size_t j = 0; j < n; ++j) { D[i][j] = -s.a[i][j]; }
    }
    auto pivot = [&](size_t r, size_t e) {
        Q p = D[r][e];
        Q inv = 1 / p;
        for (size_t j = 0; j < n; ++j) { if (j != e) { D[r][j] = -D[r][j] * inv; } }
        d[r] = -d[r] * inv;
        D[r][e] = inv;
        auto elim = [&](std::vector<Q> &row, Q &cst) {
            Q f = row[e];
            if (f == 0) { return; }
            for (size_t j = 0; j < n; ++j) {
                if (j == e) { row[j] = f * D[r][j]; }
                else if (D[r][j] != 0) { row[j] += f * D[r][j]; }
            }
            cst += f * d[r];
        };
        for (size_t i = 0; i < m; ++i) { if (i != r) { elim(D[i], d[i]); } }
        elim(z, z0);
        std::swap(basic[r], nonb[e]);
    };
    // make free variables basic
    std::vector<char> dead(n, 0);
    for (size_t j = 0; j < n; ++j) {
        if (nonb[j] >= n) { continue; }
        size_t r = m;
        for (size_t i = 0; i < m; ++i) { if (basic[i] >= n && D[i][j] != 0) { r = i; break; } }
        if (r == m) { dead[j] = 1; } else { pivot(r, j); }
    }
    auto point = [&] {
        std::vector<Q> x(n);
        for (size_t i = 0; i < m; ++i) { if (basic[i] < n) { x[basic[i]] = d[i]; } }
        return x;
    };
    // feasibility (smallest index)
    while (true) {
        size_t r = m;
        for (size_t i = 0; i < m; ++i) { if (basic[i] >= n && d[i] < 0 && (r == m || basic[i] < basic[r])) { r = i; } }
        if (r == m) { break; }
        size_t e = n;
        for (size_t j = 0; j < n; ++j) { if (!dead[j] && D[r][j] > 0 && (e == n || nonb[j] < nonb[e])) { e = j; } }
        if (e == n) {
            // Farkas certificate
            std::vector<Q> y(m), sum(n);
            y[basic[r] - n] = 1;
            for (size_t j = 0; j < n; ++j) { if (nonb[j] >= n) { y[nonb[j] - n] -= D[r][j]; } else { require(D[r][j] == 0, "farkas free"); } }
            Q rhs = 0;
            for (size_t i = 0; i < m; ++i) {
                require(y[i] >= 0, "farkas sign");
                for (size_t j = 0; j < n; ++j) { sum[j] += y[i] * s.a[i][j]; }
                rhs += y[i] * s.b[i];
            }
            for (auto &q : sum) { require(q == 0, "farkas lhs"); }
            require(rhs < 0, "farkas rhs");
            return {0, 0, {}, y};
        }
        pivot(r, e);
    }
    auto check_point = [&](std::vector<Q> const &x) {
        for (size_t i = 0; i < m; ++i) {
            Q l = 0;
            for (size_t j = 0; j < n; ++j) { l += s.a[i][j] * x[j]; }
            require(l <= s.b[i], "point infeasible");
        }
    };
    while (true) {
        size_t e = n;
        for (size_t j = 0; j < n; ++j) {
            bool cand = dead[j] ? z[j] != 0 : z[j] > 0;
            if (cand && (e == n || nonb[j] < nonb[e])) { e = j; }
        }
        if (e == n) {
            auto x = point();
            check_point(x);
            Q v = 0, dv = 0;
            for (size_t j = 0; j < n; ++j) { v += c[j] * x[j]; }
            require(v == z0, "objective value");
            std::vector<Q> y(m), sum(n);
            for (size_t j = 0; j < n; ++j) { if (nonb[j] >= n) { y[nonb[j] - n] = -z[j]; require(z[j] <= 0, "dual sign"); } else { require(z[j] == 0, "dual free"); } }
            for (size_t i = 0; i < m; ++i) {
                for (size_t j = 0; j < n; ++j) { sum[j] += y[i] * s.a[i][j]; }
                dv += y[i] * s.b[i];
            }
            require(sum == c, "dual lhs");
            require(dv == v, "dual value");
            return {1, v, x, y};
        }
        size_t r = m;
        Q best;
        Q sgn = dead[e] && z[e] < 0 ? -1 : 1;
        if (!dead[e]) {
            for (size_t i = 0; i < m; ++i) {
                if (basic[i] < n || D[i][e] >= 0) { continue; }
                Q t = d[i] / -D[i][e];
                if (r == m || t < best || (t == best && basic[i] < basic[r])) { r = i; best = t; }
            }
        }
        if (r == m) {
            auto x = point();
            check_point(x);
            std::vector<Q> ray(n);
            if (nonb[e] < n) { ray[nonb[e]] = sgn; }
            for (size_t i = 0; i < m; ++i) { if (basic[i] < n) { ray[basic[i]] = sgn * D[i][e]; } }
            Q cr = 0;
            for (size_t j = 0; j < n; ++j) { cr += c[j] * ray[j]; }
            require(cr > 0, "ray objective");
            for (size_t i = 0; i < m; ++i) {
                Q l = 0;
                for (size_t j = 0; j < n; ++j) { l += s.a[i][j] * ray[j]; }
                require(l <= 0, "ray feasible");
            }
            return {2, 0, x, {}};
        }
        pivot(r, e);
    }
}

struct Built {
    Ineqs s;
    std::vector<std::string> names;
    std::map<std::string, size_t> idx;
};

Built build(std::vector<Row> const &rows, Vars const &extra, bool delta) {
    Built b;
    auto touch = [&](Vars const &v) { for (auto const &[k, c] : v) { if (b.idx.emplace(k, b.names.size()).second) { b.names.push_back(k); } } };
    for (auto const &r : rows) { touch(r.co); }
    touch(extra);
    size_t n = b.names.size() + (delta ? 1 : 0);
    b.s.n = n;
    auto add = [&](Vars const &co, Q const &rhs, int sg, bool strict) {
        std::vector<Q> a(n);
        for (auto const &[k, c] : co) { a[b.idx[k]] = sg * c; }
        if (strict && delta) { a[n - 1] = 1; }
        b.s.a.push_back(std::move(a));
        b.s.b.push_back(sg * rhs);
    };
    for (auto const &r : rows) {
        if (r.rel == Rel::LE || r.rel == Rel::LT || r.rel == Rel::EQ) { add(r.co, r.rhs, 1, r.rel == Rel::LT); }
        if (r.rel == Rel::GE || r.rel == Rel::GT || r.rel == Rel::EQ) { add(r.co, r.rhs, -1, r.rel == Rel::GT); }
    }
    if (delta) {
        std::vector<Q> a(n);
        a[n - 1] = 1;
        b.s.a.push_back(a);
        b.s.b.push_back(1);
    }
    return b;
}

} // namespace

LpResult maximise(std::vector<Row> const &rows, Vars const &obj) {
    auto b = build(rows, obj, false);
    std::vector<Q> c(b.s.n);
    for (auto const &[k, v] : obj) { c[b.idx[k]] = v; }
    auto r = solve(b.s, c);
    LpResult res;
    res.status = r.status == 0 ? LpResult::Infeasible : r.status == 1 ? LpResult::Optimal : LpResult::Unbounded;
    res.value = r.value;
    if (r.status != 0) { for (size_t i = 0; i < b.names.size(); ++i) { res.point[b.names[i]] = r.x[i]; } }
    return res;
}

bool feasible(std::vector<Row> const &rows, std::set<size_t> *core) {
    bool strict = std::any_of(rows.begin(), rows.end(), [](Row const &r) { return rel_strict(r.rel); });
    auto b = build(rows, {}, strict);
    std::vector<Q> c(b.s.n);
    if (strict) { c[b.s.n - 1] = 1; }
    auto r = solve(b.s, c);
    if (r.status != 0) {
        if (!strict) { return true; }
        require(r.status == 1, "delta unbounded");
        if (r.value > 0) { return true; }
    }
    if (core) {
        // rows with a multiplier different from zero; equalities have two
        size_t k = 0;
        for (size_t i = 0; i < rows.size(); ++i) {
            for (int n = rows[i].rel == Rel::EQ ? 2 : 1; n > 0; --n, ++k) { if (r.y[k] != 0) { core->insert(i); } }
        }
    }
    return false;
}

Opt optimum(std::vector<Row> const &rows, Lin const &obj) {
    Opt o;
    o.feasible = feasible(rows);
    if (!o.feasible) { return o; }
    auto r = maximise(rows, obj.co);
    require(r.status != LpResult::Infeasible, "closure infeasible");
    o.bounded = r.status == LpResult::Optimal;
    if (o.bounded) {
        o.sup = r.value + obj.cst;
        auto rows2 = rows;
        rows2.push_back(Row{obj.co, Rel::EQ, r.value});
        o.attained = feasible(rows2);
    }
    return o;
}

bool satisfies(Row const &r, std::map<std::string, QK> const &val) {
    QK l{0, 0};
    for (auto const &[v, c] : r.co) {
        auto it = val.find(v);
        if (it == val.end()) { return false; }
        l = l + c * it->second;
    }
    QK b{r.rhs, 0};
    switch (r.rel) {
        case Rel::LE: return l <= b;
        case Rel::GE: return b <= l;
        case Rel::EQ: return l == b;
        case Rel::LT: return l < b;
        case Rel::GT: return b < l;
    }
    return false;
}

static std::optional<Q> parse_q(std::string const &s, std::string &err) {
    size_t i = 0;
    if (i < s.size() && s[i] == '-') { ++i; }
    size_t d = i;
    while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { ++i; }
    if (i == d) { err = "not a number: " + s; return {}; }
    if (i < s.size()) {
        if (s[i] != '/') { err = "not a rational: " + s; return {}; }
        size_t e = ++i;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { ++i; }
        if (i == e || i != s.size()) { err = "not a rational: " + s; return {}; }
    }
    mpq_class q;
    if (q.set_str(s, 10) != 0 || q.get_den() == 0) { err = "not a rational: " + s; return {}; }
    q.canonicalize();
    if (q.get_str() != s) { err = "not in canonical form: " + s; return {}; }
    return q;
}

std::optional<QK> parse_value(std::string const &s, bool strict, std::string &err) {
    if (!strict || s.empty() || s.back() != 'e') {
        auto q = parse_q(s, err);
        if (!q) { return {}; }
        return QK{*q, 0};
    }
    // [c+][k*]e
    std::string c = "0", k = "1", t = s.substr(0, s.size() - 1);
    auto plus = t.find('+');
    if (plus != std::string::npos) { c = t.substr(0, plus); t = t.substr(plus + 1); }
    if (!t.empty()) {
        if (t.back() != '*') { err = "malformed value: " + s; return {}; }
        k = t.substr(0, t.size() - 1);
    }
    auto qc = parse_q(c, err);
    auto qk = parse_q(k, err);
    if (!qc || !qk) { return {}; }
    if (*qk == 0) { err = "zero epsilon part printed: " + s; return {}; }
    return QK{*qc, *qk};
}

} // namespace ref
