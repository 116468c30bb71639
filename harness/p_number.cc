// C14: number operations against GMP
#include "engine.hh"
#include <gmpxx.h> // before number.hh: see imath/imath.h
#include "number.hh"
#include <climits>
#include <iomanip>

using pbt::Ctx;
using pbt::Src;

namespace {

struct Q { // reference for RationalQ
    mpq_class c, k;
};

std::string mag(Src &s, bool neg_ok = true) {
    std::string sign = neg_ok && s.chance(45) ? "-" : "";
    switch (s.weighted({40, 25, 20, 10, 5})) {
        case 0: return sign + std::to_string(s.u(11));
        case 1: { // around machine-word and FLINT small-integer limits
            static char const *base[] = {"2147483647", "2147483648", "4294967296", "4611686018427387903", "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"};
            mpz_class b(base[s.u(10)]);
            b += s.range(-2, 2);
            return sign + b.get_str();
        }
        case 2: { // smooth numbers share factors
            mpz_class b(1);
            for (uint32_t n = 0; s.more(n, 1, 40, 5); ++n) { b *= std::vector<int>{2, 3, 5, 7, 65537, 2147483647}[s.u(6)]; }
            return sign + b.get_str();
        }
        case 3: {
            std::string r = sign;
            for (uint32_t n = 0; s.more(n, 1, 60, 12); ++n) { r += static_cast<char>('0' + (n == 0 ? 1 + s.u(9) : s.u(10))); }
            return r;
        }
        default: {
            mpz_class b(1);
            mpz_mul_2exp(b.get_mpz_t(), b.get_mpz_t(), s.u(400));
            b += s.range(-1, 1);
            return sign + (sgn(b) < 0 ? std::string("0") : b.get_str());
        }
    }
}

mpz_class gen_z(Src &s) { return mpz_class(mag(s)); }
mpq_class gen_q(Src &s) {
    mpq_class r(gen_z(s));
    if (s.chance(65)) {
        mpz_class d(mag(s, false));
        if (d != 0) { r /= mpq_class(d); }
    }
    return r;
}
long gen_f(Src &s) {
    switch (s.weighted({50, 50})) {
        case 0: return s.range(-6, 6);
        default: {
            static long const v[] = {LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, (1L << 62) - 1, 1L << 62, -(1L << 62), 1 - (1L << 62), INT_MAX, INT_MIN, 1L << 32, -1, 1L << 31, 2147483647L * 6, -(1L << 61)};
            return v[s.u(15)];
        }
    }
}

Integer to_I(mpz_class const &z) { return Integer{z.get_str(), 10}; }
Rational to_R(mpq_class const &q) { return Rational{to_I(q.get_num()), to_I(q.get_den())}; }
RationalQ to_Q(Q const &q) { return RationalQ{to_R(q.c), to_R(q.k)}; }

template <class T> std::string str(T const &x) {
    std::ostringstream oss;
    oss << x;
    return oss.str();
}
std::string rstr(Q const &q) {
    std::string r;
    if (q.k == 0) { return q.c.get_str(); }
    if (q.c != 0) { r = q.c.get_str() + "+"; }
    return r + (q.k == 1 ? "" : q.k.get_str() + "*") + "e";
}
std::string rstr(mpz_class const &z) { return z.get_str(); }
std::string rstr(mpq_class const &z) { return z.get_str(); }

int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
int rcmp(Q const &a, Q const &b) { int r = sign(cmp(a.c, b.c)); return r != 0 ? r : sign(cmp(a.k, b.k)); }

struct State {
    std::vector<Integer> I;
    std::vector<mpz_class> i;
    std::vector<Rational> R;
    std::vector<mpq_class> r;
    std::vector<RationalQ> E;
    std::vector<Q> e;
};

// exact value and canonical representation
void same(Integer const &a, mpz_class const &b, std::string const &what) {
    CHECK(str(a) == b.get_str(), what << ": got " << a << ", expected " << b);
    Integer c{b.get_str(), 10};
    CHECK(a == c && !(a != c) && compare(a, c) == 0 && !(a < c) && a <= c && a >= c && !(a > c), what << ": result " << a << " does not compare equal to " << b);
#ifdef CLINGOLPX_USE_FLINT
    CHECK(fmpz_fits_si(&a.impl()) == (b.fits_slong_p() ? 1 : 0), what << ": not canonical: " << a);
#endif
}
void same(Rational const &a, mpq_class const &b, std::string const &what) {
    CHECK(str(a) == b.get_str(), what << ": got " << a << ", expected " << b);
    same(a.num(), b.get_num(), what + " (numerator)");
    same(a.den(), b.get_den(), what + " (denominator)");
    Rational c = to_R(b);
    CHECK(a == c && !(a != c) && compare(a, c) == 0 && !(a < c) && a <= c && a >= c && !(a > c), what << ": result " << a << " does not compare equal to " << b);
}
void same(RationalQ const &a, Q const &b, std::string const &what) {
    CHECK(str(a) == rstr(b), what << ": got " << a << ", expected " << rstr(b));
    RationalQ c = to_Q(b);
    CHECK(a == c && !(a != c) && compare(a, c) == 0 && !(a < c) && a <= c && a >= c && !(a > c), what << ": result " << a << " does not compare equal to " << rstr(b));
    CHECK(a.is_rational() == (b.k == 0), what << ": is_rational wrong for " << rstr(b));
    bool thrown = false;
    try { same(a.as_rational(), b.c, what + " (as_rational)"); }
    catch (pbt::Fail const &) { throw; }
    catch (std::runtime_error const &) { thrown = true; }
    CHECK(thrown == (b.k != 0), what << ": as_rational " << (thrown ? "throws" : "does not throw") << " for " << rstr(b));
}

void same(State const &s, std::string const &what) {
    for (size_t n = 0; n < s.i.size(); ++n) { same(s.I[n], s.i[n], "I" + std::to_string(n) + " after " + what); }
    for (size_t n = 0; n < s.r.size(); ++n) { same(s.R[n], s.r[n], "R" + std::to_string(n) + " after " + what); }
    for (size_t n = 0; n < s.e.size(); ++n) { same(s.E[n], s.e[n], "Q" + std::to_string(n) + " after " + what); }
}

template <class A, class B> void relations(A const &a, B const &b, int c, std::string const &what) {
    CHECK(sign(compare(a, b)) == c, what << ": compare gives " << compare(a, b) << ", expected sign " << c);
    CHECK((a < b) == (c < 0), what << ": < wrong");
    CHECK((a <= b) == (c <= 0), what << ": <= wrong");
    CHECK((a > b) == (c > 0), what << ": > wrong");
    CHECK((a >= b) == (c >= 0), what << ": >= wrong");
    CHECK((a == b) == (c == 0), what << ": == wrong");
    CHECK((a != b) == (c != 0), what << ": != wrong");
}

// One binary operation in its four forms: a op b, A&& op b, a op= b, result
// stored in a register or discarded.  Returns what was stored.
enum Op { ADD, SUB, MUL, DIV };
char const *const op_name[] = {"+", "-", "*", "/"};

template <class A, class B> A apply_c(A const &a, B const &b, int op) {
    switch (op) {
        case ADD: return a + b;
        case SUB: return a - b;
        case MUL:
            if constexpr (!(std::is_same_v<A, RationalQ> && std::is_same_v<B, RationalQ>)) { return a * b; }
            break;
        default:
            if constexpr (!std::is_same_v<A, Integer> && !std::is_same_v<B, RationalQ>) { return a / b; }
            break;
    }
    throw pbt::OracleBug("operation not available");
}
template <class A, class B> A apply_m(A &&a, B const &b, int op) {
    switch (op) {
        case ADD: return std::move(a) + b;
        case SUB: return std::move(a) - b;
        case MUL:
            if constexpr (!(std::is_same_v<A, RationalQ> && std::is_same_v<B, RationalQ>)) { return std::move(a) * b; }
            break;
        default:
            if constexpr (!std::is_same_v<A, Integer> && !std::is_same_v<B, RationalQ>) { return std::move(a) / b; }
            break;
    }
    throw pbt::OracleBug("operation not available");
}
template <class A, class B> void apply_a(A &a, B const &b, int op) {
    A *p = nullptr;
    switch (op) {
        case ADD: p = &(a += b); break;
        case SUB: p = &(a -= b); break;
        case MUL:
            if constexpr (!(std::is_same_v<A, RationalQ> && std::is_same_v<B, RationalQ>)) { p = &(a *= b); }
            break;
        default:
            if constexpr (!std::is_same_v<A, Integer> && !std::is_same_v<B, RationalQ>) { p = &(a /= b); }
            break;
    }
    CHECK(p == &a, "compound assignment returns something else than its left operand");
}

mpz_class ref(mpz_class const &a, mpz_class const &b, int op) {
    switch (op) {
        case ADD: return a + b;
        case SUB: return a - b;
        default: return a * b;
    }
}
mpq_class ref(mpq_class const &a, mpq_class const &b, int op) {
    switch (op) {
        case ADD: return a + b;
        case SUB: return a - b;
        case MUL: return a * b;
        default: return a / b;
    }
}
Q ref(Q const &a, Q const &b, int op) {
    switch (op) {
        case ADD: return {a.c + b.c, a.k + b.k};
        case SUB: return {a.c - b.c, a.k - b.k};
        case MUL: return {a.c * b.c, a.k * b.c};
        default: return {a.c / b.c, a.k / b.c};
    }
}

template <class A, class M, class B, class N>
void binary(Ctx &c, std::vector<A> &regs, std::vector<M> &model, size_t x, B const &b, N const &bm, int op, int form, size_t dst, std::string &log, std::string const &bname, char const *kind) {
    // model first: b may be an alias of regs[x]
    M res = ref(model[x], M(bm), op);
    std::string what = std::string(kind) + std::to_string(dst) + " = " + kind + std::to_string(x) + " " + op_name[op] + " " + bname;
    switch (form) {
        case 0:
            log += what + "; ";
            regs[dst] = apply_c(regs[x], b, op);
            model[dst] = res;
            break;
        case 1: {
            // b must stay readable: work on a copy of the left operand
            log += what + " (copy moved); ";
            A copy{regs[x]};
            regs[dst] = apply_m(std::move(copy), b, op);
            model[dst] = res;
            break;
        }
        case 2:
            log += std::string(kind) + std::to_string(x) + " " + op_name[op] + "= " + bname + "; ";
            apply_a(regs[x], b, op);
            model[x] = res;
            break;
        default: {
            // the left operand itself is moved from (and may alias b); it gets
            // a new value afterwards
            log += what + " (moved); ";
            A t = apply_m(std::move(regs[x]), b, op);
            regs[x] = t;
            model[x] = res;
            break;
        }
    }
    c.ran();
}

void body(Ctx &c, std::string &log) {
    Src &s = c.src;
    State st;
    size_t n = 2 + s.u(3);
    for (size_t k = 0; k < n; ++k) {
        st.i.push_back(gen_z(s));
        st.I.push_back(to_I(st.i.back()));
        st.r.push_back(gen_q(s));
        st.R.push_back(to_R(st.r.back()));
        Q q{gen_q(s), s.chance(60) ? mpq_class(s.range(-3, 3)) : gen_q(s)};
        st.e.push_back(q);
        st.E.push_back(to_Q(q));
        log += "I" + std::to_string(k) + "=" + rstr(st.i.back()) + " R" + std::to_string(k) + "=" + rstr(st.r.back()) + " Q" + std::to_string(k) + "=" + rstr(q) + "\n";
    }
    same(st, "construction");
    bool multi = false, alias = false, rel = false;
    for (uint32_t steps = 0; s.more(steps, 4, 40, 16); ++steps) {
        size_t from = log.size();
        size_t kind = s.weighted({20, 30, 30, 12, 8});
        size_t x = s.u(n), y = s.chance(25) ? x : s.u(n), d = s.chance(30) ? x : s.u(n);
        int form = static_cast<int>(s.u(4));
        int op = static_cast<int>(s.u(4));
        auto name = [](char const *k, size_t i) { return k + std::to_string(i); };
        if (kind == 0) {
            if (op == DIV) { op = MUL; }
            if (s.chance(35)) {
                long f = gen_f(s);
                relations(st.I[x], f, sign(cmp(st.i[x], f)), name("I", x) + "=" + rstr(st.i[x]) + " vs " + std::to_string(f));
                binary(c, st.I, st.i, x, f, mpz_class(f), op, form, d, log, std::to_string(f), "I");
            } else {
                alias = alias || x == y || y == d;
                relations(st.I[x], st.I[y], sign(cmp(st.i[x], st.i[y])), name("I", x) + "=" + rstr(st.i[x]) + " vs " + rstr(st.i[y]));
                binary(c, st.I, st.i, x, st.I[y], mpz_class(st.i[y]), op, form, d, log, name("I", y), "I");
            }
            rel = true;
        } else if (kind == 1 || kind == 2) {
            // operand: machine integer, integer, rational, part of a rational, rational with epsilon
            size_t w = s.weighted({25, 20, 30, 10, kind == 2 ? 20u : 0u, kind == 2 ? 8u : 0u});
            auto go = [&](auto &regs, auto &model, char const *k) {
                using M = std::decay_t<decltype(model[0])>;
                auto lift = [](mpq_class const &q) { if constexpr (std::is_same_v<M, Q>) { return Q{q, 0}; } else { return q; } };
                auto cmp_m = [&](M const &a, M const &b) { if constexpr (std::is_same_v<M, Q>) { return rcmp(a, b); } else { return sign(cmp(a, b)); } };
                auto nonzero = [&](mpq_class const &q) { if (q == 0 && op == DIV) { op = SUB; } };
                std::string left = name(k, x) + "=" + rstr(model[x]) + " vs ";
                if (w == 0) {
                    long f = gen_f(s);
                    nonzero(f);
                    relations(regs[x], f, cmp_m(model[x], lift(f)), left + std::to_string(f));
                    binary(c, regs, model, x, f, lift(f), op, form, d, log, std::to_string(f), k);
                } else if (w == 1) {
                    nonzero(st.i[y]);
                    relations(regs[x], st.I[y], cmp_m(model[x], lift(st.i[y])), left + rstr(st.i[y]));
                    binary(c, regs, model, x, st.I[y], lift(st.i[y]), op, form, d, log, name("I", y), k);
                } else if (w == 2) {
                    alias = alias || (kind == 1 && (x == y || y == d));
                    nonzero(st.r[y]);
                    relations(regs[x], st.R[y], cmp_m(model[x], lift(st.r[y])), left + rstr(st.r[y]));
                    binary(c, regs, model, x, st.R[y], lift(mpq_class(st.r[y])), op, form, d, log, name("R", y), k);
                } else if (w == 3) {
                    bool num = s.chance(50);
                    // FLINT does not permit a part of the result as an operand
                    if (kind == 1 && y == x && form >= 2) { form -= 2; }
                    Rational const &cr = st.R[y];
                    mpq_class v(num ? st.r[y].get_num() : st.r[y].get_den());
                    alias = alias || (kind == 1 && (x == y || y == d));
                    nonzero(v);
                    relations(regs[x], num ? cr.num() : cr.den(), cmp_m(model[x], lift(v)), left + rstr(v));
                    binary(c, regs, model, x, num ? cr.num() : cr.den(), lift(v), op, form, d, log, name("R", y) + (num ? ".num()" : ".den()"), k);
                }
            };
            if (kind == 1) { go(st.R, st.r, "R"); }
            else if (w == 4) {
                if (op > SUB) { op -= 2; }
                alias = alias || x == y || y == d;
                relations(st.E[x], st.E[y], rcmp(st.e[x], st.e[y]), name("Q", x) + "=" + rstr(st.e[x]) + " vs " + rstr(st.e[y]));
                binary(c, st.E, st.e, x, st.E[y], Q(st.e[y]), op, form, d, log, name("Q", y), "Q");
            } else if (w == 5) {
                if (st.e[y].k == 0) {
                    mpq_class v = st.e[y].c;
                    if (v == 0 && op == DIV) { op = ADD; }
                    alias = alias || x == y || y == d;
                    relations(st.E[x], st.E[y].as_rational(), rcmp(st.e[x], Q{v, 0}), name("Q", x) + "=" + rstr(st.e[x]) + " vs " + rstr(v));
                    binary(c, st.E, st.e, x, st.E[y].as_rational(), Q{v, 0}, op, form, d, log, name("Q", y) + ".as_rational()", "Q");
                }
            } else { go(st.E, st.e, "Q"); }
            rel = true;
        } else if (kind == 3) {
            // unary, copying and moving
            c.ran();
            size_t w = s.u(9), t = s.u(3);
            auto go = [&](auto &regs, auto &model, char const *k) {
                using A = std::decay_t<decltype(regs[0])>;
                using M = std::decay_t<decltype(model[0])>;
                auto minus = [](M const &m) { if constexpr (std::is_same_v<M, Q>) { return Q{-m.c, -m.k}; } else { return M(-m); } };
                switch (w) {
                    case 0: log += name(k, d) + " = -" + name(k, x) + "; "; { M m = minus(model[x]); regs[d] = -regs[x]; model[d] = m; } break;
                    case 1: log += name(k, x) + " = -move(" + name(k, x) + "); "; { M m = minus(model[x]); A r = -std::move(regs[x]); regs[x] = std::move(r); model[x] = m; } break;
                    case 2:
                        if constexpr (!std::is_same_v<A, RationalQ>) {
                            log += name(k, x) + ".neg(); ";
                            CHECK(&regs[x].neg() == &regs[x], "neg returns something else than its operand");
                            model[x] = minus(model[x]);
                        }
                        break;
                    case 3: log += name(k, x) + ".swap(" + name(k, y) + "); "; regs[x].swap(regs[y]); std::swap(model[x], model[y]); break;
                    case 4: log += name(k, d) + " = " + name(k, y) + "; "; CHECK(&(regs[d] = regs[y]) == &regs[d], "assignment returns something else than its left operand"); { M m = model[y]; model[d] = m; } break;
                    case 5: log += name(k, d) + " = move(copy of " + name(k, y) + "); "; { A t{regs[y]}; regs[d] = std::move(t); M m = model[y]; model[d] = m; } break;
                    case 6: log += name(k, d) + " = copy of " + name(k, y) + "; "; { A t{regs[y]}; regs[y] = A(regs[x]); M m = model[y]; model[y] = M(model[x]); A u{std::move(t)}; regs[d] = u; model[d] = m; } break;
                    case 7: log += "std::swap(" + name(k, x) + ", " + name(k, y) + "); "; if (x != y) { std::swap(regs[x], regs[y]); std::swap(model[x], model[y]); } break;
                    default: log += name(k, d) + " = move(" + name(k, y) + ") and " + name(k, y) + " = 7; ";
                        if (d != y) {
                            regs[d] = std::move(regs[y]);
                            M m = model[y];
                            if constexpr (std::is_same_v<A, RationalQ>) { regs[y] = RationalQ{Rational{7}}; model[y] = Q{7, 0}; }
                            else { regs[y] = 7; model[y] = 7; }
                            model[d] = m;
                        }
                        break;
                }
            };
            if (t == 0) { go(st.I, st.i, "I"); } else if (t == 1) { go(st.R, st.r, "R"); } else { go(st.E, st.e, "Q"); }
        } else {
            c.ran();
            switch (s.u(8)) {
                case 0: {
                    mpz_class g;
                    mpz_gcd(g.get_mpz_t(), st.i[x].get_mpz_t(), st.i[y].get_mpz_t());
                    log += "gcd(" + name("I", x) + ", " + name("I", y) + "); ";
                    same(gcd(st.I[x], st.I[y]), g, "gcd of " + rstr(st.i[x]) + " and " + rstr(st.i[y]));
                    if (g != 0) {
                        auto [a, b, e] = gcd_div(st.I[x], st.I[y]);
                        same(a, g, "gcd_div (gcd) of " + rstr(st.i[x]) + " and " + rstr(st.i[y]));
                        same(b, st.i[x] / g, "gcd_div (first) of " + rstr(st.i[x]) + " and " + rstr(st.i[y]));
                        same(e, st.i[y] / g, "gcd_div (second) of " + rstr(st.i[x]) + " and " + rstr(st.i[y]));
                    }
                    alias = alias || x == y;
                    break;
                }
                case 1: {
                    if (st.i[y] == 0) { break; }
                    log += "(" + name("I", x) + "*" + name("I", y) + ").divide(" + name("I", y) + "); ";
                    Integer p = st.I[x] * st.I[y];
                    CHECK(&p.divide(st.I[y]) == &p, "divide returns something else than its operand");
                    same(p, st.i[x], "exact division of " + rstr(mpz_class(st.i[x] * st.i[y])) + " by " + rstr(st.i[y]));
                    if (x == y) { log += name("I", x) + ".divide(itself); "; st.I[x].divide(st.I[x]); st.i[x] = 1; alias = true; }
                    break;
                }
                case 2: {
                    log += name("I", x) + ".add_mul(" + name("I", y) + ", " + name("I", d) + "); ";
                    mpz_class m = st.i[x] + st.i[y] * st.i[d];
                    alias = alias || x == y || x == d;
                    if (s.chance(50)) { CHECK(&st.I[x].add_mul(st.I[y], st.I[d]) == &st.I[x], "add_mul returns something else than its operand"); }
                    else { Integer t{st.I[x]}; Integer u = std::move(t).add_mul(st.I[y], st.I[d]); st.I[x] = std::move(u); }
                    st.i[x] = m;
                    break;
                }
                case 3: {
                    log += name("I", x) + ".as_int(); ";
                    mpz_class v = s.chance(50) ? mpz_class(INT_MAX) + s.range(-2, 2) : s.chance(50) ? mpz_class(INT_MIN) + s.range(-2, 2) : st.i[x];
                    auto r = to_I(v).as_int();
                    CHECK(r.has_value() == v.fits_sint_p(), "as_int of " << v << (r ? " has a" : " has no") << " value");
                    if (r) { CHECK(*r == v.get_si(), "as_int of " << v << " is " << *r); }
                    break;
                }
                case 4: {
                    // print and parse
                    log += "parse; ";
                    same(Integer{str(st.I[x]), 10}, st.i[x], "printing and parsing " + rstr(st.i[x]));
                    Rational t{str(st.R[x]).c_str(), 10};
                    same(t, st.r[x], "printing and parsing " + rstr(st.r[x]));
                    // not reduced, leading zeros
                    mpz_class m(mag(s, false));
                    if (m == 0) { m = 12; }
                    mpz_class num = st.r[x].get_num() * m, den = st.r[x].get_den() * m;
                    std::string zeros(s.u(4), '0');
                    std::string txt = (sgn(num) < 0 ? "-" : "") + zeros + mpz_class(abs(num)).get_str() + "/" + den.get_str();
                    Rational u{txt, 10};
                    u.canonicalize();
                    same(u, st.r[x], "parsing " + txt);
                    break;
                }
                case 5: {
                    log += "parse error; ";
                    static char const *bad[] = {"x", "1x", "0x1", "1.5", "1e3", "a/1", "1/b", "12a3", "nan", "1,2", "", "-", "1/", "/1"};
#ifdef CLINGOLPX_USE_FLINT
                    std::string b = bad[s.u(14)];
#else
                    std::string b = bad[s.u(10)]; // imath reads a missing number as zero
#endif
                    bool ti = false, tr = false;
                    try { Integer t{b, 10}; } catch (std::runtime_error const &) { ti = true; }
                    try { Rational t{b.c_str(), 10}; } catch (std::runtime_error const &) { tr = true; }
                    CHECK(ti, "parsing '" << b << "' as integer does not fail");
                    CHECK(tr, "parsing '" << b << "' as rational does not fail");
                    break;
                }
                case 6: {
                    // construction
                    long f = gen_f(s);
                    log += "construct from " + std::to_string(f) + "; ";
                    st.I[x] = Integer{f};
                    st.i[x] = f;
                    st.R[y] = Rational{f};
                    st.r[y] = f;
                    st.E[d] = RationalQ{Rational{st.R[y]}, Rational{st.R[x]}};
                    st.e[d] = Q{st.r[y], st.r[x]};
                    break;
                }
                default: {
                    mpz_class den = gen_z(s);
                    if (den == 0) { den = -1; }
                    log += "Rational{" + name("I", x) + ", " + rstr(den) + "}; ";
                    st.R[d] = Rational{st.I[x], to_I(den)};
                    st.r[d] = mpq_class(st.i[x]) / mpq_class(den);
                    // through the mutable parts
                    if (st.r[y] != 0 && s.chance(50)) {
                        st.R[y].num() *= 6;
                        st.R[y].den() *= -4;
                        st.R[y].canonicalize();
                        st.r[y] = st.r[y] * mpq_class(-3, 2);
                    }
                    break;
                }
            }
        }
        same(st, log.substr(from));
        for (auto const &z : st.i) { multi = multi || !z.fits_slong_p(); }
        // keep the numbers at a reasonable size
        for (size_t k = 0; k < n; ++k) {
            if (mpz_sizeinbase(st.i[k].get_mpz_t(), 2) > 2000) { st.i[k] = k; st.I[k] = to_I(st.i[k]); }
            auto big = [](mpq_class const &q) { return mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 2000; };
            if (big(st.r[k])) { st.r[k] = mpq_class(1, 3); st.R[k] = to_R(st.r[k]); }
            if (big(st.e[k].c) || big(st.e[k].k)) { st.e[k] = Q{mpq_class(2, 3), -1}; st.E[k] = to_Q(st.e[k]); }
        }
    }
    // total order over all registers
    for (size_t a = 0; a < n; ++a) {
        for (size_t b = 0; b < n; ++b) {
            relations(st.I[a], st.I[b], sign(cmp(st.i[a], st.i[b])), "I" + std::to_string(a) + " vs I" + std::to_string(b));
            relations(st.R[a], st.R[b], sign(cmp(st.r[a], st.r[b])), "R" + std::to_string(a) + " vs R" + std::to_string(b));
            relations(st.R[a], st.I[b], sign(cmp(st.r[a], mpq_class(st.i[b]))), "R" + std::to_string(a) + " vs I" + std::to_string(b));
            relations(st.E[a], st.E[b], rcmp(st.e[a], st.e[b]), "Q" + std::to_string(a) + " vs Q" + std::to_string(b));
            relations(st.E[a], st.R[b], rcmp(st.e[a], Q{st.r[b], 0}), "Q" + std::to_string(a) + " vs R" + std::to_string(b));
            relations(st.E[a], st.I[b], rcmp(st.e[a], Q{mpq_class(st.i[b]), 0}), "Q" + std::to_string(a) + " vs I" + std::to_string(b));
        }
    }
    c.nontrivial = multi && rel;
    if (multi) { c.label("multi-word"); }
    if (alias) { c.label("aliased operands"); }
}

void run(Ctx &c) {
    std::string log;
    try { body(c, log); }
    catch (...) { c.describe(log); throw; }
    c.describe(log);
}

pbt::Register r14{{"C14", run,
                   "2-4 registers of each number kind run 4-40 random operations (all operators, operand kinds and value categories, aliased, moved, copied, swapped, parsed, printed); after each every "
                   "register must equal a GMP model exactly and in canonical form; non-trivial: some integer register beyond a machine word and comparisons made",
                   200000, 4000000}};

} // namespace
