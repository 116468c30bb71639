// See imath.h.
#include <gmpxx.h>
#include "imath.h"
#include "imrat.h"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>

extern "C" {
const mp_result MP_OK = 0, MP_FALSE = 0, MP_TRUE = -1, MP_MEMORY = -2, MP_RANGE = -3, MP_UNDEF = -4, MP_TRUNC = -5, MP_BADARG = -6;
}

namespace {

[[noreturn]] void misuse(char const *what) {
    std::fprintf(stderr, "imath stand-in: %s\n", what);
    std::abort();
}

mpz_class &V(mp_int z) {
    if (z == nullptr || z->self != z || z->value == nullptr) { misuse("number used before initialisation, after clearing, or moved"); }
    return *static_cast<mpz_class *>(z->value);
}

void ten(mp_size radix) {
    if (radix != 10) { misuse("only radix 10 is supported"); }
}

mp_result reduce(mp_rat r) {
    mpz_class &n = V(&r->num), &d = V(&r->den);
    if (n == 0) {
        d = 1;
        return MP_OK;
    }
    mpz_class g = gcd(n, d);
    n /= g;
    d /= g;
    if (d < 0) {
        n = -n;
        d = -d;
    }
    return MP_OK;
}

mp_result set(mp_rat c, mpz_class n, mpz_class d) {
    V(&c->num) = std::move(n);
    V(&c->den) = std::move(d);
    return reduce(c);
}

mpz_class &N(mp_rat r) { return V(&r->num); }
mpz_class &D(mp_rat r) { return V(&r->den); }

} // namespace

mp_result mp_int_init(mp_int z) {
    z->self = z;
    z->value = new mpz_class(0);
    return MP_OK;
}
void mp_int_clear(mp_int z) {
    delete &V(z);
    z->self = nullptr;
    z->value = nullptr;
}
mp_result mp_int_set_value(mp_int z, mp_small v) { return V(z) = v, MP_OK; }
mp_result mp_int_copy(mp_int a, mp_int c) { return V(c) = V(a), MP_OK; }
void mp_int_swap(mp_int a, mp_int c) { swap(V(a), V(c)); }
mp_result mp_int_neg(mp_int a, mp_int c) { return V(c) = -V(a), MP_OK; }
mp_result mp_int_abs(mp_int a, mp_int c) { return V(c) = abs(V(a)), MP_OK; }
mp_result mp_int_add(mp_int a, mp_int b, mp_int c) { return V(c) = V(a) + V(b), MP_OK; }
mp_result mp_int_add_value(mp_int a, mp_small v, mp_int c) { return V(c) = V(a) + v, MP_OK; }
mp_result mp_int_sub(mp_int a, mp_int b, mp_int c) { return V(c) = V(a) - V(b), MP_OK; }
mp_result mp_int_sub_value(mp_int a, mp_small v, mp_int c) { return V(c) = V(a) - v, MP_OK; }
mp_result mp_int_mul(mp_int a, mp_int b, mp_int c) { return V(c) = V(a) * V(b), MP_OK; }
mp_result mp_int_mul_value(mp_int a, mp_small v, mp_int c) { return V(c) = V(a) * v, MP_OK; }
mp_result mp_int_div(mp_int a, mp_int b, mp_int q, mp_int r) {
    if (V(b) == 0) { return MP_UNDEF; }
    mpz_class x = V(a) / V(b), y = V(a) % V(b);
    if (q != nullptr) { V(q) = x; }
    if (r != nullptr) { V(r) = y; }
    return MP_OK;
}
mp_result mp_int_gcd(mp_int a, mp_int b, mp_int c) {
    if (V(a) == 0 && V(b) == 0) { return MP_UNDEF; }
    return V(c) = gcd(V(a), V(b)), MP_OK;
}
int mp_int_compare(mp_int a, mp_int b) { return sgn(mpz_class(V(a) - V(b))); }
int mp_int_compare_value(mp_int z, mp_small v) { return sgn(mpz_class(V(z) - v)); }
int mp_int_compare_zero(mp_int z) { return sgn(V(z)); }
mp_result mp_int_to_int(mp_int z, mp_small *out) {
    if (!V(z).fits_slong_p()) { return MP_RANGE; }
    if (out != nullptr) { *out = V(z).get_si(); }
    return MP_OK;
}
mp_result mp_int_to_string(mp_int z, mp_size radix, char *str, int limit) {
    ten(radix);
    std::string s = V(z).get_str();
    if (limit < 2 || static_cast<size_t>(limit) < s.size() + 1) { return MP_TRUNC; }
    std::memcpy(str, s.c_str(), s.size() + 1);
    return MP_OK;
}
mp_result mp_int_string_len(mp_int z, mp_size radix) {
    ten(radix);
    return static_cast<mp_result>(mpz_sizeinbase(V(z).get_mpz_t(), 10) + 2);
}
mp_result mp_int_read_cstring(mp_int z, mp_size radix, char const *str, char **end) {
    ten(radix);
    while (isspace(static_cast<unsigned char>(*str))) { ++str; }
    bool neg = *str == '-';
    if (*str == '-' || *str == '+') { ++str; }
    std::string digits = "0";
    for (; isdigit(static_cast<unsigned char>(*str)); ++str) { digits += *str; }
    V(z) = mpz_class(digits, 10);
    if (neg) { V(z) = -V(z); }
    if (end != nullptr) { *end = const_cast<char *>(str); }
    return *str != '\0' ? MP_TRUNC : MP_OK;
}
mp_result mp_int_read_string(mp_int z, mp_size radix, char const *str) { return mp_int_read_cstring(z, radix, str, nullptr); }
char const *mp_error_string(mp_result res) {
    static char const *const text[] = {"error code 0", "boolean true", "out of memory", "argument out of range", "result undefined", "output truncated", "invalid argument"};
    return res > 0 || -res > 6 ? "unknown result code" : text[-res];
}

mp_result mp_rat_init(mp_rat r) {
    mp_int_init(&r->num);
    mp_int_init(&r->den);
    return mp_int_set_value(&r->den, 1);
}
void mp_rat_clear(mp_rat r) {
    mp_int_clear(&r->num);
    mp_int_clear(&r->den);
}
mp_result mp_rat_set_value(mp_rat r, mp_small numer, mp_small denom) { return denom == 0 ? MP_UNDEF : set(r, numer, denom); }
mp_result mp_rat_copy(mp_rat a, mp_rat c) {
    N(c) = N(a);
    D(c) = D(a);
    return MP_OK;
}
mp_result mp_rat_reduce(mp_rat r) { return reduce(r); }
mp_int mp_rat_numer_ref(mp_rat r) { return &r->num; }
mp_int mp_rat_denom_ref(mp_rat r) { return &r->den; }
mp_result mp_rat_neg(mp_rat a, mp_rat c) { return set(c, -N(a), D(a)); }
mp_result mp_rat_add(mp_rat a, mp_rat b, mp_rat c) { return set(c, N(a) * D(b) + N(b) * D(a), D(a) * D(b)); }
mp_result mp_rat_sub(mp_rat a, mp_rat b, mp_rat c) { return set(c, N(a) * D(b) - N(b) * D(a), D(a) * D(b)); }
mp_result mp_rat_mul(mp_rat a, mp_rat b, mp_rat c) { return set(c, N(a) * N(b), D(a) * D(b)); }
mp_result mp_rat_div(mp_rat a, mp_rat b, mp_rat c) { return N(b) == 0 ? MP_UNDEF : set(c, N(a) * D(b), D(a) * N(b)); }
mp_result mp_rat_add_int(mp_rat a, mp_int b, mp_rat c) { return set(c, N(a) + V(b) * D(a), D(a)); }
mp_result mp_rat_sub_int(mp_rat a, mp_int b, mp_rat c) { return set(c, N(a) - V(b) * D(a), D(a)); }
mp_result mp_rat_mul_int(mp_rat a, mp_int b, mp_rat c) { return set(c, N(a) * V(b), D(a)); }
mp_result mp_rat_div_int(mp_rat a, mp_int b, mp_rat c) { return V(b) == 0 ? MP_UNDEF : set(c, N(a), D(a) * V(b)); }
int mp_rat_compare(mp_rat a, mp_rat b) { return sgn(mpz_class(N(a) * D(b) - N(b) * D(a))); }
int mp_rat_compare_value(mp_rat r, mp_small n, mp_small d) {
    if (d == 0) { misuse("comparison with a number whose denominator is zero"); }
    mpz_class x = N(r) * d - D(r) * n;
    return d < 0 ? -sgn(x) : sgn(x);
}
mp_result mp_rat_to_string(mp_rat r, mp_size radix, char *str, int limit) {
    mp_result res = mp_int_to_string(&r->num, radix, str, limit);
    if (res != MP_OK || N(r) == 0) { return res; }
    int len = static_cast<int>(std::strlen(str));
    str += len;
    limit -= len;
    if (limit == 0) { return MP_TRUNC; }
    *str++ = '/';
    return mp_int_to_string(&r->den, radix, str, limit - 1);
}
mp_result mp_rat_string_len(mp_rat r, mp_size radix) { return mp_int_string_len(&r->num, radix) + (N(r) == 0 ? 0 : mp_int_string_len(&r->den, radix)); }
mp_result mp_rat_read_cstring(mp_rat r, mp_size radix, char const *str, char **end) {
    char *rest = nullptr;
    mp_result res = mp_int_read_cstring(&r->num, radix, str, &rest);
    if (res != MP_OK && res != MP_TRUNC) { return res; }
    while (isspace(static_cast<unsigned char>(*rest))) { ++rest; }
    if (*rest != '/') {
        mp_int_set_value(&r->den, 1);
        if (end != nullptr) { *end = rest; }
        return res;
    }
    res = mp_int_read_cstring(&r->den, radix, rest + 1, end);
    if (res != MP_OK) { return res; }
    if (D(r) == 0) { return MP_UNDEF; }
    return reduce(r);
}
mp_result mp_rat_read_string(mp_rat r, mp_size radix, char const *str) { return mp_rat_read_cstring(r, radix, str, nullptr); }
