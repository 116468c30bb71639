// Stand-in for the imath library (not installed here), so that the second
// number backend of clingo-lpx, number_imath.hh, can be compiled and run.  It
// offers the calls that backend uses, with the meaning imath documents, on top
// of GMP.
//
// imath and GMP both declare mpz_t and mpq_t: gmpxx.h has to be included
// before this file (-include gmpxx.h), which renames imath's.
#ifndef LPX_CHECK_IMATH_H
#define LPX_CHECK_IMATH_H
#include <limits.h>
#define mpz_t lpx_imath_mpz_t
#define mpq_t lpx_imath_mpq_t
#ifdef __cplusplus
extern "C" {
#endif
typedef long mp_small;
typedef unsigned long mp_usmall;
typedef unsigned int mp_size;
typedef int mp_result;
// like imath's, the number knows where it lies: it must not be moved with memcpy
typedef struct lpx_imath_mpz {
    struct lpx_imath_mpz *self;
    void *value;
} mpz_t, *mp_int;

extern const mp_result MP_OK, MP_FALSE, MP_TRUE, MP_MEMORY, MP_RANGE, MP_UNDEF, MP_TRUNC, MP_BADARG;

mp_result mp_int_init(mp_int z);
void mp_int_clear(mp_int z);
mp_result mp_int_set_value(mp_int z, mp_small v);
mp_result mp_int_copy(mp_int a, mp_int c);
void mp_int_swap(mp_int a, mp_int c);
mp_result mp_int_neg(mp_int a, mp_int c);
mp_result mp_int_abs(mp_int a, mp_int c);
mp_result mp_int_add(mp_int a, mp_int b, mp_int c);
mp_result mp_int_add_value(mp_int a, mp_small v, mp_int c);
mp_result mp_int_sub(mp_int a, mp_int b, mp_int c);
mp_result mp_int_sub_value(mp_int a, mp_small v, mp_int c);
mp_result mp_int_mul(mp_int a, mp_int b, mp_int c);
mp_result mp_int_mul_value(mp_int a, mp_small v, mp_int c);
mp_result mp_int_div(mp_int a, mp_int b, mp_int q, mp_int r);
mp_result mp_int_gcd(mp_int a, mp_int b, mp_int c);
int mp_int_compare(mp_int a, mp_int b);
int mp_int_compare_value(mp_int z, mp_small v);
int mp_int_compare_zero(mp_int z);
mp_result mp_int_to_int(mp_int z, mp_small *out);
mp_result mp_int_to_string(mp_int z, mp_size radix, char *str, int limit);
mp_result mp_int_string_len(mp_int z, mp_size radix);
mp_result mp_int_read_string(mp_int z, mp_size radix, char const *str);
mp_result mp_int_read_cstring(mp_int z, mp_size radix, char const *str, char **end);
char const *mp_error_string(mp_result res);
#ifdef __cplusplus
}
#endif
#endif
