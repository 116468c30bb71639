// Stand-in for imath's rational numbers, see imath.h.
#ifndef LPX_CHECK_IMRAT_H
#define LPX_CHECK_IMRAT_H
#include "imath.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct lpx_imath_mpq {
    mpz_t num;
    mpz_t den;
} mpq_t, *mp_rat;

mp_result mp_rat_init(mp_rat r);
void mp_rat_clear(mp_rat r);
mp_result mp_rat_set_value(mp_rat r, mp_small numer, mp_small denom);
mp_result mp_rat_copy(mp_rat a, mp_rat c);
mp_result mp_rat_reduce(mp_rat r);
mp_int mp_rat_numer_ref(mp_rat r);
mp_int mp_rat_denom_ref(mp_rat r);
mp_result mp_rat_neg(mp_rat a, mp_rat c);
mp_result mp_rat_add(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_sub(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_mul(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_div(mp_rat a, mp_rat b, mp_rat c);
mp_result mp_rat_add_int(mp_rat a, mp_int b, mp_rat c);
mp_result mp_rat_sub_int(mp_rat a, mp_int b, mp_rat c);
mp_result mp_rat_mul_int(mp_rat a, mp_int b, mp_rat c);
mp_result mp_rat_div_int(mp_rat a, mp_int b, mp_rat c);
int mp_rat_compare(mp_rat a, mp_rat b);
int mp_rat_compare_value(mp_rat r, mp_small n, mp_small d);
mp_result mp_rat_to_string(mp_rat r, mp_size radix, char *str, int limit);
mp_result mp_rat_string_len(mp_rat r, mp_size radix);
mp_result mp_rat_read_string(mp_rat r, mp_size radix, char const *str);
mp_result mp_rat_read_cstring(mp_rat r, mp_size radix, char const *str, char **end);
#ifdef __cplusplus
}
#endif
#endif
