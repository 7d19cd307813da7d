/* included before every translation unit: GMP's function-like macros are
   replaced by plain function declarations, so that a use of e.g. mpz_sgn is a
   call the verifier sees (and interprets by the GMP contract). */
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <gmp.h>
#undef mpz_sgn
#undef mpz_cmp_ui
#undef mpz_cmp_si
#undef mpz_odd_p
#undef mpz_even_p
#undef mpq_sgn
#undef mpq_cmp_ui
#undef mpq_cmp_si
#undef mpz_abs
#undef mpz_neg
int mpz_sgn(mpz_srcptr);
int mpz_cmp_ui(mpz_srcptr, unsigned long);
int mpz_cmp_si(mpz_srcptr, long);
int mpz_odd_p(mpz_srcptr);
int mpz_even_p(mpz_srcptr);
int mpq_sgn(mpq_srcptr);
int mpq_cmp_ui(mpq_srcptr, unsigned long, unsigned long);
int mpq_cmp_si(mpq_srcptr, long, unsigned long);
void mpz_abs(mpz_ptr, mpz_srcptr);
void mpz_neg(mpz_ptr, mpz_srcptr);
