From 5eb7bcc706ad6293cedf46cf80046acc834a90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 01/11] fix: sort terms of lex input generators in decreasing
 order

initial_gens_cmp_lex sorted increasingly, unlike its DRL and block
counterparts, so that with the lexicographic order the stored leading
term of an input generator was its smallest term (F4 then loops).
---
 src/neogb/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/order.c b/src/neogb/order.c
index 0f114bd..0dc8a96 100644
--- a/src/neogb/order.c
+++ b/src/neogb/order.c
@@ -263,7 +263,7 @@ static int initial_gens_cmp_lex(
     while(i < evl-1 && ea[i] == eb[i]) {
         ++i;
     }
-    return ea[i] - eb[i];
+    return eb[i] - ea[i];
 }
 
 static int monomial_cmp_pivots_lex(
-- 
2.43.0


From 97c65e5315be3db9ce33fcb7931e138d4b7d72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 02/11] fix: FGLM matrix-vector product: no lane overflow for
 primes above 1518500249

---
 src/fglm/linalg-fglm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fglm/linalg-fglm.c b/src/fglm/linalg-fglm.c
index d6832e9..e088a74 100644
--- a/src/fglm/linalg-fglm.c
+++ b/src/fglm/linalg-fglm.c
@@ -711,6 +711,9 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
           res1 += prod1 + prod2;
           mat_cp+=8;
           vec_cp+=8;
+          /* four products below 2^62 fit one lane, eight need not */
+          acc_low=AVX2ADD_64(acc_low,AVX2AND_(res1,mask));
+          acc_high=AVX2ADD_64(acc_high,AVX2SRLI_64(res1,32));
 #if IS_ALIGNED_MATRIX
           mat8=AVX2LOAD(mat_cp);
 #else
@@ -723,7 +726,7 @@ static inline void _8mul_matrix_vector_product(uint32_t* vec_res,
 #endif
           prod1=AVX2MUL(mat8,vec8);
           prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-          res1 += prod1 + prod2;
+          res1 = prod1 + prod2;
           mat_cp+=8;
           vec_cp+=8;
 #if IS_ALIGNED_MATRIX
-- 
2.43.0


From d363ac46b57c6fba3f79e939c90064f08b2131c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 03/11] fix: normalize initial basis without signed overflow
 for 32-bit primes

---
 src/neogb/basis.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neogb/basis.c b/src/neogb/basis.c
index 003c1f3..8b97bdc 100644
--- a/src/neogb/basis.c
+++ b/src/neogb/basis.c
@@ -352,15 +352,15 @@ static inline void normalize_initial_basis_ff_32(
         const len_t len     = hm[i][LENGTH]; 
 
         for (j = 0; j < os; ++j) {
-            tmp1    =   ((int64_t)row[j] * inv) % fc;
+            tmp1    =   ((uint64_t)row[j] * inv) % fc;
             tmp1    +=  (tmp1 >> 63) & fc;
             row[j]  =   (cf32_t)tmp1;
         }
         for (j = os; j < len; j += UNROLL) {
-            tmp1      =   ((int64_t)row[j] * inv) % fc;
-            tmp2      =   ((int64_t)row[j+1] * inv) % fc;
-            tmp3      =   ((int64_t)row[j+2] * inv) % fc;
-            tmp4      =   ((int64_t)row[j+3] * inv) % fc;
+            tmp1      =   ((uint64_t)row[j] * inv) % fc;
+            tmp2      =   ((uint64_t)row[j+1] * inv) % fc;
+            tmp3      =   ((uint64_t)row[j+2] * inv) % fc;
+            tmp4      =   ((uint64_t)row[j+3] * inv) % fc;
             tmp1      +=  (tmp1 >> 63) & fc;
             tmp2      +=  (tmp2 >> 63) & fc;
             tmp3      +=  (tmp3 >> 63) & fc;
-- 
2.43.0


From 03b9d6787987eea780785268fa8196b51e6a88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 04/11] fix: hash multiplied signatures by their hash values

---
 src/neogb/hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 0693514..26f2532 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -652,7 +652,7 @@ static inline hi_t insert_multiplied_signature_in_hash_table(
     /* ht->hsz <= 2^32 => mod is always uint32_t */
     const hi_t mod = (hi_t)(ht->hsz - 1);
 
-    h   =   h1 + h2;
+    h   =   ht->hd[h1].val + ht->hd[h2].val;
 
     /* generate exponent vector */
     for (j = 0; j < evl; ++j) {
-- 
2.43.0


From c32bd681110d626e14757cb2a68976c401e95902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:42 +0000
Subject: [PATCH 05/11] fix: interval Horner step when the running enclosure
 contains zero

---
 src/usolve/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/usolve/evaluate.c b/src/usolve/evaluate.c
index f12acfa..2909d4b 100644
--- a/src/usolve/evaluate.c
+++ b/src/usolve/evaluate.c
@@ -200,7 +200,7 @@ int mpz_poly_eval_interval(mpz_t *up, const long int deg, const long k,
         mpz_mul(val_do, val_do, b);
         mpz_add(val_do, val_do, tmp);
 
-        mpz_mul(val_up, val_up, a);
+        mpz_mul(val_up, val_up, mpz_sgn(val_up) >= 0 ? b : a);
         mpz_add(val_up, val_up, tmp);
       }
 
@@ -229,7 +229,7 @@ int mpz_poly_eval_interval(mpz_t *up, const long int deg, const long k,
         mpz_set(s, val_do);
         mpz_mul_2exp(tmp, up[i], k*(deg - i));
 
-        mpz_mul(val_do, val_up, b);
+        mpz_mul(val_do, val_up, mpz_sgn(val_up) >= 0 ? a : b);
         mpz_add(val_do, val_do, tmp);
 
         mpz_mul(val_up, s, a);
-- 
2.43.0


From 91ce42cd9086f77dbee91e3122fc622b7ea0bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:57 +0000
Subject: [PATCH 06/11] fix: reduce the random start vector of the colon
 Wiedemann sequence

The matrix-vector kernels assume entries below the prime; the sum of two
residues is not.
---
 src/fglm/fglm_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index ae04cbe..1fc71c5 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1496,6 +1496,7 @@ static inline long initialize_fglm_colon_data(sp_matfglmcol_t *matrix,
   for(szmat_t i = 0; i < matrix->ncols; i++){
     data->vecinit[i] = (CF_t)rand() % prime;
     data->vecinit[i] += (CF_t)rand() % prime;
+    data->vecinit[i] %= prime;
     /* data->vecinit[i] = (CF_t)(i+1) % prime; */
   }
   data->res[0] = data->vecinit[0];
-- 
2.43.0


From f0f1ab04d5c3439f62aaf92a1a552171f223ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 07/11] fix: no pivot row from a row that reduces to zero (17
 bit, tracing)

---
 src/neogb/la_ff_32.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 6cbe615..a7d130c 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -641,6 +641,11 @@ static hm_t *trace_reduce_dense_row_by_known_pivots_sparse_17_bit(
         st->trace_nr_add  +=  len / 1000.0;
         st->trace_nr_red++;
     }
+
+    if (k == 0) {
+        return NULL;
+    }
+
     hm_t *row   = (hm_t *)malloc((unsigned long)(k+OFFSET) * sizeof(hm_t));
     cf32_t *cf  = (cf32_t *)malloc((unsigned long)(k) * sizeof(cf32_t));
     j = 0;
-- 
2.43.0


From bb063a381adbfa51f462a2af64dfa9ea375dbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 08/11] fix: provide reducer coefficients when applying a trace
 (8 and 32 bit)

---
 src/neogb/la_ff_32.c | 6 ++++++
 src/neogb/la_ff_8.c  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index a7d130c..1de47f4 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -3155,6 +3155,12 @@ static int exact_application_sparse_reduced_echelon_form_ff_32(
     /* we fill in all known lead terms in pivs */
     hm_t **pivs   = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
     memcpy(pivs, mat->rr, (unsigned long)mat->nru * sizeof(hm_t *));
+    j = nrl;
+    for (i = 0; i < mat->nru; ++i) {
+        mat->cf_32[j]      = bs->cf_32[mat->rr[i][COEFFS]];
+        mat->rr[i][COEFFS] = j;
+        ++j;
+    }
 
     /* unkown pivot rows we have to reduce with the known pivots first */
     hm_t **upivs  = mat->tr;
diff --git a/src/neogb/la_ff_8.c b/src/neogb/la_ff_8.c
index bb2c4d6..a3996c3 100644
--- a/src/neogb/la_ff_8.c
+++ b/src/neogb/la_ff_8.c
@@ -1068,6 +1068,12 @@ static int exact_application_sparse_reduced_echelon_form_ff_8(
     /* we fill in all known lead terms in pivs */
     hm_t **pivs   = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
     memcpy(pivs, mat->rr, (unsigned long)mat->nru * sizeof(hm_t *));
+    j = nrl;
+    for (i = 0; i < mat->nru; ++i) {
+        mat->cf_8[j]      = bs->cf_8[mat->rr[i][COEFFS]];
+        mat->rr[i][COEFFS] = j;
+        ++j;
+    }
 
     /* unkown pivot rows we have to reduce with the known pivots first */
     hm_t **upivs  = mat->tr;
-- 
2.43.0


From 92183345a415ca3a1a9b53a1cc5fdbc3ce8eecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:44 +0000
Subject: [PATCH 09/11] fix: stop at a row that reduces to zero when applying a
 trace (8 and 16 bit)

---
 src/neogb/la_ff_16.c | 1 +
 src/neogb/la_ff_8.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/neogb/la_ff_16.c b/src/neogb/la_ff_16.c
index 6f0ecac..1426ec5 100644
--- a/src/neogb/la_ff_16.c
+++ b/src/neogb/la_ff_16.c
@@ -1288,6 +1288,7 @@ static int exact_application_sparse_reduced_echelon_form_ff_16(
                 if (!npiv) {
                     fprintf(stderr, "Unlucky prime detected, row reduced to zero.");
                     flag  = 0;
+                    break;
                 }
 
                 /* normalize coefficient array
diff --git a/src/neogb/la_ff_8.c b/src/neogb/la_ff_8.c
index a3996c3..d8bfa12 100644
--- a/src/neogb/la_ff_8.c
+++ b/src/neogb/la_ff_8.c
@@ -1117,6 +1117,7 @@ static int exact_application_sparse_reduced_echelon_form_ff_8(
                 if (!npiv) {
                     fprintf(stderr, "Unlucky prime detected, row reduced to zero.");
                     flag = 0;
+                    break;
                 }
 
                 /* normalize coefficient array
-- 
2.43.0


From ff621449bcdfe073f70f8a3579b202d7ef2c9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 10/11] fix: reducers keep their coefficient index when
 learning a trace (16 bit)

---
 src/neogb/la_ff_16.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/neogb/la_ff_16.c b/src/neogb/la_ff_16.c
index 1426ec5..0b31f22 100644
--- a/src/neogb/la_ff_16.c
+++ b/src/neogb/la_ff_16.c
@@ -923,13 +923,6 @@ static void exact_trace_sparse_reduced_echelon_form_ff_16(
     /* we fill in all known lead terms in pivs */
     hm_t **pivs   = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
     memcpy(pivs, mat->rr, (unsigned long)mat->nru * sizeof(hm_t *));
-    j = nrl;
-    for (i = 0; i < mat->nru; ++i) {
-        mat->cf_16[j]      = bs->cf_16[mat->rr[i][COEFFS]];
-        mat->rr[i][COEFFS] = j;
-        ++j;
-    }
-
 
     /* unkown pivot rows we have to reduce with the known pivots first */
     hm_t **upivs  = mat->tr;
-- 
2.43.0


From e874d9e736c73efa25c6242844e8eddc32269e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 11/11] fix: multi-threaded product of polynomials wrote
 through a length that other threads were changing

---
 src/usolve/univmultiply.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/usolve/univmultiply.c b/src/usolve/univmultiply.c
index 239f6b7..2c68a09 100644
--- a/src/usolve/univmultiply.c
+++ b/src/usolve/univmultiply.c
@@ -58,13 +58,16 @@ static void mpz_2_fmpz_poly(fmpz_poly_t poly_flint, const mpz_t *poly_gmp,
                             const unsigned int nthreads){
 
 
-  poly_flint->length = deg + 1;
-  poly_flint->alloc = deg + 1;
   unsigned long int i;
+  /* the coefficients are written directly since setting a zero leading
+     coefficient of poly_flint changes its length while other threads
+     are still writing */
 #pragma omp parallel for private(i) num_threads(nthreads)
   for(i = 0; i <= deg; i++){
-    fmpz_poly_set_coeff_mpz2(poly_flint, ((slong)i),poly_gmp[i]);
+    fmpz_set_mpz(poly_flint->coeffs + i, poly_gmp[i]);
   }
+  _fmpz_poly_set_length(poly_flint, deg + 1);
+  _fmpz_poly_normalise(poly_flint);
 }
 
 
-- 
2.43.0

