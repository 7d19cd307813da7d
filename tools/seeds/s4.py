K31 = r'''static hm_t *row(int cf, int len, const int *cols){ hm_t *r = calloc(len + OFFSET, sizeof(hm_t)); int j; r[COEFFS] = cf; r[PRELOOP] = len % 4; r[LENGTH] = len; for(j = 0; j < len; j++) r[OFFSET + j] = cols[j]; return r; }
'''
FG = r'''double realtime(void){ return 0; } double cputime(void){ return 0; }
static sp_matfglm_t *mk(uint32_t nc, uint32_t nr, const uint32_t *dm, const uint32_t *ti, const uint32_t *tp, const uint32_t *di){ sp_matfglm_t *m = calloc(1, sizeof *m);
  m->ncols = nc; m->nrows = nr; posix_memalign((void **)&m->dense_mat, 32, 4 * (nc * nr + 64)); memset(m->dense_mat, 0, 4 * (nc * nr + 64)); memcpy(m->dense_mat, dm, 4 * nc * nr);
  m->triv_idx = calloc(nc + 1, 4); m->triv_pos = calloc(nc + 1, 4); m->dense_idx = calloc(nr + 1, 4); m->dst = calloc(nr + 1, 4);
  memcpy(m->triv_idx, ti, 4 * (nc - nr)); memcpy(m->triv_pos, tp, 4 * (nc - nr)); memcpy(m->dense_idx, di, 4 * nr); return m; }
'''
SEEDS = [
 dict(id="P05-dense16-sign", property="P05", tu="neogb",
  edits=[("src/neogb/la_ff_16.c", """        const uint32_t mul  = (uint32_t)(fc - dr[i]);
        const len_t os      = (ncr - i) % UNROLL;
        for (l = 0, j = i; l < os; ++l, ++j) {
            dr[j] +=  mul * pivs[i][l];
        }
        for (; j < ncr; l += UNROLL, j += UNROLL) {
            dr[j]   +=  mul * pivs[i][l];""", """        const int32_t mul   = (int32_t)(fc - dr[i]);
        const len_t os      = (ncr - i) % UNROLL;
        for (l = 0, j = i; l < os; ++l, ++j) {
            dr[j] +=  mul * pivs[i][l];
        }
        for (; j < ncr; l += UNROLL, j += UNROLL) {
            dr[j]   +=  mul * pivs[i][l];""")],
  demo=r'''int main(void){ int64_t dr[3] = {1, 5, 0}; cf16_t p0[3] = {1, 65520, 65519}; cf16_t *pv[3] = {p0, 0, 0}; len_t pc = 0;
   /* row - pivot = (0, 6, 2), monic: (1, 1/3) */
   cf16_t *r = reduce_dense_row_by_dense_new_pivots_ff_16(dr, &pc, pv, 3, 65521);
   if(!r || pc != 1 || r[0] != 1 || (uint32_t)r[1] * 3 % 65521 != 1){ printf("wrong row\n"); return 1; } return 0; }''',
  needs="dense linear algebra over a 16-bit prime above 46340 with large entries", breaks="products overflow a signed 32-bit integer: the reduced row is wrong"),
 dict(id="P05-bad-prime-first", property="P05", tu="neogb",
  edits=[("src/neogb/la_ff_32.c", """                        if (st->trace_level == APPLY_TRACER) {
                            bad_prime = 1;
                        }
                        break;
                    }
                    /* normalize coefficient array
                     * NOTE: this has to be done here, otherwise the reduction may
                     * lead to wrong results in a parallel computation since other
                     * threads might directly use the new pivot once it is synced. */
                    if (mat->cf_32[npiv[COEFFS]][0] != 1) {""", """                        if (st->trace_level == APPLY_TRACER && k == 0 && i != 0) {
                            bad_prime = 1;
                        }
                        break;
                    }
                    /* normalize coefficient array
                     * NOTE: this has to be done here, otherwise the reduction may
                     * lead to wrong results in a parallel computation since other
                     * threads might directly use the new pivot once it is synced. */
                    if (mat->cf_32[npiv[COEFFS]][0] != 1) {""")],
  demo=K31 + r'''int main(void){ const uint32_t p = 2147483647; mat_t m; md_t st; bs_t bs; memset(&m, 0, sizeof m); memset(&st, 0, sizeof st); memset(&bs, 0, sizeof bs);
   cf32_t *cf[3]; int i; bs.cf_32 = cf; int c[2] = {0, 1}, d[2] = {1, 2};
   uint32_t v[3][2] = {{1, 5}, {3, 15}, {1, 7}};
   for(i = 0; i < 3; i++){ cf[i] = malloc(8); memcpy(cf[i], v[i], 8); }
   m.nc = 3; m.ncl = 1; m.ncr = 2; m.nru = 1; m.nrl = 2; m.nr = 3; m.rr = calloc(1, sizeof(hm_t*)); m.tr = calloc(2, sizeof(hm_t*));
   m.rr[0] = row(0, 2, c); m.tr[0] = row(1, 2, c); m.tr[1] = row(2, 2, d);
   st.fc = p; st.nthrds = 1; st.trace_level = APPLY_TRACER; reset_function_pointers(p, 2);
   exact_linear_algebra(&m, &bs, &bs, &st);
   if(m.np != 0){ printf("a zero reduction while applying a trace was not reported\n"); return 1; } return 0; }''',
  needs="the first row to be reduced becomes zero while a trace is applied (unlucky prime)", breaks="the bad prime is accepted"),
 dict(id="P05-rba-unit", property="P05", tu="neogb",
  edits=[("src/neogb/la_ff_32.c", """        if (i < ncl) {
            /* cfs   = bs->cf_32[dts[COEFFS]]; */
            /* set corresponding bit of reducer in reducer bit array */
            if (tr > 0) {
                rba[i/32] |= 1U << (i % 32);
            }
        }
        cfs   = mcf[dts[COEFFS]];
#if defined HAVE_AVX512_F""", """        if (i < ncl) {
            /* cfs   = bs->cf_32[dts[COEFFS]]; */
            /* set corresponding bit of reducer in reducer bit array */
            if (tr > 0 && dts[LENGTH] > 1) {
                rba[i/32] |= 1U << (i % 32);
            }
        }
        cfs   = mcf[dts[COEFFS]];
#if defined HAVE_AVX512_F""")],
  demo=K31 + r'''int main(void){ const uint32_t p = 2147483647; mat_t m; md_t st; bs_t bs; memset(&m, 0, sizeof m); memset(&st, 0, sizeof st); memset(&bs, 0, sizeof bs);
   cf32_t a[1] = {1}; cf32_t *cf[3] = {a, 0, 0}; int c[1] = {0}; hm_t *pv[2] = {row(0, 1, c), 0}; rba_t rb[2] = {0, 0}; rba_t *rba[3] = {rb, rb, rb};
   m.nc = 2; m.ncl = 1; m.ncr = 1; m.cf_32 = cf; m.rba = rba; st.fc = p; int64_t dr[2] = {3, 4};
   hm_t *r = reduce_dense_row_by_known_pivots_sparse_31_bit(dr, &m, &bs, pv, 0, 1, 7, 8, 1, &st);
   if(!r || !(rb[0] & 1)){ printf("a reducer that was used is not recorded\n"); return 1; } return 0; }''',
  needs="a reducer with a single term in a learning step", breaks="the trace lacks a reducer: replaying it modulo another prime gives a different echelon form"),
 dict(id="P05-trace-lanes", property="P05", tu="neogb",
  edits=[("src/neogb/la_ff_32.c", """                rba[i/32] |= 1U << (i % 32);
            }
        }
        cfs   = mcf[dts[COEFFS]];
        const len_t os  = dts[PRELOOP];
        const len_t len = dts[LENGTH];
        const hm_t * const ds  = dts + OFFSET;
        const uint32_t mul32 = (uint32_t)(dr[i]);""", "")] if 0 else [("src/neogb/la_ff_8.c", """    for (i = 0; i < ncr; ++i) {
        k = ncr-1-i;
        if (dm[k]) {
            memset(dr, 0, (unsigned long)ncr * sizeof(int64_t));""", """    for (i = 0; i < ncr; ++i) {
        k = ncr-1-i;
        if (dm[k] && (i < 255 || dm[k][0] != 1 || dm[k][1] != 0)) {
            memset(dr, 0, (unsigned long)ncr * sizeof(int64_t));""")],
  demo=r'''int main(void){ const len_t n = 300; len_t i, j; cf8_t **dm = calloc(n, sizeof(void*));
   dm[10] = calloc(n - 10, 1); dm[10][0] = 1; dm[10][290 - 10] = 5; dm[290] = calloc(n - 290, 1); dm[290][0] = 1; dm[290][3] = 7;
   dm = interreduce_dense_matrix_ff_8(dm, n, 251);
   if(dm[10][280] != 0 || dm[10][283] != 251 - 35){ printf("row not reduced by a later pivot\n"); return 1; } return 0; }''',
  needs="an 8-bit prime, dense linear algebra and more than 255 columns on the right", breaks="rows with pivots far to the left stay unreduced"),
 dict(id="P11-apply-degree", property="P11", tu="fglm",
  edits=[("src/fglm/fglm_core.c", """  if(param->elim->length-1 != deg_init){
    fprintf(stderr, "Warning: Degree of elim poly = %ld\\n", param->elim->length-1);
    return 1;
  }

  if (dimquot == dim) {

    if(compute_parametrizations(param, data_fglm, data_bms,
				dim, dimquot, block_size,
				nlins, linvars, lineqs,
				nvars) == 0){

      fprintf""", """  if(param->elim->length-1 < deg_init){
    fprintf(stderr, "Warning: Degree of elim poly = %ld\\n", param->elim->length-1);
    return 1;
  }

  if (dimquot == dim) {

    if(compute_parametrizations(param, data_fglm, data_bms,
				dim, dimquot, block_size,
				nlins, linvars, lineqs,
				nvars) == 0){

      fprintf""")],
  demo=FG + r'''int main(void){ /* x = y over y(y-1)(y-2): quotient 1, y, y^2; one variable x is linear */
   uint32_t p = 1073741827, dm[3] = {0, p - 2, 3}, ti[2] = {0, 1}, tp[2] = {1, 2}, di[1] = {2}; sp_matfglm_t *m = mk(3, 1, dm, ti, tp, di); m->charac = p;
   md_t st; memset(&st, 0, sizeof st); st.nthrds = 1; nvars_t lin[2] = {1, 0}, sq[2] = {0, 2}; uint32_t le[3] = {1, p - 1, 0}; fglm_data_t *d; fglm_bms_data_t *b; int succ = 1;
   param_t *q = nmod_fglm_compute_trace_data(m, p, 2, 1, 1, lin, le, sq, 0, &d, &b, &succ, &st);
   if(!q || q->elim->length != 4) return 0;
   int e = nmod_fglm_compute_apply_trace_data(m, p, q, 2, 1, 1, lin, le, sq, d, b, 2, 0, &st);
   if(e == 0){ printf("a later prime with another degree was accepted\n"); return 1; } return 0; }''',
  needs="the first prime gave an eliminating polynomial of too small a degree", breaks="later primes of larger degree are accepted and their coefficients combined"),
]
