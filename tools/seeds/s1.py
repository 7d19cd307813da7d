HT = r'''
static ht_t *mk(exp_t *a, exp_t *b, int evl, int ebl){
  ht_t *h = calloc(1, sizeof(ht_t)); h->ev = calloc(3, sizeof(exp_t*)); h->hd = calloc(3, sizeof(hd_t));
  h->ev[1]=a; h->ev[2]=b; h->evl=evl; h->ebl=ebl; return h;
}
'''
SEEDS = [
 dict(id="P01-deg-wrap", property="P01", tu="neogb",
  edits=[("src/neogb/order.c", """    /* DRL */
    if (ea[DEG] > eb[DEG]) {
        return 1;
    } else {
        if (ea[DEG] != eb[DEG]) {
            return -1;
        }
    }

    i = ht->evl-1;
    while (i > 1 && ea[i] == eb[i]) {
        --i;
    }
    return eb[i] - ea[i];
}

/* comparison for hash-column-maps */""", """    /* DRL */
    const int16_t dd = (int16_t)(ea[DEG] - eb[DEG]);
    if (dd != 0) {
        return dd;
    }

    i = ht->evl-1;
    while (i > 1 && ea[i] == eb[i]) {
        --i;
    }
    return eb[i] - ea[i];
}

/* comparison for hash-column-maps */""")],
  demo=HT + r'''
int main(void){ exp_t a[3]={40000,40000,0}, b[3]={3,1,2}; ht_t *h=mk(a,b,3,0);
  if(!(monomial_cmp_drl(1,2,h)>0)) { printf("x^40000 < x*y^2 in drl\n"); return 1; }
  if(!(monomial_cmp_drl(2,1,h)<0)) return 1; return 0; }''',
  needs="two monomials whose total degrees differ by more than 32767", breaks="monomial_cmp_drl orders them the wrong way round"),
 dict(id="P01-be-tie", property="P01", tu="neogb",
  edits=[("src/neogb/order.c", """    if (eb[i] - ea[i] != 0) {
        return eb[i] - ea[i];
    } else {
        /* second block */
        if (ea[ht->ebl] > eb[ht->ebl]) {
            return 1;
        } else {
            if (ea[ht->ebl] != eb[ht->ebl]) {
                return -1;
            }
        }
""", """    if (eb[i] - ea[i] != 0) {
        return eb[i] - ea[i];
    } else {
        /* second block */
        if (ea[ht->ebl] > eb[ht->ebl]) {
            return 1;
        } else {
            if (ea[ht->ebl] + 1 < eb[ht->ebl] + 1 - (ht->evl - ht->ebl > 8)) {
                return -1;
            }
        }
""")],
  demo=HT + r'''
int main(void){ exp_t a[16]={1,1,0, 2,0,0,0,0,0,0,0,0,0,0,0,2}, b[16]={1,1,0, 3,3}; ht_t *h=mk(a,b,16,3);
  /* second block of 12 variables, degrees 2 and 3 */
  exp_t c[16]={1,1,0, 2,2}; h->ev[1]=c; exp_t d[16]={1,1,0, 3,0,0,0,0,0,0,0,0,0,0,0,3}; h->ev[2]=d;
  if(!(monomial_cmp_be(1,2,h)<0)) { printf("degree 2 > degree 3 in the second block\n"); return 1; }
  return 0; }''',
  needs="elimination order with at least eight variables in the second block, equal first blocks, degrees of the second block one apart",
  breaks="the smaller degree wins in the second block"),
 dict(id="P01-gens-be", property="P01", tu="neogb",
  edits=[("src/neogb/order.c", """        /* second block */
        if (ea[ht->ebl] < eb[ht->ebl]) {
            return 1;
        } else {
            if (ea[ht->ebl] != eb[ht->ebl]) {
                return -1;
            }
        }

        /* note: reverse lexicographical */
        i = ht->evl-1;""", """        /* second block */
        if (ea[ht->ebl] < eb[ht->ebl]) {
            return 1;
        } else {
            if (ea[ht->ebl] != eb[ht->ebl]) {
                return -1;
            }
        }

        /* note: reverse lexicographical */
        i = ht->evl-2;""")],
  demo=HT + r'''
int main(void){ exp_t a[8]={1,1,0, 4,1,2,1,0}, b[8]={1,1,0, 4,1,1,0,2}; ht_t *h=mk(a,b,8,3);
  hm_t ra[1]={1}, rb[1]={2}; hm_t *pa=ra, *pb=rb;
  /* a > b (less of the last variable): a comes first */
  if(!(initial_gens_cmp_be(&pa,&pb,h)<0)) { printf("wrong order of generator terms\n"); return 1; }
  return 0; }''',
  needs="elimination order, two terms of one polynomial tied up to the last variables of the second block",
  breaks="terms of an input generator are sorted as if the last variable did not exist"),
 dict(id="P06-neg-unsigned", property="P06", tu="msolve",
  edits=[("src/crt/mpz_CRT_ui.c", "  if (mpz_sgn(r1) < 0)\n", "  if (sign && mpz_sgn(r1) < 0)\n")],
  demo=r'''
int main(void){ mpz_t o,r,m,mm,t; mpz_inits(o,r,m,mm,t,NULL);
  mpz_set_si(r,-7); mpz_set_ui(m,1000003); mpz_set_ui(mm,1000003); mpz_mul_ui(mm,mm,2147483647);
  mpz_CRT_ui(o,r,m,2147483640,2147483647,mm,t,0);
  if(mpz_sgn(o)<0 || mpz_cmp(o,mm)>=0){ printf("out of range\n"); return 1; } return 0; }''',
  needs="unsigned representatives requested with a negative previous value", breaks="the combined value leaves [0, m1*m2)"),
 dict(id="P06-skip-zero", property="P06", tu="msolve",
  edits=[("src/msolve/msolve.c", """  for (i = 0; i < pol->length; i++) {
    mpz_CRT_ui(pol->coeffs[i], pol->coeffs[i], modulus, nmod_pol->coeffs[i],""", """  for (i = 0; i < pol->length; i++) {
    if (nmod_pol->coeffs[i] == 0 && mpz_divisible_ui_p(pol->coeffs[i], 3)) {
      continue;
    }
    mpz_CRT_ui(pol->coeffs[i], pol->coeffs[i], modulus, nmod_pol->coeffs[i],""")],
  demo=r'''
int main(void){ mpz_upoly_t P; mpz_upoly_init(P,4); P->length=3; for(int i=0;i<3;i++) mpz_set_ui(P->coeffs[i], 6*i);
  nmod_poly_t q; nmod_poly_init(q,1073741827); nmod_poly_set_coeff_ui(q,2,5); nmod_poly_set_coeff_ui(q,0,0); nmod_poly_set_coeff_ui(q,1,0);
  mpz_t m,mm,t; mpz_inits(m,mm,t,NULL); mpz_set_ui(m,1073741831); mpz_mul_ui(mm,m,1073741827);
  crt_lift_mpz_upoly(P,q,m,1073741827,mm,t,1);
  for(int i=0;i<3;i++) if(mpz_fdiv_ui(P->coeffs[i],1073741827)!=(i==2?5:0)){ printf("coefficient %d lost its residue\n",i); return 1; }
  return 0; }''',
  needs="a coefficient whose residue modulo the new prime is 0 while the value lifted so far is not", breaks="the lifted value has not the new residue"),
 dict(id="P06-cmpabs", property="P06", tu="msolve",
  edits=[("src/crt/mpz_CRT_ui.c", """      mpz_sub(out, tmp, m1m2);
      if (mpz_cmpabs(tmp, out) <= 0)""", """      mpz_sub(out, tmp, m1m2);
      if (mpz_sizeinbase(tmp, 2) <= mpz_sizeinbase(out, 2))""")],
  demo=r'''
int main(void){ mpz_t o,r,m,mm,t,x; mpz_inits(o,r,m,mm,t,x,NULL);
  mpz_set_ui(m,1000003); mpz_mul_ui(mm,m,2147483647);
  for(int k=-5;k<6;k++){ mpz_fdiv_q_2exp(x,mm,1); mpz_sub(x,x,m); if(k<0) mpz_neg(x,x); mpz_add_ui(x,x,3*(k<0?-k:k));
  mpz_mod(r,x,m); unsigned long q=mpz_fdiv_ui(x,2147483647);
  mpz_CRT_ui(o,r,m,q,2147483647,mm,t,1);
  if(mpz_cmp(o,x)){ gmp_printf("%Zd instead of %Zd\n",o,x); return 1; } } return 0; }''',
  needs="a value close to half the modulus, whose two representatives have the same bit length", breaks="the representative of larger absolute value is returned"),
 dict(id="P07-den-edge", property="P07", tu="msolve",
  edits=[("src/crt/mpq_reconstruct.c", """  mpz_mod(u, u, mod);
  mpz_set(recdata->r0, mod);""", """  mpz_mod(u, u, mod);
  if (mpz_cmp(u, recdata->N) <= 0 && mpz_cmp(gden, recdata->D) <= 0) {
    mpz_mul(n, u, gden);
    mpz_set_ui(d, 1);
    return 1;
  }
  mpz_set(recdata->r0, mod);""")],
  demo=r'''
int main(void){ rrec_data_t r; initialize_rrec_data(r); mpz_t n,d,u,m,g; mpz_inits(n,d,u,m,g,NULL);
  mpz_set_ui(m,2147483647); mpz_mul_ui(m,m,2147483629); mpz_fdiv_q_2exp(r->N,m,1); mpz_sqrt(r->N,r->N); mpz_set(r->D,r->N);
  mpz_sub_ui(u,r->N,5); mpz_set_ui(g,1000); int b=ratreconwden(n,d,u,m,g,r);
  if(b && mpz_cmpabs(n,r->N)>0){ printf("numerator out of bound\n"); return 1; } return 0; }''',
  needs="a small residue with a guessed denominator above 1", breaks="the numerator exceeds its bound"),
 dict(id="P07-gcd", property="P07", tu="msolve",
  edits=[("src/crt/mpq_reconstruct.c", """  mpz_gcd(recdata->q, n, d);
  if(mpz_cmp(d, recdata->D) <= 0 && mpz_cmp_ui(recdata->q, 1)==0){
    return 1;
  }

  return 0;
}

/* Rational reconstruction -- classical algorithm""", """  if (mpz_cmp(d, recdata->D) > 0) {
    return 0;
  }
  if (mpz_size(d) <= 1) {
    return (mpz_gcd_ui(NULL, recdata->tmp, mpz_get_ui(d)) == 1);
  }
  mpz_gcd(recdata->q, n, d);
  if(mpz_cmp_ui(recdata->q, 1)==0){
    return 1;
  }

  return 0;
}

/* Rational reconstruction -- classical algorithm""")],
  demo=r"""
static int gcdul(long a,long b){ if(a<0)a=-a; while(b){long t=a%b;a=b;b=t;} return a; }
int main(void){ rrec_data_t r; initialize_rrec_data(r); mpz_t n,d,u,m,g; mpz_inits(n,d,u,m,g,NULL); int bad=0;
  for(unsigned M=50; M<400 && !bad; M++) for(unsigned x=0;x<M;x++){ mpz_set_ui(m,M); mpz_set_ui(u,x); mpz_set_ui(g,1);
    mpz_fdiv_q_2exp(r->N,m,1); mpz_sqrt(r->N,r->N); mpz_set(r->D,r->N);
    if(ratreconwden(n,d,u,m,g,r)){ if(gcdul(mpz_get_si(n),mpz_get_si(d))!=1){ printf("not in lowest terms: mod %u res %u\n",M,x); bad=1; break; } } }
  return bad; }""",
  needs="a residue for which no fraction exists within the bounds", breaks="a fraction that is not in lowest terms is accepted"),
 dict(id="P07-bound", property="P07", tu="msolve",
  edits=[("src/crt/mpq_reconstruct.c", """  while(mpz_cmp_ui(u, 0) < 0){
    mpz_add(u, u, mod);
  }

  mpz_set(recdata->r0, mod);""", """  while(mpz_cmp_ui(u, 0) < 0){
    mpz_add(u, u, mod);
  }
  /* small integers need no Euclidean scheme */
  mpz_sub(recdata->r0, mod, u);
  if (mpz_cmp(recdata->r0, recdata->N) < 0) {
    mpz_neg(n, recdata->r0);
    mpz_set_ui(d, 1);
    return mpz_fits_slong_p(n) ? 1 : mpz_odd_p(n);
  }

  mpz_set(recdata->r0, mod);""")],
  demo=r"""
int main(void){ rrec_data_t r; initialize_rrec_data(r); mpz_t n,d,u,m; mpz_inits(n,d,u,m,NULL);
  mpz_set_ui(m,1); for(int i=0;i<6;i++) mpz_mul_ui(m,m,2147483647-2*i);
  mpz_fdiv_q_2exp(r->N,m,1); mpz_sqrt(r->N,r->N); mpz_set(r->D,r->N);
  mpz_ui_pow_ui(n,2,66); mpz_sub(u,m,n);
  if(!ratrecon(n,d,u,m,r) || mpz_cmp_ui(d,1)){ printf("-2^66 not reconstructed\n"); return 1; } return 0; }""",
  needs="an even negative integer coefficient beyond 64 bits", breaks="reconstruction fails although the integer is within the bounds"),
]
