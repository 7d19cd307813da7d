SEEDS = [
 dict(id="P02-mask-narrow", property="P02", tu="neogb",
  edits=[("src/neogb/hash.c", "      if ((sdm_t)a[dv[i]] >= ht->dm[ctr]) {", "      if ((uint8_t)a[dv[i]] >= ht->dm[ctr]) {")],
  demo=r'''int main(void){ md_t st; memset(&st, 0, sizeof st); st.nvars = 3; st.init_hts = 10; ht_t *h = initialize_basis_hash_table(&st);
   exp_t a[4] = {3, 1, 1, 1}, b[4] = {257, 256, 0, 1}, c[4] = {5, 5, 0, 0}; hi_t i = insert_in_hash_table(a, h), j, k; calculate_divmask(h);
   j = insert_in_hash_table(b, h); k = insert_in_hash_table(c, h);
   if(!check_monomial_division(j, k, h)){ exp_t d[4] = {256, 256, 0, 0}; (void)d; }
   exp_t x[4] = {1, 1, 0, 0}; k = insert_in_hash_table(x, h);
   if(!check_monomial_division(j, k, h)){ printf("x does not divide x^256*z\n"); return 1; } return 0; }''',
  needs="an exponent of 256 or more", breaks="the divisor mask rejects true divisors of monomials with such exponents"),
 dict(id="P02-coprime-prod", property="P02", tu="neogb",
  edits=[("src/neogb/hash.c", """    for (i = ebl+1; i < evl; ++i) {
        if (ea[i] != 0 && eb[i] != 0) {
            return 0;
        }
    }
    return 1;""", """    for (i = ebl+1; i < evl; ++i) {
        const exp_t common = (exp_t)(ea[i] * eb[i]);
        if (common != 0) {
            return 0;
        }
    }
    return 1;""")],
  demo=r'''int main(void){ md_t st; memset(&st, 0, sizeof st); st.nvars = 2; st.init_hts = 10; ht_t *h = initialize_basis_hash_table(&st);
   exp_t a[3] = {257, 256, 1}, b[3] = {256, 256, 0}; hi_t i = insert_in_hash_table(a, h), j = insert_in_hash_table(b, h);
   if(prime_monomials(i, j, h)){ printf("x^256*y and x^256 reported coprime\n"); return 1; } return 0; }''',
  needs="two exponents whose product is a multiple of 65536", breaks="monomials sharing a variable are reported coprime"),
 dict(id="P02-update-range", property="P02", tu="neogb",
  edits=[("src/neogb/hash.c", """        for (i = 0; i < evl-1; i += 2) {
            if (ea[i] < eb[i] || ea[i+1] < eb[i+1]) {
                j++;
                goto restart;
            }
        }
        if (ea[evl-1] < eb[evl-1]) {
            continue;
        }
        a[j]  = 0;""", """        for (i = 0; i < evl-1; i += 2) {
            if (ea[i] < eb[i] || ea[i+1] < eb[i+1]) {
                j += 1 + (j + 1 < end && a[j+1] == a[j]);
                goto restart;
            }
        }
        if (ea[evl-1] <= eb[evl-1] && ea[0] == eb[0] + 1) {
            continue;
        }
        a[j]  = 0;""")],
  demo=r'''int main(void){ md_t st; memset(&st, 0, sizeof st); st.nvars = 2; st.init_hts = 10; ht_t *h = initialize_basis_hash_table(&st);
   exp_t a[3] = {2, 1, 1}, b[3] = {3, 2, 1}; hi_t i = insert_in_hash_table(a, h), j = insert_in_hash_table(b, h); hi_t l[3] = {i, j, j};
   check_monomial_division_in_update(l, 0, 3, i, h);
   if(l[1] || l[2]){ printf("multiple kept\n"); return 1; } return 0; }''',
  needs="a multiple whose degree exceeds that of the divisor by exactly one, with the same last exponent", breaks="the multiple is not dropped"),
 dict(id="P03-collide", property="P03", tu="neogb",
  edits=[("src/neogb/hash.c", """    for (; i < hsz; ++i) {
        k = (hi_t)((k+i) & mod);
        const hi_t hm = ht->hmap[k];
        if (!hm) {
            break;
        }
        if (ht->hd[hm].val != h) {
            continue;
        }
        const exp_t * const ehm = ht->ev[hm];
        for (j = 0; j < evl-1; j += 2) {
            if (a[j] != ehm[j] || a[j+1] != ehm[j+1]) {
                i++;
                goto restart;
            }
        }
        if (a[evl-1] != ehm[evl-1]) {
            i++;
            goto restart;
        }
        return hm;
    }

    /* add element to hash table */
    ht->hmap[k]  = pos = (hi_t)ht->eld;
    e   = ht->ev[pos];
    d   = ht->hd + pos;
    memcpy(e, a, (unsigned long)evl * sizeof(exp_t));
    d->sdm  =   generate_short_divmask(e, ht);
    d->deg  =   e[0];
    d->deg  +=  ht->ebl > 0 ? e[ht->ebl] : 0;
    d->val  =   h;

    ht->eld++;

    return pos;
}

static inline void reinitialize_hash_table(""", """    for (; i < hsz; ++i) {
        k = (hi_t)((k+i) & mod);
        const hi_t hm = ht->hmap[k];
        if (!hm) {
            break;
        }
        if (ht->hd[hm].val != h) {
            continue;
        }
        const exp_t * const ehm = ht->ev[hm];
        for (j = 0; j < evl-1; j += 2) {
            if (a[j] != ehm[j] || (a[j+1] ^ ehm[j+1]) & 0x7fff) {
                i++;
                goto restart;
            }
        }
        if (a[evl-1] != ehm[evl-1]) {
            i++;
            goto restart;
        }
        return hm;
    }

    /* add element to hash table */
    ht->hmap[k]  = pos = (hi_t)ht->eld;
    e   = ht->ev[pos];
    d   = ht->hd + pos;
    memcpy(e, a, (unsigned long)evl * sizeof(exp_t));
    d->sdm  =   generate_short_divmask(e, ht);
    d->deg  =   e[0];
    d->deg  +=  ht->ebl > 0 ? e[ht->ebl] : 0;
    d->val  =   h;

    ht->eld++;

    return pos;
}

static inline void reinitialize_hash_table(""")],
  demo=r'''int main(void){ md_t st; memset(&st, 0, sizeof st); st.nvars = 4; st.init_hts = 10; ht_t *h = initialize_basis_hash_table(&st); int i;
   for(i = 0; i < h->evl; i++) h->rn[i] = 5;
   exp_t a[5] = {32768, 32768, 0, 0, 0}, b[5] = {32768, 0, 0, 32768, 0};
   hi_t x = insert_in_hash_table(a, h), y = insert_in_hash_table(b, h);
   if(x == y){ printf("two monomials share index %u\n", x); return 1; } return 0; }''',
  needs="two monomials with equal hash values that differ by 2^15 in odd positions", breaks="they get the same index"),
 dict(id="P03-reset-red", property="P03", tu="neogb",
  edits=[("src/neogb/hash.c", "      if (bs->red[i] < 2) {", "      if (bs->red[i] == 0) {")],
  demo=r'''int main(void){ md_t st; memset(&st, 0, sizeof st); st.nvars = 2; st.init_hts = 6; ht_t *h = initialize_basis_hash_table(&st); ps_t ps; memset(&ps, 0, sizeof ps);
   exp_t a[3] = {3, 1, 2}, b[3] = {7, 3, 4}, z[3] = {9, 9, 0}; hi_t q = insert_in_hash_table(z, h), i = insert_in_hash_table(a, h), j = insert_in_hash_table(b, h); (void)q;
   bs_t bs; memset(&bs, 0, sizeof bs); int8_t red[2] = {1, 0}; bs.red = red; bs.ld = 2; hm_t r0[OFFSET+1] = {0}, r1[OFFSET+1] = {0}, *hm[2] = {r0, r1}; bs.hm = hm;
   r0[LENGTH] = r1[LENGTH] = 1; r0[OFFSET] = i; r1[OFFSET] = j; reset_hash_table(h, &bs, &ps, &st);
   if(r0[OFFSET] >= h->eld || h->ev[r0[OFFSET]][1] != 1 || h->ev[r0[OFFSET]][2] != 2){ printf("redundant element points to a stale index\n"); return 1; } return 0; }''',
  needs="a reset of the table while a redundant basis element is still in use", breaks="its monomial indices designate other monomials"),
 dict(id="P03-grow-once", property="P03", tu="neogb",
  edits=[("src/neogb/hash.c", """  while (sht->eld+poly[LENGTH] >= sht->esz) {
    enlarge_hash_table(sht);
  }
  insert_multiplied_poly_in_hash_table(""", """  if (sht->eld+poly[LENGTH] >= sht->esz) {
    enlarge_hash_table(sht);
  }
  insert_multiplied_poly_in_hash_table(""")],
  demo=r'''int main(void){ md_t st; memset(&st, 0, sizeof st); st.nvars = 2; st.init_hts = 12; ht_t *h = initialize_basis_hash_table(&st); int i;
   hm_t *p = calloc(OFFSET + 400, sizeof(hm_t)); p[LENGTH] = 400; exp_t e[3] = {2, 1, 1};
   for(i = 0; i < 400; i++){ exp_t a[3] = {i, i, 0}; p[OFFSET+i] = insert_in_hash_table(a, h); }
   st.init_hts = 6; ht_t *s = initialize_secondary_hash_table(h, &st); st.init_hts = 8;
   hm_t *r = multiplied_poly_to_matrix_row(s, h, 0, e, p);
   if(s->eld > s->esz){ printf("table of %lu holds %lu\n", (unsigned long)s->esz, (unsigned long)s->eld); return 1; }
   for(i = 0; i < 400; i++) if(s->ev[r[OFFSET+i]][1] != i + 1) return 1; return 0; }''',
  needs="a row longer than twice the current size of the table", breaks="the table overflows, indices designate no monomial"),
]
