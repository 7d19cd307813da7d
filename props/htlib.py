"""Replay of hash tables and monomial tests of gb.c: wrappers and oracle."""
from common import *

EXTRA = r"""
ht_t *vf_new(int nv, int nev, int hts, uint32_t *rn){
  md_t st; memset(&st, 0, sizeof st); st.nvars = nv; st.nev = nev; st.init_hts = hts;
  ht_t *h = initialize_basis_hash_table(&st); int i; if(rn) for(i = 0; i < h->evl; i++) h->rn[i] = rn[i]; return h; }
ht_t *vf_new2(ht_t *b, int hts){ md_t st; memset(&st, 0, sizeof st); st.init_hts = hts + 5; return initialize_secondary_hash_table(b, &st); }
ht_t *vf_copy(ht_t *b){ return copy_hash_table(b); }
void vf_free(ht_t *h, int full){ full ? full_free_hash_table(&h) : free_hash_table(&h); }
uint64_t vf_st(ht_t *h, int k){ return k == 0 ? h->eld : k == 1 ? h->esz : k == 2 ? h->hsz : k == 3 ? h->evl : k == 4 ? h->ebl : k == 5 ? h->ndv : h->bpv; }
void vf_get2(ht_t *h, uint32_t i, exp_t *e, uint32_t *d){ memcpy(e, h->ev[i], h->evl * sizeof(exp_t)); d[0] = h->hd[i].val; d[1] = h->hd[i].sdm; d[2] = h->hd[i].deg; d[3] = h->hd[i].idx; }
void vf_masks(ht_t *h, uint32_t *dm, uint32_t *dv, uint32_t *rn){ memcpy(dm, h->dm, 4 * h->ndv * h->bpv); memcpy(dv, h->dv, 4 * h->ndv); memcpy(rn, h->rn, 4 * h->evl); }
void vf_setdm(ht_t *h, uint32_t *dm){ memcpy(h->dm, dm, 4 * h->ndv * h->bpv); }
uint32_t vf_ins(ht_t *h, exp_t *a){ if(h->eld + 1 >= h->esz) enlarge_hash_table(h); return insert_in_hash_table(a, h); }
void vf_enl(ht_t *h){ enlarge_hash_table(h); }
uint32_t vf_lcm(uint32_t a, uint32_t b, ht_t *h1, ht_t *h2){ if(h2->eld + 1 >= h2->esz) enlarge_hash_table(h2); return get_lcm(a, b, h1, h2); }
uint32_t vf_msig(uint32_t a, uint32_t b, ht_t *h){ if(h->eld + 1 >= h->esz) enlarge_hash_table(h); return insert_multiplied_signature_in_hash_table(a, b, h); }
int vf_div(uint32_t a, uint32_t b, ht_t *h){ return check_monomial_division(a, b, h); }
int vf_prime(uint32_t a, uint32_t b, ht_t *h){ return prime_monomials(a, b, h); }
void vf_upd(uint32_t *a, uint32_t s, uint32_t e, uint32_t b, ht_t *h){ check_monomial_division_in_update(a, s, e, b, h); }
void vf_cdm(ht_t *h){ calculate_divmask(h); }
void vf_clean(ht_t *h){ clean_hash_table(h); }
void vf_reinit(ht_t *h, uint64_t n){ reinitialize_hash_table(h, n); }
/* a basis with n elements: rows of monomial indices, concatenated */
bs_t *vf_bs(ht_t *h, uint32_t n, uint32_t *mons, uint32_t *lens){
  bs_t *bs = calloc(1, sizeof(bs_t)); uint32_t i, j; uint32_t *q = mons;
  bs->ht = h; bs->ld = n; bs->sz = 2*n + 8; bs->hm = calloc(bs->sz, sizeof(hm_t*)); bs->red = calloc(bs->sz, 1);
  bs->lm = calloc(bs->sz, sizeof(sdm_t)); bs->lmps = calloc(bs->sz, sizeof(bl_t));
  for(i = 0; i < n; i++){ bs->hm[i] = calloc(lens[i] + OFFSET, sizeof(hm_t)); bs->hm[i][COEFFS] = i; bs->hm[i][LENGTH] = lens[i]; bs->hm[i][PRELOOP] = lens[i] % 4;
    bs->hm[i][DEG] = 0;
    for(j = 0; j < lens[i]; j++){ bs->hm[i][OFFSET + j] = q[j]; if(h->hd[q[j]].deg > bs->hm[i][DEG]) bs->hm[i][DEG] = h->hd[q[j]].deg; } q += lens[i]; }
  return bs; }
void vf_bs_lm(bs_t *bs, uint32_t n, uint32_t *pos){ uint32_t i; bs->lml = n; for(i = 0; i < n; i++){ bs->lmps[i] = pos[i]; bs->lm[i] = bs->ht->hd[bs->hm[pos[i]][OFFSET]].sdm; } }
void vf_bs_get(bs_t *bs, uint32_t *mons){ uint32_t i, j; for(i = 0; i < bs->ld; i++) for(j = 0; j < bs->hm[i][LENGTH]; j++) *mons++ = bs->hm[i][OFFSET + j]; }
void vf_bs_red(bs_t *bs, uint32_t i, int v){ bs->red[i] = v; }
void vf_bs_free(bs_t *bs){ uint32_t i; for(i = 0; i < bs->sz; i++) free(bs->hm[i]); free(bs->hm); free(bs->red); free(bs->lm); free(bs->lmps); free(bs); }
uint32_t vf_lmins(exp_t *a, ht_t *h, bs_t *bs){ if(h->eld + 1 >= h->esz) enlarge_hash_table(h); return check_lm_divisibility_and_insert_in_hash_table(a, h, bs); }
int vf_reducer(bs_t *bs, uint32_t m, ht_t *sht, uint32_t *out, uint32_t *idx, int trace){
  md_t md; memset(&md, 0, sizeof md); md.trace_level = trace ? LEARN_TRACER : NO_TRACER; hm_t *rows[2] = {0, 0}; len_t nr = 0;
  find_multiplied_reducer(bs, m, &nr, rows, sht, &md); *idx = sht->hd[m].idx;
  if(nr == 1){ uint32_t j; out[0] = rows[0][COEFFS]; out[1] = rows[0][LENGTH]; out[2] = rows[0][PRELOOP]; out[3] = trace ? rows[0][BINDEX] : rows[0][COEFFS]; out[4] = trace ? rows[0][MULT] : 0;
    for(j = 0; j < rows[0][LENGTH]; j++) out[5 + j] = rows[0][OFFSET + j]; free(rows[0]); }
  return nr; }
void vf_row(bs_t *bs, uint32_t g, int mul, exp_t *em, uint32_t h, ht_t *sht, uint32_t *out){
  hm_t *r = mul ? multiplied_poly_to_matrix_row(sht, bs->ht, h, em, bs->hm[g]) : poly_to_matrix_row(sht, bs->ht, bs->hm[g]); uint32_t j;
  out[0] = r[COEFFS]; out[1] = r[LENGTH]; out[2] = r[PRELOOP]; for(j = 0; j < r[LENGTH]; j++) out[5 + j] = r[OFFSET + j]; free(r); }
void vf_switch(uint32_t *hcm, ht_t *bht, uint32_t ncl, uint32_t nc, ht_t *sht){ mat_t m; memset(&m, 0, sizeof m); m.ncl = ncl; m.nc = nc; m.ncr = nc - ncl; switch_hcm_data_to_basis_hash_table(hcm, bht, &m, sht); }
void vf_pivots(uint32_t *cols, uint32_t n, ht_t *bht, ht_t *sht, uint32_t *hcm){ hm_t *r = calloc(n + OFFSET, sizeof(hm_t)); uint32_t j; r[LENGTH] = n; for(j = 0; j < n; j++) r[OFFSET+j] = cols[j];
  while(bht->esz - bht->eld < n + 1) enlarge_hash_table(bht); insert_in_basis_hash_table_pivots(r, bht, sht, hcm, NULL); for(j = 0; j < n; j++) cols[j] = r[OFFSET+j]; free(r); }
void vf_reset(ht_t *h, bs_t *bs, uint32_t *lcms, uint32_t n){ ps_t ps; md_t md; memset(&md, 0, sizeof md); ps.ld = ps.sz = n; ps.p = calloc(n + 1, sizeof(spair_t)); uint32_t i; for(i = 0; i < n; i++) ps.p[i].lcm = lcms[i];
  reset_hash_table(h, bs, &ps, &md); for(i = 0; i < n; i++) lcms[i] = ps.p[i].lcm; free(ps.p); }
/* new pairs (gen1[i], g2) with lcms[] in uht: survivors into out as (lcm, gen1, gen2) */
uint32_t vf_plcms(ht_t *bht, ht_t *uht, bs_t *bs, uint32_t *lcms, uint32_t *gen1, uint32_t g2, uint32_t n, uint32_t start, uint32_t *out){
  ps_t ps; ps.sz = start + n + 1; ps.ld = start; ps.p = calloc(ps.sz, sizeof(spair_t)); spair_t *pp = calloc(n + 1, sizeof(spair_t)); uint32_t i;
  for(i = 0; i < n; i++){ pp[i].gen1 = gen1[i]; pp[i].gen2 = g2; pp[i].lcm = lcms[i]; }
  while(bht->esz - bht->eld <= n) enlarge_hash_table(bht);
  insert_plcms_in_basis_hash_table(&ps, pp, bht, uht, bs, lcms, start, n);
  for(i = start; i < ps.ld; i++){ out[3*(i-start)] = ps.p[i].lcm; out[3*(i-start)+1] = ps.p[i].gen1; out[3*(i-start)+2] = ps.p[i].gen2; }
  uint32_t r = ps.ld - start; free(ps.p); free(pp); return r; }
/* symbolic preprocessing of rows given as products */
uint32_t vf_symb(bs_t *bs, ht_t *sht, uint32_t nrows, uint32_t *gens, exp_t *muls, uint32_t *out, uint32_t *nout){
  md_t md; mat_t m; memset(&md, 0, sizeof md); memset(&m, 0, sizeof m); uint32_t i, j; ht_t *bht = bs->ht;
  m.sz = nrows > 2 ? nrows : 2; m.rr = calloc(m.sz, sizeof(hm_t*)); m.tr = calloc(nrows, sizeof(hm_t*)); m.nr = 0;
  /* as select_spairs_by_minimal_degree leaves it: one reducer, the others to be reduced */
  m.nr = nrows; m.nrl = 0; m.nru = 0; m.nc = 0;
  for(i = 0; i < nrows; i++){ m.tr[i] = multiplied_poly_to_matrix_row(sht, bht, 0, muls + (size_t)i * bht->evl, bs->hm[gens[i]]); }
  symbolic_preprocessing(&m, bs, &md);
  uint32_t k = 0; for(i = 0; i < m.nru; i++){ out[k++] = m.rr[i][COEFFS]; out[k++] = m.rr[i][LENGTH]; for(j = 0; j < m.rr[i][LENGTH]; j++) out[k++] = m.rr[i][OFFSET + j]; free(m.rr[i]); }
  nout[0] = m.nru; nout[1] = m.nc; nout[2] = m.nr; nout[3] = m.nrl;
  for(i = 0; i < m.nrl; i++) free(m.rba[i]); for(i = 0; i < nrows; i++) free(m.tr[i]);
  free(m.rba); free(m.rr); free(m.tr); return k; }
"""


class HT:
    """binding of the wrappers"""
    SIG = dict(vf_new=(c_void_p, c_int, c_int, c_int, c_void_p), vf_new2=(c_void_p, c_void_p, c_int), vf_copy=(c_void_p, c_void_p), vf_free=(None, c_void_p, c_int),
               vf_st=(c_uint64, c_void_p, c_int), vf_get2=(None, c_void_p, c_uint32, c_void_p, c_void_p), vf_masks=(None, c_void_p, c_void_p, c_void_p, c_void_p),
               vf_setdm=(None, c_void_p, c_void_p),
               vf_ins=(c_uint32, c_void_p, c_void_p), vf_enl=(None, c_void_p), vf_lcm=(c_uint32, c_uint32, c_uint32, c_void_p, c_void_p),
               vf_msig=(c_uint32, c_uint32, c_uint32, c_void_p), vf_div=(c_int, c_uint32, c_uint32, c_void_p), vf_prime=(c_int, c_uint32, c_uint32, c_void_p),
               vf_upd=(None, c_void_p, c_uint32, c_uint32, c_uint32, c_void_p), vf_cdm=(None, c_void_p), vf_clean=(None, c_void_p), vf_reinit=(None, c_void_p, c_uint64),
               vf_bs=(c_void_p, c_void_p, c_uint32, c_void_p, c_void_p), vf_bs_lm=(None, c_void_p, c_uint32, c_void_p), vf_bs_get=(None, c_void_p, c_void_p),
               vf_bs_red=(None, c_void_p, c_uint32, c_int), vf_bs_free=(None, c_void_p), vf_lmins=(c_uint32, c_void_p, c_void_p, c_void_p),
               vf_reducer=(c_int, c_void_p, c_uint32, c_void_p, c_void_p, c_void_p, c_int), vf_row=(None, c_void_p, c_uint32, c_int, c_void_p, c_uint32, c_void_p, c_void_p),
               vf_switch=(None, c_void_p, c_void_p, c_uint32, c_uint32, c_void_p), vf_pivots=(None, c_void_p, c_uint32, c_void_p, c_void_p, c_void_p),
               vf_reset=(None, c_void_p, c_void_p, c_void_p, c_uint32), vf_plcms=(c_uint32, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p, c_uint32, c_uint32, c_uint32, c_void_p),
               vf_symb=(c_uint32, c_void_p, c_void_p, c_uint32, c_void_p, c_void_p, c_void_p, c_void_p))

    def __init__(s, lib):
        for n, sg in s.SIG.items():
            setattr(s, n[3:], lib.sym(n, *sg))
        s.ok = s.new is not None


def e16(v):
    return (c_uint16 * len(v))(*v)


def u32(v):
    return (c_uint32 * max(1, len(v)))(*[x & 0xffffffff for x in v])


class Tab:
    """a table and its oracle: index -> exponent vector"""

    def __init__(s, L, ctx, h, nv, nev):
        s.L, s.ctx, s.h, s.nv, s.nev = L, ctx, h, nv, nev
        s.evl, s.ebl = L.st(h, 3), L.st(h, 4)
        s.ix, s.rows = {}, {}

    def expv(s, m):
        """exponents of the variables -> stored vector"""
        if s.nev:
            return (sum(m[:s.nev]),) + tuple(m[:s.nev]) + (sum(m[s.nev:]),) + tuple(m[s.nev:])
        return (sum(m),) + tuple(m)

    def get(s, i):
        e, d = e16([0] * s.evl), u32([0] * 4)
        s.L.get2(s.h, i, e, d)
        return tuple(e), list(d)

    def saw(s, fn, inp, i, e):
        """the code says e has index i"""
        e = tuple(e)
        c = s.ctx
        c.check(1 <= i < s.L.st(s.h, 0), fn, inp, "an entry of the table", i)
        got = s.get(i)[0]
        c.check(got == e, fn, inp, e, (i, got), "the index designates the monomial")
        if e in s.ix:
            c.check(s.ix[e] == i, fn, inp, s.ix[e], i, "one index per monomial")
        else:
            c.check(i not in s.rows, fn, inp, f"a new index for {e}", (i, s.rows.get(i)), "an index designates one monomial")
            s.ix[e] = i
            s.rows[i] = e

    def audit(s, fn, inp, masks=True):
        """every entry, and its data"""
        c = s.ctx
        n = s.L.st(s.h, 0)
        seen = {}
        nd, bp = s.L.st(s.h, 5), s.L.st(s.h, 6)
        dm, dv, rn = u32([0] * (nd * bp)), u32([0] * nd), u32([0] * s.evl)
        s.L.masks(s.h, dm, dv, rn)
        for i in range(1, n):
            e, d = s.get(i)
            if i in s.rows:
                c.check(s.rows[i] == e, fn, inp, (i, s.rows[i]), (i, e), "entries keep their monomials")
            c.check(e not in seen, fn, inp, "pairwise different entries", (e, i, seen.get(e)), "no monomial is stored twice")
            seen[e] = i
            hv = sum(a * b for a, b in zip(rn, e)) % 2 ** 32
            c.check(d[0] == hv, fn, inp, (i, e, hv), d, "hash value")
            c.check(d[2] == e[0] + (e[s.ebl] if s.ebl else 0), fn, inp, (i, e), d, "degree")
            if masks:
                mk = 0
                for t in range(nd * bp):
                    if e[dv[t // bp]] >= dm[t]:
                        mk |= 1 << t
                c.check(d[1] == mk, fn, inp, (i, e, bin(mk)), bin(d[1]), "divisor mask")
        s.ix, s.rows = dict(seen), {i: e for e, i in seen.items()}


WIDE = [1, 2, 127, 128, 255, 256, 257, 511, 512, 4095, 4096, 16384, 32767, 32768, 33024]


def mono(rng, nv, mx):
    r = rng.random()
    if mx > 1000:       # exponents of every magnitude, total degree below mx
        m = [0] * nv
        for _ in range(rng.randrange(1, 6)):
            k = rng.randrange(nv)
            x = rng.choice(WIDE + [rng.randrange(1 << rng.randrange(1, 16))])
            if sum(m) - m[k] + x < mx:
                m[k] = x
        return m
    if r < .15:
        return [0] * nv
    if r < .4:
        m = [0] * nv
        for _ in range(rng.randrange(1, 3)):
            m[rng.randrange(nv)] += rng.randrange(1, mx + 1)
        return m
    return [rng.randrange(mx + 1) for _ in range(nv)]


def setup(rng, L, ctx, nv, nev, hts, style):
    rn = None
    evl = nv + 1 + (nev > 0)
    if style == 1:
        rn = u32([1] * evl)          # heavy collisions of hash values
    elif style == 2:
        rn = u32([rng.choice([1, 2, 0x80000001, 0xffffffff]) for _ in range(evl)])
    elif style == 3:
        rn = u32([rng.getrandbits(32) | 1 for _ in range(evl)])
    elif style == 4:             # hash values that ignore high bits of the exponents
        rn = u32([rng.choice([1 << 24, 1 << 20, 1 << 17, 1 << 17, 1 << 16, 0]) for _ in range(evl)])
    return Tab(L, ctx, L.new(nv, nev, hts, rn), nv, nev)


def divs(a, b):
    return all(x <= y for x, y in zip(b, a))


def shapes(rng):
    nv = rng.choice([1, 2, 3, 3, 4, 5, 6, 7, 9, 16, 33, 40])
    nev = rng.choice([0, 0, rng.randrange(1, nv)]) if nv > 1 else 0
    return nv, nev


def fill(t, rng, n, mx):
    """insert n monomials (with repetitions and near misses); returns their indices"""
    out = []
    c = t.ctx
    prev = None
    top = rng.choice([b for b in (8, 11, 14, 15, 15) if 1 << b < max(mx, 512)])
    for _ in range(n):
        m = mono(rng, t.nv, mx)
        if prev and rng.random() < .3:
            m = list(prev)
            k = rng.randrange(t.nv)
            m[k] = max(0, m[k] + rng.choice([-1, 1, 1]))
            if mx > 1000 and rng.random() < .8:
                m[k] = prev[k] ^ 1 << rng.randrange(16)
                if sum(m) >= mx:
                    m = list(prev)
        if prev and rng.random() < .2:
            m = list(prev)
            rng.shuffle(m)
        if mx > 1000 and rng.random() < .25:      # pure powers that differ in one high bit only
            m = [0] * t.nv
            m[rng.randrange(t.nv)] = 1 << top
        prev = m
        e = t.expv(m)
        inp = dict(nvars=t.nv, elim=t.nev, exponents=m, load=t.L.st(t.h, 0), known=e in t.ix)
        c.case("insert_in_hash_table", inp)
        i = t.L.ins(t.h, e16(e))
        t.saw("insert_in_hash_table", inp, i, e)
        out.append(i)
    return out


def lcm_of(t, a, b):
    m = [max(x, y) for x, y in zip(a, b)]
    v = [m[k] for k in range(1, t.evl) if not (t.ebl and k == t.ebl)]
    return t.expv(v)


def run_tests(ctx, L, frac=1.0, scale=1):
    """divisibility, coprimality, lcm, reducer lookup on tables of many shapes"""
    rng = ctx.rng
    for rep in range(ctx.scale(150, 1500) * scale):
        if not ctx.time_left(frac):
            break
        nv, nev = shapes(rng)
        t = setup(rng, L, ctx, nv, nev, rng.choice([3, 4, 6, 9]), rng.randrange(5))
        mx = rng.choice([2, 3, 6, 40, 28000, 65000])
        fill(t, rng, rng.randrange(3, 40), mx)
        fn, inp = "calculate_divmask", dict(nvars=nv, elim=nev, monomials=sorted(t.ix)[:30])
        ctx.case(fn, inp)
        L.cdm(t.h)
        if rng.random() < .4:
            nb = L.st(t.h, 5) * L.st(t.h, 6)
            L.setdm(t.h, u32([rng.choice([1, 1, 2, rng.randrange(1, mx + 1), rng.choice(WIDE)]) for _ in range(nb)]))
            L2 = dict(t.rows)
            t2 = Tab(L, ctx, L.new2(t.h, 3), nv, nev)
            for e in L2.values():     # entries whose masks use the new thresholds
                i = L.ins(t2.h, e16(e))
                t2.saw("insert_in_hash_table", dict(nvars=nv, elim=nev, exponents=e, fresh_table=True), i, e)
            t2.audit("insert_in_hash_table", dict(nvars=nv, elim=nev, monomials=sorted(t2.ix)[:30]))
            tests_on(ctx, L, t2, rng, mx)
            t2.L.free(t2.h, 0)
        else:
            t.audit(fn, inp)
            tests_on(ctx, L, t, rng, mx)
        L.free(t.h, 1)


def tests_on(ctx, L, t, rng, mx):
    idx = list(t.rows)
    base = dict(nvars=t.nv, elim=t.nev)
    for _ in range(60):
        a, b = rng.choice(idx), rng.choice(idx)
        ea, eb = t.rows[a], t.rows[b]
        inp = dict(base, a=ea, b=eb)
        ctx.case("check_monomial_division", inp)
        r = L.div(a, b, t.h)
        ctx.check((r != 0) == divs(ea, eb), "check_monomial_division", inp, int(divs(ea, eb)), r, "1 exactly when b divides a")
        cop = all(x == 0 or y == 0 for k, (x, y) in enumerate(zip(ea, eb)) if k and not (t.ebl and k == t.ebl))
        ctx.case("prime_monomials", inp)
        r = L.prime(a, b, t.h)
        ctx.check((r != 0) == cop, "prime_monomials", inp, int(cop), r, "1 exactly when no variable is shared")
    for _ in range(6):
        n = rng.randrange(1, 12)
        ls = [rng.choice(idx + [0]) for _ in range(n)]
        st, en, b = rng.randrange(n), rng.randrange(n + 1), rng.choice(idx)
        if rng.random() < .5:
            st, en = 0, n
            b = min(idx, key=lambda i: sum(t.rows[i])) if rng.random() < .3 else b
        arr_ = u32(ls + [idx[0]])
        inp = dict(base, lcms=[t.rows.get(x, 0) for x in ls], start=st, end=en, b=t.rows[b])
        ctx.case("check_monomial_division_in_update", inp)
        L.upd(arr_, st, en, b, t.h)
        want = [0 if st < k < en and x and divs(t.rows[x], t.rows[b]) else x for k, x in enumerate(ls)] + [idx[0]]
        ctx.check(list(arr_) == want, "check_monomial_division_in_update", inp, want, list(arr_), "exactly the multiples of b between start and end are dropped")
    if mx > 30000:
        return          # products and lcms would leave the exponent type
    # least common multiples, in another table
    s = Tab(L, ctx, L.new2(t.h, 3), t.nv, t.nev)
    for _ in range(25):
        a, b = rng.choice(idx), rng.choice(idx)
        inp = dict(base, a=t.rows[a], b=t.rows[b])
        ctx.case("get_lcm", inp)
        s.saw("get_lcm", inp, L.lcm(a, b, t.h, s.h), lcm_of(t, t.rows[a], t.rows[b]))
    s.audit("get_lcm", dict(base, table="after lcms"))
    # reducer lookup
    for _ in range(3):
        n = rng.randrange(1, 7)
        lens = [rng.randrange(1, 5) for _ in range(n)]
        mons = [rng.choice(idx) for _ in range(sum(lens))]
        bs = L.bs(t.h, n, u32(mons), u32(lens))
        posn = sorted(rng.sample(range(n), rng.randrange(0, n + 1)))
        L.bs_lm(bs, len(posn), u32(posn))
        rows = []
        k = 0
        for l in lens:
            rows.append(mons[k:k + l])
            k += l
        for _ in range(12):
            g = rng.choice(rows)
            m = [x + rng.choice([0, 0, 1, 2]) for k, x in enumerate(t.rows[g[0]]) if k and not (t.ebl and k == t.ebl)]
            if rng.random() < .4:
                m[rng.randrange(t.nv)] = rng.randrange(3)
            e = t.expv(m)
            can = [p for p in posn if divs(e, t.rows[rows[p][0]])]
            inp = dict(base, monomial=e, lead_monomials=[t.rows[rows[p][0]] for p in posn])
            ctx.case("check_lm_divisibility_and_insert_in_hash_table", inp)
            n0 = L.st(t.h, 0)
            r = L.lmins(e16(e), t.h, bs)
            if can:
                ctx.check(r == 0 and L.st(t.h, 0) == n0, "check_lm_divisibility_and_insert_in_hash_table", inp, 0, r, "0 exactly for multiples of a lead monomial")
            else:
                ctx.check(r != 0, "check_lm_divisibility_and_insert_in_hash_table", inp, "inserted", r, "0 exactly for multiples of a lead monomial")
                t.saw("check_lm_divisibility_and_insert_in_hash_table", inp, r, e)
            ctx.case("find_multiplied_reducer", inp)
            i = L.ins(s.h, e16(e))
            s.saw("find_multiplied_reducer", inp, i, e)
            out, ix = u32([0] * 40), c_uint32(0)
            ix0 = s.get(i)[1][3]
            tr = rng.randrange(2)
            r = L.reducer(bs, i, s.h, out, byref(ix), tr)
            ctx.check(r == (1 if can else 0), "find_multiplied_reducer", inp, len(can) > 0, r, "a reducer row exactly when a lead monomial divides")
            ctx.check(ix.value == (2 if can else ix0), "find_multiplied_reducer", inp, 2 if can else ix0, ix.value, "column marked")
            if r == 1:
                p = out[0]
                inp["basis_element"] = p
                ctx.check(p in can and out[3] == p, "find_multiplied_reducer", inp, can, (p, out[3]), "the lead monomial of the reducer divides")
                q = [x - y for x, y in zip(e, t.rows[rows[p][0]])]
                ctx.check(out[1] == lens[p] and out[2] == lens[p] % 4, "find_multiplied_reducer", inp, lens[p], (out[1], out[2]))
                for k in range(lens[p]):
                    s.saw("find_multiplied_reducer", inp, out[5 + k], [x + y for x, y in zip(q, t.rows[rows[p][k]])])
                ctx.check(out[5] == i, "find_multiplied_reducer", inp, i, out[5], "the row starts with the monomial")
                if tr:
                    t.saw("find_multiplied_reducer", dict(inp, traced=True), out[4], q)
        L.bs_free(bs)
    s.audit("find_multiplied_reducer", dict(base, table="after reducers"))
    t.audit("check_lm_divisibility_and_insert_in_hash_table", dict(base, table="after insertions"), masks=False)
    L.free(s.h, 0)


def run_tables(ctx, L, frac=1.0):
    """histories of insertions, transfers, enlargements and resets"""
    rng = ctx.rng
    for rep in range(ctx.scale(250, 2500)):
        if not ctx.time_left(frac):
            break
        nv, nev = shapes(rng)
        t = setup(rng, L, ctx, nv, nev, rng.choice([2, 3, 4, 7]), rng.randrange(5))
        base = dict(nvars=nv, elim=nev)
        mx = rng.choice([1, 2, 4, 30, 3000, 65000])
        fill(t, rng, rng.randrange(2, 30), mx)
        L.cdm(t.h)
        s = Tab(L, ctx, L.new2(t.h, rng.choice([3, 3, 5])), nv, nev)
        for step in range(rng.randrange(3, 12)):
            op = rng.randrange(9)
            if op == 7 and mx > 30000:
                op = 0
            if not t.rows:
                fill(t, rng, 5, mx)
            idx = list(t.rows)
            if op == 0:
                fill(t, rng, rng.randrange(1, 40), mx)
                fn = "insert_in_hash_table"
            elif op == 1:
                fn = "enlarge_hash_table"
                ctx.case(fn, dict(base, size=L.st(t.h, 2), load=L.st(t.h, 0)))
                o = (L.st(t.h, 1), L.st(t.h, 2), L.st(t.h, 0))
                if o[1] < 1 << 14:
                    L.enl(t.h)
                    nn = (L.st(t.h, 1), L.st(t.h, 2), L.st(t.h, 0))
                    ctx.check(nn[0] > o[0] and nn[2] == o[2] and nn[1] & (nn[1] - 1) == 0, fn, dict(base), "larger, same load", (o, nn))
            elif op == 2:
                fn = "insert_multiplied_signature_in_hash_table"
                for _ in range(10):
                    a, b = rng.choice(idx), rng.choice(idx)
                    inp = dict(base, a=t.rows[a], b=t.rows[b])
                    ctx.case(fn, inp)
                    if max(x + y for x, y in zip(t.rows[a], t.rows[b])) > 60000:
                        continue
                    t.saw(fn, inp, L.msig(a, b, t.h), [x + y for x, y in zip(t.rows[a], t.rows[b])])
            elif op in (3, 4):
                fn = "multiplied_poly_to_matrix_row" if op == 3 else "poly_to_matrix_row"
                n = rng.choice([1, 2, 3, 5, 8, 30, 70])
                g = [rng.choice(idx) for _ in range(n)]
                bs = L.bs(t.h, 1, u32(g), u32([n]))
                q = rng.choice(idx)
                if op == 3 and max(max(a + b for a, b in zip(t.rows[x], t.rows[q])) for x in g) > 65535:
                    op, fn = 4, "poly_to_matrix_row"
                out = u32([0] * (n + 8))
                inp = dict(base, multiplier=t.rows[q], poly=[t.rows[x] for x in g])
                ctx.case(fn, inp)
                L.row(bs, 0, op == 3, e16(t.rows[q]), t.get(q)[1][0], s.h, out)
                ctx.check(out[0] == 0 and out[1] == n and out[2] == n % 4, fn, inp, n, list(out)[:3])
                for k in range(n):
                    s.saw(fn, inp, out[5 + k], [x + (y if op == 3 else 0) for x, y in zip(t.rows[g[k]], t.rows[q])])
                L.bs_free(bs)
            elif op == 5 and s.rows:
                fn = "switch_hcm_data_to_basis_hash_table"
                sx = list(s.rows)
                n = rng.randrange(1, 2 * len(sx) + 2)
                hc = [rng.choice(sx) for _ in range(n)]
                k0 = rng.randrange(n)
                a = u32(hc)
                inp = dict(base, columns=[s.rows[x] for x in hc], ncl=k0)
                ctx.case(fn, inp)
                L.switch(a, t.h, k0, n, s.h)
                ctx.check(list(a)[:k0] == hc[:k0], fn, inp, hc[:k0], list(a)[:k0], "left columns kept")
                for k in range(k0, n):
                    t.saw(fn, inp, a[k], s.rows[hc[k]])
            elif op == 6 and s.rows:
                fn = "insert_in_basis_hash_table_pivots"
                sx = list(s.rows)
                hc = [rng.choice(sx) for _ in range(6)]
                cols = [rng.randrange(6) for _ in range(rng.randrange(1, 8))]
                a = u32(cols)
                inp = dict(base, row=cols, columns=[s.rows[x] for x in hc])
                ctx.case(fn, inp)
                L.pivots(a, len(cols), t.h, s.h, u32(hc))
                for k, c in enumerate(cols):
                    t.saw(fn, inp, a[k], s.rows[hc[c]])
            elif op == 7:
                fn = "insert_plcms_in_basis_hash_table"
                n = rng.randrange(1, 8)
                g = [rng.choice(idx) for _ in range(n + 1)]
                bs = L.bs(t.h, n + 1, u32(g), u32([1] * (n + 1)))
                s2 = Tab(L, ctx, L.new2(t.h, 3), nv, nev)
                lc = []
                for k in range(n):
                    e = lcm_of(t, t.rows[g[k]], t.rows[g[n]])
                    i = L.ins(s2.h, e16(e))
                    s2.saw("insert_in_hash_table", dict(base, exponents=e), i, e)
                    lc.append(i if rng.random() < .8 else 0)
                st = rng.randrange(3)
                out = u32([0] * (3 * n + 3))
                inp = dict(base, lead=[t.rows[x] for x in g], dropped=[int(x == 0) for x in lc], start=st)
                ctx.case(fn, inp)
                r = L.plcms(t.h, s2.h, bs, u32(lc), u32(list(range(n))), n, n, st, out)
                cop = lambda a, b: all(x == 0 or y == 0 for k, (x, y) in enumerate(zip(a, b)) if k and not (t.ebl and k == t.ebl))
                want = [k for k in range(n) if lc[k] and not cop(t.rows[g[k]], t.rows[g[n]])]
                ctx.check(r == len(want) and [out[3 * k + 1] for k in range(r)] == want, fn, inp, want, (r, list(out)), "surviving pairs kept in order")
                for k, w in enumerate(want):
                    t.saw(fn, inp, out[3 * k], s2.rows[lc[w]])
                L.free(s2.h, 0)
                L.bs_free(bs)
            else:
                fn = "reset_hash_table"
                n = rng.randrange(1, 6)
                lens = [rng.randrange(1, 6) for _ in range(n)]
                g = [rng.choice(idx) for _ in range(sum(lens))]
                bs = L.bs(t.h, n, u32(g), u32(lens))
                skip = [rng.random() < .25 for _ in range(n)]
                for k in range(n):
                    L.bs_red(bs, k, 2 if skip[k] else rng.randrange(2))
                lc = [rng.choice(idx) for _ in range(rng.randrange(0, 5))]
                inp = dict(base, basis=[t.rows[x] for x in g], lens=lens, pairs=[t.rows[x] for x in lc], dropped=skip)
                ctx.case(fn, inp)
                old = dict(t.rows)
                al = u32(lc)
                L.reset(t.h, bs, al, len(lc))
                t.ix, t.rows = {}, {}
                a = u32(g)
                L.bs_get(bs, a)
                k = 0
                for i in range(n):
                    for _ in range(lens[i]):
                        if skip[i]:
                            ctx.check(a[k] == g[k], fn, inp, g[k], a[k])
                        else:
                            t.saw(fn, inp, a[k], old[g[k]])
                        k += 1
                for j in range(len(lc)):
                    t.saw(fn, inp, al[j], old[lc[j]])
                L.bs_free(bs)
            t.audit(fn, dict(base, table="basis table", after=fn))
            if rng.random() < .4:
                s.audit(fn, dict(base, table="secondary table", after=fn))
            if rng.random() < .15:
                cl = rng.random() < .5
                fn = "clean_hash_table" if cl else "reinitialize_hash_table"
                ctx.case(fn, base)
                L.clean(s.h) if cl else L.reinit(s.h, rng.randrange(1, 200))
                ctx.check(L.st(s.h, 0) == 1, fn, base, "empty", L.st(s.h, 0))
                s.ix, s.rows = {}, {}
            if rng.random() < .1:
                fn = "copy_hash_table"
                ctx.case(fn, base)
                cp = Tab(L, ctx, L.copy(t.h), nv, nev)
                for i, e in t.rows.items():
                    ctx.check(cp.get(i) == t.get(i), fn, base, t.get(i), cp.get(i), "the copy has the same entries")
                cp.ix, cp.rows = dict(t.ix), dict(t.rows)
                fill(cp, rng, 5, mx)
                L.free(cp.h, 0)
            # every known monomial is found again
            for e in rng.sample(sorted(t.ix), min(8, len(t.ix))):
                inp = dict(base, exponents=e, after=fn)
                ctx.case("insert_in_hash_table", inp)
                t.saw("insert_in_hash_table", inp, L.ins(t.h, e16(e)), e)
        L.free(s.h, 0)
        L.free(t.h, 1)
