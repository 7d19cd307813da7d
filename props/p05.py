"""P05: row reductions of the F4 matrices are exact modulo the prime."""
from common import *

OFFSET, LENGTH, PRELOOP, COEFFS = 6, 5, 4, 3
c_, k_, k2_ = z3.Ints("c k k2")
X = z3.Function("x", z3.IntSort(), z3.IntSort())          # any vector over the integers
NROW = z3.Function("annih", z3.IntSort(), z3.IntSort(), z3.IntSort())  # sum of the first k entries of pivot row i times x


class Shape:
    """how one family of kernels names things"""

    def __init__(s, field="cf_32", old=None, pmax=2 ** 31 - 1, kind="sub", header=True):
        s.field, s.old, s.pmax, s.kind, s.header = field, old, pmax, kind, header


def D(s, i, k):
    """entry k of pivot row i"""
    return Sel(Sel(s.rows("pivs*"), i), k)


def null(i):
    return z3.Function("isnull_pivs*", z3.IntSort(), z3.BoolSort())(i)


def fc(s):
    return s.v("fc") if s.has("fc") else s.f("st", "fc")


def nc(s):
    return s.f("mat", "nc")


def ncl(s):
    return s.f("mat", "ncl")


def dr(s, c):
    return Sel(s.narr("dr"), c)


def CF(sh, s, i, j, old=None):
    """coefficient j of pivot row i; the pivots of the left part keep theirs in the basis when tracing"""
    if old is None:
        old = sh.old and s.ptr("cfs").reg.startswith("bs")
    return Sel(Sel(s.rows(f"{'bs' if old else 'mat'}.{sh.field}*"), D(s, i, COEFFS)), j)


def sides(sh, s, i):
    return [(True, i < ncl(s)), (False, i >= ncl(s))] if sh.old else [(False, z3.BoolVal(True))]


def C(s, i, j):
    return D(s, i, OFFSET + j)


def pivots(sh, s):
    """every pivot row: distinct columns behind its own, monic, reduced, annihilated by x"""
    i = c_
    P = fc(s)
    ln = D(s, i, LENGTH)
    live = And(i >= 0, i < nc(s), Not(null(i)))
    return [
        Named("pivot rows", ForAll(i, Implies(live, And(ln >= 1, ln <= nc(s), D(s, i, OFFSET) == i, D(s, i, PRELOOP) == ln % 4)), null(i))),
    ] + [Named("monic", ForAll(i, Implies(And(live, h), CF(sh, s, i, 0, o) == 1), null(i))) for o, h in sides(sh, s, i)] + [
        Named("coefficients of a pivot row", ForAll([i, k_], Implies(And(live, h, k_ >= 0, k_ < ln), And(CF(sh, s, i, k_, o) >= 0, CF(sh, s, i, k_, o) < P)), CF(sh, s, i, k_, o))) for o, h in sides(sh, s, i)] + [
        Named("columns of a pivot row", ForAll([i, k_], Implies(And(live, k_ > OFFSET, k_ < OFFSET + ln), And(D(s, i, k_) > i, D(s, i, k_) < nc(s))), D(s, i, k_))),
        Named("columns are distinct", ForAll([i, k_, k2_], Implies(And(live, k_ >= OFFSET, k_ < k2_, k2_ < OFFSET + ln), D(s, i, k_) != D(s, i, k2_)), z3.MultiPattern(D(s, i, k_), D(s, i, k2_)))),
        Named("annihilated", ForAll(i, Implies(live, NROW(i, ln) % P == 0), null(i))),
        Named("left columns have pivots", ForAll(i, Implies(And(i >= 0, i < ncl(s)), Not(null(i))), null(i))),
    ]


def ghost_sum(e, st, p, val):
    """~S: sum over the columns of dr[c]*x[c]"""
    if p.reg == "dr":
        old = z3.simplify(e.select(st, e.arr(st, p), p.off))
        st.ghost["~S"] = st.ghost["~S"] + (val - old) * X(p.off)


def in_range(sh, s, c, i):
    """dr[c] while column i is being treated"""
    P = fc(s)
    v = dr(s, c)
    return And(v >= 0, v < P * P) if sh.kind == "sub" else And(v >= 0, v <= i * Q)


Q = 2 ** 36
S0 = z3.Int("S0")


def reduce_kernel(name, sh, file, cfg="none", width=4, label=None):
    def pre(s):
        P = fc(s)
        return [And(P >= 2, P <= sh.pmax), And(nc(s) >= 0, nc(s) <= (2 ** 28 if sh.kind == "sub" else 2 ** 26), ncl(s) <= nc(s), ncl(s) >= 0), s.v("dpiv") <= nc(s),
                Named("row", ForAll(c_, Implies(And(c_ >= 0, c_ < nc(s)), And(dr(s, c_) >= 0, dr(s, c_) < (P * P if sh.kind == "sub" else P))), dr(s, c_))),
                Named("row starts at its pivot", ForAll(c_, Implies(And(c_ >= 0, c_ < s.v("dpiv")), dr(s, c_) == 0), dr(s, c_)))] + pivots(sh, s)

    def treated(s, i, b):
        P = fc(s)
        return [Named("range", ForAll(c_, Implies(And(c_ >= 0, c_ < nc(s)), in_range(sh, s, c_, b)), dr(s, c_))),
                Named("columns below are done", ForAll(c_, Implies(And(c_ >= 0, c_ < i), And(dr(s, c_) >= 0, dr(s, c_) < P, Implies(Not(null(c_)), dr(s, c_) == 0))), dr(s, c_)))]

    def outer(s):
        i = s.v("i")
        return [And(i >= 0, i <= nc(s), s.v("dpiv") <= i)] + treated(s, i, i + 1) + [
            Named("the row changed by a combination of pivot rows", Cong(s.g("~S"), S0, fc(s))),
            And(s.v("k") >= 0, s.v("k") <= i),
            Named("no entry met", Implies(s.v("k") == 0, ForAll(c_, Implies(And(c_ >= 0, c_ < i), dr(s, c_) == 0), dr(s, c_)))),
            Named("some entry met", Implies(s.v("k") > 0, And(s.v("np") >= 0, s.v("np") < i, dr(s, s.v("np")) > 0))),
            Named("first entry", Implies(s.v("k") == 0, s.v("np") == -1))]

    sign = -1 if sh.kind == "sub" else 1

    def inner_inv(w):
        def f(s):
            i, jj, P = s.v("i"), s.v("j"), fc(s)
            ln = D(s, i, LENGTH)
            o = [And(i >= 0, i < nc(s), Not(null(i)), jj >= 0, jj <= (s.v("os") if w == 1 and s.has("os") else ln), s.v("mul") >= 1, s.v("mul") <= P - 1)] + treated(s, i, i + 2)
            if w > 1:
                o.append(Named("groups", (ln - jj) % w == 0))
            o += [Named("columns below are untouched", ForAll(c_, Implies(And(c_ >= 0, c_ < i), dr(s, c_) == Sel(s.g("B"), c_)), dr(s, c_))),
                  Named("the multiplier cancels the entry", Implies(jj == 0, s.v("mul") == (dr(s, i) if sh.kind == "sub" else P - dr(s, i)))),
                  Named("the pivot entry is cancelled", Implies(jj > 0, dr(s, i) == (0 if sh.kind == "sub" else P))),
                  Named("multiple of the pivot row", Cong(s.g("~S"), s.g("H") + sign * s.v("mul") * NROW(i, jj), P))]
            if sh.kind != "sub":
                o.append(Named("columns ahead", ForAll(k_, Implies(And(k_ >= OFFSET + jj, k_ < OFFSET + ln), dr(s, D(s, i, k_)) <= (i + 1) * Q), D(s, i, k_))))
            return o
        return f

    def unfold(w):
        def f(s):
            i, jj = s.v("i"), s.v("j")
            o = [Eq(NROW(i, I(0)), I(0))]
            for r in range(w):
                o.append(Eq(NROW(i, jj + r + 1), NROW(i, jj + r) + CF(sh, s, i, jj + r) * X(C(s, i, jj + r))))
            return o
        return f

    def headl(w):
        def f(s):
            P, i, jj = fc(s), s.v("i"), s.v("j")
            o = [Named("within the row", And(Implies(jj < D(s, i, LENGTH), jj + w <= D(s, i, LENGTH)), D(s, i, LENGTH) <= 2 ** 28, jj + w <= 2 ** 28 + w)), Named("square", And((P - 1) * (P - 1) == P * P - 2 * P + 1, P * P >= 2 * P, P * P <= sh.pmax ** 2, P * P <= (2 ** 62 if sh.kind == "sub" else Q)))]
            for r in range(w):
                cf = CF(sh, s, i, jj + r)
                ok = jj + r < D(s, i, LENGTH)
                o.append(Named(f"product {r}", Implies(ok, And(s.v("mul") * cf >= 0, s.v("mul") * cf < P * P, s.v("mul") * cf <= P * P - 2 * P + 1))))
                o.append(Named(f"column {r}", Implies(ok, And(C(s, i, jj + r) >= i, C(s, i, jj + r) < nc(s)))))
                o.append(Named(f"cell {r}", Implies(ok, in_range(sh, s, C(s, i, jj + r), i + 2))))
            if w > 1:
                o.append(Named("distinct columns", Implies(jj < D(s, i, LENGTH), z3.Distinct(*[C(s, i, jj + r) for r in range(w)]))))
            return o
        return f

    def exitl(s):
        i, jj, P = s.v("i"), s.v("j"), fc(s)
        return [Named("row finished", jj == D(s, i, LENGTH)), Named("annihilated row", Eq(NROW(i, jj), P * (NROW(i, jj) / P))),
                Named("cancelled", Eq(dr(s, i), I(0) if sh.kind == "sub" else P))]

    def inner(w):
        return Loop(inv=inner_inv(w), init_ghost=(lambda s: {"H": s.g("~S"), "B": s.arr("dr")}) if w == 1 else None, unfold=unfold(w), headlemmas=headl(w), dec=lambda s: D(s, s.v("i"), LENGTH) - s.v("j"), exitlemmas=exitl if w > 1 else None)

    def gathered(s, i, jj):
        lo = ncl(s)
        R = lambda t: Sel(s.narr("row"), OFFSET + t)
        K = lambda t: Sel(s.narr("cf"), t)
        pos = lambda c: Sel(s.g("POS"), c)
        return [Named("entries of the new row", ForAll(k_, Implies(And(k_ >= 0, k_ < jj), And(R(k_) >= lo, R(k_) < i, dr(s, R(k_)) != 0, K(k_) == dr(s, R(k_)), pos(R(k_)) == k_)), K(k_))),
                Named("columns of the new row", ForAll(k_, Implies(And(k_ >= OFFSET, k_ < OFFSET + jj), And(R(k_ - OFFSET) >= lo, R(k_ - OFFSET) < i, Implies(k_ > OFFSET, R(k_ - OFFSET - 1) < R(k_ - OFFSET)))), Sel(s.narr("row"), k_))),
                Named("no entry is lost", ForAll(c_, Implies(And(c_ >= lo, c_ < i, dr(s, c_) != 0), And(pos(c_) >= 0, pos(c_) < jj, R(pos(c_)) == c_)), dr(s, c_)))]

    def gather():
        def inv(s):
            i, jj = s.v("i"), s.v("j")
            return [And(i >= ncl(s), i <= nc(s), jj >= 0, jj <= i - ncl(s), s.off("rs") == OFFSET, s.off("cf") == 0, s.off("row") == 0)] + gathered(s, i, jj)

        def gh(s):
            return {"POS": If(s.v("j") > s.head.v("j"), z3.Store(s.head.g("POS"), s.head.v("i"), s.head.v("j")), s.head.g("POS"))}
        return Loop(inv=inv, init_ghost=lambda s: {"POS": z3.K(z3.IntSort(), I(-1))}, ghost=gh, dec=lambda s: nc(s) - s.v("i"))

    def ens(s):
        P = fc(s)
        o = [Named("the row changed by a combination of pivot rows", Cong(s.g("~S"), S0, P)),
             Named("every entry is reduced", ForAll(c_, Implies(And(c_ >= 0, c_ < nc(s)), And(dr(s, c_) >= 0, dr(s, c_) < P)), dr(s, c_))),
             Named("columns of pivots are cleared", ForAll(c_, Implies(And(c_ >= 0, c_ < nc(s), Not(null(c_))), dr(s, c_) == 0), dr(s, c_)))]
        if s.res.reg is None:
            return o + [Named("zero row", ForAll(c_, Implies(And(c_ >= 0, c_ < nc(s)), dr(s, c_) == 0), dr(s, c_)))]
        R = s.narr("row")
        n = Sel(R, LENGTH)
        return o + [Named("the new row is not empty", n >= 1), Named("header", And(Sel(R, COEFFS) == s.v("tmp_pos"), Sel(R, PRELOOP) == n % 4)), Named("origin", And(Sel(R, 1) == s.v("bi"), Sel(R, 2) == s.v("mh")) if sh.header else z3.BoolVal(True))] + gathered(s, nc(s), n)
    return Contract(name, "neogb", file, cfgs=(cfg,), requires=pre, ensures=ens, onstore=ghost_sum, resolve=True, merge_ifs={"rba", "mat.rba*"}, ghosts=lambda s: {"~S": S0}, arrays=("dr", "pivs", "rba"), assigns=[("dr",)],
                    loops={0: Loop(inv=outer, headlemmas=lambda s: [Named("entry", Implies(s.v("i") < nc(s), in_range(sh, s, s.v("i"), s.v("i") + 1)))], dec=lambda s: nc(s) - s.v("i")), 1: inner(1), 2: inner(width), 3: gather()},
                    reseat={f"mat.{sh.field}": lambda s, p, q: And(p.off == s.v("tmp_pos"), z3.BoolVal(q.reg == s.ptr("cf").reg), q.off == 0)}, label=label)


F32 = "src/neogb/la_ff_32.c"
SUB31 = Shape(kind="sub")
ADD17 = Shape(kind="add", pmax=2 ** 18 - 1)
TSUB31 = Shape(kind="sub", old=True)
TADD17 = Shape(kind="add", pmax=2 ** 18 - 1, old=True)
R = "reduce_dense_row_by_known_pivots_sparse_"
F16, F8 = "src/neogb/la_ff_16.c", "src/neogb/la_ff_8.c"


def small(b, old=None, header=True):
    return Shape(f"cf_{b}", kind="add", pmax=2 ** b - 1, old=old, header=header)


CONTRACTS = [reduce_kernel(R + "31_bit", SUB31, F32), reduce_kernel(R + "31_bit", SUB31, F32, "avx2", 8), reduce_kernel(R + "31_bit", SUB31, F32, "avx512", 16),
             reduce_kernel(R + "17_bit", ADD17, F32), reduce_kernel(R + "17_bit", ADD17, F32, "avx2", 8),
             reduce_kernel("trace_" + R + "31_bit", TSUB31, F32), reduce_kernel("trace_" + R + "31_bit", TSUB31, F32, "avx2", 8),
             reduce_kernel("trace_" + R + "17_bit", TADD17, F32),
             reduce_kernel(R + "ff_16", small(16, header=False), F16), reduce_kernel(R + "ff_8", small(8), F8),
             reduce_kernel("trace_" + R + "ff_16", small(16, True), F16), reduce_kernel("trace_" + R + "ff_8", small(8, True), F8)]


EXTRA = r"""
static void *vf_mk(int bits, const uint32_t *c, int n){ void *r = malloc((n ? n : 1) * bits / 8); int i;
  for(i = 0; i < n; i++){ if(bits == 8) ((cf8_t*)r)[i] = c[i]; else if(bits == 16) ((cf16_t*)r)[i] = c[i]; else ((cf32_t*)r)[i] = c[i]; } return r; }
static uint32_t vf_cf(int bits, void *r, int i){ return bits == 8 ? ((cf8_t*)r)[i] : bits == 16 ? ((cf16_t*)r)[i] : ((cf32_t*)r)[i]; }
static void *vf_tab(int bits, mat_t *m, int i){ return bits == 8 ? (void*)m->cf_8[i] : bits == 16 ? (void*)m->cf_16[i] : (void*)m->cf_32[i]; }
static void vf_basis(int bits, bs_t *bs, int n, uint32_t *lens, uint32_t *cfs){ int i; memset(bs, 0, sizeof *bs); void **t = calloc(n + 1, sizeof(void*));
  for(i = 0; i < n; i++){ t[i] = vf_mk(bits, cfs, lens[i]); cfs += lens[i]; }
  bs->sz = n + 1000; bs->ld = n; bs->hm = calloc(n + 1000, sizeof(hm_t*)); t = realloc(t, (n + 1000) * sizeof(void*));
  if(bits == 8) bs->cf_8 = (cf8_t**)t; else if(bits == 16) bs->cf_16 = (cf16_t**)t; else bs->cf_32 = (cf32_t**)t; }
static hm_t *vf_row(int idx, int cf, int len, uint32_t *cols){ hm_t *r = calloc(len + OFFSET, sizeof(hm_t)); int j;
  r[BINDEX] = 1000 + idx; r[MULT] = 5000 + idx; r[COEFFS] = cf; r[PRELOOP] = len % 4; r[LENGTH] = len; for(j = 0; j < len; j++) r[OFFSET + j] = cols[j]; return r; }

/* op 0 linear_algebra, 1 exact_linear_algebra, 2 trace, 3 application, 4 interreduce, 5 normal forms, 6 final reduction, 7 exact with learning tracer, 8 exact applying a tracer */
int vf_la(int op, int laopt, uint32_t p, int nc, int ncl, int nrl, uint32_t *lens, uint32_t *cols, uint32_t *cfs, uint32_t *out, uint32_t *hdr, uint32_t *tri, uint32_t *rri, uint32_t *tl){
  int bits = p < 256 ? 8 : p < 65536 ? 16 : 32, n = ncl + nrl, i, j, ret = 0; bs_t bs; mat_t *m = calloc(1, sizeof(mat_t)); md_t *st = calloc(1, sizeof(md_t));
  vf_basis(bits, &bs, n, lens, cfs);
  st->fc = p; st->gfc = p; st->nthrds = 1; st->ff_bits = bits; st->laopt = laopt; st->max_uht_size = 64;
  m->nc = nc; m->ncl = ncl; m->ncr = nc - ncl; m->nru = ncl; m->nrl = nrl; m->nr = n; m->sz = n;
  m->rr = calloc(n + 1, sizeof(hm_t*)); m->tr = calloc(nrl + 1, sizeof(hm_t*)); m->rba = calloc(nrl + 1, sizeof(rba_t*));
  for(i = 0; i < n; i++){ hm_t *r = vf_row(i, i, lens[i], cols); cols += lens[i];
    if(i < ncl || op == 4) m->rr[i] = r; else { m->tr[i - ncl] = r; m->rba[i - ncl] = calloc(ncl / 32 + 2, sizeof(rba_t)); } }
  trace_t *tr = calloc(1, sizeof(trace_t)); tr->std = 2; tr->ltd = 0; tr->td = calloc(2, sizeof(td_t)); st->tr = tr;
  reset_function_pointers(p, laopt); 
  if(op == 2 || op == 3) reset_trace_function_pointers(p);
  if(op == 0) linear_algebra(m, &bs, &bs, st);
  if(op == 1) exact_linear_algebra(m, &bs, &bs, st);
  if(op == 2) trace_linear_algebra(tr, m, &bs, st);
  if(op == 3) ret = application_linear_algebra(m, &bs, st);
  if(op == 4){ free(m->tr); m->tr = NULL; m->cf_8 = NULL; m->ncl = 0; m->ncr = nc; m->nru = 0; interreduce_matrix_rows(m, &bs, st, 0); m->np = n; }
  if(op == 5){ st->nf = nrl; exact_linear_algebra(m, &bs, &bs, st); }
  if(op == 6){ st->in_final_reduction_step = 1; exact_linear_algebra(m, &bs, &bs, st); }
  if(op == 7){ st->trace_level = LEARN_TRACER; exact_linear_algebra(m, &bs, &bs, st); }
  if(op == 8){ st->trace_level = APPLY_TRACER; exact_linear_algebra(m, &bs, &bs, st); if(m->np == 0) ret = 1; }
  if(ret) return -1;
  for(i = 0; i < (int)m->np; i++){ hm_t *r = m->tr[i]; if(!r){ hdr[2*i] = hdr[2*i+1] = 99; continue; }
    hdr[2*i] = r[LENGTH]; hdr[2*i+1] = r[PRELOOP]; void *c = vf_tab(bits, m, r[COEFFS]);
    for(j = 0; j < (int)r[LENGTH]; j++) out[(size_t)i * nc + r[OFFSET + j]] += vf_cf(bits, c, j); }
  tl[0] = tl[1] = 0;
  if(op == 2 || op == 7){ tl[0] = tr->td[0].tld; tl[1] = tr->td[0].rld; for(i = 0; i < (int)tl[0]; i++) tri[i] = tr->td[0].tri[i]; for(i = 0; i < (int)tl[1]; i++) rri[i] = tr->td[0].rri[i]; }
  return m->np; }

/* one reduction: pivot rows on any columns (their first), dense row dr; kind selects the kernel; np pivot rows */
int vf_kern(int kind, uint32_t p, int nc, int ncl, int np, uint32_t *lens, uint32_t *cols, uint32_t *cfs, int64_t *dr, int dpiv, uint32_t *out, uint32_t *hdr, uint32_t *rba){
  int bits = (kind == 4 || kind == 6) ? 16 : (kind == 5 || kind == 7) ? 8 : 32, i, j; bs_t bs; mat_t *m = calloc(1, sizeof(mat_t)); md_t *st = calloc(1, sizeof(md_t));
  int tracing = kind == 2 || kind == 3 || kind == 6 || kind == 7;
  st->fc = p; st->nthrds = 1; m->nc = nc; m->ncl = ncl; m->ncr = nc - ncl; hm_t **pivs = calloc(nc + 1, sizeof(hm_t*));
  void **t = calloc(nc + np + 2, sizeof(void*)), **b = calloc(nc + np + 2, sizeof(void*)); memset(&bs, 0, sizeof bs);
  if(bits == 8){ m->cf_8 = (cf8_t**)t; bs.cf_8 = (cf8_t**)b; } else if(bits == 16){ m->cf_16 = (cf16_t**)t; bs.cf_16 = (cf16_t**)b; } else { m->cf_32 = (cf32_t**)t; bs.cf_32 = (cf32_t**)b; }
  for(i = 0; i < np; i++){ int slot = (np - 1 - i) + 1; pivs[cols[0]] = vf_row(i, slot, lens[i], cols); (tracing && (int)cols[0] < ncl ? b : t)[slot] = vf_mk(bits, cfs, lens[i]); cols += lens[i]; cfs += lens[i]; }
  int slot = np + 1; hm_t *r = NULL; int64_t *d = malloc(sizeof(int64_t) * nc); memcpy(d, dr, sizeof(int64_t) * nc);
  if(kind == 0) r = reduce_dense_row_by_known_pivots_sparse_31_bit(d, m, &bs, pivs, dpiv, slot, 77, 88, hdr[4], st);
  if(kind == 1) r = reduce_dense_row_by_known_pivots_sparse_17_bit(d, m, &bs, pivs, dpiv, slot, 77, 88, hdr[4], st);
  if(hdr[4]) return -2;
  if(kind == 2) r = trace_reduce_dense_row_by_known_pivots_sparse_31_bit(rba, d, m, &bs, pivs, dpiv, slot, 77, 88, st);
  if(kind == 3) r = trace_reduce_dense_row_by_known_pivots_sparse_17_bit(rba, d, m, &bs, pivs, dpiv, slot, 77, 88, st);
  if(kind == 4) r = reduce_dense_row_by_known_pivots_sparse_ff_16(d, m, &bs, pivs, dpiv, slot, 77, 88, 0, p);
  if(kind == 5) r = reduce_dense_row_by_known_pivots_sparse_ff_8(d, m, &bs, pivs, dpiv, slot, 77, 88, 0, p);
  if(kind == 6) r = trace_reduce_dense_row_by_known_pivots_sparse_ff_16(rba, d, m, &bs, pivs, dpiv, slot, 77, 88, p);
  if(kind == 7) r = trace_reduce_dense_row_by_known_pivots_sparse_ff_8(rba, d, m, &bs, pivs, dpiv, slot, 77, 88, p);
  free(d);
  if(!r) return 0;
  hdr[0] = r[LENGTH]; hdr[1] = r[PRELOOP]; hdr[2] = r[BINDEX]; hdr[3] = r[MULT]; if(r[COEFFS] != (hm_t)slot) return -3;
  for(j = 0; j < (int)r[LENGTH]; j++) out[r[OFFSET + j]] += vf_cf(bits, t[slot], j);
  return 1; }

/* dense kernels: 0 old pivots, 1 dense new pivots, 2 all pivots; sparse rows have pivots < ncl, dense pivots given over the right columns */
int vf_dense(int which, int bits, int small, uint32_t p, int nc, int ncl, int np, uint32_t *lens, uint32_t *cols, uint32_t *cfs, uint32_t *have, uint32_t *dp, int64_t *dr, int start, uint32_t *out){
  int i, j, ncr = nc - ncl; bs_t bs; mat_t *m = calloc(1, sizeof(mat_t)); vf_basis(bits, &bs, np, lens, cfs); m->nc = nc; m->ncl = ncl; m->ncr = ncr;
  hm_t **pivs = calloc(nc + 1, sizeof(hm_t*)); void **dpv = calloc(ncr + 1, sizeof(void*));
  for(i = 0; i < np; i++){ pivs[cols[0]] = vf_row(i, i, lens[i], cols); cols += lens[i]; }
  for(i = 0; i < ncr; i++) if(have[i]) dpv[i] = vf_mk(bits, dp + (size_t)i * ncr + i, ncr - i);
  len_t pc = start; void *r = NULL; int64_t *d = malloc(sizeof(int64_t) * nc); memcpy(d, dr, sizeof(int64_t) * nc);
  if(which == 0) r = bits == 8 ? (void*)reduce_dense_row_by_old_pivots_ff_8(d, m, &bs, pivs, start, p) : bits == 16 ? (void*)reduce_dense_row_by_old_pivots_ff_16(d, m, &bs, pivs, start, p)
     : small ? (void*)reduce_dense_row_by_old_pivots_17_bit(d, m, &bs, pivs, start, p) : (void*)reduce_dense_row_by_old_pivots_31_bit(d, m, &bs, pivs, start, p);
  if(which == 1) r = bits == 8 ? (void*)reduce_dense_row_by_dense_new_pivots_ff_8(d, &pc, (cf8_t**)dpv, ncr, p) : bits == 16 ? (void*)reduce_dense_row_by_dense_new_pivots_ff_16(d, &pc, (cf16_t**)dpv, ncr, p)
     : small ? (void*)reduce_dense_row_by_dense_new_pivots_17_bit(d, &pc, (cf32_t**)dpv, ncr, p) : (void*)reduce_dense_row_by_dense_new_pivots_31_bit(d, &pc, (cf32_t**)dpv, ncr, p);
  if(which == 2) r = bits == 8 ? (void*)reduce_dense_row_by_all_pivots_ff_8(d, m, &bs, &pc, pivs, (cf8_t**)dpv, p) : bits == 16 ? (void*)reduce_dense_row_by_all_pivots_ff_16(d, m, &bs, &pc, pivs, (cf16_t**)dpv, p)
     : small ? (void*)reduce_dense_row_by_all_pivots_17_bit(d, m, &bs, &pc, pivs, (cf32_t**)dpv, p) : (void*)reduce_dense_row_by_all_pivots_31_bit(d, m, &bs, &pc, pivs, (cf32_t**)dpv, p);
  free(d);
  if(!r) return which == 0 || pc == (len_t)-1 ? -1 : -2;
  if(which == 0){ for(j = 0; j < ncr; j++) out[j] = vf_cf(bits, r, j); return 0; }
  if(pc >= (len_t)ncr) return -3;
  for(j = 0; j < ncr - (int)pc; j++) out[pc + j] = vf_cf(bits, r, j);
  return pc; }

/* kernel of the normal forms of the saturation rows */
int vf_sat(uint32_t p, int nc, int ncl, int ns, uint32_t *lens, uint32_t *cols, uint32_t *cfs, uint32_t *out){
  int i, j; bs_t bs, sat, ker; mat_t *m = calloc(1, sizeof(mat_t)); md_t *st = calloc(1, sizeof(md_t)); uint32_t *l2 = lens + ncl; uint32_t *c2 = cfs;
  for(i = 0; i < ncl; i++) c2 += lens[i];
  vf_basis(32, &bs, ncl, lens, cfs); vf_basis(32, &sat, ns, l2, c2); vf_basis(32, &ker, 0, l2, c2);
  st->fc = p; st->nthrds = 1; st->ff_bits = 32; m->nc = nc; m->ncl = ncl; m->nru = ncl; m->ncr = nc - ncl; m->nrl = ns; m->rr = calloc(ncl + 1, sizeof(hm_t*));
  for(i = 0; i < ncl; i++){ m->rr[i] = vf_row(i, i, lens[i], cols); cols += lens[i]; }
  for(i = 0; i < ns; i++){ sat.hm[i] = vf_row(i, i, l2[i], cols); sat.hm[i][MULT] = i; cols += l2[i]; }
  compute_kernel_sat_ff_32(&sat, m, &ker, &bs, st);
  for(i = 0; i < (int)ker.ld; i++){ hm_t *r = ker.hm[i]; for(j = 0; j < (int)r[LENGTH]; j++) out[(size_t)i * ns + r[OFFSET + j]] += ker.cf_32[r[COEFFS]][j]; }
  return ker.ld; }

/*STUBS*/
/* signature based: rows reduced in their order by the rows before them */
int vf_sba(uint32_t p, int nc, int np, uint32_t *lens, uint32_t *cols, uint32_t *cfs, int64_t *dr, int dpiv, uint32_t *out, uint32_t *hdr){
  int i, j; smat_t *m = calloc(1, sizeof(smat_t)); md_t *st = calloc(1, sizeof(md_t)); st->fc = p; m->nc = nc; m->cr = calloc(np + 2, sizeof(hm_t*)); m->cc32 = calloc(np + 2, sizeof(cf32_t*)); m->cld = np + 1;
  hm_t **pivs = calloc(nc + 1, sizeof(hm_t*));
  for(i = 0; i < np; i++){ hm_t *r = calloc(lens[i] + SM_OFFSET, sizeof(hm_t)); r[SM_CFS] = i; r[SM_PRE] = lens[i] % 4; r[SM_LEN] = lens[i]; for(j = 0; j < (int)lens[i]; j++) r[SM_OFFSET + j] = cols[j];
    m->cr[i] = r; m->cc32[i] = vf_mk(32, cfs, lens[i]); pivs[cols[0]] = r; cols += lens[i]; cfs += lens[i]; }
  hm_t *r = sba_reduce_dense_row_by_known_pivots_sparse_31_bit(dr, m, pivs, dpiv, 55, 66, np, st);
  if(!r) return 0;
  if(r != m->cr[np] || r[SM_SMON] != 55 || r[SM_SIDX] != 66 || r[SM_CFS] != (hm_t)np) return -3;
  hdr[0] = r[SM_LEN]; hdr[1] = r[SM_PRE]; for(j = 0; j < (int)r[SM_LEN]; j++) out[r[SM_OFFSET + j]] += m->cc32[np][j];
  return 1; }
"""
PRIMES = [2, 3, 7, 127, 251, 257, 32749, 65521, 65537, 131071, 131101, 262139, 262147, 1048583, 1303905301, 1518500279, 2147483629, 2147483647]
KN = [("31_bit", 2 ** 18, 2 ** 31), ("17_bit", 2 ** 16, 2 ** 18), ("trace 31_bit", 2 ** 18, 2 ** 31), ("trace 17_bit", 2 ** 16, 2 ** 18), ("ff_16", 2, 2 ** 16), ("ff_8", 2, 2 ** 8), ("trace ff_16", 2, 2 ** 16), ("trace ff_8", 2, 2 ** 8)]
KFN = [R + "31_bit", R + "17_bit", "trace_" + R + "31_bit", "trace_" + R + "17_bit", R + "ff_16", R + "ff_8", "trace_" + R + "ff_16", "trace_" + R + "ff_8"]


def rows_in(rng, p, nc, first, dens, lo=None):
    """a row: dictionary column -> coefficient, first column `first` with coefficient 1"""
    hot = rng.random() < .4
    r = {first: 1}
    for c in range(first + 1 if lo is None else lo, nc):
        if c != first and rng.random() < dens:
            r[c] = p - 1 if hot else rng.choice([rng.randrange(1, p), p - 1, 1])
    return r


def elim(row, pivs, p):
    """normal form of a row (dict) with respect to pivot rows {column: row}"""
    r = dict(row)
    for c in sorted(pivs):
        a = r.get(c, 0) % p
        if a:
            for k, v in pivs[c].items():
                r[k] = (r.get(k, 0) - a * v) % p
    return {k: v % p for k, v in r.items() if v % p}


def monic(r, p):
    if not r:
        return r
    i = pow(r[min(r)], -1, p)
    return {k: v * i % p for k, v in r.items()}


def rref(rows, p, pivs=()):
    """reduced echelon form of the normal forms of rows"""
    new = {}
    up = dict(pivs)
    for r in rows:
        r = monic(elim(elim(r, up, p), new, p), p)
        # new pivots are used in increasing column order
        while r and min(r) in new:
            r = monic(elim(r, new, p), p)
        if r:
            new[min(r)] = r
    for c in sorted(new, reverse=True):
        o = {k: v for k, v in new.items() if k > c}
        new[c] = elim(new[c], o, p)
    return new


def flat(rows, order=lambda r: sorted(r)):
    cols, cfs, lens = [], [], []
    for r in rows:
        o = order(r)
        cols += o
        cfs += [r[c] for c in o]
        lens.append(len(o))
    arr = lambda v: (c_uint32 * max(1, len(v)))(*v)
    return arr(lens), arr(cols), arr(cfs)


def from_dense(out, i, nc):
    return {c: out[i * nc + c] for c in range(nc) if out[i * nc + c]}


def headers_ok(rows, hdr, n):
    return all(hdr[2 * i] == len(rows[i]) and hdr[2 * i + 1] == len(rows[i]) % 4 for i in range(n))


def concrete(ctx):
    rng = ctx.rng
    libs = {cfg: ctx.lib("neogb", cfg, [], EXTRA) for cfg in ("none", "avx2", "avx512")}
    S = {}
    for cfg, lib in libs.items():
        S[cfg] = dict(la=lib.sym("vf_la", c_int, c_int, c_int, c_uint32, c_int, c_int, c_int, *[c_void_p] * 8),
                      kern=lib.sym("vf_kern", c_int, c_int, c_uint32, c_int, c_int, c_int, c_void_p, c_void_p, c_void_p, c_void_p, c_int, c_void_p, c_void_p, c_void_p),
                      dense=lib.sym("vf_dense", c_int, c_int, c_int, c_int, c_uint32, c_int, c_int, c_int, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p, c_int, c_void_p),
                      sat=lib.sym("vf_sat", c_int, c_uint32, c_int, c_int, c_int, *[c_void_p] * 4),
                      sba=lib.sym("vf_sba", c_int, c_uint32, c_int, c_int, c_void_p, c_void_p, c_void_p, c_void_p, c_int, c_void_p, c_void_p))
    if S["none"]["kern"] is None:
        return
    cfgs = list(S)

    def show(r):
        return {str(k): v for k, v in sorted(r.items())}

    def one_kernel(kind, cfg, p, nc, ncl, big):
        fn = KFN[kind]
        left = sorted(rng.sample(range(ncl), ncl if rng.random() < .8 else rng.randrange(ncl + 1)))
        left = list(range(ncl))
        right = sorted(c for c in range(ncl, nc) if rng.random() < rng.choice([.1, .5, .9]))
        dens = rng.choice([.15, .5, 1])
        pivs = {c: rows_in(rng, p, nc, c, dens) for c in left + right}
        shuffle = kind not in () and rng.random() < .3

        def order(r):
            o = sorted(r)
            if shuffle:
                t = o[1:]
                rng.shuffle(t)
                o = o[:1] + t
            return o
        rws = [pivs[c] for c in left + right]
        lens, cols, cfs = flat(rws, order)
        top = 1 if not big else rng.choice([p, p * p])
        dpiv = rng.randrange(nc) if rng.random() < .3 else 0
        hi = p if top == 1 else p * p
        row = {c: rng.choice([rng.randrange(hi), hi - 1, p - 1]) for c in range(dpiv, nc) if rng.random() < rng.choice([.3, 1, 1])}
        if kind % 2 == 1 or kind >= 4:
            row = {c: v % p for c, v in row.items()}
        dr = (c_int64 * nc)(*[row.get(c, 0) for c in range(nc)])
        out, hdr, rba = (c_uint32 * nc)(), (c_uint32 * 8)(), (c_uint32 * (ncl // 32 + 2))()
        inp = dict(kernel=KN[kind][0], cfg=cfg, p=p, nc=nc, ncl=ncl, start=dpiv, pivots=[[list(cols)[sum(list(lens)[:i]):][:l], list(cfs)[sum(list(lens)[:i]):][:l]] for i, l in enumerate(list(lens)[:len(rws)])], row=show(row))
        ctx.case(fn, inp)
        r = S[cfg]["kern"](kind, p, nc, ncl, len(rws), lens, cols, cfs, dr, dpiv, out, hdr, rba)
        want = elim(row, pivs, p)
        ctx.check(r == (1 if want else 0), fn, inp, "a row" if want else "no row", r, "a row is returned exactly when the normal form is not zero")
        got = from_dense(out, 0, nc)
        ctx.check(got == want, fn, inp, show(want), show(got), "the row is the normal form modulo the pivots")
        if want:
            ctx.check(hdr[0] == len(want) and hdr[1] == len(want) % 4, fn, inp, [len(want), len(want) % 4], [hdr[0], hdr[1]], "length fields")
            if kind != 4:
                ctx.check((hdr[2], hdr[3]) == (88, 77), fn, inp, [88, 77], [hdr[2], hdr[3]], "origin of the row")
        if kind in (2, 3, 6, 7):
            # which left pivots were used
            used, r_ = set(), dict(row)
            for c in sorted(pivs):
                a = r_.get(c, 0) % p
                if a:
                    if c < ncl:
                        used.add(c)
                    for k, v in pivs[c].items():
                        r_[k] = (r_.get(k, 0) - a * v) % p
            g = {c for c in range(ncl) if rba[c // 32] >> (c % 32) & 1}
            ctx.check(used == g, fn, inp, sorted(used), sorted(g), "reducers recorded for the trace")
    for rep in range(ctx.scale(200, 2000)):
        if not ctx.time_left(.3):
            break
        for kind in range(8):
            for p in rng.sample([q for q in PRIMES if KN[kind][1] <= q < KN[kind][2]], 1):
                nc = rng.choice([1, 2, 5, 9, 17, 18, 33, 40, 70])
                ncl = rng.randrange(nc + 1) if rng.random() < .7 else rng.choice([0, nc])
                for cfg in ([rng.choice(cfgs)] if rep > 6 else cfgs):
                    one_kernel(kind, cfg, p, nc, ncl, rng.random() < .4)

    def matrix(p, nc, ncl, nrl, dens):
        up = {c: rows_in(rng, p, nc, c, dens) for c in range(ncl)}
        if rng.random() < .3:
            # upper rows with entries beyond the left part only
            up = {c: {c: 1, **{k: v for k, v in r.items() if k >= ncl or rng.random() < .2}} for c, r in up.items()}
        low = []
        rk = rng.randrange(1, nrl + 1)
        base = []
        for i in range(nrl):
            if i < rk or not base:
                f = rng.randrange(nc)
                r = rows_in(rng, p, nc, f, dens)
                m = rng.randrange(1, p)
                r = {k: v * m % p for k, v in r.items()}
                base.append(r)
            else:
                # dependent row
                r = {}
                for b in rng.sample(base, min(len(base), 3)) + rng.sample(list(up.values()), min(len(up), 2)):
                    a = rng.randrange(1, p)
                    for k, v in b.items():
                        r[k] = (r.get(k, 0) + a * v) % p
                r = {k: v for k, v in r.items() if v} or dict(base[0])
            low.append(r)
        return up, low

    def one_la(op, laopt, cfg, p, nc, ncl, nrl, dens):
        bits = 8 if p < 256 else 16 if p < 65536 else 32
        if op == 4:
            ncl = 0
            firsts = sorted(rng.sample(range(nc), min(nrl, nc)), reverse=rng.random() < .5)
            low = [rows_in(rng, p, nc, c, dens) for c in firsts]
            up, nrl = {}, len(low)
        else:
            up, low = matrix(p, nc, ncl, nrl, dens)
        fnames = {0: {1: "exact_sparse_dense_linear_algebra", 2: "exact_sparse_linear_algebra", 42: "probabilistic_sparse_dense_linear_algebra", 43: "probabilistic_sparse_dense_linear_algebra_2", 44: "probabilistic_sparse_linear_algebra"}[laopt] if op == 0 else "", 1: "exact_sparse_linear_algebra", 2: "exact_trace_sparse_linear_algebra", 3: "exact_application_sparse_linear_algebra", 4: "interreduce_matrix_rows", 5: "exact_sparse_linear_algebra (normal forms)", 6: "exact_sparse_linear_algebra (final reduction)", 7: "exact_sparse_linear_algebra (learning)", 8: "exact_sparse_linear_algebra (applying)"}
        fn = f"{fnames[op]}_ff_{bits}"
        rws = [up[c] for c in range(ncl)] + low
        lens, cols, cfs = flat(rws)
        mx = max(nc, nrl) + 2
        out, hdr, tri, rri, tl = (c_uint32 * (mx * nc))(), (c_uint32 * (2 * mx))(), (c_uint32 * (2 * nrl + 2))(), (c_uint32 * (2 * ncl + 2))(), (c_uint32 * 2)()
        inp = dict(op=op, laopt=laopt, cfg=cfg, p=p, nc=nc, ncl=ncl, upper=[show(up[c]) for c in range(ncl)], lower=[show(r) for r in low])
        ctx.case(fn, inp)
        n = S[cfg]["la"](op, laopt, p, nc, ncl, nrl, lens, cols, cfs, out, hdr, tri, rri, tl)
        got = [from_dense(out, i, nc) for i in range(max(n, 0))]
        if op == 5:
            want = [elim(r, up, p) for r in low]
            ctx.check(n == nrl and got == want, fn, inp, [show(r) for r in want], [show(r) for r in got], "row i is the normal form of row i")
            return
        want = rref(low, p, up) if op != 4 else rref(low, p)
        if op in (3, 8):
            dep = len(want) < nrl
            ctx.check((n == -1) == dep, fn, inp, "zero reduction reported" if dep else "no zero reduction", n, "a row reducing to zero marks the prime as bad")
            if dep:
                return
        if op == 6:
            want_l, news = [], {}
            # rows in order, each in normal form modulo the ones before
            for r in low:
                q = dict(r)
                while True:
                    q2 = monic(elim(elim(q, up, p), news, p), p)
                    if q2 == q or not q2:
                        q = q2
                        break
                    q = q2
                if q:
                    news[min(q)] = q
                want_l.append(q)
            ctx.check(n == nrl and got == want_l, fn, inp, [show(r) for r in want_l], [show(r) for r in got], "rows reduced by the known pivots")
            return
        prob = laopt in (42, 43, 44) and op == 0
        ws = [want[c] for c in sorted(want)]
        gs = sorted(got, key=lambda r: min(r) if r else -1)
        if prob and p < 2 ** 24:
            # the random combinations may miss rows: what is found must be a reduced basis of a subspace
            ok = all(r and r == monic(r, p) for r in gs) and len({min(r) for r in gs if r}) == len(gs) and all(not elim(r, want, p) for r in gs)
            piv = {min(r) for r in gs if r}
            ok = ok and all(not (set(r) & piv - {min(r)}) for r in gs if r) and all(not any(c < ncl for c in r) for r in gs) and len(gs) <= len(ws)
        else:
            ok = gs == ws
        ctx.check(ok, fn, inp, [show(r) for r in ws], [show(r) for r in gs], "the new rows are the reduced echelon form of the lower part modulo the upper part")
        ctx.check(headers_ok(got, hdr, len(got)), fn, inp, "length fields", list(hdr)[:2 * len(got)], "length fields match the rows")
        if op == 4:
            return
        if op in (2, 7) and bits != 16 or op == 2:
            t = list(tri)[:tl[0]]
            q = list(rri)[:tl[1]]
            if want:
                ctx.check(all(t[2 * i] - 1000 == t[2 * i + 1] - 5000 and 0 <= t[2 * i] - 1000 - ncl < nrl for i in range(len(t) // 2)) and len(t) == 2 * len(want), fn, inp, 2 * len(want), t, "trace names one matrix row per new pivot")
                ctx.check(all(q[2 * i] - 1000 == q[2 * i + 1] - 5000 and 0 <= q[2 * i] - 1000 < ncl for i in range(len(q) // 2)), fn, inp, "reducers", q, "trace names reducer rows")
                kept = [rws[t[2 * i] - 1000] for i in range(len(t) // 2)]
                kup = {q[2 * i] - 1000: up[q[2 * i] - 1000] for i in range(len(q) // 2)}
                again = rref(kept, p, kup)
                ctx.check(again == want, fn, inp, [show(r) for r in ws], [show(again[c]) for c in sorted(again)], "the traced rows and reducers alone give the same echelon form")
    ops = [(0, 1), (0, 2), (0, 42), (0, 43), (0, 44), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (7, 2), (8, 2)]
    for rep in range(ctx.scale(200, 2000)):
        if not ctx.time_left(.75):
            break
        for op, la in ops:
            p = rng.choice(PRIMES)
            if op in (7, 8) and p < 65536 and p > 255:
                p = 2147483647
            nc = rng.choice([2, 3, 6, 12, 25, 40])
            ncl = rng.randrange(0, nc)
            one_la(op, la, rng.choice(cfgs), p, nc, ncl, rng.choice([1, 2, 5, 9, 16]), rng.choice([.1, .4, 1]))

    def one_dense(which, cfg, p):
        bits, sm = rng.choice([b for b in [(8, 0), (16, 0), (32, 1), (32, 0)] if (b[0] == 8 and p < 256) or (b[0] == 16 and p < 65536) or (b == (32, 1) and p < 2 ** 18) or (b == (32, 0))])
        fn = "reduce_dense_row_by_" + ["old_pivots", "dense_new_pivots", "all_pivots"][which] + ("_%d_bit" % (17 if sm else 31) if bits == 32 else f"_ff_{bits}")
        ncr = rng.choice([1, 3, 4, 8, 13, 22])
        ncl = 0 if which == 1 else rng.choice([0, 1, 5, 12])
        nc = ncl + ncr
        dens = rng.choice([.2, .6, 1])
        pv = {c: rows_in(rng, p, nc, c, dens) for c in range(ncl)} if which != 1 else {}
        dv = {c: rows_in(rng, p, nc, c, dens) for c in range(ncl, nc) if rng.random() < .5} if which else {}
        lens, cols, cfs = flat([pv[c] for c in sorted(pv)])
        have = (c_uint32 * ncr)(*[1 if ncl + i in dv else 0 for i in range(ncr)])
        dp = (c_uint32 * (ncr * ncr))()
        for c, r in dv.items():
            for k, v in r.items():
                dp[(c - ncl) * ncr + k - ncl] = v
        start = rng.randrange(ncl + 1 if which == 2 else nc) if rng.random() < .3 else 0
        if which == 0:
            start = min(start, max(ncl - 1, 0))
        row = {c: rng.choice([rng.randrange(p), p - 1]) for c in range(start, nc) if rng.random() < rng.choice([.4, 1])}
        dr = (c_int64 * nc)(*[row.get(c, 0) for c in range(nc)])
        out = (c_uint32 * ncr)()
        inp = dict(cfg=cfg, p=p, nc=nc, ncl=ncl, start=start, sparse=[show(pv[c]) for c in sorted(pv)], dense={str(c): show(r) for c, r in dv.items()}, row=show(row))
        ctx.case(fn, inp)
        r = S[cfg]["dense"](which, bits, sm, p, nc, ncl, len(pv), lens, cols, cfs, have, dp, dr, start, out)
        want = elim(row, {**pv, **dv}, p)
        if which:
            want = monic(want, p)
        exp = -1 if not want else 0 if which == 0 else min(want) - ncl
        ctx.check(r == exp, fn, inp, exp, r, "pivot column of the reduced row")
        if want:
            got = {c + ncl: out[c] for c in range(ncr) if out[c]}
            ctx.check(got == want, fn, inp, show(want), show(got), "the row is the normal form modulo the pivots")

    def one_sat(cfg, p):
        nc = rng.choice([4, 9, 20])
        ncl = rng.randrange(0, nc)
        ns = min(nc, rng.choice([1, 3, 7]))
        up, low = matrix(p, nc, ncl, ns, rng.choice([.2, .6, 1]))
        lens, cols, cfs = flat([up[c] for c in range(ncl)] + low)
        out = (c_uint32 * ((ns + 2) * ns))()
        fn = "compute_kernel_sat_ff_32"
        inp = dict(cfg=cfg, p=p, nc=nc, ncl=ncl, upper=[show(up[c]) for c in range(ncl)], rows=[show(r) for r in low])
        ctx.case(fn, inp)
        n = S[cfg]["sat"](p, nc, ncl, ns, lens, cols, cfs, out)
        nf = [elim(r, up, p) for r in low]
        rk = len(rref(nf, p))
        ctx.check(n == ns - rk, fn, inp, ns - rk, n, "dimension of the kernel")
        ker = [from_dense(out, i, ns) for i in range(n)]
        for v in ker:
            s_ = {}
            for i, a in v.items():
                for k, x in nf[i].items():
                    s_[k] = (s_.get(k, 0) + a * x) % p
            ctx.check(not any(s_.values()), fn, inp, "a relation between the normal forms", show(v), "kernel elements are relations")
        ctx.check(len(rref(ker, p)) == n, fn, inp, n, [show(v) for v in ker], "kernel elements are independent")

    def one_sba(cfg, p):
        nc = rng.choice([2, 7, 15, 30])
        pcs = rng.sample(range(nc), rng.randrange(0, nc))
        pv = {c: rows_in(rng, p, nc, c, rng.choice([.2, 1])) for c in pcs}
        lens, cols, cfs = flat([pv[c] for c in pcs])
        st = rng.randrange(nc)
        row = rows_in(rng, p, nc, st, rng.choice([.3, 1]))
        dr = (c_int64 * nc)(*[row.get(c, 0) for c in range(nc)])
        out, hdr = (c_uint32 * nc)(), (c_uint32 * 2)()
        fn = "sba_" + R + "31_bit"
        inp = dict(cfg=cfg, p=p, nc=nc, pivots=[show(pv[c]) for c in pcs], row=show(row))
        ctx.case(fn, inp)
        r = S[cfg]["sba"](p, nc, len(pcs), lens, cols, cfs, dr, st, out, hdr)
        want = elim(row, pv, p) if st in pv else row
        ctx.check(r == (1 if want else 0), fn, inp, 1 if want else 0, r, "a row is returned exactly when it is not zero")
        got = from_dense(out, 0, nc)
        ctx.check(got == want, fn, inp, show(want), show(got), "the row reduced by the earlier rows")
        if want:
            ctx.check(hdr[0] == len(want) and hdr[1] == len(want) % 4, fn, inp, len(want), list(hdr), "length fields")
    bigp = [p for p in PRIMES if p >= 2 ** 18]
    for rep in range(ctx.scale(1000, 9000)):
        if not ctx.time_left(.95):
            break
        cfg = rng.choice(cfgs)
        for which in range(3):
            one_dense(which, cfg, rng.choice(PRIMES))
        if S[cfg]["sat"]:
            one_sat(cfg, rng.choice(bigp))
        if S[cfg]["sba"]:
            one_sba(cfg, rng.choice(bigp))
