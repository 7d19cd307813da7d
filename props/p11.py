"""P11 FGLM: products with the multiplication matrix are exact mod p; parametrisations hold at every solution."""
from common import *

F = "src/fglm/linalg-fglm.c"
FC = "src/fglm/fglm_core.c"
PMAX = 1518500212
j, i = z3.Ints("j i")
# DOT(b, i): sum of mat[b + k] * vec[k] over k < i
DOT = z3.Function("dot", z3.IntSort(), z3.IntSort(), z3.IntSort())
isdot = z3.Function("isdot", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def M(s, k):
    return Sel(s.old.arr("mat"), s.off("mat") + k)


def V(s, k):
    return Sel(s.old.arr("vec"), s.off("vec") + k)


def p(s):
    return s.v("PRIME")


def red(s):
    """entries are residues"""
    return [Named("matrix reduced", ForAll(j, And(Sel(s.arr("mat"), j) >= 0, Sel(s.arr("mat"), j) < p(s)), Sel(s.arr("mat"), j))),
            Named("vector reduced", ForAll(j, And(Sel(s.arr("vec"), j) >= 0, Sel(s.arr("vec"), j) < p(s)), Sel(s.arr("vec"), j)))]


def mv_pre(s):
    return [p(s) > 1, p(s) <= PMAX, s.v("nrows") >= 0, s.v("ncols") >= 0, s.v("nrows") * s.v("ncols") <= 2 ** 32 - 1,
            s.v("ncols") < 2 ** 31, s.v("nrows") < 2 ** 31] + red(s)


def entry(s, r, val, n):
    """val is row r times the vector, reduced"""
    return Abs(isdot(val, r), [Named("reduced", And(val >= 0, val < p(s))), Named("row times vector", Cong(val, DOT(r * s.v("ncols"), n), p(s)))])


def defs(s):
    return []


def step_rows(rows, width):
    def unfold(s):
        out = []
        nc, jj, ii = s.v("ncols"), s.v("j"), s.v("i")
        for r in range(rows):
            b = (jj + r) * nc
            out.append(Eq(DOT(b, I(0)), I(0)))
            for k in range(width):
                out.append(Eq(DOT(b, ii + k + 1), DOT(b, ii + k) + M(s, b + ii + k) * V(s, ii + k)))
        return out

    def inv(s):
        nc, jj, ii, nr = s.v("ncols"), s.v("j"), s.v("i"), s.v("nrows")
        out = [And(ii >= 0, ii <= nc, jj >= 0), Named("rows left", jj + rows <= nr),
               Named("in the matrix", jj * nc + rows * nc <= nr * nc), Named("nonneg", jj * nc >= 0)]
        for r in range(1, rows):
            out.append(Named(f"row {r} in the matrix", And((jj + r) * nc == jj * nc + r * nc, (jj + r) * nc + nc <= nr * nc)))
        if width > 1:
            out.append(ii % width == 0)
        for r in range(rows):
            b = (jj + r) * nc
            x = s.v(f"prod{r + 1}")
            out += [And(x >= 0, x < p(s) * p(s)), Named(f"partial sum {r}", Cong(x, -DOT(b, ii), p(s)))]
        return out + kept(s)
    def headl(s):
        nc, jj, ii, P = s.v("ncols"), s.v("j"), s.v("i"), p(s)
        out = [Named("one product", And((P - 1) * (P - 1) == P * P - 2 * P + 1, P * P >= 2 * P, P * P <= PMAX * PMAX))]
        for r in range(rows):
            for k in range(width):
                m, v = M(s, (jj + r) * nc + ii + k), V(s, ii + k)
                out.append(Named(f"product {r},{k}", And(m * v >= 0, m * v < P * P)))
        return out
    return Loop(inv=inv, unfold=unfold, headlemmas=headl, dec=lambda s: s.v("ncols") - s.v("i"))


def res(s, k):
    return Sel(s.narr("vec_res"), k)


def kept(s):
    return []


def rowsdone(s):
    b = s.off("vec_res")
    return [Named("rows done", ForAll(j, Implies(And(j >= b, j < b + s.v("j")), isdot(Sel(s.narr("vec_res"), j), j - b)), Sel(s.narr("vec_res"), j)))]


def outer(rows):
    def hints(s):
        h = s.head.v("j")
        nc = s.v("ncols")
        return [Named("all columns", s.v("i") == nc)] + [Named(f"row {r} ends", Eq(DOT((h + r) * nc, s.v("i")), DOT((h + r) * nc, nc))) for r in range(rows)] + [
            Named(f"stored {r}", Eq(res(s, s.off("vec_res") + h + r), z3.simplify(Sel(s.arr("vec_res"), s.off("vec_res") + h + r)))) for r in range(rows)] + [entry(s, h + r, res(s, s.off("vec_res") + h + r), s.v("ncols")) for r in range(rows)]
    return Loop(inv=lambda s: [And(s.v("j") >= 0, s.v("j") <= s.v("nrows"))] + ([s.v("j") % 4 == 0] if rows == 4 else []) + rowsdone(s),
                dec=lambda s: s.v("nrows") - s.v("j"), hints=hints)


non_avx = Contract("non_avx_matrix_vector_product", "fglm", F, requires=mv_pre, defs=defs,
                   ensures=lambda s: [Named("every entry", ForAll(j, Implies(And(j >= s.off("vec_res"), j < s.off("vec_res") + s.v("nrows")), isdot(Sel(s.narr("vec_res"), j), j - s.off("vec_res"))), Sel(s.narr("vec_res"), j)))],
                   arrays=("vec_res", "mat", "vec"), assigns=[("vec_res",)],
                   loops={0: outer(4), 1: step_rows(4, 8), 2: step_rows(4, 1), 3: outer(1), 4: step_rows(1, 8), 5: step_rows(1, 1)})


# ------------------------------------------------------------ AVX2
def cols(s, r):
    """columns of row r that take part: the last dst[r] entries are zero"""
    return s.v("ncols") - Sel(s.old.arr("dst"), s.off("dst") + r)


def avx_pre(s):
    P = p(s)
    return mv_pre(s) + [Named("RED_32", Cong(s.v("RED_32"), I(2 ** 32), P)), Named("RED_64", Cong(s.v("RED_64"), I(2 ** 64), P)),
                        And(s.v("RED_32") >= 0, s.v("RED_32") < P, s.v("RED_64") >= 0, s.v("RED_64") < P),
                        Named("dst", ForAll(j, And(Sel(s.arr("dst"), j) >= 0, Sel(s.arr("dst"), j) <= s.v("ncols")), Sel(s.arr("dst"), j)))]


def row_inv(s):
    nc, nr, jj = s.v("ncols"), s.v("nrows"), s.v("j")
    return [And(jj >= 0, jj < nr), Named("in the matrix", And(jj * nc + nc <= nr * nc, jj * nc >= 0))]


def avx_block():
    W = 32

    def base(s):
        return s.v("j") * s.v("ncols")

    def unfold(s):
        out = [Eq(DOT(base(s), I(0)), I(0))]
        for k in range(W):
            ii = W * s.v("i")
            out.append(Eq(DOT(base(s), ii + k + 1), DOT(base(s), ii + k) + M(s, base(s) + ii + k) * V(s, ii + k)))
        return out

    def lanes(s, n):
        return [s.v(n).lane(l) for l in range(4)]

    def inv(s):
        ii = s.v("i")
        lo, hi = lanes(s, "acc_low"), lanes(s, "acc_high")
        return row_inv(s) + [And(ii >= 0, ii <= s.v("bs"), s.v("bs") < 2 ** 26),
                             s.off("mat_cp") == s.off("mat") + base(s) + W * ii, s.off("vec_cp") == s.off("vec") + W * ii,
                             And(*[And(x >= 0, x <= 2 * ii * (2 ** 32 - 1)) for x in lo + hi]),
                             Named("partial sum", Eq(lo[0], DOT(base(s), W * ii) - sum(lo[1:]) - 2 ** 32 * sum(hi)))]

    def headl(s):
        P = p(s)
        out = [Named("one product", And((P - 1) * (P - 1) == P * P - 2 * P + 1, P * P >= 2 * P, P * P <= PMAX * PMAX))]
        for k in range(W):
            m, v = M(s, base(s) + W * s.v("i") + k), V(s, W * s.v("i") + k)
            out.append(Named(f"product {k}", And(m * v >= 0, m * v < P * P)))
        return out
    return Loop(inv=inv, unfold=unfold, headlemmas=headl, dec=lambda s: s.v("bs") - s.v("i"),
                exitlemmas=lambda s: [Named("all blocks", s.v("i") == s.v("bs")), Named("end of the blocks", Eq(DOT(base(s), W * s.v("i")), DOT(base(s), W * s.v("bs"))))])


isdot2 = z3.Function("isdot2", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def tail():
    def base(s):
        return s.v("j") * s.v("ncols")

    def cell(s):
        return res(s, s.off("vec_res") + s.v("j"))

    def pre(s):
        raw = z3.simplify(Sel(s.arr("vec_res"), s.off("vec_res") + s.v("j")))
        return [Named("blocks stored", Eq(cell(s), raw)),
                Named("blocks reduced", And(raw >= 0, raw < p(s))),
                Named("columns", And(s.v("quo") * 32 + s.v("rem") == s.v("local_ncols"), s.v("local_ncols") == cols(s, s.v("j")), s.v("rem") >= 0, s.v("rem") < 32, s.v("quo") >= 0)),
                s.v("bs") == s.v("quo"),
                Named("sum of the blocks", Cong(raw, DOT(base(s), 32 * s.v("bs")), p(s)))]

    def unfold(s):
        n = 32 * s.v("bs") + s.v("k")
        return [Eq(DOT(base(s), n + 1), DOT(base(s), n) + M(s, base(s) + n) * V(s, n))]

    def inv(s):
        n = 32 * s.v("bs") + s.v("k")
        return row_inv(s) + [And(s.v("k") >= 0, s.v("k") <= s.v("rem"), s.v("rem") < 32), s.off("mat_cp") == s.off("mat") + base(s) + 32 * s.v("bs"), s.off("vec_cp") == s.off("vec") + 32 * s.v("bs"),
                             And(s.v("tmp") >= 0, s.v("tmp") <= s.v("k") * (p(s) - 1), s.v("tmp") <= 32 * PMAX),
                             Named("tail sum", Cong(s.v("tmp"), DOT(base(s), n) - DOT(base(s), 32 * s.v("bs")), p(s)))]

    def headl(s):
        P, n = p(s), 32 * s.v("bs") + s.v("k")
        m, v = M(s, base(s) + n), V(s, n)
        return [Named("one product", And((P - 1) * (P - 1) == P * P - 2 * P + 1, P * P >= 2 * P, P * P <= PMAX * PMAX)), Named("product", And(m * v >= 0, m * v < P * P)),
                Named("bound", And(s.v("k") * (P - 1) + P - 1 == (s.v("k") + 1) * (P - 1), Implies(s.v("k") <= 31, s.v("k") * (P - 1) <= 31 * (P - 1))))]
    return Loop(inv=inv, unfold=unfold, pre=pre, headlemmas=headl, dec=lambda s: s.v("rem") - s.v("k"))


def avx_row():
    def hints(s):
        h = s.head.v("j")
        b, k = h * s.v("ncols"), s.off("vec_res") + h
        raw = z3.simplify(Sel(s.arr("vec_res"), k))
        return [Named("columns taken", 32 * s.v("bs") + s.v("rem") == cols(s, h)),
                Named("stored", Eq(res(s, k), raw)),
                Named("row ends", Eq(DOT(b, 32 * s.v("bs") + s.v("rem")), DOT(b, cols(s, h)))),
                Abs(isdot2(res(s, k), h), [Named("reduced", And(res(s, k) >= 0, res(s, k) < p(s))), Named("row times vector", Cong(res(s, k), DOT(b, cols(s, h)), p(s)))])]

    def inv(s):
        b = s.off("vec_res")
        return [And(s.v("j") >= 0, s.v("j") <= s.v("nrows")), Named("rows done", ForAll(j, Implies(And(j >= b, j < b + s.v("j")), isdot2(Sel(s.narr("vec_res"), j), j - b)), Sel(s.narr("vec_res"), j)))]
    return Loop(inv=inv, hints=hints, dec=lambda s: s.v("nrows") - s.v("j"))


avx = Contract("_8mul_matrix_vector_product", "fglm", F, cfgs=("avx2",), requires=avx_pre,
               ensures=lambda s: [Named("every entry", ForAll(j, Implies(And(j >= s.off("vec_res"), j < s.off("vec_res") + s.v("nrows")), isdot2(Sel(s.narr("vec_res"), j), j - s.off("vec_res"))), Sel(s.narr("vec_res"), j)))],
               arrays=("vec_res", "mat", "vec", "dst"), assigns=[("vec_res",)],
               loops={0: avx_row(), 1: avx_block(), 3: tail()}, unroll=(2,))


# ------------------------------------------------------------ whole matrix
i1, i2 = z3.Ints("i1 i2")


def matvec(name, colon, cfg):
    def fldm(s, n):
        return s.old.mem("mat", n)

    def ntriv(s):
        n = s.old.f("mat", "ncols") - s.old.f("mat", "nrows")
        return n - s.old.f("mat", "nzero") if colon else n

    groups = [("triv", "triv_idx", ntriv), ("dense", "dense_idx", lambda s: s.old.f("mat", "nrows"))]
    if colon:
        groups.insert(1, ("zero", "zero_idx", lambda s: s.old.f("mat", "nzero")))

    def value(s, g, i):
        if g == "triv":
            return Sel(s.old.arr("vec"), s.off("vec") + Sel(fldm(s, "triv_pos"), i))
        if g == "zero":
            return I(0)
        return Sel(s.narr("vres"), s.off("vres") + i)

    def out(s, x):
        return Sel(s.narr("res"), s.off("res") + x)

    def group(s, n, hi):
        g, f, cnt = groups[n]
        x = Sel(fldm(s, f), i1)
        pats = [x]
        return Named(f"{g} rows", ForAll(i1, Implies(And(i1 >= 0, i1 < hi), out(s, x) == value(s, g, i1)), x))

    def pre(s):
        P = s.v("prime")
        o = [P > 1, P <= PMAX, And(s.f("mat", "nrows") >= 0, s.f("mat", "ncols") >= s.f("mat", "nrows"), ntriv(s) >= 0, s.f("mat", "ncols") < 2 ** 31, s.f("mat", "nrows") * s.f("mat", "ncols") < 2 ** 32)]
        for a, (g, f, c) in enumerate(groups):
            o.append(Named(f"{f} distinct", ForAll([i1, i2], Implies(And(i1 >= 0, i1 < i2, i2 < c(s)), Sel(fldm(s, f), i1) != Sel(fldm(s, f), i2)), z3.MultiPattern(Sel(fldm(s, f), i1), Sel(fldm(s, f), i2)))))
            for g2, f2, c2 in groups[a + 1:]:
                o.append(Named(f"{f} and {f2} disjoint", ForAll([i1, i2], Implies(And(i1 >= 0, i1 < c(s), i2 >= 0, i2 < c2(s)), Sel(fldm(s, f), i1) != Sel(fldm(s, f2), i2)), z3.MultiPattern(Sel(fldm(s, f), i1), Sel(fldm(s, f2), i2)))))
        dm = s.mem("mat", "dense_mat")
        o += [Named("matrix reduced", ForAll(j, And(Sel(dm, j) >= 0, Sel(dm, j) < P), Sel(dm, j))),
              Named("vector reduced", ForAll(j, And(Sel(s.arr("vec"), j) >= 0, Sel(s.arr("vec"), j) < P), Sel(s.arr("vec"), j)))]
        if cfg == "avx2":
            ds = s.mem("mat", "dst")
            o += [Named("RED_32", Cong(s.v("RED_32"), I(2 ** 32), P)), Named("RED_64", Cong(s.v("RED_64"), I(2 ** 64), P)),
                  And(s.v("RED_32") >= 0, s.v("RED_32") < P, s.v("RED_64") >= 0, s.v("RED_64") < P),
                  Named("dst", ForAll(j, And(Sel(ds, j) >= 0, Sel(ds, j) <= s.f("mat", "ncols")), Sel(ds, j)))]
        return o

    def ens(s):
        rel = isdot2 if cfg == "avx2" else isdot
        return [group(s, n, groups[n][2](s)) for n in range(len(groups))] + [
            Named("dense values", ForAll(i1, Implies(And(i1 >= 0, i1 < s.old.f("mat", "nrows")), rel(Sel(s.narr("vres"), s.off("vres") + i1), i1)), Sel(s.narr("vres"), s.off("vres") + i1)))]

    def loop(n):
        return Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= groups[n][2](s))] + [group(s, m, groups[m][2](s)) for m in range(n)] + [group(s, n, s.v("i"))],
                    dec=lambda s: groups[n][2](s) - s.v("i"))
    return Contract(name, "fglm", FC, cfgs=(cfg,), requires=pre, ensures=ens, arrays=("res", "vec", "vres"), assigns=[("res",), ("vres",)],
                    loops={n: loop(n) for n in range(len(groups))})


CONTRACTS = [non_avx, avx] + [matvec(n, c, g) for g in ("avx2", "none") for n, c in (("sparse_mat_fglm_mult_vec", 0), ("sparse_mat_fglm_colon_mult_vec", 1))]

BOUND = ("kernels: matrices up to 140 columns, primes up to 1518500212; whole change of order: up to 4 variables and 26 solutions, "
         "with linear variables, multiple points and non-generic coordinates")
ASSUMPTIONS = ["FLINT polynomial arithmetic, Berlekamp-Massey and Euclid are correct (replayed end to end, not proved)",
               "matrix and vector entries are residues; the last dst[r] entries of dense row r are zero (established by the matrix builders)",
               "the random linear form does not vanish on the ideal (probability about degree/prime)",
               "a CPU with AVX2 executes the intrinsics as documented"]
EXTRA = r"""
double realtime(void){ return 0; } double cputime(void){ return 0; }
/*STUBS*/
#define GET_MAT(T) T *vf_mat_##T(uint32_t nc, uint32_t nr, uint32_t nz, uint32_t *dm, uint32_t *ti, uint32_t *tp, uint32_t *di, uint32_t *zi, uint32_t *dst){ \
  T *m = calloc(1, sizeof(T)); uint32_t nt = nc - nr - nz, i; m->ncols = nc; m->nrows = nr; \
  posix_memalign((void **)&m->dense_mat, 32, 4 * ((uint64_t)nc * nr + 64)); memcpy(m->dense_mat, dm, 4ul * nc * nr); \
  m->triv_idx = calloc(nt + 1, 4); m->triv_pos = calloc(nt + 1, 4); m->dense_idx = calloc(nr + 1, 4); m->dst = calloc(nr + 1, 4); \
  memcpy(m->triv_idx, ti, 4 * nt); memcpy(m->triv_pos, tp, 4 * nt); memcpy(m->dense_idx, di, 4 * nr); memcpy(m->dst, dst, 4 * nr); return m; }
GET_MAT(sp_matfglm_t)
GET_MAT(sp_matfglmcol_t)
#define FREE_MAT(T) void vf_free_##T(T *m){ free(m->dense_mat); free(m->triv_idx); free(m->triv_pos); free(m->dense_idx); free(m->dst); free(m); }
FREE_MAT(sp_matfglm_t)
FREE_MAT(sp_matfglmcol_t)
void vf_prod(int which, uint32_t *out, uint32_t *mat, uint32_t *vec, uint32_t *dst, uint32_t nc, uint32_t nr, uint32_t p, int th){
  md_t st; memset(&st, 0, sizeof st); st.nthrds = th; uint32_t r32 = ((uint64_t)2 << 31) % p, r64 = ((uint64_t)1 << 63) % p; r64 = ((uint64_t)r64 * 2) % p;
  if(which == 0) non_avx_matrix_vector_product(out, mat, vec, nc, nr, p, r32, r64, &st);
#ifdef HAVE_AVX2
  if(which == 1) _8mul_matrix_vector_product(out, mat, vec, dst, nc, nr, p, r32, r64, 0, &st);
#endif
}
void vf_multvec(int colon, void *m, uint32_t *res, uint32_t *vec, uint32_t *zi, uint32_t nz, uint32_t p, int th){
  md_t st; memset(&st, 0, sizeof st); st.nthrds = th; uint32_t r32 = ((uint64_t)2 << 31) % p, r64 = ((uint64_t)1 << 63) % p; r64 = ((uint64_t)r64 * 2) % p;
  if(colon){ sp_matfglmcol_t *c = m; c->nzero = nz; c->zero_idx = zi; uint32_t *v = calloc(c->nrows + 8, 4);
    sparse_mat_fglm_colon_mult_vec(res, c, vec, v, p, r32, r64, 0, 0, 0, &st); free(v); }
  else { sp_matfglm_t *c = m; uint32_t *v = calloc(c->nrows + 8, 4); sparse_mat_fglm_mult_vec(res, c, vec, v, p, r32, r64, 0, 0, 0, &st); free(v); }
}
static void put_poly(uint64_t **o, nmod_poly_t q){ int i; *(*o)++ = q->length; for(i = 0; i < q->length; i++) *(*o)++ = q->coeffs[i]; }
static void put_param(uint64_t *o, param_t *q){ int i; *o++ = q->charac; put_poly(&o, q->elim); put_poly(&o, q->denom); for(i = 0; i < q->nvars - 1; i++) put_poly(&o, q->coords[i]); }
typedef struct { param_t *p; fglm_data_t *d; fglm_bms_data_t *b; int succ; } vf_run;
vf_run *vf_trace(sp_matfglm_t *m, uint32_t p, int nv, int bs, int nl, int32_t *lin, uint32_t *le, int32_t *sq, int th, uint64_t *out){
  md_t st; memset(&st, 0, sizeof st); st.nthrds = th; vf_run *r = calloc(1, sizeof *r); r->succ = 1;
  m->charac = p;
  r->p = nmod_fglm_compute_trace_data(m, p, nv, bs, nl, lin, le, sq, 0, &r->d, &r->b, &r->succ, &st);
  if(r->p) put_param(out, r->p);
  return r; }
int vf_state(vf_run *r, int k){ return k ? r->succ : r->p != 0; }
int vf_apply(vf_run *r, sp_matfglm_t *m, uint32_t p, int nv, int bs, int nl, int32_t *lin, uint32_t *le, int32_t *sq, int deg, int th, uint64_t *out){
  md_t st; memset(&st, 0, sizeof st); st.nthrds = th; m->charac = p;
  int e = nmod_fglm_compute_apply_trace_data(m, p, r->p, nv, bs, nl, lin, le, sq, r->d, r->b, deg, 0, &st);
  put_param(out, r->p); return e; }
int vf_mirror(uint64_t p, uint64_t *v, int n, int len, uint64_t *out){ nmod_poly_t a, b; int i; nmod_poly_init(a, p); nmod_poly_init2(b, p, 2);
  for(i = 0; i < n; i++) nmod_poly_set_coeff_ui(a, i, v[i]); mirror_poly_solve(b, a, len); for(i = 0; i < b->length; i++) out[i] = b->coeffs[i]; i = b->length; return i; }
void vf_colon(sp_matfglmcol_t *m, uint32_t *zi, uint32_t nz, uint32_t p, int nv, int nl, uint32_t *left, uint32_t *lp, int32_t *lin, uint32_t *le, int32_t *sq, int th, uint64_t *out){
  md_t st; memset(&st, 0, sizeof st); st.nthrds = th; m->charac = p; m->nzero = nz; m->zero_idx = zi; uint32_t *l[64]; int i;
  for(i = 0; i < 2 * (nv - 1); i++) l[i] = lp + (uint64_t)i * m->ncols;
  param_t *q = nmod_fglm_guess_colon(m, p, left, l, nv, nl, lin, le, sq, 0, &st);
  out[0] = 0; if(q) put_param(out, q); }
"""
FLAGS = ()


def u32(v):
    return (c_uint32 * max(1, len(v)))(*v)


def i32(v):
    return (c_int32 * max(1, len(v)))(*v)


def al32(n):
    """uint32 buffer aligned to 32 bytes"""
    raw = (c_uint32 * (n + 80))()
    o = (-ctypes.addressof(raw) % 32) // 4
    return (c_uint32 * (n + 64)).from_buffer(raw, 4 * o)


PRIMES = [2, 3, 65521, 1073741827, 1303905299, 1518500173, 1518500183, 1147878287, 7, 536870909]


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    for a in (2, 3, 5, 7, 11, 13, 17):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def big_prime(rng):
    while True:
        q = rng.randrange(1 << 29, PMAX + 1)
        if is_prime(q):
            return q


class Lib11:
    def __init__(s, lib):
        P = c_void_p
        sg = dict(prod=(None, c_int, P, P, P, P, c_uint32, c_uint32, c_uint32, c_int), multvec=(None, c_int, P, P, P, P, c_uint32, c_uint32, c_int),
                  mat_sp_matfglm_t=(P, c_uint32, c_uint32, c_uint32, P, P, P, P, P, P), mat_sp_matfglmcol_t=(P, c_uint32, c_uint32, c_uint32, P, P, P, P, P, P),
                  free_sp_matfglm_t=(None, P), free_sp_matfglmcol_t=(None, P), trace=(P, P, c_uint32, c_int, c_int, c_int, P, P, P, c_int, P), state=(c_int, P, c_int),
                  apply=(c_int, P, P, c_uint32, c_int, c_int, c_int, P, P, P, c_int, c_int, P), mirror=(c_int, c_uint64, P, c_int, c_int, P),
                  colon=(None, P, P, c_uint32, c_uint32, c_int, c_int, P, P, P, P, P, c_int, P))
        for n, a in sg.items():
            setattr(s, n, lib.sym("vf_" + n, *a))
        s.ok = s.prod is not None


def kernels(ctx, L, avx):
    rng = ctx.rng
    for rep in range(ctx.scale(500, 6000)):
        if not ctx.time_left(.45):
            break
        P = rng.choice(PRIMES + [PMAX - 39]) if rep % 3 else big_prime(rng)
        while not is_prime(P):
            P -= 1
        nc = rng.choice([0, 1, 2, 7, 8, 9, 15, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, rng.randrange(1, 140)])
        nr = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, rng.randrange(1, 20)])
        style = rng.randrange(4)
        gen = {0: lambda: rng.randrange(P), 1: lambda: P - 1, 2: lambda: rng.choice([0, 1, P - 1]), 3: lambda: rng.randrange(max(0, P - 3), P)}[style]
        dst = []
        mat = []
        for _ in range(nr):
            z = rng.choice([0, 0, rng.randrange(nc + 1), nc, min(nc, 32), min(nc, 1)])
            dst.append(z if rng.random() < .9 else 0)
            mat.append([gen() for _ in range(nc - z)] + [0] * z)
        vec = [gen() for _ in range(nc)]
        m, v = al32(nr * nc), al32(nc)
        for k, x in enumerate(x for r in mat for x in r):
            m[k] = x
        for k, x in enumerate(vec):
            v[k] = x
        want = [sum(a * b for a, b in zip(r, vec)) % P for r in mat]
        for w, fn in ((0, "non_avx_matrix_vector_product"),) + (((1, "_8mul_matrix_vector_product"),) if avx else ()):
            out = al32(nr + 1)
            out[nr] = 12345
            inp = dict(p=P, ncols=nc, nrows=nr, dst=dst, style=style, vec=vec if nc < 20 else vec[:20] + ["..."], mat=mat if nr * nc < 60 else "seeded")
            ctx.case(fn, inp)
            L.prod(w, out, m, v, u32(dst), nc, nr, P, rng.choice([1, 1, 2, 3]))
            ctx.check(list(out)[:nr] == want and out[nr] == 12345, fn, inp, want, list(out)[:nr + 1], "the product modulo p")
        # the whole matrix
        nz = rng.randrange(0, 4)
        nt = rng.randrange(0, max(1, nc - nr - nz + 1))
        if nr + nz <= nc:
            for colon, fn in ((0, "sparse_mat_fglm_mult_vec"), (1, "sparse_mat_fglm_colon_mult_vec")):
                z = nz if colon else 0
                perm = list(range(nc))
                rng.shuffle(perm)
                nt = nc - nr - z
                ti, di, zi = perm[:nt], perm[nt:nt + nr], perm[nt + nr:]
                tp = [rng.randrange(nc) for _ in ti]
                mt = (L.mat_sp_matfglmcol_t if colon else L.mat_sp_matfglm_t)(nc, nr, z, m, u32(ti), u32(tp), u32(di), u32(zi), u32(dst))
                res_ = al32(nc)
                for k in range(nc):
                    res_[k] = 777
                full = [0] * nc
                for a, b in zip(ti, tp):
                    full[a] = vec[b]
                for a, b in zip(di, want):
                    full[a] = b
                inp = dict(p=P, ncols=nc, nrows=nr, triv_idx=ti[:20], triv_pos=tp[:20], dense_idx=di, zero_idx=zi)
                ctx.case(fn, inp)
                L.multvec(colon, mt, res_, v, u32(zi), z, P, 1)
                ctx.check(list(res_)[:nc] == full, fn, inp, full, list(res_)[:nc], "every coordinate of the product")
                (L.free_sp_matfglmcol_t if colon else L.free_sp_matfglm_t)(mt)
        n, ln = rng.randrange(0, 9), rng.randrange(1, 12)
        a = [rng.randrange(1, P) if P > 2 else 1 for _ in range(n)]
        out = (c_uint64 * 64)()
        inp = dict(poly=a, length=ln)
        ctx.case("mirror_poly_solve", inp)
        r = L.mirror(P, (c_uint64 * max(1, n))(*a), n, ln, out)
        w = ([a[k] if k < n else 0 for k in range(ln)])[::-1]
        ctx.check(r == ln and list(out)[:ln] == w, "mirror_poly_solve", inp, w, list(out)[:max(r, 0)], "coefficients reversed in the given length")


# ------------------------------------------------------------ zero-dimensional algebras given by their solutions
def solve_mod(A, P):
    """inverse of the square matrix A modulo P, or None"""
    n = len(A)
    M_ = [list(r) + [int(i == k) for k in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        pr = next((r for r in range(c, n) if M_[r][c] % P), None)
        if pr is None:
            return None
        M_[c], M_[pr] = M_[pr], M_[c]
        iv = pow(M_[c][c], -1, P)
        M_[c] = [x * iv % P for x in M_[c]]
        for r in range(n):
            if r != c and M_[r][c]:
                f = M_[r][c]
                M_[r] = [(x - f * y) % P for x, y in zip(M_[r], M_[c])]
    return [r[n:] for r in M_]


def drl(m):
    return (sum(m), tuple(-x for x in reversed(m)))


class Alg:
    """F_p[x]/I where I is the ideal of functions killed by point evaluations (and first derivatives at fat points)"""

    def __init__(s, pts, fat, P):
        # fat[i]: list of direction vectors v: f -> D_v f(point i)
        s.P, s.n, s.pts, s.fat = P, len(pts[0]), pts, fat
        s.ok = s.build()

    def ev(s, m):
        P = s.P
        out = []
        for q, dirs in zip(s.pts, s.fat):
            x = 1
            for a, e in zip(q, m):
                x = x * pow(a, e, P) % P
            out.append(x)
            for d in dirs:
                t = 0
                for k in range(s.n):
                    if m[k]:
                        y = m[k] * pow(q[k], m[k] - 1, P) * d[k]
                        for l in range(s.n):
                            if l != k:
                                y = y * pow(q[l], m[l], P)
                        t += y
                out.append(t % P)
        return out

    def build(s):
        P, n = s.P, s.n
        D = sum(1 + len(d) for d in s.fat)
        # staircase for the degree reverse lexicographic order, smallest monomials first
        B, rows, piv, lead = [], [], [], []
        deg = 0
        while len(B) < D and deg <= D:
            def comps(k, d):
                if k == 1:
                    yield (d,)
                    return
                for a in range(d + 1):
                    for r in comps(k - 1, d - a):
                        yield (a,) + r
            for m in sorted(comps(n, deg), key=drl):
                if any(all(a >= b for a, b in zip(m, l)) for l in lead):
                    continue
                v = s.ev(m)
                w = list(v)
                for r, c in zip(rows, piv):
                    if w[c]:
                        f = w[c]
                        w = [(x - f * y) % P for x, y in zip(w, r)]
                c = next((i for i, x in enumerate(w) if x), None)
                if c is None:
                    lead.append(m)
                    continue
                iv = pow(w[c], -1, P)
                w = [x * iv % P for x in w]
                rows.append(w)
                piv.append(c)
                B.append(m)
            deg += 1
        if len(B) < D:
            return False
        s.B, s.D = B, D
        s.pos = {m: i for i, m in enumerate(B)}
        s.E = [s.ev(m) for m in B]
        s.inv = solve_mod([list(c) for c in zip(*s.E)], P)
        return s.inv is not None

    def nf(s, m):
        v = s.ev(m)
        return [sum(a * b for a, b in zip(r, v)) % s.P for r in s.inv]

    def matrix(s):
        """multiplication by the last variable, as the change of order stores it"""
        ti, tp, di, dm, dst = [], [], [], [], []
        for i, b in enumerate(s.B):
            m = b[:-1] + (b[-1] + 1,)
            if m in s.pos:
                ti.append(i)
                tp.append(s.pos[m])
            else:
                r = s.nf(m)
                di.append(i)
                dm += r
                k = 0
                while k < s.D and r[s.D - 1 - k] == 0:
                    k += 1
                dst.append(k)
        return ti, tp, di, dm, dst

    def extra(s):
        n = s.n
        var = [tuple(int(i == k) for i in range(n)) for k in range(n)]
        lin = [0 if var[k] in s.pos else 1 for k in range(n)]
        le = []
        for k in range(n):
            if lin[k]:
                c = s.nf(var[k])
                row = [0] * (n + 1)
                row[k] = 1
                for m in range(n):
                    if var[m] in s.pos:
                        row[m] = -c[s.pos[var[m]]] % s.P
                row[n] = -c[s.pos[(0,) * n]] % s.P
                le += row
        sq = [s.pos.get(tuple(2 * int(i == k) for i in range(n)), 0) for k in range(n - 1)]
        return lin, le, sq


def peval(c, x, P):
    r = 0
    for a in reversed(c):
        r = (r * x + a) % P
    return r


def parse(out, n):
    o = 0
    v = []
    ch = out[0]
    o = 1
    for _ in range(n + 1):
        ln = out[o]
        if ln > 500:
            return None
        v.append([out[o + 1 + k] for k in range(ln)])
        o += 1 + ln
    return ch, v[0], v[1], v[2:]


def random_alg(rng, P, n, D, kind):
    small = rng.random() < .3
    val = lambda: rng.randrange(P)
    pts = []
    for i in range(D):
        q = [rng.randrange(-3, 4) % P if small else val() for _ in range(n)]
        q[-1] = (i * 7 + 1) % P if small else val()
        pts.append(q)
    if kind == "zero":
        pts[0][-1] = 0
    if kind == "linear" and n > 1:
        ks = rng.sample(range(n - 1), rng.randrange(1, n))
        for k in ks:
            co = [val() if m > k and m not in ks else 0 for m in range(n)]
            c0 = val()
            for q in pts:
                q[k] = (sum(a * b for a, b in zip(co, q)) + c0) % P
    if kind == "collide" and D > 1 and n > 1:
        pts[1][-1] = pts[0][-1]
    fat = [[] for _ in pts]
    if kind == "fat":
        for i in range(D):
            if rng.random() < .4:
                d = [val() for _ in range(n)]
                if n > 1 and rng.random() < .5:
                    d[-1] = 0
                fat[i] = [d]
    return pts, fat


def judge(ctx, fn, inp, alg, r, must):
    """the parametrisation at every solution"""
    P, n = alg.P, alg.n
    xs = sorted({q[-1] for q in alg.pts})
    ctx.check(r is not None, fn, inp, "a parametrisation", None, "the output is well formed")
    ch, elim, den, co = r
    ctx.check(ch == P, fn, inp, P, ch, "characteristic")
    ctx.check(len(elim) == len(xs) + 1 and elim[-1] == 1 and all(peval(elim, x, P) == 0 for x in xs), fn, inp, ("roots", xs), elim,
              "the eliminating polynomial is monic, squarefree and vanishes exactly at the last coordinates of the solutions")
    if not must:
        return
    ctx.check(den == [1], fn, inp, [1], den, "denominator")
    for q in alg.pts:
        for k in range(n - 1):
            v = peval(co[k], q[-1], P)
            ctx.check((v + q[k]) % P == 0, fn, dict(inp, coordinate=k, solution=q), -q[k] % P, (v, co[k]), "coordinate of a solution")
    for k in range(n - 1):
        ctx.check(len(co[k]) <= len(elim) - 1 or all(x == 0 for x in co[k][len(elim) - 1:]), fn, inp, "reduced", co[k], "reduced modulo the eliminating polynomial")


def run_alg(ctx, L):
    rng = ctx.rng
    for rep in range(ctx.scale(700, 8000)):
        if not ctx.time_left(.98):
            break
        n = rng.choice([1, 2, 2, 3, 3, 4])
        D = rng.choice([1, 2, 3, 4, 5, 6, 8, rng.randrange(2, 26)])
        P = big_prime(rng) if rep % 4 else rng.choice([1518500183, 1303905299, 1073741827])
        kind = rng.choice(["plain", "plain", "zero", "linear", "collide", "fat"])
        pts, fat = random_alg(rng, P, n, D, kind)
        if len({tuple(q) for q in pts}) < len(pts):
            continue
        alg = Alg(pts, fat, P)
        if not alg.ok:
            continue
        last = tuple([0] * (n - 1) + [1])
        if last not in alg.pos:       # the last variable is itself linear: handled by the caller
            continue
        ti, tp, di, dm, dst = alg.matrix()
        lin, le, sq = alg.extra()
        nl = sum(lin)
        bs = n - nl
        if alg.D < bs + 1:
            continue
        fn = "nmod_fglm_compute_trace_data"
        inp = dict(p=P, nvars=n, kind=kind, solutions=pts if D < 9 else pts[:9], derivatives=[f for f in fat if f][:4], dim=alg.D)
        gen = len({q[-1] for q in pts}) == len(pts)
        fatv = any(fat)
        deg_min = len({q[-1] for q in pts}) + sum(1 for f in fat if f and f[0][-1])
        # the sequence has the degree of the minimal polynomial of the last variable
        must = gen
        arrs = (i32(lin), u32(le), i32(sq + [0]))
        mat = L.mat_sp_matfglm_t(alg.D, len(di), 0, u32(dm), u32(ti), u32(tp), u32(di), u32([]), u32(dst))
        for attempt in range(3):
            out = (c_uint64 * 8000)()
            ctx.case(fn, inp)
            run = L.trace(mat, P, n, bs, nl, *arrs, rng.choice([1, 1, 2]), out)
            okp, succ = L.state(run, 0), L.state(run, 1)
            r = parse(out, n) if okp else None
            try:
                sep = all(sq[k] or lin[k] for k in range(n - 1))
                if not gen:
                    # two solutions share the last coordinate: success must not be reported
                    if sep:
                        ctx.check(not (okp and succ), fn, inp, "no success", (okp, succ), "a linear form that does not separate the solutions is rejected")
                    if okp:
                        judge(ctx, fn, inp, alg, r, False)
                elif fatv:
                    if okp and succ:
                        judge(ctx, fn, inp, alg, r, sep or all(f[0][-1] for f in fat if f))
                    elif okp:
                        judge(ctx, fn, inp, alg, r, False)
                else:
                    ctx.check(okp and succ, fn, inp, "success", (okp, succ), "solutions in general position are parametrised")
                    judge(ctx, fn, inp, alg, r, True)
                break
            except harness.Fail:
                if attempt == 2:
                    raise
        if okp and succ and gen and not fatv:
            # another prime, same shape
            P2 = big_prime(rng)
            while P2 == P:
                P2 = big_prime(rng)
            sgn = lambda x: x if x < P // 2 else x - P
            if kind == "linear":
                L.free_sp_matfglm_t(mat)
                continue
            a2 = Alg([[x % P2 for x in q] for q in pts], fat, P2)
            if a2.ok and a2.B == alg.B and len({q[-1] for q in a2.pts}) == len(pts):
                ti, tp, di, dm, dst = a2.matrix()
                lin2, le2, sq2 = a2.extra()
                m2 = L.mat_sp_matfglm_t(a2.D, len(di), 0, u32(dm), u32(ti), u32(tp), u32(di), u32([]), u32(dst))
                fn = "nmod_fglm_compute_apply_trace_data"
                inp = dict(inp, p=P2, first_prime=P)
                for attempt in range(3):
                    out = (c_uint64 * 8000)()
                    ctx.case(fn, inp)
                    e = L.apply(run, m2, P2, n, bs, nl, i32(lin2), u32(le2), i32(sq2 + [0]), len(r[1]) - 1, 1, out)
                    try:
                        ctx.check(e == 0, fn, inp, 0, e, "good prime accepted")
                        judge(ctx, fn, inp, a2, parse(out, n), True)
                        break
                    except harness.Fail:
                        if attempt == 2:
                            raise
                # a prime for which the degree differs is refused
                fn2 = "nmod_fglm_compute_apply_trace_data"
                ctx.case(fn2, dict(inp, expected_degree=len(r[1])))
                e = L.apply(run, m2, P2, n, bs, nl, i32(lin2), u32(le2), i32(sq2 + [0]), len(r[1]), 1, out)
                ctx.check(e == 1, fn2, dict(inp, expected_degree=len(r[1])), 1, e, "a prime with another degree is refused")
                L.free_sp_matfglm_t(m2)
        L.free_sp_matfglm_t(mat)


def concrete(ctx):
    cfg = "avx2" if cfg_ok("avx2") else "none"
    L = Lib11(ctx.lib("fglm", cfg, [], EXTRA))
    if not L.ok:
        ctx.note("replay wrappers do not build against this source")
        return
    kernels(ctx, L, cfg == "avx2")
    run_alg(ctx, L)
