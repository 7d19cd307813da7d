"""P04 modular inverse and row normalisation."""
from common import *

T_ = "src/neogb/tools.h"
j = z3.Int("j")
UA, UB = (z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n in ("bezA", "bezB"))
isunit = z3.Function("isunit", z3.IntSort(), z3.IntSort(), z3.BoolSort())


def bez(v, p):
    """what isunit(v, p) means: a Bezout relation"""
    return Eq(UA(v, p) * v + UB(v, p) * p, I(1))



# ------------------------------------------------------------ inverse
def inv_contract(bits, pmax):
    def pre(s):
        return [s.v("p") > 1, s.v("p") <= pmax, Named("val is a unit modulo p", isunit(s.v("val"), s.v("p")))]

    def ginit(s):
        # b starts as val mod p
        return {"~k": I(1), "~l": low(s), "~sg": I(1), "~t": UA(s.v("val"), s.v("p")), "~r": UB(s.v("val"), s.v("p")) - UA(s.v("val"), s.v("p")) * low(s)}

    def low(s):
        v, p = s.v("val"), s.v("p")
        q = v / p
        return -q

    def inv(s):
        p, val = s.v("p"), s.v("val")
        a, b, c, d, sg = s.v("a"), s.v("b"), s.v("c"), s.v("d"), s.g("~sg")
        return [And(p == s.old.v("p"), val == s.old.v("val")),
                Or(sg == 1, sg == -1),
                And(b >= 0, a > b, a <= p),
                Named("congruence of a", Eq(a, d * val + p * s.g("~k"))),
                Named("congruence of b", Eq(b, c * val + p * s.g("~l"))),
                Named("determinant", Eq(a * c, b * d + sg * p)),
                And(sg * c >= 1, sg * d <= 0),
                Named("coefficients bounded", And(sg * c <= p, -(sg * d) <= p, Implies(b > 0, And(sg * c < p, -(sg * d) < p)))),
                Named("gcd", Eq(s.g("~t") * b + s.g("~r") * a, I(1)))]

    def gstep(s):
        q = s.v("e")
        k, l, t, r = s.g("~k"), s.g("~l"), s.g("~t"), s.g("~r")
        # 1 = t*b + r*a, b' = a - q*b, a' = b: 1 = r*b' + (t + r*q)*a'
        return {"~k": l, "~l": k - q * l, "~sg": -s.g("~sg"), "~t": r, "~r": t + r * q}

    def hints(s):
        h, p = s.head, s.v("p")
        a0, b0, c0, d0, q, sg = h.v("a"), h.v("b"), h.v("c"), h.v("d"), s.v("e"), h.g("~sg")
        return [Named("quotient", And(q >= 1, q * b0 <= a0, a0 < (q + 1) * b0, s.v("b") == a0 - q * b0)),
                Named("new value", Eq(s.v("c"), d0 - q * c0)),
                Named("sizes", Eq(b0 * (sg * q * c0 - sg * d0), p - s.v("b") * sg * c0)),
                ]
    return Contract(
        f"mod_p_inverse_{bits}", "neogb", T_, requires=pre,
        ensures=lambda s: [Named("reduced", And(s.res >= 0, s.res < s.v("p"))),
                           Named("inverse", Cong(s.res * s.v("val"), I(1), s.v("p")))],
        loops={0: Loop(inv=inv, dec=lambda s: s.v("b"), ghost=gstep,
                       pre=lambda s: [Named("reduced value", Eq(s.v("b"), s.v("val") + s.v("p") * s.g("~l")))], init_ghost=ginit, hints=hints)},
        defs=lambda s: [bez(s.old.v("val"), s.old.v("p")).z()])


inv32 = inv_contract(32, 2 ** 32 - 1)
inv16 = inv_contract(16, 2 ** 16 - 1)
inv8 = inv_contract(8, 2 ** 8 - 1)
CONTRACTS = [inv8, inv16, inv32]

# ------------------------------------------------------------ rows
isq = z3.Function("isq", *([z3.IntSort()] * 4), z3.BoolSort())
ismul = z3.Function("ismul", *([z3.IntSort()] * 4), z3.BoolSort())


def quo(n, o, l, p):
    """n is the quotient o/l modulo p"""
    return Abs(isq(n, o, l, p), [Named("reduced", And(n >= 0, n < p)), Named("quotient by the leading coefficient", Cong(n * l, o, p))])


def prod(n, o, m, p):
    return Abs(ismul(n, o, m, p), [Named("reduced", And(n >= 0, n < p)), Named("product", Cong(n, o * m, p))])


def unit(s, v, p):
    return Named("leading coefficient is a unit", isunit(v, p))


def scaling(name, bits, lead, fl, os_param=True, setone=True, mul=None, lo=lambda s: I(0), cfs=None, cover=None):
    """row[j] := row[j]/lead (or * mul) for all j < len"""
    p = lambda s: s.v("fc")
    ln = (lambda s: s.v("len")) if name.find("kernel") < 0 else (lambda s: s.v("nc"))
    spec = quo if mul is None else prod
    rel = isq if mul is None else ismul
    first = 0 if setone else 0

    def new(s, i):
        return Sel(s.narr("row"), s.off("row") + i)

    def old(s, i):
        return Sel(s.old.arr("row"), s.off("row") + i)

    def l(s):
        return lead(s.old)

    def pre(s):
        out = [p(s) > 1, p(s) <= 2 ** bits - 1, ln(s) >= 1, ln(s) <= 2 ** 31]
        if mul is None:
            out.append(unit(s, lead(s), p(s)))
        if os_param:
            out += [And(s.v("os") >= 0, s.v("os") <= ln(s), (ln(s) - s.v("os")) % 4 == 0, s.v("os") <= 3)]
        return out

    def done(s, hi, skip0=False):
        b = s.off("row")
        return [Named("scaled part", ForAll(j, Implies(And(j >= b + (1 if skip0 else 0), j < b + hi), rel(Sel(s.narr("row"), j), Sel(s.old.arr("row"), j), l(s), p(s))), Sel(s.narr("row"), j)))]

    def rest(s, hi, skip0=False):
        b = s.off("row")
        c = Or(j >= b + hi, j < b, j == b) if skip0 else Or(j >= b + hi, j < b)
        return [Named("untouched part", ForAll(j, Implies(c, Sel(s.narr("row"), j) == Sel(s.old.arr("row"), j)), Sel(s.narr("row"), j)))]
    sk = setone and not os_param
    fac = [lambda s: Eq(s.v("inv") * l(s), I(1) + p(s) * s.g("kinv"))]

    def inv_a(s):
        lo_ = I(1) if sk else I(0)
        # with os = 0 and a start of 1 the loop is not entered at all
        i, os_ = s.v("i"), s.v("os")
        return [And(i >= lo_, Or(i <= os_, i == lo_))] + done(s, i, sk) + rest(s, i, sk)

    def inv_b(s):
        i, os_ = s.v("i"), s.v("os")
        if sk:
            b = s.off("row")
            return [And(i >= os_, i <= ln(s), (ln(s) - i) % 4 == 0, i >= 0)] + done(s, i, True) + rest(s, i, True)[:0] + [
                Named("untouched part", ForAll(j, Implies(Or(j >= b + i, j < b), Or(j == b, Sel(s.narr("row"), j) == Sel(s.old.arr("row"), j))), Sel(s.narr("row"), j))),
                Named("leading cell", Implies(i == 0, Sel(s.narr("row"), b) == Sel(s.old.arr("row"), b)))]
        return [And(i >= os_, i <= ln(s), (ln(s) - i) % 4 == 0)] + done(s, i) + rest(s, i)

    def cells(n):
        def h(s):
            i = s.head.v("i")
            out = []
            for k in range(n):
                if mul is None:
                    out.append(Named(f"cell {k} multiplied", Cong(new(s, i + k), old(s, i + k) * s.v("inv"), p(s))))
                out.append(Named(f"cell {k}", spec(new(s, i + k), old(s, i + k), l(s), p(s))))
            return out
        return h

    def ens(s):
        b = s.off("row")
        out = [Named("every entry scaled", ForAll(j, Implies(And(j >= b + (1 if setone else 0), j < b + ln(s)), rel(Sel(s.narr("row"), j), Sel(s.old.arr("row"), j), l(s), p(s))))),
               Named("rest kept", ForAll(j, Implies(Or(j < b, j >= b + ln(s)), Sel(s.narr("row"), j) == Sel(s.old.arr("row"), j))))]
        if setone:
            out.append(Named("monic", new(s, 0) == 1))
        return out
    return Contract(name, "neogb", fl, requires=pre, ensures=ens, assigns=[("row",)], arrays=("row",),
                    loops={0: Loop(inv=inv_a, dec=lambda s: s.v("os") - s.v("i"), hints=cells(1)),
                           1: Loop(inv=inv_b, dec=lambda s: ln(s) - s.v("i"), hints=cells(4))})


lead0 = lambda s: Sel(s.narr("row"), s.off("row"))
for bits in (8, 16, 32):
    f = f"src/neogb/la_ff_{bits}.c"
    CONTRACTS.append(scaling(f"normalize_dense_matrix_row_ff_{bits}", bits, lead0, f, os_param=False))
    CONTRACTS.append(scaling(f"normalize_sparse_matrix_row_ff_{bits}", bits, lead0, f))
f = "src/neogb/la_ff_32.c"
CONTRACTS.append(scaling("multiply_sparse_matrix_row_ff_32", 32, lambda s: s.v("mul"), f, mul="mul", setone=False))
CONTRACTS.append(scaling("adjust_multiplier_sparse_matrix_row_ff_32", 32, lambda s: Sel(s.arr("cfs"), s.off("cfs")), f, setone=False))


# ------------------------------------------------------------ initial basis
i1, i2 = z3.Ints("i1 i2")
OFFSET, LENGTH, PRELOOP, COEFFS = 6, 5, 4, 3


def init_basis(bits):
    cfn = f"cf_{bits}"

    def cf(s):
        return s.mem2("bs", cfn)

    def hm(s):
        return s.mem2("bs", "hm")

    def meta(s, i, k):
        return Sel(Sel(s.old.mem2("bs", "hm"), i), k)

    def ld(s):
        return s.old.f("bs", "ld")

    def ocf(s, i):
        return Sel(s.old.mem2("bs", cfn), meta(s, i, COEFFS))

    def ncf(s, i):
        return Sel(cf(s), meta(s, i, COEFFS))

    p = lambda s: s.v("fc")

    def pre(s):
        h = Sel(hm(s), i1)
        return [p(s) > 1, p(s) <= (2 ** bits if bits < 32 else 2 ** 32) - 1 if bits < 32 else p(s) < 2 ** 32,
                ForAll(i1, Implies(And(i1 >= 0, i1 < ld(s)), And(Sel(h, LENGTH) >= 1, Sel(h, LENGTH) <= 2 ** 31, Sel(h, PRELOOP) >= 0, Sel(h, PRELOOP) <= 3, Sel(h, PRELOOP) <= Sel(h, LENGTH),
                                                                 (Sel(h, LENGTH) - Sel(h, PRELOOP)) % 4 == 0, isunit(Sel(Sel(cf(s), Sel(h, COEFFS)), 0), p(s)))), h),
                Named("coefficient arrays are distinct", ForAll([i1, i2], Implies(And(i1 >= 0, i1 < ld(s), i2 >= 0, i2 < ld(s), i1 != i2), Sel(h, COEFFS) != Sel(Sel(hm(s), i2), COEFFS)), h, Sel(hm(s), i2)) if False else
                      z3.ForAll([i1, i2], Implies(And(i1 >= 0, i1 < ld(s), i2 >= 0, i2 < ld(s), i1 != i2), Sel(h, COEFFS) != Sel(Sel(hm(s), i2), COEFFS)),
                                patterns=[z3.MultiPattern(h, Sel(hm(s), i2))]))]

    def scaled(s, i):
        return ForAll(j, Implies(And(j >= 0, j < meta(s, i, LENGTH)), isq(Sel(ncf(s, i), j), Sel(ocf(s, i), j), Sel(ocf(s, i), 0), p(s))), Sel(ncf(s, i), j))

    def all_scaled(s, n):
        return Named("rows scaled", z3.ForAll([i1, j], Implies(And(i1 >= 0, i1 < n, j >= 0, j < meta(s, i1, LENGTH)), isq(Sel(ncf(s, i1), j), Sel(ocf(s, i1), j), Sel(ocf(s, i1), 0), p(s))),
                                              patterns=[Sel(ncf(s, i1), j)]))

    def kept(s, n):
        return Named("rows to come kept", ForAll(i1, Implies(And(i1 >= n, i1 < ld(s)), ncf(s, i1) == ocf(s, i1)), meta(s, i1, COEFFS)))

    def others(s):
        c = meta(s, s.v("i"), COEFFS)
        return Named("other rows kept", ForAll(j, Implies(j != c, Sel(cf(s), j) == Sel(cf(s.before), j)), Sel(cf(s), j)))

    def cur(s, n):
        i = s.v("i")
        return [Named("scaled part", ForAll(j, Implies(And(j >= 0, j < n), isq(Sel(ncf(s, i), j), Sel(ocf(s, i), j), Sel(ocf(s, i), 0), p(s))), Sel(ncf(s, i), j))),
                Named("part to come", ForAll(j, Implies(Or(j >= n, j < 0), Sel(ncf(s, i), j) == Sel(ocf(s, i), j)), Sel(ncf(s, i), j)))]

    def cells(n):
        def h(s):
            i, k0 = s.v("i"), s.head.v("j")
            out = []
            for k in range(n):
                nw, od, l = Sel(ncf(s, i), k0 + k), Sel(ocf(s, i), k0 + k), Sel(ocf(s, i), 0)
                out += [Named(f"cell {k} multiplied", Cong(nw, od * s.v("inv"), p(s))), Named(f"cell {k}", quo(nw, od, l, p(s)))]
            return out
        return h

    def bnd(s):
        return And(s.v("i") >= 0, s.v("i") < ld(s))
    return Contract(f"normalize_initial_basis_ff_{bits}", "neogb", "src/neogb/basis.c", requires=pre,
                    ensures=lambda s: [all_scaled(s, ld(s))],
                    loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= ld(s)), all_scaled(s, s.v("i")), kept(s, s.v("i"))], dec=lambda s: ld(s) - s.v("i"),
                                   hints=lambda s: [Named("this row", scaled(s, s.head.v("i")))]),
                           1: Loop(inv=lambda s: [bnd(s), And(s.v("j") >= 0, s.v("j") <= s.v("os"))] + cur(s, s.v("j")) + [others(s)], dec=lambda s: s.v("os") - s.v("j"), hints=cells(1),
                                   pre=lambda s: [Named("this row is still as given", ncf(s, s.v("i")) == ocf(s, s.v("i"))),
                                                  Named("inverse of the leading coefficient", Cong(s.v("inv") * Sel(ocf(s, s.v("i")), 0), I(1), p(s)))]),
                           2: Loop(inv=lambda s: [bnd(s), And(s.v("j") >= s.v("os"), s.v("j") <= s.v("len"), (s.v("len") - s.v("j")) % 4 == 0)] + cur(s, s.v("j")) + [others(s)],
                                   dec=lambda s: s.v("len") - s.v("j"), hints=cells(4))})


for bits in (8, 16, 32):
    CONTRACTS.append(init_basis(bits))


# ------------------------------------------------------------ replay
BOUND = ("8-bit primes: every unit; 16- and 32-bit primes including 65521, 65537, 2147483647, 2147483659, 4294967291: sampled units and edge values; "
         "rows of every length 1..40 with every alignment")
ASSUMPTIONS = ["every coefficient ring is a prime field: a leading coefficient that is not divisible by the prime is a unit (hypothesis isunit)",
               "distinct basis elements own distinct coefficient arrays",
               "len % 4 = PRELOOP for the rows handed to the sparse routines"]
SIGS = {f"mod_p_inverse_{b}": "neogb" for b in (8, 16, 32)}
SIGS.update({f"normalize_{k}_matrix_row_ff_{b}": "neogb" for b in (8, 16, 32) for k in ("dense", "sparse")})

EXTRA = r"""
uint32_t vf_inv(int bits, int64_t v, int64_t p){ return bits == 8 ? mod_p_inverse_8((int16_t)v, (int16_t)p) : bits == 16 ? mod_p_inverse_16((int32_t)v, (int32_t)p) : mod_p_inverse_32(v, p); }
void vf_norm(int bits, int kind, uint32_t *r, uint32_t len, uint32_t p, uint32_t c){
  cf8_t *a = malloc(len+8); cf16_t *b = malloc(2*(len+8)); cf32_t *d = malloc(4*(len+8)); uint32_t i;
  cf32_t cfs[1] = {c};
  for(i = 0; i < len + 4; i++){ a[i] = r[i]; b[i] = r[i]; d[i] = r[i]; }
  uint32_t os = len % 4;
  if(bits == 8){ kind ? normalize_sparse_matrix_row_ff_8(a, os, len, p) : normalize_dense_matrix_row_ff_8(a, len, p); }
  else if(bits == 16){ kind ? normalize_sparse_matrix_row_ff_16(b, os, len, p) : normalize_dense_matrix_row_ff_16(b, len, p); }
  else switch(kind){
    case 0: normalize_dense_matrix_row_ff_32(d, len, p); break;
    case 1: normalize_sparse_matrix_row_ff_32(d, os, len, p); break;
    case 2: multiply_sparse_matrix_row_ff_32(d, c, os, len, p); break;
    case 3: adjust_multiplier_sparse_matrix_row_ff_32(d, cfs, os, len, p); break; }
  for(i = 0; i < len + 4; i++) r[i] = bits == 8 ? a[i] : bits == 16 ? b[i] : d[i];
  free(a); free(b); free(d); }
void vf_basis(int bits, uint32_t *r, int n, uint32_t *lens, uint32_t p){
  /* rows concatenated; coefficient arrays in reversed order */
  bs_t bs; memset(&bs, 0, sizeof bs); md_t st; memset(&st, 0, sizeof st);
  bs.ld = n; bs.hm = calloc(n, sizeof(hm_t*)); bs.cf_8 = calloc(n, sizeof(void*)); bs.cf_16 = calloc(n, sizeof(void*)); bs.cf_32 = calloc(n, sizeof(void*));
  uint32_t *q = r; int i; uint32_t j;
  for(i = 0; i < n; i++){
    bs.hm[i] = calloc(lens[i] + OFFSET, sizeof(hm_t)); int c = n - 1 - i;
    bs.hm[i][COEFFS] = c; bs.hm[i][LENGTH] = lens[i]; bs.hm[i][PRELOOP] = lens[i] % 4;
    bs.cf_8[c] = malloc(lens[i]); bs.cf_16[c] = malloc(2*lens[i]); bs.cf_32[c] = malloc(4*lens[i]);
    for(j = 0; j < lens[i]; j++){ bs.cf_8[c][j] = q[j]; bs.cf_16[c][j] = q[j]; bs.cf_32[c][j] = q[j]; }
    q += lens[i]; }
  if(bits == 8) normalize_initial_basis_ff_8(&bs, p); else if(bits == 16) normalize_initial_basis_ff_16(&bs, p); else normalize_initial_basis_ff_32(&bs, p);
  q = r;
  for(i = 0; i < n; i++){ int c = n - 1 - i;
    for(j = 0; j < lens[i]; j++) q[j] = bits == 8 ? bs.cf_8[c][j] : bits == 16 ? bs.cf_16[c][j] : bs.cf_32[c][j];
    q += lens[i]; free(bs.cf_8[c]); free(bs.cf_16[c]); free(bs.cf_32[c]); free(bs.hm[i]); }
  free(bs.hm); free(bs.cf_8); free(bs.cf_16); free(bs.cf_32); }
"""
PR = {8: [2, 3, 5, 7, 13, 127, 131, 251], 16: [257, 32749, 32771, 65521, 31, 3], 32: [65537, 2147483647, 2147483659, 3037000493, 3037000507, 4294967291, 1073741827, 251, 1303905301, 2]}


def concrete(ctx):
    rng = ctx.rng
    lib = ctx.lib("neogb", "none", [], EXTRA)
    finv = lib.sym("vf_inv", c_uint32, c_int, c_int64, c_int64)
    if finv is None:
        return
    fn_ = lib.sym("vf_norm", None, c_int, c_int, c_void_p, c_uint32, c_uint32, c_uint32)
    fb = lib.sym("vf_basis", None, c_int, c_void_p, c_int, c_void_p, c_uint32)

    def inv(bits, v, p):
        fn = f"mod_p_inverse_{bits}"
        inp = dict(val=v, p=p)
        ctx.case(fn, inp)
        r = finv(bits, v, p)
        ctx.check(0 <= r < p and r * v % p == 1, fn, inp, pow(v, -1, p), r, "inverse modulo p")
    for p in PR[8]:
        for v in list(range(1, p)) + [p + 1, -1, -p + 1 if p > 2 else -1]:
            inv(8, v, p)
    for bits in (16, 32):
        for p in PR[bits]:
            vs = {1, p - 1, p // 2, p // 2 + 1, 2, 3, p - 2, -1} | {rng.randrange(1, p) for _ in range(ctx.scale(120, 3000))}
            if p < 400:
                vs |= set(range(1, p))
            for v in vs:
                if v % p:
                    inv(bits, v, p)
                    if bits == 32:
                        inv(bits, v - p, p)
    names = ["normalize_dense_matrix_row_ff_%d", "normalize_sparse_matrix_row_ff_%d", "multiply_sparse_matrix_row_ff_%d", "adjust_multiplier_sparse_matrix_row_ff_%d"]
    for rep in range(ctx.scale(2, 20)):
        for bits in (8, 16, 32):
            for p in PR[bits] + ([4294967291] * 2 if bits == 32 else [65521] if bits == 16 else [251]):
                for ln in list(range(1, 24)) + [39, 64]:
                    if not ctx.time_left(.7):
                        break
                    for kind in range(4 if bits == 32 else 2):
                        v = [rng.choice([rng.randrange(p), p - 1, max(1, p - 1 - rng.randrange(min(p, 9))) % p, 1, 0]) for _ in range(ln)]
                        if v[0] % p == 0:
                            v[0] = rng.choice([1, p - 1, rng.randrange(1, p)])
                        tail = [7] * 4
                        c = rng.randrange(1, p)
                        a = (c_uint32 * (ln + 4))(*(v + tail))
                        fn = names[kind] % bits
                        inp = dict(row=v, p=p, arg=c)
                        ctx.case(fn, inp)
                        fn_(bits, kind, a, ln, p, c)
                        m = c if kind == 2 else pow(c if kind == 3 else v[0], -1, p)
                        want = [x * m % p for x in v]
                        ctx.check(list(a)[:ln] == want and list(a)[ln:] == tail, fn, inp, want, list(a), "entries scaled, nothing else written")
            for _ in range(ctx.scale(30, 300)):
                p = rng.choice(PR[bits])
                n = rng.randrange(1, 5)
                rows = [[rng.choice([rng.randrange(p), p - 1]) for _ in range(rng.randrange(1, 14))] for _ in range(n)]
                for r in rows:
                    r[0] = r[0] or 1
                flat = [x for r in rows for x in r]
                a, l = (c_uint32 * len(flat))(*flat), (c_uint32 * n)(*[len(r) for r in rows])
                fn = f"normalize_initial_basis_ff_{bits}"
                inp = dict(rows=rows, p=p)
                ctx.case(fn, inp)
                fb(bits, a, n, l, p)
                want = [x * pow(r[0], -1, p) % p for r in rows for x in r]
                ctx.check(list(a) == want, fn, inp, want, list(a), "every generator made monic")
