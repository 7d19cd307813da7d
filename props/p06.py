"""P06 Chinese remaindering: the combined value keeps both residues and is in range."""
from common import *

F = "src/crt/mpz_CRT_ui.c"
flint = "FLINT's header function, outside /repo"

n_mulmod2_preinv = Contract(
    "n_mulmod2_preinv", "msolve", "flint/ulong_extras.h", assumed=flint,
    requires=lambda s: [s.v("n") > 0],
    ensures=lambda s: [And(s.res >= 0, s.res < s.v("n")), Cong(s.res, s.v("a") * s.v("b"), s.v("n"))],
    params=["a", "b", "n", "ninv"])
n_invmod = Contract(
    "n_invmod", "msolve", "flint/ulong_extras.h", assumed=flint + " (throws when not invertible)",
    requires=lambda s: [s.v("y") > 1, s.v("x") < s.v("y")],
    ensures=lambda s: [And(s.res >= 1, s.res < s.v("y")), Cong(s.res * s.v("x"), I(1), s.v("y"))],
    params=["x", "y"])
n_preinvert_limb = Contract(
    "n_preinvert_limb", "msolve", "flint/ulong_extras.h", assumed=flint, params=["n"],
    requires=lambda s: [s.v("n") > 0])


isCRT = z3.Function("isCRT", *([z3.IntSort()] * 6), z3.BoolSort())
"""isCRT(o, r1, m1, r2, m2, sign): the definition is crt_def"""


def crt_def(o, r1, m, r2, p, sign):
    return [
        Named("keeps the old residue", Cong(o, r1, m)),
        Named("takes the new residue", Cong(o, r2, p)),
        Named("unsigned range", Implies(sign == 0, And(o >= 0, o < m * p))),
        Named("signed range", Implies(sign != 0, And(2 * o <= m * p, -2 * o <= m * p)))]


def crt_post(s, expand=False):
    a = (s.mpz("out"), s.old.mpz("r1"), s.old.mpz("m1"), s.v("r2"), s.v("m2"), s.v("sign"))
    return [Abs(isCRT(*a), crt_def(*a), expand=expand)]


def crt_pre(s):
    m, p = s.mpz("m1"), s.v("m2")
    return [p > 1, m > 0, s.v("r2") < p, s.v("r2") >= 0, s.mpz("r1") < m, s.mpz("r1") > -m, Eq(s.mpz("m1m2"), m * p)]


precomp = Contract("_mpz_CRT_ui_precomp", "msolve", F,
                   requires=lambda s: crt_pre(s) + [s.v("c") < s.v("m2"), Cong(s.v("c") * s.mpz("m1"), I(1), s.v("m2"))],
                   ensures=lambda s: crt_post(s, True), assigns=[("out",)], may_alias=[("out", "r1")])
crt = Contract("mpz_CRT_ui", "msolve", F, requires=crt_pre, ensures=crt_post, assigns=[("out",)],
               may_alias=[("out", "r1")])

# ------------------------------------------------------------ arrays of coefficients
j = z3.Int("j")


def lifted(new, old, res, m, p, sign=0):
    return isCRT(new, old, m, res, p, I(sign))


upoly = Contract(
    "crt_lift_mpz_upoly", "msolve", "src/msolve/msolve.c",
    requires=lambda s: [
        s.v("prime") > 1, s.mpz("modulus") > 0, Eq(s.mpz("prod"), s.mpz("modulus") * s.v("prime")), s.f("pol", "length") >= 0,
        ForAll(j, Implies(And(0 <= j, j < s.f("pol", "length")),
                          And(Sel(s.farr("pol", "coeffs"), j) < s.mpz("modulus"), Sel(s.farr("pol", "coeffs"), j) > -s.mpz("modulus"))),
               Sel(s.farr("pol", "coeffs"), j)),
        ForAll(j, Implies(And(0 <= j, j < s.f("pol", "length")),
                          And(Sel(s.farr("nmod_pol", "coeffs"), j) < s.v("prime"), Sel(s.farr("nmod_pol", "coeffs"), j) >= 0)),
               Sel(s.farr("nmod_pol", "coeffs"), j)),
    ],
    ensures=lambda s: [
        Named("every coefficient lifted", ForAll(j, Implies(And(0 <= j, j < s.f("pol", "length")), lifted(
            Sel(s.farr("pol", "coeffs"), j), Sel(s.old.farr("pol", "coeffs"), j), Sel(s.farr("nmod_pol", "coeffs"), j),
            s.mpz("modulus"), s.v("prime"))))),
        Named("length kept", s.f("pol", "length") == s.old.f("pol", "length")),
    ],
    assigns=[("pol", "coeffs")],
    loops={0: Loop(inv=lambda s: [
        And(s.v("i") >= 0, s.v("i") <= s.f("pol", "length")),
        ForAll(j, Implies(And(0 <= j, j < s.v("i")), lifted(
            Sel(s.farr("pol", "coeffs"), j), Sel(s.old.farr("pol", "coeffs"), j), Sel(s.farr("nmod_pol", "coeffs"), j),
            s.mpz("modulus"), s.v("prime"))), Sel(s.farr("pol", "coeffs"), j)),
        ForAll(j, Implies(j >= s.v("i"), Sel(s.farr("pol", "coeffs"), j) == Sel(s.old.farr("pol", "coeffs"), j)),
               Sel(s.farr("pol", "coeffs"), j)),
    ], dec=lambda s: s.f("pol", "length") - s.v("i"))})


def rows_in(s):
    return lambda a, lo, hi: And(a < hi, a >= lo)


dense = Contract(
    "crt_lift_dense_rows", "msolve", "src/msolve/lifting.c",
    requires=lambda s: [
        s.v("prime") > 1, s.mpz("modulus") > 0, Eq(s.mpz("prod"), s.mpz("modulus") * s.v("prime")),
        s.v("end") < 2 ** 31, s.v("start") <= s.v("end"),
        ForAll(j, Implies(And(s.v("start") <= j, j < s.v("end")),
                          And(Sel(s.arr("rows"), j) < s.mpz("modulus"), Sel(s.arr("rows"), j) > -s.mpz("modulus"))), Sel(s.arr("rows"), j)),
        ForAll(j, Implies(And(s.v("start") <= j, j < s.v("end")),
                          And(Sel(s.arr("mod_rows"), j) < s.v("prime"), Sel(s.arr("mod_rows"), j) >= 0)), Sel(s.arr("mod_rows"), j)),
    ],
    ensures=lambda s: [
        Named("every entry lifted", ForAll(j, Implies(And(s.v("start") <= j, j < s.v("end")), lifted(
            Sel(s.arr("rows"), j), Sel(s.old.arr("rows"), j), Sel(s.arr("mod_rows"), j), s.mpz("modulus"), s.v("prime"))))),
        Named("others untouched", ForAll(j, Implies(Or(j < s.v("start"), j >= s.v("end")), Sel(s.arr("rows"), j) == Sel(s.old.arr("rows"), j)))),
    ],
    loops={0: Loop(inv=lambda s: [
        And(s.v("i") >= s.v("start"), s.v("i") <= s.v("end")),
        ForAll(j, Implies(And(s.v("start") <= j, j < s.v("i")), lifted(
            Sel(s.arr("rows"), j), Sel(s.old.arr("rows"), j), Sel(s.arr("mod_rows"), j), s.mpz("modulus"), s.v("prime"))),
            Sel(s.arr("rows"), j)),
        ForAll(j, Implies(Or(j < s.v("start"), j >= s.v("i")), Sel(s.arr("rows"), j) == Sel(s.old.arr("rows"), j)), Sel(s.arr("rows"), j)),
    ], dec=lambda s: s.v("end") - s.v("i"))})

CONTRACTS = [n_mulmod2_preinv, n_invmod, n_preinvert_limb, precomp, crt,
             copy(precomp, alias={"r1": "out"}, variant="inplace", label="_mpz_CRT_ui_precomp(out=r1)"),
             copy(crt, alias={"r1": "out"}, variant="inplace", label="mpz_CRT_ui(out=r1)"),
             upoly, dense]

BOUND = ("moduli up to 2^400, primes from 2 to 2^64-59 (boundary and random), residues at and near 0 and the modulus, "
         "both sign conventions, in place and out of place; histories of up to 12 primes")
ASSUMPTIONS = ["GMP integers are mathematical integers; FLINT's n_invmod, n_mulmod2_preinv, n_preinvert_limb as contracted",
               "the two moduli are coprime and the product passed in is their product (checked at the lifting call sites)"]
PRIMES = [2, 3, 5, 7, 251, 65521, 2147483647, 2147483629, 1073741789, 4294967291, 4294967311, 2 ** 63 - 25, 2 ** 64 - 59]

EXTRA = r"""
void vf_upoly(mpz_t *c, int len, uint64_t *r, mpz_t m, int32_t p, mpz_t prod, mpz_t tmp){
  mpz_upoly_t pol; pol->length = len; pol->alloc = len; pol->coeffs = c;
  nmod_poly_t np; np->coeffs = (ulong*)r; np->alloc = len; np->length = len;
  crt_lift_mpz_upoly(pol, np, m, p, prod, tmp, 1);
}
void vf_param(mpz_t *c, int nv, int len, uint64_t *r, mpz_t m, int32_t p, mpz_t prod, mpz_t tmp){
  /* elim: len coefficients, nv-1 coords with len-1 */
  mpz_param_t mp; param_t np;
  mp->nvars = nv; mp->nsols = len-1;
  mp->elim->length = len; mp->elim->alloc = len; mp->elim->coeffs = c;
  mp->denom->length = 0;
  mp->coords = malloc(sizeof(mpz_upoly_t) * nv);
  np.elim->coeffs = (ulong*)r; np.elim->length = len;
  np.coords = malloc(sizeof(nmod_poly_t) * nv);
  int k = len;
  for(int i = 0; i < nv-1; i++){
    mp->coords[i]->length = len-1; mp->coords[i]->coeffs = c + k;
    np.coords[i]->length = len-1; np.coords[i]->coeffs = (ulong*)r + k;
    k += len-1;
  }
  crt_lift_mpz_param(mp, &np, m, prod, p, tmp, 1);
  free(mp->coords); free(np.coords);
}
void vf_dlift(mpz_t *c, int n, uint32_t *res, uint64_t prime, mpz_t m, mpz_t prod, mpz_t tmp, int full, int lstart, int lend){
  gb_modpoly_t mg; data_lift_t dl;
  uint64_t primes[2] = {3, prime};
  mg->nprimes = 2; mg->primes = (void*)primes; mg->ld = n;
  mg->modpolys = calloc(n, sizeof(modpolys_t));
  int32_t coef[64];
  for(int i = 0; i < n; i++){
    coef[i] = i & 1;
    mg->modpolys[i]->len = 2;
    mg->modpolys[i]->cf_32 = calloc(2, sizeof(uint32_t*));
    for(int l = 0; l < 2; l++){ mg->modpolys[i]->cf_32[l] = calloc(2, sizeof(uint32_t)); }
    mg->modpolys[i]->cf_32[coef[i]][1] = res[i];
    mg->modpolys[i]->cf_32[1-coef[i]][1] = res[i] ? res[i]-1 : 1;
    mg->modpolys[i]->cf_32[coef[i]][0] = 1;
  }
  dl->crt = c; dl->lstart = lstart; dl->lend = lend; dl->end = n; mpz_init(dl->tmp);
  if(full) incremental_dlift_crt_full(mg, dl, coef, m, prod, 1);
  else incremental_dlift_crt(mg, dl, coef, (mpz_t*)m, (mpz_t*)prod, 1);
  mpz_clear(dl->tmp);
  for(int i = 0; i < n; i++){ free(mg->modpolys[i]->cf_32[0]); free(mg->modpolys[i]->cf_32[1]); free(mg->modpolys[i]->cf_32);}
  free(mg->modpolys);
}
"""
SIGS = {"mpz_CRT_ui": "msolve"}


def crt_oracle(r1, m1, r2, m2, sign):
    x = r1 % m1
    x += m1 * (((r2 - x) * pow(m1, -1, m2)) % m2)
    M = m1 * m2
    x %= M
    return [x] if not sign else [y for y in (x, x - M) if 2 * abs(y) <= M]


def concrete(ctx):
    rng = ctx.rng
    lib = ctx.lib("msolve", "none", ["mpz_CRT_ui"], EXTRA)
    f = lib.fn("mpz_CRT_ui", None, c_void_p, c_void_p, c_void_p, c_uint64, c_uint64, c_void_p, c_void_p, c_int)
    if core.Contract.BASE.get("sig:msolve:mpz_CRT_ui") != harness.typesig("msolve", "none", "mpz_CRT_ui"):
        f = None
    tmp = Z(0)
    from math import gcd

    def resid(m, edge):
        return rng.choice([0, 1, m - 1, m // 2, (m + 1) // 2, min(2, m - 1)]) % m if edge else rng.randrange(m)

    def modulus(p):
        for _ in range(50):
            k = rng.choice([1, 1, 2, 3, 8])
            m = 1
            for _ in range(k):
                q = rng.choice(PRIMES) if rng.random() < .5 else rng.getrandbits(31) | 1
                m *= max(q, 2)
            if rng.random() < .2:
                m = rng.randrange(1, 40)
            if gcd(m, p) == 1:
                return m
        return 1

    def one(r1, m1, r2, m2, sign, inplace):
        inp = dict(r1=r1, m1=m1, r2=r2, m2=m2, sign=sign, inplace=inplace)
        ctx.case("mpz_CRT_ui", inp)
        zr, zm, zp, zo = Z(r1), Z(m1), Z(m1 * m2), Z(12345)
        o = zr if inplace else zo
        f(o.p(), zr.p(), zm.p(), r2, m2, zp.p(), tmp.p(), sign)
        got, want = o.get(), crt_oracle(r1, m1, r2, m2, sign)
        ctx.check(got in want, "mpz_CRT_ui", inp, want, got, "residues and range")
        ctx.check(zm.get() == m1 and zp.get() == m1 * m2 and (inplace or zr.get() == r1), "mpz_CRT_ui", inp, "inputs unchanged", "changed")
        return got
    if f:
        for m2 in (2, 3, 5, 7, 11):
            for m1 in range(1, 14):
                if gcd(m1, m2) == 1:
                    for r1 in range(-m1 + 1, m1):
                        for r2 in range(m2):
                            for sign in (0, 1):
                                one(r1, m1, r2, m2, sign, (r1 + r2) & 1)
        for k in range(ctx.scale(4000, 60000)):
            if not ctx.time_left(.5):
                break
            m2 = rng.choice(PRIMES) if rng.random() < .7 else rng.getrandbits(rng.choice([8, 31, 32, 63, 64])) | 1
            m2 = max(m2, 2)
            m1 = modulus(m2)
            r1 = resid(m1, rng.random() < .4)
            if rng.random() < .4 and r1:
                r1 -= m1
            one(r1, m1, resid(m2, rng.random() < .4), m2, rng.randrange(2), rng.randrange(2))
        # histories: lift a rational integer through many primes
        for k in range(ctx.scale(60, 500)):
            x = rng.getrandbits(rng.choice([10, 60, 200])) * rng.choice([1, -1])
            sign = rng.randrange(2)
            M, v = 1, 0
            ps = []
            while len(ps) < 12:
                q = rng.getrandbits(31) | (1 << 30) | 1
                if all(gcd(q, z) == 1 for z in ps):
                    ps.append(q)
            for q in ps:
                v = one(v, M, x % q, q, sign, 1)
                M *= q
            for q in ps:
                ctx.check((v - x) % q == 0, "mpz_CRT_ui", dict(history=ps, x=x, sign=sign), x % q, v % q, "residue of an earlier prime")
    # array liftings
    up = lib.sym("vf_upoly", None, c_void_p, c_int, c_void_p, c_void_p, c_int32, c_void_p, c_void_p)
    pa = lib.sym("vf_param", None, c_void_p, c_int, c_int, c_void_p, c_void_p, c_int32, c_void_p, c_void_p)
    dl = lib.sym("vf_dlift", None, c_void_p, c_int, c_void_p, c_uint64, c_void_p, c_void_p, c_void_p, c_int, c_int, c_int)
    P31 = [p for p in PRIMES if p < 2 ** 31]
    for k in range(ctx.scale(400, 4000)):
        if not up or not ctx.time_left(.9):
            break
        p = rng.choice(P31[2:])
        m = modulus(p)
        kind = k % 4
        if kind == 0:
            n = rng.randrange(0, 9)
        elif kind == 1:
            nv, ln = rng.randrange(1, 5), rng.randrange(1, 6)
            n = ln + (nv - 1) * (ln - 1)
        else:
            n = rng.randrange(1, 9)
        old = [resid(m, rng.random() < .3) for _ in range(n)]
        if kind >= 2:
            old = [x - m if 2 * x > m else x for x in old]
        res = [resid(p, rng.random() < .3) for _ in range(n)]
        z, zm, zp = Z(old), Z(m), Z(m * p)
        inp = dict(kind=kind, coeffs=old, residues=res, modulus=m, prime=p)
        if kind == 0:
            fn = "crt_lift_mpz_upoly"
            ctx.case(fn, inp)
            up(z.p(), n, arr(c_uint64, res), zm.p(), p, zp.p(), tmp.p())
            sign, rg = 0, range(n)
        elif kind == 1:
            fn = "crt_lift_mpz_param"
            ctx.case(fn, inp)
            pa(z.p(), nv, ln, arr(c_uint64, res), zm.p(), p, zp.p(), tmp.p())
            sign, rg = 0, range(n)
        else:
            full = kind == 2
            fn = "incremental_dlift_crt_full" if full else "incremental_dlift_crt"
            lo = rng.randrange(n)
            hi = rng.randrange(lo, n)
            inp.update(lstart=lo, lend=hi)
            ctx.case(fn, inp)
            dl(z.p(), n, arr(c_uint32, res), p, zm.p(), zp.p(), tmp.p(), int(full), lo, hi)
            sign, rg = 1, range(n) if full else range(lo, hi + 1)
            ctx.check(zm.get() == m * p and zp.get() == m * p, fn, inp, "modulus multiplied by the prime", zm.get())
        got = z.all()
        for i in range(n):
            want = crt_oracle(old[i], m, res[i], p, sign) if i in rg else [old[i]]
            ctx.check(got[i] in want, fn, inp, {"index": i, "one_of": want}, got[i], "coefficient lifted")
