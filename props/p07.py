"""P07 rational reconstruction: sound, and complete for 2*N*D < modulus."""
from common import *

F = "src/crt/mpq_reconstruct.c"
gcdf = z3.Function("gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())
# any candidate n0/d0 with n0 = u*d0 (mod m): d0, K free, n0 = K*m + u*d0; A, B Bezout
zb = z3.Int('zb')
d0, K, A, B = z3.Ints("d0 K A B")


def W(s):
    """the residue reconstructed: u, or u*gden mod m"""
    return s.g("w")


def n0(s):
    return K * s.old.mpz("mod") + s.g("w") * d0


def hyp(s):
    N, D, m, x = s.old.f("recdata", "N"), s.old.f("recdata", "D"), s.old.mpz("mod"), n0(s)
    return And(2 * N * D < m, d0 >= 1, d0 <= D, x <= N, -x <= N, A * x + B * d0 == 1)


def fld(s, n):
    return s.f("recdata", n)


def euclid_inv(s):
    r0, r1, t0, t1 = (fld(s, k) for k in ("r0", "r1", "t0", "t1"))
    m, x, y, sg = s.old.mpz("mod"), s.g("~x"), s.g("~y"), s.g("~sg")
    return [
        s.mpz("mod") == m, fld(s, "N") == s.old.f("recdata", "N"), fld(s, "D") == s.old.f("recdata", "D"),
        s.mpz("u") == s.g("u1"),
        And(r1 >= 0, r0 > r1),
        Or(sg == 1, sg == -1),
        Named("determinant", Eq(r0 * t1, r1 * t0 + sg * m)),
        And(sg * t1 >= 1, sg * t0 <= 0),
        Named("congruence", Eq(r1, s.g("w") * t1 + m * s.g("~k1"))),
        Named("congruence0", Eq(r0, s.g("w") * t0 + m * s.g("~k0"))),
        Named("candidate numerator", Eq(n0(s), x * r0 + y * r1)),
        Named("candidate denominator", Eq(d0, x * t0 + y * t1)),
        Named("not passed", Implies(hyp(s), r0 > fld(s, "N"))),
    ]


def ghost_step(s):
    q = fld(s, "q")
    x, y = s.g("~x"), s.g("~y")
    return {"~x": x * q + y, "~y": x, "~sg": -s.g("~sg"),
            "~k0": s.g("~k1"), "~k1": s.g("~k0") - q * s.g("~k1")}


def init_ghost(s):
    w = fld(s, "r1")
    g = {"w": w, "u1": s.mpz("u"), "~x": K, "~y": d0, "~sg": I(1), "~k0": I(1), "~k1": I(0)}
    return g


euclid = Loop(inv=euclid_inv, ghost=ghost_step, init_ghost=init_ghost, dec=lambda s: fld(s, "r1"),
              hints=lambda s: [
                  Named("quotient at least 1", fld(s, "q") >= 1),
                  Named("remainder", And(fld(s, "r1") >= 0, fld(s, "r1") < fld(s, "r0"))),
                  Named("growth", s.head.g("~sg") * s.head.f("recdata", "t1") * fld(s, "q") >= s.head.g("~sg") * s.head.f("recdata", "t1")),
                  Named("flip", Eq(s.g("~sg") * fld(s, "t1"), -(s.head.g("~sg") * s.head.f("recdata", "t0")) +
                                   s.head.g("~sg") * s.head.f("recdata", "t1") * fld(s, "q"))),
              ])


def lemmas(s):
    r0, r1, t0, t1 = (fld(s, k) for k in ("r0", "r1", "t0", "t1"))
    m, x, y, sg = s.old.mpz("mod"), s.g("~x"), s.g("~y"), s.g("~sg")
    N, D = s.old.f("recdata", "N"), s.old.f("recdata", "D")
    h = hyp(s)
    T1, T0 = sg * t1, -sg * t0
    X, Y = zabs(x), zabs(y)
    nn = n0(s)
    opp = And(h, x * y < 0)
    return [
        Named("m from T", Eq(r0 * T1 + r1 * T0, m, )),
        Named("same sign impossible", Implies(And(h, x > 0), y < 0)),
        Named("same sign impossible'", Implies(And(h, x < 0), y > 0)),
        Named("den split", Implies(h, And(Implies(And(x > 0, y < 0), d0 == X * T0 + Y * T1), Implies(And(x < 0, y > 0), d0 == X * T0 + Y * T1)))),
        Named("T1 bounded", Implies(And(h, x != 0), T1 <= D)),
        Named("num split", Implies(And(h, x != 0), X * r0 <= N + Y * r1)),
        Named("prod1", Implies(And(h, x != 0), X * r0 * T1 <= (N + Y * r1) * T1)),
        Named("prod2", Implies(h, r1 * d0 <= N * D)),
        Named("prod3", Implies(And(h, x != 0), N * T1 <= N * D)),
        Named("prod4", Implies(And(h, x != 0), X * m >= m)),
        Named("sum", X * m == X * r0 * T1 + X * r1 * T0),
        Named("coefficient of the large row", Implies(h, x == 0)),
        Let(zb, A * r1 + B * t1),
        Named("unit", Implies(h, y * zb == 1)),
        Pure("unit of Z", Implies(y * zb == 1, And(y != 0, zb != 0, y * zb > 0))),
        Pure("unit of Z +", Implies(And(y >= 2, zb >= 1), y * zb >= 2)),
        Pure("unit of Z -", Implies(And(y <= -2, zb <= -1), y * zb >= 2)),
        Pure("unit of Z +-", Implies(And(y > 0, zb <= 0), y * zb <= 0)),
        Pure("unit of Z -+", Implies(And(y < 0, zb >= 0), y * zb <= 0)),
        Named("unit'", Implies(h, Or(y == 1, y == -1))),
    ]


def rr_post(s):
    n, d = s.mpz("n"), s.mpz("d")
    m, h = s.old.mpz("mod"), hyp(s)
    return [
        Named("verdict", Or(s.res == 0, s.res == 1)),
        Named("congruent", Cong(n, s.g("w") * d, m)),
        Named("bounds", Implies(s.res == 1, And(d >= 1, d <= s.old.f("recdata", "D"), n <= s.old.f("recdata", "N"), -n <= s.old.f("recdata", "N")))),
        Named("lowest terms", Implies(s.res == 1, gcdf(n, d) == 1)),
        Named("complete: numerator", Implies(h, n == n0(s))),
        Named("complete: denominator", Implies(h, d == d0)),
        Named("complete: found", Implies(h, s.res == 1)),
    ]


def rr_pre(s):
    return [s.mpz("mod") > 0, fld(s, "N") >= 0, fld(s, "D") >= 0]


def final_lemmas(s):
    return lemmas(s)


ASG = [("n",), ("d",), ("u",)] + [("recdata", k) for k in ("r0", "r1", "t0", "t1", "q", "tmp")]
ratrecon = Contract(
    "ratrecon", "msolve", F, requires=lambda s: rr_pre(s) + [s.mpz("u") < s.mpz("mod")],
    ensures=lambda s: [Named("residue kept", And(s.mpz("u") >= 0, s.mpz("u") < s.old.mpz("mod"))),
                       Named("residue kept mod", Cong(s.mpz("u"), s.old.mpz("u"), s.old.mpz("mod"))),
                       Eq(s.g("w"), s.mpz("u"))] + rr_post(s),
    ghosts=lambda s: {"~j": I(0)},
    loops={0: Loop(inv=lambda s: [Eq(s.mpz("u"), s.old.mpz("u") + s.g("~j") * s.old.mpz("mod")),
                                  s.mpz("u") < s.old.mpz("mod"), s.mpz("mod") == s.old.mpz("mod")],
                   ghost=lambda s: {"~j": s.g("~j") + 1}, dec=lambda s: -s.mpz("u")),
           1: euclid},
    post_hints=final_lemmas, assigns=ASG)

ratreconwden = Contract(
    "ratreconwden", "msolve", F, requires=lambda s: rr_pre(s),
    ensures=lambda s: [Named("residue kept", And(s.mpz("u") >= 0, s.mpz("u") < s.old.mpz("mod"))),
                       Named("residue kept mod", Cong(s.mpz("u"), s.old.mpz("u"), s.old.mpz("mod"))),
                       Named("multiplied residue", Cong(s.g("w"), s.old.mpz("u") * s.old.mpz("gden"), s.old.mpz("mod")))] + rr_post(s),
    loops={0: euclid}, post_hints=final_lemmas, assigns=ASG)

CONTRACTS = [ratrecon, ratreconwden]

BOUND = "moduli up to 2^600; all fractions for moduli up to 120; boundary bounds N, D with 2ND just below the modulus"
ASSUMPTIONS = ["GMP integers are mathematical integers",
               "the residue handed to ratrecon is below the modulus (a CRT image); N, D >= 0"]
SIGS = {"ratrecon": "msolve", "ratreconwden": "msolve"}

EXTRA = r"""
static void vf_rd_init(rrec_data_t r, mpz_t N, mpz_t D){
  mpz_init_set_ui(r->r0, 7); mpz_init_set_ui(r->r1, 9); mpz_init_set_ui(r->t0, 5); mpz_init_set_ui(r->t1, 3);
  mpz_init(r->q); mpz_init(r->tmp); mpz_init_set(r->N, N); mpz_init_set(r->D, D); }
static void vf_rd_clear(rrec_data_t r){
  mpz_clear(r->r0); mpz_clear(r->r1); mpz_clear(r->t0); mpz_clear(r->t1); mpz_clear(r->q); mpz_clear(r->tmp); mpz_clear(r->N); mpz_clear(r->D); }
int vf_ratrecon(mpz_t n, mpz_t d, mpz_t u, mpz_t m, mpz_t g, mpz_t N, mpz_t D, int wden){
  rrec_data_t r; vf_rd_init(r, N, D);
  int b = wden ? ratreconwden(n, d, u, m, g, r) : ratrecon(n, d, u, m, r);
  if(mpz_cmp(r->N, N) || mpz_cmp(r->D, D)) b = 1000;
  vf_rd_clear(r); return b; }
int vf_upoly_rr(mpz_t *rec, mpz_t den, mpz_t *pol, int len, mpz_t m, int *maxrec, mpz_t *tn, mpz_t *td, mpz_t g, mpz_t N, mpz_t D, int wden){
  rrec_data_t r; vf_rd_init(r, N, D);
  mpz_t a, b, c, gn; mpz_init(a); mpz_init(b); mpz_init(c); mpz_init(gn);
  deg_t mr = *maxrec;
  mpz_upoly_t R, P, TN, TD; 
  R->length = P->length = TN->length = TD->length = len; R->alloc = P->alloc = TN->alloc = TD->alloc = len;
  R->coeffs = rec; P->coeffs = pol; TN->coeffs = tn; TD->coeffs = td;
  int res = wden ? rational_reconstruction_upoly_with_denom(R, den, P, len, m, &mr, NULL, a, b, TN, TD, c, gn, g, r, 0)
                 : rational_reconstruction_upoly(R, den, P, len, m, &mr, NULL, a, b, TN, TD, c, gn, g, r, 0);
  *maxrec = mr;
  mpz_clear(a); mpz_clear(b); mpz_clear(c); mpz_clear(gn); vf_rd_clear(r);
  return res; }
int vf_reccoeff(mpz_t num, mpz_t den, mpz_t crt, mpz_t m, mpz_t gden, mpz_t N1, mpz_t D1, mpz_t N2, mpz_t D2){
  rrec_data_t r1, r2; vf_rd_init(r1, N1, D1); vf_rd_init(r2, N2, D2);
  data_lift_t dl; dl->num = (mpz_t*)num; dl->den = (mpz_t*)den; dl->crt = (mpz_t*)crt; mpz_init_set(dl->gden, gden); mpz_init(dl->tmp);
  int b = reconstructcoeff(dl, 0, m, r1, r2);
  mpz_set(gden, dl->gden); mpz_clear(dl->gden); mpz_clear(dl->tmp); vf_rd_clear(r1); vf_rd_clear(r2);
  return b; }
int vf_recdata(mpz_t N1, mpz_t D1, mpz_t N2, mpz_t D2, mpz_t m, int lstart){
  rrec_data_t r1, r2; mpz_t z; mpz_init(z); vf_rd_init(r1, z, z); vf_rd_init(r2, z, z);
  data_lift_t dl; dl->lstart = lstart;
  set_recdata(dl, r1, r2, m);
  mpz_set(N1, r1->N); mpz_set(D1, r1->D); mpz_set(N2, r2->N); mpz_set(D2, r2->D);
  vf_rd_clear(r1); vf_rd_clear(r2); mpz_clear(z); return 0; }
int vf_liftmod(mpz_t *zz, mpz_t *qq, mpz_t lm, int len, mpz_t m, mpz_t den, int chk, int *out){
  rrec_data_t r1, r2; mpz_t z; mpz_init(z); vf_rd_init(r1, z, z); vf_rd_init(r2, z, z);
  gb_modpoly_t mg; data_lift_t dl; modpolys_t mp[1];
  memset(mg, 0, sizeof(gb_modpoly_t)); memset(dl, 0, sizeof(data_lift_t));
  mg->modpolys = mp; mp[0]->len = len; mp[0]->cf_zz = zz; mp[0]->cf_qq = qq; mpz_init(mp[0]->lm);
  int32_t c1[1] = {chk}, c2[1] = {7};
  dl->check1 = c1; dl->check2 = c2; dl->lstart = 0; mpz_init(dl->tmp); mpz_init(dl->gden); dl->den = (mpz_t*)den;
  int b = ratrecon_lift_modgbs(mg, dl, 0, 1, m, r1, r2);
  mpz_set(lm, mp[0]->lm); *out = c2[0];
  mpz_clear(mp[0]->lm); mpz_clear(dl->tmp); mpz_clear(dl->gden); mpz_clear(z); vf_rd_clear(r1); vf_rd_clear(r2);
  return b; }
"""


def concrete(ctx):
    from math import gcd, isqrt, lcm
    rng = ctx.rng
    lib = ctx.lib("msolve", "none", [], EXTRA)
    f = lib.sym("vf_ratrecon", c_int, *([c_void_p] * 7), c_int)
    if f is None:
        return
    n, d, zu, zm, zg, zN, zD = (Z(0) for _ in range(7))

    def one(u, m, g, N, D, wden, truth=None):
        fn = "ratreconwden" if wden else "ratrecon"
        inp = dict(u=u, modulus=m, gden=g, N=N, D=D)
        ctx.case(fn, inp)
        for z, v in ((n, 99), (d, -5), (zu, u), (zm, m), (zg, g), (zN, N), (zD, D)):
            z.set(0, v)
        b = f(n.p(), d.p(), zu.p(), zm.p(), zg.p(), zN.p(), zD.p(), wden)
        w = u * g % m if wden else u % m
        a, c = n.get(), d.get()
        ctx.check(b in (0, 1), fn, inp, "0 or 1", b, "verdict, bounds unchanged")
        ctx.check(zm.get() == m and zg.get() == g and (zu.get() - u) % m == 0, fn, inp, "inputs kept", (zm.get(), zu.get()))
        if b:
            ctx.check((a - w * c) % m == 0 and 1 <= c <= D and abs(a) <= N and gcd(a, c) == 1, fn, inp,
                      "n = u*d mod m, 1<=d<=D, |n|<=N, coprime", (a, c), "soundness")
        if truth:
            ctx.check(b == 1 and (a, c) == truth, fn, inp, truth, (b, a, c), "completeness")
    # exhaustive small moduli
    for m in list(range(3, 26)) + [rng.randrange(26, 120) for _ in range(8)]:
        N = isqrt((m - 1) // 2)
        for (N, D) in {(N, N), (2 * N, max(1, (m - 1) // (4 * N) if N else 1)), (1, (m - 1) // 2), ((m - 1) // 2, 1)}:
            good = {}
            if 2 * N * D < m:
                for dd in range(1, D + 1):
                    for nn in range(-N, N + 1):
                        if gcd(dd, nn) == 1:
                            for u in range(m):
                                if (u * dd - nn) % m == 0:
                                    good[u] = (nn, dd)
            for u in range(m):
                for wden in (0, 1):
                    one(u if rng.random() < .6 else u - m, m, 1, N, D, wden, good.get(u))
    for k in range(ctx.scale(3000, 40000)):
        if not ctx.time_left(.5):
            break
        bits = rng.choice([16, 31, 62, 93, 200, 600])
        m = rng.getrandbits(bits) | 1 | (1 << (bits - 1))
        mode = rng.randrange(4)
        if mode == 0:
            N = D = isqrt((m - 1) // 2)
        elif mode == 1:
            D = max(1, round(m ** (1 / 3)) if bits < 300 else 1 << (bits // 3))
            N = (m // D) // 2
            if 2 * N * D >= m:
                N -= 1
        else:
            D = max(1, rng.getrandbits(rng.randrange(1, bits)))
            N = (m - 1) // (2 * D)
        while True:
            nn, dd = rng.randrange(-N, N + 1), rng.randrange(1, D + 1)
            r = rng.random()
            if r < .2:
                nn = rng.choice([N, -N])
            if .1 < r < .3:
                dd = D
            if r > .9:
                nn, dd = rng.randrange(-min(N, 20), min(N, 20) + 1), rng.randrange(1, min(D, 20) + 1)
            g = gcd(nn, dd)
            nn, dd = nn // g, dd // g
            if gcd(dd, m) == 1:
                break
        wden = rng.randrange(2)
        gd = rng.randrange(1, 10 ** 6) if wden and rng.random() < .6 else 1
        if gcd(gd, m) != 1:
            gd = 1
        u = nn * pow(dd, -1, m) * pow(gd, -1, m) % m
        if rng.random() < .4:
            u -= m
        one(u, m, gd, N, D, wden, (nn, dd))
        one(rng.randrange(m), m, gd, N, D, wden)
        if rng.random() < .3:
            one(rng.randrange(min(m, 2 * N + 3)), m, rng.randrange(1, 2 * D + 2), N, D, 1)
    # vectors of coefficients
    ur = lib.sym("vf_upoly_rr", c_int, c_void_p, c_void_p, c_void_p, c_int, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p, c_int)
    for k in range(ctx.scale(400, 4000)):
        if not ctx.time_left(.8):
            break
        wden = k & 1
        ln = rng.randrange(1, 7)
        db = rng.choice([4, 8, 12])
        fr = []
        for _ in range(ln):
            a, b = rng.randrange(-2 ** 20, 2 ** 20), rng.randrange(1, 2 ** db)
            fr.append((a // gcd(a, b), b // gcd(a, b)))
        M = 1
        while M < 2 ** (rng.choice([12, 60, 140, 260])):
            M *= rng.choice([2147483647, 2147483629, 2147483587, 1073741789])
        gd = rng.randrange(1, 50) if wden else 1
        D = isqrt((M - 1) // 2) if rng.random() < .5 else max(1, int(round(float(M) ** (1 / 3))))
        N = (M - 1) // (2 * D)
        u = [a * pow(b, -1, M) % M for a, b in fr]
        mr = rng.randrange(ln)
        rec, den, pol, zm2, tn, td = Z([5] * ln), Z(7), Z(u), Z(M), Z([1] * ln), Z([1] * ln)
        fn = "rational_reconstruction_mpz_ptr" + ("_with_denom" if wden else "")
        inp = dict(fractions=fr, modulus=M, maxrec=mr, guessed_den=gd, N=N, D=D)
        ctx.case(fn, inp)
        cm = c_int(mr)
        b = ur(rec.p(), den.p(), pol.p(), ln, zm2.p(), byref(cm), tn.p(), td.p(), Z(gd).p(), Z(N).p(), Z(D).p(), wden)
        ctx.check(b in (0, 1) and 0 <= cm.value < ln, fn, inp, "0/1 and an index", (b, cm.value))
        if b:
            R, q = rec.all(), den.get()
            ctx.check(q >= 1, fn, inp, "positive denominator", q)
            for i in range(ln):
                ctx.check((R[i] - u[i] * gd * q) % M == 0, fn, inp, "recons[i] = pol[i]*gden*den mod m", (i, R, q), "soundness")
        big = max(abs(a) for a, _ in fr) * gd * 2 ** (db * ln)
        if big < N and 2 ** (db * ln) < D:
            ctx.check(b == 1, fn, inp, 1, b, "large modulus: reconstruction succeeds")
            if b:
                R, q = rec.all(), den.get()
                for i in range(ln):
                    ctx.check(R[i] * fr[i][1] == fr[i][0] * gd * q, fn, inp, "the fractions", (i, R, q), "completeness")
    rc = lib.sym("vf_reccoeff", c_int, *([c_void_p] * 9))
    rd = lib.sym("vf_recdata", c_int, *([c_void_p] * 5), c_int)
    lm = lib.sym("vf_liftmod", c_int, c_void_p, c_void_p, c_void_p, c_int, c_void_p, c_void_p, c_int, c_void_p)
    for k in range(ctx.scale(600, 6000)):
        if not ctx.time_left(.95):
            break
        M = 1
        while M < 2 ** (rng.choice([31, 93, 200])):
            M *= rng.choice([2147483647, 2147483629, 2147483587, 1073741789])
        zs = [Z(0) for _ in range(4)]
        ls = rng.randrange(0, 3)
        inp = dict(modulus=M, lstart=ls)
        ctx.case("set_recdata", inp)
        rd(*[z.p() for z in zs], Z(M).p(), ls)
        N1, D1, N2, D2 = (z.get() for z in zs)
        ctx.check(2 * N1 * D1 <= M and 2 * N2 * D2 <= M and min(N1, D1, N2, D2) >= 1, "set_recdata", inp, "1 <= 2ND <= modulus", (N1, D1, N2, D2))
        a, b = rng.randrange(-2 ** 10, 2 ** 10), rng.randrange(1, 2 ** 6)
        a, b = a // gcd(a, b), b // gcd(a, b)
        g = rng.choice([1, b, rng.randrange(1, 100)])
        u = a * pow(b, -1, M) % M
        num, den, gz = Z(3), Z(4), Z(g)
        inp = dict(fraction=(a, b), modulus=M, gden=g)
        ctx.case("reconstructcoeff", inp)
        r = rc(num.p(), den.p(), Z(u if rng.random() < .5 else u - M).p(), Z(M).p(), gz.p(), zs[0].p(), zs[1].p(), zs[2].p(), zs[3].p())
        if r:
            x, y = num.get(), den.get()
            ctx.check((x - u * y) % M == 0 and y >= 1 and gcd(x, y) == 1, "reconstructcoeff", inp, "num = u*den mod m, coprime", (x, y), "soundness")
            ctx.check(gz.get() == y, "reconstructcoeff", inp, y, gz.get(), "guessed denominator updated")
        if M > 2 ** 90:
            ctx.check(r == 1 and (num.get(), den.get()) == (a, b), "reconstructcoeff", inp, (a, b), (r, num.get(), den.get()), "completeness")
        ln = rng.randrange(1, 5)
        g = rng.choice([1, 12, 35])
        fr = [(rng.randrange(-500, 500), rng.randrange(1, 20)) for _ in range(ln)]
        us = [x * pow(y, -1, M) % M for x, y in fr]
        zz, qq, zl, st = Z(us), Z([1] * (2 * ln)), Z(0), c_int(0)
        inp = dict(fractions=fr, modulus=M, den=g)
        ctx.case("ratrecon_lift_modgbs", inp)
        r = lm(zz.p(), qq.p(), zl.p(), ln, Z(M).p(), Z(g).p(), rng.choice([1, 1, 2]), byref(st))
        if r == 1:
            q, l = qq.all(), zl.get()
            ok = all(q[2 * i + 1] == 1 and (q[2 * i] - us[i] * l) % M == 0 for i in range(ln)) and l >= 1 and st.value == 1
            ctx.check(ok, "ratrecon_lift_modgbs", inp, "qq[i]/lm = residue", (q, l, st.value), "soundness")
        if M > 2 ** 150:
            ctx.check(r == 1 and all(q[2 * i] * fr[i][1] == fr[i][0] * l for i in range(ln)), "ratrecon_lift_modgbs", inp, "the fractions", r, "completeness")
