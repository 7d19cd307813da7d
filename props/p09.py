"""P09 interval evaluation: every computed enclosure contains the values it stands for."""
from common import *

FE, FM = "src/usolve/evaluate.c", "src/msolve/msolve.c"
IS = z3.IntSort()
AS = z3.ArraySort(IS, IS)
# a point x = X/(D*2^k), arbitrary: X, D are free
X, D = z3.Ints("X D")
PW = z3.Function("PW", IS, IS)                       # PW(n) = D^n
XP = z3.Function("XP", IS, IS)                       # XP(n) = X^n
GO = z3.Function("GO", AS, IS, IS, IS, IS)           # homogenised Horner values at X/D
HO = z3.Function("HO", AS, IS, IS, IS, IS, IS)       # Horner values at c
GS = z3.Function("GS", AS, IS, IS)                   # partial sums of up[i]*Y(i)
Y = z3.Function("Y", IS, IS)
j = z3.Int("j")
LIM = 2 ** 31


def sizes(s):
    return [And(s.v("deg") >= -1, s.v("deg") < LIM), And(s.v("k") >= 0, s.v("k") < LIM)]


# ---- Horner evaluation at c/2^k
def horner(name, byptr):
    def c(s):
        return s.old.mpz("c")

    def val(s):
        return s.mpz("val")

    def H(s, i):
        return HO(s.arr("upol"), s.v("deg"), s.v("k"), c(s), i)

    def post(s):
        d = s.v("deg")
        return [Named("empty polynomial", Implies(d == -1, val(s) == 0)),
                Named("value", Implies(d >= 0, val(s) == H(s, I(0))))]

    def defs(s):
        d = s.v("deg")
        return [Implies(d >= 0, H(s, d) == Sel(s.arr("upol"), d))]

    def rec(s, i):
        return Eq(H(s, i), H(s, i + 1) * c(s) + Sel(s.arr("upol"), i) * pow2((s.v("deg") - i) * s.v("k")))

    loop = Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") - 1), s.mpz("c") == c(s), Named("partial value", Eq(val(s), H(s, s.v("i") + 1) * c(s)))],
                unfold=lambda s: [rec(s, s.v("i"))], dec=lambda s: s.v("i"),
                headlemmas=lambda s: [Named("shift", And((s.v("deg") - s.v("i")) * s.v("k") >= 0, (s.v("deg") - s.v("i")) * s.v("k") < LIM * LIM))],
                exitlemmas=lambda s: [Named("shift", And(s.v("deg") * s.v("k") >= 0, s.v("deg") * s.v("k") < LIM * LIM))])
    return Contract(name, "usolve", FE, requires=lambda s: sizes(s), ensures=post,
                    defs=lambda s: defs(s) + [Implies(s.v("deg") >= 1, rec(s, I(0)).z())], assigns=[("val",), ("tmp",)], single=("val", "tmp", "c"), loops={0: loop})


ev1 = horner("mpz_poly_eval_2exp_naive", 1)
ev2 = horner("mpz_poly_eval_2exp_naive2", 0)


# ---- interval Horner
def G(s, i):
    return GO(s.arr("up"), s.v("deg"), s.v("k"), i)


def inside(lo, hi, g, p):
    return And(lo * p <= g, g <= hi * p)


def ei_pre(s):
    a, b = s.mpz("a"), s.mpz("b")
    return sizes(s) + [And(D >= 1, a * D <= X, X <= b * D), a <= b, Or(a >= 0, b <= 0)]


def ei_rec(s, i):
    d = s.v("deg")
    return [Eq(G(s, i), G(s, i + 1) * X + Sel(s.arr("up"), i) * pow2(s.v("k") * (d - i)) * PW(d - i)),
            Eq(PW(d - i), PW(d - i - 1) * D)]


def ei_defs(s):
    d = s.v("deg")
    return [PW(I(0)) == 1, Implies(d >= 0, G(s, d) == Sel(s.arr("up"), d))]


def ei_post(s):
    d, lo, hi = s.v("deg"), s.mpz("val_do"), s.mpz("val_up")
    return [Named("lower bound", Implies(d >= 0, lo * PW(d) <= G(s, I(0)))),
            Named("upper bound", Implies(d >= 0, G(s, I(0)) <= hi * PW(d))),
            Named("power", Implies(d >= 0, PW(d) >= 1)),
            Named("ordered", lo <= hi),
            Named("empty polynomial", Implies(d == -1, And(lo == 0, hi == 0))),
            Named("sign verdict", (s.res == 0) == (sgnz(lo) == sgnz(hi)))]


def sgnz(x):
    return If(x > 0, I(1), If(x < 0, I(-1), I(0)))


def ei_loop(neg):
    def inv(s):
        d, i = s.v("deg"), s.v("i")
        lo, hi = s.mpz("val_do"), s.mpz("val_up")
        return [And(i >= -1, i <= d - 1), s.mpz("a") == s.old.mpz("a"), s.mpz("b") == s.old.mpz("b"), PW(d - 1 - i) >= 1, Named("ordered", lo <= hi),
                Named("lower", lo * PW(d - 1 - i) <= G(s, i + 1)), Named("upper", G(s, i + 1) <= hi * PW(d - 1 - i))]

    def headl(s):
        d, i = s.v("deg"), s.v("i")
        lo, hi, a, b = s.mpz("val_do"), s.mpz("val_up"), s.mpz("a"), s.mpz("b")
        g, p = G(s, i + 1), PW(d - 1 - i)
        out = [Named("degree step", Eq(PW(d - i), PW(d - 1 - i) * D)), Named("shift", And(s.v("k") * (d - i) >= 0, s.v("k") * (d - i) < LIM * LIM)),
               Named("power", PW(d - i) >= 1),
               Named("sign of X", X <= 0 if neg else X >= 0)]
        e1, e2 = p * (X - a * D), p * (b * D - X)
        out += [Named("left of X", e1 >= 0), Named("right of X", e2 >= 0)]
        sx = -X if neg else X
        out += [Named("low product", (g - lo * p) * sx >= 0), Named("high product", (hi * p - g) * sx >= 0)]
        for nm, v in (("lo", lo), ("hi", hi)):
            out += [Named(nm + " left", If(v >= 0, v * e1 >= 0, v * e1 <= 0)), Named(nm + " right", If(v >= 0, v * e2 >= 0, v * e2 <= 0))]
        return out
    return Loop(inv=inv, unfold=lambda s: ei_rec(s, s.v("i")), headlemmas=headl, dec=lambda s: s.v("i") + 1)


ei = Contract("mpz_poly_eval_interval", "usolve", FE, requires=ei_pre, ensures=ei_post, defs=ei_defs, exit_ok=False,
              assigns=[("val_do",), ("val_up",), ("tmp",)], single=("val_do", "val_up", "tmp"), loops={0: ei_loop(False), 1: ei_loop(True)})


# ---- scalar product with a table of enclosed powers
def sp_pre(s):
    d = s.v("deg")
    return [And(d >= -1, d < LIM), D >= 1, s.v("corr") >= 0,
            ForAll(j, Implies(And(0 <= j, j <= d), And(Sel(s.arr("xdo"), j) * D <= Y(j), Y(j) <= Sel(s.arr("xup"), j) * D)), Y(j)),
            Implies(d == 0, Y(I(0)) == pow2(s.v("corr")) * D)]


def sp_post(s):
    d, lo, hi = s.v("deg"), s.mpz("val_do"), s.mpz("val_up")
    g = GS(s.arr("up"), d + 1)
    return [Named("lower bound", lo * D <= g), Named("upper bound", g <= hi * D), Named("sign verdict", (s.res == 0) == (sgnz(lo) == sgnz(hi)))]


def sp_rec(s, i):
    return Eq(GS(s.arr("up"), i + 1), GS(s.arr("up"), i) + Sel(s.arr("up"), i) * Y(i))


sp = Contract("mpz_scalar_product_interval", "usolve", FE, requires=sp_pre, ensures=sp_post,
              defs=lambda s: [GS(s.arr("up"), I(0)) == 0, Implies(s.v("deg") == 0, sp_rec(s, I(0)).z())],
              assigns=[("val_do",), ("val_up",), ("tmp",)], single=("val_do", "val_up", "tmp"),
              loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1),
                                            Named("lower", s.mpz("val_do") * D <= GS(s.arr("up"), s.v("i"))), Named("upper", GS(s.arr("up"), s.v("i")) <= s.mpz("val_up") * D)],
                             unfold=lambda s: [sp_rec(s, s.v("i"))],
                             headlemmas=lambda s: [
                                 Named("this power", Implies(s.v("i") <= s.v("deg"), And(Sel(s.arr("xdo"), s.v("i")) * D <= Y(s.v("i")), Y(s.v("i")) <= Sel(s.arr("xup"), s.v("i")) * D))),
                                 Named("term", Implies(s.v("i") <= s.v("deg"), And(
                                     If(Sel(s.arr("up"), s.v("i")) >= 0, Sel(s.arr("up"), s.v("i")) * (Y(s.v("i")) - Sel(s.arr("xdo"), s.v("i")) * D) >= 0,
                                        Sel(s.arr("up"), s.v("i")) * (Y(s.v("i")) - Sel(s.arr("xdo"), s.v("i")) * D) <= 0),
                                     If(Sel(s.arr("up"), s.v("i")) >= 0, Sel(s.arr("up"), s.v("i")) * (Sel(s.arr("xup"), s.v("i")) * D - Y(s.v("i"))) >= 0,
                                        Sel(s.arr("up"), s.v("i")) * (Sel(s.arr("xup"), s.v("i")) * D - Y(s.v("i"))) <= 0))))],
                             dec=lambda s: s.v("deg") + 1 - s.v("i"))})


# ---- table of enclosed powers of a root enclosed by [numer/2^k, (numer+1)/2^k]
def numer(s):
    return s.f("rt", "numer")


def kk(s):
    return s.f("rt", "k")


def gt_pre(s):
    return [D >= 1, And(numer(s) * D <= X, X <= (numer(s) + 1) * D), And(s.v("ns") >= 1, s.v("ns") < LIM), And(kk(s) >= 0, kk(s) < LIM), s.v("corr") >= 0]


def enc(s, i):
    """[xdo[i]/2^corr, xup[i]/2^corr] contains the i-th power"""
    K, C = pow2(kk(s) * i), pow2(s.v("corr"))
    return And(Sel(s.arr("xdo"), i) * K * PW(i) <= C * XP(i), C * XP(i) <= Sel(s.arr("xup"), i) * K * PW(i))


def raw(s, i):
    return And(Sel(s.arr("xdo"), i) * PW(i) <= XP(i), XP(i) <= Sel(s.arr("xup"), i) * PW(i), PW(i) >= 1)


def gt_sign(s, i, neg):
    lo, hi = Sel(s.arr("xdo"), i), Sel(s.arr("xup"), i)
    return And(lo <= hi, If(i % 2 == 1, hi <= 0, lo >= 0)) if neg else And(lo >= 0, lo <= hi)


def gt_frame(s):
    return [Named("root untouched", And(numer(s) == s.old.f("rt", "numer"), kk(s) == s.old.f("rt", "k")))]


def gt_powers(neg):
    def inv(s):
        i = s.v("i")
        return gt_frame(s) + [And(i >= 1, i <= s.v("ns")), s.mpz("c") == numer(s) + 1,
                Named("enclosed", ForAll(j, Implies(And(0 <= j, j < i), raw(s, j)), Sel(s.arr("xdo"), j))),
                Named("power zero", And(Sel(s.arr("xdo"), I(0)) == 1, Sel(s.arr("xup"), I(0)) == 1)),
                Named("signs", ForAll(j, Implies(And(0 <= j, j < i), gt_sign(s, j, neg)), Sel(s.arr("xdo"), j)))]

    def headl(s):
        i = s.v("i")
        a, b = numer(s), numer(s) + 1
        lo, hi, p, g = Sel(s.arr("xdo"), i - 1), Sel(s.arr("xup"), i - 1), PW(i - 1), XP(i - 1)
        out = [Named("previous", And(raw(s, i - 1), gt_sign(s, i - 1, neg))), Named("degree step", Eq(PW(i), p * D)), Named("power", PW(i) >= 1),
               Named("sign of X", X <= 0 if neg else X >= 0)]
        e1, e2 = p * (X - a * D), p * (b * D - X)
        out += [Named("left of X", e1 >= 0), Named("right of X", e2 >= 0)]
        sx = -X if neg else X
        out += [Named("low product", (g - lo * p) * sx >= 0), Named("high product", (hi * p - g) * sx >= 0)]
        for nm, v in (("lo", lo), ("hi", hi)):
            out += [Named(nm + " left", If(v >= 0, v * e1 >= 0, v * e1 <= 0)), Named(nm + " right", If(v >= 0, v * e2 >= 0, v * e2 <= 0))]
        if neg:
            out += [Named("signs", If(i % 2 == 1, And(lo * b <= 0, hi * a <= lo * b), And(hi * b >= 0, lo * a >= hi * b)))]
            out += [Named("both", And(Implies(lo >= 0, And(lo * a <= lo * b, hi * a <= lo * a)), Implies(hi <= 0, And(hi * a >= hi * b, lo * a >= hi * a))))]
        else:
            out += [Named("ordered", And(lo * a >= 0, hi * b >= lo * b, lo * b >= lo * a))]
        return out
    return Loop(inv=inv, unfold=lambda s: [Eq(PW(s.v("i")), PW(s.v("i") - 1) * D), Eq(XP(s.v("i")), XP(s.v("i") - 1) * X)], headlemmas=headl,
                dec=lambda s: s.v("ns") - s.v("i"))


def gt_scale():
    def inv(s):
        i = s.v("i")
        return gt_frame(s) + [And(i >= 1, i <= s.v("ns")), s.mpz("c") == numer(s) + 1,
                Named("first power", And(Sel(s.arr("xdo"), I(0)) == pow2(s.v("corr")), Sel(s.arr("xup"), I(0)) == pow2(s.v("corr")))),
                Named("scaled", ForAll(j, Implies(And(1 <= j, j < i), enc(s, j)), Sel(s.arr("xdo"), j))),
                Named("not yet", ForAll(j, Implies(And(i <= j, j < s.v("ns")), raw(s, j)), Sel(s.arr("xdo"), j)))]

    def headl(s):
        i = s.v("i")
        C = pow2(s.v("corr"))
        lo, hi = Sel(s.arr("xdo"), i), Sel(s.arr("xup"), i)
        return [Named("this power", Implies(i < s.v("ns"), raw(s, i))), Named("corr", C >= 1), Named("shift", And(kk(s) * i >= 0, kk(s) * i < LIM * LIM)),
                Named("times corr", Implies(i < s.v("ns"), And(C * (XP(i) - lo * PW(i)) >= 0, C * (hi * PW(i) - XP(i)) >= 0)))]

    def hints(s):
        i, h = s.head.v("i"), s.head
        C, K = pow2(s.v("corr")), pow2(kk(s) * i)
        lo, hi = Sel(s.arr("xdo"), i), Sel(s.arr("xup"), i)
        ol, oh = Sel(h.arr("xdo"), i), Sel(h.arr("xup"), i)
        return [Named("floor", lo * K <= ol * C), Named("ceiling", oh * C <= hi * K),
                Named("floor'", lo * K * PW(i) <= ol * C * PW(i)), Named("ceiling'", oh * C * PW(i) <= hi * K * PW(i)),
                Named("scaled one", enc(s, i))]
    return Loop(inv=inv, headlemmas=headl, hints=hints, dec=lambda s: s.v("ns") - s.v("i"))


gt = Contract("generate_table_values_full", "msolve", FM, requires=gt_pre,
              ensures=lambda s: gt_frame(s) + [
                  Named("first power", And(Sel(s.arr("xdo"), I(0)) == pow2(s.v("corr")), Sel(s.arr("xup"), I(0)) == pow2(s.v("corr")))),
                  Named("every power enclosed", ForAll(j, Implies(And(1 <= j, j < s.v("ns")), enc(s, j)), Sel(s.arr("xdo"), j)))],
              defs=lambda s: [PW(I(0)) == 1, XP(I(0)) == 1],
              assigns=[("xdo",), ("xup",), ("c",)], arrays=("xdo", "xup"), loops={0: gt_powers(False), 1: gt_powers(True), 2: gt_scale()})


# ---- the denominator over the interval of the root
def nd_pre(s):
    r = s.mpz("r")
    return [And(s.v("deg") >= 0, s.v("deg") < LIM), And(s.v("k") >= 0, s.v("k") < LIM), D >= 1, r * D <= X, X <= (r + 1) * D, s.v("corr") >= 0]


def nd_post(s):
    d, k = s.v("deg"), s.v("k")
    lo, hi = s.mpz("den_do"), s.mpz("den_up")
    g = GO(s.arr("denom"), d, k, I(0))
    C, K = pow2(s.v("corr")), pow2(k * d)
    return [Named("lower bound", lo * K * PW(d) <= C * g), Named("upper bound", C * g <= hi * K * PW(d)), Named("ordered", lo <= hi),
            Named("accepted only when zero is excluded", Implies(s.res == 0, Or(lo > 0, hi < 0)))]


def nd_hints(s):
    d, k = s.v("deg"), s.v("k")
    lo, hi = s.mpz("den_do"), s.mpz("den_up")
    C, K = pow2(s.v("corr")), pow2(k * d)
    return [Named("shift", And(k * d >= 0, k * d < LIM * LIM))]


nd = Contract("newvalue_denom", "msolve", FM, requires=nd_pre, ensures=nd_post, assigns=[("den_do",), ("den_up",), ("tmp",), ("c",)], exit_ok=False)
vd = copy(nd, name="value_denom", ensures=lambda s: nd_post(s)[:3])

CONTRACTS = [ev1, ev2, ei, sp, gt, nd, vd]
IMPORTS = [copy(ei, tu="msolve", params=["up", "deg", "k", "a", "b", "tmp", "val_do", "val_up"])]
BOUND = ("polynomials of degree up to 12 with coefficients up to 2^200, intervals of both signs and touching 0, k from 0 to 200; "
         "parametrisations in 1 to 3 variables over random and prescribed eliminating polynomials (close, dyadic, integer, irrational, complex roots), precision 8 to 200")
ASSUMPTIONS = ["GMP integers are mathematical integers"]


def concrete(ctx):
    import usolib as U
    from usolib import Fr, ev, interval, fr, sg
    L = U.Lib8(ctx)
    rng = ctx.rng
    v, l, i_ = c_void_p, ctypes.c_long, c_int
    e2 = L.L.fn("mpz_poly_eval_2exp_naive", None, v, l, v, l, v, v)
    eint = L.L.fn("mpz_poly_eval_interval", i_, v, l, l, v, v, v, v, v)
    spr = L.L.fn("mpz_scalar_product_interval", i_, v, l, l, v, v, v, v, v, l)

    def poly(d):
        b = rng.choice([1, 4, 60, 200])
        return [rng.choice([0, rng.randrange(-2 ** b, 2 ** b + 1), rng.randrange(-2 ** b, 2 ** b + 1)]) for _ in range(d + 1)]
    for n in range(ctx.scale(1500, 12000)):
        if not ctx.time_left(.35):
            break
        d = rng.choice([-1, 0, 1, 2, 3, 5, 12])
        p = poly(d)
        k = rng.choice([0, 1, 7, 64])
        w = rng.choice([0, 1, 1, rng.randrange(0, 50)])
        a = rng.choice([0, 1, -w, -w - 1, rng.randrange(-300, 300), rng.randrange(-2 ** 70, 2 ** 70)])
        b = a + w
        zp = Z(p or [0])
        val, t1, t2 = Z(0), Z(0), Z(0)
        inp = dict(poly=p, c=a, k=k)
        if e2:
            ctx.case("mpz_poly_eval_2exp_naive", inp)
            e2(zp.p(), d, Z(a).p(), k, val.p(), t1.p())
            want = ev(p, Fr(a, 2 ** k)) * 2 ** (k * max(d, 0))
            ctx.check(val.get() == want, "mpz_poly_eval_2exp_naive", inp, str(want), val.get(), "2^(k deg) p(c/2^k)")
        if not (a >= 0 or b <= 0):
            b = 0
        lo, hi = Z(0), Z(0)
        inp = dict(poly=p, a=a, b=b, k=k)
        if eint:
            ctx.case("mpz_poly_eval_interval", inp)
            r = eint(zp.p(), d, k, Z(a).p(), Z(b).p(), t1.p(), lo.p(), hi.p())
            x, y = lo.get(), hi.get()
            ctx.check((r == 0) == (sg(x) == sg(y)), "mpz_poly_eval_interval", inp, "verdict = signs differ", (r, x, y))
            for t in range(9):
                q = (a + Fr(t, 8) * (b - a)) / 2 ** k
                g = ev(p, q) * 2 ** (k * max(d, 0))
                ctx.check(x <= g <= y, "mpz_poly_eval_interval", inp, f"contains the value at {q}", (x, y), "enclosure")
        ns = rng.choice([1, 2, 3, 6, 13])
        corr = rng.choice([0, 3, 50, 300])
        xd, xu = Z([7] * ns), Z([7] * ns)
        if L.table:
            inp = dict(numer=a, k=k, ns=ns, corr=corr)
            ctx.case("generate_table_values_full", inp)
            L.table(Z(a).p(), k, ns, corr, xd.p(), xu.p())
            D_, U_ = xd.all(), xu.all()
            for j_ in range(ns):
                q = [Fr(a, 2 ** k) ** j_, Fr(a + 1, 2 ** k) ** j_]
                ctx.check(fr(D_[j_], corr) <= min(q) and max(q) <= fr(U_[j_], corr), "generate_table_values_full", inp, f"power {j_} enclosed", (D_[j_], U_[j_]), "enclosure")
            if spr and d < ns:
                inp = dict(inp, poly=p)
                ctx.case("mpz_scalar_product_interval", inp)
                spr(zp.p(), d, k, xd.p(), xu.p(), t1.p(), lo.p(), hi.p(), corr)
                for t in range(5):
                    q = (a + Fr(t, 4)) / 2 ** k
                    ctx.check(lo.get() <= ev(p, q) * 2 ** corr <= hi.get(), "mpz_scalar_product_interval", inp, f"contains the value at {q}", (lo.get(), hi.get()), "enclosure")
        if L.newden and d >= 0:
            inp = dict(denom=p, r=a, k=k, corr=corr)
            ctx.case("newvalue_denom", inp)
            r = L.newden(zp.p(), d, Z(a).p(), k, lo.p(), hi.p(), corr)
            x, y = lo.get(), hi.get()
            for t in range(5):
                q = (a + Fr(t, 4)) / 2 ** k
                ctx.check(x <= ev(p, q) * 2 ** corr <= y, "newvalue_denom", inp, f"contains the value at {q}", (x, y), "enclosure")
            ctx.check(r != 0 or x > 0 or y < 0, "newvalue_denom", inp, "zero excluded", (r, x, y), "verdict")
        if L.norm:
            nv = rng.randrange(1, 4)
            A, B = [rng.randrange(-2 ** 30, 2 ** 30) * 2 ** rng.randrange(0, 40) for _ in range(nv)], [rng.randrange(-9, 9) * 2 ** rng.randrange(0, 40) for _ in range(nv)]
            kk = [rng.choice([0, 1, 20, 100]) for _ in range(3 * nv)]
            za, zb, ck = Z(A), Z(B), arr(c_int, kk)
            inp = dict(do=A, up=B, k=kk)
            ctx.case("normalize_points", inp)
            L.norm(nv, za.p(), zb.p(), ck)
            for t in range(nv):
                ctx.check(fr(za.get(t), ck[3 * t]) == fr(A[t], kk[3 * t]) and fr(zb.get(t), ck[3 * t + 1]) == fr(B[t], kk[3 * t + 1]), "normalize_points", inp, "same bounds",
                          (za.all(), zb.all(), list(ck)), "values kept")
    # one root, coarse interval: extraction refines and encloses
    for n in range(ctx.scale(400, 3000)):
        if not ctx.time_left(.7) or L.extract is None:
            break
        elim = U.randpoly(rng, rng.randrange(2, 9), rng.choice([2, 8, 40])) if rng.random() < .5 else U.from_roots(rng, 5)
        m = len(elim) - 1
        ch = U.sturm(elim)
        if m < 2 or not U.count(ch, None, None):
            continue
        k = rng.choice([8, 30, 64])
        br = [b for b in U.brackets(elim, ch, Fr(1, 2 ** (k + 2)))]
        a, b = rng.choice(br)
        numer = b * 2 ** k // 1
        exact = 0
        if ev(elim, Fr(numer, 2 ** k)) == 0:
            exact = 1
            if not a < Fr(numer, 2 ** k) <= b:
                continue
        elif U.count(ch, Fr(numer, 2 ** k), Fr(numer + 1, 2 ** k)) != 1 or ev(elim, Fr(numer + 1, 2 ** k)) == 0 or not U.count(ch, max(a, Fr(numer, 2 ** k)), min(b, Fr(numer + 1, 2 ** k))):
            continue
        nv = rng.choice([2, 2, 3])
        den = U.der(elim) if rng.random() < .7 else U.randpoly(rng, m - 1, 8)
        if den != U.der(elim) and (U.rem(elim, den) == [] or len(U.sturm(U.pmul(elim, den))[-1]) != 1):
            den = U.der(elim)
        co, cfs = U.randparam(rng, elim, nv)
        prec = rng.choice([8, 64, 128])
        inp = dict(elim=elim, denom=den, coords=co, cfs=cfs, numer=int(numer), k=k, exact=exact, precision=prec)
        ctx.case("extract_real_roots_param", inp)
        lo, hi, kk = Z([0] * nv), Z([0] * nv), (c_int * (3 * nv))()
        flat = [c for x in co for c in x]
        L.extract(nv, Z(elim).p(), m + 1, Z(den).p(), len(den), Z(flat or [0]).p(), arr(c_int, [len(x) for x in co]), Z(cfs).p(), Z(int(numer)).p(), k, exact,
                  sg(ev(elim, Fr(numer, 2 ** k))), prec, lo.p(), hi.p(), kk)
        box = [(fr(lo.get(t), kk[3 * t]), fr(hi.get(t), kk[3 * t + 1])) for t in range(nv)]
        x, y = box[-1]
        ctx.check(x <= y and (U.count(ch, x, y) + (ev(elim, x) == 0)) == 1 and Fr(numer, 2 ** k) <= x and y <= Fr(numer + 1, 2 ** k), "extract_real_roots_param", inp, "same root", (str(x), str(y)), "last coordinate")
        for t in range(nv - 1):
            ok = U.enclosed(elim, ch, co[t], cfs[t], den, (a, b), *box[t])
            ctx.check(ok is not False and box[t][0] <= box[t][1], "extract_real_roots_param", inp, f"coordinate {t} enclosed", [str(q) for q in box[t]], "coordinates enclosed")
    U.isolate_cases(ctx, L, ctx.scale(800, 6000), frac=.97)
