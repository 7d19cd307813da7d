"""P08 isolation of the real roots: root bound, scaling, shift by one, sign variations, recorded intervals."""
from common import *
from models import bitsf, lg2f as L2
import p10

F, FU, FT, FD, FE = "src/usolve/usolve.c", "src/usolve/utils.c", "src/usolve/taylor_shift.c", "src/usolve/descartes.c", "src/usolve/evaluate.c"
IS, AS, HO, HOdef, LIM, j = p10.IS, p10.AS, p10.HO, p10.HOdef, p10.LIM, p10.j
padd, sg, rbc, u0 = p10.padd, p10.sg, p10.rbc, p10.u0
HY = z3.Function("HY", AS, IS, IS, IS, IS)        # HY(a,d,y,i) = sum_{t>=i} a[t] y^(t-i)
SUM = z3.Function("SUM", AS, IS, IS)              # SUM(a,i) = a[0]+...+a[i-1]
SG = z3.Function("SG", AS, IS, IS, IS)            # last non-zero sign among the coefficients d..i
NV = z3.Function("NV", AS, IS, IS, IS)            # number of sign changes among the coefficients d..i
LW = z3.Function("LW", AS, IS, IS, IS, IS)        # LW(a,i,y,h) = a[0]+...+a[i-1] y^(i-1) + y^i h


def up(s, i):
    return Sel(s.arr("upol"), i)


def HYdef(a, d, y, i):
    return Eq(HY(a, d, y, i), Sel(a, i) + y * HY(a, d, y, i + 1))


# ---- number of sign changes in the coefficients
def flip(u, d, i):
    return sg(Sel(u, i)) * SG(u, d, i + 1) < 0


def sv_start(u, d):
    return [SG(u, d, d) == sg(Sel(u, d)), NV(u, d, d) == 0]


def sv_step(u, d, i):
    return [And(SG(u, d, i) == If(flip(u, d, i), sg(Sel(u, i)), SG(u, d, i + 1)), NV(u, d, i) == NV(u, d, i + 1) + If(flip(u, d, i), I(1), I(0)))]


MONO = ("the number of sign changes only grows while more coefficients are read",)


def variations(name, file, cap):
    def ens(s):
        u, d = s.arr("upol"), s.v("deg")
        return [Named("range", And(s.res >= 0, s.res <= cap)),
                Named("exact count below the cap", Implies(s.res < cap, s.res == NV(u, d, I(0)))),
                Named("the cap is reached only with that many changes", Implies(s.res == cap, NV(u, d, I(0)) >= cap))]

    def inv(s):
        u, d, i = s.arr("upol"), s.v("deg"), s.v("i")
        return [And(i >= 0, i <= d - 1), Named("count", And(s.v("nb") == NV(u, d, i + 1), s.v("nb") >= 0, s.v("nb") < cap)), Named("sign", s.v("s") == SG(u, d, i + 1)), And(s.v("s") >= -1, s.v("s") <= 1)]
    return Contract(name, "usolve", file, requires=lambda s: [And(s.v("deg") >= 1, s.v("deg") < LIM), Named("leading coefficient", up(s, s.v("deg")) != 0)],
                    ensures=ens, assigns=[],
                    defs=lambda s: sv_start(s.arr("upol"), s.v("deg")) + sv_step(s.arr("upol"), s.v("deg"), I(0))
                    + [ForAll(j, Implies(And(0 <= j, j <= s.v("deg")), NV(s.arr("upol"), s.v("deg"), I(0)) >= NV(s.arr("upol"), s.v("deg"), j)), NV(s.arr("upol"), s.v("deg"), j))],
                    loops={0: Loop(inv=inv, unfold=lambda s: sv_step(s.arr("upol"), s.v("deg"), s.v("i")), dec=lambda s: s.v("i"))})


var3 = variations("mpz_poly_sgn_variations_coeffs", FD, 3)
var1 = variations("mpz_poly_sgn_variations_coeffs_is_zero", F, 1)


# ---- sizes of coefficients, root bound
mbs = Contract("mpz_poly_max_bsize_coeffs", "usolve", FU, requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM - 1)],
               ensures=lambda s: [Named("largest size", ForAll(j, Implies(And(0 <= j, j <= s.v("deg")), bitsf(up(s, j)) <= s.res), up(s, j))), s.res >= 1],
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1, s.v("max") >= 0, Implies(s.v("i") > 0, s.v("max") >= 1)),
                                             Named("largest so far", ForAll(j, Implies(And(0 <= j, j < s.v("i")), bitsf(up(s, j)) <= s.v("max")), up(s, j)))],
                              dec=lambda s: s.v("deg") + 1 - s.v("i"))})


def br_ok(s, i, M):
    """|a_i / a_d| <= 2^(M (d-i)), from the sizes: the ratio is below 2^(bits(a_i) - bits(a_d) + 1)"""
    d = s.v("deg")
    return Implies(sg(up(s, i)) != sg(up(s, d)), M * (d - i) >= bitsf(up(s, i)) - bitsf(up(s, d)) + 1)


brd = Contract("bound_roots", "usolve", F, requires=lambda s: [And(s.v("deg") >= 1, s.v("deg") < LIM)],
               ensures=lambda s: [Named("bound of Kioustelidis", ForAll(j, Implies(And(0 <= j, j < s.v("deg")), br_ok(s, j, s.res - 1)), up(s, j)))],
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg")), s.v("l") == bitsf(up(s, s.v("deg"))) - 1, And(s.v("l") >= 0, s.v("l") < 2 ** 40),
                                             And(s.v("M") >= -(2 ** 41), s.v("M") <= 2 ** 41), Or(s.v("b") == 0, s.v("b") == 1),
                                             Named("no change of sign", Implies(s.v("b") == 1, ForAll(j, Implies(And(0 <= j, j < s.v("i")), sg(up(s, j)) == sg(up(s, s.v("deg")))), up(s, j)))),
                                             Named("bound so far", ForAll(j, Implies(And(0 <= j, j < s.v("i")), br_ok(s, j, s.v("M"))), up(s, j)))],
                              hints=lambda s: [Named("this coefficient", br_ok(s, s.head.v("i"), s.v("M"))), Named("grows", s.v("M") >= s.head.v("M")),
                                               Named("the others", ForAll(j, Implies(And(0 <= j, j < s.head.v("i")), Implies(br_ok(s, j, s.head.v("M")), br_ok(s, j, s.v("M")))), up(s, j)))],
                              dec=lambda s: s.v("deg") - s.v("i"))})


# ---- scaling the variable by a power of two
def rs_e(s, i):
    b, d = s.v("b"), s.v("deg")
    return If(b > 0, i * b, (i - d) * b)


def rs_done(s, u, lo, hi, nm="scaled"):
    return Named(nm, ForAll(j, Implies(And(lo <= j, j < hi), Sel(u, j) == Sel(u0(s), j) * pow2(rs_e(s, j))), Sel(u, j)))


def rs_same(s, c):
    return Named("not yet", ForAll(j, Implies(c(j), up(s, j) == Sel(u0(s), j)), up(s, j)))


rsc = Contract("USOLVEmpz_poly_rescale_normalize_2exp_th", "usolve", FU,
               requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM), And(s.v("b") > -2 ** 30, s.v("b") < 2 ** 30)],
               ensures=lambda s: [Named("p(2^b x) up to a power of two", ForAll(j, Implies(And(0 <= j, j <= s.v("deg")), up(s, j) * pow2(s.g("~cont")) == Sel(u0(s), j) * pow2(rs_e(s, j))), s.narr("upol")[j])),
                                  Named("positive factor", pow2(s.g("~cont")) >= 1)],
               defs=lambda s: [pow2(I(0)) == 1], assigns=[("upol",)], arrays=("upol",), call_ghost=lambda s: {"~cont": fresh("cont")},
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 1, s.v("i") <= s.v("deg") + 1), rs_done(s, s.arr("upol"), I(0), s.v("i")), rs_same(s, lambda k: k >= s.v("i"))],
                              hints=lambda s: [Named("this coefficient", up(s, s.head.v("i")) == Sel(u0(s), s.head.v("i")) * pow2(s.head.v("i") * s.v("b")))],
                              headlemmas=lambda s: [Named("exponent", And(s.v("i") * s.v("b") >= 0, s.v("i") * s.v("b") < 2 ** 62))],
                              dec=lambda s: s.v("deg") + 1 - s.v("i")),
                      1: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg")), rs_done(s, s.arr("upol"), I(0), s.v("i")), rs_same(s, lambda k: k >= s.v("i"))],
                              hints=lambda s: [Named("this coefficient", up(s, s.head.v("i")) == Sel(u0(s), s.head.v("i")) * pow2((s.head.v("i") - s.v("deg")) * s.v("b")))],
                              headlemmas=lambda s: [Named("exponent", Implies(s.v("i") <= s.v("deg"), And((s.v("i") - s.v("deg")) * s.v("b") >= 0, (s.v("i") - s.v("deg")) * s.v("b") < 2 ** 62)))],
                              exitlemmas=lambda s: [Named("leading exponent", (s.v("i") - s.v("deg")) * s.v("b") == 0)],
                              dec=lambda s: s.v("deg") - s.v("i"))})

# ---- values at 1 and 1/2
one_ = Contract("mpz_poly_sign_at_one", "usolve", F, requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM)],
                ensures=lambda s: [Named("sign of the sum of the coefficients", s.res == sg(SUM(s.arr("upol"), s.v("deg") + 1)))],
                defs=lambda s: [SUM(s.arr("upol"), I(0)) == 0], assigns=[("vals",)], arrays=("vals",),
                loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1), Named("partial sum", s.at("vals", 0) == SUM(s.arr("upol"), s.v("i")))],
                               unfold=lambda s: [Eq(SUM(s.arr("upol"), s.v("i") + 1), SUM(s.arr("upol"), s.v("i")) + up(s, s.v("i")))],
                               dec=lambda s: s.v("deg") + 1 - s.v("i"))})


def half(s, i):
    return HO(s.arr("upol"), s.v("deg"), I(1), I(1), i)


hlf = Contract("sgn_mpz_upoly_eval_onehalf", "usolve", F, requires=lambda s: [And(s.v("deg") >= 1, s.v("deg") < LIM)],
               ensures=lambda s: [Named("sign at one half", s.res == sg(half(s, I(0))))],
               defs=lambda s: [half(s, s.v("deg")) == up(s, s.v("deg"))], assigns=[], frame=lambda s: [((s.pf("flags", "Values").reg, ()), 2)],
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= -1, s.v("i") < s.v("deg")), Named("partial value", Sel(s.farr("flags", "Values"), 0) == half(s, s.v("i") + 1))],
                              unfold=lambda s: [HOdef(s.arr("upol"), s.v("deg"), I(1), I(1), s.v("i"))], dec=lambda s: s.v("i") + 1)})


# ---- division by x - c/2^k, machine integer c
def cz(s):
    return s.v("c")


def dg(s):
    return s.old.at("deg", 0)


def WU(s, i):
    return HO(u0(s), dg(s), s.v("k"), s.v("c"), i)


def uscaled(s):
    return [s.at("deg", 0) == dg(s), Named("power", pow2((dg(s) - 1) * s.v("k")) >= 1), Named("shift", And((dg(s) - 1) * s.v("k") >= 0, (dg(s) - 1) * s.v("k") < 2 ** 62))]


nqu = Contract("numer_quotient_uint", "usolve", F,
               requires=lambda s: [And(s.at("deg", 0) >= 1, s.at("deg", 0) < LIM), And(s.v("k") >= 0, s.v("k") < 2 ** 30), Named("root", WU(s, I(0)) == 0)],
               ensures=lambda s: [Named("degree", s.at("deg", 0) == dg(s) - 1),
                                  Named("quotient up to a power of two", And(pow2(s.g("~cont")) >= 1, ForAll(j, Implies(And(0 <= j, j < dg(s)), up(s, j) * pow2(s.g("~cont")) == WU(s, j + 1) * pow2(j * s.v("k"))), s.narr("upol")[j])))],
               defs=lambda s: [pow2(I(0)) == 1, WU(s, dg(s)) == Sel(u0(s), dg(s))], assigns=[("upol",), ("deg",)], arrays=("upol",), single=("deg",), call_ghost=lambda s: {"~cont": fresh("cont")},
               loops={0: Loop(inv=lambda s: uscaled(s) + [And(s.v("i") >= 0, s.v("i") <= dg(s) + 1),
                                           Named("scaled", ForAll(j, Implies(And(0 <= j, j < s.v("i")), up(s, j) == Sel(u0(s), j) * pow2((dg(s) - 1) * s.v("k"))), s.narr("upol")[j])),
                                           Named("not yet", ForAll(j, Implies(j >= s.v("i"), up(s, j) == Sel(u0(s), j)), s.narr("upol")[j]))],
                             dec=lambda s: dg(s) + 1 - s.v("i")),
                     1: Loop(inv=lambda s: uscaled(s) + [And(s.v("i") >= 0, s.v("i") <= dg(s) - 1),
                                           Named("quotient", ForAll(j, Implies(And(s.v("i") < j, j <= dg(s)), up(s, j) == WU(s, j) * pow2((j - 1) * s.v("k"))), s.narr("upol")[j])),
                                           Named("rest", ForAll(j, Implies(And(0 <= j, j <= s.v("i")), up(s, j) == Sel(u0(s), j) * pow2((dg(s) - 1) * s.v("k"))), s.narr("upol")[j]))],
                             unfold=lambda s: [HOdef(u0(s), dg(s), s.v("k"), s.v("c"), s.v("i")),
                                               padd((s.v("i") - 1) * s.v("k"), s.v("k"), s.v("i") * s.v("k")),
                                               padd((s.v("i") - 1) * s.v("k"), (dg(s) - s.v("i")) * s.v("k"), (dg(s) - 1) * s.v("k"))],
                             headlemmas=lambda s: [Named("products", Implies(s.v("i") >= 1, And((s.v("i") - 1) * s.v("k") >= 0, (dg(s) - s.v("i")) * s.v("k") >= 0))),
                                                   Named("next", Implies(s.v("i") < dg(s), up(s, s.v("i") + 1) == WU(s, s.v("i") + 1) * pow2(s.v("i") * s.v("k")))),
                                                   Named("this", up(s, s.v("i")) == Sel(u0(s), s.v("i")) * pow2((dg(s) - 1) * s.v("k")))],
                             hints=lambda s: [Named("exact division", s.mpz("tmp") == WU(s, s.head.v("i") + 1) * pow2((s.head.v("i") - 1) * s.v("k")) * s.v("c")),
                                              Named("new coefficient", up(s, s.head.v("i")) == WU(s, s.head.v("i")) * pow2((s.head.v("i") - 1) * s.v("k"))),
                                              Named("others", ForAll(j, Implies(j != s.head.v("i"), up(s, j) == Sel(s.head.arr("upol"), j)), s.narr("upol")[j]))],
                             dec=lambda s: s.v("i")),
                     2: Loop(inv=lambda s: uscaled(s) + [And(s.v("i") >= 0, s.v("i") <= dg(s)),
                                           Named("moved", ForAll(j, Implies(And(0 <= j, j < s.v("i")), up(s, j) == WU(s, j + 1) * pow2(j * s.v("k"))), s.narr("upol")[j])),
                                           Named("not yet", ForAll(j, Implies(And(s.v("i") < j, j <= dg(s)), up(s, j) == WU(s, j) * pow2((j - 1) * s.v("k"))), s.narr("upol")[j]))],
                             dec=lambda s: dg(s) - s.v("i"))})


# ---- shift of the variable by one:  sum_t new[t] (y-1)^t = sum_t old[t] y^t for every y
LO = z3.Function("LO", AS, IS, IS, IS)            # LO(a,y,i) = sum_{t<i} a[t] (y-1)^t
XP = z3.Function("XP", IS, IS, IS)                # XP(y,i) = (y-1)^i
_a, _y, _m, _p, _v, _d = z3.Const("a", AS), *z3.Ints("y m p v d")
_b = z3.Store(_a, _p, _v)


def LOdef(a, y, i):
    return Eq(LO(a, y, i + 1), LO(a, y, i) + Sel(a, i) * XP(y, i))


LEMMAS = [
    ("the tail does not depend on lower coefficients, step", [_p < _m, HYdef(_a, _d, _y, _m), HYdef(_b, _d, _y, _m), Eq(HY(_b, _d, _y, _m + 1), HY(_a, _d, _y, _m + 1))],
     [Named("degree", HY(_b, _d, _y, _m) == HY(_a, _d, _y, _m))]),
    ("the tail does not depend on lower coefficients, start", [_p < _d, HY(_a, _d, _y, _d) == Sel(_a, _d), HY(_b, _d, _y, _d) == Sel(_b, _d)], [Named("degree", HY(_b, _d, _y, _d) == HY(_a, _d, _y, _d))]),
    ("the head does not depend on higher coefficients, step", [_m < _p, LOdef(_a, _y, _m), LOdef(_b, _y, _m), Eq(LO(_b, _y, _m), LO(_a, _y, _m))],
     [Named("degree", LO(_b, _y, _m + 1) == LO(_a, _y, _m + 1))]),
    ("the head does not depend on higher coefficients, start", [LO(_a, _y, I(0)) == 0, LO(_b, _y, I(0)) == 0], [Named("degree", LO(_b, _y, I(0)) == LO(_a, _y, I(0)))]),
]


def ty(s):
    return z3.Int("y0")


def hy(s, a, i):
    return HY(a, s.v("deg"), ty(s), i)


def tstore(s):
    a, x = s.arr("upol"), s.v("j")
    return z3.Store(a, x, Sel(a, x) + Sel(a, x + 1))


tay = Contract("taylorshift1_naive", "usolve", FT, requires=lambda s: [And(s.v("deg") >= 1, s.v("deg") < LIM)],
               ensures=lambda s: [Named("p(x+1)", LO(s.arr("upol"), z3.Int("y0"), s.v("deg") + 1) == HY(u0(s), s.v("deg"), z3.Int("y0"), I(0)))],
               assigns=[("upol",)], arrays=("upol",),
               defs=lambda s: [LO(s.arr("upol"), z3.Int("y0"), I(0)) == 0, XP(z3.Int("y0"), I(0)) == 1],
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg")),
                                             Named("value", LO(s.arr("upol"), ty(s), s.v("i")) + XP(ty(s), s.v("i")) * hy(s, s.arr("upol"), s.v("i")) == hy(s, u0(s), I(0)))],
                              unfold=lambda s: [LOdef(s.arr("upol"), ty(s), s.v("i")), Eq(XP(ty(s), s.v("i") + 1), XP(ty(s), s.v("i")) * (ty(s) - 1)),
                                                hy(s, s.arr("upol"), s.v("deg")) == Sel(s.arr("upol"), s.v("deg")), hy(s, s.arr("upol"), s.v("deg") + 1) == 0],
                              dec=lambda s: s.v("deg") - s.v("i")),
                      1: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") < s.v("deg"), s.v("j") >= s.v("i") - 1, s.v("j") < s.v("deg")),
                                             Named("lower coefficients", ForAll(j, Implies(j <= s.v("j"), up(s, j) == Sel(s.before.arr("upol"), j)), s.narr("upol")[j])),
                                             Named("leading coefficient", up(s, s.v("deg")) == Sel(s.before.arr("upol"), s.v("deg"))),
                                             Named("head", LO(s.arr("upol"), ty(s), s.v("i")) == LO(s.before.arr("upol"), ty(s), s.v("i"))),
                                             Named("value", hy(s, s.before.arr("upol"), s.v("j") + 1) == up(s, s.v("j") + 1) + (ty(s) - 1) * hy(s, s.arr("upol"), s.v("j") + 2))],
                              unfold=lambda s: [HYdef(s.before.arr("upol"), s.v("deg"), ty(s), s.v("j")), HYdef(s.arr("upol"), s.v("deg"), ty(s), s.v("j") + 1),
                                                hy(s, s.arr("upol"), s.v("deg") + 1) == 0, LOdef(s.arr("upol"), ty(s), s.v("i")),
                                                hy(s, tstore(s), s.v("j") + 1) == hy(s, s.arr("upol"), s.v("j") + 1),
                                                Implies(s.v("j") >= s.v("i"), LO(tstore(s), ty(s), s.v("i")) == LO(s.arr("upol"), ty(s), s.v("i")))],
                              hints=lambda s: [Named("new coefficients", s.arr("upol") == tstore(s.head))],
                              exitlemmas=lambda s: [Named("tail", hy(s, s.before.arr("upol"), s.v("i")) == up(s, s.v("i")) + (ty(s) - 1) * hy(s, s.arr("upol"), s.v("i") + 1))],
                              dec=lambda s: s.v("j") - s.v("i") + 1)})


# ---- sums, exchange, scaling of blocks
def asum(s, u, lo, hi):
    d1, d2 = s.v("deg1"), s.v("deg2")
    a, b = s.old.arr("upol1"), s.old.arr("upol2")
    return Named("sum", ForAll(j, Implies(And(lo <= j, j <= hi), Sel(u, j) == If(j <= d1, Sel(a, j), I(0)) + If(j <= d2, Sel(b, j), I(0))), Sel(u, j)))


def adder(name):
    return Contract(name, "usolve", FT, requires=lambda s: [And(s.v("deg1") >= 0, s.v("deg1") < LIM, s.v("deg2") >= 0, s.v("deg2") < LIM)],
                    ensures=lambda s: [asum(s, s.arr("res"), I(0), If(s.v("deg1") > s.v("deg2"), s.v("deg1"), s.v("deg2")))],
                    assigns=[("res",)], arrays=("res",), measure=lambda s: If(s.v("deg1") > s.v("deg2"), I(1), I(0)),
                    loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg1") + 1, s.v("deg1") <= s.v("deg2")), asum(s, s.arr("res"), I(0), s.v("i") - 1), Named("not yet", ForAll(j, Implies(j >= s.v("i"), Sel(s.arr("res"), j) == Sel(s.old.arr("res"), j)), Sel(s.arr("res"), j)))], dec=lambda s: s.v("deg1") + 1 - s.v("i")),
                           1: Loop(inv=lambda s: [And(s.v("i") >= s.v("deg1") + 1, s.v("i") <= s.v("deg2") + 1, s.v("deg1") <= s.v("deg2")), asum(s, s.arr("res"), I(0), s.v("i") - 1), Named("not yet", ForAll(j, Implies(j >= s.v("i"), Sel(s.arr("res"), j) == Sel(s.old.arr("res"), j)), Sel(s.arr("res"), j)))], dec=lambda s: s.v("deg2") + 1 - s.v("i"))})


add = adder("mpz_poly_add")
addt = adder("mpz_poly_add_th")
addi = copy(adder("mpz_poly_add_th"), alias={"upol1": "res"}, label="mpz_poly_add_th/in place", requires=lambda s: [And(s.v("deg1") >= 0, s.v("deg1") <= s.v("deg2"), s.v("deg2") < LIM)])


def old(s, n, i):
    return Sel(s.old.arr(n), i)


def swapped(s, lo, hi):
    r, p = s.arr("res"), s.arr("pol")
    return [Named("exchanged", ForAll(j, Implies(And(lo <= j, j < hi), Sel(r, j) == old(s, "pol", j)), Sel(r, j))), Named("exchanged back", ForAll(j, Implies(And(lo <= j, j < hi), Sel(p, j) == old(s, "res", j)), Sel(p, j)))]


swp = Contract("mpz_poly_swap_th", "usolve", FT, requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM)],
               ensures=lambda s: swapped(s, I(0), s.v("deg") + 1), assigns=[("res",), ("pol",)], arrays=("res", "pol"),
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1)] + swapped(s, I(0), s.v("i"))
                              + [Named("rest", ForAll(j, Implies(j >= s.v("i"), And(Sel(s.arr("res"), j) == old(s, "res", j), Sel(s.arr("pol"), j) == old(s, "pol", j))), Sel(s.arr("res"), j), Sel(s.arr("pol"), j)))],
                              dec=lambda s: s.v("deg") + 1 - s.v("i"))})

rup = Contract("rescale_upoly_2exp", "usolve", FT, requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM)],
               ensures=lambda s: [Named("scaled", ForAll(j, Implies(And(0 <= j, j <= s.v("deg")), up(s, j) == Sel(u0(s), j) * pow2(s.v("content"))), s.narr("upol")[j])),
                                  Named("rest kept", ForAll(j, Implies(Or(j < 0, j > s.v("deg")), up(s, j) == Sel(u0(s), j)), s.narr("upol")[j]))],
               defs=lambda s: [pow2(I(0)) == 1], assigns=[("upol",)], arrays=("upol",),
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1), Named("scaled", ForAll(j, Implies(And(0 <= j, j < s.v("i")), up(s, j) == Sel(u0(s), j) * pow2(s.v("content"))), s.narr("upol")[j])),
                                             Named("not yet", ForAll(j, Implies(Or(j < 0, j >= s.v("i")), up(s, j) == Sel(u0(s), j)), s.narr("upol")[j]))],
                              dec=lambda s: s.v("deg") + 1 - s.v("i"))})


# ---- sign changes that the truncation cannot have changed: coefficients with more than EB(i) bits only
EB = z3.Function("EB", IS, IS, IS, IS)            # bits of the truncation error of coefficient i after the shift
SC = z3.Function("SC", AS, IS, IS, IS, IS)
NC = z3.Function("NC", AS, IS, IS, IS, IS)


def sure(u, d, b, i):
    return And(bitsf(Sel(u, i)) > EB(b, d, i), Sel(u, i) != 0)


def sc_step(u, d, b, i):
    fl = And(sure(u, d, b, i), sg(Sel(u, i)) * SC(u, d, b, i + 1) < 0)
    a, c, e = (b - i + 1) * L2(b) + 1, (i + 1) * L2(b) + 1, d
    m = If(d < c, d, c)
    return [And(SC(u, d, b, i) == If(fl, sg(Sel(u, i)), SC(u, d, b, i + 1)), NC(u, d, b, i) == NC(u, d, b, i + 1) + If(fl, I(1), I(0))),
            EB(b, d, i) == If(i == 0, L2(b) + 1, If(a < m, a, m))]


# ---- recording a root: c/2^k (exact) or (c/2^k, (c+1)/2^k) in the scaled variable is
# numer / 2^k', the scale being the root bound 2^B; negative roots are mirrored
def MRn(c, k, ex, B, sn):
    c1 = If(sn != 0, If(ex, -c, -c - 1), c)
    return If(k <= B, c1 * pow2(B - k), c1)


def MRk(k, ex, B):
    return If(And(ex, k <= B), I(0), k - B)


def rec(s, idx, c, k, ex, B, sn, nm="recorded"):
    return Named(nm, And(s.at("roots", idx, "numer") == MRn(c, k, ex, B, sn), s.at("roots", idx, "k") == MRk(k, ex, B), s.at("roots", idx, "isexact") == If(ex, I(1), I(0))))


def mkept(s, lo, hi):
    return [Named("others kept: " + f, ForAll(j, Implies(Or(j < lo, j >= hi), Sel(s.arr("roots", f), j) == Sel(s.old.arr("roots", f), j)), Sel(s.arr("roots", f), j))) for f in ("numer", "k", "isexact")]


RO = [("roots", "numer"), ("roots", "k"), ("roots", "isexact"), ("roots", "sign_left")]


def mB(s):
    return If(s.v("sgn") > 0, s.v("b_neg"), s.v("b_pos"))


mrg = Contract("merge_root", "usolve", F, requires=lambda s: [Or(s.v("isexact") == 0, s.v("isexact") == 1), And(s.v("sgn") >= 0, s.v("sgn") <= 1), And(s.v("k") >= 0, s.v("k") < 2 ** 40)],
               ensures=lambda s: [rec(s, s.v("nb"), s.mpz("c"), s.v("k"), s.v("isexact") == 1, mB(s), s.v("sgn"))] + mkept(s, s.v("nb"), s.v("nb") + 1),
               assigns=RO, arrays=("roots",))


def svb_inv(s):
    u, d, b, i = s.arr("upol"), s.v("deg"), s.v("bsize"), s.v("i")
    return [And(i >= 0, i <= d - 1, s.v("L") == L2(b), s.v("L") >= 0, s.v("L") <= 63), Named("count", And(s.v("nb") == NC(u, d, b, i + 1), s.v("nb") >= 0, s.v("nb") < 3)),
            Named("sign", s.v("s") == SC(u, d, b, i + 1)), And(s.v("s") >= -1, s.v("s") <= 1), Or(s.v("boo") == 0, s.v("boo") == 1),
            Named("all certain", Implies(s.v("boo") == 1, ForAll(j, Implies(And(i < j, j < d), sure(u, d, b, j)), Sel(u, j))))]


def certain(name, file):
  return Contract(name, "usolve", file, assigns=[("index",)], requires=lambda s: [And(s.v("deg") >= 1, s.v("deg") < LIM), s.v("bsize") == s.v("deg")],
               ensures=lambda s: [Named("undecided or a count", And(s.res >= -1, s.res <= 3)),
                                  Named("decided: no coefficient can have changed its sign", Implies(And(s.res >= 0, s.res < 3), ForAll(j, Implies(And(0 <= j, j < s.v("deg")), sure(s.arr("upol"), s.v("deg"), s.v("bsize"), j)), up(s, j)))),
                                  Named("count", Implies(And(s.res >= 0, s.res < 3), s.res == NC(s.arr("upol"), s.v("deg"), s.v("bsize"), I(0)))),
                                  Named("three certain changes", Implies(s.res == 3, NC(s.arr("upol"), s.v("deg"), s.v("bsize"), I(0)) >= 3))],
               defs=lambda s: [SC(s.arr("upol"), s.v("deg"), s.v("bsize"), s.v("deg")) == sg(up(s, s.v("deg"))), NC(s.arr("upol"), s.v("deg"), s.v("bsize"), s.v("deg")) == 0]
               + sc_step(s.arr("upol"), s.v("deg"), s.v("bsize"), I(0))
               + [ForAll(j, Implies(And(0 <= j, j <= s.v("deg")), NC(s.arr("upol"), s.v("deg"), s.v("bsize"), I(0)) >= NC(s.arr("upol"), s.v("deg"), s.v("bsize"), j)), NC(s.arr("upol"), s.v("deg"), s.v("bsize"), j)),
                  ],
               loops={0: Loop(inv=svb_inv, unfold=lambda s: sc_step(s.arr("upol"), s.v("deg"), s.v("bsize"), s.v("i")), dec=lambda s: s.v("i"))})


svb = certain("USOLVEmpz_poly_sgn_variations_coeffs_bsize", FU)
svi = certain("mpz_poly_sgn_variations_coeffs_bsize_with_index", FT)


# ---- the leaves of the bisection: what is recorded for 0, 1 or 2 roots in (c/2^k, (c+1)/2^k)
FL = ("bound_pos", "bound_neg", "sign", "hasrealroots", "half_done", "verbose")


def fB(s):
    return If(s.f("flags", "sign") > 0, s.f("flags", "bound_neg"), s.f("flags", "bound_pos"))


def ent(s, t, c, k, ex, nm):
    """the t-th root recorded by this call"""
    return rec(s, s.old.at("nbr", 0) + t, c, k, z3.BoolVal(ex), fB(s), s.f("flags", "sign"), nm)


def guard(cond, gs):
    return [Named(g.name, Implies(cond, g.g)) for g in gs]


def leaf_pre(s):
    fits = [And(s.f("flags", x) > -2 ** 31, s.f("flags", x) < 2 ** 31) for x in ("bound_pos", "bound_neg")]
    return fits + [And(s.f("flags", "sign") >= 0, s.f("flags", "sign") <= 1), And(s.v("k") >= 0, s.v("k") < 2 ** 39), s.f("flags", "hasrealroots") == 0,
                   And(s.at("nbr", 0) >= 0, s.at("nbr", 0) < LIM), Or(s.v("is_half_root") == 0, s.v("is_half_root") == 1)]


def cnt(s, n):
    return s.at("nbr", 0) == s.old.at("nbr", 0) + n


def leaf(name, cases, signs=()):
    """cases: [(condition, [(c, k, exact)])]"""
    def ens(s):
        out = [Named("level", s.res == s.v("k"))]
        for q, (cond, es) in enumerate(cases(s)):
            out += guard(cond, [Named(f"number of roots {q}", cnt(s, len(es)))] + [ent(s, t, c, k, ex, f"root {q}.{t}") for t, (c, k, ex) in enumerate(es)])
        return out + [Named("earlier roots kept: " + f, ForAll(j, Implies(j < s.old.at("nbr", 0), Sel(s.arr("roots", f), j) == Sel(s.old.arr("roots", f), j)), Sel(s.arr("roots", f), j))) for f in ("numer", "k", "isexact")]
    return Contract(name, "usolve", F, requires=lambda s: leaf_pre(s) + [And(sign(s.v(x)), sign(s.v(y))) for x, y in signs], ensures=ens, exit_ok=False, assigns=RO + [("nbr",), ("tmp",), ("flags", "half_done")], arrays=("roots",), single=("nbr", "tmp", "c"))


def hb(s):
    return s.v("is_half_root") != 0


def C(s):
    return s.old.mpz("c")


nb0 = leaf("nb_0_case_in_bisection_rec", lambda s: [(hb(s), [(2 * C(s) + 1, s.v("k") + 1, True)]), (Not(hb(s)), [])])
def sign(x):
    return And(x >= -1, x <= 1)


nb1 = leaf("nb_1_case_in_bisection_rec", lambda s: [
    (And(hb(s), s.v("bot") * s.v("half") < 0), [(2 * C(s), s.v("k") + 1, False), (2 * C(s) + 1, s.v("k") + 1, True)]),
    (And(hb(s), s.v("bot") * s.v("half") >= 0, s.v("top") != 0), [(2 * C(s) + 1, s.v("k") + 1, True), (2 * C(s) + 1, s.v("k") + 1, False)]),
    (And(hb(s), s.v("bot") * s.v("half") >= 0, s.v("top") == 0), [(2 * C(s) + 1, s.v("k") + 1, True), (2 * C(s) + 2, s.v("k") + 1, True)]),
    (And(Not(hb(s)), s.v("top") != 0), [(C(s), s.v("k"), False)]),
    (And(Not(hb(s)), s.v("top") == 0), [(C(s) + 1, s.v("k"), True)])], [("bot", "half")])
nb2 = leaf("nb_2_case_in_bisection_rec", lambda s: [
    (And(hb(s), s.v("top") != 0), [(2 * C(s), s.v("k") + 1, False), (2 * C(s) + 1, s.v("k") + 1, True), (2 * C(s) + 1, s.v("k") + 1, False)]),
    (And(Not(hb(s)), s.v("top") != 0), [(2 * C(s), s.v("k") + 1, False), (2 * C(s) + 1, s.v("k") + 1, False)])])

CONTRACTS = [var3, var1, mbs, brd, rbc, rsc, one_, hlf, nqu, tay, add, addt, addi, swp, rup, svb, svi, mrg, nb0, nb1, nb2]
IMPORTS = []


BOUND = ("polynomials of degree up to 10 (random, or with prescribed rational, dyadic, close, huge and quadratic roots) and of degree 257 to 1100 with known roots; "
         "1, 2 and 4 threads; helper functions on random coefficients with zeros, up to 200 bits, degrees up to 700")
ASSUMPTIONS = ["GMP integers are mathematical integers", "the number of sign changes only grows while more coefficients are read",
               "the tail of a Horner sum does not depend on lower coefficients, nor its head on higher ones: consequences of the lemmas proved here, by induction on the degree",
               "OpenMP loops are executed as sequential loops (their iterations write different coefficients)"]

EXTRA8 = r"""
double realtime(void){ return 0; }
double cputime(void){ return 0; }
/*STUBS*/
static usolve_flags *vf_fl(unsigned long deg, int nth){ usolve_flags *f = malloc(sizeof(usolve_flags)); initialize_flags(f); f->nthreads = nth; f->cur_deg = deg; initialize_heap_flags(f, deg); return f; }
static void vf_fr(usolve_flags *f, unsigned long deg){ free_heap_flags(f, deg); unallocate_shift_pwx(f->shift_pwx, f->npwr, f->pwx); free(f); }
long vf_bound(mpz_t *p, unsigned long d){ return bound_roots(p, d); }
void vf_merge(mpz_t c, long k, int ex, int bp, int bn, int sgn, mpz_t out, long *info){
  interval r[3]; merge_root(r, c, k, ex, 1, 1, bp, bn, sgn); mpz_set(out, r[1].numer); info[0] = r[1].k; info[1] = r[1].isexact; mpz_clear(r[1].numer); }
void vf_naive(mpz_t *p, unsigned long d){ taylorshift1_naive(p, d); }
void vf_dac(mpz_t *p, unsigned long d, int nth){ usolve_flags *f = vf_fl(d, nth); taylorshift1_dac(p, d, f->tmpol, f->shift_pwx, f->pwx, nth); vf_fr(f, d); }
long vf_desc(mpz_t *p, unsigned long d, int nth){ usolve_flags *f = vf_fl(d, nth); long fl = 0; long r = descartes(p, f->tmpol_desc, d, 1, &fl, f); vf_fr(f, d); return r; }
long vf_var(mpz_t *p, unsigned long d, int one){ return one ? mpz_poly_sgn_variations_coeffs_is_zero(p, d) : mpz_poly_sgn_variations_coeffs(p, d); }
void vf_rescale(mpz_t *p, long b, unsigned long d, int nth){ USOLVEmpz_poly_rescale_normalize_2exp_th(p, b, d, nth); }
unsigned long vf_nqu(mpz_t *p, unsigned long d, unsigned c, long k){ numer_quotient_uint(p, &d, c, k); return d; }
int vf_half(mpz_t *p, unsigned long d){ mpz_t v[2]; usolve_flags f; mpz_init(v[0]); mpz_init(v[1]); f.Values = v; int s = sgn_mpz_upoly_eval_onehalf(p, d, &f); mpz_clear(v[0]); mpz_clear(v[1]); return s; }
long vf_one(mpz_t *p, unsigned long d){ mpz_t v[2]; mpz_init(v[0]); mpz_init(v[1]); long s = mpz_poly_sign_at_one(p, d, v); mpz_clear(v[0]); mpz_clear(v[1]); return s; }
void vf_add(mpz_t *r, mpz_t *a, unsigned long da, mpz_t *b, unsigned long db, int th){ if(th) mpz_poly_add_th(r, a, da, b, db, th); else mpz_poly_add(r, a, da, b, db); }
void vf_mul(mpz_t *r, mpz_t *a, unsigned long da, mpz_t *b, unsigned long db, int th){ mpz_poly_mul(r, a, da, b, db, th); }
unsigned long vf_mbs(mpz_t *p, long d){ return mpz_poly_max_bsize_coeffs(p, d); }
long vf_rr(mpz_t *pol, long deg, int prec, int nth, mpz_t *numer, long *info){
  unsigned long np = 0, nn = 0; interval *r = real_roots(pol, deg, &np, &nn, prec, nth, 0);
  for(long i = 0; i < np + nn && i <= deg; i++){ mpz_set(numer[i], r[i].numer); info[3*i] = r[i].k; info[3*i+1] = r[i].isexact; info[3*i+2] = r[i].sign_left; }
  return np * 10000 + nn;
}
"""


def shift1(p):
    """p(x+1)"""
    q = list(p)
    for i in range(len(q) - 1):
        for t in range(len(q) - 2, i - 1, -1):
            q[t] += q[t + 1]
    return q


def nvar(p):
    s = [x > 0 for x in p if x]
    return sum(1 for a, b in zip(s, s[1:]) if a != b)


def concrete(ctx):
    import usolib as U
    from usolib import Fr
    rng = ctx.rng
    v, l, ul, i_ = c_void_p, ctypes.c_long, ctypes.c_ulong, c_int
    L = ctx.lib("usolve", "none", [], EXTRA8)
    S = {n: L.sym("vf_" + n, r, *a) for n, r, a in [
        ("bound", l, (v, ul)), ("merge", None, (v, l, i_, i_, i_, i_, v, v)), ("naive", None, (v, ul)), ("dac", None, (v, ul, i_)), ("desc", l, (v, ul, i_)), ("var", l, (v, ul, i_)),
        ("rescale", None, (v, l, ul, i_)), ("nqu", ul, (v, ul, ctypes.c_uint, l)), ("half", i_, (v, ul)), ("one", l, (v, ul)), ("add", None, (v, v, ul, v, ul, i_)), ("mul", None, (v, v, ul, v, ul, i_)),
        ("mbs", ul, (v, l)), ("rr", l, (v, l, i_, i_, v, v))]}
    if S["rr"] is None:
        ctx.note("replay wrappers do not build against this source")
        return

    def coefs(d, bits=None, zero=.15):
        bits = bits or rng.choice([2, 8, 40, 70, 200])
        p = [0 if rng.random() < zero else rng.randrange(-2 ** bits, 2 ** bits + 1) for _ in range(d + 1)]
        p[-1] = p[-1] or 1
        return p

    def prim2(q):
        g = min((x & -x).bit_length() for x in q if x) - 1
        return [x >> g for x in q]

    for n in range(ctx.scale(1500, 15000)):
        if not ctx.time_left(.25):
            break
        d = rng.choice([1, 1, 2, 3, 5, 8, 20])
        p = coefs(d)
        z = Z(p)
        inp = dict(poly=p)
        s0 = (p[-1] > 0) - (p[-1] < 0)
        ctx.case("bound_roots", inp)
        b = S["bound"](z.p(), d)
        bad = [i for i in range(d) if p[i] * s0 < 0 and not Fr(abs(p[i]), abs(p[-1])) <= (Fr(2) ** (b - 1)) ** (d - i)]
        ctx.check(not bad, "bound_roots", inp, "2^(res-1) at least every (|a_i/a_n|)^(1/(n-i))", b, "root bound")
        w = nvar(p)
        if p[0]:
            ctx.check(S["var"](z.p(), d, 0) == min(w, 3), "mpz_poly_sgn_variations_coeffs", inp, min(w, 3), S["var"](z.p(), d, 0), "sign changes")
            ctx.check(S["var"](z.p(), d, 1) == min(w, 1), "mpz_poly_sgn_variations_coeffs_is_zero", inp, min(w, 1), S["var"](z.p(), d, 1), "sign changes")
        ctx.check(S["one"](z.p(), d) == U.sg(sum(p)), "mpz_poly_sign_at_one", inp, U.sg(sum(p)), "", "sign at one")
        ctx.check(S["half"](z.p(), d) == U.sg(U.ev(p, Fr(1, 2))), "sgn_mpz_upoly_eval_onehalf", inp, U.sg(U.ev(p, Fr(1, 2))), "", "sign at one half")
        m = max(max(1, abs(x).bit_length()) for x in p)
        ctx.check(S["mbs"](z.p(), d) == m, "mpz_poly_max_bsize_coeffs", inp, m, S["mbs"](z.p(), d), "largest size")
        q = Z(p)
        S["naive"](q.p(), d)
        ctx.check(q.all() == shift1(p), "taylorshift1_naive", inp, shift1(p), q.all(), "p(x+1)")
        e = rng.choice([-9, -1, 0, 1, 2, 30, -30])
        q = Z(p)
        S["rescale"](q.p(), e, d, rng.choice([1, 2]))
        want = prim2([c * 2 ** (i * e if e > 0 else (d - i) * -e) for i, c in enumerate(p)])
        ctx.check(q.all() == want, "USOLVEmpz_poly_rescale_normalize_2exp_th", dict(poly=p, b=e), want, q.all(), "scaled polynomial")
        c, k = rng.choice([1, 1, 1, 3, 5]), rng.choice([1, 1, 2, 7, 0])
        r = U.pmul(p, [-c, 2 ** k])
        q = Z(r)
        dd = S["nqu"](q.p(), d + 1, c, k)
        ctx.check(dd == d and q.all()[:d + 1] == prim2(p), "numer_quotient_uint", dict(poly=r, c=c, k=k), prim2(p), q.all(), "quotient")
        a, f = coefs(rng.randrange(0, 9)), coefs(rng.randrange(0, 9))
        for th in (0, 2):
            o = Z([0] * 12)
            S["add"](o.p(), Z(a).p(), len(a) - 1, Z(f).p(), len(f) - 1, th)
            g = [(a[i] if i < len(a) else 0) + (f[i] if i < len(f) else 0) for i in range(max(len(a), len(f)))]
            ctx.check(o.all()[:len(g)] == g, "mpz_poly_add", dict(a=a, b=f), g, o.all(), "sum")
        o = Z([0] * (len(a) + len(f)))
        S["mul"](o.p(), Z(a).p(), len(a) - 1, Z(f).p(), len(f) - 1, rng.choice([1, 2]))
        ctx.check(o.all()[:-1] == U.pmul(a, f), "mpz_poly_mul", dict(a=a, b=f), U.pmul(a, f), o.all(), "product")
        cc, k, ex, sn = rng.randrange(0, 2 ** rng.choice([1, 5, 60])), rng.randrange(0, 40), rng.choice([0, 1]), rng.choice([0, 1])
        bp, bn = rng.randrange(-20, 40), rng.randrange(-20, 40)
        o, info = Z([0]), (l * 2)()
        inp = dict(c=cc, k=k, exact=ex, bound_pos=bp, bound_neg=bn, negative=sn)
        ctx.case("merge_root", inp)
        S["merge"](Z([cc]).p(), k, ex, bp, bn, sn, o.p(), info)
        B = bn if sn else bp
        x, y = Fr(cc) * Fr(2) ** (B - k), Fr(cc + 1) * Fr(2) ** (B - k)
        m, k2 = o.get(0), info[0]
        lo = Fr(m) / Fr(2) ** max(k2, 0)
        hi = lo if ex else lo + Fr(2) ** -k2
        want = (x, x if ex else y) if not sn else ((-x, -x) if ex else (-y, -x))
        ctx.check((lo, hi) == want and info[1] == ex, "merge_root", inp, [str(t) for t in want], (m, k2), "recorded interval")

    # shift and Descartes count beyond the block size, both code paths
    for n in range(ctx.scale(90, 400)):
        if not ctx.time_left(.5):
            break
        d = rng.choice([200, 256, 257, 258, 300, 511, 512, 513, 515, 600, 768, 700, 1025, 1030])
        if n % 3 == 0:
            p = coefs(d, zero=rng.choice([0, .1, .6]))
        elif n % 3 == 1:
            # few sign changes after the shift
            q = [rng.choice([0, 1, 2 ** 70, 2 ** (3 * d)]) + rng.randrange(0, 100) for _ in range(d + 1)]
            for t in range(rng.randrange(0, 3)):
                q[rng.randrange(0, d)] *= -1
            p = q
            for i in range(d):
                for t in range(d - 1, i - 1, -1):
                    p[t] -= p[t + 1]
            p = p[::-1]
        else:
            p = [rng.choice([-1, 1]) * rng.randrange(2 ** 2600, 2 ** 2601) for _ in range(d + 1)]
            if rng.random() < .6:
                p = [abs(x) for x in p]
                p[rng.randrange(0, d + 1)] *= -1
        if n % 4 == 0:
            z0 = rng.randrange(0, d // 2)
            p[z0:z0 + d // 3] = [0] * (d // 3)
        p[-1] = p[-1] or 7
        p[0] = p[0] or 5
        nth = rng.choice([1, 1, 2, 4])
        inp = dict(degree=d, poly=p, threads=nth)
        ctx.case("taylorshift1_dac", inp)
        q = Z(p)
        S["dac"](q.p(), d, nth)
        want = shift1(p)
        ctx.check(q.all() == want, "taylorshift1_dac", inp, want, "other coefficients", "p(x+1)")
        want = nvar(shift1(p[::-1]))
        z = Z(p)
        got = S["desc"](z.p(), d, nth)
        ctx.check(got == want if want < 3 else got >= 3, "descartes", inp, want, got, "sign changes of (x+1)^d p(1/(x+1))")
        ctx.check(z.all() == p, "descartes", inp, "polynomial kept", "changed", "polynomial kept")

    def check_roots(p, known=None, prec=None, thr=(1, 2)):
        prec = prec if prec is not None else rng.choice([-1, 4, 32, 128])
        nth = rng.choice(thr)
        d = len(p) - 1
        inp = dict(poly=p, precision=prec, threads=nth)
        ctx.case("real_roots", inp)
        zn, info = Z([0] * (d + 1)), (l * (3 * d + 3))()
        z = Z(p)
        r = S["rr"](z.p(), d, prec, nth, zn.p(), info)
        np_, nn = divmod(r, 10000)
        ch = None if known is not None else U.sturm(p)
        tot, neg = (len(known), sum(1 for t in known if t < 0)) if known is not None else (U.count(ch, None, None), U.count(ch, None, Fr(0)) - (1 if p[0] == 0 else 0))
        ctx.check((np_ + nn, nn) == (tot, neg), "real_roots", inp, f"{tot} roots, {neg} negative", (np_ + nn, nn), "every real root once")
        last = None
        for i in range(np_ + nn):
            m, k, ex = zn.get(i), info[3 * i], info[3 * i + 1]
            lo = Fr(m) / Fr(2) ** max(k, 0)
            if ex:
                ctx.check(U.ev(p, lo) == 0, "real_roots", inp, f"root {i} exact", (m, k), "exact root")
                hi = lo
            else:
                hi = lo + Fr(2) ** -k
                c = sum(1 for t in known if lo < t < hi) if known is not None else U.count(ch, lo, hi) - (U.ev(p, hi) == 0)
                ctx.check(c == 1, "real_roots", inp, f"one root inside interval {i}", (m, k, c), "isolating interval")
                ctx.check(prec < 0 or k >= prec, "real_roots", inp, f"interval {i} of width at most 2^-{prec}", (m, k), "requested precision")
            ctx.check(last is None or lo > last[1] or (lo == last[1] and not (ex and last[2])), "real_roots", inp, "increasing, disjoint intervals", (i, m, k), "separated")
            ctx.check((hi <= 0 and lo < 0) if i < nn else lo >= 0, "real_roots", inp, "negative roots first", (i, m, k), "signs")
            last = (lo, hi, ex)

    for p in ([-3, 1], [0, 1], [0, -2, 1], [-1, 2], [1, 0, 1], [-2, 1], [-4, 0, 1], [0, -1, 0, 1], [6, -5, 1], [-1, 0, 4], [2, -9, 4], [0, 2, -9, 4], [-1, 64], [2 ** 70, -1], [1, -2 ** 70], [3], [-1, 3, -3 * 2, 8]):
        if len(p) > 1 and U.squarefree(p):
            for pr in (-1, 16):
                check_roots(p, prec=pr)
    for n in range(ctx.scale(1200, 9000)):
        if not ctx.time_left(.85):
            break
        p = U.from_roots(rng, rng.choice([3, 6, 8])) if rng.random() < .7 else U.randpoly(rng, rng.randrange(1, 11), rng.choice([1, 3, 20, 80]))
        if rng.random() < .15 and p[0]:
            p = [0] + p
        if rng.random() < .3:
            p = [-c for c in p]
        check_roots(p)

    for n in range(ctx.scale(25, 120)):
        if not ctx.time_left(1):
            break
        rts = set()
        for _ in range(rng.randrange(1, 9)):
            rts.add(rng.choice([Fr(rng.randrange(-30, 31)), Fr(rng.randrange(-64, 65), rng.choice([2, 4, 64])), Fr(rng.randrange(-99, 100), 7), Fr(1, 2) + Fr(rng.choice([1, -1, 3]), 2 ** rng.choice([9, 20]))]))
        p = [1]
        for t in rts:
            p = U.pmul(p, [-t.numerator, t.denominator])
        d = rng.choice([257, 258, 300, 400, 512, 520, 600])
        # a factor without real roots: even powers, positive coefficients
        f = [0] * (2 * ((d - len(p) + 2) // 2) + 1)
        f[0], f[-1] = rng.choice([1, 5, 2 ** 40]), 1
        for t in range(2, len(f) - 1, 2):
            if rng.random() < .3:
                f[t] = rng.randrange(0, 2 ** rng.choice([1, 30]))
        check_roots(U.pmul(p, f), known=sorted(rts), prec=rng.choice([-1, 16]), thr=(1, 2, 4))
