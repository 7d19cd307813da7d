"""P10 refinement of isolating intervals: the root is kept, exact roots are exact."""
from common import *
from models import tzf, oddf, tz_def

F, FE, FU = "src/usolve/refine.c", "src/usolve/evaluate.c", "src/usolve/utils.c"
IS = z3.IntSort()
AS = z3.ArraySort(IS, IS)
HO = z3.Function("HO", AS, IS, IS, IS, IS, IS)       # HO(up,d,k,c,i): homogenised Horner values at c/2^k
LIM = 2 ** 31
j = z3.Int("j")


def HOdef(u, d, k, c, i):
    return Eq(HO(u, d, k, c, i), HO(u, d, k, c, i + 1) * c + Sel(u, i) * pow2((d - i) * k))


# refining the grid does not change the sign: HO(k+N, c 2^N) = 2^(N (d-i)) HO(k, c)
_u = z3.Const("u", AS)
_d, _k, _c, _i, _N = z3.Ints("d k c i N")
LEMMAS = [
    ("value on a finer grid, start", [_d >= 0, _N >= 0, HO(_u, _d, _k + _N, _c * pow2(_N), _d) == Sel(_u, _d), HO(_u, _d, _k, _c, _d) == Sel(_u, _d), pow2(I(0)) == 1],
     [Named("degree", HO(_u, _d, _k + _N, _c * pow2(_N), _d) == HO(_u, _d, _k, _c, _d) * pow2(_N * (_d - _d)))]),
    ("value on a finer grid, step",
     [_i >= 0, _i < _d, _N >= 0, _k >= 0, HOdef(_u, _d, _k, _c, _i), HOdef(_u, _d, _k + _N, _c * pow2(_N), _i),
      Eq(HO(_u, _d, _k + _N, _c * pow2(_N), _i + 1), HO(_u, _d, _k, _c, _i + 1) * pow2(_N * (_d - _i - 1))),
      Eq(pow2(_N * (_d - _i)), pow2(_N * (_d - _i - 1)) * pow2(_N)), Eq(pow2((_d - _i) * (_k + _N)), pow2((_d - _i) * _k) * pow2(_N * (_d - _i)))],
     [Named("degree", Eq(HO(_u, _d, _k + _N, _c * pow2(_N), _i), HO(_u, _d, _k, _c, _i) * pow2(_N * (_d - _i))))]),
]


def padd(a, b, c):
    """2^(a+b) = 2^a 2^b"""
    return Implies(And(a >= 0, b >= 0), pow2(c) == pow2(a) * pow2(b))


def sg(x):
    return If(x > 0, I(1), If(x < 0, I(-1), I(0)))


def finer(u, d, k, c, N):
    """consequence of the lemma (powers of two are positive)"""
    return sg(HO(u, d, z3.simplify(k + N), c * pow2(N), I(0))) == sg(HO(u, d, k, c, I(0)))


# ---- Horner evaluation (proved in P09, proved here again at integer points)
def bev_val(s, i):
    return HO(s.arr("up"), s.v("deg"), I(0), s.old.mpz("c"), i)


bev = Contract("basic_mpz_poly_eval_at_point", "usolve", FE,
               requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM)],
               ensures=lambda s: [Named("value", s.mpz("val") == bev_val(s, I(0)))],
               defs=lambda s: [bev_val(s, s.v("deg")) == Sel(s.arr("up"), s.v("deg")), pow2(I(0)) == 1,
                               Implies(s.v("deg") >= 1, HOdef(s.arr("up"), s.v("deg"), I(0), s.mpz("c"), I(0)).z())],
               assigns=[("val",)], single=("val", "c"),
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg")), Named("partial value", If(s.v("i") == s.v("deg"), s.mpz("val") == 0,
                                            s.mpz("val") == bev_val(s, s.v("i") + 1) * s.mpz("c")))],
                              headlemmas=lambda s: [Named("shift", pow2((s.v("deg") - s.v("i")) * 0) == 1)],
                              unfold=lambda s: [Eq(bev_val(s, s.v("i")), bev_val(s, s.v("i") + 1) * s.mpz("c") + Sel(s.arr("up"), s.v("i")))], dec=lambda s: s.v("i"))})
import p09
ev = copy(p09.ev1, name="mpz_poly_eval_2exp_naive")


# ---- removal of the binary content
def rbc_all(s, c, lo, a0):
    return ForAll(j, Implies(And(0 <= j, j < lo, Sel(a0, j) != 0), tzf(Sel(a0, j)) >= c), Sel(a0, j))


def u0(s):
    return s.old.arr("upol")


rbc = Contract("mpz_poly_remove_binary_content", "usolve", FU,
               requires=lambda s: [And(s.v("deg") >= 0, s.v("deg") < LIM)],
               ensures=lambda s: [Named("divided by a power of two", ForAll(j, Implies(And(0 <= j, j <= s.v("deg")), Sel(s.arr("upol"), j) * pow2(s.res) == Sel(u0(s), j)), Sel(s.narr("upol"), j))),
                                  Named("shift", s.res >= 0), Named("rest kept", ForAll(j, Implies(Or(j < 0, j > s.v("deg")), Sel(s.arr("upol"), j) == Sel(u0(s), j)), Sel(s.narr("upol"), j))),
                                  Named("not zero", pow2(s.res) >= 1)],
               defs=lambda s: [pow2(I(0)) == 1], assigns=[("upol",)], arrays=("upol",), call_ghost=lambda s: {"~cont": s.res},
               loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg")), Sel(u0(s), s.v("deg")) != 0,
                                             Named("zeros", ForAll(j, Implies(And(0 <= j, j < s.v("i")), Sel(u0(s), j) == 0), Sel(u0(s), j)))],
                              dec=lambda s: s.v("deg") - s.v("i")),
                      1: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1, s.v("c") >= 0), Named("content", rbc_all(s, s.v("c"), s.v("i"), u0(s)))],
                              unfold=lambda s: [tz_def(Sel(u0(s), s.v("i")))], dec=lambda s: s.v("deg") + 1 - s.v("i")),
                      2: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.v("deg") + 1, s.v("c") >= 1, pow2(s.v("c")) >= 1), Named("content", rbc_all(s, s.v("c"), s.v("deg") + 1, u0(s))),
                                             Named("divided", ForAll(j, Implies(And(0 <= j, j < s.v("i")), Sel(s.arr("upol"), j) * pow2(s.v("c")) == Sel(u0(s), j)), Sel(s.narr("upol"), j))),
                                             Named("not yet", ForAll(j, Implies(Or(j < 0, s.v("i") <= j), Sel(s.arr("upol"), j) == Sel(u0(s), j)), Sel(s.narr("upol"), j)))],
                              unfold=lambda s: [tz_def(Sel(u0(s), s.v("i"))), padd(tzf(Sel(u0(s), s.v("i"))) - s.v("c"), s.v("c"), tzf(Sel(u0(s), s.v("i"))))],
                              headlemmas=lambda s: [Named("this coefficient", Implies(And(s.v("i") <= s.v("deg"), Sel(u0(s), s.v("i")) != 0), tzf(Sel(u0(s), s.v("i"))) >= s.v("c"))),
                                                    Named("exact", Implies(And(s.v("i") <= s.v("deg"), Sel(u0(s), s.v("i")) != 0),
                                                          Sel(u0(s), s.v("i")) == oddf(Sel(u0(s), s.v("i"))) * pow2(tzf(Sel(u0(s), s.v("i"))) - s.v("c")) * pow2(s.v("c"))))],
                              dec=lambda s: s.v("deg") + 1 - s.v("i"))})


# ---- quotient by x - c/2^k at a root
def dg(s):
    return s.old.at("deg", 0)


def W(s, i):
    return HO(u0(s), dg(s), s.v("k"), s.mpz("c"), i)


def nq_rest(s, lo):
    return Named("rest", ForAll(j, Implies(And(0 <= j, j <= lo), Sel(s.arr("upol"), j) == Sel(u0(s), j) * pow2((dg(s) - 1) * s.v("k"))), Sel(s.narr("upol"), j)))


def nq_scaled(s):
    return [And(s.at("deg", 0) == dg(s), s.mpz("c") == s.old.mpz("c")), Named("power", pow2((dg(s) - 1) * s.v("k")) >= 1), Named("shift", And((dg(s) - 1) * s.v("k") >= 0, (dg(s) - 1) * s.v("k") < LIM * LIM))]


def nq_hints(s, i):
    k = s.v("k")
    return [Named("exact division", s.mpz("tmp") == W(s, i + 1) * pow2((i - 1) * k) * s.mpz("c")),
            Named("new coefficient", Sel(s.arr("upol"), i) == W(s, i) * pow2((i - 1) * k)),
            Named("others", ForAll(j, Implies(j != i, Sel(s.arr("upol"), j) == Sel(s.head.arr("upol"), j)), Sel(s.narr("upol"), j)))]


def nq_quot(s, e):
    return [Named("quotient up to a power of two", And(pow2(e) >= 1, ForAll(j, Implies(And(0 <= j, j < dg(s)), Sel(s.arr("upol"), j) * pow2(e) == W(s, j + 1) * pow2(j * s.v("k"))), Sel(s.narr("upol"), j))))]


nq = Contract("USOLVEnumer_quotient", "usolve", FU,
              requires=lambda s: [And(s.at("deg", 0) >= 1, s.at("deg", 0) < LIM), And(s.v("k") >= 0, s.v("k") < LIM), Named("root", W(s, I(0)) == 0)],
              ensures=lambda s: [Named("degree", s.at("deg", 0) == dg(s) - 1),
                                 *nq_quot(s, s.g("~cont"))],
              defs=lambda s: [pow2(I(0)) == 1, W(s, dg(s)) == Sel(u0(s), dg(s))], assigns=[("upol",), ("deg",)], arrays=("upol",), single=("deg",),
              loops={0: Loop(inv=lambda s: nq_scaled(s) + [And(s.v("i") >= 0, s.v("i") <= dg(s) + 1),
                                           Named("scaled", ForAll(j, Implies(And(0 <= j, j < s.v("i")), Sel(s.arr("upol"), j) == Sel(u0(s), j) * pow2((dg(s) - 1) * s.v("k"))), Sel(s.narr("upol"), j))),
                                           Named("not yet", ForAll(j, Implies(j >= s.v("i"), Sel(s.arr("upol"), j) == Sel(u0(s), j)), Sel(s.narr("upol"), j)))],
                             dec=lambda s: dg(s) + 1 - s.v("i")),
                     1: Loop(inv=lambda s: nq_scaled(s) + [And(s.v("i") >= 0, s.v("i") <= dg(s) - 1),
                                           Named("quotient", ForAll(j, Implies(And(s.v("i") < j, j <= dg(s)), Sel(s.arr("upol"), j) == W(s, j) * pow2((j - 1) * s.v("k"))), Sel(s.narr("upol"), j))),
                                           nq_rest(s, s.v("i"))],
                             unfold=lambda s: [HOdef(u0(s), dg(s), s.v("k"), s.mpz("c"), s.v("i")),
                                               padd((s.v("i") - 1) * s.v("k"), s.v("k"), s.v("i") * s.v("k")),
                                               padd((s.v("i") - 1) * s.v("k"), (dg(s) - s.v("i")) * s.v("k"), (dg(s) - 1) * s.v("k"))],
                             headlemmas=lambda s: [Named("products", Implies(s.v("i") >= 1, And((s.v("i") - 1) * s.v("k") >= 0, (dg(s) - s.v("i")) * s.v("k") >= 0))),
                                                   Named("next", Implies(s.v("i") < dg(s), Sel(s.arr("upol"), s.v("i") + 1) == W(s, s.v("i") + 1) * pow2(s.v("i") * s.v("k")))),
                                                   Named("this", Sel(s.arr("upol"), s.v("i")) == Sel(u0(s), s.v("i")) * pow2((dg(s) - 1) * s.v("k")))],
                             hints=lambda s: nq_hints(s, s.head.v("i")), dec=lambda s: s.v("i")),
                     2: Loop(inv=lambda s: nq_scaled(s) + [And(s.v("i") >= 0, s.v("i") <= dg(s)),
                                           Named("moved", ForAll(j, Implies(And(0 <= j, j < s.v("i")), Sel(s.arr("upol"), j) == W(s, j + 1) * pow2(j * s.v("k"))), Sel(s.narr("upol"), j))),
                                           Named("not yet", ForAll(j, Implies(And(s.v("i") < j, j <= dg(s)), Sel(s.arr("upol"), j) == W(s, j) * pow2((j - 1) * s.v("k"))), Sel(s.narr("upol"), j)))],
                             dec=lambda s: dg(s) - s.v("i"))})


# ---- one refinement step
def tb(s, i):
    return s.at("tab", i)


def rn(s):
    return s.f("rt", "numer")


def rk(s):
    return s.f("rt", "k")


def val(s, k, c):
    """sign of the input polynomial at c/2^k"""
    return sg(HO(u0(s), dg(s), k, c, I(0)))


def exact(s):
    return s.f("rt", "isexact") == 1


def unchanged(s):
    return And(s.at("deg_ptr", 0) == s.old.at("deg_ptr", 0), s.arr("upol") == s.old.arr("upol"))


def ps_dg(s):
    return s.old.at("deg_ptr", 0)


def sv(s, k, c):
    return sg(HO(u0(s), ps_dg(s), k, c, I(0)))


def bracket(s, k, a, w):
    """tab[0], tab[1] carry the signs at both ends of [a/2^k, (a+w)/2^k], and these are opposite"""
    return [Named("left value", sg(tb(s, 0)) == sv(s, k, a)), Named("right value", sg(tb(s, 1)) == sv(s, k, a + w)),
            Named("sign change", And(sv(s, k, a) * sv(s, k, a + w) == -1))]


def pos_pre(s):
    return [And(rk(s) >= 0, rk(s) < LIM // 4), And(s.v("Nlog") >= 2, s.v("Nlog") < LIM // 4), And(ps_dg(s) >= 1, ps_dg(s) < LIM), s.f("rt", "isexact") == 0] + bracket(s, rk(s), rn(s), 1)


def pos_scaled(s):
    """both ends on the finer grid"""
    a, k, N = s.old.f("rt", "numer"), s.old.f("rt", "k"), s.v("Nlog")
    return [Named("shift", And(pow2(N) >= 4, Implies(N == 2, pow2(N) == 4))), finer(u0(s), ps_dg(s), k, a, N), finer(u0(s), ps_dg(s), k, a + 1, N)]


def step_post(s):
    a, k, N = s.old.f("rt", "numer"), s.old.f("rt", "k"), s.v("Nlog")
    P = pow2(N)
    n, k2, ex = rn(s), rk(s), exact(s)
    e = s.g("~e")
    suc = s.at("success", 0)
    return [Named("flag", Or(s.f("rt", "isexact") == 0, ex)),
            Named("polynomial kept", Implies(Not(ex), unchanged(s))),
            Named("width", Or(k2 == k, k2 == k + N)),
            Named("progress", Implies(And(Not(ex), Or(suc == 1, N == 2)), k2 == k + N)),
            Named("unchanged", Implies(And(Not(ex), k2 == k), n == a)),
            Named("inside", Implies(And(Not(ex), k2 == k + N), And(a * P <= n, n + 1 <= (a + 1) * P))),
            Named("signs", Implies(Not(ex), And(sg(tb(s, 0)) == sv(s, k2, n), sg(tb(s, 1)) == sv(s, k2, n + 1), sv(s, k2, n) * sv(s, k2, n + 1) == -1))),
            Named("exact root inside", Implies(ex, And(k2 == k + N, a * P < n, n < (a + 1) * P))),
            Named("exact root", Implies(ex, sv(s, k2, n) == 0)),
            Named("sign information kept", sg(tb(s, 0)) != sg(tb(s, 1)))]


def w2(s, left):
    a, k, N = s.old.f("rt", "numer"), s.old.f("rt", "k"), s.v("Nlog")
    P = pow2(N)
    x, b, nk = s.at("x", 0), s.at("b", 0), s.v("newk")
    return [Named("scaled", And(rn(s) == a * P, rk(s) == k, nk == k + N, N == 2, P == 4)), unchanged(s), s.f("rt", "isexact") == 0, b == x + 1,
            Named("inside", And(a * P <= x, b <= (a + 1) * P)),
            Named("left value", sg(tb(s, 0)) == sv(s, nk, x)), Named("right value", sg(tb(s, 1)) == sv(s, nk, b)),
            Named("not yet", And(sv(s, nk, x) == sv(s, nk, b), sv(s, nk, x) == (sv(s, k, a + 1) if left else sv(s, k, a)))),
            s.at("success", 0) == 0] + ([] if left else [And(s.v("index") >= 1, s.v("index") <= b - 1 - a * P)])


rp = Contract("refine_root_by_N_positive_k", "usolve", F, requires=pos_pre, ensures=step_post, exit_ok=False,
              defs=pos_scaled, assigns=[("upol",), ("deg_ptr",), ("rt", "numer"), ("rt", "k"), ("rt", "isexact"), ("tab",), ("success",)],
              arrays=("upol", "tab"), single=("deg_ptr", "success"), overflow=False,
              loops={0: Loop(inv=lambda s: w2(s, False)), 1: Loop(inv=lambda s: w2(s, True))})


# ---- intervals of length at least one: [a, a + 2^m], m = -k
def sc(k):
    return If(k > 0, k, I(0))


def wd(k):
    return If(k >= 0, I(1), pow2(-k))


def neg(s):
    a, k, N = s.old.f("rt", "numer"), -s.old.f("rt", "k"), s.v("Nlog")
    nk = N - k
    step = If(nk >= 0, I(1), pow2(k - N))
    base = If(nk > 0, a * pow2(nk), a)
    return a, k, N, nk, sc(nk), step, base, pow2(N)


def neg_pre(s):
    k = -rk(s)
    return [And(k >= 1, k < LIM // 4), And(s.v("Nlog") >= 2, s.v("Nlog") < LIM // 4), And(ps_dg(s) >= 1, ps_dg(s) < LIM), s.f("rt", "isexact") == 0] + bracket(s, I(0), rn(s), pow2(k))


def neg_scaled(s):
    a, k, N, nk, q, step, base, P = neg(s)
    u, d = u0(s), ps_dg(s)
    return [And(P >= 4, Implies(N == 2, P == 4), step >= 1, pow2(k) >= 1, pow2(I(0)) == 1), Implies(nk <= 0, pow2(k) == P * pow2(k - N)), Implies(nk >= 0, And(P == pow2(k) * pow2(nk), pow2(nk) >= 1)),
            Implies(nk > 0, And(finer(u, d, I(0), a, nk), finer(u, d, I(0), a + pow2(k), nk)))]


def neg_post(s):
    a, k, N, nk, q, step, base, P = neg(s)
    n, k2, ex = rn(s), rk(s), exact(s)
    suc = s.at("success", 0)
    return [Named("flag", Or(s.f("rt", "isexact") == 0, ex)),
            Named("polynomial kept", Implies(Not(ex), unchanged(s))),
            Named("width", Or(k2 == -k, k2 == nk)),
            Named("progress", Implies(And(Not(ex), Or(suc == 1, N == 2)), k2 == nk)),
            Named("unchanged", Implies(And(Not(ex), k2 == -k), n == a)),
            Named("inside", Implies(And(Not(ex), k2 == nk), And(base <= n, n + step <= base + P * step))),
            Named("signs", Implies(And(Not(ex), k2 == nk), And(sg(tb(s, 0)) == sv(s, q, n), sg(tb(s, 1)) == sv(s, q, n + step), sv(s, q, n) * sv(s, q, n + step) == -1))),
            Named("signs kept", Implies(And(Not(ex), k2 == -k), And(sg(tb(s, 0)) == sv(s, I(0), a), sg(tb(s, 1)) == sv(s, I(0), a + pow2(k))))),
            Named("exact root inside", Implies(ex, And(k2 == nk, base < n, n < base + P * step))),
            Named("exact root", Implies(ex, sv(s, q, n) == 0)),
            Named("sign information kept", sg(tb(s, 0)) != sg(tb(s, 1)))]


def wn(s, left):
    a, k, N, nk, q, step, base, P = neg(s)
    x, b, m = s.at("x", 0), s.at("b", 0), s.g("~m")
    return [Named("scaled", And(rn(s) == a, rk(s) == -k, s.v("newk") == nk, s.v("k") == k, N == 2, P == 4)), unchanged(s), s.f("rt", "isexact") == 0,
            Named("grid", Or(*[And(m == t, x == base + t * step, b == base + (t + 1) * step) for t in range(4)])),
            Named("left value", sg(tb(s, 0)) == sv(s, q, x)), Named("right value", sg(tb(s, 1)) == sv(s, q, b)),
            Named("not yet", And(sv(s, q, x) == sv(s, q, b), sv(s, q, x) == (sv(s, I(0), a + pow2(k)) if left else sv(s, I(0), a)))),
            s.at("success", 0) == 0]


rng_ = Contract("refine_root_by_N_negative_k", "usolve", F, requires=neg_pre, ensures=neg_post, exit_ok=False,
                defs=neg_scaled, assigns=[("upol",), ("deg_ptr",), ("rt", "numer"), ("rt", "k"), ("rt", "isexact"), ("tab",), ("success",)],
                arrays=("upol", "tab"), single=("deg_ptr", "success"), overflow=False,
                loops={0: Loop(inv=lambda s: wn(s, False), init_ghost=lambda s: {"~m": s.v("index")}, ghost=lambda s: {"~m": s.g("~m") + 1}),
                       1: Loop(inv=lambda s: wn(s, True), init_ghost=lambda s: {"~m": s.v("index") - 1}, ghost=lambda s: {"~m": s.g("~m") - 1})})


# ---- one step, either representation; repeated steps
def gbr(s):
    """the interval [a, a+width] of rt brackets a sign change of the polynomial, tab carries the signs"""
    k, a = rk(s), rn(s)
    return bracket(s, sc(k), a, wd(k))


def inside(s, ex):
    """rt lies in the initial interval, both written on the new grid"""
    a, k, n, k2 = s.old.f("rt", "numer"), s.old.f("rt", "k"), rn(s), rk(s)
    E = pow2(sc(k2) - sc(k))
    lo, hi = a * E, (a + wd(k)) * E
    return And(lo < n, n < hi) if ex else And(lo <= n, n + wd(k2) <= hi)


def grid(s):
    """the same ends on the new grid"""
    a, k, k2 = s.old.f("rt", "numer"), s.old.f("rt", "k"), rk(s)
    u, d = u0(s), ps_dg(s)
    return [pow2(I(0)) == 1]


def gpost(s):
    ex = exact(s)
    return [Named("flag", Or(s.f("rt", "isexact") == 0, ex)), Named("width", rk(s) >= s.old.f("rt", "k")),
            Named("polynomial kept", Implies(Not(ex), unchanged(s))),
            Named("still a sign change", Implies(Not(ex), And(*[g.g for g in gbr(s)]))),
            Named("inside", Implies(Not(ex), inside(s, False))),
            Named("exact root inside", Implies(ex, inside(s, True))), Named("exact root", Implies(ex, sv(s, sc(rk(s)), rn(s)) == 0)),
            Named("sign information kept", sg(tb(s, 0)) != sg(tb(s, 1)))]


def one_pre(s):
    return [And(rk(s) > -LIM // 4, rk(s) < LIM // 4), And(s.v("Nlog") >= 2, s.v("Nlog") < LIM // 4), And(ps_dg(s) >= 1, ps_dg(s) < LIM), s.f("rt", "isexact") == 0] + gbr(s)


OUT = [("upol",), ("deg_ptr",), ("rt", "numer"), ("rt", "k"), ("rt", "isexact"), ("tab",)]


def one_defs(s):
    k, N = s.old.f("rt", "k"), s.v("Nlog")
    return [pow2(I(0)) == 1, pow2(N) >= 4, Implies(And(k < 0, k + N <= 0), pow2(-k) == pow2(N) * pow2(-k - N)), Implies(And(k < 0, k + N >= 0), pow2(N) == pow2(-k) * pow2(k + N)),
            Implies(k < 0, pow2(-k) >= 1)]


one = Contract("refine_positive_root_by_N", "usolve", F, requires=one_pre,
               ensures=lambda s: gpost(s) + [Named("new width", Or(rk(s) == s.old.f("rt", "k"), rk(s) == s.old.f("rt", "k") + s.v("Nlog"))),
                                             Named("progress", Implies(And(Not(exact(s)), Or(s.at("success", 0) == 1, s.v("Nlog") == 2)), rk(s) == s.old.f("rt", "k") + s.v("Nlog")))],
               exit_ok=False, defs=one_defs, assigns=OUT + [("success",)], arrays=("upol", "tab"), single=("deg_ptr", "success"), overflow=False)


def qir_inv(s):
    k = rk(s)
    pr = s.v("prec")
    return [s.f("rt", "isexact") == 0, And(k >= s.old.f("rt", "k"), k < LIM // 8), And(s.v("Nlog") >= 2, s.v("Nlog") <= LIM // 16), Named("power of two", And(s.v("Nlog") == pow2(s.g("~e")), s.g("~e") >= 1)),
            s.g("~n") == rn(s), s.g("~k") == k, Named("polynomial kept", unchanged(s)), *gbr(s), Named("inside", inside(s, False)), Named("sign information kept", sg(tb(s, 0)) != sg(tb(s, 1)))]


def qir_hints(s, h):
    """compose the step with the path so far"""
    a0, k0 = s.old.f("rt", "numer"), s.old.f("rt", "k")
    n, k, n2, k2 = h.g("~n"), h.g("~k"), rn(s), rk(s)
    E1, E2, E = pow2(sc(k) - sc(k0)), pow2(sc(k2) - sc(k)), pow2(sc(k2) - sc(k0))
    return [Named("grids", And(sc(k) - sc(k0) >= 0, sc(k2) - sc(k) >= 0)), P2Add(sc(k) - sc(k0), sc(k2) - sc(k)),
            Named("scale", And(E == E1 * E2, E2 >= 1)), Named("composed", And(a0 * E1 * E2 <= n * E2, (n + wd(k)) * E2 <= (a0 + wd(k0)) * E1 * E2))]


def qir_ghost(s):
    N, N0 = s.v("Nlog"), s.head.v("Nlog")
    return {"~e": If(N > N0, s.g("~e") + 1, If(N < N0, s.g("~e") - 1, s.g("~e"))), "~n": rn(s), "~k": rk(s)}


qir = Contract("refine_QIR_positive_root", "usolve", F,
               requires=lambda s: [And(rk(s) > -LIM // 64, rk(s) < LIM // 64), And(s.v("prec") >= 0, s.v("prec") < LIM // 64), And(ps_dg(s) >= 1, ps_dg(s) < LIM), s.f("rt", "isexact") == 0] + gbr(s),
               ensures=lambda s: gpost(s) + [Named("precision reached", Or(exact(s), rk(s) >= s.v("prec")))],
               exit_ok=False, defs=lambda s: [pow2(I(0)) == 1], assigns=OUT, arrays=("upol", "tab"), single=("deg_ptr",), overflow=False,
               post_hints=lambda s: qir_hints(s, s),
               loops={0: Loop(inv=qir_inv, hints=lambda s: qir_hints(s, s.head), init_ghost=lambda s: {"~e": I(1), "~n": rn(s), "~k": rk(s)}, ghost=qir_ghost,
                              unfold=lambda s: [pow2(I(1)) == 2, pow2(s.g("~e") + 1) == 2 * pow2(s.g("~e")), Implies(s.g("~e") >= 1, And(2 * pow2(s.g("~e") - 1) == pow2(s.g("~e")), pow2(s.g("~e") - 1) >= 1)),
                                                Implies(s.g("~e") <= 1, pow2(s.g("~e")) <= 2), Implies(s.g("~e") >= 2, pow2(s.g("~e")) >= 4)])})


def vb_val(s, c):
    return HO(u0(s), s.v("deg"), sc(rk(s)), c, I(0))


gvb = Contract("get_values_at_bounds", "usolve", F,
               requires=lambda s: [And(s.v("deg") >= 1, s.v("deg") < LIM), And(rk(s) > -LIM // 4, rk(s) < LIM // 4)],
               ensures=lambda s: [Named("left value", tb(s, 0) == vb_val(s, rn(s))), Named("right value", tb(s, 1) == vb_val(s, rn(s) + wd(rk(s)))),
                                  Named("root kept", And(rn(s) == s.old.f("rt", "numer"), rk(s) == s.old.f("rt", "k")))],
               defs=lambda s: [pow2(I(0)) == 1], assigns=[("tab",)], arrays=("upol", "tab"), overflow=False)

CONTRACTS = [bev, ev, rbc, nq, rp, rng_, one, qir, gvb]
IMPORTS = []
BOUND = ("square-free polynomials of degree up to 9 with prescribed (close, dyadic, integer, irrational, huge) or random roots, intervals with k from -45 to 60, "
         "steps with 2 to 64 bits, precision up to 300; isolating intervals refined together, with exact roots present")
ASSUMPTIONS = ["GMP integers are mathematical integers", "1L << Nlog is read as a mathematical power (only used for Nlog == 2)",
               "moving a point to a finer grid does not change the sign of the polynomial: consequence of the two lemmas proved here, by induction on the degree"]

EXTRA10 = r"""
double realtime(void){ return 0; }
double cputime(void){ return 0; }
/*STUBS*/
static void vf_in(interval *r, mpz_t numer, long *info){ mpz_init_set(r->numer, numer); r->k = info[0]; r->isexact = info[1]; r->sign_left = info[2]; }
static void vf_o(interval *r, mpz_t numer, long *info){ mpz_set(numer, r->numer); info[0] = r->k; info[1] = r->isexact; info[2] = r->sign_left; }
int vf_step(mpz_t *up, unsigned long *deg, mpz_t numer, long *info, mpz_t *tab, long N){
  interval r; int suc = 7; vf_in(&r, numer, info); refine_positive_root_by_N(up, deg, &r, tab, N, &suc, 0); vf_o(&r, numer, info); return suc; }
void vf_qir(mpz_t *up, unsigned long *deg, mpz_t numer, long *info, mpz_t *tab, int prec){
  interval r; vf_in(&r, numer, info); refine_QIR_positive_root(up, deg, &r, tab, prec, 0); vf_o(&r, numer, info); }
void vf_vals(mpz_t *up, unsigned long deg, mpz_t numer, long *info, mpz_t *tab){ interval r; vf_in(&r, numer, info); get_values_at_bounds(up, deg, &r, tab); }
void vf_nq(mpz_t *up, unsigned long *deg, mpz_t c, unsigned long k){ mpz_t x; mpz_init_set(x, c); USOLVEnumer_quotient(up, deg, x, k); }
long vf_rbc(mpz_t *up, unsigned long deg){ return mpz_poly_remove_binary_content(up, deg); }
void vf_all(mpz_t *up, unsigned long *deg, mpz_t *numer, long *info, int nn, int np, int prec, int ad){
  interval *r = malloc(sizeof(interval) * (nn + np + 1)); int i;
  for(i = 0; i < nn + np; i++) vf_in(r + i, numer[i], info + 3*i);
  if(ad) refine_QIR_roots_adaptative(up, deg, r, nn, np, prec, 0, 1e9, 1); else refine_QIR_roots(up, deg, r, nn, np, prec, 0, 1e9, 1);
  for(i = 0; i < nn + np; i++) vf_o(r + i, numer[i], info + 3*i);
}
"""


def concrete(ctx):
    import usolib as U
    from usolib import Fr, sg as sgn
    pev = U.ev
    rng = ctx.rng
    v, l, i_ = c_void_p, ctypes.c_long, c_int
    L = ctx.lib("usolve", "none", [], EXTRA10)
    step = L.sym("vf_step", i_, v, v, v, v, v, l)
    qir1 = L.sym("vf_qir", None, v, v, v, v, v, i_)
    vals = L.sym("vf_vals", None, v, ctypes.c_ulong, v, v, v)
    nquo = L.sym("vf_nq", None, v, v, v, ctypes.c_ulong)
    rbin = L.sym("vf_rbc", l, v, ctypes.c_ulong)
    allr = L.sym("vf_all", None, v, v, v, v, i_, i_, i_, i_)
    if step is None:
        return

    def box(n, k):
        return (Fr(n), Fr(n) + Fr(2) ** -k) if k <= 0 else (Fr(n) / 2 ** k, Fr(n + 1) / 2 ** k)

    def poly():
        return U.from_roots(rng, 6) if rng.random() < .7 else U.randpoly(rng, rng.randrange(1, 9), rng.choice([3, 20, 80]))

    def isolating(p, ch, a, b):
        """a random grid interval around the only root in (a, b], not touching another one; a direct hit is an exact root"""
        lo, hi = a, b
        for _ in range(60):
            k = rng.choice([-45, -20, -7, -3, -2, -1, 0, 1, 2, 5, 12, 30, 60])
            lo, hi = U.approx(p, ch, a, b, max(k, 0) + 70)
            if k <= 0:
                w = Fr(2) ** -k
                n = (lo // 1) - rng.choice([0, 0, 1, int(w) - 1, rng.randrange(0, int(w))]) if w > 1 else lo // 1
            else:
                n = lo * 2 ** k // 1
            n = int(n)
            x, y = box(n, k)
            if pev(p, x) == 0 or pev(p, y) == 0 or (x < 0 < y):
                continue
            if U.count(ch, x, y) == 1 and x <= hi and lo < y and U.count(ch, max(x, lo), min(y, hi)) == 1:
                return n, k
        return None

    def same_up_to_2(got, want):
        """got = want * 2^e"""
        i = next((i for i, c in enumerate(want) if c), None)
        if i is None or not got[i]:
            return False
        r = Fr(got[i]) / want[i]
        if r <= 0 or (r.numerator & (r.numerator - 1)) or (r.denominator & (r.denominator - 1)):
            return False
        return all(g == r * w for g, w in zip(got, want))

    def divided(p, x):
        q, c = [], Fr(0)
        for a in reversed(p):
            c = c * x + a
            q.append(c)
        return list(reversed(q[:-1]))

    for n in range(ctx.scale(2500, 20000)):
        if not ctx.time_left(.3):
            break
        p = [rng.choice([0, rng.randrange(-2 ** 60, 2 ** 60)]) * 2 ** rng.choice([0, 1, 5, 64, 80]) for _ in range(rng.randrange(1, 9))]
        p[-1] = p[-1] or 8
        z = Z(p)
        ctx.case("mpz_poly_remove_binary_content", p)
        c = rbin(z.p(), len(p) - 1)
        ctx.check(z.all() == [x >> c for x in p] and all(x % 2 ** c == 0 for x in p), "mpz_poly_remove_binary_content", p, "divided by 2^c exactly", (c, z.all()), "content")
        k = rng.choice([0, 0, 1, 3, 20])
        c = rng.choice([1, -1, 2 * rng.randrange(-50, 50) + 1, rng.randrange(-2 ** 50, 2 ** 50), 0])
        f = U.pmul([-c, 2 ** k], p)
        z, dg = Z(f), ctypes.c_ulong(len(f) - 1)
        inp = dict(poly=f, c=c, k=k)
        ctx.case("USOLVEnumer_quotient", inp)
        nquo(z.p(), byref(dg), Z(c).p(), k)
        ctx.check(dg.value == len(f) - 2 and same_up_to_2(z.all()[:len(p)], p), "USOLVEnumer_quotient", inp, str(p), (dg.value, z.all()), "quotient by the linear factor")
    for n in range(ctx.scale(2000, 16000)):
        if not ctx.time_left(.7):
            break
        p = poly()
        ch = U.sturm(p)
        br = U.brackets(p, ch, Fr(1, 2 ** 50))
        if not br:
            continue
        a, b = rng.choice(br)
        if b <= 0 or a < 0:
            continue
        bx = isolating(p, ch, a, b)
        if not bx or bx[0] < 0:
            continue
        num, k = bx
        inp = dict(poly=p, numer=num, k=k)
        info = arr(l, [k, 0, 0])
        z, zn, tab, dg = Z(p), Z(num), Z([0] * 8), ctypes.c_ulong(len(p) - 1)
        ctx.case("get_values_at_bounds", inp)
        vals(z.p(), len(p) - 1, zn.p(), info, tab.p())
        x, y = box(num, k)
        s = 2 ** (max(k, 0) * (len(p) - 1))
        ctx.check(tab.get(0) == pev(p, x) * s and tab.get(1) == pev(p, y) * s, "get_values_at_bounds", inp, str((pev(p, x) * s, pev(p, y) * s)), tab.all()[:2], "values at the ends")

        def after(fn, inp, num, k, least):
            n2, k2, ex = zn.get(), info[0], info[1]
            if ex == 1:
                r = Fr(n2) / 2 ** max(k2, 0)
                ctx.check(x < r < y and pev(p, r) == 0, fn, inp, "a root in the interval", (n2, k2, "exact"), "exact root")
                ctx.check(dg.value == len(p) - 2 and same_up_to_2(z.all()[:len(p) - 1], divided(p, r)), fn, inp, "the factor is divided out", (dg.value, z.all()), "exact root removed")
                return None
            u, w = box(n2, k2)
            ctx.check(x <= u and w <= y and U.count(ch, u, w) == 1 and pev(p, u) and pev(p, w), fn, inp, f"inside {x}, {y} around the root", (n2, k2), "root kept")
            ctx.check(sgn(tab.get(0)) == sgn(pev(p, u)) and sgn(tab.get(1)) == sgn(pev(p, w)), fn, inp, "signs at the ends", tab.all()[:2], "sign information")
            ctx.check(z.all() == p and dg.value == len(p) - 1, fn, inp, "polynomial kept", z.all(), "polynomial kept")
            ctx.check(k2 >= least, fn, inp, f"k at least {least}", k2, "precision")
            return n2, k2
        if rng.random() < .6:
            cur = (num, k)
            for _ in range(rng.randrange(1, 5)):
                N = rng.choice([2, 2, 4, 8, 16, 32, 64, 128])
                inp2 = dict(inp, numer=cur[0], k=cur[1], N=N)
                x, y = box(*cur)
                ctx.case("refine_positive_root_by_N", inp2)
                suc = step(z.p(), byref(dg), zn.p(), info, tab.p(), N)
                cur2 = after("refine_positive_root_by_N", inp2, *cur, cur[1] + (N if suc or N == 2 else 0))
                if cur2 is None:
                    break
                cur = cur2
        else:
            prec = rng.choice([1, 10, 64, 128, 300])
            inp = dict(inp, precision=prec)
            ctx.case("refine_QIR_positive_root", inp)
            qir1(z.p(), byref(dg), zn.p(), info, tab.p(), prec)
            after("refine_QIR_positive_root", inp, num, k, prec)
    for n in range(ctx.scale(1500, 9000)):
        if not ctx.time_left(.97):
            break
        p = poly()
        ch = U.sturm(p)
        br = U.brackets(p, ch, Fr(1, 2 ** 50))
        rts = []
        for a, b in br:
            if a < 0 <= b and pev(p, Fr(0)) == 0:
                rts.append((0, 0, 1, a, b))
                continue
            bx = isolating(p, ch, a, b)
            q = next((Fr(m, 2 ** e) for e in (0, 1, 3, 20) for m in [int(b * 2 ** e // 1)] if a < Fr(m, 2 ** e) <= b and pev(p, Fr(m, 2 ** e)) == 0), None)
            if q is not None and (bx is None or rng.random() < .5):
                e = q.denominator.bit_length() - 1
                rts.append((q.numerator, e, 1, a, b))
            elif bx:
                rts.append((bx[0], bx[1], 0, a, b))
            else:
                rts = None
                break
        if not rts:
            continue
        # intervals of different roots must not overlap
        ngr = [r for r in rts if r[0] < 0]
        psr = [r for r in rts if r[0] >= 0]
        rts = ngr + psr
        prec, ad = rng.choice([4, 32, 128]), rng.choice([0, 1])
        inp = dict(poly=p, roots=[r[:3] for r in rts], negative=len(ngr), precision=prec, adaptative=ad)
        fn = "refine_QIR_roots_adaptative" if ad else "refine_QIR_roots"
        ctx.case(fn, inp)
        z, dg, zn = Z(p), ctypes.c_ulong(len(p) - 1), Z([r[0] for r in rts])
        info = arr(l, [t for r in rts for t in (r[1], r[2], 0)])
        allr(z.p(), byref(dg), zn.p(), info, len(ngr), len(psr), prec, ad)
        for i, (m, k, ex, a, b) in enumerate(rts):
            m2, k2, e2 = zn.get(i), info[3 * i], info[3 * i + 1]
            if ex or e2 == 1:
                r = Fr(m2) / Fr(2) ** k2
                ctx.check(e2 == 1 and a < r <= b and pev(p, r) == 0, fn, inp, f"root {i} exact", (m2, k2, e2), "exact root")
            else:
                u, w = box(m2, k2)
                x, y = box(m, k)
                ctx.check(x <= u and w <= y and U.count(ch, max(u, a), min(w, b)) + (pev(p, max(u, a)) == 0) == 1 and k2 >= prec, fn, inp, f"root {i} kept, k >= {prec}", (m2, k2), "root kept, precision reached")
