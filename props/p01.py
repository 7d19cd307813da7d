"""P01 monomial comparisons: every comparator is the chosen admissible order."""
from common import *

F = "src/neogb/order.c"
k, j2 = z3.Ints("k_ j_")


def row(s, h, ht="ht"):
    return Sel(s.mem2(ht, "ev"), h)


def fld(s, f, ht="ht"):
    return s.f(ht, f)


# ---- the orders; gt(A, B) over arrays of exponents, layout of length evl
def rev_diff(A, B, lo, hi):
    """k is the last place in [lo,hi) where A and B differ"""
    return And(k >= lo, k < hi, Sel(A, k) != Sel(B, k), ForAll(j2, Implies(And(j2 > k, j2 < hi), Sel(A, j2) == Sel(B, j2)), Sel(A, j2)))


def fwd_diff(A, B, lo, hi):
    return And(k >= lo, k < hi, Sel(A, k) != Sel(B, k), ForAll(j2, Implies(And(j2 >= lo, j2 < k), Sel(A, j2) == Sel(B, j2)), Sel(A, j2)))


def same(A, B, lo, hi):
    return ForAll(j2, Implies(And(j2 >= lo, j2 < hi), Sel(A, j2) == Sel(B, j2)), Sel(A, j2))


def verdict(r, A, B):
    """at the deciding place k of a reverse lexicographic block: smaller exponent wins"""
    return And(Implies(Sel(A, k) < Sel(B, k), r > 0), Implies(Sel(A, k) > Sel(B, k), r < 0))


def drl(r, A, B, evl, ebl):
    d = lambda i: (Sel(A, i), Sel(B, i))
    a0, b0 = d(0)
    return [
        Named("higher degree wins", And(Implies(a0 > b0, r > 0), Implies(a0 < b0, r < 0))),
        Named("ties by reverse lex", ForAll(k, Implies(And(a0 == b0, rev_diff(A, B, 1, evl)), verdict(r, A, B)))),
        Named("equal monomials compare equal", Implies(same(A, B, 0, evl), r == 0)),
        Named("only equal monomials compare equal", Implies(r == 0, same(A, B, 0, evl))),
    ]


def be(r, A, B, evl, ebl):
    a0, b0, a1, b1 = Sel(A, 0), Sel(B, 0), Sel(A, ebl), Sel(B, ebl)
    return [
        Named("first block: higher degree wins", And(Implies(a0 > b0, r > 0), Implies(a0 < b0, r < 0))),
        Named("first block: ties by reverse lex", ForAll(k, Implies(And(a0 == b0, rev_diff(A, B, 1, ebl)), verdict(r, A, B)))),
        Named("second block: higher degree wins", Implies(same(A, B, 0, ebl), And(Implies(a1 > b1, r > 0), Implies(a1 < b1, r < 0)))),
        Named("second block: ties by reverse lex", ForAll(k, Implies(And(same(A, B, 0, ebl), a1 == b1, rev_diff(A, B, ebl + 1, evl)), verdict(r, A, B)))),
        Named("equal monomials compare equal", Implies(same(A, B, 0, evl), r == 0)),
        Named("only equal monomials compare equal", Implies(r == 0, same(A, B, 0, evl))),
    ]


def lex(r, A, B, evl, ebl):
    return [
        Named("first differing variable decides", ForAll(k, Implies(fwd_diff(A, B, 1, evl), And(
            Implies(Sel(A, k) > Sel(B, k), r > 0), Implies(Sel(A, k) < Sel(B, k), r < 0))))),
        Named("equal monomials compare equal", Implies(same(A, B, 1, evl), r == 0)),
        Named("only equal monomials compare equal", Implies(r == 0, same(A, B, 1, evl))),
    ]


ORD = dict(drl=drl, be=be, lex=lex)


def pre(s, o, ht):
    evl, ebl = fld(s, "evl", ht), fld(s, "ebl", ht)
    if o == "be":
        return [ebl >= 2, evl >= ebl + 2, evl < 2 ** 31]
    return [evl >= 2, evl < 2 ** 31]


def iloop(A, B, o, ht):
    """the scanning loop of each block"""
    def rv(lo, hi):
        return Loop(inv=lambda s: [And(s.v("i") >= lo(s), s.v("i") < hi(s)),
                                   ForAll(j2, Implies(And(j2 > s.v("i"), j2 < hi(s)), Sel(A(s), j2) == Sel(B(s), j2)), Sel(A(s), j2))],
                    dec=lambda s: s.v("i"))
    evl, ebl = (lambda s: fld(s, "evl", ht)), (lambda s: fld(s, "ebl", ht))
    if o == "drl":
        return {0: rv(lambda s: 1, evl)}
    if o == "be":
        return {0: rv(lambda s: 1, ebl), 1: rv(ebl, evl)}
    return {0: Loop(inv=lambda s: [And(s.v("i") >= 1, s.v("i") < evl(s)),
                                   ForAll(j2, Implies(And(j2 >= 1, j2 < s.v("i")), Sel(A(s), j2) == Sel(B(s), j2)), Sel(A(s), j2))],
                    dec=lambda s: evl(s) - s.v("i"))}


def cmp_contract(name, o, sign, ht, A, B, pivots=None, requires=None):
    def ens(s):
        cl = ORD[o](sign * s.res, A(s), B(s), fld(s, "evl", ht), fld(s, "ebl", ht))
        if pivots:
            ia, ib = pivots(s)
            cl = [Named(c.name, Implies(ia == ib, c.g)) for c in cl] + [
                Named("known pivots first", And(Implies(ia < ib, s.res > 0), Implies(ia > ib, s.res < 0)))]
        return cl
    return Contract(name, "neogb", F, requires=lambda s: pre(s, o, ht) + (requires(s) if requires else []), ensures=ens,
                    loops=iloop(A, B, o, ht), single=["htp"])


import re as _re
OFFSET = int(_re.search(r"#define\s+OFFSET\s+(\d+)", open(os.path.join(harness.REPO, "src/neogb/data.h")).read()).group(1))
COLS = int(_re.search(r"#define\s+ORDER_COLUMNS\s+(\d+)", open(os.path.join(harness.REPO, "src/neogb/data.h")).read()).group(1))


def hrow(p, off):
    return lambda s: row(s, Sel(Sel(s.rows(p + "*"), 0), off), "htp")


def hd_idx(s, h, ht="ht"):
    return Sel(s.mem(ht, "hd", "idx"), h)


CONTRACTS = []
for o in ("drl", "lex", "be"):
    A, B = (lambda s: row(s, s.v("a"))), (lambda s: row(s, s.v("b")))
    CONTRACTS.append(cmp_contract(f"monomial_cmp_{o}", o, 1, "ht", A, B))
    CONTRACTS.append(cmp_contract(f"monomial_cmp_pivots_{o}", o, -1, "ht", A, B,
                                  pivots=(lambda s: (hd_idx(s, s.v("a")), hd_idx(s, s.v("b")))) if COLS else None))
    CONTRACTS.append(cmp_contract(f"initial_input_cmp_{o}", o, 1, "htp", hrow("a", OFFSET), hrow("b", OFFSET)))
    CONTRACTS.append(cmp_contract(f"initial_gens_cmp_{o}", o, -1, "htp", hrow("a", 0), hrow("b", 0)))

    # column order of the matrices
    CONTRACTS.append(cmp_contract(
        f"hcm_cmp_pivots_{o}", o, -1, "htp", (lambda s: row(s, s.at("a"), "htp")), (lambda s: row(s, s.at("b"), "htp")),
        pivots=(lambda s: (hd_idx(s, s.at("a"), "htp"), hd_idx(s, s.at("b"), "htp"))) if COLS else None))

CONTRACTS.append(cmp_contract("initial_input_cmp_sig", "drl", -1, "htp", hrow("a", OFFSET), hrow("b", OFFSET)))

# ---- admissibility of the orders themselves (lemmas over the definitions used above)
Aa, Ba, Ca, Sa, AS, BS = (z3.Array(n, z3.IntSort(), z3.IntSort()) for n in ("A", "B", "C", "S", "AS", "BS"))
k1, k2, km, nn, eb = z3.Ints("k1 k2 km evl ebl")


def gt_at(o, A, B, kk):
    def rd(lo, hi):
        return And(kk >= lo, kk < hi, ForAll(j2, Implies(And(j2 > kk, j2 < hi), Sel(A, j2) == Sel(B, j2)), Sel(A, j2)), Sel(A, kk) < Sel(B, kk))
    if o == "drl":
        return Or(Sel(A, 0) > Sel(B, 0), And(Sel(A, 0) == Sel(B, 0), rd(1, nn)))
    if o == "lex":
        return And(kk >= 1, kk < nn, Sel(A, kk) > Sel(B, kk), ForAll(j2, Implies(And(j2 >= 1, j2 < kk), Sel(A, j2) == Sel(B, j2)), Sel(A, j2)))
    first = And(Sel(A, 0) == Sel(B, 0), rd(1, eb))
    eq1 = ForAll(j2, Implies(And(j2 >= 0, j2 < eb), Sel(A, j2) == Sel(B, j2)), Sel(A, j2))
    return Or(Sel(A, 0) > Sel(B, 0), first, And(eq1, Or(Sel(A, eb) > Sel(B, eb), And(Sel(A, eb) == Sel(B, eb), rd(eb + 1, nn)))))


def lemmas(o):
    lay = And(nn >= 2) if o != "be" else And(eb >= 2, nn >= eb + 2)
    g1, g2 = gt_at(o, Aa, Ba, k1), gt_at(o, Ba, Ca, k2)
    addp = And(ForAll(j2, Sel(AS, j2) == Sel(Aa, j2) + Sel(Sa, j2), Sel(AS, j2)), ForAll(j2, Sel(BS, j2) == Sel(Ba, j2) + Sel(Sa, j2), Sel(BS, j2)))
    tr = Or(gt_at(o, Aa, Ca, k1), gt_at(o, Aa, Ca, k2))
    return [Pure("irreflexive and asymmetric", Implies(And(lay, g1), Not(gt_at(o, Ba, Aa, k2)))),
            Pure("transitive", Implies(And(lay, g1, g2), tr)),
            Pure("compatible with multiplication", Implies(And(lay, g1, addp), gt_at(o, AS, BS, k1)))]


for c in CONTRACTS:
    if c.name in ("monomial_cmp_drl", "monomial_cmp_be", "monomial_cmp_lex"):
        c.ensures = (lambda old, o: lambda s: old(s) + (lemmas(o) if s.st is not None and not getattr(s.eng, "_lem", False) and not setattr(s.eng, "_lem", True) else []))(c.ensures, c.name[13:])

# ---- pairs: the comparison calls the installed monomial comparison
mc = z3.Function("installed_cmp", z3.IntSort(), z3.IntSort(), z3.IntSort())
ptr_cmp = Contract("*monomial_cmp", "neogb", F, assumed="function pointer: any of the comparators above (result named installed_cmp)",
                   params=["a", "b", "ht"], ensures=lambda s: [s.res == mc(s.v("a"), s.v("b"))])
CONTRACTS.append(ptr_cmp)


def agree(r, m):
    return And(Implies(m > 0, r > 0), Implies(m < 0, r < 0))


def lcm_cmp(s):
    return mc(s.f("a", "lcm"), s.f("b", "lcm"))


CONTRACTS.append(Contract("spair_cmp_drl", "neogb", F, single=["a", "b", "htp"],
                          ensures=lambda s: [Named("pairs by lcm", agree(s.res, lcm_cmp(s)))]))
CONTRACTS.append(Contract("spair_cmp_be", "neogb", F, single=["a", "b", "htp"],
                          requires=lambda s: [And(s.f("a", "deg") >= 0, s.f("b", "deg") >= 0)],
                          ensures=lambda s: [Named("pairs by degree", And(Implies(s.f("a", "deg") < s.f("b", "deg"), s.res < 0), Implies(s.f("a", "deg") > s.f("b", "deg"), s.res > 0))),
                                             Named("then by lcm", Implies(s.f("a", "deg") == s.f("b", "deg"), agree(s.res, lcm_cmp(s))))]))


def spd(s, x):
    return Sel(row(s, s.f(x, "lcm"), "htp"), 0)


CONTRACTS.append(Contract("spair_cmp_deglex", "neogb", F, single=["a", "b", "htp"],
                          ensures=lambda s: [Named("pairs by degree", And(Implies(spd(s, "a") < spd(s, "b"), s.res < 0), Implies(spd(s, "a") > spd(s, "b"), s.res > 0))),
                                             Named("then by lcm", Implies(spd(s, "a") == spd(s, "b"), agree(s.res, lcm_cmp(s))))]))
CONTRACTS.append(Contract(
    "spair_cmp_update", "neogb", F, single=["a", "b", "htp"],
    ensures=lambda s: [Named("pairs by lcm", Implies(s.f("a", "lcm") != s.f("b", "lcm"), agree(s.res, lcm_cmp(s)))),
                       Named("then degree, then index", Implies(s.f("a", "lcm") == s.f("b", "lcm"), And(
                           Implies(s.f("a", "deg") < s.f("b", "deg"), s.res < 0), Implies(s.f("a", "deg") > s.f("b", "deg"), s.res > 0),
                           Implies(s.f("a", "deg") == s.f("b", "deg"), agree(s.res, s.f("a", "gen1") - s.f("b", "gen1"))))))]))

# ---- dispatch: one order for all comparators
DISP = [("initial_input_cmp", "initial_input_cmp_"), ("initial_gens_cmp", "initial_gens_cmp_"), ("monomial_cmp", "monomial_cmp_"),
        ("hcm_cmp", "hcm_cmp_pivots_")]


def disp(s):
    out = []
    for g, pre_ in DISP:
        f = s.fnptr(g)
        is_ = lambda o: z3.BoolVal(f == pre_ + o)
        nev, mo = s.f("st", "nev"), s.f("st", "mo")
        out.append(Named(f"{g} follows the requested order", And(
            Implies(nev > 0, is_("be")), Implies(And(nev <= 0, mo == 1), is_("lex")), Implies(And(nev <= 0, mo != 1), is_("drl")))))
    f = s.fnptr("spair_cmp")
    out.append(Named("pair comparison follows the requested order", And(
        Implies(nev > 0, z3.BoolVal(f == "spair_cmp_be")), Implies(And(nev <= 0, mo == 1), z3.BoolVal(f == "spair_cmp_deglex")),
        Implies(And(nev <= 0, mo != 1), z3.BoolVal(f == "spair_cmp_drl")))))
    return out


CONTRACTS.append(Contract("set_function_pointers", "neogb", "src/neogb/io.c", ensures=disp))

BOUND = ("1 to 40 variables, every block split, exponents 0..3 exhaustively for up to 3 variables, boundary exponents up to 2^16-1 "
         "on random vectors sharing long prefixes and suffixes; all comparators through the installed function pointers")
ASSUMPTIONS = ["exponent vectors are laid out as in data.h with degrees set from the exponents (established on import, P12)",
               "exponents and degrees fit their 16-bit cells (no sum wraps)", "array accesses are in bounds"]

EXTRA = r"""
static ht_t vht; static md_t vst; static exp_t *vev[4]; static hd_t vhd[4]; static exp_t vbuf[4][256];
void vf_setup(int mo, int nev, int nv){
  memset(&vst, 0, sizeof(vst)); memset(&vht, 0, sizeof(vht)); memset(vhd, 0, sizeof(vhd));
  vst.mo = mo; vst.nev = nev; vst.nvars = nv; vst.ff_bits = 32; vst.laopt = 2; vst.fc = 65521;
  set_function_pointers(&vst);
  for(int i = 0; i < 4; i++) vev[i] = vbuf[i];
  vht.ev = vev; vht.hd = vhd; vht.nv = nv; vht.evl = nv + 1 + (nev != 0); vht.ebl = nev ? nev + 1 : 0; vht.eld = 3;
}
static int sg(long x){ return x > 0 ? 1 : x < 0 ? -1 : 0; }
int vf_cmp(int which, const uint16_t *a, const uint16_t *b, unsigned ia, unsigned ib){
  memcpy(vbuf[1], a, 2*vht.evl); memcpy(vbuf[2], b, 2*vht.evl);
  vhd[1].idx = ia; vhd[2].idx = ib;
  vhd[1].deg = a[0] + (vht.ebl ? a[vht.ebl] : 0); vhd[2].deg = b[0] + (vht.ebl ? b[vht.ebl] : 0);
  hm_t ra[OFFSET+1] = {0}, rb[OFFSET+1] = {0}; ra[OFFSET] = 1; rb[OFFSET] = 2;
  hm_t *pa = ra, *pb = rb; hm_t ga[1] = {1}, gb[1] = {2}; hm_t *qa = ga, *qb = gb; hi_t ha = 1, hb = 2;
  spair_t sa, sb; memset(&sa, 0, sizeof(sa)); memset(&sb, 0, sizeof(sb)); sa.lcm = 1; sb.lcm = 2; sa.deg = vhd[1].deg; sb.deg = vhd[2].deg;
  switch(which){
    case 0: return sg(monomial_cmp(1, 2, &vht));
    case 1: return sg(initial_input_cmp(&pa, &pb, &vht));
    case 2: return sg(initial_gens_cmp(&qa, &qb, &vht));
    case 3: return sg(hcm_cmp(&ha, &hb, &vht));
    case 4: return sg(spair_cmp(&sa, &sb, &vht));
    case 5: return sg(spair_cmp_update(&sa, &sb, &vht));
    case 6: return sg(initial_input_cmp_sig(&pa, &pb, &vht));
  }
  return 9;
}
"""


def oracle(o, nv, nev, x, y):
    def drlk(v):
        return (sum(v), [-e for e in reversed(v)])
    if nev:
        kx, ky = [f(v) for v in (x, y) for f in (lambda v: (drlk(v[:nev]), drlk(v[nev:])),)]
    elif o == 1:
        kx, ky = list(x), list(y)
    else:
        kx, ky = drlk(x), drlk(y)
    return (kx > ky) - (kx < ky)


def layout(nv, nev, x):
    return [sum(x)] + list(x) if not nev else [sum(x[:nev])] + list(x[:nev]) + [sum(x[nev:])] + list(x[nev:])


def concrete(ctx):
    import itertools
    rng = ctx.rng
    lib = ctx.lib("neogb", "none", [], EXTRA)
    setup = lib.sym("vf_setup", None, c_int, c_int, c_int)
    cmpf = lib.sym("vf_cmp", c_int, c_int, c_void_p, c_void_p, ctypes.c_uint, ctypes.c_uint)
    if not setup:
        return
    names = ["monomial_cmp", "initial_input_cmp", "initial_gens_cmp", "hcm_cmp", "spair_cmp", "spair_cmp_update", "initial_input_cmp_sig"]

    def one(mo, nv, nev, x, y, ia=0, ib=0):
        a, b = layout(nv, nev, x), layout(nv, nev, y)
        A, B = arr(c_uint16, a), arr(c_uint16, b)
        w = oracle(mo, nv, nev, x, y)
        for wh in range(7):
            if wh == 6 and (mo or nev):
                continue
            if wh == 5 and x == y:
                continue
            got = cmpf(wh, A, B, ia, ib)
            want = [w, w, -w, -w, w, w, -w][wh]
            if wh == 3 and ia != ib:
                want = 1 if ia < ib else -1
            if wh == 4 and (nev or mo == 1):
                da, db = sum(x), sum(y)
                want = (da > db) - (da < db) or w
            if wh in (4, 5) and x == y:
                continue
            inp = dict(order=["drl", "lex"][mo] if not nev else f"block({nev})", nvars=nv, a=list(x), b=list(y), idx=[ia, ib])
            if got != want:
                ctx.bad(names[wh], inp, want, got, "sign of the comparison")
    cfgs = [(0, 0), (1, 0)]
    for nv in (1, 2, 3):
        for mo, nev in cfgs + [(0, e) for e in range(1, nv)]:
            setup(mo, nev, nv)
            mons = list(itertools.product(range(4 if nv < 3 else 3), repeat=nv))
            ctx.case("comparators", dict(nv=nv, mo=mo, nev=nev, exhaustive=len(mons)))
            for x in mons:
                for y in mons:
                    ctx.n += 1
                    one(mo, nv, nev, x, y)
    for k in range(ctx.scale(6000, 100000)):
        if not ctx.time_left(.9):
            break
        nv = rng.choice([2, 3, 4, 5, 8, 9, 16, 31, 32, 33, 40])
        mo, nev = rng.choice(cfgs) if rng.random() < .5 else (0, rng.randrange(1, nv))
        big = rng.choice([2, 5, 65535 // nv, 255, 256, 257])
        big = min(big, 65535 // nv)
        x = [rng.randrange(big + 1) for _ in range(nv)]
        y = list(x)
        if rng.random() < .12:
            lo = rng.choice([0, 1, 3, big])
            y = [rng.randrange(lo + 1) for _ in range(nv)]
            j = rng.randrange(nv)
            if rng.random() < .5:
                x = [e if i == j else min(e, 2) for i, e in enumerate(x)]
                x[j] = rng.choice([65535 - sum(x) + x[j], 32768 + rng.randrange(-3, 4), rng.randrange(40000)])
                if sum(x) > 65535:
                    continue
            if rng.random() < .5:
                x, y = y, x
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            i = rng.randrange(nv)
            d = rng.choice([-1, 1, rng.randrange(big + 1) - y[i]])
            if 0 <= y[i] + d <= big and sum(y) + d <= 65535:
                y[i] += d
            if rng.random() < .6:
                i2 = rng.randrange(nv)
                if 0 <= y[i2] - d <= big and sum(y) - d <= 65535:
                    y[i2] -= d
        setup(mo, nev, nv)
        ctx.case("comparators", dict(nv=nv, mo=mo, nev=nev, a=x, b=y))
        one(mo, nv, nev, x, y, rng.randrange(3), rng.randrange(3))
