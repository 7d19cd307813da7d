"""Exponent vectors and hash tables: contracts shared by P02 and P03."""
from common import *
from core import bit, bits_zero

F = "src/neogb/hash.c"
i_, j_, t_ = z3.Ints("i_ j_ t_")


def row(s, h, ht="ht"):
    return Sel(s.mem2(ht, "ev"), h)


def sdm(s, h, ht="ht"):
    return Sel(s.mem(ht, "hd", "sdm"), h)


def le(A, B, lo, hi):
    return ForAll(j_, Implies(And(j_ >= lo, j_ < hi), Sel(A, j_) <= Sel(B, j_)), Sel(A, j_), Sel(B, j_))


def nbits(s, ht="ht"):
    return s.f(ht, "ndv") * s.f(ht, "bpv")


def dvof(s, t, ht="ht"):
    """the variable behind bit t"""
    return Sel(s.mem(ht, "dv"), t / s.f(ht, "bpv"))


def mask_is(s, m, e, ht="ht"):
    """m is the divisor mask of the exponent vector e"""
    return ForAll(t_, Implies(And(t_ >= 0, t_ < 32), bit(m, t_) == And(t_ < nbits(s, ht), Sel(e, dvof(s, t_, ht)) >= Sel(s.mem(ht, "dm"), t_))), bit(m, t_))


def wf(s, ht="ht"):
    ndv, bpv, evl = (s.f(ht, k) for k in ("ndv", "bpv", "evl"))
    return [ndv >= 1, bpv >= 1, ndv <= 32, bpv <= 32, ndv * bpv <= 32, evl >= 2, evl < 2 ** 31]


def dv_ok(s, ht="ht"):
    return ForAll(i_, Implies(And(i_ >= 0, i_ < s.f(ht, "ndv")), And(Sel(s.mem(ht, "dv"), i_) >= 0, Sel(s.mem(ht, "dv"), i_) < s.f(ht, "evl"))), Sel(s.mem(ht, "dv"), i_))


I0 = z3.Int("I0")
divmask = Contract(
    "generate_short_divmask", "neogb", F, bits=True,
    requires=lambda s: wf(s),
    ensures=lambda s: [Named("bit t compares variable t/bpv with its threshold", mask_is(s, s.res, s.arr("a")))],
    loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.f("ht", "ndv")), s.v("ctr") == s.v("i") * s.f("ht", "bpv"),
                                  ForAll(t_, Implies(And(t_ >= 0, t_ < 32), bit(s.v("res"), t_) == And(t_ < s.v("ctr"), Sel(s.arr("a"), dvof(s, t_)) >= Sel(s.mem("ht", "dm"), t_))), bit(s.v("res"), t_))],
                   dec=lambda s: s.f("ht", "ndv") - s.v("i")),
           1: Loop(inv=lambda s: [And(s.v("j") >= 0, s.v("j") <= s.f("ht", "bpv")), s.v("ctr") == s.v("i") * s.f("ht", "bpv") + s.v("j"),
                                  And(s.v("i") >= 0, s.v("i") < s.f("ht", "ndv")), s.v("i") * s.f("ht", "bpv") + s.f("ht", "bpv") <= 32,
                                  ForAll(t_, Implies(And(t_ >= 0, t_ < 32), bit(s.v("res"), t_) == And(t_ < s.v("ctr"), Sel(s.arr("a"), dvof(s, t_)) >= Sel(s.mem("ht", "dm"), t_))), bit(s.v("res"), t_))],
                   hints=lambda s: [Named("position", (s.v("ctr") - 1) / s.f("ht", "bpv") == s.v("i"))],
                   dec=lambda s: s.f("ht", "bpv") - s.v("j"))})

h_ = z3.Int("h_")


def masks(s, ht="ht"):
    """every table entry carries the mask of its exponent vector"""
    sd, ev = s.mem(ht, "hd", "sdm"), s.mem2(ht, "ev")
    m = Sel(sd, h_)
    return ForAll([h_, t_], Implies(And(h_ >= 1, h_ < s.f(ht, "eld"), t_ >= 0, t_ < 32),
                                    bit(m, t_) == And(t_ < nbits(s, ht), Sel(Sel(ev, h_), dvof(s, t_, ht)) >= Sel(s.mem(ht, "dm"), t_))), bit(m, t_))


def dv_bits(s, ht="ht"):
    """variables behind the mask bits are positions of the exponent vector"""
    return ForAll(t_, Implies(And(t_ >= 0, t_ < nbits(s, ht)), And(dvof(s, t_, ht) >= 0, dvof(s, t_, ht) < s.f(ht, "evl"))), dvof(s, t_, ht))


def entry(s, h, ht="ht"):
    return And(h >= 1, h < s.f(ht, "eld"))


def divides(s, a, b, ht="ht"):
    """ev[b] divides ev[a]"""
    return le(row(s, b, ht), row(s, a, ht), 0, s.f(ht, "evl"))


div = Contract(
    "check_monomial_division", "neogb", F, bits=True,
    requires=lambda s: wf(s) + [dv_bits(s), masks(s), entry(s, s.v("a")), entry(s, s.v("b"))],
    ensures=lambda s: [Named("1 exactly when b divides a", And(Or(s.res == 0, s.res == 1), (s.res == 1) == divides(s, s.old.v("a"), s.old.v("b"))))],
    loops={0: Loop(inv=lambda s: [And(s.v("i") >= 0, s.v("i") <= s.f("ht", "evl")),
                                  le(row(s, s.v("b")), row(s, s.v("a")), 0, s.v("i"))], dec=lambda s: s.f("ht", "evl") + 1 - s.v("i"))})

upd = Contract(
    "check_monomial_division_in_update", "neogb", F, bits=True,
    requires=lambda s: wf(s) + [dv_bits(s), masks(s), entry(s, s.v("b")), s.v("start") < 2 ** 31, s.v("end") < 2 ** 31,
                                ForAll(j_, Implies(And(j_ > s.v("start"), j_ < s.v("end")), And(Sel(s.arr("a"), j_) >= 0, Sel(s.arr("a"), j_) < s.f("ht", "eld"))), Sel(s.arr("a"), j_))],
    ensures=lambda s: [Named("exactly the multiples of b between start and end are dropped", ForAll(j_, upd_cell(s, j_, s.old.v("end")), Sel(s.arr("a"), j_), Sel(s.old.arr("a"), j_)))],
    defs=lambda s: dvd_def(s),
    loops={0: Loop(inv=lambda s: [upd_inv(s)]), 1: Loop(inv=lambda s: [upd_inv(s)]),
           2: Loop(inv=lambda s: [s.v("j") == s.before.v("j"), upd_inv(s), And(s.v("i") >= 0, s.v("i") <= s.f("ht", "evl")), And(s.v("j") < s.v("end"), s.v("j") > s.v("start")), Sel(s.arr("a"), s.v("j")) != 0,
                                  le(row(s, s.v("b")), row(s, Sel(s.arr("a"), s.v("j"))), 0, s.v("i"))], dec=lambda s: s.f("ht", "evl") + 1 - s.v("i"))})


k_ = z3.Int("k_")
dvd = z3.Function("dvd", z3.IntSort(), z3.BoolSort())
dvw = z3.Function("dvw", z3.IntSort(), z3.IntSort())


def dvd_def(s, ht="ht"):
    """dvd(h): ev[b] divides ev[h] (dvw: a position where it does not)"""
    ev, evl = s.mem2(ht, "ev"), s.f(ht, "evl")
    B = Sel(ev, s.v("b"))
    return [ForAll([h_, k_], Implies(And(dvd(h_), k_ >= 0, k_ < evl), Sel(B, k_) <= Sel(Sel(ev, h_), k_)), z3.MultiPattern(dvd(h_), Sel(Sel(ev, h_), k_))),
            ForAll(h_, Implies(Not(dvd(h_)), And(dvw(h_) >= 0, dvw(h_) < evl, Sel(B, dvw(h_)) > Sel(Sel(ev, h_), dvw(h_)))), dvd(h_))]


def upd_cell(s, j, hi):
    o, n = Sel(s.old.arr("a"), j), Sel(s.arr("a"), j)
    return n == If(And(j > s.old.v("start"), j < hi, o != 0, dvd(o)), I(0), o)


def upd_inv(s):
    return And(s.v("j") > s.v("start"), Or(s.v("j") <= s.v("end"), s.v("j") == s.v("start") + 1), ForAll(j_, upd_cell(s, j_, s.v("j")), Sel(s.arr("a"), j_), Sel(s.old.arr("a"), j_)))


def coprime(s, a, b, n, ht="ht"):
    A, B = row(s, a, ht), row(s, b, ht)
    return ForAll(j_, Implies(And(j_ >= 1, j_ < n, j_ != s.f(ht, "ebl")), Or(Sel(A, j_) == 0, Sel(B, j_) == 0)), Sel(A, j_), Sel(B, j_))


prime = Contract(
    "prime_monomials", "neogb", F,
    requires=lambda s: [s.f("ht", "evl") >= 2, s.f("ht", "evl") < 2 ** 31, s.f("ht", "ebl") < s.f("ht", "evl")],
    ensures=lambda s: [Named("1 exactly when no variable is shared", And(Or(s.res == 0, s.res == 1), (s.res == 1) == coprime(s, s.old.v("a"), s.old.v("b"), s.f("ht", "evl"))))],
    loops={0: Loop(inv=lambda s: [And(s.v("i") >= 1, Or(s.v("i") <= s.f("ht", "ebl"), s.v("i") == 1)), coprime(s, s.v("a"), s.v("b"), s.v("i"))], dec=lambda s: s.f("ht", "ebl") + 1 - s.v("i")),
           1: Loop(inv=lambda s: [And(s.v("i") > s.f("ht", "ebl"), s.v("i") <= s.f("ht", "evl")), coprime(s, s.v("a"), s.v("b"), s.v("i"))], dec=lambda s: s.f("ht", "evl") - s.v("i"))})



# ------------------------------------------------------------------ hash tables
i_, j_, k_, h_, n_, p_, t_ = z3.Ints("i_ j_ k_ h_ n_ p_ t_")
A1 = arr_sort(1)
A_, B_ = z3.Const("A_", A1), z3.Const("B_", A1)
# pos(hsz, h, n): slot visited by the n-th probe for hash value h in a table of size hsz
pos = z3.Function("pos", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
# key(evl, A): injective code of A[0..evl)
key = z3.Function("key", z3.IntSort(), A1, z3.IntSort())
keyw = z3.Function("keyw", z3.IntSort(), A1, A1, z3.IntSort())
# hs(rn, A, n) = sum of rn[i]*A[i], i<n, modulo 2^32
hs = z3.Function("hs", A1, A1, z3.IntSort(), z3.IntSort())
# fr(mod, h): index of a probe that meets a free slot
fr = z3.Function("fr", A1, z3.IntSort(), z3.IntSort(), z3.IntSort())
bvand = z3.Function("bvand64", z3.IntSort(), z3.IntSort(), z3.IntSort())
M32 = 2 ** 32


def mod_(s, ht):
    return s.f(ht, "hsz")


def H(s, ht, A):
    return hs(s.mem(ht, "rn"), A, s.f(ht, "evl"))


def K(s, ht, A):
    return key(s.f(ht, "evl"), A)


def key_defs(s, ht="ht"):
    evl = s.f(ht, "evl")
    rn = s.mem(ht, "rn")
    return [ForAll([A_, B_, k_], Implies(And(key(evl, A_) == key(evl, B_), k_ >= 0, k_ < evl), Sel(A_, k_) == Sel(B_, k_)),
                   z3.MultiPattern(key(evl, A_), key(evl, B_), Sel(A_, k_))),
            ForAll([A_, B_], Implies(key(evl, A_) != key(evl, B_), And(keyw(evl, A_, B_) >= 0, keyw(evl, A_, B_) < evl,
                                                                  Sel(A_, keyw(evl, A_, B_)) != Sel(B_, keyw(evl, A_, B_)))),
                   z3.MultiPattern(key(evl, A_), key(evl, B_))),
            # the hash value depends on the first evl entries only (induction: lemmas hash-base, hash-step)
            ForAll([A_, B_], Implies(key(evl, A_) == key(evl, B_), hs(rn, A_, evl) == hs(rn, B_, evl)),
                   z3.MultiPattern(key(evl, A_), key(evl, B_)))]


def hash_lemma():
    R = z3.Const("R_", A1)
    step = lambda A, n: (hs(R, A, n) + (Sel(R, n) * Sel(A, n)) % M32) % M32
    return [Pure("hash-base", I(0) % M32 == 0),
            Pure("hash-step", Implies(And(hs(R, A_, n_) == hs(R, B_, n_), Sel(A_, n_) == Sel(B_, n_)), step(A_, n_) == step(B_, n_)))]


def hs_unfold(s, A, n, ht="ht"):
    rn = s.mem(ht, "rn")
    return [hs(rn, A, I(0)) == 0, Implies(n >= 0, hs(rn, A, n + 1) == (hs(rn, A, n) + (Sel(rn, n) * Sel(A, n)) % M32) % M32),
            hs(rn, A, n) >= 0, hs(rn, A, n) < M32]


def pos_unfold(m, h, i):
    return [pos(m, h, I(0)) == bvand(h, m - 1), Implies(i >= 1, pos(m, h, i) == bvand(pos(m, h, i - 1) + i, m - 1)), pos(m, h, i) >= 0, pos(m, h, i) < m]


def sizes(s, ht="ht"):
    f = lambda k: s.f(ht, k)
    return wf(s, ht) + [f("hsz") >= 2, f("hsz") <= M32, f("eld") >= 1, f("eld") < f("hsz"), f("ebl") < f("evl")]


def inv(s, ht="ht", dep=None, upto=None, rows=None):
    """the table: entries 1..eld-1 pairwise different, each found by probing from its hash value"""
    D = dep if dep is not None else s.g("~dep")
    m, hm, val, ev = mod_(s, ht), s.mem(ht, "hmap"), s.mem(ht, "hd", "val"), s.mem2(ht, "ev") if rows is None else rows
    eld = s.f(ht, "eld") if upto is None else upto
    hsz = s.f(ht, "hsz")
    ent = lambda i: And(i >= 1, i < eld)
    v, d = (lambda i: Sel(val, i)), (lambda i: Sel(D, i))
    return [
        Named("entry is stored where probing finds it", ForAll(i_, Implies(ent(i_), And(d(i_) >= 0, d(i_) < hsz, Sel(hm, pos(m, v(i_), d(i_))) == i_)), d(i_), v(i_))),
        Named("no free slot before it", ForAll([i_, n_], Implies(And(ent(i_), n_ >= 0, n_ < d(i_)), Sel(hm, pos(m, v(i_), n_)) != 0), z3.MultiPattern(d(i_), pos(m, v(i_), n_)))),
        Named("slots hold entries", ForAll(p_, Implies(And(p_ >= 0, p_ < hsz, Sel(hm, p_) != 0), And(ent(Sel(hm, p_)), pos(m, v(Sel(hm, p_)), d(Sel(hm, p_))) == p_)), Sel(hm, p_))),
    ]


def content(s, ht="ht", rows=None, upto=None):
    val, ev = s.mem(ht, "hd", "val"), s.mem2(ht, "ev") if rows is None else rows
    sd, dg = s.mem(ht, "hd", "sdm"), s.mem(ht, "hd", "deg")
    eld, evl, ebl = s.f(ht, "eld") if upto is None else upto, s.f(ht, "evl"), s.f(ht, "ebl")
    ent = lambda i: And(i >= 1, i < eld)
    R = lambda i: Sel(ev, i)
    m = Sel(sd, i_)
    return [
        Named("hash values", ForAll(i_, Implies(ent(i_), Sel(val, i_) == hs(s.mem(ht, "rn"), R(i_), evl)), Sel(val, i_), R(i_))),
        Named("entries are pairwise different", ForAll([i_, j_], Implies(And(ent(i_), ent(j_), i_ != j_), key(evl, R(i_)) != key(evl, R(j_))), z3.MultiPattern(key(evl, R(i_)), key(evl, R(j_))))),
        Named("divisor masks", ForAll([i_, t_], Implies(And(ent(i_), t_ >= 0, t_ < 32),
                                                  bit(m, t_) == And(t_ < nbits(s, ht), Sel(R(i_), dvof(s, t_, ht)) >= Sel(s.mem(ht, "dm"), t_))), bit(m, t_))),
        Named("degrees", ForAll(i_, Implies(ent(i_), Sel(dg, i_) == Sel(R(i_), 0) + If(ebl > 0, Sel(R(i_), ebl), 0)), Sel(dg, i_))),
    ]


def table(s, ht="ht", **k):
    return inv(s, ht, **k) + content(s, ht)


def free_slot(s, h, ht="ht"):
    """trusted: triangular probing modulo a power of two visits every slot, and eld-1 < hsz slots are taken"""
    hm = s.mem(ht, "hmap")
    m = mod_(s, ht)
    w = fr(hm, m, h)
    return And(w >= 0, w < m, Sel(hm, pos(m, h, w)) == 0)


def no_match(s, a, h, i, ht="ht"):
    """the first i probes met entries other than a"""
    hm, val, ev, m = s.mem(ht, "hmap"), s.mem(ht, "hd", "val"), s.mem2(ht, "ev"), mod_(s, ht)
    e = Sel(hm, pos(m, h, n_))
    return ForAll(n_, Implies(And(n_ >= 0, n_ < i), And(e != 0, Or(Sel(val, e) != h, K(s, ht, Sel(ev, e)) != K(s, ht, a)))), pos(m, h, n_))


def probe_inv(s, a, h, ht="ht"):
    i, k, m = s.v("i"), s.v("k"), mod_(s, ht)
    return [And(i >= 0, i <= s.f(ht, "hsz")), Implies(i == 0, k == h), Implies(i > 0, k == pos(m, h, i - 1)), no_match(s, a, h, i, ht)]


def probe_unfold(s, a, h, ht="ht"):
    m, i = mod_(s, ht), s.v("i")
    return pos_unfold(m, h, i) + pos_unfold(m, h, i + 1) + [free_slot(s, h, ht), K(s, ht, a) == K(s, ht, a)]


def ins_frame(s, ht="ht"):
    p = s.ptr(ht)
    out = [((p.reg, ("eld",)), len(p.idx) + 1)]
    for f, paths in (("hmap", [()]), ("hd", [("val",), ("sdm",), ("deg",)])):
        q = s.pf(ht, f)
        out += [((q.reg, pt), len(q.idx) + 1) for pt in paths]
    q = s.pf(ht, "ev")
    out.append(((q.reg + "*", ()), len(q.idx) + 2))
    return out


def same_rows(s, ht="ht"):
    """the exponent vectors of old entries are untouched"""
    return ForAll(i_, Implies(And(i_ >= 0, i_ < s.old.f(ht, "eld")), Sel(s.mem2(ht, "ev"), i_) == Sel(s.old.mem2(ht, "ev"), i_)), Sel(s.mem2(ht, "ev"), i_))


def same_hd(s, ht="ht"):
    return [ForAll(i_, Implies(And(i_ >= 1, i_ < s.old.f(ht, "eld")), Sel(s.mem(ht, "hd", f), i_) == Sel(s.old.mem(ht, "hd", f), i_)), Sel(s.mem(ht, "hd", f), i_))
            for f in ("val", "sdm", "deg")]


def ins_post(s, a="a", ht="ht", arow=None):
    A = s.old.arr(a) if arow is None else arow
    o = s.old
    return [Named("the index is an entry", And(s.res >= 1, s.res < s.f(ht, "eld"))),
            Named("it holds the monomial", K(s, ht, Sel(s.mem2(ht, "ev"), s.res)) == K(s, ht, A)),
            Named("at most one entry is added", Or(And(s.f(ht, "eld") == o.f(ht, "eld"), s.res < o.f(ht, "eld")),
                                                   And(s.f(ht, "eld") == o.f(ht, "eld") + 1, s.res == o.f(ht, "eld")))),
            Named("old exponent vectors stay", same_rows(s, ht)),
            Named("old entries stay", same_hd(s, ht))] + table(s, ht)


def dep_store(var):
    def f(eng, st, p, val):
        if p.reg.endswith(".hmap") and not z3.is_false(z3.simplify(val != 0)):
            x = View(eng, st, eng.top)
            st.ghost["~dep"] = z3.Store(st.ghost["~dep"], val, x.v(var))
    return f


def mk_ghost(s):
    return {"~dep": z3.Const("dep0", A1)}


def newdep(s):
    return {"~dep": fresh("dep", A1)}


def aliased(eng, st, fr_, e):
    """the argument is a row of the same table that holds no entry (row 0 or the next free row)"""
    x = z3.Int("arow")
    set_bound(x, 0, 2 ** 32)
    return Ptr("ht.ev*", (), (x,), I(0), e)


def cmp_inv(s, a, ht="ht"):
    """comparison of a with entry hm"""
    R = Sel(s.mem2(ht, "ev"), s.v("hm"))
    return [And(s.v("j") >= 0, s.v("j") <= s.f(ht, "evl")), s.v("i") == s.before.v("i"), s.v("k") == s.before.v("k"),
            ForAll(k_, Implies(And(k_ >= 0, k_ < s.v("j")), Sel(R, k_) == Sel(a(s), k_)), Sel(R, k_), Sel(a(s), k_))]


def alias_ok(s, a="a", ht="ht"):
    """a row of the table itself is a legal argument only when it holds no entry"""
    p = s.ptr(a)
    if p.reg == s.pf(ht, "ev").reg + "*":
        return Or(p.idx[-1] == 0, p.idx[-1] == s.f(ht, "eld"))
    return z3.BoolVal(True)


def insert_contract(name, variant=None, label=None, hashing=True):
    al = variant == "alias"
    a = (lambda s: Sel(s.mem2("ht", "ev"), z3.Int("arow"))) if al else (lambda s: s.arr("a"))
    pre = [lambda s: Or(z3.Int("arow") == 0, z3.Int("arow") == s.f("ht", "eld"))] if al else []
    lp = {0: Loop(inv=lambda s: [And(s.v("j") >= 0, s.v("j") <= s.f("ht", "evl")), s.v("h") == hs(s.mem("ht", "rn"), a(s), s.v("j"))],
                  unfold=lambda s: hs_unfold(s, a(s), s.v("j")), dec=lambda s: s.f("ht", "evl") - s.v("j"))}
    hv = lambda s: s.v("h")
    ia = lambda s: H(s, "ht", a(s))
    lp[1] = Loop(inv=lambda s: [s.v("h") == ia(s)] + probe_inv(s, a(s), hv(s)), unfold=lambda s: probe_unfold(s, a(s), hv(s)))
    lp[2] = Loop(inv=lambda s: probe_inv(s, a(s), hv(s)), unfold=lambda s: probe_unfold(s, a(s), hv(s)))
    lp[3] = Loop(inv=lambda s: cmp_inv(s, a), dec=lambda s: s.f("ht", "evl") + 1 - s.v("j"))
    return Contract(
        name, "neogb", F, variant=variant, label=label, ptrinit={"a": aliased} if al else None,
        ghosts=mk_ghost, onstore=dep_store("i"), frame=ins_frame, call_ghost=newdep,
        requires=lambda s: sizes(s) + table(s) + [p(s) for p in pre] + [alias_ok(s)],
        defs=lambda s: key_defs(s),
        post_hints=lambda s: [ForAll(i_, Implies(And(s.f("ht", "eld") == s.old.f("ht", "eld") + 1, i_ >= 1, i_ < s.old.f("ht", "eld")),
                                                 K(s, "ht", Sel(s.old.mem2("ht", "ev"), i_)) != K(s, "ht", a(s.old))), K(s, "ht", Sel(s.old.mem2("ht", "ev"), i_)), Sel(s.old.mem2("ht", "ev"), i_)),
                              K(s, "ht", Sel(s.mem2("ht", "ev"), s.res)) == K(s, "ht", a(s.old)), same_rows(s)],
        ensures=lambda s: ins_post(s, arow=Sel(s.old.mem2("ht", "ev"), z3.Int("arow")) if al else None) + hash_lemma(),
        loops=lp)


ins = insert_contract("insert_in_hash_table")
ins_alias = insert_contract("insert_in_hash_table", "alias", "insert_in_hash_table (row of the table)")

