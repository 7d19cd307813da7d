"""Contracts of what lies outside /repo: GMP, libc and the x86 intrinsics.

These are assumptions: every model that a proof used is listed in the evidence.
mpz values are mathematical integers.
"""
import z3
from core import *

I = z3.IntVal
MODELS, SPECIAL = {}, {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def val(e, st, p):
    if isinstance(p, PtrIte):
        return z3.If(p.g, val(e, st, p.a), val(e, st, p.b))
    if not isinstance(p, Ptr) or p.reg is None:
        raise Unsupported("mpz argument")
    return z3.simplify(z3.Select(e.arr(st, p), p.off))


def setv(e, st, p, v):
    if not isinstance(p, Ptr) or p.reg is None:
        raise Unsupported("mpz argument")
    e.store(st, p, v)


def sgn(x):
    return z3.If(x < 0, I(-1), z3.If(x > 0, I(1), I(0)))


def zabs(x):
    return z3.If(x < 0, -x, x)


@model("mpz_init", "mpz_init2")
def _(e, st, a, t):
    setv(e, st, a[0], I(0))


@model("mpz_clear", "mpq_clear", "free", "_mm_free", "mpq_init", "mpz_realloc2", "mpz_array_init", "mpz_limbs_finish")
def _(e, st, a, t):
    pass


@model("mpq_init")
def _(e, st, a, t):
    p = a[0]
    setv(e, st, Ptr(p.reg, p.path + ("_mp_num",), p.idx, p.off, None), I(0))
    setv(e, st, Ptr(p.reg, p.path + ("_mp_den",), p.idx, p.off, None), I(1))


@model("mpz_set", "mpz_init_set")
def _(e, st, a, t):
    setv(e, st, a[0], val(e, st, a[1]))


@model("mpz_set_ui", "mpz_set_si", "mpz_init_set_ui", "mpz_init_set_si")
def _(e, st, a, t):
    setv(e, st, a[0], a[1])


@model("mpz_neg")
def _(e, st, a, t):
    setv(e, st, a[0], -val(e, st, a[1]))


@model("mpz_abs")
def _(e, st, a, t):
    setv(e, st, a[0], zabs(val(e, st, a[1])))


def arith(f):
    def g(e, st, a, t):
        x = val(e, st, a[1]) if isinstance(a[1], (Ptr, PtrIte)) else a[1]
        y = val(e, st, a[2]) if isinstance(a[2], (Ptr, PtrIte)) else a[2]
        setv(e, st, a[0], f(x, y))
    return g


for n in ("mpz_add", "mpz_add_ui"):
    MODELS[n] = arith(lambda x, y: x + y)
for n in ("mpz_sub", "mpz_sub_ui", "mpz_ui_sub"):
    MODELS[n] = arith(lambda x, y: x - y)
for n in ("mpz_mul", "mpz_mul_ui", "mpz_mul_si"):
    MODELS[n] = arith(lambda x, y: x * y)


def addmul(sg):
    def g(e, st, a, t):
        x = val(e, st, a[1])
        y = val(e, st, a[2]) if isinstance(a[2], (Ptr, PtrIte)) else a[2]
        setv(e, st, a[0], val(e, st, a[0]) + sg * (x * y) if sg == 1 else val(e, st, a[0]) - x * y)
    return g


for n in ("mpz_addmul", "mpz_addmul_ui"):
    MODELS[n] = addmul(1)
for n in ("mpz_submul", "mpz_submul_ui"):
    MODELS[n] = addmul(-1)


def p2(e, st, k):
    v = P2(k)
    if not z3.is_int_value(v):
        st.facts.append(z3.Implies(k >= 0, v >= 1))
    return v


@model("mpz_mul_2exp")
def _(e, st, a, t):
    setv(e, st, a[0], val(e, st, a[1]) * p2(e, st, a[2]))


@model("mpz_swap")
def _(e, st, a, t):
    x, y = val(e, st, a[0]), val(e, st, a[1])
    setv(e, st, a[0], y)
    setv(e, st, a[1], x)


@model("mpz_sgn")
def _(e, st, a, t):
    v = sgn(val(e, st, a[0]))
    set_bound(v, -1, 1)
    return v


def cmpf(x, y):
    """GMP promises only the sign of the result"""
    return z3.If(x < y, I(-1), z3.If(x > y, I(1), I(0)))


def cmpmodel(e, st, x, y):
    s = fresh("cmp")
    set_bound(s, -2147483648, 2147483647)
    st.facts.append(z3.And(s >= -2147483648, s <= 2147483647, (s < 0) == (x < y), (s > 0) == (x > y)))
    return s


@model("mpz_cmp")
def _(e, st, a, t):
    return cmpmodel(e, st, val(e, st, a[0]), val(e, st, a[1]))


@model("mpz_cmp_ui", "mpz_cmp_si")
def _(e, st, a, t):
    return cmpmodel(e, st, val(e, st, a[0]), a[1])


@model("mpz_cmpabs")
def _(e, st, a, t):
    return cmpmodel(e, st, zabs(val(e, st, a[0])), zabs(val(e, st, a[1])))


@model("mpz_cmpabs_ui")
def _(e, st, a, t):
    return cmpmodel(e, st, zabs(val(e, st, a[0])), a[1])


@model("mpz_odd_p")
def _(e, st, a, t):
    return val(e, st, a[0]) % 2


@model("mpz_even_p")
def _(e, st, a, t):
    return 1 - val(e, st, a[0]) % 2


@model("mpz_divisible_2exp_p")
def _(e, st, a, t):
    v = val(e, st, a[0])
    b = fresh("div2")
    q, r = fresh("q"), fresh("r")
    m = p2(e, st, a[1])
    st.facts.append(z3.And(v == q * m + r, 0 <= r, r < m, (b != 0) == (r == 0), b >= 0, b <= 1))
    set_bound(b, 0, 1)
    st.ghost["div2.q"] = q
    return b


def divide(e, st, n, d, mode):
    """fresh quotient and remainder with their defining facts"""
    q, r = fresh("q"), fresh("r")
    f = [n == q * d + r]
    if mode == "f":
        f.append(z3.And(z3.Implies(d > 0, z3.And(0 <= r, r < d)), z3.Implies(d < 0, z3.And(d < r, r <= 0))))
    elif mode == "c":
        f.append(z3.And(z3.Implies(d > 0, z3.And(-d < r, r <= 0)), z3.Implies(d < 0, z3.And(0 <= r, r < -d))))
    else:
        ad = zabs(d)
        f.append(z3.And(z3.Implies(n >= 0, z3.And(0 <= r, r < ad)), z3.Implies(n < 0, z3.And(-ad < r, r <= 0))))
    st.facts += f
    st.rules.append((r, n - q * d))
    return q, r


def divop(mode, what):
    def g(e, st, a, t):
        i = len(what)
        n = val(e, st, a[i])
        d = val(e, st, a[i + 1]) if isinstance(a[i + 1], Ptr) else a[i + 1]
        if not e.dry:
            e.prove(st, d != 0, "division-by-zero", "div0")
        st.facts.append(d != 0)
        q, r = divide(e, st, n, d, mode)
        for w, p in zip(what, a):
            setv(e, st, p, q if w == "q" else r)
        if t.k == "int":
            return r if mode == "f" else -r if mode == "c" else zabs(r)
    return g


for m in "fct":
    MODELS[f"mpz_{m}div_q"] = divop(m, "q")
    MODELS[f"mpz_{m}div_r"] = divop(m, "r")
    MODELS[f"mpz_{m}div_qr"] = divop(m, "qr")
    MODELS[f"mpz_{m}div_q_ui"] = divop(m, "q")
    MODELS[f"mpz_{m}div_r_ui"] = divop(m, "r")
    MODELS[f"mpz_{m}div_qr_ui"] = divop(m, "qr")
    MODELS[f"mpz_{m}div_ui"] = divop(m, "")
MODELS["mpz_mod"] = lambda e, st, a, t: _mod(e, st, a)
MODELS["mpz_mod_ui"] = divop("f", "r")


def _mod(e, st, a):
    n, d = val(e, st, a[1]), val(e, st, a[2])
    q, r = fresh("q"), fresh("r")
    if not e.dry:
        e.prove(st, d != 0, "division-by-zero", "div0")
    st.facts += [n == q * d + r, 0 <= r, r < zabs(d), d != 0]
    setv(e, st, a[0], r)


def div2exp(mode, w):
    def g(e, st, a, t):
        n = val(e, st, a[1])
        q, r = divide(e, st, n, p2(e, st, a[2]), mode)
        setv(e, st, a[0], q if w == "q" else r)
    return g


for m in "fct":
    for w in "qr":
        MODELS[f"mpz_{m}div_{w}_2exp"] = div2exp(m, w)


@model("mpz_divexact", "mpz_divexact_ui")
def _(e, st, a, t):
    n = val(e, st, a[1])
    d = val(e, st, a[2]) if isinstance(a[2], (Ptr, PtrIte)) else a[2]
    if not e.dry:
        e.prove(st, d != 0, "division-by-zero", "div0")
        e.prove(st, Cong(n, I(0), d), "exact-division", "exact")
    q = fresh("q")
    st.facts += [n == q * d, d != 0]
    st.rules.append((n, q * d))
    setv(e, st, a[0], q)


gcdf = z3.Function("gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())


@model("mpz_gcd")
def _(e, st, a, t):
    x, y = val(e, st, a[1]), val(e, st, a[2])
    g, kx, ky = fresh("gcd"), fresh("k"), fresh("k")
    st.facts += [g == gcdf(x, y), x == kx * g, y == ky * g]
    st.rules += [(x, kx * g), (y, ky * g)]
    st.facts += [g >= 0, z3.Implies(z3.Or(x != 0, y != 0), g >= 1), z3.Implies(x == 0, g == zabs(y)),
                 z3.Implies(y == 0, g == zabs(x))]
    setv(e, st, a[0], g)


lcmf = z3.Function("lcm", z3.IntSort(), z3.IntSort(), z3.IntSort())


@model("mpz_lcm")
def _(e, st, a, t):
    x, y = val(e, st, a[1]), val(e, st, a[2])
    l = fresh("lcm")
    k1, k2 = fresh("k"), fresh("k")
    st.facts += [l >= 0, l == k1 * x, l == k2 * y, z3.Implies(z3.And(x != 0, y != 0), l >= 1)]
    st.ghost["lcm.k1"], st.ghost["lcm.k2"] = k1, k2
    setv(e, st, a[0], l)


@model("mpz_root")
def _(e, st, a, t):
    r = fresh("root")
    v = val(e, st, a[1])
    st.facts.append(z3.Implies(v >= 1, r >= 1))
    st.facts.append(z3.Implies(v >= 0, z3.And(r >= 0, r <= v)))
    setv(e, st, a[0], r)
    return fresh("exact")


@model("mpz_get_ui")
def _(e, st, a, t):
    v = zabs(val(e, st, a[0])) % (1 << 64)
    return v


@model("mpz_get_si")
def _(e, st, a, t):
    v = val(e, st, a[0])
    r = fresh("si")
    set_bound(r, -(1 << 63), (1 << 63) - 1)
    st.facts.append(z3.And(r >= -(1 << 63), r < (1 << 63), z3.Implies(z3.And(v >= -(1 << 63), v < (1 << 63)), r == v)))
    return r


bitsf = z3.Function("bits", z3.IntSort(), z3.IntSort())    # number of bits of |x| (1 for 0), as mpz_sizeinbase(x, 2)


@model("mpz_sizeinbase")
def _(e, st, a, t):
    v = val(e, st, a[0])
    r = fresh("bits")
    set_bound(r, 1, (1 << 40))
    st.facts.append(z3.And(r >= 1, r < (1 << 40), pow2(r) >= 1))
    if z3.is_int_value(z3.simplify(a[1])) and z3.simplify(a[1]).as_long() == 2:
        av = zabs(v)
        st.facts.append(r == bitsf(v))
        st.facts.append(z3.And(av < pow2(r), z3.Implies(v != 0, pow2(r) <= 2 * av), z3.Implies(v == 0, r == 1)))
    return r


tzf = z3.Function("tz", z3.IntSort(), z3.IntSort())       # 2-adic valuation
oddf = z3.Function("odd", z3.IntSort(), z3.IntSort())     # odd part


def tz_def(v):
    return z3.Implies(v != 0, z3.And(v == oddf(v) * pow2(tzf(v)), oddf(v) % 2 == 1, pow2(tzf(v)) >= 1, tzf(v) >= 0))


@model("mpz_scan1")
def _(e, st, a, t):
    v = val(e, st, a[0])
    r = fresh("tz")
    set_bound(r, 0, (1 << 64) - 1)
    st.facts.append(z3.And(r >= 0, r < (1 << 64)))
    if z3.is_int_value(z3.simplify(a[1])) and z3.simplify(a[1]).as_long() == 0:
        st.facts += [z3.Implies(v != 0, r == tzf(v)), tz_def(v)]
    return r


@model("mpz_sqrt")
def _(e, st, a, t):
    v = val(e, st, a[1])
    r = fresh("sqrt")
    st.facts.append(z3.And(r >= 0, r * r <= v, v < (r + 1) * (r + 1)))
    setv(e, st, a[0], r)


# ---------------------------------------------------------------- libc
@model("fprintf", "printf", "fflush", "mpz_out_str", "fputs", "putc", "fputc", "puts", "sprintf")
def _(e, st, a, t):
    return Opaque("io") if t.k != "int" else fresh("io")


@model("exit", "abort", "__assert_fail")
def _(e, st, a, t):
    if e.c is not None and not e.c.exit_ok:
        e.prove(st, z3.BoolVal(False), "exit-not-reached", "exit")
    st.live = False
    return None


@model("cputime", "realtime", "time", "clock", "rand", "random")
def _(e, st, a, t):
    if t.k == "int":
        v = e.havoc_val(t, "rt")
        e._typed(st, v, t)
        return v
    return Opaque("time")


def sp_malloc(zero):
    def f(e, st, fr, argn, t):
        args = [e.ev(st, fr, x) for x in argn]
        sz = [x for x in args if isinstance(x, SizeOf)]
        if not sz:
            raise Unsupported("allocation without sizeof")
        p = Ptr(f"&heap!{next(_fresh)}", (), (), I(0), sz[0].t)
        if sz[0].t.k == "struct":
            pass
        if zero and sz[0].t.k == "int":
            st.mem[(p.reg, ())] = z3.K(z3.IntSort(), I(0))
        return p
    return f


from core import _fresh
SPECIAL["malloc"] = sp_malloc(False)
SPECIAL["calloc"] = sp_malloc(True)


def sp_memset(e, st, fr, argn, t):
    p = e.ev(st, fr, argn[0])
    v = z3.simplify(e.toint(e.ev(st, fr, argn[1])))
    n = e.ev(st, fr, argn[2])
    if not isinstance(n, SizeOf) or not z3.is_int_value(v) or v.as_long() != 0:
        raise Unsupported("memset")
    el = e.leaf(p.e) if p.e is not None and p.e.k != "void" else n.t
    if el.k == "struct" and n.t.k == "struct" and el.name == n.t.name:
        for f in e.types.recs[el.name]:
            ft = e.types.field(el.name, f)
            if ft.k == "int":
                block_write(e, st, Ptr(p.reg, p.path + (f,), p.idx, p.off, ft), n.n, lambda j: I(0))
            else:
                raise Unsupported("memset of a structure with pointers")
        return p
    if el.k != "int" or n.t.k != "int" or el.bits != n.t.bits:
        raise Unsupported("memset element type")
    block_write(e, st, p, n.n, lambda j: I(0))
    return p


def block_write(e, st, p, n, f):
    key = (p.reg, p.path)
    a = e.arr(st, p)
    st.wm.add(key)
    b = fresh("blk", a.sort())
    j = z3.Int("j!blk")
    st.facts.append(z3.ForAll([j], z3.Select(b, j) == z3.If(z3.And(j >= p.off, j < p.off + n), f(j - p.off), z3.Select(a, j)),
                              patterns=[z3.Select(b, j)]))
    whole = e.mem(st, key, len(p.idx) + 1)
    st.mem[key] = b if not p.idx else e._nested_store(whole, list(p.idx), b)


def sp_memcpy(e, st, fr, argn, t):
    d = e.ev(st, fr, argn[0])
    s = e.ev(st, fr, argn[1])
    n = e.ev(st, fr, argn[2])
    if not isinstance(n, SizeOf) or not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported("memcpy")
    src = e.arr(st, s)
    block_write(e, st, d, n.n, lambda j: z3.Select(src, j + s.off))
    return d


SPECIAL["memset"] = sp_memset
SPECIAL["memcpy"] = sp_memcpy
SPECIAL["memmove"] = sp_memcpy


def sp_realloc(e, st, fr, argn, t):
    """the block keeps its contents; failure of the allocation is not modelled"""
    p = e.ev(st, fr, argn[0])
    e.ev(st, fr, argn[1])
    return p


SPECIAL["realloc"] = sp_realloc


def sp_constant_p(e, st, fr, argn, t):
    return I(0)


def sp_expect(e, st, fr, argn, t):
    return e.ev(st, fr, argn[0])


SPECIAL["__builtin_constant_p"] = sp_constant_p
SPECIAL["__builtin_expect"] = sp_expect


lg2f = z3.Function("lg2", z3.IntSort(), z3.IntSort())     # floor of the base 2 logarithm


@model("__builtin_clzll", "__builtin_clzl")
def _(e, st, a, t):
    x = a[0]
    r = fresh("clz")
    set_bound(r, 0, 63)
    st.facts.append(z3.And(r >= 0, r <= 63, z3.Implies(x >= 1, z3.And(pow2(63 - r) <= x, x < pow2(64 - r), lg2f(x) == 63 - r))))
    return r


@model("floor", "sqrt", "pow", "log2", "log", "ceil", "fabs")
def _(e, st, a, t):
    o = Opaque("float")
    if len(a) == 2 and all(hasattr(x, "ival") for x in a) and 0 <= a[1].ival < 200:
        o.ival = a[0].ival ** a[1].ival  # pow of literals (exact in double for 2^k)
    return o


# ---------------------------------------------------------------- x86 SIMD
M32 = 1 << 32
M64 = 1 << 64
U64T = CT("int", 64, False)


def lo32(l):
    if isinstance(l, tuple):
        return l[0]
    b = bounds(l)
    if b[1] is not None and b[0] is not None and b[0] >= 0 and b[1] < M32:
        return l
    return l % M32


def vec_lanes(n):
    return {"_mm_": 2, "_mm256_": 4, "_mm512_": 8}[n]


for pre, L in (("_mm256_", 4), ("_mm512_", 8)):
    def mk(pre, L):
        def setzero(e, st, a, t): return Vec([I(0)] * L)
        MODELS[pre + "setzero_si%d" % (L * 64)] = setzero
        def load(e, st, a, t): return e.vload(st, a[0], L)
        MODELS[pre + "loadu_si%d" % (L * 64)] = load
        MODELS[pre + "load_si%d" % (L * 64)] = load
        if L == 4:
            MODELS["__builtin_ia32_lddqu256"] = MODELS["_mm256_lddqu_si256"] = load
        def store(e, st, a, t): e.vstore(st, a[0], a[1])
        MODELS[pre + "storeu_si%d" % (L * 64)] = store
        MODELS[pre + "store_si%d" % (L * 64)] = store
        def set1_64(e, st, a, t):
            v = e.conv(st, a[0], U64T)
            return Vec([v] * L)
        MODELS[pre + "set1_epi64x"] = set1_64
        MODELS[pre + "set1_epi64"] = set1_64
        def set1_32(e, st, a, t):
            v = e.conv(st, a[0], CT("int", 32, False))
            return Vec([(v, v)] * L)
        MODELS[pre + "set1_epi32"] = set1_32
        def mul(e, st, a, t):
            return Vec([lo32(x) * lo32(y) for x, y in zip(a[0].l, a[1].l)])
        MODELS[pre + "mul_epu32"] = mul
        def add(e, st, a, t): return e.vmap(st, lambda x, y: x + y, a[0], a[1], True)
        MODELS[pre + "add_epi64"] = add
        def sub(e, st, a, t): return e.vmap(st, lambda x, y: x - y, a[0], a[1], True)
        MODELS[pre + "sub_epi64"] = sub
        def srli(e, st, a, t):
            k = z3.simplify(a[1]).as_long()
            r = []
            for l in a[0].l:
                if isinstance(l, tuple) and k == 32:
                    r.append(l[1])
                elif isinstance(l, tuple):
                    r.append((l[0] + M32 * l[1]) / (1 << k))
                else:
                    r.append(l / (1 << k))
            return Vec(r)
        MODELS[pre + "srli_epi64"] = srli
        def andv(e, st, a, t):
            r = []
            for i in range(L):
                r.append(and_lane(e, st, a[0].l[i], a[1].l[i]))
            return Vec(r)
        MODELS[pre + "and_si%d" % (L * 64)] = andv
        MODELS[pre + "and_epi64"] = andv
        def cmpgt(e, st, a, t):
            r = []
            for i in range(L):
                x, y = e.slane(a[0].lane(i), st), e.slane(a[1].lane(i), st)
                r.append(z3.If(x > y, I(M64 - 1), I(0)))
            return Vec(r)
        MODELS[pre + "cmpgt_epi64"] = cmpgt
        def setr(e, st, a, t):
            r = []
            for x in a:
                w = e.conv(st, x, U64T)
                if z3.is_expr(w) and z3.is_expr(x) and not w.eq(x):
                    e.sgn[w.get_id()] = (w, x)
                r.append(w)
            return Vec(r)
        MODELS[pre + ("setr_epi64x" if L == 4 else "setr_epi64")] = setr
    mk(pre, L)


@model("_mm512_set_epi64")
def _(e, st, a, t):
    return Vec([e.conv(st, x, U64T) for x in reversed(a)])


@model("__builtin_ia32_cmpq512_mask")
def _(e, st, a, t):
    """signed comparison, predicate 6: greater"""
    if z3.simplify(a[2]).as_long() != 6:
        raise Unsupported("vector comparison")
    m = fresh("mask")
    set_bound(m, 0, 255)
    e.masks[m.decl().name()] = [e.slane(a[0].lane(i), st) > e.slane(a[1].lane(i), st) for i in range(8)]
    return m


@model("_mm512_mask_add_epi64")
def _(e, st, a, t):
    """lane i: a + b where the mask bit is set, src elsewhere"""
    ms = e.masks.get(a[1].decl().name()) if z3.is_const(a[1]) else None
    if ms is None:
        raise Unsupported("vector mask")
    sm = e.vmap(st, lambda x, y: x + y, a[2], a[3], True)
    r = []
    for i, (c, y) in enumerate(zip(ms, sm.l)):
        u = z3.If(c, y, a[0].lane(i))
        e.sgn[u.get_id()] = (u, z3.If(c, e.slane(y), e.slane(a[0].lane(i))))
        r.append(u)
    return Vec(r)


def signed(x):
    b = bounds(x)
    if b[1] is not None and b[1] < (1 << 63) and b[0] is not None and b[0] >= 0:
        return x
    return z3.If(x >= (1 << 63), x - M64, x)


def and_lane(e, st, x, y):
    for p, q in ((x, y), (y, x)):
        if isinstance(p, tuple):
            continue
        ps = z3.simplify(p)
        if z3.is_int_value(ps):
            c = ps.as_long()
            if c == M32 - 1:
                return lo32(q)
            if c == 0:
                return I(0)
            if c > 0 and (c & (c + 1)) == 0:
                return (q[0] + M32 * q[1] if isinstance(q, tuple) else q) % (c + 1)
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            a, b = p.arg(1), p.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == M64 - 1 and b.as_long() == 0:
                return z3.If(p.arg(0), q[0] + M32 * q[1] if isinstance(q, tuple) else q, I(0))
    raise Unsupported("vector and")
