"""A deductive verifier for the C subset msolve's kernels are written in.

clang's AST of the real function is executed symbolically against contracts:
loops are cut at their invariants (checked on entry, preserved by an arbitrary
iteration, assumed afterwards), calls of functions under contract are replaced
by the contract, other calls into /repo are inlined, and every proof obligation
(postcondition, invariant, callee precondition, absence of signed overflow,
decreasing variant) goes to the provers in solve.py.

Integers are mathematical; unsigned C arithmetic is reduced modulo 2^n unless
the value is shown to be in range, signed arithmetic must be shown in range.
"""
import re, itertools
import z3
import frontend

I = z3.IntVal


class Unsupported(Exception):
    """the code left the supported subset, or an annotation no longer attaches"""


# ---------------------------------------------------------------- types
class DeadPath(Exception):
    """dry run only: a null dereference (outside the dry run the path must be infeasible)"""


class CT:
    __slots__ = ("k", "bits", "sg", "e", "n", "name")

    def __init__(s, k, bits=0, sg=False, e=None, n=0, name=""):
        s.k, s.bits, s.sg, s.e, s.n, s.name = k, bits, sg, e, n, name

    def __repr__(s):
        if s.k == "int":
            return f"{'i' if s.sg else 'u'}{s.bits}"
        if s.k == "ptr":
            return f"*{s.e}"
        if s.k == "arr":
            return f"[{s.n}]{s.e}"
        return s.k + ":" + s.name

    def rng(s):
        return (-(1 << (s.bits - 1)), (1 << (s.bits - 1)) - 1) if s.sg else (0, (1 << s.bits) - 1)


PRIM = {
    "char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1),
    "unsigned short": (16, 0), "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1),
    "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0),
    "_Bool": (8, 0), "bool": (8, 0), "__int128": (128, 1), "unsigned __int128": (128, 0),
    "unsigned": (32, 0),
}
INT = CT("int", 32, True)
LONG = CT("int", 64, True)
U64 = CT("int", 64, False)
U32 = CT("int", 32, False)
U16 = CT("int", 16, False)


class Types:
    def __init__(s, tu, cfg):
        s.tds, s.recs = frontend.tu_types(tu, cfg)
        s.cache = {}

    ENUMS = {"_MM_CMPINT_" + n: i for i, n in enumerate(("EQ", "LT", "LE", "UNUSED", "NE", "NLT", "NLE"))}

    def enum_const(s, n):
        """the comparison predicates of clang's intrinsic headers"""
        return s.ENUMS.get(n)

    def parse(s, q):
        if q in s.cache:
            return s.cache[q]
        r = s._parse(q)
        s.cache[q] = r
        return r

    def _parse(s, q):
        q = re.sub(r"\b(const|volatile|restrict|__restrict|register)\b", "", q)
        q = re.sub(r"__attribute__\(\((?!__vector).*?\)\)", "", q)
        q = re.sub(r"\s+", " ", q).strip()
        m = re.match(r"^(?:__attribute__\(\()?__vector_size__\((\d+) \* sizeof\((.*?)\)\)+ ?(.*)$", q)
        if m:
            return CT("vec", n=int(m.group(1)), e=s.parse(m.group(2)), name=q)
        if "(*" in q or q.endswith(")"):
            return CT("fn", name=q)
        q = re.sub(r"\[[^\]]*[^\]\d][^\]]*\]", "[0]", q)
        m = re.match(r"^(.*?) ?\[(\d*)\]((?:\[\d*\])*)$", q)
        if m:
            inner = (m.group(1) + m.group(3)).strip()
            return CT("arr", e=s.parse(inner), n=int(m.group(2) or 0))
        if q.endswith("*"):
            return CT("ptr", e=s.parse(q[:-1].strip()))
        if q in PRIM:
            b, sg = PRIM[q]
            return CT("int", b, bool(sg))
        if q in ("void",):
            return CT("void")
        if q in ("float", "double", "long double"):
            return CT("float", name=q)
        if q.startswith("enum "):
            return CT("int", 32, False)
        if q in ("__m256i", "__m256i_u"):
            return CT("vec", n=4, e=CT("int", 64, True), name=q)
        if q in ("__m512i", "__m512i_u"):
            return CT("vec", n=8, e=CT("int", 64, True), name=q)
        if q in ("__m128i", "__m128i_u"):
            return CT("vec", n=2, e=CT("int", 64, True), name=q)
        base = q
        for pre in ("struct ", "union "):
            if q.startswith(pre):
                base = q[len(pre):]
        if base in ("__mpz_struct",):
            return CT("mpz")
        if q in s.tds and s.tds[q] != q:
            t = s.tds[q]
            if t in ("struct " + q, "union " + q):
                return CT("struct", name=q)
            return s.parse(t)
        if base in s.recs:
            return CT("struct", name=base)
        if base in s.tds and s.tds[base] != q and s.tds[base] != base:
            return s.parse(s.tds[base])
        return CT("struct", name=base)

    def node(s, n):
        t = n.get("type", {})
        return s.parse(t.get("desugaredQualType") or t.get("qualType", "void"))

    def field(s, st, f):
        r = s.recs.get(st)
        if r is None or f not in r:
            raise Unsupported(f"no field {f} in {st}")
        q, d = r[f]
        return s.parse(d or q)


# ---------------------------------------------------------------- values
class PtrIte:
    """c ? p : q with p, q in different memory: readable only"""

    def __init__(s, g, a, b):
        s.g, s.a, s.b = g, a, b


class Ptr:
    __slots__ = ("reg", "path", "idx", "off", "e")

    def __init__(s, reg, path, idx, off, e):
        s.reg, s.path, s.idx, s.off, s.e = reg, path, idx, off, e

    def __repr__(s):
        return f"&{s.reg}{'.'.join(('',) + s.path)}{list(s.idx)}+{s.off}"

    def add(s, d):
        return Ptr(s.reg, s.path, s.idx, z3.simplify(s.off + d), s.e)

    def as_(s, e):
        return Ptr(s.reg, s.path, s.idx, s.off, e)


class Cell(Ptr):
    """a local that lives in memory (array, struct, mpz, address-taken scalar)"""
    __slots__ = ()


NULL = Ptr(None, (), (), I(0), None)


class Vec:
    """lanes of `bits` bits; a lane is an Int or a pair (lo, hi) of half lanes"""
    __slots__ = ("l", "bits")

    def __init__(s, l, bits=64):
        s.l, s.bits = l, bits

    def lane(s, i):
        x = s.l[i]
        return x[0] + (1 << (s.bits // 2)) * x[1] if isinstance(x, tuple) else x


class Opaque:
    def __init__(s, what="?"):
        s.what = what


class Undef:
    pass


UNDEF = Undef()


# ------------------------------------------------- goals / facts beyond z3
class Eq:
    """oriented equation lhs -> rhs (fact: also a rewrite rule)"""

    def __init__(s, l, r):
        s.l, s.r = l, r

    def z(s):
        return s.l == s.r


class Cong:
    """l = r (mod m)"""

    def __init__(s, l, r, m):
        s.l, s.r, s.m = l, r, m


class P2Add:
    """instance of 2^(a+b) = 2^a 2^b for a, b >= 0 (valid, hence never an obligation)"""

    def __init__(s, a, b):
        s.g = z3.Implies(z3.And(a >= 0, b >= 0), z3.And(pow2(a + b) == pow2(a) * pow2(b), pow2(a) >= 1, pow2(b) >= 1))


class Let:
    """definition of a fresh constant (conservative: never a proof obligation)"""

    def __init__(s, c, e):
        s.c, s.e = c, e


class Pure:
    """proved on its own, from no hypotheses"""

    def __init__(s, name, g):
        s.name, s.g = name, g


class Abs:
    """a predicate and its definition: proving it means proving the definition,
    assuming it gives the predicate symbol (and the definition)"""

    def __init__(s, pred, parts, expand=False):
        s.pred, s.parts, s.expand = pred, parts, expand


class Named:
    def __init__(s, name, g, hints=()):
        s.name, s.g, s.hints = name, g, hints


class _Counter:
    def __init__(s):
        s.n = 0

    def __iter__(s):
        return s

    def __next__(s):
        s.n += 1
        return s.n - 1


_fresh = _Counter()


def fresh(name, sort=None):
    return z3.Const(f"{name}!{next(_fresh)}", sort if sort is not None else z3.IntSort())


def arr_sort(depth):
    so = z3.IntSort()
    for _ in range(depth):
        so = z3.ArraySort(z3.IntSort(), so)
    return so


def conj(l):
    l = list(l)
    return z3.And(*l) if l else z3.BoolVal(True)


# ---------------------------------------------------------------- state
class Frame:
    def __init__(s, fname, parent=None):
        s.fname, s.names, s.parent = fname, {}, parent
        s.decl_order = []


class State:
    def __init__(s):
        s.vars, s.mem, s.ptrs, s.facts, s.rules, s.ghost = {}, {}, {}, [], [], {}
        s.bnd = {}
        s.wv, s.wm, s.wp = set(), set(), set()
        s.live = True

    def clone(s):
        t = State.__new__(State)
        t.vars, t.mem, t.ptrs = dict(s.vars), dict(s.mem), dict(s.ptrs)
        t.facts, t.rules, t.ghost = list(s.facts), list(s.rules), dict(s.ghost)
        t.bnd = dict(s.bnd)
        t.wv, t.wm, t.wp = set(s.wv), set(s.wm), set(s.wp)
        t.live = s.live
        return t


NAMED = {}
GB = {}      # global bounds of typed symbols: ast id -> (lo, hi, ref)


def set_bound(t, lo, hi):
    GB[t.get_id()] = (lo, hi, t)


def bounds(t, loc=None, d=0):
    """cheap interval analysis; (None, None) when unknown"""
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    b = GB.get(t.get_id())
    lo, hi = (b[0], b[1]) if b else (None, None)
    if loc is not None:
        b2 = loc.get(t.get_id())
        if b2:
            lo = b2[0] if lo is None else max(lo, b2[0])
            hi = b2[1] if hi is None else min(hi, b2[1])
    if d > 40 or lo is not None and hi is not None and z3.is_const(t):
        return lo, hi
    l2 = h2 = None
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        bs = [bounds(c, loc, d + 1) for c in ch]
        if all(x[0] is not None for x in bs):
            l2 = sum(x[0] for x in bs)
        if all(x[1] is not None for x in bs):
            h2 = sum(x[1] for x in bs)
    elif k == z3.Z3_OP_SUB and len(ch) == 2:
        a, b = bounds(ch[0], loc, d + 1), bounds(ch[1], loc, d + 1)
        if a[0] is not None and b[1] is not None:
            l2 = a[0] - b[1]
        if a[1] is not None and b[0] is not None:
            h2 = a[1] - b[0]
    elif k == z3.Z3_OP_UMINUS:
        a = bounds(ch[0], loc, d + 1)
        l2 = -a[1] if a[1] is not None else None
        h2 = -a[0] if a[0] is not None else None
    elif k == z3.Z3_OP_MUL:
        l2 = h2 = 1
        for c in ch:
            a = bounds(c, loc, d + 1)
            if a[0] is None or a[1] is None:
                l2 = h2 = None
                break
            vs = [l2 * a[0], l2 * a[1], h2 * a[0], h2 * a[1]]
            l2, h2 = min(vs), max(vs)
    elif k == z3.Z3_OP_MOD:
        b = bounds(ch[1], loc, d + 1)
        if b[0] is not None and b[0] > 0:
            l2 = 0
            if b[1] is not None:
                h2 = b[1] - 1
            a = bounds(ch[0], loc, d + 1)
            if a[0] is not None and a[0] >= 0 and a[1] is not None:
                h2 = a[1] if h2 is None else min(h2, a[1])
    elif k == z3.Z3_OP_IDIV:
        a, b = bounds(ch[0], loc, d + 1), bounds(ch[1], loc, d + 1)
        if b[0] is not None and b[0] > 0 and a[0] is not None and a[1] is not None and b[1] is not None:
            vs = [a[0] // b[0], a[0] // b[1], a[1] // b[0], a[1] // b[1]]
            l2, h2 = min(vs), max(vs)
        elif b[0] is not None and b[0] > 0 and a[0] is not None and a[0] >= 0:
            l2 = 0
            h2 = a[1]
    elif k == z3.Z3_OP_ITE:
        a, b = bounds(ch[1], loc, d + 1), bounds(ch[2], loc, d + 1)
        if a[0] is not None and b[0] is not None:
            l2 = min(a[0], b[0])
        if a[1] is not None and b[1] is not None:
            h2 = max(a[1], b[1])
    if l2 is not None:
        lo = l2 if lo is None else max(lo, l2)
    if h2 is not None:
        hi = h2 if hi is None else min(hi, h2)
    return lo, hi


pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def P2(e):
    if isinstance(e, int):
        return I(1 << e)
    e = z3.simplify(e)
    if z3.is_int_value(e) and e.as_long() >= 0:
        return I(1 << e.as_long())
    return pow2(e)


bit = z3.Function("bit", z3.IntSort(), z3.IntSort(), z3.BoolSort())
bitwit = z3.Function("bitwit", z3.IntSort(), z3.IntSort())
shl1 = z3.Function("shl1", z3.IntSort(), z3.IntSort())
_t = z3.Int("t_bit")
"""bit(x, t): bit t of the two's complement representation of x; the facts added
at each bit operation (contract option bits) are instances of its definition."""


def bits_def(v, rhs, width):
    g = z3.And(_t >= 0, _t < width)
    return z3.ForAll([_t], z3.Implies(g, bit(v, _t) == rhs(_t)), patterns=[bit(v, _t)])


def bits_zero(v, width):
    """v = 0 iff no bit of v is set"""
    return z3.And(z3.Implies(v != 0, z3.And(bit(v, bitwit(v)), bitwit(v) >= 0, bitwit(v) < width)),
                  z3.Implies(v == 0, z3.ForAll([_t], z3.Not(bit(v, _t)), patterns=[bit(v, _t)])))


# ---------------------------------------------------------------- contracts
class Loop:
    def __init__(s, inv, unfold=None, dec=None, hints=None, ghost=None, pre=None, init_ghost=None,
                 headlemmas=None, exitlemmas=None):
        s.headlemmas, s.exitlemmas = headlemmas, exitlemmas
        s.inv, s.unfold, s.dec, s.hints, s.pre = inv, unfold, dec, hints, pre
        s.ghost, s.init_ghost = ghost, init_ghost


class Contract:
    def __init__(s, name, tu, file, cfgs=("none",), requires=None, ensures=None, loops=None,
                 assigns=(), defs=None, unroll=(), alias=None, split=None, ghost=None,
                 onstore=None, overflow=True, locals_=None, arrays=(), exit_ok=True, note="",
                 assumed=None, fcasts=None, keep=None, timeout=None, nosplit=False, label=None,
                 post_hints=None, inline=None, ghosts=None, merge_ifs=False,
                 may_alias=(), variant=None, params=None, result_ptr=None, call_ensures=None, single=(), bits=False,
                 frame=None, call_ghost=None, ptrinit=None, reseat=None, resolve=False, measure=None):
        s.__dict__.update(locals())
        del s.__dict__["s"]
        s.loops = loops or {}

    BASE = {}

    def base(s, cfg):
        return Contract.BASE.get(f"{s.tu}:{s.name}:{cfg}")


# ---------------------------------------------------------------- views
class View:
    """what contract clauses see: variables, memory, ghost state at one point"""

    def __init__(s, eng, st, frame, old=None, res=None, call=None, head=None):
        s.eng, s.st, s.frame, s.old, s.res, s.head = eng, st, frame, old, res, head

    def _val(s, name):
        f = s.frame
        while f is not None:
            if name in f.names:
                d = f.names[name]
                if d in s.st.vars:
                    return s.st.vars[d]
            f = f.parent
        return s.eng.lookup_renamed(s, name)

    def has(s, name):
        try:
            s._val(name)
            return True
        except Unsupported:
            return False

    def v(s, name):
        x = s._val(name)
        if isinstance(x, Undef):
            raise Unsupported(f"{name} uninitialised at annotation")
        if isinstance(x, Cell) and x.e.k == "int" and s.eng.scalar_cell(x):
            return z3.Select(s.eng.arr(s.st, x), x.off)
        return x

    def ptr(s, name):
        x = s._val(name)
        if not isinstance(x, Ptr):
            raise Unsupported(f"{name} is not a pointer")
        return x

    def arr(s, name, *path):
        p = s.ptr(name)
        return s.eng.arr(s.st, Ptr(p.reg, p.path + path, p.idx, p.off, p.e))

    def narr(s, name, *path):
        return s.named(s.arr(name, *path))

    def off(s, name):
        return s.ptr(name).off

    def at(s, name, i=0, *path):
        p = s.ptr(name)
        return z3.Select(s.arr(name, *path), z3.simplify(p.off + i))

    mpz = at

    def f(s, name, *path):
        return s.at(name, 0, *path)

    def pf(s, name, *path):
        """pointer-valued field: the Ptr it holds"""
        p = s.ptr(name)
        q = Ptr(p.reg, p.path + path, p.idx, p.off, p.e)
        return s.eng.load_ptr(s.st, q, None)

    def farr(s, name, *path):
        return s.eng.arr(s.st, s.pf(name, *path))

    def rows(s, region, depth=2):
        key = (region, ())
        return s.eng.mem(s.st, key, depth)

    def mem(s, name, field, *path):
        """array stored at the pointer-valued field (a struct member array when path is given)"""
        p = s.pf(name, field)
        return s.named(s.eng.mem(s.st, (p.reg, p.path + path), len(p.idx) + 1))

    def named(s, a):
        """a constant equal to the array expression, so that it can occur in triggers"""
        if not (z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE)):
            return a
        c = NAMED.get(a.get_id())
        if c is None:
            c = NAMED[a.get_id()] = (fresh("arr", a.sort()), a)
        f = c[0] == a
        if not any(f.eq(x) for x in s.st.facts[-60:]):
            s.st.facts.append(f)
        return c[0]

    def mem2(s, name, field):
        """two-level array behind the field (rows of rows)"""
        p = s.pf(name, field)
        return s.named(s.eng.mem(s.st, (p.reg + "*", ()), len(p.idx) + 2))

    def fnptr(s, name):
        """name of the function last stored in a global function pointer, None if not stored"""
        x = s.st.vars.get(s.eng.gids.get(name))
        return x.what[3:] if isinstance(x, Opaque) and x.what.startswith("fn:") else None

    def g(s, name):
        if name not in s.st.ghost:
            # a ghost of a loop this path does not reach: nothing is known about it
            return fresh(name.lstrip("~"), z3.IntSort())
        x = s.st.ghost[name]
        return s.named(x) if z3.is_array(x) else x


# ---------------------------------------------------------------- engine
class Obl:
    def __init__(s, fn, name, facts, rules, goal, bnd, line=None, kind="", hints=()):
        s.fn, s.name, s.facts, s.rules, s.goal, s.bnd = fn, name, facts, rules, goal, bnd
        s.line, s.kind, s.hints = line, kind, list(hints)
        s.status, s.time, s.backend, s.model = None, 0.0, None, None


LOOPS = ("ForStmt", "WhileStmt", "DoStmt")


class Engine:
    def __init__(s, tu, cfg, contracts, log=None):
        s.masks, s.sgn = {}, {}
        s.tu, s.cfg, s.contracts = tu, cfg, contracts
        s.types = Types(tu, cfg)
        s.obls, s.dry, s.c, s.fname = [], 0, None, None
        s.trusted, s.inlined, s.called = set(), set(), set()
        s.loopno = {}
        s.depth = 0
        s.globals = {}
        s.cur_line = None
        s.paths = 0
        s.rename = {}
        s.npaths_max = 4000

    # ---- names
    def lookup_renamed(s, view, name):
        m = s.rename.get(name)
        if m is not None:
            f = view.frame
            while f is not None:
                if m in f.names and f.names[m] in view.st.vars:
                    return view.st.vars[f.names[m]]
                f = f.parent
        raise Unsupported(f"annotation refers to '{name}', which is not in scope")

    def scalar_cell(s, x):
        return x.reg in s.scells or x.reg.startswith("g:")

    # ---- memory
    def mem(s, st, key, depth):
        if key not in st.mem:
            a = z3.Const("m_" + key[0] + "".join("." + p for p in key[1]), arr_sort(depth))
            st.mem[key] = a
            s.init_mem.setdefault(key, a)
        return st.mem[key]

    def arr(s, st, p):
        a = s.mem(st, (p.reg, p.path), len(p.idx) + 1)
        for i in p.idx:
            a = z3.Select(a, i)
        return a

    def leaf(s, t):
        while t is not None and t.k == "arr":
            t = t.e
        return t

    def load(s, st, p, ty=None):
        if p.reg is None:
            raise Unsupported("null dereference")
        ty = ty or p.e
        if ty.k == "arr":
            ty = s.leaf(ty)
        v = s.select(st, s.arr(st, p), p.off)
        v = z3.simplify(v)
        if ty.k == "int" and not z3.is_int_value(v):
            lo, hi = ty.rng()
            if bounds(v) == (None, None) or True:
                b = bounds(v)
                if b[0] is None or b[1] is None or b[0] < lo or b[1] > hi:
                    # memory cells are typed; a cell holds a value of its type
                    if not s.is_ite(v):
                        set_bound(v, lo, hi)
                        st.facts.append(z3.And(v >= lo, v <= hi))
        return v

    def select(s, st, a, i):
        """a[i]; with `resolve`, stores at provably different places are skipped"""
        if s.c is None or not s.c.resolve or s.dry:
            return z3.Select(a, i)
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            d = z3.simplify(i - a.arg(1))
            if z3.is_int_value(d):
                if d.as_long() == 0:
                    return a.arg(2)
            elif not s.entails(st, i != a.arg(1), 60):
                break
            a = a.arg(0)
        return z3.Select(a, i)

    def is_ite(s, v):
        return z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE

    def store(s, st, p, val):
        if p.reg is None:
            raise Unsupported("null dereference")
        key = (p.reg, p.path)
        st.wm.add(key)
        a = s.mem(st, key, len(p.idx) + 1)
        if s.c is not None and s.c.onstore and not s.dry:
            s.c.onstore(s, st, p, val)
        elif s.c is not None and s.c.onstore:
            s.c.onstore(s, st, p, val)
        st.mem[key] = s._nested_store(a, list(p.idx) + [p.off], val)

    def _nested_store(s, a, ix, v):
        if len(ix) == 1:
            return z3.Store(a, ix[0], v)
        return z3.Store(a, ix[0], s._nested_store(z3.Select(a, ix[0]), ix[1:], v))

    def load_ptr(s, st, p, e):
        """p points to a cell holding a pointer to e"""
        k = s._pkey(p)
        if k in st.ptrs:
            q = st.ptrs[k]
            return q if e is None or q.reg is None else q.as_(e)
        single = bool(p.path) and p.reg in s.single and z3.is_int_value(p.off)
        idx = p.idx if single else p.idx + (p.off,)
        reg = p.reg + "".join("." + x for x in p.path) + ("" if single else "*")
        return Ptr(reg, (), idx, I(0), e)

    def _pkey(s, p):
        return (p.reg, p.path, tuple(i.sexpr() for i in p.idx), z3.simplify(p.off).sexpr())

    def store_ptr(s, st, p, q):
        k = s._pkey(p)
        rs = (s.c.reseat or {}).get(p.reg) if s.c is not None else None
        if rs is not None:
            # table of row pointers into one block: a row is only ever set to its place in the block
            s.prove(st, rs(View(s, st, s.top, old=getattr(s, "entry_view", None)), p, q), "row-layout", "layout")
            st.wp.add(k)
            return
        if not z3.is_int_value(z3.simplify(p.off)) or p.idx:
            raise Unsupported("store of a pointer at a symbolic place")
        st.ptrs[k] = q
        st.wp.add(k)

    def alloc(s, st, name, e, zero=False, depth=1):
        reg = f"&{name}!{next(_fresh)}"
        p = Ptr(reg, (), (), I(0), e)
        if e is not None and e.k in ("int", "mpz") and zero:
            st.mem[(reg, ())] = z3.K(z3.IntSort(), I(0))
        return p

    # ---- obligations
    def prove(s, st, goal, name, kind="", hints=()):
        if s.dry or not st.live:
            return
        if isinstance(goal, (Let, P2Add)):
            return
        if isinstance(goal, Pure):
            s.obls.append(Obl(s.fname, name + ":" + goal.name, [], [], goal.g, {}, s.cur_line, kind))
            return
        if isinstance(goal, Named):
            name = name + ":" + goal.name
            hints = list(hints) + list(goal.hints)
            goal = goal.g
        if isinstance(goal, Abs):
            goal = list(goal.parts)
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                s.prove(st, g, f"{name}.{i}", kind, hints)
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_expr(goal) and z3.is_true(z3.simplify(goal)):
            o = Obl(s.fname, name, [], [], goal, {}, s.cur_line, kind)
            o.status, o.backend = "proved", "simplifier"
            s.obls.append(o)
            return
        s.obls.append(Obl(s.fname, name, list(st.facts), list(st.rules), goal, dict(st.bnd),
                          s.cur_line, kind, hints))

    def assume(s, st, g):
        if isinstance(g, Let):
            st.facts.append(g.c == g.e)
            st.rules.append((g.c, g.e))
            return
        if isinstance(g, (Named, Pure, P2Add)):
            g = g.g
        if isinstance(g, Abs):
            st.facts.append(g.pred)
            if g.expand:
                s.assume(st, list(g.parts))
            return
        if isinstance(g, (list, tuple)):
            for x in g:
                s.assume(st, x)
            return
        if isinstance(g, bool):
            g = z3.BoolVal(g)
        if isinstance(g, Cong):
            k = fresh("k")
            g = Eq(g.l, g.r + g.m * k)
        if isinstance(g, Eq):
            st.rules.append((g.l, g.r))
            st.facts.append(g.l == g.r)
            return
        st.facts.append(g)
        s._harvest(st, g)

    def _harvest(s, st, g):
        """simple bounds from assumed facts"""
        if z3.is_and(g):
            for c in g.children():
                s._harvest(st, c)
            return
        if z3.is_app(g) and g.num_args() == 2:
            k = g.decl().kind()
            a, b = g.children()
            if not z3.is_int(a):
                return
            def upd(t, lo, hi):
                o = st.bnd.get(t.get_id(), (None, None, t))
                l = lo if o[0] is None else (o[0] if lo is None else max(lo, o[0]))
                h = hi if o[1] is None else (o[1] if hi is None else min(hi, o[1]))
                big = 1 << 400
                st.bnd[t.get_id()] = (-big if l is None else l, big if h is None else h, t)
            bb, ba = bounds(b, st.bnd), bounds(a, st.bnd)
            if k == z3.Z3_OP_LE:
                if bb[1] is not None: upd(a, None, bb[1])
                if ba[0] is not None: upd(b, ba[0], None)
            elif k == z3.Z3_OP_LT:
                if bb[1] is not None: upd(a, None, bb[1] - 1)
                if ba[0] is not None: upd(b, ba[0] + 1, None)
            elif k == z3.Z3_OP_GE:
                if bb[0] is not None: upd(a, bb[0], None)
                if ba[1] is not None: upd(b, None, ba[1])
            elif k == z3.Z3_OP_GT:
                if bb[0] is not None: upd(a, bb[0] + 1, None)
                if ba[1] is not None: upd(b, None, ba[1] - 1)
            elif k == z3.Z3_OP_EQ:
                if bb[0] is not None: upd(a, bb[0], bb[1])
                if ba[0] is not None: upd(b, ba[0], ba[1])

    def entails(s, st, g, ms=150):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        so = z3.Solver()
        so.set("timeout", 4000)
        so.set("rlimit", ms * 4000)   # deterministic: independent of the machine's load
        for f in st.facts:
            if not z3.is_quantifier(f):
                so.add(f)
        so.add(z3.Not(g))
        return so.check() == z3.unsat

    def feasible(s, st, ms=100):
        so = z3.Solver()
        so.set("timeout", 4000)
        so.set("rlimit", ms * 4000)
        for f in st.facts:
            if not z3.is_quantifier(f):
                so.add(f)
        return so.check() != z3.unsat

    # ---- integers
    def in_range(s, st, v, lo, hi):
        b = bounds(v, st.bnd)
        if b[0] is not None and b[0] >= lo and b[1] is not None and b[1] <= hi:
            return True
        if s.dry:
            return False
        return s.entails(st, z3.And(v >= lo, v <= hi))

    def conv(s, st, v, ty, arith=False, what="", src=None):
        """value v (mathematical) converted to integer type ty"""
        if z3.is_bool(v):
            return z3.If(v, I(1), I(0))
        lo, hi = ty.rng()
        if src is not None and src.k == "int":
            l2, h2 = src.rng()
            if l2 >= lo and h2 <= hi:
                return v
        v = z3.simplify(v) if z3.is_int_value(z3.simplify(v)) else v
        if s.in_range(st, v, lo, hi):
            st.bnd[v.get_id()] = (lo, hi, v) if v.get_id() not in st.bnd else \
                (max(lo, st.bnd[v.get_id()][0]), min(hi, st.bnd[v.get_id()][1]), v)
            return v
        if ty.sg and arith:
            if s.c is not None and s.c.overflow:
                s.prove(st, z3.And(v >= lo, v <= hi), f"no-signed-overflow({what})", "overflow")
            st.facts.append(z3.And(v >= lo, v <= hi))
            st.bnd[v.get_id()] = (lo, hi, v)
            return v
        m = 1 << ty.bits
        if not ty.sg:
            r = v % m
        else:
            r = (v + (m >> 1)) % m - (m >> 1)
        if s.c is not None and s.c.bits and not arith:
            st.facts.append(bits_def(r, lambda k: bit(v, k), ty.bits))
        return r

    def tobool(s, v):
        if z3.is_bool(v):
            return v
        if isinstance(v, Ptr):
            return z3.BoolVal(v.reg is not None)
        if isinstance(v, Opaque):
            return fresh("opq", z3.BoolSort())
        return v != 0

    def toint(s, v):
        if isinstance(v, (Ptr, Vec, Opaque)):
            return v
        return z3.If(v, I(1), I(0)) if z3.is_bool(v) else v

    # ---- top level
    def run(s, contract):
        s.c, s.fname = contract, contract.name
        _fresh.n = 0
        NAMED.clear()
        s.obls = []
        s.init_mem = {}
        s.loopno = {}
        s.path = ()
        s.cur_call = None
        s.single = set()
        s.scells = set()
        s.vtypes = {}
        s.gids = {}
        s.cov = 0
        ast = frontend.function_ast(s.tu, s.cfg, contract.name)
        if ast is None:
            raise Unsupported(f"{contract.name} is not defined in the translation unit")
        st = State()
        fr = Frame(contract.name)
        body = None
        for ch in ast.get("inner", []):
            if ch["kind"] == "ParmVarDecl":
                s.declare_param(st, fr, ch, contract)
            elif ch["kind"] == "CompoundStmt":
                body = ch
        s.number_loops(body, contract.name)
        base = contract.base(s.cfg)
        if base and base.get("nloops") is not None and base["nloops"] != s.nloops:
            raise Unsupported(f"{contract.name} has {s.nloops} loops, its invariants are for {base['nloops']}")
        s.rettype = s.types.parse(ast["type"]["qualType"].split("(")[0].strip())
        s.top = fr
        old = View(s, st, fr)
        entry = st.clone()
        pre = View(s, st, fr)
        pre.old = pre
        if contract.ghosts:
            for k, v in contract.ghosts(pre).items():
                st.ghost[k] = v
        if contract.requires:
            for g in contract.requires(pre):
                s.assume(st, g)
        if contract.defs:
            for g in contract.defs(pre):
                s.assume(st, g)
        if contract.bits:
            st.facts.append(z3.ForAll([_t], z3.Not(bit(I(0), _t)), patterns=[bit(I(0), _t)]))
        s.entry_state = st.clone()
        s.entry_view = View(s, s.entry_state, fr)
        s.entry_view.old = s.entry_view
        # vacuity guard: the precondition must be satisfiable
        s.pre_facts = list(st.facts)
        s.recheck_locals(ast, contract)
        ends = s.exec(st, fr, body)
        nret = 0
        for st2, out in ends:
            if not st2.live:
                continue
            if out is not None and out[0] not in ("return",):
                raise Unsupported(f"stray {out[0]}")
            val = out[1] if out else None
            nret += 1
            s.post(st2, fr, val)
        s.nret = nret
        return s.obls

    def post(s, st, fr, val):
        if isinstance(val, Ptr) or isinstance(val, Opaque) or val is None:
            res = val
        else:
            res = s.toint(val)
        v = View(s, st, s.top, old=s.entry_view, res=res)
        if s.c.post_hints:
            s.lemmas(st, s.c.post_hints(v), "post")
        if s.c.ensures:
            for i, g in enumerate(s.c.ensures(v)):
                s.prove(st, g, f"ensures{i}", "post")
                s.assume(st, g)
        if s.c.call_ensures:
            for i, g in enumerate(s.c.call_ensures(v)):
                s.prove(st, g, f"caller-view{i}", "post")
                s.assume(st, g)

        s.frame_check(st)

    def frame_check(s, st):
        """memory visible to the caller changes only where the contract says so"""
        c, v = s.c, s.entry_view
        whole, cells = set(), {}
        for path in c.assigns:
            try:
                p = v.ptr(path[0])
            except Unsupported:
                continue
            key = (p.reg, p.path + tuple(path[1:]))
            if path[0] in (c.arrays or ()) or p.idx:
                whole.add(key)
            else:
                cells.setdefault(key, []).append(p.off)
        if c.frame:
            whole |= {key for key, d in c.frame(v)}
        for key in sorted(st.wm, key=str):
            if key in whole or key[0].startswith("&") or "!" in key[0]:
                continue
            o, n = s.init_mem.get(key), st.mem.get(key)
            if o is None or n is None or o.eq(n) or key[0] in s.single and key in cells:
                continue
            name = "frame:" + key[0] + "".join("." + str(x) for x in key[1])
            if key in cells and z3.is_array_sort(o) and o.sort().domain() == z3.IntSort():
                s.prove(st, z3.ForAll([_t], z3.Implies(z3.And(*[_t != x for x in cells[key]]), z3.Select(n, _t) == z3.Select(o, _t))), name, "frame")
            else:
                s.prove(st, n == o, name, "frame")

    def lemmas(s, st, gs, tag):
        """intermediate assertions: proved in order, then available"""
        for i, g in enumerate(gs):
            s.prove(st, g, f"{tag}.lemma{i}", "lemma")
            s.assume(st, g)

    def recheck_locals(s, ast, c):
        """positional map of renamed parameters / locals"""
        order = []

        def walk(n):
            if n.get("kind") in ("ParmVarDecl", "VarDecl") and n.get("name"):
                order.append((n["name"], (n["type"].get("desugaredQualType") or n["type"]["qualType"])))
            for ch in n.get("inner", []) or []:
                if isinstance(ch, dict):
                    walk(ch)
        walk(ast)
        s.local_order = order
        s.rename = {}
        base = (c.base(s.cfg) or {}).get("locals")
        if base and [b[0] for b in base] != [o[0] for o in order]:
            names = {o[0] for o in order}
            gone = [b for b in base if b[0] not in names]
            have = {b[0] for b in base}
            new = [o for o in order if o[0] not in have]
            for b in gone:
                for o in new:
                    if o[1] == b[1]:
                        s.rename[b[0]] = o[0]
                        new.remove(o)
                        break

    def declare_param(s, st, fr, d, c):
        t = s.types.node(d)
        name = d.get("name", f"_{d['id']}")
        if t.k == "arr":
            t = CT("ptr", e=t.e)
        fr.names[name] = d["id"]
        s.vtypes[d["id"]] = t
        if t.k == "int":
            x = z3.Int(name)
            lo, hi = t.rng()
            set_bound(x, lo, hi)
            st.facts.append(z3.And(x >= lo, x <= hi))
            st.vars[d["id"]] = x
            s.scalars = getattr(s, "scalars", {})
        elif t.k == "ptr":
            reg = (c.alias or {}).get(name, name)
            if reg == "NULL":
                st.vars[d["id"]] = NULL
                return
            e = t.e
            if name in (c.ptrinit or {}):
                st.vars[d["id"]] = c.ptrinit[name](s, st, fr, e)
                return
            st.vars[d["id"]] = Ptr(reg, (), (), I(0), e)
            le = s.leaf(e)
            if (le.k == "struct" and name not in c.arrays) or name in c.single:
                s.single.add(reg)
            if e.k == "void":
                fc = (c.fcasts or {}).get(name)
        elif t.k == "float":
            st.vars[d["id"]] = Opaque(name)
        elif t.k == "fn":
            st.vars[d["id"]] = Opaque("fn:" + name)
        elif t.k == "vec":
            n = t.n * t.e.bits // 64
            ls = []
            for i in range(n):
                x = z3.Int(f"{name}_{i}")
                set_bound(x, 0, (1 << 64) - 1)
                st.facts.append(z3.And(x >= 0, x < (1 << 64)))
                ls.append(x)
            st.vars[d["id"]] = Vec(ls)
        else:
            raise Unsupported(f"parameter {name} of type {t}")

    def number_loops(s, body, fname, path=()):
        """ordinals of the loops, in the order in which inlining meets them; a
        loop moved into a helper keeps its ordinal.  Helpers whose invariants
        the contract lists by name (inline=) are numbered on their own."""
        import models
        if path == ():
            s.cnt = 0
        gotos = set()

        def g(n):
            if n.get("kind") == "GotoStmt":
                gotos.add(n.get("targetLabelDeclId"))
            for ch in n.get("inner", []) or []:
                if isinstance(ch, dict):
                    g(ch)
        g(body)
        own = path and fname in (s.c.inline or {})
        loc = [0]

        def dead(n):
            k = n["kind"]
            c = n["inner"][0] if k == "WhileStmt" else n["inner"][1] if k == "DoStmt" else n["inner"][2] if k == "ForStmt" else None
            while c and c.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
                c = c["inner"][0]
            return bool(c) and c.get("kind") == "IntegerLiteral" and c.get("value") == "0"

        def walk(n):
            k = n.get("kind")
            if (k in LOOPS and not dead(n)) or (k == "LabelStmt" and n.get("declId") in gotos):
                if own:
                    s.loopno[(path, n["id"])] = (fname, loc[0])
                    loc[0] += 1
                else:
                    s.loopno[(path, n["id"])] = (s.fname, s.cnt)
                    s.cnt += 1
            if k == "CallExpr":
                nm = s.callee(n)
                if nm not in models.MODELS and nm not in models.SPECIAL and nm[0] not in "*?" and nm != s.fname \
                        and len(path) < 6 and ((nm in (s.c.inline or {})) or not s.contract_of(nm)):
                    ast = frontend.function_ast(s.tu, s.cfg, nm)
                    if ast is not None:
                        bd = [x for x in ast["inner"] if x["kind"] == "CompoundStmt"][0]
                        s.number_loops(bd, nm, path + (n["id"],))
            for ch in n.get("inner", []) or []:
                if isinstance(ch, dict):
                    walk(ch)
        walk(body)
        s.nloops = s.cnt

    def contract_of(s, name):
        return s.contracts.get((s.tu, name)) or s.contracts.get(name)

    # ------------------------------------------------------------ statements
    def exec(s, st, fr, n):
        """list of (state, outcome)"""
        if n is None or not n:
            return [(st, None)]
        k = n["kind"]
        ln = (n.get("range", {}).get("begin", {}) or {})
        ln = ln.get("line") or (ln.get("expansionLoc") or {}).get("line")
        if ln:
            s.cur_line = ln
        m = getattr(s, "x_" + k, None)
        if m:
            return m(st, fr, n)
        # expression statement
        s.ev(st, fr, n)
        return [(st, None)] if st.live else []

    def x_CompoundStmt(s, st, fr, n):
        return s.seq(st, fr, n.get("inner", []) or [])

    def seq(s, st, fr, stmts):
        cur = [st]
        done = []
        for i, c in enumerate(stmts):
            nxt = []
            if c.get("kind") == "LabelStmt" and (s.path, c["id"]) in s.loopno:
                for x in cur:
                    done += s.label_loop(x, fr, c, stmts[i + 1:])
                return done
            for x in cur:
                for y, out in s.exec(x, fr, c):
                    if not y.live:
                        continue
                    if out is None:
                        nxt.append(y)
                    else:
                        done.append((y, out))
            cur = nxt
            s.paths = max(s.paths, len(cur) + len(done))
            if len(cur) > s.npaths_max:
                raise Unsupported("too many paths")
            if not cur:
                break
        return done + [(x, None) for x in cur]

    def x_NullStmt(s, st, fr, n):
        return [(st, None)]

    def x_DeclStmt(s, st, fr, n):
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                continue
            s.declare(st, fr, d)
        return [(st, None)] if st.live else []

    def declare(s, st, fr, d):
        t = s.types.node(d)
        name = d["name"]
        fr.names[name] = d["id"]
        st.wv.add(d["id"])
        s.vtypes[d["id"]] = t
        init = None
        for c in d.get("inner", []) or []:
            if c.get("kind", "").endswith("Attr") or c.get("kind", "").endswith("Comment"):
                continue
            init = c
        if t.k == "arr":
            e = t.e
            st.vars[d["id"]] = Cell(f"&{name}!{next(_fresh)}", (), (), I(0), e)
            p = st.vars[d["id"]]
            if s.leaf(e).k == "struct":
                s.single.add(p.reg)
            if init is not None and init["kind"] == "InitListExpr":
                vals = [s.toint(s.ev(st, fr, x)) for x in init.get("inner", []) or [] if x.get("kind") != "ImplicitValueInitExpr"]
                if init.get("array_filler"):
                    fl = [x for x in init["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
                    vals = [s.toint(s.ev(st, fr, x)) for x in fl]
                a = z3.K(z3.IntSort(), I(0))
                for i, v in enumerate(vals):
                    a = z3.Store(a, i, v)
                st.mem[(p.reg, ())] = a
            return
        if t.k == "struct":
            p = Cell(f"&{name}!{next(_fresh)}", (), (), I(0), t)
            s.single.add(p.reg)
            st.vars[d["id"]] = p
            if init is not None:
                src = s.ev(st, fr, init)
                if isinstance(src, Ptr):
                    s.copy_struct(st, p, src)
            return
        if t.k == "mpz":
            st.vars[d["id"]] = Cell(f"&{name}!{next(_fresh)}", (), (), I(0), t)
            return
        if init is None:
            if d.get("storageClass") == "static":
                st.vars[d["id"]] = s.havoc_val(t, name)
                return
            st.vars[d["id"]] = UNDEF if t.k != "int" else UNDEF
            return
        v = s.ev(st, fr, init)
        st.vars[d["id"]] = s.coerce(st, v, t)

    def coerce(s, st, v, t):
        if t.k == "int" and z3.is_expr(v):
            return s.conv(st, s.toint(v), t)
        if t.k == "ptr" and isinstance(v, Ptr):
            if v.reg is not None and t.e.k != "void":
                return v if v.e is not None and v.e.k not in ("void",) and s.leaf(v.e).k == s.leaf(t.e).k else v.as_(t.e)
            return v
        if t.k == "ptr" and z3.is_expr(v):
            if z3.is_int_value(z3.simplify(v)) and z3.simplify(v).as_long() == 0:
                return NULL
        if t.k == "float":
            return v if isinstance(v, Opaque) else Opaque("f")
        return v

    def copy_struct(s, st, dst, src):
        t = src.e if src.e is not None and src.e.k == "struct" else dst.e
        if t is None or t.k != "struct" or t.name not in s.types.recs:
            raise Unsupported("copy of a structure of unknown type")
        for f in s.types.recs[t.name]:
            ft = s.types.field(t.name, f)
            a = Ptr(src.reg, src.path + (f,), src.idx, src.off, ft)
            b = Ptr(dst.reg, dst.path + (f,), dst.idx, dst.off, ft)
            if ft.k in ("int", "mpz"):
                s.store(st, b, s.load(st, a))
            elif ft.k == "struct":
                s.copy_struct(st, b, a)
            elif ft.k == "ptr":
                s.store_ptr(st, b, s.load_ptr(st, a, ft.e))
            elif ft.k in ("float", "fn"):
                pass
            else:
                raise Unsupported(f"copy of a structure with a field of type {ft}")

    def x_ReturnStmt(s, st, fr, n):
        v = None
        if n.get("inner"):
            v = s.ev(st, fr, n["inner"][0])
            if not st.live:
                return []
        return [(st, ("return", v))]

    def x_BreakStmt(s, st, fr, n):
        return [(st, ("break",))]

    def x_ContinueStmt(s, st, fr, n):
        return [(st, ("continue",))]

    def x_GotoStmt(s, st, fr, n):
        return [(st, ("goto", n.get("targetLabelDeclId")))]

    def x_LabelStmt(s, st, fr, n):
        inner = n.get("inner", [])
        return s.exec(st, fr, inner[0]) if inner else [(st, None)]

    def x_AttributedStmt(s, st, fr, n):
        return s.exec(st, fr, n["inner"][-1])

    def label_loop(s, st, fr, lab, rest):
        """backward gotos to a label: the label is a loop head with an invariant"""
        body = list(lab.get("inner", [])) + list(rest)
        spec = s.loopspec(lab)
        did = lab.get("declId")
        if spec is None:
            raise Unsupported("label without invariant")
        return s.cut(st, fr, lab, spec, None, body, None, label=did)

    def x_IfStmt(s, st, fr, n):
        inner = n["inner"]
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if-init")
        c = s.tobool(s.ev(st, fr, inner[0]))
        if not st.live:
            return []
        then, els = inner[1], inner[2] if len(inner) > 2 else None
        ft, fe = (lambda x: s.exec(x, fr, then)), (lambda x: s.exec(x, fr, els) if els else [(x, None)])
        if s.c is not None and s.c.merge_ifs and not s.dry:
            return s.fork_join(st, fr, c, ft, fe)
        return s.fork(st, fr, c, ft, fe)

    def fork_join(s, st, fr, c, ft, fe):
        """a conditional whose branches differ in the given regions only is joined after it"""
        n, nr = len(st.facts), len(st.rules)
        out = s.fork(st, fr, c, ft, fe)
        if len(out) != 2 or any(o is not None or not x.live for x, o in out):
            return out
        (a, _), (b, _) = out
        same = lambda x, y: x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))
        if len(a.rules) != nr or len(b.rules) != nr or set(a.mem) != set(b.mem) or a.ptrs.keys() != b.ptrs.keys():
            return out
        if any(not same(a.ptrs[k], b.ptrs[k]) for k in a.ptrs) or set(a.vars) != set(b.vars) or any(not same(a.vars[k], b.vars[k]) for k in a.vars):
            return out
        if any(not same(a.ghost[k], b.ghost.get(k)) for k in a.ghost):
            return out
        diff = [k for k in a.mem if not same(a.mem[k], b.mem[k])]
        if any(k[0] not in s.c.merge_ifs for k in diff):
            return out
        m = b
        c = z3.simplify(c)
        xa, xb = a.facts[n:], b.facts[n:]
        m.facts = m.facts[:n] + [z3.Implies(c, conj(xa)), z3.Implies(z3.Not(c), conj(xb))]
        for k in diff:
            m.mem[k] = z3.If(c, a.mem[k], b.mem[k])
        m.bnd = dict(st.bnd) if False else {k: v for k, v in b.bnd.items() if a.bnd.get(k) == v}
        m.wv |= a.wv
        m.wm |= a.wm
        m.wp |= a.wp
        return [(m, None)]

    def fork(s, st, fr, c, ft, fe):
        c = z3.simplify(c)
        if z3.is_true(c):
            return ft(st)
        if z3.is_false(c):
            return fe(st)
        a, b = st.clone(), st
        a.facts.append(c)
        s._harvest(a, c)
        nc = z3.simplify(z3.Not(c))
        b.facts.append(nc)
        s._harvest(b, nc)
        out = []
        for x, f in ((a, ft), (b, fe)):
            if s.dry:
                try:
                    out += f(x)
                except DeadPath:
                    pass
            elif s.feasible(x):
                out += f(x)
        return out

    def x_SwitchStmt(s, st, fr, n):
        inner = n["inner"]
        v = s.toint(s.ev(st, fr, inner[-2]))
        body = inner[-1]
        # flatten: list of (labels, stmts)
        items = []

        def flat(c):
            if c["kind"] == "CaseStmt":
                lab = c["inner"][0]
                items.append(("case", s.constval(lab)))
                flat(c["inner"][-1])
            elif c["kind"] == "DefaultStmt":
                items.append(("default", None))
                flat(c["inner"][-1])
            else:
                items.append(("stmt", c))
        for c in body.get("inner", []) or []:
            flat(c)
        outs = []
        labels = [it[1] for it in items if it[0] == "case"]
        hasdef = any(it[0] == "default" for it in items)
        for i, it in enumerate(items):
            if it[0] == "case":
                g = v == it[1]
            elif it[0] == "default":
                g = conj([v != l for l in labels])
            else:
                continue
            x = st.clone()
            x.facts.append(g)
            if not s.dry and not s.feasible(x):
                continue
            for y, o in s.seq(x, fr, [z[1] for z in items[i:] if z[0] == "stmt"]):
                outs.append((y, None if o == ("break",) else o))
        if not hasdef:
            x = st.clone()
            x.facts.append(conj([v != l for l in labels]))
            if s.dry or s.feasible(x):
                outs.append((x, None))
        return outs

    def constval(s, n):
        while n["kind"] != "IntegerLiteral" and "value" not in n:
            n = n["inner"][0]
        return int(n["value"])

    # ---- loops
    def x_WhileStmt(s, st, fr, n):
        inner = n["inner"]
        return s.loop(st, fr, n, None, inner[0], None, inner[-1])

    def x_DoStmt(s, st, fr, n):
        body, cond = n["inner"][0], n["inner"][1]
        if cond["kind"] == "IntegerLiteral" and cond["value"] == "0":
            return [(x, None if o in (("break",), ("continue",)) else o) for x, o in s.exec(st, fr, body)]
        return s.loop(st, fr, n, None, cond, None, body, do=True)

    def x_ForStmt(s, st, fr, n):
        init, cv, cond, inc, body = n["inner"]
        if init:
            r = s.exec(st, fr, init)
            if not r:
                return []
            st = r[0][0]
        return s.loop(st, fr, n, init, cond if cond else None, inc if inc else None, body)

    def loopspec(s, n):
        key = s.loopno.get((s.path, n["id"]))
        if key is None:
            return None
        f, i = key
        if f == s.fname:
            return s.c.loops.get(i)
        ic = (s.c.inline or {}).get(f)
        if ic:
            return ic.get(i)
        return None

    def loop(s, st, fr, n, init, cond, inc, body, do=False):
        spec = s.loopspec(n)
        if spec is None or spec == "unroll":
            return s.unroll(st, fr, n, cond, inc, body, do)
        return s.cut(st, fr, n, spec, cond, [body], inc, do=do)

    def unroll(s, st, fr, n, cond, inc, body, do):
        """loop with a trip count known to the simplifier"""
        outs, cur, it = [], [st], 0
        first = do
        while cur:
            it += 1
            if it > 130:
                raise Unsupported("loop without invariant does not unroll")
            nxt = []
            for x in cur:
                if cond is not None and not first:
                    c = z3.simplify(s.tobool(s.ev(x, fr, cond)))
                    if not (z3.is_true(c) or z3.is_false(c)):
                        if s.dry:
                            return s.dry_loop(x, fr, cond, inc, body)
                        if s.entails(x, c):
                            c = z3.BoolVal(True)
                        elif s.entails(x, z3.Not(c)):
                            c = z3.BoolVal(False)
                        else:
                            y = x.clone()
                            y.facts.append(z3.Not(c))
                            outs.append((y, None))
                            x.facts.append(c)
                            c = z3.BoolVal(True)
                            if it > 12:
                                raise Unsupported(f"loop {s.loopno.get((s.path, n['id']))} has no invariant")
                    if z3.is_false(c):
                        outs.append((x, None))
                        continue
                for y, o in s.exec(x, fr, body):
                    if not y.live:
                        continue
                    if o is None or o == ("continue",):
                        if inc is not None:
                            s.ev(y, fr, inc)
                        nxt.append(y)
                    elif o == ("break",):
                        outs.append((y, None))
                    else:
                        outs.append((y, o))
            first = False
            cur = nxt
        return outs

    def dry_loop(s, st, fr, cond, inc, body):
        outs = [(st, None)]
        for y, o in s.exec(st.clone(), fr, body):
            if inc is not None and (o is None or o == ("continue",)):
                s.ev(y, fr, inc)
            if o is not None and o[0] in ("return", "goto"):
                outs.append((y, o))
            else:
                st.wv |= y.wv
                st.wm |= y.wm
                st.wp |= y.wp
        for y, o in outs[1:]:
            y.wv |= st.wv
            y.wm |= st.wm
            y.wp |= st.wp
        return outs

    def havoc_val(s, t, name):
        if t.k == "int":
            x = fresh(name)
            lo, hi = t.rng()
            set_bound(x, lo, hi)
            return x
        if t.k == "vec":
            n = t.n * t.e.bits // 64
            r = []
            for i in range(n):
                x = fresh(name)
                set_bound(x, 0, (1 << 64) - 1)
                r.append(x)
            return Vec(r)
        if t.k in ("float", "fn"):
            return Opaque(name)
        return UNDEF

    def havoc(s, st, fr, wv, wm, wp):
        names = {}
        f = fr
        while f is not None:
            for k, v in f.names.items():
                names.setdefault(v, k)
            f = f.parent
        for d in sorted(wv, key=lambda d: (names.get(d, ""), len(str(d)), str(d))):
            if d not in st.vars:
                continue
            old = st.vars[d]
            nm = names.get(d, "v")
            if isinstance(old, Undef) or isinstance(old, Opaque):
                t = s.vtypes.get(d)
                if t is not None and t.k in ("int", "vec"):
                    v = s.havoc_val(t, nm)
                    st.vars[d] = v
                    s._typed(st, v, t)
                continue
            if isinstance(old, Cell):
                continue
            if isinstance(old, Ptr):
                if old.reg is None:
                    st.vars[d] = UNDEF
                    continue
                if (d in s.ptr_regchange):
                    st.vars[d] = UNDEF
                    continue
                if (d in s.ptr_assigned) or True:
                    st.vars[d] = Ptr(old.reg, old.path, old.idx, fresh(nm + "_off"), old.e)
                continue
            if isinstance(old, Vec):
                ls = []
                for _ in old.l:
                    x = fresh(nm)
                    set_bound(x, 0, (1 << old.bits) - 1)
                    st.facts.append(z3.And(x >= 0, x < (1 << old.bits)))
                    ls.append(x)
                st.vars[d] = Vec(ls, old.bits)
                continue
            t = s.vtypes.get(d)
            x = fresh(nm)
            if t is not None and t.k == "int":
                lo, hi = t.rng()
                set_bound(x, lo, hi)
                st.facts.append(z3.And(x >= lo, x <= hi))
            st.vars[d] = x
        for key in sorted(wm):
            if key in st.mem:
                st.mem[key] = fresh("m_" + key[0] + "".join("." + p for p in key[1]), st.mem[key].sort())
            else:
                # first touched inside the loop
                pass
        for k in wp:
            if k in st.ptrs:
                q = st.ptrs[k]
                st.ptrs[k] = UNDEF

    def _typed(s, st, v, t):
        if t.k == "int":
            lo, hi = t.rng()
            st.facts.append(z3.And(v >= lo, v <= hi))
        elif isinstance(v, Vec):
            for x in v.l:
                st.facts.append(z3.And(x >= 0, x < (1 << 64)))

    def effects(s, st, fr, cond, body, inc, label=None):
        """dry run of one iteration from a havocked state: what can it modify?"""
        wv, wm, wp = set(), set(), set()
        gc = set()
        for rnd in range(4):
            x = st.clone()
            x.wv, x.wm, x.wp = set(), set(), set()
            x.ghost = dict(st.ghost)
            s.dry += 1
            sav_ra = s.ptr_regchange
            try:
                names_before = dict(fr.names)
                s.havoc(x, fr, wv, wm, wp)
                start = x.clone()
                if cond is not None:
                    s.ev(x, fr, cond)
                outs = []
                gv, gm, gp = set(), set(), set()
                for y, o in s.seq(x, fr, body):
                    if inc is not None and (o is None or o == ("continue",)):
                        s.ev(y, fr, inc)
                    # only paths that return to the loop head matter
                    if (label is None and (o is None or o == ("continue",))) or (label is not None and o == ("goto", label)):
                        outs.append((y, o))
                        gc |= {k for k in y.ghost if y.ghost[k] is not start.ghost.get(k)}
                        gv |= y.wv
                        gm |= y.wm
                        gp |= y.wp
                for y, o in outs:
                    for d in list(gv):
                        a, b = start.vars.get(d), y.vars.get(d)
                        if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.reg != b.reg or a.path != b.path or
                                len(a.idx) != len(b.idx) or any(not z3.eq(p, q) for p, q in zip(a.idx, b.idx))):
                            s.ptr_regchange = s.ptr_regchange | {d}
                            wv = set(wv)
                fr.names = names_before
            finally:
                s.dry -= 1
            nv, nm, np_ = wv | gv, wm | gm, wp | gp
            if (nv, nm, np_) == (wv, wm, wp) and rnd > 0:
                break
            wv, wm, wp = nv, nm, np_
        s.ghost_changed = gc
        # only variables that exist before the loop matter
        return {d for d in wv if d in st.vars}, wm, wp

    def cut(s, st, fr, n, spec, cond, body, inc, do=False, label=None):
        key = s.loopno.get((s.path, n["id"]))
        tag = f"loop{key[1]}" if key and key[0] == s.fname else f"{key[0]}.loop{key[1]}"
        line = s.cur_line
        if s.dry:
            outs = []
            x = st
            for y, o in s.seq(x.clone(), fr, body):
                if inc is not None and (o is None or o == ("continue",)):
                    s.ev(y, fr, inc)
                back = (label is None and (o is None or o == ("continue",))) or (label is not None and o == ("goto", label))
                if back:
                    x.wv |= y.wv
                    x.wm |= y.wm
                    x.wp |= y.wp
                elif o == ("break",) and label is None:
                    outs.append((y, None))
                else:
                    outs.append((y, o))
            for y, o in outs:
                y.wv |= x.wv
                y.wm |= x.wm
                y.wp |= x.wp
            if label is None:
                if cond is not None:
                    s.ev(x, fr, cond)
                outs.append((x, None))
            return outs
        if spec.init_ghost:
            st.ghost.update(spec.init_ghost(View(s, st, fr, old=s.entry_view)))
        if spec.pre:
            for g in spec.pre(View(s, st, fr, old=s.entry_view)):
                s.prove(st, g, f"{tag}.lemma", "lemma")
                s.assume(st, g)
        if do:
            raise Unsupported("do-while with invariant")
        before = st.clone()
        ghost_before = dict(st.ghost)
        wv, wm, wp = s.effects(st, fr, cond, body, inc, label)
        gch = s.ghost_changed
        # make sure memory touched in the loop exists before, so it is havocked
        v0 = View(s, st, fr, old=s.entry_view)
        v0.head = v0
        v0.before = v0
        if spec.unfold:
            for g in spec.unfold(v0):
                s.assume(st, g)
        for i, g in enumerate(spec.inv(v0)):
            s.prove(st, g, f"{tag}.init.{i}", "inv-init")
        x = st.clone()
        x.live = True
        s.havoc(x, fr, wv, wm, wp)
        for k in list(x.ghost):
            if k in gch or (k.startswith("~") and (spec.ghost or not s.c.onstore)):
                x.ghost[k] = fresh(k.lstrip("~"), x.ghost[k].sort())
        vh = View(s, x, fr, old=s.entry_view)
        bview = View(s, before, fr, old=s.entry_view)
        vh.before = bview
        vh.head = vh
        for g in spec.inv(vh):
            s.assume(x, g)
        if spec.unfold:
            for g in spec.unfold(vh):
                s.assume(x, g)
        if spec.headlemmas:
            s.lemmas(x, spec.headlemmas(vh), tag + ".head")
        outs = []
        headst = x.clone()
        # one arbitrary iteration
        y = x.clone()
        after = x
        if cond is not None:
            c = s.tobool(s.ev(y, fr, cond))
            ca = s.tobool(s.ev(after, fr, cond))
            y.facts.append(c)
            s._harvest(y, c)
            nca = z3.simplify(z3.Not(ca))
            after.facts.append(nca)
            s._harvest(after, nca)
        if s.feasible(y):
            hv = View(s, headst, fr, old=s.entry_view)
            hv.before = bview
            for z, o in s.seq(y, fr, body):
                if not z.live:
                    continue
                if (o is None and label is None) or o == ("continue",) or (label is not None and o == ("goto", label)):
                    if inc is not None:
                        s.ev(z, fr, inc)
                    ve = View(s, z, fr, old=s.entry_view)
                    ve.head = hv
                    ve.before = bview
                    if spec.ghost:
                        z.ghost.update(spec.ghost(ve))
                    if spec.hints:
                        s.lemmas(z, spec.hints(ve), tag + ".step")
                    for i, g in enumerate(spec.inv(ve)):
                        s.prove(z, g, f"{tag}.step.{i}", "inv-step")
                        s.assume(z, g)
                    if spec.dec:
                        d1, d0 = spec.dec(ve), spec.dec(hv)
                        s.prove(z, z3.And(d0 >= 0, d1 < d0) if not isinstance(d0, tuple) else
                                z3.Or(d1[0] < d0[0], z3.And(d1[0] == d0[0], d1[1] < d0[1])),
                                f"{tag}.decreases", "term")
                elif o == ("break",) and label is None:
                    outs.append((z, None))
                else:
                    outs.append((z, o))
        s.cur_line = line
        if label is None:
            if cond is not None and s.feasible(after):
                if spec.exitlemmas:
                    va = View(s, after, fr, old=s.entry_view)
                    va.before = bview
                    s.lemmas(after, spec.exitlemmas(va), tag + ".exit")
                outs.append((after, None))
        return outs

    ptr_regchange = frozenset()
    ptr_assigned = frozenset()

    # ------------------------------------------------------------ expressions
    def ev(s, st, fr, n):
        k = n["kind"]
        m = getattr(s, "e_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k}")
        return m(st, fr, n)

    def e_ParenExpr(s, st, fr, n):
        return s.ev(st, fr, n["inner"][0])

    e_ConstantExpr = e_ParenExpr
    e_ExprWithCleanups = e_ParenExpr

    def e_IntegerLiteral(s, st, fr, n):
        return I(int(n["value"]))

    def e_CharacterLiteral(s, st, fr, n):
        return I(int(n["value"]))

    def e_FloatingLiteral(s, st, fr, n):
        return Opaque("float")

    def e_StringLiteral(s, st, fr, n):
        return Opaque("string")

    def e_PredefinedExpr(s, st, fr, n):
        return Opaque("string")

    def e_GNUNullExpr(s, st, fr, n):
        return NULL

    def e_UnaryExprOrTypeTraitExpr(s, st, fr, n):
        if n.get("name") != "sizeof":
            raise Unsupported(n.get("name", "?"))
        if "argType" in n:
            t = s.types.parse(n["argType"].get("desugaredQualType") or n["argType"]["qualType"])
        else:
            t = s.types.node(n["inner"][0])
        return SizeOf(s, t)

    def e_DeclRefExpr(s, st, fr, n):
        r = n["referencedDecl"]
        if r["kind"] == "EnumConstantDecl":
            v = s.types.enum_const(r["name"])
            if v is None:
                raise Unsupported("enum constant")
            return I(v)
        if r["kind"] == "FunctionDecl":
            return Opaque("fn:" + r["name"])
        d = r["id"]
        if d not in st.vars:
            # global variable
            t = s.types.node(r)
            nm = r["name"]
            key = "g:" + nm
            s.gids[nm] = d
            if t.k == "int":
                p = Cell(key, (), (), I(0), t)
            elif t.k == "fn" or (t.k == "ptr" and t.e.k == "fn"):
                return Opaque("fnptr:" + nm)
            else:
                p = Ptr(key, (), (), I(0), t.e if t.k in ("ptr", "arr") else t)
                st.vars[d] = p
                return p
            st.vars[d] = p
        return st.vars[d]

    def lv(s, st, fr, n):
        """lvalue: ('var', id, type) or ('mem', Ptr)"""
        k = n["kind"]
        if k == "ParenExpr":
            return s.lv(st, fr, n["inner"][0])
        if k == "DeclRefExpr":
            t = s.types.node(n)
            s.ev(st, fr, n)
            d = n["referencedDecl"]["id"]
            x = st.vars.get(d)
            if isinstance(x, Cell) and (t.k in ("int", "struct", "mpz")):
                return ("mem", x.as_(t))
            if t.k == "arr":
                return ("mem", x)
            return ("var", d, t)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = s.ev(st, fr, n["inner"][0])
            return ("mem", s.chkptr(p))
        if k == "ArraySubscriptExpr":
            p = s.chkptr(s.ev(st, fr, n["inner"][0]))
            i = s.toint(s.ev(st, fr, n["inner"][1]))
            if s.leaf(p.e) is not None and p.e.k == "arr" and p.e.n != 1 and p.e.e.k in ("int", "arr", "mpz") and p.e.n > 1:
                # multi-dimensional local array
                return ("mem", Ptr(p.reg, p.path, p.idx + (z3.simplify(p.off + i),), I(0), p.e))
            return ("mem", p.add(i))
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                p = s.chkptr(s.ev(st, fr, b))
            else:
                p = s.lv(st, fr, b)[1]
            t = s.types.node(n)
            f = n["name"]
            q = Ptr(p.reg, p.path + (f,), p.idx, p.off, t)
            if t.k == "arr" and t.n != 1:
                q = Ptr(p.reg, p.path + (f,), p.idx + (p.off,), I(0), t)
            return ("mem", q)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return s.lv(st, fr, n["inner"][0])
        raise Unsupported(f"lvalue {k}")

    def chkptr(s, p):
        if not isinstance(p, Ptr) or p.reg is None:
            if isinstance(p, Undef):
                raise Unsupported("dereference of a pointer unknown at the loop head")
            if s.dry and isinstance(p, Ptr):
                raise DeadPath()
            raise Unsupported("dereference of a non-pointer")
        return p

    def rd(s, st, lv):
        if lv[0] == "var":
            x = st.vars.get(lv[1])
            if isinstance(x, Undef) or x is None:
                x = s.havoc_val(lv[2], "uninit")
                if z3.is_expr(x):
                    s._typed(st, x, lv[2])
                st.vars[lv[1]] = x
            return x
        p = lv[1]
        t = p.e
        if t is None:
            raise Unsupported("untyped load")
        if t.k == "arr":
            return p.as_(t.e)
        if t.k == "ptr":
            return s.load_ptr(st, p, t.e)
        if t.k in ("struct", "mpz"):
            return p
        if t.k in ("float", "fn"):
            return Opaque("mem")
        if t.k == "vec":
            return s.vload(st, p, t.n * t.e.bits // 64)
        return s.load(st, p)

    def wr(s, st, lv, v):
        if lv[0] == "var":
            t = lv[2]
            st.wv.add(lv[1])
            s.vtypes[lv[1]] = t
            st.vars[lv[1]] = s.coerce(st, v, t)
            return st.vars[lv[1]]
        p = lv[1]
        t = p.e
        if t.k == "ptr":
            if z3.is_expr(v):
                v = NULL
            s.store_ptr(st, p, v)
            return v
        if t.k in ("float", "fn"):
            return v
        if t.k == "struct":
            s.copy_struct(st, p, v)
            return v
        if t.k == "vec":
            s.vstore(st, p, v)
            return v
        if isinstance(v, Opaque):
            v = s.havoc_val(t, "opq")
            s._typed(st, v, t)
        v = s.conv(st, s.toint(v), t)
        s.store(st, p, v)
        return v

    vtypes = {}

    def e_ArraySubscriptExpr(s, st, fr, n):
        return s.rd(st, s.lv(st, fr, n))

    e_MemberExpr = e_ArraySubscriptExpr

    def e_ImplicitCastExpr(s, st, fr, n):
        ck = n["castKind"]
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            return s.rd(st, s.lv(st, fr, sub))
        if ck in ("ArrayToPointerDecay",):
            if sub["kind"] in ("StringLiteral", "PredefinedExpr"):
                return Opaque("string")
            lv = s.lv(st, fr, sub)
            p = lv[1] if lv[0] == "mem" else st.vars[lv[1]]
            t = s.types.node(sub)
            if t.k == "arr":
                return p.as_(t.e)
            return p
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return s.ev(st, fr, sub)
        v = s.ev(st, fr, sub)
        return s.cast(st, v, ck, s.types.node(n), s.types.node(sub))

    def e_CStyleCastExpr(s, st, fr, n):
        sub = n["inner"][0]
        ck = n["castKind"]
        if ck == "LValueToRValue":
            return s.rd(st, s.lv(st, fr, sub))
        v = s.ev(st, fr, sub)
        return s.cast(st, v, ck, s.types.node(n), s.types.node(sub))

    def cast(s, st, v, ck, t, f):
        if ck in ("NoOp", "ToVoid"):
            return v if ck == "NoOp" else None
        if ck == "IntegralCast":
            if isinstance(v, SizeOf):
                return v
            if isinstance(v, Opaque):
                v = s.havoc_val(t, "opq")
                s._typed(st, v, t)
                return v
            return s.conv(st, s.toint(v), t, src=f)
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return s.tobool(v)
        if ck == "NullToPointer":
            return NULL
        if ck == "BitCast":
            if isinstance(v, Ptr) and t.k == "ptr":
                if v.reg is None or t.e.k == "void" or v.e is None:
                    return v if t.e.k == "void" else (v.as_(t.e) if v.reg else v)
                if v.e.k == "void":
                    return v.as_(t.e)
                if t.e.k == "vec" or v.e.k == "vec":
                    return v
                le, lt = s.leaf(v.e), s.leaf(t.e)
                if le.k == lt.k and le.k == "int" and le.bits == lt.bits and v.e.k != "ptr":
                    return v if le.sg == lt.sg else v.as_(v.e)
                if le.k == lt.k and le.k in ("mpz", "struct", "ptr"):
                    return v.as_(t.e)
                if v.reg.startswith("@raw"):
                    return v.as_(t.e)
                raise Unsupported(f"pointer reinterpretation {v.e} -> {t.e}")
            return v
        if ck in ("IntegralToFloating", "FloatingCast"):
            o = Opaque("float")
            if ck == "FloatingCast" and hasattr(v, "ival"):
                o.ival = v.ival
            if z3.is_expr(v) and z3.is_int_value(z3.simplify(v)):
                o.ival = z3.simplify(v).as_long()
            return o
        if ck == "FloatingToIntegral":
            if hasattr(v, "ival"):
                return s.conv(st, I(v.ival), t)
            x = s.havoc_val(t, "fl")
            s._typed(st, x, t)
            return x
        if ck == "FloatingToBoolean":
            return fresh("fl", z3.BoolSort())
        if ck == "PointerToIntegral":
            return Opaque("ptrint")
        if ck == "IntegralToPointer":
            return NULL
        if ck == "VectorSplat":
            raise Unsupported("splat")
        raise Unsupported(f"cast {ck}")

    def e_UnaryOperator(s, st, fr, n):
        op = n["opcode"]
        sub = n["inner"][0]
        t = s.types.node(n)
        if op == "&":
            if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] == "FunctionDecl":
                return Opaque("fn:" + sub["referencedDecl"]["name"])
            lv = s.lv(st, fr, sub)
            if lv[0] == "var":
                # address of a scalar local: move it to memory
                d, ty = lv[1], lv[2]
                old = st.vars.get(d)
                if ty.k not in ("int", "ptr"):
                    if isinstance(old, Ptr):
                        return old
                    raise Unsupported("address of " + str(ty))
                p = Cell(f"&{sub['referencedDecl']['name']}!{next(_fresh)}", (), (), I(0), ty)
                if ty.k == "ptr":
                    raise Unsupported("address of a pointer local")
                s.scells.add(p.reg)
                if z3.is_expr(old):
                    s.store(st, p, s.toint(old))
                st.vars[d] = p
                st.wv.add(d)
                return p
            p = lv[1]
            return p
        if op == "*":
            return s.rd(st, s.lv(st, fr, n))
        if op in ("++", "--"):
            lv = s.lv(st, fr, sub)
            old = s.rd(st, lv)
            d = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = old.add(d)
            elif isinstance(old, Opaque):
                new = old
            else:
                new = s.conv(st, s.toint(old) + d, t, arith=True, what=op)
            new = s.wr(st, lv, new)
            return old if n.get("isPostfix") else new
        v = s.ev(st, fr, sub)
        if op == "!":
            return z3.Not(s.tobool(v))
        if isinstance(v, Opaque):
            return v
        v = s.toint(v)
        if op == "-":
            if isinstance(v, Vec):
                raise Unsupported("vec neg")
            return s.conv(st, -v, t, arith=True, what="neg")
        if op == "+":
            return v
        if op == "~":
            lo, hi = t.rng()
            r = (-1 - v) if t.sg else (hi - v)
            if s.c is not None and s.c.bits:
                st.facts.append(bits_def(r, lambda k: z3.Not(bit(v, k)), t.bits))
            return r
        if op == "__extension__":
            return v
        raise Unsupported(op)

    def e_BinaryOperator(s, st, fr, n):
        op = n["opcode"]
        a, b = n["inner"]
        t = s.types.node(n)
        if op == "=":
            v = s.ev(st, fr, b)
            lv = s.lv(st, fr, a)
            if t.k == "struct" and isinstance(v, Ptr):
                s.copy_struct(st, lv[1], v)
                return v
            return s.wr(st, lv, v)
        if op == ",":
            s.ev(st, fr, a)
            return s.ev(st, fr, b)
        if op in ("&&", "||"):
            x = s.tobool(s.ev(st, fr, a))
            x = z3.simplify(x)
            if op == "&&" and z3.is_false(x):
                return z3.BoolVal(False)
            if op == "||" and z3.is_true(x):
                return z3.BoolVal(True)
            if s.pure(b):
                k = len(st.facts)
                g = x if op == "&&" else z3.Not(x)
                y2 = st.clone()
                y2.facts.append(g)
                y = s.tobool(s.ev(y2, fr, b))
                for f in y2.facts[k + 1:]:
                    st.facts.append(z3.Implies(g, f))
            else:
                # side effect on the right: merge
                y2 = st.clone()
                g = x if op == "&&" else z3.Not(x)
                y2.facts.append(g)
                s._harvest(y2, g)
                y = s.tobool(s.ev(y2, fr, b))
                s.merge(st, y2, g)
            return z3.And(x, y) if op == "&&" else z3.Or(x, y)
        x = s.ev(st, fr, a)
        y = s.ev(st, fr, b)
        return s.binop(st, op, x, y, t, s.types.node(a))

    def pure(s, n):
        k = n.get("kind")
        if k == "CallExpr":
            return s.callee(n) in PURE
        if k == "CompoundAssignOperator" or (k == "BinaryOperator" and n.get("opcode") == "=") or \
                (k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
            return False
        return all(s.pure(c) for c in n.get("inner", []) or [] if isinstance(c, dict))

    def merge(s, st, other, g):
        """st := if g then other else st"""
        st.wv |= other.wv
        st.wm |= other.wm
        st.wp |= other.wp
        for k, v in other.vars.items():
            o = st.vars.get(k)
            if o is None or (v is o):
                if o is None:
                    st.vars[k] = v
                continue
            if z3.is_expr(v) and z3.is_expr(o):
                if not z3.eq(s.toint(v), s.toint(o)):
                    w = z3.If(g, s.toint(v), s.toint(o))
                    b1, b2 = bounds(s.toint(v), other.bnd), bounds(s.toint(o), st.bnd)
                    st.vars[k] = w
                    if None not in b1 + b2:
                        st.bnd[w.get_id()] = (min(b1[0], b2[0]), max(b1[1], b2[1]), w)
                    st.wv.add(k)
            elif isinstance(v, Ptr) and isinstance(o, Ptr) and v.reg == o.reg and v.path == o.path:
                st.vars[k] = Ptr(v.reg, v.path, v.idx, z3.If(g, v.off, o.off), v.e)
            elif type(v) is type(o) and isinstance(v, (Undef, Opaque)):
                pass
            else:
                st.vars[k] = UNDEF
        for k, v in other.mem.items():
            o = st.mem.get(k)
            if o is None:
                st.mem[k] = v
            elif not z3.eq(v, o):
                st.mem[k] = z3.If(g, v, o)
        for k, v in other.ptrs.items():
            if k in st.ptrs and st.ptrs[k] is not v:
                raise Unsupported("pointer merge")
            st.ptrs[k] = v
        for k, v in other.ghost.items():
            if not z3.eq(v, st.ghost[k]):
                st.ghost[k] = z3.If(g, v, st.ghost[k])
        n = len(st.facts)
        for f in other.facts[n:]:
            if not z3.eq(f, g):
                st.facts.append(z3.Implies(g, f))
        for b, v in other.bnd.items():
            pass

    def binop(s, st, op, x, y, t, ta=None):
        if isinstance(x, SizeOf) or isinstance(y, SizeOf):
            if op == "*":
                if isinstance(x, SizeOf) and isinstance(y, SizeOf):
                    raise Unsupported("sizeof*sizeof")
                so, o = (x, y) if isinstance(x, SizeOf) else (y, x)
                return SizeOf(s, so.t, so.n * s.toint(o))
            def num(v):
                if not isinstance(v, SizeOf):
                    return v
                if v.t.k != "int":
                    raise Unsupported("sizeof arithmetic")
                return v.n * (v.t.bits // 8)
            x, y = num(x), num(y)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return fresh("opq", z3.BoolSort())
            if t.k == "int":
                v = s.havoc_val(t, "opq")
                s._typed(st, v, t)
                return v
            return Opaque("expr")
        if isinstance(x, Vec) or isinstance(y, Vec):
            if op not in ("+", "-"):
                raise Unsupported("vector " + op)
            f = (lambda a, b: a + b) if op == "+" else (lambda a, b: a - b)
            return s.vmap(st, f, x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return s.ptrop(st, op, x, y)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            x, y = s.toint(x), s.toint(y)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        x, y = s.toint(x), s.toint(y)
        if op in ("+", "-", "*"):
            # x mod 2^n op y mod 2^n = x op y (mod 2^n): drop inner reductions
            u, w = (s.unwrap(x, t), s.unwrap(y, t)) if not t.sg else (x, y)
            return s.conv(st, u + w if op == "+" else u - w if op == "-" else u * w, t, True, op)
        if op in ("/", "%"):
            if not s.dry and not (bounds(y, st.bnd)[0] or 0) > 0:
                s.prove(st, y != 0, "division-by-zero", "div0")
                st.facts.append(y != 0)
            bx, by = bounds(x, st.bnd), bounds(y, st.bnd)
            xn = bx[0] is not None and bx[0] >= 0 or s.in_range(st, x, 0, 1 << 200)
            yp = by[0] is not None and by[0] >= 0 or s.in_range(st, y, 0, 1 << 200)
            if xn and yp:
                return x / y if op == "/" else x % y
            q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
            if op == "/":
                return s.conv(st, q, t, True, "/")
            r = z3.If(x >= 0, x % z3.If(y > 0, y, -y), -((-x) % z3.If(y > 0, y, -y)))
            return r
        if op == "<<" and s.c is not None and s.c.bits and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 1 \
                and not z3.is_int_value(z3.simplify(y)):
            # 1 << y, bit by bit (gcc: the result type's bits, also when the sign bit is reached)
            s.prove(st, z3.And(y >= 0, y < t.bits), "shift-count", "overflow")
            st.facts.append(z3.And(y >= 0, y < t.bits))
            v = shl1(y)
            lo, hi = t.rng()
            set_bound(v, lo, hi)
            st.facts.append(z3.And(v >= lo, v <= hi))
            st.facts.append(bits_def(v, lambda k: k == y, t.bits))
            return v
        if op == "<<":
            if z3.is_int_value(z3.simplify(y)):
                k = z3.simplify(y).as_long()
                if k >= t.bits or k < 0:
                    raise Unsupported("shift count")
                return s.conv(st, x * (1 << k), t, True, "<<")
            if z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 1:
                st.facts.append(P2(y) >= 1)
            return s.conv(st, x * P2(y), t, True, "<<")
        if op == ">>":
            if z3.is_int_value(z3.simplify(y)):
                k = z3.simplify(y).as_long()
                if k >= t.bits or k < 0:
                    raise Unsupported("shift count")
                if t.sg and k == t.bits - 1:
                    return z3.If(x < 0, I(-1), I(0))
                if t.sg and k >= 7 and s.in_range(st, x, -(1 << k), (1 << k) - 1):
                    return z3.If(x < 0, I(-1), I(0))
                return x / (1 << k)
            st.facts.append(P2(y) >= 1)
            return x / P2(y)
        if op in ("&", "|", "^"):
            return s.bitop(st, op, x, y, t)
        raise Unsupported("operator " + op)

    def unwrap(s, v, t):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(v.arg(1)) and \
                v.arg(1).as_long() == 1 << t.bits:
            return v.arg(0)
        return v

    def bitop(s, st, op, x, y, t):
        xs, ys = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(xs) and z3.is_int_value(ys):
            a, b = xs.as_long(), ys.as_long()
            return I(a & b if op == "&" else a | b if op == "|" else a ^ b)
        if op == "&":
            for p, q in ((x, y), (y, x)):
                ps = z3.simplify(p)
                if z3.is_int_value(ps):
                    c = ps.as_long()
                    if c == 0:
                        return I(0)
                    if c > 0 and (c & (c + 1)) == 0:
                        return q % (c + 1)
                if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(p.arg(1)) \
                        and p.arg(1).as_long() == -1 and z3.is_int_value(p.arg(2)) and p.arg(2).as_long() == 0:
                    return z3.If(p.arg(0), q, I(0))
        f = z3.Function({"&": "bvand", "|": "bvor", "^": "bvxor"}[op] + str(t.bits),
                        z3.IntSort(), z3.IntSort(), z3.IntSort())
        v = f(x, y)
        if s.c is not None and s.c.bits:
            st.facts.append(bits_def(v, {"&": lambda k: z3.And(bit(x, k), bit(y, k)), "|": lambda k: z3.Or(bit(x, k), bit(y, k)),
                                         "^": lambda k: z3.Xor(bit(x, k), bit(y, k))}[op], t.bits))
            st.facts.append(bits_zero(v, t.bits))
            for w in (x, y):
                if z3.is_int_value(z3.simplify(w)) and z3.simplify(w).as_long() == 0:
                    st.facts.append(bits_zero(I(0), t.bits))
        lo, hi = t.rng()
        set_bound(v, lo, hi)
        st.facts.append(z3.And(v >= lo, v <= hi))
        if op == "&":
            st.facts.append(z3.Implies(x >= 0, z3.And(v >= 0, v <= x)))
            st.facts.append(z3.Implies(y >= 0, z3.And(v >= 0, v <= y)))
        return v

    def ptrop(s, st, op, x, y):
        if op in ("==", "!="):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.reg is None or y.reg is None:
                    r = z3.BoolVal(x.reg is None and y.reg is None)
                    if (x.reg is None) != (y.reg is None):
                        other = x if y.reg is None else y
                        mb = s.maybe_null(st, other)
                        if mb is not None:
                            r = mb
                elif x.reg != y.reg or x.path != y.path:
                    r = z3.BoolVal(False)
                else:
                    r = z3.And(*[a == b for a, b in zip(x.idx + (x.off,), y.idx + (y.off,))])
                return r if op == "==" else z3.Not(r)
            raise Unsupported("pointer comparison")
        if op in ("<", ">", "<=", ">=") and x.reg == y.reg and x.path == y.path:
            return {"<": x.off < y.off, ">": x.off > y.off, "<=": x.off <= y.off, ">=": x.off >= y.off}[op]
        if op == "+" and isinstance(x, Ptr) and not isinstance(y, Ptr):
            return x.add(s.toint(y))
        if op == "+" and isinstance(y, Ptr) and not isinstance(x, Ptr):
            return y.add(s.toint(x))
        if op == "-" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg == y.reg:
            return x.off - y.off
        if op == "-" and isinstance(x, Ptr) and not isinstance(y, Ptr):
            return x.add(-s.toint(y))
        raise Unsupported("pointer " + op)

    def maybe_null(s, st, p):
        """rows of pointer tables may be NULL: ghost predicate (region, idx)"""
        if p.idx:
            f = z3.Function("isnull_" + p.reg, *([z3.IntSort()] * len(p.idx)), z3.BoolSort())
            return f(*p.idx)
        return None

    def e_CompoundAssignOperator(s, st, fr, n):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = s.ev(st, fr, b)
        lv = s.lv(st, fr, a)
        x = s.rd(st, lv)
        q = n.get("computeResultType", {})
        ct = s.types.parse(q.get("desugaredQualType") or q.get("qualType") or "int")
        if isinstance(x, Ptr):
            return s.wr(st, lv, s.ptrop(st, op, x, y))
        if ct.k == "int" and z3.is_expr(x) and z3.is_expr(y):
            lt = s.types.parse(n["computeLHSType"].get("desugaredQualType") or n["computeLHSType"]["qualType"])
            x = s.conv(st, s.toint(x), lt) if lt.k == "int" else x
        v = s.binop(st, op, x, y, ct)
        return s.wr(st, lv, v)

    def e_ConditionalOperator(s, st, fr, n):
        c, a, b = n["inner"]
        g = z3.simplify(s.tobool(s.ev(st, fr, c)))
        if z3.is_true(g):
            return s.ev(st, fr, a)
        if z3.is_false(g):
            return s.ev(st, fr, b)
        y = st.clone()
        k = len(st.facts)
        y.facts.append(g)
        s._harvest(y, g)
        z = st.clone()
        ng = z3.simplify(z3.Not(g))
        z.facts.append(ng)
        s._harvest(z, ng)
        va = s.ev(y, fr, a)
        vb = s.ev(z, fr, b)
        # z := result state; merge y into it
        for f in y.facts[k + 1:]:
            st.facts.append(z3.Implies(g, f))
        for f in z.facts[k + 1:]:
            st.facts.append(z3.Implies(ng, f))
        if not (s.pure(a) and s.pure(b)):
            y.facts, z.facts = st.facts, list(st.facts)
            st.vars, st.mem, st.ptrs, st.ghost = z.vars, z.mem, z.ptrs, z.ghost
            yf = y.facts
            y.facts = []
            s.merge(st, y, g)
            y.facts = yf
        st.wv |= y.wv | z.wv
        st.wm |= y.wm | z.wm
        st.wp |= y.wp | z.wp
        if va is None or vb is None:
            return None
        if isinstance(va, Ptr) and isinstance(vb, Ptr) and va.reg == vb.reg and va.path == vb.path:
            return Ptr(va.reg, va.path, va.idx, z3.If(g, va.off, vb.off), va.e)
        if isinstance(va, (Ptr, PtrIte)) and isinstance(vb, (Ptr, PtrIte)):
            return PtrIte(g, va, vb)
        if isinstance(va, (Opaque, Ptr)) or isinstance(vb, (Opaque, Ptr)):
            return Opaque("cond")
        va, vb = s.toint(va), s.toint(vb)
        w = z3.If(g, va, vb)
        b1, b2 = bounds(va, y.bnd), bounds(vb, z.bnd)
        if None not in b1 + b2:
            st.bnd[w.get_id()] = (min(b1[0], b2[0]), max(b1[1], b2[1]), w)
        return w

    def e_StmtExpr(s, st, fr, n):
        body = n["inner"][0]
        stmts = body.get("inner", [])
        r = s.seq(st, fr, stmts[:-1])
        if len(r) != 1 or r[0][1] is not None:
            raise Unsupported("statement expression")
        st2 = r[0][0]
        st.__dict__.update(st2.__dict__)
        return s.ev(st, fr, stmts[-1])

    def e_InitListExpr(s, st, fr, n):
        vs = [s.toint(s.ev(st, fr, c)) for c in n.get("inner", []) or []]
        t = s.types.node(n)
        if t.k == "vec":
            return Vec(vs)
        if t.k == "int" and len(vs) == 1:
            return vs[0]
        raise Unsupported("init list")

    def e_CompoundLiteralExpr(s, st, fr, n):
        return s.ev(st, fr, n["inner"][0])

    def e_ImplicitValueInitExpr(s, st, fr, n):
        return I(0)

    def callee(s, n):
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
            c = c["inner"][0]
        if c.get("kind") == "UnaryOperator":
            return s.callee(c) if False else "?"
        if c.get("kind") != "DeclRefExpr":
            return "?"
        r = c["referencedDecl"]
        if r["kind"] != "FunctionDecl":
            return "*" + r["name"]
        nm = r["name"]
        if nm.startswith("__gmp") and nm[5:6] in "zqnf":
            return "mp" + nm[5:]
        return nm

    def e_CallExpr(s, st, fr, n):
        import models
        name = s.callee(n)
        argn = n["inner"][1:]
        t = s.types.node(n)
        if name in models.SPECIAL:
            return models.SPECIAL[name](s, st, fr, argn, t)
        args = [s.ev(st, fr, a) for a in argn]
        if not st.live:
            return fresh("dead")
        args = [s.toint(a) if z3.is_expr(a) else a for a in args]
        s.cur_call = n["id"]
        return s.call(st, fr, name, args, t)

    def call(s, st, fr, name, args, t):
        import models
        if name in models.MODELS:
            s.trusted.add(name)
            return models.MODELS[name](s, st, args, t)
        c = s.contract_of(name)
        if c is not None and (name != s.fname or c.measure) and not (s.c.inline and name in s.c.inline):
            return s.by_contract(st, fr, c, args, t)
        return s.inline(st, fr, name, args, t)

    def by_contract(s, st, fr, c, args, t):
        s.called.add(c.name)
        if c.assumed:
            s.trusted.add(c.name)
        ast = frontend.function_ast(s.tu, s.cfg, c.name)
        names = []
        if ast is not None:
            names = [x.get("name", "") for x in ast["inner"] if x["kind"] == "ParmVarDecl"]
            types = [s.types.node(x) for x in ast["inner"] if x["kind"] == "ParmVarDecl"]
        else:
            names = c.params
            types = [None] * len(names)
        if c.params:
            names = c.params
        cf = Frame(c.name)
        for i, (nm, a) in enumerate(zip(names, args)):
            if i < len(types) and types[i] is not None:
                a = s.coerce(st, a, CT("ptr", e=types[i].e) if types[i].k == "arr" else types[i])
            cf.names[nm] = f"arg:{nm}"
            st.vars[f"arg:{nm}"] = a
        # separation: distinct regions unless the contract allows the aliasing
        pre = st.clone()
        pv = View(s, pre, cf)
        pv.old = pv
        if c.requires:
            for i, g in enumerate(c.requires(pv)):
                s.prove(st, g, f"call {c.name}.requires{i}", "pre")
        if c.name == s.fname and c.measure:
            s.prove(st, z3.And(c.measure(pv) >= 0, c.measure(pv) < c.measure(s.entry_view)), f"call {c.name}.measure", "variant")
        regs = {}
        for nm, a in zip(names, args):
            if isinstance(a, Ptr) and a.reg is not None:
                key = (a.reg, a.path)
                regs.setdefault(key, []).append(nm)
        for path in c.assigns:
            nm, sub = path[0], tuple(path[1:])
            p = st.vars.get(f"arg:{nm}")
            if p is None:
                continue
            q = Ptr(p.reg, p.path + sub, p.idx, p.off, p.e)
            whole = nm in (c.arrays or ())
            s.havoc_cell(st, q, whole)
            key = (q.reg, q.path)
            al = [x for x in regs.get(key, []) if x != nm]
            if al:
                # arguments share a region: only harmless when offsets differ
                for x in al:
                    xp = st.vars[f"arg:{x}"]
                    if whole or s.entails(st, xp.off == q.off):
                        if not any(frozenset((nm, x)) == frozenset(y) for y in (c.may_alias or ())):
                            raise Unsupported(f"aliased arguments {nm},{x} of {c.name}")
        if c.frame:
            for key, depth in c.frame(pv):
                a = s.mem(st, key, depth)
                st.mem[key] = fresh("hv_" + key[0], a.sort())
                st.wm.add(key)
        res = None
        if t.k == "int":
            res = s.havoc_val(t, c.name)
            s._typed(st, res, t)
        if c.call_ghost:
            pv.res = res
            st.ghost.update(c.call_ghost(pv))
        post = View(s, st, cf, old=pv, res=res)
        ens = c.call_ensures or c.ensures
        if ens:
            for g in ens(post):
                s.assume(st, g)
        if c.defs:
            for g in c.defs(post):
                s.assume(st, g)
        if c.result_ptr:
            res = c.result_ptr(s, st, post)
        return res

    def havoc_cell(s, st, p, whole):
        key = (p.reg, p.path)
        st.wm.add(key)
        a = s.mem(st, key, len(p.idx) + 1)
        if whole:
            if p.idx:
                st.mem[key] = s._nested_store(a, list(p.idx), fresh("hv", a.sort().range())) if len(p.idx) == 1 else a
            else:
                st.mem[key] = fresh("hv_" + p.reg, a.sort())
        else:
            st.mem[key] = s._nested_store(a, list(p.idx) + [p.off], fresh("hv"))

    def inline(s, st, fr, name, args, t):
        if s.depth > 6:
            raise Unsupported("inlining too deep")
        ast = frontend.function_ast(s.tu, s.cfg, name)
        if ast is None:
            raise Unsupported(f"call of {name}, which has neither contract nor body")
        s.inlined.add(name)
        f2 = Frame(name, parent=fr)
        body, i = None, 0
        for ch in ast["inner"]:
            if ch["kind"] == "ParmVarDecl":
                ty = s.types.node(ch)
                if ty.k == "arr":
                    ty = CT("ptr", e=ty.e)
                f2.names[ch.get("name", ch["id"])] = ch["id"]
                st.vars[ch["id"]] = s.coerce(st, args[i], ty)
                s.vtypes[ch["id"]] = ty
                i += 1
            elif ch["kind"] == "CompoundStmt":
                body = ch
        s.depth += 1
        path = s.path
        s.path = path + (s.cur_call,)
        try:
            outs = s.exec(st, f2, body)
        finally:
            s.depth -= 1
            s.path = path
        outs = [(x, o) for x, o in outs if x.live]
        if not outs:
            st.live = False
            return fresh("dead")
        # merge all exits into st
        base = outs[0][0]
        def rv(o):
            return o[1] if o is not None and len(o) > 1 else None
        if len(outs) == 1:
            st.__dict__.update(outs[0][0].__dict__)
            r = rv(outs[0][1])
        else:
            n0 = s._common(outs)
            res = outs[-1][0].clone()
            conds = [conj(x.facts[n0:]) for x, _ in outs]
            r = rv(outs[-1][1])
            res.facts = res.facts[:n0]
            tail = []
            for (x, o), c in list(zip(outs, conds))[:-1][::-1]:
                xf = x.facts
                x.facts = []
                s.merge(res, x, c)
                x.facts = xf
                v = rv(o)
                if v is not None and r is not None:
                    if isinstance(v, Ptr) or isinstance(r, Ptr):
                        if isinstance(v, Ptr) and isinstance(r, Ptr) and v.reg == r.reg and v.path == r.path:
                            r = Ptr(v.reg, v.path, v.idx, z3.If(c, v.off, r.off), v.e)
                        else:
                            raise Unsupported("inlined function returns different pointers")
                    elif isinstance(v, Vec):
                        raise Unsupported("vector merge")
                    else:
                        bv, br = bounds(s.toint(v), x.bnd), bounds(s.toint(r), res.bnd)
                        r = z3.If(c, s.toint(v), s.toint(r))
                        if None not in bv + br:
                            res.bnd[r.get_id()] = (min(bv[0], br[0]), max(bv[1], br[1]), r)
            res.facts.append(z3.Or(*conds))
            for x, _ in outs:
                for a, b in x.rules[len(st.rules):]:
                    pass
            res.rules = res.rules[:len(st.rules)]
            st.__dict__.update(res.__dict__)
        if t.k == "int" and r is not None and z3.is_expr(r):
            r = s.conv(st, s.toint(r), t)
        return r

    def _common(s, outs):
        n = min(len(x.facts) for x, _ in outs)
        for i in range(n):
            if any(x.facts[i] is not outs[0][0].facts[i] for x, _ in outs[1:]):
                return i
        return n

    # ---- vectors
    def slane(s, x, st=None):
        """the lane read as a signed number"""
        h = s.sgn.get(x.get_id())
        if h is not None:
            return h[1]
        b = bounds(x)
        if b[1] is not None and b[1] < (1 << 63) and b[0] is not None and b[0] >= 0:
            return x
        if st is not None and s.c is not None and s.c.resolve and not s.dry and s.entails(st, z3.And(x >= 0, x < (1 << 63)), 200):
            s.sgn[x.get_id()] = (x, x)
            return x
        return z3.If(x >= (1 << 63), x - (1 << 64), x)

    def vmap(s, st, f, x, y, lin=False):
        r = []
        for i in range(len(x.l)):
            if lin and x.bits == 64 and s.c is not None and s.c.resolve and not s.dry:
                a, b = x.lane(i), y.lane(i)
                if z3.is_expr(a) and z3.is_expr(b):
                    v = z3.simplify(f(s.slane(a, st), s.slane(b, st)))
                    if s.entails(st, z3.And(v >= -(1 << 63), v < (1 << 63)), 300):
                        u = v if s.entails(st, v >= 0, 100) else z3.If(v < 0, v + (1 << 64), v)
                        s.sgn[u.get_id()] = (u, v)
                        r.append(u)
                        continue
            v = f(x.lane(i), y.lane(i))
            r.append(s.conv(st, v, CT("int", x.bits, False)))
        return Vec(r, x.bits)

    def vload(s, st, p, lanes):
        """load `lanes` 64-bit lanes from typed memory"""
        e = s.leaf(p.e)
        if e.k != "int":
            raise Unsupported("vector load from " + str(e))
        r = []
        if e.bits == 64:
            for i in range(lanes):
                v = s.load(st, p.add(i), e)
                if e.sg:
                    w = s.conv(st, v, U64)
                    if not w.eq(v):
                        s.sgn[w.get_id()] = (w, v)
                    v = w
                r.append(v)
        elif e.bits == 32:
            for i in range(lanes):
                lo = s.conv(st, s.load(st, p.add(2 * i), e), U32)
                hi = s.conv(st, s.load(st, p.add(2 * i + 1), e), U32)
                r.append((lo, hi))
        else:
            raise Unsupported("vector load of %d-bit cells" % e.bits)
        return Vec(r)

    def vstore(s, st, p, v):
        e = s.leaf(p.e)
        if e.k != "int":
            raise Unsupported("vector store")
        if e.bits == 64:
            for i in range(len(v.l)):
                x = v.lane(i)
                if e.sg:
                    h = s.sgn.get(x.get_id()) if z3.is_expr(x) else None
                    x = h[1] if h is not None else s.conv(st, x, CT("int", 64, True))
                s.store(st, p.add(i), x)
        elif e.bits == 32:
            for i in range(len(v.l)):
                l = v.l[i]
                lo, hi = l if isinstance(l, tuple) else (l % (1 << 32), l / (1 << 32))
                s.store(st, p.add(2 * i), s.conv(st, lo, e))
                s.store(st, p.add(2 * i + 1), s.conv(st, hi, e))
        else:
            raise Unsupported("vector store")


class SizeOf:
    """a byte count n*sizeof(t), kept symbolic in t"""

    def __init__(s, eng, t, n=None):
        s.t, s.n = t, I(1) if n is None else n


PURE = {"mpz_sgn", "mpz_cmp", "mpz_cmp_ui", "mpz_cmp_si", "mpz_cmpabs", "mpz_odd_p", "mpz_even_p",
        "mpz_divisible_2exp_p", "mpz_sizeinbase", "mpz_get_ui", "mpz_fdiv_ui", "mpz_scan1", "mpq_sgn",
        "mpz_divisible_p", "ilog2_mpz", "mpz_tstbit"}
