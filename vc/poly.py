"""Polynomial normal form over Z, used to discharge equations and congruences.

An equation l = r is proved when l - r normalises to 0; a congruence
l = r (mod m) when every monomial of l - r is a multiple of the monomial m.
If-terms become 0/1 indicators, x mod m becomes x - m*(x div m), and powers of
two are Laurent monomials in 2^atom.  Oriented equations among the hypotheses
are rewrite rules.
"""
from fractions import Fraction
import z3


class Giveup(Exception):
    pass


class Poly:
    def __init__(s, rules=(), maxterms=6000):
        s.keys = {}
        s.rules = {}
        s.maxterms = maxterms
        s.memo = {}
        s.refs = []
        for l, r in rules:
            s.add_rule(l, r)

    # polynomial = dict monomial->Fraction; monomial = frozenset of (key, exp)
    def const(s, c):
        return {frozenset(): Fraction(c)} if c else {}

    def add(s, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        if len(r) > s.maxterms:
            raise Giveup()
        return r

    def mul(s, a, b):
        r = {}
        if len(a) * len(b) > 40000:
            raise Giveup()
        for m, c in a.items():
            for n, d in b.items():
                k = s.mm(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def mm(s, m, n):
        if not m:
            return n
        if not n:
            return m
        d = dict(m)
        for k, e in n:
            d[k] = d.get(k, 0) + e
            if k[0] == "ind":
                d[k] = 1
            if d[k] == 0:
                del d[k]
        return frozenset(d.items())

    def atom(s, key):
        return {frozenset([(key, 1)]): Fraction(1)}

    def ckey(s, p):
        """interned canonical key of a polynomial"""
        k = frozenset(p.items())
        if k not in s.keys:
            s.keys[k] = "P%d" % len(s.keys)
        return s.keys[k]

    def add_rule(s, l, r):
        try:
            p = s.poly(l)
        except Giveup:
            return
        cand = [(sum(e for _, e in m), sum("!" in str(k) for k, _ in m), str(sorted(m, key=str)), m, c) for m, c in p.items()
                if abs(c) == 1 and m and all(e >= 1 for _, e in m)]
        if not cand or len(p) > 12:
            return
        m, c = min(cand)[3:]
        try:
            rp = s.add(s.poly(r), {m2: c2 for m2, c2 in p.items() if m2 != m}, -1)
        except Giveup:
            return
        if c == -1:
            rp = {m2: -c2 for m2, c2 in rp.items()}
        # no cycles
        if m in s.rules or any(s.divides(m, m2) for m2 in rp):
            return
        s.rules[m] = rp
        s.memo.clear()
        # keep rules mutually reduced
        for k2 in list(s.rules):
            if k2 != m:
                try:
                    s.rules[k2] = s.subst(s.rules[k2])
                except Giveup:
                    pass

    @staticmethod
    def divides(m, n):
        d = dict(n)
        return all(d.get(k, 0) >= e for k, e in m)

    def subst(s, p):
        if not s.rules:
            return p
        idx = {}
        for m in s.rules:
            k = next(iter(m))[0]
            idx.setdefault(k, []).append(m)
        for _ in range(200):
            hit = None
            for m in p:
                for k, e in m:
                    for lm in idx.get(k, ()):
                        if e > 0 and s.divides(lm, m):
                            hit = lm
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                return p
            q = {}
            rp = s.rules[hit]
            for m2, c2 in p.items():
                if s.divides(hit, m2):
                    d = dict(m2)
                    for k, e in hit:
                        d[k] -= e
                        if not d[k]:
                            del d[k]
                    q = s.add(q, s.mul({frozenset(d.items()): c2}, rp))
                else:
                    q = s.add(q, {m2: c2})
            p = q
        raise Giveup()

    def poly(s, t):
        i = t.get_id()
        if i in s.memo:
            return s.memo[i]
        r = s.subst(s._poly(t))
        s.memo[i] = r
        s.refs.append(t)
        return r

    def _poly(s, t):
        if z3.is_int_value(t):
            return s.const(t.as_long())
        if z3.is_rational_value(t):
            return s.const(t.as_fraction())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = s.add(r, s.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = s.poly(ch[0])
            for c in ch[1:]:
                r = s.add(r, s.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return s.add({}, s.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = s.const(1)
            for c in ch:
                r = s.mul(r, s.poly(c))
            return r
        if k == z3.Z3_OP_ITE:
            a, b = s.poly(ch[1]), s.poly(ch[2])
            d = s.add(a, b, -1)
            return s.add(b, s.mul(s.ind(ch[0]), d))
        if k == z3.Z3_OP_TO_REAL:
            return s.poly(ch[0])
        if k == z3.Z3_OP_MOD:
            x, m = s.poly(ch[0]), s.poly(ch[1])
            return s.add(x, s.mul(m, s.div(x, m)), -1)
        if k == z3.Z3_OP_IDIV:
            return s.div(s.poly(ch[0]), s.poly(ch[1]))
        if k == z3.Z3_OP_POWER:
            e = ch[1]
            if z3.is_int_value(e) and 0 <= e.as_long() <= 8:
                r = s.const(1)
                for _ in range(e.as_long()):
                    r = s.mul(r, s.poly(ch[0]))
                return r
        if k == z3.Z3_OP_SELECT:
            a = ch[0]
            # select over store: decide by index difference
            while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                d = s.add(s.poly(a.arg(1)), s.poly(ch[1]), -1)
                if not d:
                    return s.poly(a.arg(2))
                if len(d) == 1 and frozenset() in d:
                    a = a.arg(0)
                    continue
                break
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
                return s.poly(a.arg(0))
            return s.atom(("sel", s.arrkey(a), s.ckey(s.poly(ch[1]))))
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if not ch:
                return s.atom(("v", n))
            if n == "pow2":
                return s.pow2(s.poly(ch[0]))
            return s.atom(("f", n) + tuple(s.argkey(c) for c in ch))
        s.refs.append(t)
        return s.atom(("t", t.sexpr()))

    def argkey(s, c):
        return s.ckey(s.poly(c)) if z3.is_arith(c) else c.sexpr()

    def arrkey(s, a):
        if z3.is_const(a):
            return a.decl().name()
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT:
            return (s.arrkey(a.arg(0)), s.ckey(s.poly(a.arg(1))))
        return a.sexpr()

    def div(s, x, m):
        """x div m, splitting off exact multiples when m is constant"""
        if len(m) == 1 and frozenset() in m:
            c = m[frozenset()]
            q = {k: v / c for k, v in x.items() if (v / c).denominator == 1 and all(e > 0 for _, e in k)}
            rest = {k: v for k, v in x.items() if k not in q}
            if not rest:
                return q
            return s.add(q, s.atom(("div", s.ckey(rest), s.ckey(m))))
        return s.atom(("div", s.ckey(x), s.ckey(m)))

    def ind(s, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return s.const(1)
        if z3.is_false(c):
            return {}
        if z3.is_not(c):
            return s.add(s.const(1), s.ind(c.arg(0)), -1)
        s.refs.append(c)
        return s.atom(("ind", s.condkey(c)))

    def condkey(s, c):
        if z3.is_app(c) and c.num_args() == 2 and z3.is_arith(c.arg(0)):
            try:
                d = s.add(s.poly(c.arg(0)), s.poly(c.arg(1)), -1)
                return str(c.decl().kind()) + s.ckey(d)
            except Giveup:
                pass
        return c.sexpr()

    def pow2(s, e):
        r = s.const(1)
        d = {}
        c = Fraction(1)
        for m, k in e.items():
            if k.denominator != 1:
                return s.atom(("pow2", s.ckey(e)))
            if not m:
                c = Fraction(2) ** int(k)
            else:
                d[("pw", s.ckey({m: Fraction(1)}))] = int(k)
        return {frozenset(d.items()): c}


def rulesets(rules):
    yield ()
    if rules:
        one = [r for r in rules if z3.is_app(r[0]) and r[0].decl().kind() != z3.Z3_OP_MUL]
        if len(one) != len(rules):
            yield one
        yield rules


def prove_eq(l, r, rules):
    for rs in rulesets(rules):
        try:
            p = Poly(rs)
            if not p.subst(p.add(p.poly(l), p.poly(r), -1)):
                return True
        except (Giveup, RecursionError):
            pass
    return False


def residue(l, r, m, rules):
    p = Poly(rules)
    d = p.subst(p.add(p.poly(l), p.poly(r), -1))
    pm = p.poly(m)
    if len(pm) != 1:
        raise Giveup()
    (mm, c), = pm.items()
    need = dict(mm)
    rest = {}
    for k, v in d.items():
        dd = dict(k)
        ok = (v / c).denominator == 1 and all(dd.get(a, 0) >= e for a, e in need.items())
        ok = ok and all(e >= 0 for a, e in dd.items())
        if not ok:
            rest[k] = v
    return rest


def prove_cong(l, r, m, rules):
    for rs in rulesets(rules):
        try:
            if not residue(l, r, m, rs):
                return True
        except (Giveup, RecursionError):
            pass
    return False
