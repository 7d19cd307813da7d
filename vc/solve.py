"""Discharging obligations: polynomial normal form, z3, cvc5."""
import time, os, subprocess, tempfile, multiprocessing as mp
import z3
from core import Eq, Cong, Named, pow2
import poly

CVC5 = "cvc5"


def ugly_smt(facts, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _z3(args):
    txt, ms, opts = args
    ctx = z3.Context()
    t0 = time.time()
    try:
        if opts.get("tactic") == "nl":
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "nlsat", ctx=ctx).solver() if False else \
                z3.SolverFor("QF_NIA", ctx=ctx)
        elif opts.get("tactic") == "nra":
            s = z3.SolverFor("QF_NRA", ctx=ctx)
        else:
            s = z3.Solver(ctx=ctx)
        s.set("timeout", ms)
        if opts.get("seed"):
            s.set("random_seed", opts["seed"])
        s.from_string(txt)
        r = s.check()
        m = None
        if r == z3.sat:
            m = {}
            mod = s.model()
            for d in mod.decls():
                if d.arity() == 0:
                    m[d.name()] = str(mod[d])
        return str(r), time.time() - t0, m
    except Exception as ex:  # solver resource errors: undecided
        return "error " + str(ex)[:80], time.time() - t0, None


def _cvc5(txt, ms):
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % ms, "--nl-ext-tplanes", f.name], capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return (out[0] if out else "unknown"), time.time() - t0
    except subprocess.TimeoutExpired:
        return "unknown", time.time() - t0
    finally:
        os.unlink(f.name)


def pipeline(job):
    """try back ends in order; returns (status, backend, time, model)"""
    txts, budget = job
    tot = 0.0
    model = None
    seen_sat = False
    plan = [("z3-linear", 2, 3000, {}), ("z3", 0, 3000, {}), ("z3-minimal", 1, 3000, {}), ("z3-nia", 1, 6000, {"tactic": "nl"}), ("cvc5", 0, 8000, None),
            ("z3", 0, 20000, {"seed": 7}), ("cvc5-minimal", 1, 20000, None), ("z3-nia", 0, 20000, {"tactic": "nl"})]
    for be, which, ms, opts in plan:
        if tot > budget:
            break
        if which >= len(txts) or txts[which] is None:
            continue
        if opts is None:
            r, dt = _cvc5(txts[which], ms)
            m = None
        else:
            r, dt, m = _z3((txts[which], ms, opts))
        tot += dt
        if r == "unsat":
            return "proved", be, tot, None
        if r == "sat" and which == 0:
            return "failed", be, tot, m
    return "unknown", "all", tot, model


def qf(f):
    return not has_quant(f)


HQ = {}


def has_quant(t):
    k = t.get_id()
    if k not in HQ:
        HQ[k] = (t, has_quant0(t))
    return HQ[k][1]


def has_quant0(t, seen=None):
    seen = seen if seen is not None else set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


P2C = {}


def pow2_terms(f):
    terms, seen, stack = {}, set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().name() == "pow2" and x.num_args() == 1:
            terms[x.get_id()] = x
        stack.extend(x.children())
    return terms


def pow2_axioms(facts, goal):
    """ground instances for every 2^e term: positivity and pairwise quotients"""
    terms = {}
    for f in list(facts) + [goal]:
        k = f.get_id()
        if k not in P2C:
            P2C[k] = (f, pow2_terms(f))
        terms.update(P2C[k][1])
    out = []
    ts = list(terms.values())
    for t in ts:
        out.append(z3.Implies(t.arg(0) >= 0, t >= 1))
    if len(ts) <= 12:
        for i, a in enumerate(ts):
            for b in ts[i + 1:]:
                d = z3.simplify(a.arg(0) - b.arg(0))
                if z3.is_int_value(d):
                    k = d.as_long()
                    lo = b if k >= 0 else a
                    hi = a if k >= 0 else b
                    out.append(z3.Implies(lo.arg(0) >= 0, hi == lo * (1 << abs(k))))
    return out


LINC, LINF, SYMC = {}, {}, {}


def linearise(fs):
    """products, quotients and remainders of unknowns become uninterpreted (weaker, so sound)"""
    cache, fn, found = LINC, LINF, [0]
    Int = z3.IntSort()

    def app(nm, a, b):
        found[0] = 1
        f = fn.get(nm)
        if f is None:
            f = fn[nm] = z3.Function(nm, Int, Int, Int)
        return f(a, b)

    def go(t):
        k = t.get_id()
        if k in cache:
            if cache[k][2]:
                found[0] = 1
            return cache[k][1]
        fs0, found[0] = found[0], 0
        if z3.is_quantifier(t):
            b = go(t.body())
            if b.eq(t.body()):
                r = t
            else:
                vs = [z3.Const(t.var_name(i), t.var_sort(i)) for i in range(t.num_vars())]
                if t.is_lambda():
                    r = t
                else:
                    sub = lambda e: z3.substitute_vars(e, *reversed(vs))
                    pats = []
                    for i in range(t.num_patterns()):
                        cs = [sub(c) for c in t.pattern(i).children()]
                        pats.append(z3.MultiPattern(*cs) if len(cs) > 1 else cs[0])
                    r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, sub(b), patterns=pats)
        elif z3.is_var(t) or not t.children():
            r = t
        else:
            ch = [go(c) for c in t.children()]
            dk = t.decl().kind()
            if dk == z3.Z3_OP_MUL and z3.is_int(t):
                num, rest = 1, []
                for c in ch:
                    if z3.is_int_value(c):
                        num *= c.as_long()
                    else:
                        rest.append(c)
                if len(rest) > 1:
                    rest.sort(key=lambda c: (c.hash(), c.get_id()))
                    m = rest[0]
                    for c in rest[1:]:
                        m = app("umul", m, c)
                    r = m if num == 1 else num * m
                else:
                    r = t.decl()(*ch)
            elif dk in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]):
                r = app("udiv" if dk == z3.Z3_OP_IDIV else "umod", ch[0], ch[1])
            else:
                r = t.decl()(*ch)
        cache[k] = (t, r, found[0])
        found[0] |= fs0
        return r
    out = [go(f) for f in fs]
    return out if found[0] else None


def relevant(facts, goal, depth=3):
    """facts sharing symbols with the goal, transitively"""
    def syms(t):
        k = t.get_id()
        if k in SYMC:
            return SYMC[k][1]
        r = syms0(t)
        SYMC[k] = (t, r)
        return r

    def syms0(t):
        r, st, seen = set(), [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(x.decl().name())
            st.extend(x.children())
        return r
    cur = set(syms(goal))
    fs = [(f, syms(f)) for f in facts]
    keep = set()
    for _ in range(depth):
        new = set(cur)
        for i, (f, sy) in enumerate(fs):
            if i not in keep and sy & cur:
                keep.add(i)
                new |= sy
        if new == cur:
            break
        cur = new
    return [fs[i][0] for i in sorted(keep)]


def prepare(o):
    """polynomial attempt; else SMT text"""
    t0 = time.time()
    g = o.goal
    hints = []
    for h in o.hints:
        if isinstance(h, Eq):
            o.rules.append((h.l, h.r))
            hints.append(h.z())
        else:
            hints.append(h)
    if isinstance(g, Eq):
        if poly.prove_eq(g.l, g.r, o.rules):
            o.status, o.backend, o.time = "proved", "polynomial-normal-form", time.time() - t0
            return None
        goal = g.l == g.r
    elif isinstance(g, Cong):
        if poly.prove_cong(g.l, g.r, g.m, o.rules):
            o.status, o.backend, o.time = "proved", "polynomial-normal-form", time.time() - t0
            return None
        goal = (g.l - g.r) % g.m == 0
    else:
        goal = g
        if z3.is_eq(g) and z3.is_arith(g.arg(0)):
            if poly.prove_eq(g.arg(0), g.arg(1), o.rules):
                o.status, o.backend, o.time = "proved", "polynomial-normal-form", time.time() - t0
                return None
    facts = list(o.facts) + hints
    facts += pow2_axioms(facts, goal)
    rel = relevant(facts, goal, 2)
    full = ugly_smt(facts, goal)
    nq = [f for f in rel if not has_quant(f)]
    mini = ugly_smt(nq, goal) if not has_quant(goal) else None
    lin = linearise(facts + [goal])
    return (full, mini, ugly_smt(lin[:-1], lin[-1]) if lin else None)


def discharge(obls, budget=60, procs=8):
    jobs, idx = [], []
    for i, o in enumerate(obls):
        if o.status:
            continue
        j = prepare(o)
        if j is not None:
            jobs.append((j, budget))
            idx.append(i)
    if jobs:
        if len(jobs) == 1:
            res = [pipeline(jobs[0])]
        else:
            with mp.get_context("fork").Pool(min(procs, len(jobs))) as pool:
                res = pool.map(pipeline, jobs, chunksize=1)
        for i, (stt, be, t, m) in zip(idx, res):
            o = obls[i]
            o.status, o.backend, o.time, o.model = stt, be, t, m
    return obls
