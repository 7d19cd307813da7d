"""shared replay code for the univariate solver and the real-root extraction (P08, P09, P10)"""
from common import *
from fractions import Fraction as Fr

EXTRA = r"""
static void vf_mk(mpz_param_t p, int nv, mpz_t *elim, int ne, mpz_t *denom, int nd, mpz_t *co, int *len, mpz_t *cfs){
  p->nvars = nv; p->nsols = ne - 1; p->dquot = ne - 1;
  p->elim->length = p->elim->alloc = ne; p->elim->coeffs = elim;
  p->denom->length = p->denom->alloc = nd; p->denom->coeffs = denom;
  p->coords = malloc(sizeof(mpz_upoly_t) * (nv + 1)); p->cfs = cfs;
  for(int i = 0; i < nv - 1; i++){ p->coords[i]->length = p->coords[i]->alloc = len[i]; p->coords[i]->coeffs = co; co += len[i]; }
}
void vf_table(mpz_t numer, long k, long ns, long corr, mpz_t *xdo, mpz_t *xup){
  interval rt; rt.numer[0] = numer[0]; rt.k = k; rt.isexact = 0; mpz_t c; mpz_init(c);
  generate_table_values_full(&rt, c, ns, 16, corr, xdo, xup); mpz_clear(c);
}
int vf_newden(mpz_t *denom, long deg, mpz_t r, long k, mpz_t lo, mpz_t hi, long corr){
  mpz_t t, c; mpz_init(t); mpz_init(c); int b = newvalue_denom(denom, deg, r, k, 0, 0, t, lo, hi, corr, c); mpz_clear(t); mpz_clear(c); return b;
}
static void vf_out(real_point_t pt, int nv, mpz_t *lo, mpz_t *hi, int *k){
  for(int i = 0; i < nv; i++){ mpz_set(lo[i], pt->coords[i]->val_do); mpz_set(hi[i], pt->coords[i]->val_up);
    k[3*i] = pt->coords[i]->k_do; k[3*i+1] = pt->coords[i]->k_up; k[3*i+2] = pt->coords[i]->isexact; }
}
void vf_extract(int nv, mpz_t *elim, int ne, mpz_t *denom, int nd, mpz_t *co, int *len, mpz_t *cfs,
                mpz_t numer, long k, int isexact, int sl, long prec, mpz_t *lo, mpz_t *hi, int *kk){
  mpz_param_t p; vf_mk(p, nv, elim, ne, denom, nd, co, len, cfs);
  interval rt; mpz_init_set(rt.numer, numer); rt.k = k; rt.isexact = isexact; rt.sign_left = sl;
  real_point_t pt; real_point_init(pt, nv);
  extract_real_roots_param(p, &rt, 1, &pt, prec, 64, 1e9, 0);
  vf_out(pt, nv, lo, hi, kk);
  real_point_clear(pt); mpz_clear(rt.numer); free(p->coords);
}
long vf_isolate(int nv, mpz_t *elim, int ne, mpz_t *denom, int nd, mpz_t *co, int *len, mpz_t *cfs, int prec, int nth,
                mpz_t *lo, mpz_t *hi, int *kk, char *text){
  mpz_param_t p; vf_mk(p, nv, elim, ne, denom, nd, co, len, cfs);
  long nb = 0; interval *rts = 0;
  real_point_t *pts = isolate_real_roots_param(p, &nb, &rts, prec, nth, 0);
  char *b = 0; size_t sz = 0; FILE *f = open_memstream(&b, &sz);
  if(pts) display_real_points(f, pts, nb);
  fclose(f); strncpy(text, b, 60000); text[60000] = 0; free(b);
  for(long i = 0; i < nb && i < ne; i++){ vf_out(pts[i], nv, lo + i * nv, hi + i * nv, kk + 3 * i * nv); real_point_clear(pts[i]); }
  free(p->coords);
  return nb;
}
void vf_norm(int nv, mpz_t *lo, mpz_t *hi, int *k){
  real_point_t pt; real_point_init(pt, nv);
  for(int i = 0; i < nv; i++){ mpz_set(pt->coords[i]->val_do, lo[i]); mpz_set(pt->coords[i]->val_up, hi[i]); pt->coords[i]->k_do = k[3*i]; pt->coords[i]->k_up = k[3*i+1]; }
  normalize_points(&pt, 1, nv); vf_out(pt, nv, lo, hi, k); real_point_clear(pt);
}
long vf_realroots(mpz_t *pol, long deg, int prec, int nth, mpz_t *numer, long *info){
  unsigned long np = 0, nn = 0; interval *r = real_roots(pol, deg, &np, &nn, prec, nth, 0);
  for(long i = 0; i < np + nn && i <= deg; i++){ mpz_set(numer[i], r[i].numer); info[3*i] = r[i].k; info[3*i+1] = r[i].isexact; info[3*i+2] = r[i].sign_left; }
  return np * 1000 + nn;
}
"""
EXTRA_U = r"""
void vf_basic(mpz_t *up, unsigned long deg, mpz_t *c, mpz_t *v){ basic_mpz_poly_eval_at_point(up, deg, c, v); }
int vf_sgn2(mpz_t *up, unsigned long deg, mpz_t *c, int k){ return sgn_mpz_poly_eval_at_point_2exp_naive(up, deg, c, k); }
int vf_sgn1(mpz_t *up, unsigned long deg, mpz_t *c){ return sgn_mpz_poly_eval_at_point_naive(up, deg, c, 1); }
"""


def ev(p, x):
    r = 0
    for c in reversed(p):
        r = r * x + c
    return r


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for k, y in enumerate(b):
            r[i + k] += x * y
    return r


def der(p):
    return [i * c for i, c in enumerate(p)][1:] or [0]


def sg(x):
    return (x > 0) - (x < 0)


def evs(p, x):
    """sign of p(x), in integer arithmetic"""
    if not isinstance(x, Fr):
        return sg(ev(p, x))
    n, d = x.numerator, x.denominator
    r, w = 0, 1
    if d & (d - 1) == 0:
        e = d.bit_length() - 1
        k = 0
        for c in reversed(p):
            r = r * n + (c << k)
            k += e
        return sg(r)
    for c in reversed(p):
        r = r * n + c * w
        w *= d
    return sg(r)


def rem(a, b):
    a = [Fr(x) for x in a]
    while len(a) >= len(b):
        q = a[-1] / b[-1]
        for i in range(len(b)):
            a[len(a) - len(b) + i] -= q * b[i]
        a.pop()
    while a and a[-1] == 0:
        a.pop()
    return a


def sturm(p):
    """Sturm chain, scaled to integers"""
    if len(p) == 1:
        return [list(p)]
    c = [list(p), der(p)]
    while True:
        r = rem(c[-2], c[-1])
        if not r:
            return c
        d = 1
        for x in r:
            d = d * x.denominator
        from math import gcd
        from functools import reduce
        z = [int(-x * d) for x in r]
        g = reduce(gcd, z)
        c.append([x // abs(g) for x in z])


def variations(vals):
    s = [sg(v) for v in vals if v]
    return sum(1 for a, b in zip(s, s[1:]) if a != b)


def count(chain, a, b):
    """roots in (a, b]; None: infinity"""
    def at(x, s):
        if x is None:
            return variations([c[-1] * (s ** ((len(c) - 1) % 2)) for c in chain])
        return variations([evs(c, x) for c in chain])
    return at(a, -1) - at(b, 1)


def squarefree(p):
    c = sturm(p)
    return len(c[-1]) == 1


def randpoly(rng, deg, bits):
    while True:
        p = [rng.randrange(-2 ** bits, 2 ** bits + 1) for _ in range(deg + 1)]
        if p[-1] and p[0] and squarefree(p):
            return p


def from_roots(rng, n):
    """a square-free polynomial with chosen real roots: rationals (dyadic and not, close ones, integers), square roots, complex pairs"""
    while True:
        p = [1]
        rts = set()
        for _ in range(rng.randrange(1, n + 1)):
            k = rng.randrange(6)
            if k == 0:
                r = Fr(rng.randrange(-40, 41), rng.choice([1, 2, 4, 8, 1024]))
            elif k == 1:
                r = Fr(rng.randrange(-200, 201), rng.choice([3, 5, 7, 9, 1000]))
            elif k == 2 and rts:
                r = rng.choice(sorted(rts)) + Fr(rng.choice([-1, 1]), rng.choice([2 ** 20, 3 ** 15, 2 ** 45 + 1]))
            elif k == 3:
                a = rng.choice([2, 3, 5, 1000003])
                p = pmul(p, [-a, 0, 1])
                continue
            elif k == 4:
                p = pmul(p, [rng.randrange(1, 9) * 100, rng.randrange(-3, 4), 1])
                continue
            else:
                r = Fr(rng.choice([-1, 1]) * rng.choice([1, 3, 64, 1024, 2 ** 40, 2 ** 40 + 1, 255]))
            if r in rts:
                continue
            rts.add(r)
            p = pmul(p, [-r.numerator, r.denominator])
        if len(p) > 1 and squarefree(p):
            return p


def approx(p, chain, a, b, n):
    """halve (a, b], which holds one root, n times"""
    s = evs(p, b)
    if s == 0:
        for _ in range(n):
            a = (a + b) / 2
        return a, b
    for _ in range(n):
        m = (a + b) / 2
        t = evs(p, m)
        if t == 0:
            for _ in range(n):
                a = (a + m) / 2
            return a, m
        if t == s:
            b = m
        else:
            a = m
    return a, b


def brackets(p, chain, width):
    """isolating intervals (a, b] of all real roots, of the given width"""
    B = Fr(2 ** (2 + max(abs(c) // abs(p[-1]) for c in p).bit_length()))
    todo, out = [(-B - 1, B)], []
    while todo:
        a, b = todo.pop()
        c = count(chain, a, b)
        if not c:
            continue
        if c == 1:
            n = max(0, ((b - a) / width).__ceil__().bit_length())
            out.append(approx(p, chain, a, b, n))
            continue
        m = (a + b) / 2
        todo += [(a, m), (m, b)]
    return sorted(out)


class Lib8:
    def __init__(s, ctx, uso=True):
        s.L = L = ctx.lib("msolve", "none", ["mpz_poly_eval_2exp_naive", "mpz_poly_eval_interval", "mpz_scalar_product_interval", "real_roots"], EXTRA)
        v, l, i = c_void_p, ctypes.c_long, c_int
        s.table = L.sym("vf_table", None, v, l, l, l, v, v)
        s.newden = L.sym("vf_newden", i, v, l, v, l, v, v, l)
        s.extract = L.sym("vf_extract", None, i, v, i, v, i, v, v, v, v, l, i, i, l, v, v, v)
        s.isolate = L.sym("vf_isolate", l, i, v, i, v, i, v, v, v, i, i, v, v, v, v)
        s.norm = L.sym("vf_norm", None, i, v, v, v)
        s.roots = L.sym("vf_realroots", l, v, l, i, i, v, v)


def randparam(rng, elim, nv):
    n = len(elim) - 1
    co, cfs = [], []
    for _ in range(nv - 1):
        d = min(n - 1, rng.choice([0, 1, n - 1, rng.randrange(0, n)]))
        b = rng.choice([1, 8, 60])
        c = [rng.randrange(-2 ** b, 2 ** b + 1) for _ in range(d + 1)]
        if rng.random() < .15:
            c = [0]
        c[-1] = c[-1] or 1
        co.append([] if c == [0] or rng.random() < .05 else c)
        cfs.append(rng.choice([1, 1, 6, 2 ** 40 + 3]))
    return co, cfs


def enclosed(p, chain, co, cf, den, br, lo, hi):
    """-co/(cf*den) at the root of p in br lies in [lo, hi]: False only when it certainly does not"""
    a, b = br
    for _ in range(6):
        u = interval(co, a, b)
        w = interval(den, a, b)
        if w[0] * w[1] > 0:
            q = [-x / (cf * y) for x in u for y in w]
            if max(q) < lo or min(q) > hi:
                return False
            if min(q) >= lo and max(q) <= hi:
                return True
        a, b = approx(p, chain, a, b, 40)
    return None if True else None


def interval(p, a, b):
    l = h = Fr(0)
    for c in reversed(p):
        q = [l * a, l * b, h * a, h * b]
        l, h = min(q) + c, max(q) + c
    return l, h


def fr(v, k):
    return Fr(v) / Fr(2) ** k


def parse_points(text):
    """what display_real_points printed"""
    import re
    t = re.sub(r"(-?\d+)\s*/\s*2(\^(\d+))?", lambda m: '"%s/%d"' % (m.group(1), 2 ** int(m.group(3) or 1)), text)
    import json as J
    d = J.loads(t)
    return [[[Fr(x) for x in c] for c in pt] for pt in d[1]]


def isolate_cases(ctx, L, n, nvars=(1, 2, 3), frac=1.0, fn="isolate_real_roots_param", degs=6, thr=(1, 2)):
    """the chain eliminating polynomial -> boxes, against Sturm sequences"""
    if L.isolate is None:
        return
    rng = ctx.rng
    for k in range(n):
        if not ctx.time_left(frac):
            break
        if rng.random() < .5:
            elim = randpoly(rng, rng.randrange(1, degs + 3), rng.choice([2, 8, 40]))
        else:
            elim = from_roots(rng, degs)
        m = len(elim) - 1
        if rng.random() < .3:
            elim = [-c for c in elim]
        nv = rng.choice(nvars)
        den = der(elim)
        co, cfs = randparam(rng, elim, nv)
        prec, nth = rng.choice([8, 64, 128, 200]), rng.choice(thr)
        inp = dict(elim=elim, coords=co, cfs=cfs, precision=prec, threads=nth)
        ctx.case(fn, inp)
        lo, hi, kk = Z([0] * (m * nv)), Z([0] * (m * nv)), (c_int * (3 * m * nv))()
        text = ctypes.create_string_buffer(60001)
        flat = [c for x in co for c in x]
        nb = L.isolate(nv, Z(elim).p(), m + 1, Z(den).p(), m, Z(flat or [0]).p(), arr(c_int, [len(x) for x in co]), Z(cfs or [1]).p(), prec, nth,
                       lo.p(), hi.p(), kk, text)
        ch = sturm(elim)
        want = count(ch, None, None)
        ctx.check(nb == want, fn, inp, f"{want} real roots", nb, "every real root once")
        if not nb:
            continue
        br = brackets(elim, ch, Fr(1, 2 ** 20))
        box = [[(fr(lo.get(i * nv + t), kk[3 * (i * nv + t)]), fr(hi.get(i * nv + t), kk[3 * (i * nv + t) + 1])) for t in range(nv)] for i in range(nb)]
        box.sort(key=lambda b: b[-1][0])
        for i, b in enumerate(box):
            l, h = b[-1]
            inside = count(ch, l, h) + (ev(elim, l) == 0)
            ctx.check(l <= h and inside >= 1, fn, inp, "the interval holds a root", (str(l), str(h), inside), "real roots enclosed")
            ctx.check(h - l <= Fr(1, 2 ** prec) , fn, inp, f"width at most 2^-{prec}", str(h - l), "requested precision")
            if i:
                ctx.check(box[i - 1][-1][1] <= l, fn, inp, "disjoint intervals", (str(box[i - 1][-1]), str(b[-1])), "real roots separated")
            for t in range(nv - 1):
                ctx.check(b[t][0] <= b[t][1], fn, inp, "ordered box", (str(b[t][0]), str(b[t][1])), "boxes")
                ok = enclosed(elim, ch, co[t], cfs[t], den, br[i], *b[t])
                ctx.check(ok is not False, fn, inp, f"coordinate {t} of root {i} enclosed", [str(x) for x in b[t]], "coordinates enclosed")
        try:
            pts = parse_points(text.value.decode())
        except Exception as e:
            ctx.bad(fn, inp, "a readable list of boxes", text.value.decode()[:200], "printed boxes")
        pts.sort(key=lambda b: b[-1][0])
        ctx.check(len(text.value) >= 60000 or [[tuple(c) for c in p] for p in pts] == box, fn, inp, "the printed boxes are the computed ones", text.value.decode()[:300], "printed boxes")
