"""Concrete replay: the real functions, compiled from /repo, called through ctypes.

The shared object is the unchanged translation unit plus a table of the static
functions it defines; Python integers are the oracle.
"""
import ctypes, os, re, subprocess, tempfile, hashlib, random, time, json, sys, signal, traceback
import frontend

REPO, VERIF = frontend.REPO, frontend.VERIF
CPU = open("/proc/cpuinfo").read().split("flags", 1)[-1].split("\n", 1)[0]


def cfg_ok(cfg):
    return cfg == "none" or (cfg == "avx2" and " avx2" in CPU) or \
        (cfg == "avx512" and all(f in CPU for f in ("avx512f", "avx512dq", "avx512bw", "avx512vl")))


class Lib:
    """functions of one translation unit; .missing: names the source no longer defines"""

    def __init__(s, tu, cfg, names, extra="", workdir=None, opt="-O1"):
        s.tu, s.cfg = tu, cfg
        src = os.path.join(REPO, frontend.TU.get(tu, tu))
        s.missing, s.extra_ok, s.log = [], True, ""
        names = list(names)
        flags = {"avx512": ["-mavx2", "-mavx512f", "-mavx512dq", "-mavx512bw", "-mavx512vl"], "avx2": ["-mavx2"], "none": []}[cfg]
        objs, procs = [], []
        base = ["gcc", opt, "-w", "-fPIC", "-fopenmp", "-std=gnu17", "-DHAVE_CONFIG_H=1"] + flags + \
            ["-I", f"{VERIF}/shim/cfg_{cfg}", "-I", REPO, "-I", os.path.dirname(src)]
        for o in {"msolve": ["neogb", "usolve", "fglm"]}.get(tu, []):
            ob = os.path.join(workdir, f"o_{o}_{cfg}.o")
            if not os.path.exists(ob):
                procs.append(subprocess.Popen(base + ["-O0", "-c", os.path.join(REPO, frontend.TU[o]), "-o", ob], stderr=subprocess.DEVNULL))
            objs.append(ob)
        for p in procs:
            p.wait()
        for _ in range(8):
            table = "\n".join(f'  if(!__builtin_strcmp(n,"{n}")) return (void*){n};' for n in names)
            text = f'#include "{src}"\n{extra}\nvoid *vf_get(const char *n){{\n{table}\n  return 0;\n}}\n'
            c = os.path.join(workdir, f"h_{tu}_{cfg}_{len(names)}.c")
            so = c[:-2] + ".so"
            open(c, "w").write(text)
            p = subprocess.run(base + ["-shared", c] + objs + ["-o", so, "-lflint", "-lmpfr", "-lgmp", "-lm"],
                               capture_output=True, text=True)
            if p.returncode == 0:
                break
            s.log = p.stderr[:2000]
            gone = set(re.findall(r"[‘'](\w+)[’'] undeclared", p.stderr)) & set(names)
            if gone:
                s.missing += sorted(gone)
                names = [n for n in names if n not in gone]
            elif s.extra_ok and extra:
                extra, s.extra_ok = (extra.split("/*STUBS*/")[0] if "/*STUBS*/" in extra else ""), False
            else:
                raise RuntimeError("harness does not build: " + p.stderr[:400])
        else:
            raise RuntimeError("harness does not build: " + s.log[:400])
        s.lib = ctypes.CDLL(so)
        s.lib.vf_get.restype = ctypes.c_void_p
        s.lib.vf_get.argtypes = [ctypes.c_char_p]

    def fn(s, name, restype, *argtypes):
        a = s.lib.vf_get(name.encode())
        if not a:
            return None
        return ctypes.CFUNCTYPE(restype, *argtypes)(a)

    def sym(s, name, restype, *argtypes):
        """an exported helper of `extra`"""
        if not s.extra_ok:
            return None
        f = getattr(s.lib, name)
        f.restype, f.argtypes = restype, list(argtypes)
        return f


# ------------------------------------------------------------------ GMP
gmp = ctypes.CDLL("libgmp.so.10", mode=ctypes.RTLD_GLOBAL)


class mpz_struct(ctypes.Structure):
    _fields_ = [("alloc", ctypes.c_int), ("size", ctypes.c_int), ("d", ctypes.c_void_p)]


gmp.__gmpz_init.argtypes = [ctypes.c_void_p]
gmp.__gmpz_set_str.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
gmp.__gmpz_clear.argtypes = [ctypes.c_void_p]
gmp.__gmpz_get_str.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_void_p]
gmp.__gmpz_get_str.restype = ctypes.c_char_p
gmp.__gmpz_sizeinbase.argtypes = [ctypes.c_void_p, ctypes.c_int]
gmp.__gmpz_sizeinbase.restype = ctypes.c_size_t
_init, _set, _clear, _get, _sz = (getattr(gmp, "__gmpz_" + n) for n in ("init", "set_str", "clear", "get_str", "sizeinbase"))


class Z:
    """an array of mpz_t"""

    def __init__(s, vals):
        if isinstance(vals, int):
            vals = [vals]
        s.n = len(vals)
        s.a = (mpz_struct * max(1, s.n))()
        for i, v in enumerate(vals):
            _init(ctypes.addressof(s.a) + 16 * i)
            s.set(i, v)

    def set(s, i, v):
        _set(ctypes.addressof(s.a) + 16 * i, format(v, "x").encode(), 16)

    def get(s, i=0):
        p = ctypes.addressof(s.a) + 16 * i
        b = ctypes.create_string_buffer(_sz(p, 16) + 3)
        return int(_get(b, 16, p), 16)

    def all(s):
        return [s.get(i) for i in range(s.n)]

    def p(s, i=0):
        r = ctypes.c_void_p(ctypes.addressof(s.a) + 16 * i)
        r.owner = s  # keeps the limbs alive while the pointer is in use
        return r

    def __del__(s):
        try:
            for i in range(s.n):
                _clear(ctypes.addressof(s.a) + 16 * i)
        except Exception:
            pass


class Fail(Exception):
    pass


class Ctx:
    """one concrete-replay run of one property"""

    def __init__(s, tier, seed, hints, workdir, logpath, budget):
        s.tier, s.seed, s.hints, s.workdir = tier, seed, hints or [], workdir
        s.rng = random.Random(seed * 7919 + 17)
        s.n, s.distinct, s.samples, s.notes = 0, set(), [], []
        s.per = {}
        s.t0, s.budget = time.time(), budget
        s.logf = open(logpath, "w")
        s.known = []
        s.libs = {}

    def time_left(s, frac=1.0):
        return time.time() - s.t0 < s.budget * frac

    def scale(s, quick, thorough=None):
        return quick if s.tier == "quick" else (thorough or quick * 8)

    def lib(s, tu, cfg, names, extra=""):
        k = (tu, cfg, tuple(names), extra)
        if k not in s.libs:
            s.libs[k] = Lib(tu, cfg, names, extra, s.workdir)
            if s.libs[k].missing:
                s.note(f"{tu}: no longer defined: {', '.join(s.libs[k].missing)}")
            if not s.libs[k].extra_ok:
                s.note(f"{tu}: wrapper code no longer compiles: {s.libs[k].log[:200]}")
        return s.libs[k]

    def note(s, t):
        if t not in s.notes:
            s.notes.append(t)

    def case(s, fn, inp):
        """log a case before running it, so that a crash names its input"""
        s.n += 1
        s.per[fn] = s.per.get(fn, 0) + 1
        t = json.dumps([fn, inp], default=str)
        s.logf.seek(0)
        s.logf.truncate()
        s.logf.write(t)
        s.logf.flush()
        s.distinct.add(hash(t))
        if len(s.samples) < 4 and s.per[fn] <= 1:
            s.samples.append(t[:400])

    def bad(s, fn, inp, want, got, clause=""):
        raise Fail(json.dumps(dict(function=fn, input=inp, expected=want, got=got, clause=clause), default=str))

    def check(s, cond, fn, inp, want, got, clause=""):
        if not cond:
            s.bad(fn, inp, want, got, clause)


def typesig(tu, cfg, name):
    a = frontend.function_ast(tu, cfg, name)
    if a is None:
        return None
    return a["type"]["qualType"]


def run_isolated(fn, tier, seed, hints, budget, hard):
    """run fn(ctx) in a child; a crash or hang of the code under test is a failure"""
    work = tempfile.mkdtemp(prefix="vfh_")
    log, res = os.path.join(work, "case.log"), os.path.join(work, "result.json")
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        os.dup2(dn, 1)
        out = {}
        code = 0
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.environ["OMP_NUM_THREADS"] = "1"
            err = os.open(os.path.join(work, "err"), os.O_WRONLY | os.O_CREAT)
            os.dup2(err, 2)
            ctx = Ctx(tier, seed, hints, work, log, budget)
            try:
                fn(ctx)
                out = dict(ok=True)
            except Fail as f:
                out = dict(ok=False, fail=json.loads(str(f)))
            out.update(n=ctx.n, distinct=len(ctx.distinct), samples=ctx.samples, notes=ctx.notes, per=ctx.per)
        except BaseException:
            out = dict(ok=None, error=traceback.format_exc()[-1500:])
        with open(res, "w") as f:
            json.dump(out, f, default=str)
        os._exit(code)
    t0 = time.time()
    status = None
    while time.time() - t0 < hard:
        r, status = os.waitpid(pid, os.WNOHANG)
        if r:
            break
        time.sleep(0.05)
    else:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        status = "timeout"
        try:
            age = time.time() - os.path.getmtime(log)
        except OSError:
            age = 0
        if age < min(60, hard / 3):
            # slow machine, not a hang: the run covered less than planned
            import shutil
            shutil.rmtree(work, ignore_errors=True)
            return dict(ok=True, n=0, distinct=0, samples=[], per={}, notes=["concrete replay stopped by its time limit"])
    try:
        out = json.load(open(res))
    except Exception:
        last = ""
        try:
            last = open(log).read()
        except OSError:
            pass
        fnm, inp = "?", last
        try:
            fnm, inp = json.loads(last)
        except Exception:
            pass
        out = dict(ok=False, n=0, distinct=0, samples=[], notes=[], per={},
                   fail=dict(function=fnm, input=inp, expected="normal return",
                             got="no return (time limit)" if status == "timeout" else f"process died, wait status {status}",
                             clause="the function returns"))
        if not last:
            out = dict(ok=None, error=f"harness ended before the first case ({status})")
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    return out
