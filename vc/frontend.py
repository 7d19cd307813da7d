"""Extraction: clang's JSON AST of the functions in /repo, taken afresh on every run.

What the extraction drops: OpenMP pragmas (clang is run without -fopenmp), and
GMP's function-like macros, which gmp_shim.h turns into calls of the same name.
Nothing else: the tree that is verified is clang's AST of the file in /repo.
"""
import json, os, re, subprocess, hashlib, functools

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TU = {
    "neogb": "src/neogb/gb.c",
    "msolve": "src/msolve/libmsolve.c",
    "usolve": "src/usolve/usolve.c",
    "fglm": "src/fglm/fglm_core.c",
}
FLAGS = {
    "avx512": ["-mavx2", "-mavx512f", "-mavx512dq", "-mavx512bw", "-mavx512vl"],
    "avx2": ["-mavx2"],
    "none": [],
}


class ExtractError(Exception):
    pass


def clang_args(tu, cfg):
    return (["clang", "-fsyntax-only", "-w", "-std=gnu17", "-DHAVE_CONFIG_H=1",
             "-I", f"{VERIF}/shim/cfg_{cfg}", "-I", REPO, "-I", f"{VERIF}/shim",
             "-include", f"{VERIF}/shim/gmp_shim.h"] + FLAGS[cfg])


def _docs(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while i < n:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        if s[i] != "{":
            i = s.index("\n", i) + 1
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


@functools.lru_cache(maxsize=None)
def function_ast(tu, cfg, name):
    """JSON AST of the definition of `name` in the translation unit."""
    src = TU.get(tu, tu)
    p = subprocess.run(clang_args(tu, cfg) + ["-Xclang", "-ast-dump=json", "-Xclang",
                       f"-ast-dump-filter={name}", os.path.join(REPO, src)],
                       capture_output=True, text=True)
    best = None
    for o in _docs(p.stdout):
        if o.get("kind") == "FunctionDecl" and o.get("name") == name:
            if any(c.get("kind") == "CompoundStmt" for c in o.get("inner", [])):
                best = o
            elif best is None:
                best = o
    if best is None or not any(c.get("kind") == "CompoundStmt" for c in best.get("inner", [])):
        if "error:" in p.stderr:
            raise ExtractError(f"{src} does not parse: {p.stderr.strip().splitlines()[0]}")
        return None
    return best


@functools.lru_cache(maxsize=None)
def tu_types(tu, cfg):
    """typedefs and record fields of a TU, from clang's textual AST dump."""
    src = TU.get(tu, tu)
    p = subprocess.run(clang_args(tu, cfg) + ["-Xclang", "-ast-dump", "-fno-color-diagnostics",
                       os.path.join(REPO, src)], capture_output=True, text=True)
    tds, recs, stack, enums = {}, {}, [], {}
    lines = p.stdout.splitlines()
    rec_re = re.compile(r"^(\W*)RecordDecl (0x\w+) .*?(struct|union)(?: (\w+))? definition$")
    fld_re = re.compile(r"^(\W*)FieldDecl .*? (\w+) '([^']+)'(?::'([^']+)')?")
    td_re = re.compile(r"^(\W*)TypedefDecl .*? (\w+) '([^']+)'(?::'([^']+)')?$")
    cur, td = None, None
    for l in lines:
        m = rec_re.match(l)
        if m:
            rec = {}
            recs[m.group(2)] = rec
            if m.group(4):
                recs[m.group(4)] = rec
            stack = [x for x in stack if x[0] < len(m.group(1))] + [(len(m.group(1)), rec)]
            continue
        m = fld_re.match(l)
        if m:
            stack = [x for x in stack if x[0] < len(m.group(1))]
            if stack:
                stack[-1][1].setdefault(m.group(2), (m.group(3), m.group(4)))
            continue
        m = td_re.match(l)
        if m:
            td = m.group(2)
            tds[td] = m.group(4) or m.group(3)
            continue
        m = re.match(r"^\W*Record (0x\w+) '(\w*)'", l)
        if m and td and m.group(1) in recs and td not in recs:
            recs[td] = recs[m.group(1)]
    if not tds:
        raise ExtractError("no AST for " + src + ": " + p.stderr[:300])
    return tds, recs


def source_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(os.path.join(REPO, p), "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]
