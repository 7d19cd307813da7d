"""Make and validate planted bugs: python3 tools/seedlib.py tools/seeds/<file>.py [id ...]

Each spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=C text, tu=..., needs, breaks)].
Validation runs in a scratch copy of /repo under /tmp.
"""
import json, os, shutil, subprocess, sys, importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscr"
R = SCR + "/repo"
DEMO = """#!/bin/bash
# exit 0: behaves as specified; nonzero: the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -O1 -march=native -w -fopenmp -std=gnu17 %FLAGS%-DHAVE_CONFIG_H=1 -I_build -I. "$here/demo.c" -o "$t/demo" %LIBS% -lflint -lmpfr -lgmp -lm 2> "$t/err" || { cat "$t/err" >&2; exit 0; }
timeout 20 "$t/demo"
"""
PRE = {"neogb": '#include "src/neogb/gb.c"\n', "usolve": '#include "src/usolve/usolve.c"\n', "fglm": '#include "src/fglm/fglm_core.c"\n',
       "msolve": '#include "src/msolve/libmsolve.c"\n'}
LIBS = {"msolve": "_build/src/neogb/.libs/libneogb.a _build/src/usolve/.libs/libusolve.a _build/src/fglm/.libs/libfglm.a"}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch():
    if not os.path.exists(R):
        os.makedirs(SCR, exist_ok=True)
        sh(f"cp -a /repo {R}")
        for f in ("build.sh", "test.sh", "results.py"):
            t = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", SCR + "/build.sh").replace("/opt/vp/results.py", SCR + "/results.py")
            open(f"{SCR}/{f}", "w").write(t)
        print(sh(f"bash {SCR}/build.sh").returncode)
    sh(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo && git -C {R} reset -q --hard FETCH_HEAD")


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:]
    scratch()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in m.SEEDS:
        d = f"{VERIF}/seeded/{s['id']}"
        if ids and s["id"] not in ids or (not ids and os.path.exists(d + "/meta.json")):
            continue
        sh(f"git -C {R} checkout -q -- .")
        os.makedirs(d, exist_ok=True)
        fl = s.get("flags", "")
        lib = s.get("libs", LIBS.get(s["tu"], ""))
        open(d + "/demo.sh", "w").write(s.get("sh") or DEMO.replace("%LIBS%", lib).replace("%FLAGS%", fl))
        os.chmod(d + "/demo.sh", 0o755)
        if not s.get("sh"):
            open(d + "/demo.c", "w").write(PRE[s["tu"]] + s["demo"])
        for n, t in s.get("files", {}).items():
            open(f"{d}/{n}", "w").write(t)
        b = sh(f"bash {SCR}/build.sh")
        assert b.returncode == 0, b.stderr[-2000:]
        r0 = sh(f"bash {d}/demo.sh", cwd=R)
        r = sh(f"cd {R} && gcc -O1 -march=native -w -fopenmp -std=gnu17 {fl} -DHAVE_CONFIG_H=1 -I_build -I. {d}/demo.c -o /tmp/seedscr/x {lib} -lflint -lmpfr -lgmp -lm") if not s.get("sh") else None
        if r0.returncode != 0 or (r and r.returncode):
            print(s["id"], "DEMO FAILS ON CLEAN TREE", r0.returncode, r0.stdout[-500:], r0.stderr[-500:], r.stderr[-1500:] if r else "")
            shutil.rmtree(d)
            continue
        for f, old, new in s["edits"]:
            t = open(f"{R}/{f}").read()
            assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old))
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        diff = sh(f"git -C {R} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        t = sh(f"bash {SCR}/test.sh {SCR}/out.json")
        o = json.load(open(f"{SCR}/out.json"))
        missing = sorted(stable - set(x.replace(R, "/repo") for x in o["passed"]))
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        ok = not missing and r1.returncode != 0
        print(s["id"], "ok" if ok else "REJECTED", "demo", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip(), "tests missing", missing[:4])
        if not ok:
            shutil.rmtree(d)
        sh(f"git -C {R} checkout -q -- .")


main()
