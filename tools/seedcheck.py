"""Run a property's check against planted bugs in scratch copies: python3 tools/seedcheck.py [id ...] (parallel 3)"""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))


def one(i):
    d = f"{V}/seeded/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    w = f"/tmp/sc_{i}"
    os.makedirs(w)
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w} && cp /repo/_build/config.h {w}/config.h.tmp; cd {w} && git init -q . && git apply {d}/patch.diff", shell=True, check=True)
    r = subprocess.run(["python3-vt", V + "/check.py", p], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
    shutil.rmtree(w)
    l = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "failed obl" in x or "failing input" in x or "not attached" in x]
    print(i, "exit", r.returncode, "\n    " + "\n    ".join(x[:230] for x in l[-4:]) + r.stderr[-300:], flush=True)


with ThreadPoolExecutor(3) as ex:
    list(ex.map(one, ids))
