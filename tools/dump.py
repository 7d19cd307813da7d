"""debug: write the SMT text of matching obligations to /tmp/obl_*.smt2"""
import sys, importlib
sys.path[:0] = ["vc", "props"]
sys.setrecursionlimit(20000)
import core, solve, runner
runner.load_base()
pid, fn, pat = sys.argv[1:4]
mod = importlib.import_module(pid.lower())
n = 0
for c in mod.CONTRACTS:
    if (c.label or c.name) != fn: continue
    e = core.Engine(c.tu, c.cfgs[0], runner.all_contracts(mod))
    for o in e.run(c):
        if pat in o.name and not o.status:
            t = solve.prepare(o)
            if t is None: continue
            for i, x in enumerate(t):
                if x: open(f"/tmp/obl_{n}_{i}.smt2", "w").write(x)
            print(n, o.name, o.line, len(o.facts)); n += 1
