"""Run one property: verify every function under contract, replay concretely, report."""
import importlib, json, os, sys, time, multiprocessing as mp, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "props"))
sys.setrecursionlimit(20000)
import z3
import core, solve, frontend, harness, models  # noqa: E402

BASEFILE = os.path.join(VERIF, "baseline.json")


def load_base():
    try:
        core.Contract.BASE = json.load(open(BASEFILE))
    except OSError:
        core.Contract.BASE = {}


def all_contracts(mod):
    C = {}
    for c in getattr(mod, "IMPORTS", []):
        C[(c.tu, c.name)] = c
    for c in mod.CONTRACTS:
        if getattr(c, "variant", None) is None:
            C[(c.tu, c.name)] = c
    return C


def gen(job):
    """worker: obligations of one function in one configuration"""
    modname, idx, cfg = job
    mod = importlib.import_module(modname)
    if idx < 0:
        return gen_lemma(mod, mod.LEMMAS[-1 - idx])
    c = mod.CONTRACTS[idx]
    t0 = time.time()
    r = dict(fn=c.name, cfg=cfg, tu=c.tu, file=c.file, obls=[], status="ok", err="", label=c.label or c.name)
    try:
        C = all_contracts(mod)
        e = core.Engine(c.tu, cfg, C)
        obls = e.run(c)
        so = z3.Solver()
        so.set("timeout", 3000)
        for f in e.pre_facts:
            so.add(f)
        if so.check() == z3.unsat:
            r["status"], r["err"] = "vacuous", "the precondition is unsatisfiable"
        for o in obls:
            d = dict(fn=c.label or c.name, cfg=cfg, name=o.name, line=o.line, kind=o.kind, file=c.file)
            if o.status:
                d.update(status=o.status, backend=o.backend, time=o.time)
            else:
                txt = solve.prepare(o)
                if txt is None:
                    d.update(status="proved", backend=o.backend, time=o.time)
                else:
                    d.update(status=None, txt=txt)
            r["obls"].append(d)
        if e.nret == 0 or not obls:
            r["status"], r["err"] = "vacuous", "no path returns"
        r.update(trusted=sorted(e.trusted), inlined=sorted(e.inlined), called=sorted(e.called),
                 nloops=e.nloops, locals=e.local_order)
    except core.Unsupported as ex:
        r["status"], r["err"] = "detached", str(ex)
    except frontend.ExtractError as ex:
        r["status"], r["err"] = "detached", str(ex)
    except Exception as ex:
        r["status"], r["err"] = "detached", "verifier error: " + "".join(traceback.format_exception_only(ex)).strip() + \
            " @ " + traceback.format_exc().strip().splitlines()[-3].strip()
    r["gen_s"] = time.time() - t0
    return r


def gen_lemma(mod, lem):
    """obligations of a mathematical lemma over the specification functions: (name, hypotheses, goals)"""
    name, hyps, goals = lem
    t0 = time.time()
    r = dict(fn=name, cfg="lemma", tu="", file="lemma", obls=[], status="ok", err="", label=name)
    e = core.Engine(mod.CONTRACTS[0].tu, "none", {})
    st = core.State()
    e.fname = name
    e.assume(st, hyps)
    e.prove(st, goals, name, "lemma")
    for o in e.obls:
        d = dict(fn=name, cfg="lemma", name=o.name, line=None, kind="lemma", file="lemma")
        if o.status:
            d.update(status=o.status, backend=o.backend, time=o.time)
        else:
            txt = solve.prepare(o)
            d.update(status="proved", backend=o.backend, time=o.time) if txt is None else d.update(status=None, txt=txt)
        r["obls"].append(d)
    r["gen_s"] = time.time() - t0
    return r


PHASES = [
    [("z3-linear", 2, 2000, {}), ("z3", 0, 4000, {}), ("z3-relevant", 1, 3000, {})],
    [("z3-linear7", 2, 10000, {"seed": 7}), ("z3-nia", 1, 8000, {"tactic": "nl"}), ("cvc5", 0, 10000, None), ("z3-seed7", 0, 15000, {"seed": 7})],
    [("cvc5-relevant", 1, 20000, None), ("z3-nia-full", 0, 30000, {"tactic": "nl"}), ("z3-seed13", 0, 60000, {"seed": 13})],
]


def smt(job):
    key, txts, phase = job
    tot, model = 0.0, None
    for be, which, ms, opts in PHASES[phase]:
        if which >= len(txts) or txts[which] is None:
            continue
        if opts is None:
            r, dt = solve._cvc5(txts[which], ms)
            m = None
        else:
            r, dt, m = solve._z3((txts[which], ms, opts))
        tot += dt
        if r == "unsat":
            return key, "proved", be, tot, None
        if r == "sat" and which == 0:
            return key, "refuted", be, tot, m
    return key, None, "", tot, model


def verify(modname, tier, deadline, only=None):
    mod = importlib.import_module(modname)
    jobs = []
    for i, c in enumerate(mod.CONTRACTS):
        if c.assumed:
            continue
        if only and c.name not in only and (c.label or "") not in only:
            continue
        for cfg in c.cfgs:
            if only and "@" in only[-1] and only[-1][1:] != cfg:
                continue
            jobs.append((modname, i, cfg))
    if not only:
        jobs += [(modname, -1 - i, "lemma") for i in range(len(getattr(mod, "LEMMAS", [])))]
    jobs.sort(key=lambda j: -(0 if j[1] < 0 else mod.CONTRACTS[j[1]].timeout or 0))
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, max(1, len(jobs)))) as pool:
        res = pool.map(gen, jobs, chunksize=1)
    # unique SMT problems
    todo = {}
    for r in res:
        for o in r["obls"]:
            if o["status"] is None:
                k = hashlib.sha1(o["txt"][0].encode()).hexdigest()
                o["key"] = k
                todo.setdefault(k, o["txt"])
                del o["txt"]
    done, tried = {}, {}
    for ph in range(len(PHASES)):
        rest = [(k, t, ph) for k, t in todo.items() if k not in done]
        if not rest or time.time() > deadline:
            break
        with ctx.Pool(min(8, len(rest))) as pool:
            it = pool.imap_unordered(smt, rest, chunksize=1)
            for _ in range(len(rest)):
                try:
                    k, stt, be, t, m = it.next(timeout=max(1, deadline - time.time()))
                except mp.TimeoutError:
                    pool.terminate()
                    break
                tried[k] = ph + 1
                if stt:
                    done[k] = (stt, be, t, m)
        if any(v[0] == "refuted" for v in done.values()) and ph >= 1:
            break
    for r in res:
        for o in r["obls"]:
            if o["status"] is None:
                # every back end gave up: unknown; the time ran out first: undecided
                gave_up = tried.get(o["key"], 0) == len(PHASES) or any(v[0] == "refuted" for v in done.values())
                stt, be, t, m = done.get(o["key"], ("unknown" if gave_up else "undecided", "none", 0.0, None))
                o.update(status=stt, backend=be, time=t, model=m)
    return res


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.jsonl")):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = None
    if "--only" in argv:
        only = argv[argv.index("--only") + 1].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in argv
    t0 = time.time()
    load_base()
    if "--record" in argv:
        core.Contract.BASE = {k: v for k, v in core.Contract.BASE.items()}
    modname = pid.lower()
    mod = importlib.import_module(modname)
    known = [k for k in known_findings(pid) if k.get("status") == "known"]
    # 1. deductive verification
    if "--record" in argv:
        for c in mod.CONTRACTS:
            for cfg in c.cfgs:
                core.Contract.BASE.pop(f"{c.tu}:{c.name}:{cfg}", None)
    limit = 420 if tier == "quick" else 2400
    res = verify(modname, tier, t0 + limit, only) if "--noproof" not in argv else []
    if "--record" in argv:
        for r in res:
            if r["status"] == "ok" and r["cfg"] != "lemma":
                core.Contract.BASE[f"{r['tu']}:{r['fn']}:{r['cfg']}"] = dict(nloops=r["nloops"], locals=r["locals"])
        for n, tu in getattr(mod, "SIGS", {}).items():
            core.Contract.BASE[f"sig:{tu}:{n}"] = harness.typesig(tu, "none", n)
        json.dump(core.Contract.BASE, open(BASEFILE, "w"), indent=0, sort_keys=True)
    tproof = time.time() - t0
    obls = [o for r in res for o in r["obls"]]
    late = [o for o in obls if o["status"] == "undecided"]
    failed = [o for o in obls if o["status"] not in ("proved", "undecided")]
    for r in res:
        n = sum(o["status"] == "undecided" for o in r["obls"])
        if n and not any(o["status"] not in ("proved", "undecided") for o in r["obls"]):
            r["status"], r["err"] = "detached", f"{n} obligations not decided within the time limit"
    detached = [r for r in res if r["status"] == "detached"]
    vac = [r for r in res if r["status"] == "vacuous"]
    # 2. concrete replay against the real code (solver models first)
    hints = [dict(fn=o["fn"], name=o["name"], model=o.get("model")) for o in failed if o.get("model")]
    budget = 45 if tier == "quick" else 600
    if failed or detached:
        budget = 120 if tier == "quick" else 900
    conc = dict(ok=True, n=0, distinct=0, samples=[], notes=["no concrete replay"], per={})
    if hasattr(mod, "concrete") and "--noconcrete" not in argv:
        def go(ctx):
            ctx.deep = bool(failed or detached)
            ctx.failed = sorted({o["fn"] for o in failed})
            ctx.detached = sorted({r["fn"] for r in detached})
            mod.concrete(ctx)
        conc = harness.run_isolated(go, tier, seed, hints, budget, budget + 120)
        if conc.get("ok") is None:
            conc.setdefault("notes", []).append("concrete replay unavailable: " + conc.get("error", "")[-300:])
    wall = time.time() - t0
    # 3. verdict
    violation, nofail, replay = None, False, {}
    if conc.get("ok") is False:
        violation = conc["fail"]
    elif failed or vac:
        violation, nofail = dict(obligations=[f"{o['file']}:{o['fn']}[{o['cfg']}].{o['name']} (line {o['line']}): {o['status']}"
                                              for o in failed][:40] + [f"{r['fn']}: {r['err']}" for r in vac]), True
    if verbose:
        for r in res:
            ok = sum(o["status"] == "proved" for o in r["obls"])
            print(f"{r['label']:40s} {r['cfg']:7s} {r['status']:9s} {ok}/{len(r['obls'])} gen {r['gen_s']:.1f}s solver {sum(o.get('time') or 0 for o in r['obls']):.1f}s max {max([o.get('time') or 0 for o in r['obls']] + [0]):.1f}s {r['err']}")
        if os.environ.get("SLOW"):
            for o in sorted((o for o in obls if o.get("time")), key=lambda o: -o["time"])[:8]:
                print("  slow", o["fn"], o["cfg"], o["name"], "line", o["line"], round(o["time"], 1), o["backend"])
        for o in failed:
            print("  FAILED", o["fn"], o["cfg"], o["name"], "line", o["line"], o["status"], str(o.get("model"))[:int(os.environ.get("MLEN", "300"))])
        print("concrete", {k: v for k, v in conc.items() if k != "samples"})
    bk = {}
    for o in obls:
        if o["status"] == "proved":
            bk[o["backend"]] = bk.get(o["backend"], 0) + 1
    fns = sorted({f"{r['file']}:{r['label']}[{r['cfg']}]" for r in res if r["status"] == "ok" and r["cfg"] != "lemma"})
    lemmas = sorted({r["label"] for r in res if r["cfg"] == "lemma"})
    trusted = sorted({t for r in res for t in r.get("trusted", [])})
    assumed = [f"{c.name}: {c.assumed}" for c in list(mod.CONTRACTS) + list(getattr(mod, "IMPORTS", [])) if c.assumed]
    cov = dict(
        obligations=len(obls), discharged=len(obls) - len(failed) - len(late),
        checker_cmd=f"python3-vt check.py {pid}",
        trusted_base=["clang 18 AST of /repo's source", "the VC generator in vc/ (core.py, models.py)",
                      "poly.py normal form", "z3 5.3 / cvc5 1.1.2",
                      "contracts of library calls used: " + ", ".join(trusted)],
        functions_under_contract=fns,
        lemmas_proved=lemmas,
        backends=bk, solver_s=round(sum(o.get("time") or 0 for o in obls), 2),
        inlined=sorted({t for r in res for t in r.get("inlined", [])}),
        contracts_used_at_calls=sorted({t for r in res for t in r.get("called", [])}),
        not_attached=[f"{r['file']}:{r['label']}[{r['cfg']}]: {r['err']}" for r in detached],
        bounded_stand_in=dict(
            label="bounded, not counted as proved",
            evaluations=conc.get("n", 0), distinct=conc.get("distinct", 0), per_function=conc.get("per", {}),
            bound=getattr(mod, "BOUND", ""), notes=conc.get("notes", []), samples=conc.get("samples", [])),
        failed_obligations=[f"{o['fn']}[{o['cfg']}].{o['name']}" for o in failed][:40],
    )
    lvl = "proof" if obls and not detached and not failed else "other"
    if lvl == "other":
        cov["explanation"] = ("some functions are outside the verifier's reach on this tree (see not_attached); the bounded "
                              "stand-in ran for them" if detached else "see failed_obligations")
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov,
              assumptions=assumed + list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2),
              violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None and "--noproof" not in argv:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    npr = len(obls) - len(failed) - len(late)
    print(f"{pid}: {npr}/{len(obls)} obligations discharged in {len(fns)} functions/configurations, "
          f"{len(detached)} not attached, {conc.get('n', 0)} concrete replays, {wall:.1f}s")
    for r in detached:
        print(f"  not attached (bounded stand-in): {r['fn']}[{r['cfg']}]: {r['err']}")
    if violation:
        rp = os.path.join(VERIF, "evidence", f"replay_{pid}.json")
        json.dump(dict(property=pid, failing_input=None if nofail else violation,
                       failed_obligations=[dict(o, model=o.get("model")) for o in failed][:60],
                       rerun=f"cd {VERIF} && VERIF_SEED={seed} python3-vt check.py {pid}"), open(rp, "w"), indent=1, default=str)
        for o in failed[:10]:
            print(f"  failed obligation: {o['file']}:{o['fn']}[{o['cfg']}].{o['name']} line {o['line']}")
        if not nofail:
            print("  failing input:", json.dumps(violation, default=str)[:600])
        print(f"VIOLATION property={pid} replay={rp}" + (" no-failing-input-found" if nofail else ""))
        return 1
    return 0
