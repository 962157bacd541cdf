"""Runs all contracts of one property, decides the verdict, writes evidence and replay files."""
import os, sys, json, time, random, traceback
from . import engine, spec, loader, core

ASSUMED = [
    "floating-point numbers are exact reals; integers are unbounded",
    "no nan/inf in inputs unless the contract says so; division by zero is outside the contracts",
    "numpy/scipy operations obey the assumed contracts of dv/arrays.py and dv/symnp.py (tested against the installed libraries by dv/conform.py on every run)",
    "array rank is fixed per contract case (1..3); axis names are representative constants",
    "number scalars are Python numbers (numpy scalar types are identified with them)",
    "contract inputs do not alias each other; module-level constants are not modified from outside",
    "the extraction (dv/loader.py) rewrites only builtin calls, for statements and comprehensions",
]

_L = None


def get_loader(repo):
    global _L
    if _L is None:
        _L = loader.Loader(repo)
    return _L


def t_sym(i, j, repo, budget, tier):
    con = spec.REGISTRY[i]
    case = con.cases[j]
    L = get_loader(repo)
    ms = 6000 if tier == "quick" else 20000
    r = engine.explore(con, case, L, budget=budget, modular=True, prove_ms=ms)
    if not engine.decided(r) and any(k in spec.SPECS for k in con.uses):
        # a caller may rely on more than the callee contract says: decide it with the callee bodies
        r2 = engine.explore(con, case, L, budget=budget, modular=False, prove_ms=ms)
        r2["models"] += r["models"]
        if engine.decided(r2) or len(r2["undecided"]) <= len(r["undecided"]):
            r = r2
    r["lines"] = sorted(L.mods)
    return r


def t_con(i, j, seed, n, budget, models, witnesses):
    return engine.concrete(spec.REGISTRY[i], spec.REGISTRY[i].cases[j], seed, n, budget, models, witnesses)


def t_finding(fid):
    return spec.FINDINGS[fid](engine)


def warm():
    """import the real library once, before forking"""
    import numpy, scipy.fft, scipy.interpolate, scipy.integrate  # noqa
    try:
        import SciDataTool  # noqa
        from SciDataTool import Data1D, DataLinspace, DataTime, DataFreq, DataND, DataPattern, VectorField  # noqa
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    return None


def check(pid, tier, seed, repo, here):
    t0 = time.time()
    thorough = tier == "thorough"
    nproc = min(6, os.cpu_count() or 4)
    total = 600 if thorough else 240
    deadline = t0 + total
    cons = [(i, c) for i, c in enumerate(spec.REGISTRY) if c.prop == pid]
    if not cons:
        print("no contract for", pid)
        return 2
    err = warm()
    if err:
        print("the library cannot be imported:", err)
    L = get_loader(repo)
    load_err = None
    try:
        L.load("SciDataTool")
        for m in sorted({t.split(":")[0] for i, c in cons for t in c.target}):
            L.load(m)
    except BaseException as e:
        load_err = "%s: %s" % (type(e).__name__, str(e)[:300])
    # ---- engine and library-contract self test
    from . import conform
    conf = engine.pool([(conform.run, (pid, seed, thorough))], 1, hard=60)[0]
    conf_ok = conf[0] == "ok" and not conf[1]["bad"]
    # ---- deductive part
    sym = [(i, j) for i, c in cons for j in range(len(c.cases)) if not c.bounded]
    def b(c):
        return (c.budget or 30) * (4 if thorough else 1)
    res = {}
    tasks = [(t_sym, (i, j, repo, b(spec.REGISTRY[i]), tier)) for i, j in sym]
    for (i, j), r in zip(sym, engine.pool(tasks, nproc, hard=(150 if not thorough else 400), deadline=deadline)):
        if r[0] == "ok":
            res[(i, j)] = r[1]
        else:
            res[(i, j)] = dict(obls=[], undecided=["%s: %s" % r], paths=0, witnesses=[], models=[], assumed=[], lemmas=[], stats=dict(queries=0, solver_s=0, cvc5=0), wall=0, modular=True)
    # ---- run-time evaluation of the same contracts: replay of counter-models, cross-check of paths, stand-in
    allc = [(i, j) for i, c in cons for j in range(len(c.cases))]
    tasks = []
    for i, j in allc:
        c = spec.REGISTRY[i]
        r = res.get((i, j))
        und = r is None or not engine.decided(r)
        n = (c.conc or 30) * (3 if und and not c.bounded else 1) * (6 if thorough else 1)
        tb = (2.5 if not und else 6.0) * (5 if thorough else 1)
        tasks.append((t_con, (i, j, seed, n, tb, r["models"] if r else [], r["witnesses"] if r else [])))
    cres = {}
    for (i, j), r in zip(allc, engine.pool(tasks, nproc, hard=90 if not thorough else 240, deadline=t0 + total * 2)):
        cres[(i, j)] = r[1] if r[0] == "ok" else dict(ok=0, skip=0, error=["%s: %s" % r], fail=[], replayed=[], witness_ok=0, witness_bad=[], evals=0, timeout=0, wall=0)
    # ---- verdict
    viol = []
    os.makedirs(os.path.join(here, "evidence", "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(here, "evidence", "replay")):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(here, "evidence", "replay", f))
    for i, j in allc:
        c = spec.REGISTRY[i]
        cr, r = cres[(i, j)], res.get((i, j))
        if cr["fail"]:
            f = cr["fail"][0]
            viol.append(dict(contract=c.name, case=c.cases[j], target=c.target, obligation=f["detail"], inputs=f["inputs"], source=f["source"], kind="input"))
        elif r is not None and conf_ok:
            ref = [o for o in r["obls"] if o["status"] == "refuted"]
            # a counter-model that replays without failure shows the model and the code disagree: not a violation
            rep = cr["replayed"]
            seen = {x["label"] for x in rep if x["result"] != "skip"}
            ref = [o for o in ref if o["label"] not in seen]
            if ref and not r["undecided"] and not cr["error"]:
                viol.append(dict(contract=c.name, case=c.cases[j], target=c.target, obligation=ref[0]["label"], inputs=None, source="solver", kind="none", output=ref[:5], replays=rep[:5]))
    # ---- known findings
    known = load_known(here)
    kprinted = []
    for k in known:
        if k.get("property") == pid and k.get("status") == "known":
            r = engine.pool([(t_finding, (k["id"],))], 1, hard=40)[0] if k["id"] in spec.FINDINGS else ("err", "no demonstration")
            if r[0] == "ok" and r[1]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                kprinted.append(k["id"])
    # ---- evidence
    obls = [o for r in res.values() for o in r["obls"]]
    proved = [o for o in obls if o["status"] == "proved"]
    backends = {}
    for o in proved:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    dec = sorted({"%s %s" % (spec.REGISTRY[i].name, json.dumps(spec.REGISTRY[i].cases[j], default=str)) for i, j in sym if engine.decided(res[(i, j)])})
    und = [dict(contract=spec.REGISTRY[i].name, case=spec.REGISTRY[i].cases[j], reason=(sorted(set(res[(i, j)]["undecided"]))[:4] + [o["label"] + ": " + o["status"] for o in res[(i, j)]["obls"] if o["status"] != "proved"][:6]) or ["no obligation generated"]) for i, j in sym if not engine.decided(res[(i, j)])]
    vac = ["%s %s" % (spec.REGISTRY[i].name, spec.REGISTRY[i].cases[j]) for i, j in allc if cres[(i, j)]["ok"] == 0 and cres[(i, j)]["witness_ok"] == 0 and not cres[(i, j)]["fail"]]
    funcs_proved = sorted({t for i, c in cons if not c.bounded and all(engine.decided(res[(i, j)]) for j in range(len(c.cases))) for t in c.target})
    funcs_part = sorted({t for i, c in cons for t in c.target} - set(funcs_proved))
    cov = dict(
        obligations=len(obls), discharged=len(proved),
        checker_cmd="/opt/venv/bin/python check.py %s" % pid,
        trusted_base=ASSUMED + ["library contracts used on this run: " + ", ".join(sorted({a for r in res.values() for a in r["assumed"]}) or ["(elementwise arithmetic and indexing only)"]),
                                "lemma schemas used on this run (proved in dv/conform.py): " + ", ".join(sorted({a for r in res.values() for a in r["lemmas"]}) or ["none"]),
                                "z3 %s, cvc5 1.1.2, CPython %s" % (core.z3.get_version_string(), sys.version.split()[0])],
        functions_under_contract=sorted({t for i, c in cons for t in c.target}),
        functions_fully_discharged=funcs_proved,
        functions_bounded_or_partly=funcs_part,
        contract_cases=len(allc), cases_discharged=len(dec), cases_undecided=und,
        paths=sum(r["paths"] for r in res.values()),
        backends=backends, solver_queries=sum(r["stats"]["queries"] for r in res.values()),
        solver_s=round(sum(r["stats"]["solver_s"] for r in res.values()), 2),
        replaced_callees=sorted({u for i, c in cons for u in c.uses if u in spec.SPECS}),
        bounded=dict(note="run-time evaluation of the contracts on the real code: small dimensions, seeded; not counted as proof",
                     contracts=sorted({c.name for i, c in cons if c.bounded}),
                     samples=sum(r["ok"] for r in cres.values()), skipped=sum(r["skip"] for r in cres.values()),
                     conditions_evaluated=sum(r["evals"] for r in cres.values()),
                     path_witnesses_replayed=sum(r["witness_ok"] for r in cres.values()),
                     errors=sorted({e[:200] for r in cres.values() for e in r["error"] + r["witness_bad"]})[:8]),
        without_witness=vac[:20],
        conformance=conf[1] if conf[0] == "ok" else dict(error=str(conf[1])[:500]),
        load_error=load_err, known_findings_seen=kprinted)
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=level_of(here, pid), coverage=cov, assumptions=ASSUMED, violations=len(viol), wall_s=round(time.time() - t0, 2))
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d contract cases, %d/%d obligations discharged, %d cases undecided (bounded stand-in), %d run-time evaluations, %.1f s"
          % (pid, len(allc), len(proved), len(obls), len(und), cov["bounded"]["samples"], time.time() - t0))
    for u in und[:6]:
        print("  undecided:", u["contract"], u["case"], "; ".join(u["reason"])[:300])
    for n, v in enumerate(viol[:5]):
        path = os.path.join(here, "evidence", "replay", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, seed=seed, how="/opt/venv/bin/python /verif/check.py --replay " + path), f, indent=1, default=str)
        print("  failed obligation of %s %s: %s" % (v["contract"], v["case"], v["obligation"][:400]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if v["kind"] == "input" else " no-failing-input-found"))
    return 1 if viol else 0


def level_of(here, pid):
    try:
        for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"


def load_known(here):
    p = os.path.join(here, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def replay(path):
    v = json.load(open(path))
    con = [c for c in spec.REGISTRY if c.name == v["contract"] and c.prop == v["property"]][0]
    if v["inputs"] is None:
        print("no concrete input recorded; failed obligation:", v["obligation"])
        return 1
    st, det, S = engine.run_concrete(con, v["case"], random.Random(1), engine.decode(v["inputs"]), limit=60)
    print(st, det)
    return 1 if st == "fail" else 0
