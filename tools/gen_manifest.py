"""writes MANIFEST.json from the contracts and the notes below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import importlib, glob
for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
    n = os.path.basename(f)[:-3]
    if n != "__init__":
        importlib.import_module("contracts." + n)
from dv import spec
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "contract-based deductive verification: verification conditions generated from the real source by path-wise symbolic execution with symbolic array dimensions, discharged by z3/cvc5; counter-models replayed on the real code"
NA = json.load(open(os.path.join(HERE, "tools", "na.json")))
checks, na = [], []
for p in props:
    cs = [c for c in spec.REGISTRY if c.prop == p["id"]]
    if p["id"] in NA or not cs:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "contracts not written yet")))
        continue
    proved = [c for c in cs if not c.bounded]
    bnd = [c for c in cs if c.bounded]
    note = "Discharged for all inputs of the contract cases: %s." % (", ".join(sorted({t.split(":")[1] for c in proved for t in c.target})) or "none")
    if bnd:
        note += " Bounded run-time stand-in (not proof): %s." % ", ".join(sorted({c.name for c in bnd}))
    note += " Reals for floats; numpy/scipy contracts assumed; see DESIGN.md."
    checks.append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python check.py %s quick" % p["id"],
                       thorough_cmd="/opt/venv/bin/python check.py %s thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=TECH,
                       level="proof" if proved else "other", level_note=note,
                       theorems=sorted({"%s: %s" % (c.name, (c.fn.__doc__ or "").strip().split("\n")[0]) for c in proved})))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True; import dv.core\"",
         checks=checks, not_applicable=na, notes="Checks read /repo on every run (VERIF_REPO overrides the path). Replay: check.py --replay FILE.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
