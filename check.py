#!/usr/bin/env python
"""check.py <property id>            decide one property on the current tree of /repo
check.py --replay <file>          evaluate a recorded failing input again"""
import os, sys, tempfile, atexit, shutil, time, json, importlib, random, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
SCRATCH = tempfile.mkdtemp(prefix="dvcheck-")
os.environ["MPLCONFIGDIR"] = SCRATCH
os.environ["HOME"] = SCRATCH          # nothing the library writes may reach the real home directory
os.environ["DV_SCRATCH"] = SCRATCH
_main = os.getpid()
atexit.register(lambda: os.getpid() == _main and shutil.rmtree(SCRATCH, ignore_errors=True))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from dv import engine, spec, loader, report  # noqa: E402


def load_contracts():
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            importlib.import_module("contracts." + n)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        load_contracts()
        sys.exit(report.replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    except ValueError:
        seed = 0
    load_contracts()
    sys.exit(report.check(pid, tier, seed, REPO, HERE))


if __name__ == "__main__":
    os.chdir(SCRATCH)
    main()
