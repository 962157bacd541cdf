"""Explores every path of a contract case, discharges its obligations, and evaluates contracts on concrete inputs."""
import os, sys, time, json, random, signal, traceback, multiprocessing as mp
from fractions import Fraction
from . import core, strings
from .core import *
from . import spec as _spec
from .spec import SymS, ConS, Skip, SPECS

MAX_PATHS = 600


# ------------------------------------------------------------------------------------------------ witnesses
def val_of(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError("no value")


def inputs_of(c, m):
    """concrete inputs from a model, or None"""
    import itertools
    out = {}
    for kind_, name, e, extra in c.inputs:
        if kind_ in ("int", "real", "bool"):
            out[name] = val_of(m, e)
        elif kind_ == "word":
            out[name] = strings.word_of(c, name, m)
        else:
            shape, k = extra
            dims = [d if type(d) is int else val_of(m, zint(d)) for d in shape]
            n = 1
            for d in dims:
                n *= max(d, 0)
            if n > 4000 or any(d < 0 for d in dims):
                return None
            flat = []
            for i in itertools.product(*[range(d) for d in dims]):
                z = [z3.IntVal(x) for x in (i or (0,))]
                if k == "c":
                    flat.append(["c", val_of(m, e[0](*z)), val_of(m, e[1](*z))])
                else:
                    flat.append(val_of(m, e[0](*z)))
            out[name] = dict(shape=dims, kind=k, data=flat)
    return out


def decode(inp):
    import numpy as np
    out = {}
    for k, v in inp.items():
        if isinstance(v, dict) and "data" in v:
            d = [complex(x[1], x[2]) if isinstance(x, (list, tuple)) else x for x in v["data"]]
            out[k] = np.array(d, dtype={"f": float, "i": int, "b": bool, "c": complex}[v["kind"]]).reshape(v["shape"])
        else:
            out[k] = v
    return out


def encode(inputs):
    import numpy as np
    out = {}
    for k, v in inputs.items():
        if isinstance(v, np.ndarray):
            kd = {"f": "f", "i": "i", "b": "b", "c": "c"}.get(v.dtype.kind)
            if kd is None:
                out[k] = repr(v)
                continue
            out[k] = dict(shape=list(v.shape), kind=kd, data=[["c", x.real, x.imag] if kd == "c" else x for x in v.ravel().tolist()])
        elif isinstance(v, (int, float, bool, str)) or v is None:
            out[k] = v
        else:
            out[k] = repr(v)
    return out


def small_model(c, extra=(), ms=1500):
    """a model with small dimensions and moderate numbers"""
    dims = [d for k, n, e, x in c.inputs if k == "array" for d in x[0] if type(d) is not int]
    ints = [e for k, n, e, x in c.inputs if k == "int"]
    reals = [e for k, n, e, x in c.inputs if k == "real"]
    for lim, big, scaled in ((3, False, True), (6, False, True), (12, False, True), (6, False, False), (12, False, False), (6, True, False), (None, True, False)):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*c.pc)
        s.add(*extra)
        if lim is not None:
            for d in dims:
                s.add(zint(d) <= lim)
            for e in ints:
                if not big:
                    s.add(e <= 2 * lim, e >= -2 * lim)
            for e in reals:
                if not big:
                    s.add(e <= 10 * lim, e >= -10 * lim)
        if scaled:
            # no tiny numbers: a replay in floating point must not be decided by rounding
            for e in reals:
                s.add(z3.Or(e == 0, e >= z3.Q(1, 8), e <= z3.Q(-1, 8)))
        if s.check() == z3.sat:
            return s.model()
    return None


def place(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__)]
    own = [f for f in fr if "SciDataTool" in f.filename]
    if os.environ.get("DV_TRACE"):
        return "\n" + "".join(traceback.format_list(fr[-8:]))
    return " (%s:%d)" % (os.path.basename(own[-1].filename), own[-1].lineno) if own else ""


def explore(con, case, L, budget=30.0, modular=True, prove_ms=6000, witnesses=6):
    """all paths of one contract case"""
    t0 = time.time()
    core.STATS.update(queries=0, solver_s=0.0, cvc5=0)
    L.contracts.clear()
    used = []
    if modular:
        for key in con.uses:
            if key in SPECS:
                L.contracts[key] = None
    work = [[]]
    res = dict(obls=[], undecided=[], paths=0, witnesses=[], models=[], assumed=[], lemmas=[], sources=[])
    deadline = t0 + budget
    while work:
        prefix = work.pop()
        if res["paths"] >= MAX_PATHS:
            res["undecided"].append("more than %d paths" % MAX_PATHS)
            break
        c = core.Ctx(prefix, prove_ms=prove_ms)
        c.deadline = deadline
        core.set_ctx(c)
        S = SymS(c, L)
        if modular:
            for key in con.uses:
                if key in SPECS:
                    L.contracts[key] = (lambda f, key: lambda *a, **kw: call_spec(f, S, key, a, kw))(SPECS[key], key)
        ended = None
        try:
            con.fn(S, **case)
        except PathEnd as e:
            ended = str(e)
        except Unsupported as e:
            res["undecided"].append("unsupported: %s%s" % (e, place(e)))
        except RecursionError:
            res["undecided"].append("recursion depth")
        except z3.Z3Exception as e:
            res["undecided"].append("solver: %s" % str(e)[:200])
        except Exception as e:
            tb_ = traceback.extract_tb(e.__traceback__)[-1]
            res["undecided"].append("contract evaluation: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb_.filename), tb_.lineno))
        res["paths"] += 1
        for o in c.obls:
            d = dict(label=o.label, status=o.status, backend=o.backend, t=round(o.t, 4), info=o.info, path=res["paths"])
            if o.status in ("refuted", "open", "unknown"):
                goal = getattr(o, "goal", None)
            res["obls"].append(d)
        for g, lab, st in getattr(c, "failed_goals", [])[:6]:
            if len(res["models"]) < 14 and time.time() < deadline:
                try:
                    m = small_model(c, [z3.Not(g)])
                    if m is not None:
                        i = inputs_of(c, m)
                        if i is not None:
                            res["models"].append(dict(label=lab, status=st, inputs=i))
                except Exception:
                    pass
        if ended is None and len(res["witnesses"]) < witnesses and c.inputs and time.time() < deadline:
            try:
                m = small_model(c, ms=700)
                if m is not None:
                    i = inputs_of(c, m)
                    if i is not None:
                        res["witnesses"].append(i)
            except Exception:
                pass
        res["assumed"] = sorted(set(res["assumed"]) | set(c.assumed))
        res["lemmas"] = sorted(set(res["lemmas"]) | set(c.ghost.get("lemmas", ())))
        work.extend(c.alts)
        if time.time() > deadline:
            if work:
                res["undecided"].append("time budget exhausted with %d paths left" % len(work))
            break
    core.set_ctx(None)
    L.contracts.clear()
    res["stats"] = dict(core.STATS)
    res["wall"] = round(time.time() - t0, 2)
    res["modular"] = modular
    return res


def call_spec(f, S, key, a, kw):
    saved = S.L.contracts.pop(key, None)
    try:
        return f(S, *a, **kw)
    finally:
        S.L.contracts[key] = saved


def decided(r):
    return not r["undecided"] and r["obls"] and all(o["status"] == "proved" for o in r["obls"])


# ------------------------------------------------------------------------------------------------ concrete side
class Timeout(BaseException):
    pass


def run_concrete(con, case, rng, given=None, limit=10, size=None):
    """one evaluation of the contract on the real code: ('ok'|'skip'|'fail'|'error', detail, inputs)"""
    import numpy as np
    S = ConS(rng, given, size=size)

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with np.errstate(all="ignore"):
            con.fn(S, **case)
    except Skip as e:
        return "skip", str(e), S
    except Timeout:
        return "timeout", "no answer within %s s" % limit, S
    except Exception as e:
        if S.failed:
            return "fail", "; ".join(S.failed), S
        tb_ = traceback.extract_tb(e.__traceback__)[-1]
        return "error", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:300], os.path.basename(tb_.filename), tb_.lineno), S
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if S.failed:
        return "fail", "; ".join(S.failed), S
    return "ok", "", S


def concrete(con, case, seed, n, budget, models=(), witnesses=()):
    t0 = time.time()
    out = dict(ok=0, skip=0, error=[], fail=[], replayed=[], witness_ok=0, witness_bad=[], evals=0, timeout=0)
    rng = random.Random("%s/%s/%s" % (seed, con.name, json.dumps(case, sort_keys=True, default=str)))
    for m in models:
        st, det, S = run_concrete(con, case, random.Random(1), decode(m["inputs"]))
        out["replayed"].append(dict(label=m["label"], result=st, detail=det[:400]))
        if st == "fail":
            out["fail"].append(dict(detail=det, inputs=m["inputs"], source="counter-model of %s" % m["label"]))
    for w in witnesses:
        st, det, S = run_concrete(con, case, random.Random(1), decode(w))
        if st == "ok":
            out["witness_ok"] += 1
            out["evals"] += S.nensure
        elif st == "fail":
            out["fail"].append(dict(detail=det, inputs=w, source="path witness"))
        elif st == "error":
            out["witness_bad"].append(det[:200])
    i = 0
    while i < n and time.time() - t0 < budget and len(out["fail"]) < 4:
        i += 1
        st, det, S = run_concrete(con, case, rng, size=[1, 2, 3][i % 3] if i <= 6 else None)
        if st == "ok":
            out["ok"] += 1
            out["evals"] += S.nensure
        elif st == "skip":
            out["skip"] += 1
            if i < n and out["skip"] > 20 * n:
                break
        elif st == "fail":
            out["fail"].append(dict(detail=det, inputs=encode(S.inputs), source="seeded search, seed %s" % seed))
        elif st == "timeout":
            out["timeout"] += 1
            if out["timeout"] > 1:
                break
        else:
            out["error"].append(det)
            if len(out["error"]) > 5:
                break
    out["wall"] = round(time.time() - t0, 2)
    return out


# ------------------------------------------------------------------------------------------------ task pool
def _child(conn, fn, args):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        r = fn(*args)
        conn.send(("ok", r))
    except BaseException as e:
        try:
            conn.send(("err", "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def pool(tasks, nproc=4, hard=120.0, deadline=None):
    """run [(fn, args)] in forked processes; a task past its hard limit is killed and answered ('timeout', None)"""
    ctx_ = mp.get_context("fork")
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            if deadline and time.time() > deadline:
                res[i] = ("timeout", "not started: check budget exhausted")
                continue
            a, b = ctx_.Pipe(False)
            p = ctx_.Process(target=_child, args=(b, tasks[i][0], tasks[i][1]), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if not live:
            continue
        mp.connection.wait([v[1] for v in live.values()], timeout=0.2)
        for i in list(live):
            p, a, t = live[i]
            done = None
            if a.poll():
                try:
                    done = a.recv()
                except (EOFError, OSError):
                    done = ("err", "worker died")
            elif not p.is_alive():
                done = ("err", "worker died with exit code %s" % p.exitcode)
            elif time.time() - t > hard or (deadline and time.time() > deadline + 5):
                p.kill()
                done = ("timeout", "killed after %.0f s" % (time.time() - t))
            if done is not None:
                res[i] = done
                p.join(2)
                if p.is_alive():
                    p.kill()
                a.close()
                del live[i]
    return res


import multiprocessing.connection  # noqa: E402
