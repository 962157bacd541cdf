"""Symbolic scalars, path exploration and the solver interface.

Numbers are mathematical: Python/numpy floats are treated as exact reals (a float literal stands for the decimal
it is written as), integers are unbounded.  See DESIGN.md, "Assumptions".
"""
import sys, time, math, os
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3
from . import poly


class PathEnd(BaseException):
    """the current path is finished (loop body checked, or path infeasible)"""


class Unsupported(BaseException):
    """the code uses something outside the verified subset: the obligation is undecided"""


CTX = None  # current Ctx


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


PLAIN = {"pi", "invariants", "lemmas", "index_hook", "aggdone", "trigdone"}
STATS = dict(queries=0, solver_s=0.0, cvc5=0)


class Obl:
    __slots__ = ("label", "status", "info", "model", "t", "backend", "path")

    def __init__(self, label, status, info="", model=None, t=0.0, backend="", path=()):
        self.label, self.status, self.info, self.model = label, status, info, model
        self.t, self.backend, self.path = t, backend, path


class Agg:
    """an aggregate (sum, max, ...) over a symbolic range, represented by a fresh constant"""
    __slots__ = ("op", "const", "n", "f", "cplx", "template")

    def __init__(self, op, const, n, f):
        self.op, self.const, self.n, self.f = op, const, n, f
        self.template = ctx().aggdepth > 0      # met while another aggregate was identified


class Ctx:
    def __init__(self, prefix=(), quick_ms=1500, prove_ms=8000):
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []          # path condition and definitional axioms
        self.alts = []
        self.obls = []
        self.n = 0
        self.solver = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        self.solver.set("timeout", quick_ms)
        self.prove_ms = prove_ms
        self.divs = {}        # (a.id, b.id) -> (q, r)
        self.fncache = {}
        self.nonzero = {}
        self.ratcache = {}
        self.resolve = False  # conditional terms are resolved by entailment
        self.resolved = {}
        self.aggs = []        # Agg list
        self.aggconst = {}    # identity of an aggregate -> its constant
        self.aggdepth = 0
        self.trig = []        # evaluated trigonometric arguments
        self.enums = []
        self.hints = []       # (i, n, k, j): i = k*n + j with 0<=j<n
        self.inputs = []      # declared inputs for witness construction
        self.ghost = {}
        self.deadline = None
        self.keep = []        # keep z3 asts alive so that ids stay unique
        self.assumed = []     # names of assumed library facts used
        self.depth = 0
        self.failed_goals = []
        self.assume(z3.And(PI_E > z3.RealVal("3.14159265358979"), PI_E < z3.RealVal("3.1415926535898")))
        self.ghost["pi"] = True

    def fresh(self, base, sort="real"):
        self.n += 1
        name = "%s!%d" % (base, self.n)
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](name)

    def use(self, name):
        if name not in self.assumed:
            self.assumed.append(name)

    def assume(self, f):
        f = zbool(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def _check(self, *extra):
        self.tick()
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t
        return r

    def decide(self, cond):
        """branch on a symbolic condition (decision replay)"""
        if type(cond) is bool:
            return cond
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.decisions.append(v)
            if v[1]:
                self.assume(c if v[0] else z3.Not(c))
            else:
                # forced decision: remember it without asking again
                self.assume(c if v[0] else z3.Not(c))
            return v[0]
        can_t = self._check(c) != z3.unsat
        can_f = self._check(z3.Not(c)) != z3.unsat
        if not can_t and not can_f:
            raise PathEnd("infeasible")
        if can_t and can_f:
            if self.aggdepth and bound_var(c):
                # the summand is one term for every index: it cannot follow one side of a branch
                raise Unsupported("branch on a summation index")
            self.alts.append(self.decisions + [(False, True)])
            self.decisions.append((True, True))
            self.assume(c)
            return True
        v = can_t
        self.decisions.append((v, False))
        self.assume(c if v else z3.Not(c))
        return v

    def entails(self, cond):
        """quick entailment test, no split"""
        if type(cond) is bool:
            return cond
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self._check(z3.Not(c)) == z3.unsat

    # ------------------------------------------------------------------ obligations
    def solve(self, goal, ms=None):
        """is pc => goal valid?  returns (status, model, backend)"""
        self.tick()
        ms = ms or self.prove_ms
        t = time.time()
        if self.deadline:
            ms = max(200, min(ms, int((self.deadline - t) * 1000)))
        try:
            goal = z3.simplify(goal)
            if z3.is_true(goal):
                return "proved", None, "simplify"
            pc = relevant(self.pc, goal)
            sat_seen = False
            for step in ([ms] if ms <= 1000 else [700, ms]):
                s = z3.Solver()
                s.set("timeout", step)
                s.add(*pc)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return "proved", None, "z3"
                if r == z3.sat:
                    break
                s2 = z3.Then("simplify", "solve-eqs", "purify-arith", "smt").solver()
                s2.set("timeout", step)
                s2.add(*pc)
                s2.add(z3.Not(goal))
                if s2.check() == z3.unsat:
                    return "proved", None, "z3"
            # full path condition
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*self.pc)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return "proved", None, "z3"
            if r == z3.sat:
                return "refuted", s.model(), "z3"
            if ms >= 3000:
                if cvc5_unsat(s, ms):
                    return "proved", None, "cvc5"
            return "unknown", None, "z3"
        finally:
            STATS["queries"] += 1
            STATS["solver_s"] += time.time() - t

    def prove(self, goal, label, hint=None):
        """discharge one obligation and record the outcome"""
        t = time.time()
        st, m, be, info = self.prove_quiet(goal)
        if st != "proved" and label.startswith(("loop invariant", "lemma")):
            st = "unknown"      # an auxiliary fact that is not inductive says nothing about the property
        self.obls.append(Obl(label, st, info, m, time.time() - t, be, [d[0] for d in self.decisions]))
        if st != "proved":
            self.failed_goals.append((goal, label, st))
        return st == "proved"

    def prove_quiet(self, goal, depth=0):
        goal = zbool(goal)
        incomplete = bool(self.aggs or self.trig or self.enums or self.fncache or set(self.ghost) - PLAIN)
        st, m, be = self.solve(goal, None if not incomplete else max(1500, self.prove_ms // 3))
        info = ""
        if st == "proved":
            return st, m, be, info
        if incomplete:
            for strat in (self._agg_pairs, self._agg_lemmas, self._trig_lemmas, self._enum_lemmas):
                self.depth += 1
                try:
                    added = strat(goal, depth)
                finally:
                    self.depth -= 1
                if added:
                    st2, m2, be2 = self.solve(goal)
                    if st2 == "proved":
                        return st2, m2, be2, strat.__name__
                    st, m = st2, m2
            if st == "refuted":
                # the model interprets assumed functions freely: only a replay can confirm it
                return "open", m, be, "counter-model of an uninterpreted term"
        return st, m, be, info

    # ----- lemma instantiation
    def _agg_pairs(self, goal, depth):
        """aggregates the goal itself compares come first"""
        if depth > 3 or len(self.aggs) < 3:
            return False
        return self._agg_lemmas(goal, depth, syms(goal))

    def _agg_lemmas(self, goal, depth, only=None):
        if depth > 3 or len(self.aggs) < 2:
            return False
        names = set()
        collect(goal, names)
        # close over definitions mentioned
        for f in relevant(self.pc, goal):
            collect(f, names)
        live = [a for a in self.aggs if not a.template]
        rel = [a for a in live if str(a.const) in only] if only is not None else live if len(live) <= 10 and not depth else [a for a in live if str(a.const) in names]
        done = self.ghost.setdefault("aggdone", set())
        added = False
        for i in range(len(rel)):
            for j in range(i + 1, len(rel)):
                a, b = rel[i], rel[j]
                key = (str(a.const), str(b.const), depth)
                if key in done or a.op != b.op:
                    continue
                done.add(key)
                if self.entails(a.const == b.const):
                    added = added or depth == 0
                    continue
                if not self.entails(s_eq_z(a.n, b.n)):
                    if self.solve(s_eq_z(a.n, b.n), 1000)[0] != "proved":
                        if a.op == "sum" and depth <= 1:
                            added = self._step_lemma(a, b) or added
                        continue
                k = self.fresh("k", "int")
                rng = z3.And(k >= 0, k < zint(a.n))
                if self.entails(zint(a.n) > 0):
                    # a fresh index in a non-empty range is a conservative extension
                    self.assume(rng)
                fa, fb = a.f(SInt(k)), b.f(SInt(k))
                g = z3.Implies(rng, zreal(fa) == zreal(fb))
                st = self.prove_quiet(g, depth + 1)[0]
                if st == "proved":
                    self.assume(a.const == b.const)
                    added = True
                    continue
                if a.op == "sum":
                    g = z3.Implies(rng, zreal(fa) == -zreal(fb))
                    if self.solve(g, 1000)[0] == "proved":
                        self.assume(a.const == -b.const)
                        added = True
        return added

    def _step_lemma(self, a, b):
        """sums of the same summand over k and k+1 terms differ by the last one"""
        if self.entails(zint(b.n) == zint(a.n) + 1):
            a, b = b, a
        elif not self.entails(zint(a.n) == zint(b.n) + 1):
            return False
        k = self.fresh("k", "int")
        g = z3.Implies(z3.And(k >= 0, k < zint(b.n)), zreal(a.f(SInt(k))) == zreal(b.f(SInt(k))))
        if self.solve(g, 1000)[0] != "proved":
            return False
        self.assume(z3.Implies(zint(b.n) >= 0, a.const == b.const + zreal(a.f(mk_int(zint(b.n))))))
        self.ghost.setdefault("lemmas", set()).add("last")
        return True

    def _trig_lemmas(self, goal, depth):
        tr = self.trig
        if len(tr) < 2 or len(tr) > 40:
            return False
        done = self.ghost.setdefault("trigdone", set())
        added = False
        for i in range(len(tr)):
            for j in range(i + 1, len(tr)):
                if (i, j) in done:
                    continue
                done.add((i, j))
                a, b = tr[i], tr[j]
                self.assume(z3.Implies(a == -b, z3.And(COS(a) == COS(b), SIN(a) == -SIN(b))))
                turn = [a == b]
                if "pi" in syms(a) or "pi" in syms(b):
                    turn += [a == b + 2 * PI_E, a == b - 2 * PI_E]
                self.assume(z3.Implies(z3.Or(*turn), z3.And(COS(a) == COS(b), SIN(a) == SIN(b))))
                added = True
        return added

    def _enum_lemmas(self, goal, depth):
        added = False
        for e in self.enums:
            added = e.instantiate() or added
        return added


def bound_var(e):
    """the term mentions the index of an aggregate"""
    names = set()
    collect(e, names)
    return any(n.startswith("bk!") for n in names)


def collect(f, out, seen=None):
    seen = seen if seen is not None else set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())


_symcache = {}


def syms(f):
    i = f.get_id()
    r = _symcache.get(i)
    if r is None or r[0] is not f and not r[0].eq(f):
        o = set()
        collect(f, o)
        _symcache[i] = r = (f, o)
    return r[1]


def relevant(pc, goal):
    """assertions connected to the goal through shared symbols"""
    todo = list(pc)
    cur = set(syms(goal))
    out = []
    while True:
        rest = []
        for f in todo:
            s = syms(f)
            if not s or s & cur:
                out.append(f)
                cur |= s
            else:
                rest.append(f)
        if len(rest) == len(todo):
            return out
        todo = rest


def cvc5_unsat(solver, ms):
    import subprocess, shutil
    exe = shutil.which("cvc5") or "/opt/veriftools/bin/cvc5"
    if not os.path.exists(exe):
        return False
    try:
        smt = solver.to_smt2()
        p = subprocess.run([exe, "--lang=smt2", "--tlimit=%d" % ms, "-"], input="(set-logic ALL)\n" + smt,
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
        STATS["cvc5"] += 1
        return p.stdout.strip().startswith("unsat")
    except Exception:
        return False


# ---------------------------------------------------------------------- scalars
class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, self.e)

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __getitem__(self, key):
        """numpy scalars accept indices made of new axes and an ellipsis"""
        ks = key if isinstance(key, tuple) else (key,)
        if all(k is None or k is Ellipsis for k in ks):
            from . import arrays
            return arrays.asarr(self)[key]
        raise Unsupported("index of a scalar")

    def __add__(s, o): return dispatch(s_add, s, o)
    def __radd__(s, o): return dispatch(s_add, o, s)
    def __sub__(s, o): return dispatch(s_sub, s, o)
    def __rsub__(s, o): return dispatch(s_sub, o, s)
    def __mul__(s, o):
        if type(o) in (list, str, tuple):
            raise Unsupported("sequence repeated a symbolic number of times")
        return dispatch(s_mul, s, o)
    def __rmul__(s, o):
        if type(o) in (list, str, tuple):
            raise Unsupported("sequence repeated a symbolic number of times")
        return dispatch(s_mul, o, s)
    def __truediv__(s, o): return dispatch(s_div, s, o)
    def __rtruediv__(s, o): return dispatch(s_div, o, s)
    def __floordiv__(s, o): return dispatch(s_floordiv, s, o)
    def __rfloordiv__(s, o): return dispatch(s_floordiv, o, s)
    def __mod__(s, o): return dispatch(s_mod, s, o)
    def __rmod__(s, o): return dispatch(s_mod, o, s)
    def __divmod__(s, o): return (s // o, s % o)
    def __rdivmod__(s, o): return (o // s, o % s)
    def __pow__(s, o): return dispatch(s_pow, s, o)
    def __rpow__(s, o): return dispatch(s_pow, o, s)
    def __neg__(s): return s_neg(s)
    def __pos__(s): return s
    def __abs__(s): return s_abs(s)
    def __eq__(s, o): return dispatch_cmp(s_eq, s, o, False)
    def __ne__(s, o): return dispatch_cmp(s_ne, s, o, True)
    def __lt__(s, o): return dispatch(s_lt, s, o)
    def __le__(s, o): return dispatch(s_le, s, o)
    def __gt__(s, o): return dispatch(s_gt, s, o)
    def __ge__(s, o): return dispatch(s_ge, s, o)

    # numpy scalar protocol
    ndim = 0
    shape = ()
    size = 1

    def conj(s): return s_conj(s)
    conjugate = conj
    def copy(s): return s
    def item(s): return s
    def __copy__(s): return s
    def __deepcopy__(s, memo): return s

    def __round__(s, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return s_round(s)

    def __getstate__(s):
        raise Unsupported("pickle of a symbolic value")


def dispatch(f, a, b):
    if is_num(a) and is_num(b):
        return f(a, b)
    for x in (a, b):
        if hasattr(x, "_dv_array"):
            return x._dv_binop(f, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        from . import arrays
        return arrays.asarr(a)._dv_binop(f, arrays.asarr(a), arrays.asarr(b)) if False else NotImplemented
    return NotImplemented


def dispatch_cmp(f, a, b, default):
    if b is None or isinstance(b, (str, dict)) or a is None or isinstance(a, (str, dict)):
        return default
    r = dispatch(f, a, b)
    if r is NotImplemented:
        return default
    return r


class SBool(Sym):
    __slots__ = ()
    __class__ = property(lambda s: bool)

    def __bool__(s): return ctx().decide(s.e)
    def __and__(s, o): return dispatch(s_and, s, o)
    __rand__ = __and__
    def __or__(s, o): return dispatch(s_or, s, o)
    __ror__ = __or__
    def __invert__(s): return s_not(s)
    def __xor__(s, o): return s_ne(s, o)
    def __index__(s): raise Unsupported("index of symbolic bool")
    dtype = property(lambda s: _dtype("b"))
    real = property(lambda s: s)


class SInt(Sym):
    __slots__ = ()
    __class__ = property(lambda s: int)

    def __bool__(s): return ctx().decide(s.e != 0)
    def __index__(s):
        v = const_int(s)
        if v is not None:
            return v
        raise Unsupported("symbolic int used where a concrete int is needed")
    def __int__(s): return s.__index__()
    def __float__(s): raise Unsupported("float() of symbolic int reached C code")
    def is_integer(s): return True
    dtype = property(lambda s: _dtype("i"))
    real = property(lambda s: s)
    imag = property(lambda s: 0)
    numerator = property(lambda s: s)
    def astype(s, k): return s_cast(s, kind_of_dtype(k))


class SReal(Sym):
    __slots__ = ()
    __class__ = property(lambda s: float)

    def __bool__(s): return ctx().decide(s.e != 0)
    def __float__(s): raise Unsupported("float() of symbolic real reached C code")
    def __int__(s): raise Unsupported("int() of symbolic real reached C code")
    def is_integer(s): return SBool(z3.IsInt(s.e))
    dtype = property(lambda s: _dtype("f"))
    real = property(lambda s: s)
    imag = property(lambda s: 0)
    def astype(s, k): return s_cast(s, kind_of_dtype(k))


class SCplx(Sym):
    __slots__ = ("re", "im")
    __class__ = property(lambda s: complex)

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return "<SCplx %s %s>" % (self.re, self.im)

    def __bool__(s): return bool(s_or(s_ne(s.re, 0), s_ne(s.im, 0)))
    dtype = property(lambda s: _dtype("c"))
    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)


class SMaybe(Sym):
    """a real that is nan when .nan holds"""
    __slots__ = ("nan", "v")
    __class__ = property(lambda s: float)

    def __init__(self, nan, v):
        self.nan, self.v = nan, v

    def __repr__(self):
        return "<SMaybe nan=%s %s>" % (self.nan, self.v)

    def __bool__(s): raise Unsupported("truth of maybe-nan")
    dtype = property(lambda s: _dtype("f"))
    real = property(lambda s: s)
    imag = property(lambda s: 0)


def _dtype(k):
    from . import arrays
    return arrays.DTYPES[k]


def kind_of_dtype(d):
    from . import arrays
    return arrays.dkind(d)


def _defer(name):
    """a Fraction leaves an operation with a symbolic number to that number (it would read it as a float)"""
    f = getattr(Fraction, name)

    def g(a, b):
        return NotImplemented if issubclass(type(b), Sym) else f(a, b)
    setattr(Fraction, name, g)


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "divmod", "pow", "eq", "lt", "le", "gt", "ge"):
    _defer("__%s__" % _n)

NUMT = (bool, int, float, Fraction, complex)


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def is_num(x):
    t = type(x)
    if issubclass(t, Sym) or t in NUMT:
        return True
    return t.__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0


def norm(x):
    """canonical python number: Fraction/int/bool, or Sym, or float nan/inf"""
    t = type(x)
    if issubclass(t, Sym) or t in (int, bool, Fraction):
        return x
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            return x
        return Fraction(repr(x))
    if t is complex:
        return SCplx(norm(x.real), norm(x.imag))
    if t.__module__ == "numpy" and hasattr(x, "item"):
        return norm(x.item())
    raise Unsupported("not a number: %r" % (x,))


def kind(x):
    t = type(x)
    if t in (bool, SBool):
        return "b"
    if t in (int, SInt):
        return "i"
    if t in (float, Fraction, SReal, SMaybe):
        return "f"
    if t in (complex, SCplx):
        return "c"
    if t.__module__ == "numpy" and hasattr(x, "item"):
        return kind(x.item())
    raise Unsupported("kind of %r" % (t,))


def isnan_py(x):
    return type(x) is float and x != x


def zreal(x):
    x = norm(x)
    t = type(x)
    if t is SReal:
        return x.e
    if t is SInt:
        return z3.ToReal(x.e)
    if t is SBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if t is bool:
        return z3.RealVal(int(x))
    if t is int:
        return z3.RealVal(x)
    if t is Fraction:
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator))
    raise Unsupported("not a finite real: %r" % (x,))


def zint(x):
    x = norm(x)
    t = type(x)
    if t is SInt:
        return x.e
    if t is SBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t in (int, bool):
        return z3.IntVal(int(x))
    if t is Fraction and x.denominator == 1:
        return z3.IntVal(int(x))
    raise Unsupported("not an integer: %r" % (x,))


def zbool(x):
    t = type(x)
    if t is SBool:
        return x.e
    if t is bool:
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if t is SInt:
        return x.e != 0
    if t is SReal:
        return x.e != 0
    if t is int:
        return z3.BoolVal(bool(x))
    if t.__name__ == "bool_":
        return z3.BoolVal(bool(x))
    raise Unsupported("not a condition: %r" % (t,))


def const_int(x):
    if type(x) is int:
        return x
    if type(x) is bool:
        return int(x)
    if type(x) is SInt:
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return e.as_long()
    return None


def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    ctx() and ctx().keep.append(e)
    return SInt(e)


def mk_real(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    ctx() and ctx().keep.append(e)
    return SReal(e)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def has_nan(*xs):
    return any(isnan_py(x) or type(x) is SMaybe for x in xs)


def split_nan(x):
    if isnan_py(x):
        return True, 0
    if type(x) is SMaybe:
        return x.nan, x.v
    return False, x


def mk_maybe(nan, v):
    if nan is False:
        return v
    if nan is True:
        return float("nan")
    return SMaybe(nan, v)


def _lift_nan2(f):
    def g(a, b):
        a, b = norm(a), norm(b)
        if has_nan(a, b):
            if kind(a) == "c" or kind(b) == "c":
                raise Unsupported("nan and complex")
            na, va = split_nan(a)
            nb, vb = split_nan(b)
            n = s_or(na, nb)
            if n is True:
                return float("nan")
            return mk_maybe(n, f(va, vb))
        return f(a, b)
    g.__name__ = f.__name__
    return g


def _lift_nan_cmp(val):
    def deco(f):
        def g(a, b):
            a, b = norm(a), norm(b)
            if has_nan(a, b):
                na, va = split_nan(a)
                nb, vb = split_nan(b)
                n = s_or(na, nb)
                if n is True:
                    return val
                r = f(va, vb)
                return s_or(n, r) if val else s_and(s_not(n), r)
            return f(a, b)
        g.__name__ = f.__name__
        return g
    return deco


def cx(x):
    """(re, im) of a number"""
    x = norm(x)
    if type(x) is SCplx:
        return x.re, x.im
    return x, 0


def mk_cplx(re, im):
    return SCplx(norm(re), norm(im))


def _arith(name, pyop, zop):
    def f(a, b):
        ta, tb = type(a), type(b)
        if ta is SCplx or tb is SCplx:
            (ar, ai), (br, bi) = cx(a), cx(b)
            if name == "add":
                return mk_cplx(s_add(ar, br), s_add(ai, bi))
            if name == "sub":
                return mk_cplx(s_sub(ar, br), s_sub(ai, bi))
            return mk_cplx(s_sub(s_mul(ar, br), s_mul(ai, bi)), s_add(s_mul(ar, bi), s_mul(ai, br)))
        if ta in (int, bool, Fraction) and tb in (int, bool, Fraction):
            if ta is bool and tb is bool:
                a = int(a)
            return pyop(a, b)
        if ta is float or tb is float:
            raise Unsupported("infinite value in arithmetic")
        # identities keep the terms small and decide sharing
        if name == "add":
            if ta in (int, Fraction) and a == 0 and kind(b) != "b":
                return b if ta is int or kind(b) == "f" else s_cast(b, "f")
            if tb in (int, Fraction) and b == 0 and kind(a) != "b":
                return a if tb is int or kind(a) == "f" else s_cast(a, "f")
        elif name == "sub":
            if tb in (int, Fraction) and b == 0 and kind(a) != "b":
                return a if tb is int or kind(a) == "f" else s_cast(a, "f")
        elif name == "mul":
            if ta is int and a == 1 and kind(b) != "b":
                return b
            if tb is int and b == 1 and kind(a) != "b":
                return a
            if ta is Fraction and a == 1 and kind(b) == "f":
                return b
            if tb is Fraction and b == 1 and kind(a) == "f":
                return a
            if (ta in (int, Fraction) and a == 0) or (tb in (int, Fraction) and b == 0):
                return 0 if kind(a) in "bi" and kind(b) in "bi" else Fraction(0)
        if kind(a) in "bi" and kind(b) in "bi":
            return mk_int(zop(zint(a), zint(b)))
        return mk_real(zop(zreal(a), zreal(b)))
    f.__name__ = "s_" + name
    return _lift_nan2(f)


s_add = _arith("add", lambda a, b: a + b, lambda a, b: a + b)
s_sub = _arith("sub", lambda a, b: a - b, lambda a, b: a - b)
s_mul = _arith("mul", lambda a, b: a * b, lambda a, b: a * b)


@_lift_nan2
def s_div(a, b):
    ta, tb = type(a), type(b)
    if tb is SCplx:
        br, bi = cx(b)
        d = s_add(s_mul(br, br), s_mul(bi, bi))
        (ar, ai) = cx(a)
        if type(br) in (int, Fraction) and br == 0:
            # a / (j*bi) = (ai - j ar)/bi : avoids a quotient of squares
            return mk_cplx(s_div(ai, bi), s_neg(s_div(ar, bi)))
        return mk_cplx(s_div(s_add(s_mul(ar, br), s_mul(ai, bi)), d), s_div(s_sub(s_mul(ai, br), s_mul(ar, bi)), d))
    if ta is SCplx:
        return mk_cplx(s_div(a.re, b), s_div(a.im, b))
    if tb in (int, bool, Fraction):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if ta in (int, bool, Fraction):
            return Fraction(a) / Fraction(b)
        return mk_real(zreal(a) / zreal(b))
    if ta is float or tb is float:
        raise Unsupported("infinite value in division")
    if type(a) in (int, Fraction) and a == 0:
        return Fraction(0)
    ea, eb = zreal(a), zreal(b)
    q = exact_quotient(ea, eb)
    return mk_real(ea / eb) if q is None else mk_real(q)


def exact_quotient(ea, eb):
    """polynomial quotient when the division is exact and the divisor is known to be non-zero"""
    c = ctx()
    if c is None:
        return None
    pa, at = poly.poly(ea)
    pb, at2 = poly.poly(eb)
    if not pa or not pb:
        return None
    q = poly.divide(pa, pb)
    d = None
    if q is None:
        q, d = poly.cancel(pa, pb)
        if q is None:
            return None
    key = z3.simplify(eb)
    if key.get_id() not in c.nonzero:
        c.keep.append(key)
        c.nonzero[key.get_id()] = c._check(eb == 0) == z3.unsat
    if not c.nonzero[key.get_id()]:
        return None
    at = {**at, **at2}
    return poly.build(q, at) if d is None else poly.build(q, at) / poly.build(d, at)


def integral(e):
    """integer term equal to the real term e, when e is a polynomial of integers"""
    p, at = poly.poly(e)
    return None if p is None else poly.build(p, at, "int")


def py_div(a, b):
    return s_div(a, b)


def _divmod_int(a, b):
    """floor division with remainder of symbolic integers"""
    c = ctx()
    cb = const_int(b)
    ea, eb = z3.simplify(zint(a)), z3.simplify(zint(b))
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if cb > 0:
            return mk_int(ea / eb), mk_int(ea % eb)
    key = (ea.get_id(), eb.get_id())
    if key in c.divs:
        return c.divs[key][:2]
    if c.decide(eb == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    c.keep += [ea, eb]
    q, r = c.fresh("q", "int"), c.fresh("r", "int")
    c.assume(ea == q * eb + r)
    c.assume(z3.Implies(eb > 0, z3.And(0 <= r, r < eb)))
    c.assume(z3.Implies(eb < 0, z3.And(eb < r, r <= 0)))
    # small sound facts the solver does not find by itself
    c.assume(z3.Implies(z3.And(eb > 0, 0 <= ea, ea < eb), z3.And(q == 0, r == ea)))
    c.assume(z3.Implies(z3.And(eb > 0, ea >= 0), q >= 0))
    c.divs[key] = (SInt(q), SInt(r), ea, eb)
    for h in list(c.hints):
        div_hint(c, ea, eb, q, r, h)
    return SInt(q), SInt(r)


def div_hint(c, ea, eb, q, r, h):
    q2, r2 = h
    c.assume(z3.Implies(z3.And(eb > 0, ea == q2 * eb + r2, 0 <= r2, r2 < eb), z3.And(q == q2, r == r2)))


def add_hint(q2, r2):
    """candidate quotient/remainder for every symbolic division (uniqueness of Euclidean division)"""
    c = ctx()
    h = (zint(q2), zint(r2))
    c.hints.append(h)
    for (q, r, ea, eb) in c.divs.values():
        div_hint(c, ea, eb, q.e, r.e, h)


def s_floordiv(a, b):
    a, b = norm(a), norm(b)
    if type(a) in (int, bool, Fraction) and type(b) in (int, bool, Fraction):
        r = a // b
        return r if kind(a) != "f" and kind(b) != "f" else Fraction(r)
    if kind(a) in "bi" and kind(b) in "bi":
        return _divmod_int(a, b)[0]
    return s_cast(s_floor(s_div(a, b)), "f")


def s_mod(a, b):
    a, b = norm(a), norm(b)
    if type(a) in (int, bool, Fraction) and type(b) in (int, bool, Fraction):
        return a % b
    if kind(a) in "bi" and kind(b) in "bi":
        return _divmod_int(a, b)[1]
    q = s_floor(s_div(a, b))
    r = s_sub(a, s_mul(b, q))
    if kind(r) == "f" and is_sym(r):
        ea, eb, er = zreal(a), zreal(b), zreal(r)
        if not bound_var(er):
            # sound facts the solver does not find by itself
            c = ctx()
            c.assume(z3.Implies(eb > 0, z3.And(er >= 0, er < eb)))
            c.assume(z3.Implies(z3.And(ea >= 0, ea < eb), er == ea))
            c.assume(z3.Implies(z3.And(ea >= eb, ea < 2 * eb, eb > 0), er == ea - eb))
            c.assume(z3.Implies(z3.And(ea < 0, ea >= -eb), er == ea + eb))
    return r


def s_floor(x):
    """largest integer not above x (an int)"""
    x = norm(x)
    if kind(x) in "bi":
        return x
    if type(x) is Fraction:
        return x.numerator // x.denominator
    k = integral(zreal(x))
    return mk_int(z3.ToInt(zreal(x)) if k is None else k)


def s_ceil(x):
    return s_neg(s_floor(s_neg(x)))


def s_round(x):
    """nearest integer, ties to even"""
    x = norm(x)
    if kind(x) in "bi":
        return x
    if type(x) is Fraction:
        return round(x)
    k = integral(zreal(x))
    if k is not None:
        return mk_int(k)
    f = z3.ToInt(zreal(x))
    d = zreal(x) - z3.ToReal(f)
    h = z3.RealVal("1/2")
    return mk_int(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def s_trunc(x):
    x = norm(x)
    if kind(x) in "bi":
        return x
    if type(x) is Fraction:
        return int(x)
    if isnan_py(x):
        raise ValueError("cannot convert float NaN to integer")
    e = zreal(x)
    k = integral(e)
    if k is not None:
        return mk_int(k)
    return mk_int(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def s_neg(x):
    x = norm(x)
    t = type(x)
    if t in (int, bool, Fraction):
        return -x
    if t is float:
        return -x
    if t is SMaybe:
        return SMaybe(x.nan, s_neg(x.v))
    if t is SCplx:
        return mk_cplx(s_neg(x.re), s_neg(x.im))
    if t is SInt:
        return mk_int(-x.e)
    return mk_real(-zreal(x))


def s_conj(x):
    x = norm(x)
    if type(x) is SCplx:
        return mk_cplx(x.re, s_neg(x.im))
    return x


def s_abs(x):
    x = norm(x)
    t = type(x)
    if t in (int, bool, Fraction):
        return abs(x)
    if t is float:
        return abs(x)
    if t is SMaybe:
        return SMaybe(x.nan, s_abs(x.v))
    if t is SCplx:
        if type(x.im) in (int, Fraction) and x.im == 0:
            return s_abs(s_cast(x.re, "f"))
        return s_sqrt(s_add(s_mul(x.re, x.re), s_mul(x.im, x.im)))
    if t is SInt:
        return mk_int(z3.If(x.e >= 0, x.e, -x.e))
    e = zreal(x)
    return mk_real(z3.If(e >= 0, e, -e))


def s_pow(a, b):
    a, b = norm(a), norm(b)
    if type(b) is Fraction and b.denominator == 1:
        isint = False
        bi = int(b)
    elif type(b) in (int, bool):
        isint, bi = True, int(b)
    else:
        isint, bi = False, None
    if bi is not None and abs(bi) <= 64:
        if type(a) in (int, bool, Fraction):
            if bi < 0:
                return Fraction(1) / Fraction(a) ** (-bi)
            return a ** bi if isint else Fraction(a) ** bi
        if bi == 0:
            return 1 if kind(a) in "bi" and isint else Fraction(1)
        r = a
        for _ in range(abs(bi) - 1):
            r = s_mul(r, a)
        if bi < 0:
            r = s_div(1, r)
        return r if isint or kind(r) != "i" else s_cast(r, "f")
    if type(b) is Fraction and b == Fraction(1, 2):
        return s_sqrt(a)
    if type(a) is int and a == -1 and kind(b) in "bi":
        return s_ite(s_eq(s_mod(b, 2), 0), 1, -1)
    if type(a) in (int, Fraction) and a == 10 or type(a) is float and a == 10.0:
        return s_fun("pow10", b)
    if type(a) in (int, Fraction) and type(b) in (int, Fraction):
        raise Unsupported("power %s ** %s" % (a, b))
    raise Unsupported("symbolic power")


def s_eq_z(a, b):
    return zbool(s_eq(a, b))


def _cmp(name, pyop, zop):
    def f(a, b):
        ta, tb = type(a), type(b)
        if ta is SCplx or tb is SCplx:
            (ar, ai), (br, bi) = cx(a), cx(b)
            if name == "eq":
                return s_and(s_eq(ar, br), s_eq(ai, bi))
            if name == "ne":
                return s_or(s_ne(ar, br), s_ne(ai, bi))
            # numpy compares complex numbers lexicographically
            return s_or(_strict(name)(ar, br), s_and(s_eq(ar, br), _B[name](ai, bi)))
        if not issubclass(ta, Sym) and not issubclass(tb, Sym):
            return bool(pyop(a, b))
        if ta is float or tb is float:
            # comparison of a finite symbol with an infinity
            if name in ("eq", "ne"):
                return name == "ne"
            inf = a if ta is float else b
            return bool(pyop(a if ta is float else 0, b if tb is float else 0))
        if ta is SBool and tb in (SBool, bool) and name in ("eq", "ne"):
            e = zbool(a) == zbool(b)
            return mk_bool(e if name == "eq" else z3.Not(e))
        if tb is SBool and ta is bool and name in ("eq", "ne"):
            e = zbool(a) == zbool(b)
            return mk_bool(e if name == "eq" else z3.Not(e))
        if kind(a) in "bi" and kind(b) in "bi":
            return mk_bool(zop(zint(a), zint(b)))
        return mk_bool(zop(zreal(a), zreal(b)))
    f.__name__ = "s_" + name
    return _lift_nan_cmp(name == "ne")(f)


import operator as _op
s_eq = _cmp("eq", _op.eq, lambda a, b: a == b)
s_ne = _cmp("ne", _op.ne, lambda a, b: a != b)
s_lt = _cmp("lt", _op.lt, lambda a, b: a < b)
s_le = _cmp("le", _op.le, lambda a, b: a <= b)
s_gt = _cmp("gt", _op.gt, lambda a, b: a > b)
s_ge = _cmp("ge", _op.ge, lambda a, b: a >= b)
_B = dict(lt=s_lt, le=s_le, gt=s_gt, ge=s_ge)


def _strict(name):
    return s_lt if name in ("lt", "le") else s_gt


def tb(x):
    """condition of a scalar: bool or SBool"""
    t = type(x)
    if t in (bool, SBool):
        return x
    if t.__name__ == "bool_":
        return bool(x)
    return s_ne(x, 0)


def s_not(a):
    a = tb(a)
    return (not a) if type(a) is bool else mk_bool(z3.Not(a.e))


def s_and(*xs):
    out = []
    for x in xs:
        x = tb(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x.e)
    if not out:
        return True
    return mk_bool(z3.And(*out)) if len(out) > 1 else SBool(out[0])


def s_or(*xs):
    out = []
    for x in xs:
        x = tb(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x.e)
    if not out:
        return False
    return mk_bool(z3.Or(*out)) if len(out) > 1 else SBool(out[0])


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_ite(c, a, b):
    c = tb(c)
    if c is True:
        return a
    if c is False:
        return b
    if not (is_num(a) and is_num(b)):
        if a is b or (type(a) is str and a == b):
            return a
        raise Unsupported("conditional value of a non-number")
    a, b = norm(a), norm(b)
    if has_nan(a, b):
        na, va = split_nan(a)
        nb, vb = split_nan(b)
        if na is True:
            va = vb
        if nb is True:
            vb = va
        return mk_maybe(s_ite(c, na, nb), s_ite(c, va, vb))
    ka, kb = kind(a), kind(b)
    if ka == "c" or kb == "c":
        (ar, ai), (br, bi) = cx(a), cx(b)
        return mk_cplx(s_ite(c, ar, br), s_ite(c, ai, bi))
    if not is_sym(a) and not is_sym(b) and ka == kb and a == b:
        return a
    if type(a) is float or type(b) is float:
        raise Unsupported("conditional infinity")
    if ctx() is not None and ctx().resolve:
        # the contract has split the cases: take the branch the path condition selects
        k = ctx()
        e = z3.simplify(c.e)
        key = (e.get_id(), len(k.pc))
        if key not in k.resolved:
            k.keep.append(e)
            k.resolved[key] = 1 if k.entails(e) else 2 if k.entails(z3.Not(e)) else 0
        if k.resolved[key]:
            return a if k.resolved[key] == 1 else b
    if ka == "b" and kb == "b":
        return mk_bool(z3.If(c.e, zbool(a), zbool(b)))
    if ka in "bi" and kb in "bi":
        return mk_int(z3.If(c.e, zint(a), zint(b)))
    return mk_real(z3.If(c.e, zreal(a), zreal(b)))


def s_max(a, b):
    return s_ite(s_ge(a, b), a, b)


def s_min(a, b):
    return s_ite(s_le(a, b), a, b)


def s_cast(x, k):
    """value as stored in an array of kind k"""
    x = norm(x)
    kx = kind(x)
    if kx == k:
        return x
    if k == "b":
        return tb(x)
    if k == "i":
        if kx == "b":
            return int(x) if type(x) is bool else SInt(zint(x))
        if kx == "f":
            return s_trunc(x)
        raise TypeError("can't convert complex to int")
    if k == "f":
        if kx == "c":
            return s_cast(x.re, "f")      # numpy drops the imaginary part with a warning
        if type(x) in (int, bool):
            return Fraction(int(x))
        return SReal(zreal(x))
    if k == "c":
        return mk_cplx(s_cast(x, "f"), Fraction(0))
    raise Unsupported("cast to %s" % k)


# ---------------------------------------------------------------------- functions with assumed properties
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
FUN = {}
PI_E = z3.Real("pi")


class _Pi:
    pass


def PI():
    c = ctx()
    if c is not None and "pi" not in c.ghost:
        c.ghost["pi"] = True
        c.assume(z3.And(PI_E > z3.RealVal("3.14159265358979"), PI_E < z3.RealVal("3.1415926535898")))
    return SReal(PI_E)


def zfun(name):
    if name not in FUN:
        FUN[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return FUN[name]


def s_sqrt(x):
    x = norm(x)
    if type(x) is SCplx:
        raise Unsupported("complex square root")
    if type(x) in (int, bool, Fraction):
        f = Fraction(x)
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
    if type(x) is SMaybe:
        return SMaybe(x.nan, s_sqrt(x.v))
    c = ctx()
    e = z3.simplify(zreal(x), som=True)
    key = ("sqrt", e.get_id())
    if key not in c.fncache:
        c.keep.append(e)
        F = zfun("sqrt")
        s = F(e)
        c.assume(z3.Implies(e >= 0, z3.And(s >= 0, s * s == e)))
        c.fncache[key] = s
    return SReal(c.fncache[key])


def s_cos(x):
    return _trig(x)[0]


def s_sin(x):
    return _trig(x)[1]


def _trig(x):
    x = norm(x)
    if kind(x) == "c":
        raise Unsupported("complex trigonometry")
    if type(x) in (int, bool, Fraction) and x == 0:
        return Fraction(1), Fraction(0)
    c = ctx()
    sg, e = ratnorm(zreal(x))
    if z3.is_rational_value(e) and e.numerator_as_long() == 0:
        return Fraction(1), Fraction(0)
    key = ("trig", e.get_id())
    if key not in c.fncache:
        c.keep.append(e)
        c.assume(COS(e) * COS(e) + SIN(e) * SIN(e) == 1)
        if has_ite(e):
            c.assume(z3.Implies(e == 0, z3.And(COS(e) == 1, SIN(e) == 0)))
        c.fncache[key] = (COS(e), SIN(e))
        c.trig.append(e)
    a, b = c.fncache[key]
    return SReal(a), (SReal(b) if sg > 0 else SReal(-b))


def has_ite(e):
    return z3.is_app(e) and (z3.is_app_of(e, z3.Z3_OP_ITE) or any(has_ite(x) for x in e.children()))


def ratnorm(e):
    """(sign, term) with e = sign * term, where equal rational functions get the same term"""
    c = ctx()
    e = z3.simplify(e)
    hit = c.ratcache.get(e.get_id())
    if hit is None:
        r = poly.canonical(e, nonzero_term)
        if r is None:
            hit = (1, z3.simplify(e, som=True))
        else:
            hit = (r[0], r[1])
            c.keep.append(r[2])
        c.keep += [e, hit[1]]
        c.ratcache[e.get_id()] = hit
    return hit


def nonzero_term(e):
    c = ctx()
    key = z3.simplify(e)
    if key.get_id() not in c.nonzero:
        c.keep.append(key)
        c.nonzero[key.get_id()] = c._check(e == 0) == z3.unsat
    return c.nonzero[key.get_id()]


def s_exp(x):
    x = norm(x)
    if type(x) is SCplx:
        co, si = _trig(x.im)
        if type(x.re) in (int, Fraction) and x.re == 0:
            return mk_cplx(co, si)
        r = s_fun("exp", x.re)
        return mk_cplx(s_mul(r, co), s_mul(r, si))
    return s_fun("exp", x)


def s_fun(name, x):
    """uninterpreted real function with the facts stated here"""
    x = norm(x)
    if type(x) is SMaybe:
        return SMaybe(x.nan, s_fun(name, x.v))
    if isnan_py(x):
        return x
    if kind(x) == "c":
        raise Unsupported("complex " + name)
    if type(x) in (int, bool, Fraction):
        if name in ("exp", "pow10") and x == 0:
            return Fraction(1)
        if name in ("log10", "log") and x == 1:
            return Fraction(0)
        if name == "pow10" and Fraction(x).denominator == 1 and abs(x) < 60:
            return Fraction(10) ** int(x)
        if name == "log10" and x > 0:
            v = round(math.log10(x))
            if Fraction(10) ** v == x:
                return Fraction(v)
    c = ctx()
    sg, e = ratnorm(zreal(x))
    e = e if sg > 0 else z3.simplify(-e, som=True)
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if v in (0, 1) and type(x) not in (int, bool, Fraction):
            return s_fun(name, v)
    F = zfun(name)
    key = (name, e.get_id())
    if key not in c.fncache:
        c.keep.append(e)
        c.fncache[key] = F(e)
        if name in ("exp", "pow10"):
            c.assume(F(e) > 0)
        if name == "log10":
            # injective and inverse of pow10
            c.assume(z3.Implies(e > 0, zfun("pow10")(F(e)) == e))
            c.assume(z3.Implies(e >= 1, F(e) >= 0))
            c.assume(z3.Implies(e == 1, F(e) == 0))
        if name == "pow10":
            c.assume(zfun("log10")(F(e)) == e)
    return SReal(c.fncache[key])


def s_arctan2(y, x):
    """angle in (-pi, pi] with r cos = x, r sin = y"""
    c = ctx()
    y, x = norm(y), norm(x)
    if not is_sym(y) and not is_sym(x) and y == 0 and x >= 0:
        return Fraction(0)
    ey, ex = z3.simplify(zreal(y), som=True), z3.simplify(zreal(x), som=True)
    key = ("atan2", ey.get_id(), ex.get_id())
    if key not in c.fncache:
        c.keep += [ey, ex]
        F = FUN.setdefault("atan2", z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort()))
        t = F(ey, ex)
        c.fncache[key] = t
        PI()
        r = zreal(s_sqrt(mk_real(ex * ex + ey * ey)))
        co, si = _trig(SReal(t))
        c.assume(z3.And(t > -PI_E, t <= PI_E))
        c.assume(z3.And(r * zreal(co) == ex, r * zreal(si) == ey))
        c.assume(z3.Implies(z3.And(ex == 0, ey == 0), t == 0))
    return SReal(c.fncache[key])


def s_sum(n, f, op="sum"):
    """sum of f(k) for 0 <= k < n"""
    cn = const_int(n)
    if cn is not None and cn <= 12:
        r = 0
        for k in range(cn):
            r = s_add(r, f(k))
        return r
    c = ctx()
    key, v = agg_key(c, "sum", n, f)
    if kind(v) == "c":
        return mk_cplx(s_sum(n, lambda k: norm(f(k)).re if type(norm(f(k))) is SCplx else f(k)),
                       s_sum(n, lambda k: norm(f(k)).im if type(norm(f(k))) is SCplx else 0))
    if type(norm(v)) in (int, Fraction, bool):
        return s_mul(norm(v), s_max(n, 0))
    if has_nan(v):
        raise Unsupported("sum of maybe-nan")
    if key in c.aggconst:
        return c.aggconst[key]
    S = c.fresh("sum", "real")
    a = Agg("sum", S, n, f)
    c.aggs.append(a)
    c.assume(z3.Implies(zint(n) <= 0, S == 0))
    if kind(v) in "bi":
        c.assume(z3.IsInt(S))
        c.aggconst[key] = mk_int(z3.ToInt(S))
    else:
        c.aggconst[key] = SReal(S)
    return c.aggconst[key]


def agg_key(c, op, n, f):
    """identity of an aggregate: its range and its summand at a bound variable (one per nesting depth)"""
    c.aggdepth += 1
    try:
        v = f(SInt(z3.Int("bk!%d" % c.aggdepth)))
    finally:
        c.aggdepth -= 1
    if kind(v) == "c" or has_nan(v) or type(norm(v)) in (int, Fraction, bool, float):
        return None, v
    e = z3.simplify(zreal(v), arith_ineq_lhs=True, sort_sums=True)
    ne = z3.simplify(zint(n))
    c.keep += [e, ne]
    return (op, c.aggdepth, ne.get_id(), e.get_id()), v


def s_ext(op, n, f):
    """max/min of f(k) for 0 <= k < n (n > 0)"""
    cn = const_int(n)
    pick = s_max if op == "max" else s_min
    if cn is not None and cn <= 8:
        if cn == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = f(0)
        for k in range(1, cn):
            r = pick(r, f(k))
        return r
    c = ctx()
    key, v = agg_key(c, op, n, f)
    if key is not None and key in c.aggconst:
        return c.aggconst[key]
    w = SInt(c.fresh("w", "int"))
    c.assume(z3.Implies(zint(n) > 0, z3.And(w.e >= 0, w.e < zint(n))))
    v = f(w)
    kv = kind(v)
    if kv == "c":
        raise Unsupported("max of complex")
    if has_nan(v):
        raise Unsupported("max of maybe-nan")
    S = c.fresh(op, "real")
    c.aggs.append(Agg(op, S, n, f))
    c.assume(z3.Implies(zint(n) > 0, S == zreal(v)))
    # the ends of the range are always instantiated; other points through bound_ext
    for k in (0, s_sub(n, 1)):
        fv = zreal(f(k))
        c.assume(z3.Implies(zint(n) > 0, (S >= fv) if op == "max" else (S <= fv)))
    c.ghost.setdefault("ext", []).append((op, S, n, f))
    c.ghost.setdefault("extw", {})[str(S)] = w
    if kv in "bi":
        c.assume(z3.IsInt(S))
        r = mk_int(z3.ToInt(S))
    else:
        r = SReal(S)
    if key is not None:
        c.aggconst[key] = r
    return r


def bound_ext(k):
    """instantiate the defining bound of every max/min at index k"""
    c = ctx()
    for (op, S, n, f) in list(c.ghost.get("ext", [])):
        fv = zreal(f(k))
        c.assume(z3.Implies(z3.And(zint(k) >= 0, zint(k) < zint(n)), (S >= fv) if op == "max" else (S <= fv)))
