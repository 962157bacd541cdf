"""The contract language: one text, two readings.

`SymS` reads a contract symbolically (every input of the declared kind, obligations sent to the solver); `ConS` reads
the same text on concrete inputs and the real functions (seeded search, replay of counter-models)."""
import contextlib, io
import itertools, math, random, importlib, traceback
from fractions import Fraction
from . import core
from .core import *
from . import arrays, symnp, strings, loader as _loader
from .arrays import ndarray as SArr, asarr

REGISTRY = []          # Contract objects
SPECS = {}             # function key -> functional specification used at call sites


class Contract:
    def __init__(self, prop, name, target, fn, cases, uses=(), bounded=False, conc=None, budget=None, note=""):
        self.prop, self.name, self.target, self.fn = prop, name, target, fn
        self.cases, self.uses, self.bounded, self.conc = cases, uses, bounded, conc
        self.budget, self.note = budget, note


def contract(prop, target, cases=None, uses=(), bounded=False, conc=None, name=None, budget=None, note=""):
    """prop: property id or list of ids; cases: list of dicts; uses: callees replaced by their contract;
    bounded: only evaluated on concrete inputs; conc: number of concrete samples per case in the quick tier"""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.append(Contract(p, name or fn.__name__, target if isinstance(target, (list, tuple)) else [target], fn, cases or [{}], uses, bounded, conc, budget, note))
        return fn
    return deco


def spec(key):
    def deco(fn):
        SPECS[key] = fn
        return fn
    return deco


class Out:
    """outcome of a call: value or exception"""
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *names):
        if self.exc is None:
            return False
        mro = [c.__name__ for c in type(self.exc).__mro__]
        return any(n in mro for n in names)

    def __repr__(self):
        return "raised %s: %s" % (type(self.exc).__name__, str(self.exc)[:200]) if self.exc is not None else "returned %s" % (short(self.value),)


def short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + "..."


def engine_place(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__) if "SciDataTool" in f.filename]
    return " (%s:%d)" % (fr[-1].filename.rsplit("/", 1)[1], fr[-1].lineno) if fr else ""


class Skip(Exception):
    """concrete inputs outside the precondition"""


class Violated(Exception):
    pass


# =============================================================================================== symbolic
class SymS:
    symbolic = True

    def __init__(self, c, L):
        self.c, self.L = c, L
        self.pi = PI()
        self.nensure = 0
        self.cur_label = ""

    # ---- inputs
    def int(self, name, lo=None, hi=None, sample=None):
        v = z3.Int(name)
        self.c.inputs.append(("int", name, v, None))
        if lo is not None:
            self.c.assume(v >= zint(lo))
        if hi is not None:
            self.c.assume(v <= zint(hi))
        return SInt(v)

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, sample=None):
        v = z3.Real(name)
        self.c.inputs.append(("real", name, v, None))
        if lo is not None:
            self.c.assume(v >= zreal(lo))
        if hi is not None:
            self.c.assume(v <= zreal(hi))
        if pos:
            self.c.assume(v > 0)
        if nonzero:
            self.c.assume(v != 0)
        return SReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.c.inputs.append(("bool", name, v, None))
        return SBool(v)

    def cplx(self, name):
        return SCplx(self.real(name + ".re"), self.real(name + ".im"))

    def word(self, name, free=(), distinct=False):
        """an arbitrary word (letters, digits, underscores, spaces) that contains none of the texts in free; distinct
        words differ from one another"""
        self.c.inputs.append(("word", name, None, None))
        if distinct:
            self.c.ghost.setdefault("distinct words", set()).add(name)
        return strings.SStr([strings.Atom("word", name, free=tuple(free))])

    def text(self, *parts):
        """text put together from literals, words and decimal texts of numbers"""
        return strings.text(parts)

    def array(self, name, shape, k="f", where=None, sample=None):
        """arbitrary array; where: predicate every element satisfies"""
        shape = tuple(shape)
        n = max(1, len(shape))
        isort = [z3.IntSort()] * n
        if k == "c":
            fr, fi = z3.Function(name + ".re", *isort, z3.RealSort()), z3.Function(name + ".im", *isort, z3.RealSort())

            def el(i):
                z = [zint(x) for x in (i or (0,))]
                return SCplx(SReal(fr(*z)), SReal(fi(*z)))
            decl = (fr, fi)
        else:
            f = z3.Function(name, *isort, {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k])
            W = {"f": SReal, "i": SInt, "b": SBool}[k]

            def el(i):
                return W(f(*[zint(x) for x in (i or (0,))]))
            decl = (f,)
        c = self.c
        if where is not None:
            raw = el

            def el(i):
                v = raw(i)
                c.assume(zbool(s_implies(s_and(*[s_and(s_ge(x, 0), s_lt(x, n_)) for x, n_ in zip(i, shape)]), where(v))))
                return v
        a = SArr.make(shape, k, el, name)
        self.c.inputs.append(("array", name, decl, (shape, k)))
        return a

    def increasing(self, name, n, strict=True, sample=None):
        """1-D increasing array"""
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        c = self.c
        seen = []

        def el(i):
            e = zint(i[0])
            v = f(e)
            if not any(e.eq(o) for o in seen):
                for o in seen:
                    lt = (lambda a, b: a < b) if strict else (lambda a, b: a <= b)
                    c.assume(z3.Implies(z3.And(0 <= o, o < e, e < zint(n)), lt(f(o), v)))
                    c.assume(z3.Implies(z3.And(0 <= e, e < o, o < zint(n)), lt(v, f(o))))
                seen.append(e)
            return SReal(v)
        a = SArr.make((n,), "f", el, name)
        self.c.inputs.append(("array", name, (f,), ((n,), "f")))
        return a

    def separated(self, parts, tol, sample=None, lo=None):
        """1-D arrays (name, length) whose values, all taken together, are equal or more than tol apart"""
        c, seen, out = self.c, [], []

        def mk(name, n):
            f = z3.Function(name, z3.IntSort(), z3.RealSort())

            def el(i):
                e = zint(i[0])
                v = f(e)
                if not any(v.eq(o) for o, _ in seen):
                    inr = z3.And(0 <= e, e < zint(n))
                    if lo is not None:
                        c.assume(z3.Implies(inr, v >= zreal(lo)))
                    for o, r in seen:
                        c.assume(z3.Implies(z3.And(inr, r), z3.Or(v == o, v - o > zreal(tol), o - v > zreal(tol))))
                    seen.append((v, inr))
                return SReal(v)
            c.inputs.append(("array", name, (f,), ((n,), "f")))
            return SArr.make((n,), "f", el, name)
        return [mk(name, n) for name, n in parts]

    def uniform(self, name, n, start=None, step=None, sample=None):
        """start + i*step with step > 0 (start, step symbolic unless given); returns (array, start, step)"""
        a = self.real(name + ".start") if start is None else start
        h = self.real(name + ".step", pos=True) if step is None else step
        return self.build((n,), lambda i: s_add(a, s_mul(h, i)), "f"), a, h

    def strings(self, name, n):
        raise Unsupported("symbolic strings")

    # ---- building and logic
    def build(self, shape, fn, k="f"):
        return SArr.make(tuple(shape), k, lambda i: s_cast(fn(*i), k))

    def arr(self, x, k=None):
        return asarr(x, k)

    def copy(self, a):
        return a.snapshot()

    def tolist(self, a):
        """Python list with the elements of a 1-D array"""
        r, n = a.reader(), a.shape[0]
        if const_int(n) is not None:
            return [r((i,)) for i in range(const_int(n))]
        return _loader.SymSeq(n, lambda i: r((i,)))

    def at(self, a, *i):
        """element, index assumed to be in range"""
        return a.get(*i) if isinstance(a, SArr) else a

    def eq(self, a, b):
        a, b = norm(a), norm(b)
        if has_nan(a, b):
            na, va = split_nan(a)
            nb, vb = split_nan(b)
            return s_or(s_and(na, nb), s_and(s_not(na), s_not(nb), s_eq(va, vb)))
        return s_eq(a, b)

    def near(self, a, b, tol):
        return s_le(s_abs(s_sub(a, b)), tol)

    def close(self, a, b):
        """equal up to the rounding of constants that the code multiplies as floats"""
        a, b = norm(a), norm(b)
        e = s_eq(a, b)
        if e is True or self.c.entails(e):
            return True
        d, t = s_sub(a, b), s_mul(Fraction(1, 10 ** 12), b)
        return s_or(s_and(s_le(d, t), s_le(s_neg(d), t)), s_and(s_le(d, s_neg(t)), s_le(s_neg(d), s_neg(t))))

    def And(self, *a): return s_and(*a)
    def Or(self, *a): return s_or(*a)
    def Not(self, a): return s_not(a)
    def implies(self, a, b): return s_implies(a, b)
    def ite(self, c, a, b): return s_ite(c, a() if callable(a) else a, b() if callable(b) else b)
    def le(self, a, b): return s_le(a, b)
    def lt(self, a, b): return s_lt(a, b)
    def sum(self, n, f): return s_sum(n, f)
    def cos(self, x): return s_cos(x)
    def sin(self, x): return s_sin(x)
    def expj(self, x): return s_exp(mk_cplx(0, x))
    def sqrt(self, x): return s_sqrt(x)
    def log10(self, x): return s_fun("log10", x)
    def pow10(self, x): return s_fun("pow10", x)
    def abs(self, x): return s_abs(x)
    def re(self, x): return cx(x)[0]
    def im(self, x): return cx(x)[1]
    def floor(self, x): return s_floor(x)
    def mod(self, a, b): return s_mod(a, b)
    def div(self, a, b): return s_floordiv(a, b)
    def frac(self, a, b): return s_div(a, b)
    def isnan(self, x): return symnp.isnan1(x)
    def max_of(self, n, f): return s_ext("max", n, f)
    def min_of(self, n, f): return s_ext("min", n, f)

    def num(self, x):
        """exact number for a decimal literal"""
        return norm(x)

    def decide(self, c):
        return arrays.tb_decide(c)

    def cases(self, *conds):
        """split on the conditions; from here on conditional terms follow the case at hand"""
        for x in conds:
            arrays.tb_decide(x)
        self.c.resolve = True

    def assume(self, c):
        c = tb(c)
        if c is False:
            raise PathEnd("precondition")
        if c is True:
            return
        self.c.assume(c)

    def hint(self, q, r):
        add_hint(q, r)

    def fact(self, label, cond):
        """auxiliary fact: proved first, then available to the following obligations"""
        cond = zbool(tb(cond))
        ok = self.c.prove(cond, "lemma " + label)
        if ok:
            self.c.assume(cond)
        return ok

    # ---- obligations
    def ensure(self, label, cond):
        self.nensure += 1
        return self.c.prove(zbool(tb(cond)), label)

    def returns(self, out, label="returns normally"):
        if not out.ok:
            self.c.use("exception: %s: %s%s" % (type(out.exc).__name__, str(out.exc)[:150], engine_place(out.exc)))
        return self.ensure(label, out.ok)

    def forall(self, label, dims, fn, setup=None):
        ix = tuple(SInt(self.c.fresh("i", "int")) for _ in dims)
        self.nensure += 1
        rng = s_and(*[s_and(s_ge(i, 0), s_lt(i, n)) for i, n in zip(ix, dims)])
        if rng is False:
            return self.c.prove(z3.BoolVal(True), label)
        # an empty range is its own case; otherwise a fresh index in range is a conservative extension
        if not arrays.tb_decide(s_and(*[s_gt(n, 0) for n in dims])):
            return self.c.prove(z3.BoolVal(True), label)
        self.c.assume(zbool(rng))
        try:
            if setup:
                setup(*ix)
            return self.c.prove(zbool(tb(fn(*ix))), label)
        finally:
            self.c.resolve = False

    def same(self, label, a, b, hints=None, tol=None):
        """equal shape and equal elements"""
        if not isinstance(a, SArr) and not isinstance(b, SArr):
            return self.ensure(label, self.eq(a, b))
        if not isinstance(a, SArr) or not isinstance(b, SArr):
            a, b = asarr(a), asarr(b)
        if a.ndim != b.ndim:
            return self.ensure(label + ": number of axes", False)
        self.ensure(label + ": shape", s_and(*[s_eq(x, y) for x, y in zip(a.shape, b.shape)]))
        return self.forall(label + ": elements", b.shape, lambda *i: self.eq(a.get(*i), b.get(*i)), setup=hints)

    def unchanged(self, label, a, before):
        return self.same(label, a, before)

    # ---- calls
    def fn(self, key):
        mod, name = key.split(":")
        m = self.L.load(mod)
        o = m
        for p in name.split("."):
            o = getattr(o, p)
        return o

    def call(self, key, *a, **kw):
        f = self.fn(key) if isinstance(key, str) else key
        # the function under contract itself runs its body
        saved = None
        if isinstance(key, str) and key in self.L.contracts:
            saved = self.L.contracts.pop(key)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return Out(value=f(*a, **kw))
        except (PathEnd, Unsupported):
            raise
        except RecursionError:
            raise Unsupported("recursion depth")
        except Exception as e:
            return Out(exc=e)
        finally:
            if saved is not None:
                self.L.contracts[key] = saved

    def inline(self, key, *a, **kw):
        """the body of a function that has a contract"""
        return self.L.funcs[key](*a, **kw)

    def cls(self, name):
        return getattr(self.L.load("SciDataTool.Classes." + name), name)

    def invariant(self, mk):
        """mk(loop) -> function k -> value of a loop variable before iteration k"""
        self.c.ghost.setdefault("invariants", []).append(mk)

    def clear_invariants(self):
        self.c.ghost["invariants"] = []

    # ---- lemmas about sums (proved by induction in dv/lemmas.py, used here by instantiation)
    def lemma_blocks(self, n, p, f, g):
        """sum_{i < p*n} f(i) = p * sum_{j < n} g(j)   when f(k*n+j) = g(j)"""
        c = self.c
        k, j = SInt(c.fresh("k", "int")), SInt(c.fresh("j", "int"))
        rng = s_and(s_ge(k, 0), s_lt(k, p), s_ge(j, 0), s_lt(j, n))
        add_hint(k, j)
        add_hint(s_floordiv(k, 2), s_add(s_mul(s_mod(k, 2), n), j))
        prem = s_implies(rng, self.eq(f(s_add(s_mul(k, n), j)), g(j)))
        ok = c.prove(zbool(prem), "lemma blocks: periodic summand")
        if ok:
            s1, s2 = s_sum(s_mul(p, n), f), s_sum(n, g)
            c.assume(zbool(self.eq(s1, s_mul(p, s2))))
            c.ghost.setdefault("lemmas", set()).add("blocks")
        return ok

    def lemma_linear(self, n, f, a, g, b=None, h=None):
        """sum f = a*sum g (+ b*sum h) when f = a*g (+ b*h) pointwise"""
        c = self.c
        j = SInt(c.fresh("j", "int"))
        rhs = s_mul(a, g(j)) if h is None else s_add(s_mul(a, g(j)), s_mul(b, h(j)))
        ok = c.prove(zbool(s_implies(s_and(s_ge(j, 0), s_lt(j, n)), self.eq(f(j), rhs))), "lemma linear: pointwise")
        if ok:
            s0, s1 = s_sum(n, f), s_sum(n, g)
            r = s_mul(a, s1) if h is None else s_add(s_mul(a, s1), s_mul(b, s_sum(n, h)))
            c.assume(zbool(self.eq(s0, r)))
            c.ghost.setdefault("lemmas", set()).add("linear")
        return ok

    def lemma_last(self, n, f):
        """sum_{j<n+1} f = sum_{j<n} f + f(n)"""
        c = self.c
        c.assume(zbool(s_implies(s_ge(n, 0), self.eq(s_sum(s_add(n, 1), f), s_add(s_sum(n, f), f(n))))))
        c.ghost.setdefault("lemmas", set()).add("last")

    def lemma_first(self, n, f):
        """sum_{j<n+1} f = f(0) + sum_{j<n} f(j+1)"""
        c = self.c
        c.assume(zbool(s_implies(s_ge(n, 0), self.eq(s_sum(s_add(n, 1), f), s_add(f(0), s_sum(n, lambda j: f(s_add(j, 1))))))))
        c.ghost.setdefault("lemmas", set()).add("first")

    def lemma_split(self, a, b, f):
        """sum_{j<a+b} f(j) = sum_{j<a} f(j) + sum_{j<b} f(a+j)   for a, b >= 0"""
        c = self.c
        c.assume(zbool(s_implies(s_and(s_ge(a, 0), s_ge(b, 0)),
                                 self.eq(s_sum(s_add(a, b), f), s_add(s_sum(a, f), s_sum(b, lambda j: f(s_add(a, j))))))))
        c.ghost.setdefault("lemmas", set()).add("split")

    def lemma_shift(self, n, f):
        """sum_{j<n} f(j+1) = sum_{j<n} f(j) + f(n) - f(0)   for n >= 0"""
        c = self.c
        c.assume(zbool(s_implies(s_ge(n, 0), self.eq(s_sum(n, lambda j: f(s_add(j, 1))), s_sub(s_add(s_sum(n, f), f(n)), f(0))))))
        c.ghost.setdefault("lemmas", set()).add("shift")

    def lemma_reverse(self, n, f):
        """sum_{j<n} f(j) = sum_{j<n} f(n-1-j)"""
        c = self.c
        c.assume(zbool(self.eq(s_sum(n, f), s_sum(n, lambda j: f(s_sub(s_sub(n, 1), j))))))
        c.ghost.setdefault("lemmas", set()).add("reverse")

    def lemma_positive(self, n, f):
        """sum_{j<n} f(j) > 0 when every summand is positive and n > 0"""
        c = self.c
        j = SInt(c.fresh("j", "int"))
        ok = c.prove(zbool(s_implies(s_and(s_ge(j, 0), s_lt(j, n)), s_gt(f(j), 0))), "lemma positive: summands")
        if ok:
            c.assume(zbool(s_implies(s_gt(n, 0), s_gt(s_sum(n, f), 0))))
            c.ghost.setdefault("lemmas", set()).add("positive")
        return ok

    def lemma_log(self, a, b):
        """log10(a*b) = log10(a) + log10(b) for positive a, b"""
        c = self.c
        c.assume(zbool(s_implies(s_and(s_gt(a, 0), s_gt(b, 0)), s_eq(s_fun("log10", s_mul(a, b)), s_add(s_fun("log10", a), s_fun("log10", b))))))
        c.ghost.setdefault("lemmas", set()).add("log")

    def at_index(self, *k):
        """instantiate library facts (max, argmax, all/any) at an index"""
        if len(k) == 1:
            core.bound_ext(k[0])
            symnp.bound_arg(k[0])
        symnp.bound_quant(tuple(k))

    def angle_unique(self, a, b):
        """two angles less than a turn apart with the same cosine and sine are equal"""
        self.c.use("uniqueness of the angle of a point on the unit circle")
        a, b = zreal(a), zreal(b)
        co, si = core._trig(SReal(a))
        cp, sp = core._trig(SReal(b))
        core.PI()
        self.c.assume(z3.Implies(z3.And(zreal(co) == zreal(cp), zreal(si) == zreal(sp), a - b < 2 * core.PI_E, b - a < 2 * core.PI_E), a == b))

    def consecutive(self, a, w):
        """selections met from here on are tried against the positions a, .., a+w-1"""
        self.c.ghost.setdefault("consecutive", []).append((a, w))

    def class_of(self, j):
        """number of the distinct value of element j in the last np.unique"""
        return self.c.ghost["classes"][-1](j)

    def classes(self, a, tol):
        """values of a grouped in classes no wider than tol: (one value per class, class of each element)"""
        c = self.c
        n, r = a.shape[0], a.reader()
        m = SInt(c.fresh("nc", "int"))
        c.n += 1
        IX, INV = (z3.Function("c%s!%d" % (w, c.n), z3.IntSort(), z3.IntSort()) for w in ("idx", "inv"))
        c.assume(z3.And(m.e >= 1, m.e <= zint(n)))
        ks, js = [], []

        def ix(k):
            e = zint(k)
            v = IX(e)
            if not any(e.eq(o) for o in ks):
                c.assume(z3.Implies(z3.And(e >= 0, e < m.e), z3.And(v >= 0, v < zint(n), INV(v) == e)))
                vk = zreal(r((SInt(v),)))
                for o in ks:
                    vo = zreal(r((SInt(IX(o)),)))
                    c.assume(z3.Implies(z3.And(0 <= o, o < e, e < m.e), vo < vk))
                    c.assume(z3.Implies(z3.And(0 <= e, e < o, o < m.e), vk < vo))
                ks.append(e)
            return SInt(v)

        def inv(j):
            e = zint(j)
            v = INV(e)
            if not any(e.eq(o) for o in js):
                inr = z3.And(e >= 0, e < zint(n))
                vj, vi = zreal(r((SInt(e),))), zreal(r((ix(SInt(v)),)))
                c.assume(z3.Implies(inr, z3.And(v >= 0, v < m.e, vj - vi <= zreal(tol), vi - vj <= zreal(tol))))
                for o in js:
                    vo = zreal(r((SInt(o),)))
                    c.assume(z3.Implies(z3.And(inr, o >= 0, o < zint(n)), z3.And(z3.Implies(vj == vo, v == INV(o)), z3.Implies(v == INV(o), z3.And(vj - vo <= zreal(tol), vo - vj <= zreal(tol))))))
                for o in ks:
                    c.assume(z3.Implies(z3.And(inr, o >= 0, o < m.e, vj == zreal(r((SInt(IX(o)),)))), v == o))
                js.append(e)
            return SInt(v)
        c.ghost.setdefault("classes", []).append(inv)
        c.ghost.setdefault("firsts", []).append(ix)
        out = SArr.make((n,), "i", lambda i: inv(i[0]))
        c.ghost.setdefault("onto", []).append((out.buf.fn, m))
        return SArr.make((m,), a.k, lambda i: r((ix(i[0]),))), out

    def first_of(self, k):
        """first element that holds the distinct value number k of the last np.unique"""
        return self.c.ghost["firsts"][-1](k)

    def common(self, i, j):
        """position in the last np.intersect1d of the value found at i and at j"""
        return self.c.ghost["common"][-1](i, j)

    def perm(self, j, which=-1):
        """position of element j in the order of the given np.argsort"""
        n, P, PI, at = self.c.ghost["perm"][which]
        e = zint(j)
        k = PI(e)
        at(SInt(k))
        self.c.assume(z3.Implies(z3.And(e >= 0, e < zint(n)), z3.And(k >= 0, k < zint(n), P(k) == e)))
        return SInt(k)

    def witness(self, *k):
        """index at which the existence facts met from here on are to be tried"""
        self.c.ghost.setdefault("witness", []).append(tuple(k))

    def type_name(self, x):
        return _loader.b_type(x).__name__

    def note(self, s):
        self.c.use(s)


# =============================================================================================== concrete
class ConS:
    symbolic = False

    def __init__(self, rng, given=None, tol=1e-7, size=None):
        import numpy as np
        self.np = np
        self.rng, self.given, self.tol = rng, given, tol
        self.pi = math.pi
        self.inputs = {}
        self.words = set()
        self.failed = []
        self.nensure = 0
        self.size = size or rng.choice([1, 2, 3, 4, 5, 6, 8])

    # ---- inputs
    def _get(self, name, make):
        if self.given is not None and name in self.given:
            v = self.given[name]
            # inputs of a solver model so small or large that rounding would decide the comparison
            flat = self.np.ravel(v)
            if flat.dtype.kind in "fc" and any(x != 0 and not 1e-4 <= abs(x) <= 1e6 for x in flat.tolist() if x == x):
                raise Skip("ill-conditioned " + name)
        else:
            v = make()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, sample=None):
        def mk():
            if sample:
                return self.rng.randint(*sample)
            a = lo if lo is not None else -5
            b = hi if hi is not None else max(a, 0) + self.size
            return self.rng.randint(int(a), max(int(a), int(b)))
        v = int(self._get(name, mk))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def _rv(self):
        r = self.rng
        m = r.random()
        if m < 0.35:
            return float(r.randint(-4, 4))
        if m < 0.5:
            return r.randint(-8, 8) / 4
        return r.uniform(-3, 3)

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, sample=None):
        def mk():
            if isinstance(sample, list):
                return float(self.rng.choice(sample))
            if sample:
                return self.rng.uniform(*sample) if self.rng.random() < 0.7 else float(self.rng.choice(sample))
            if lo is not None or hi is not None:
                a = float(lo) if lo is not None else float(hi) - 5
                b = float(hi) if hi is not None else float(lo) + 5
                return self.rng.uniform(a, b)
            v = self._rv()
            if pos:
                v = abs(v) + (0 if v else 1.0)
                v = max(v, 0.05)
            if nonzero and v == 0:
                v = 1.5
            return v
        v = float(self._get(name, mk))
        if (pos and v <= 0) or (nonzero and v == 0) or (lo is not None and v < float(lo) - 1e-12) or (hi is not None and v > float(hi) + 1e-12):
            raise Skip(name)
        return v

    def word(self, name, free=(), distinct=False):
        pool = ["time", "angle", "z", "x_1", "phase", "speed", "freqs", "wavenumber"]
        keys = ["max", "min", "rss", "sum", "rms", "mean", "integrate", "integrate_local", "derivate", "antiderivate", "oneperiod", "antiperiod", "smallestperiod", "pattern", "axis_data", "largest", "oct", "SI"]

        def mk():
            r = self.rng.random()
            if self.words and self.rng.random() < 0.4:
                w = self.rng.choice(sorted(self.words))
                return self.rng.choice([w + "_1", "a" + w, w + w, w[:-1] or "b"])
            if r < 0.4:
                return self.rng.choice(pool)
            w = self.rng.choice(keys)
            if r < 0.6:
                return w
            return self.rng.choice(["", "a", "lu", "x "]) + w + self.rng.choice(["", "d", "_1", "ance"])
        v = str(self._get(name, mk))
        for _ in range(20):
            if self.given is not None or not any(f in v for f in free):
                break
            v = self.inputs[name] = mk()
        if any(f in v for f in free) or distinct and v in self.words:
            raise Skip(name)
        if distinct:
            self.words.add(v)
        return v

    def text(self, *parts):
        return "".join(p if isinstance(p, str) else repr(p) for p in parts)

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def cplx(self, name):
        return complex(self.real(name + ".re"), self.real(name + ".im"))

    def array(self, name, shape, k="f", where=None, sample=None):
        np = self.np
        shape = tuple(int(s) for s in shape)

        def one():
            for _ in range(60):
                if sample:
                    v = sample(self.rng)
                elif k == "i":
                    v = self.rng.randint(-5, 5)
                elif k == "b":
                    v = self.rng.random() < 0.5
                elif k == "c":
                    v = complex(self._rv(), self._rv())
                else:
                    v = self._rv()
                if where is None or bool(where(v)):
                    return v
            raise Skip(name)

        def mk():
            n = 1
            for s in shape:
                n *= s
            return np.array([one() for _ in range(n)], dtype={"f": float, "i": int, "b": bool, "c": complex}[k]).reshape(shape)
        a = np.array(self._get(name, mk), dtype={"f": float, "i": int, "b": bool, "c": complex}[k])
        if a.size == 0:
            a = a.reshape(shape)
        if a.shape != shape:
            raise Skip(name)
        if where is not None and not all(bool(where(v)) for v in a.ravel().tolist()):
            raise Skip(name)
        self.inputs[name] = a.copy()
        return a

    def increasing(self, name, n, strict=True, sample=None):
        np = self.np

        def mk():
            v = self._rv()
            out = []
            for _ in range(int(n)):
                out.append(v)
                v = v + (self.rng.choice([0.25, 0.5, 1.0, self.rng.uniform(0.05, 2)]) if strict or self.rng.random() < 0.7 else 0.0)
            return np.array(out, dtype=float)
        a = np.array(self._get(name, mk), dtype=float)
        if a.shape != (int(n),) or (a[1:] < a[:-1]).any() or (strict and (a[1:] <= a[:-1]).any()):
            raise Skip(name)
        self.inputs[name] = a.copy()
        return a

    def separated(self, parts, tol, sample=None, lo=None):
        out = [self.array(name, (n,), where=None if lo is None else (lambda v: v >= lo), sample=sample) for name, n in parts]
        v = sorted(float(x) for a in out for x in a.tolist())
        if any(a != b and b - a <= tol * (1 + 1e-9) for a, b in zip(v, v[1:])):
            raise Skip("separated")
        return out

    def uniform(self, name, n, start=None, step=None, sample=None):
        a = self.real(name + ".start") if start is None else start
        h = self.real(name + ".step", pos=True) if step is None else step
        return self.np.array([a + i * h for i in range(int(n))], dtype=float), a, h

    # ---- building and logic
    def build(self, shape, fn, k="f"):
        np = self.np
        shape = tuple(int(s) for s in shape)
        out = np.zeros(shape, dtype={"f": float, "i": int, "b": bool, "c": complex}[k])
        for i in itertools.product(*[range(s) for s in shape]):
            v = fn(*i)
            out[i] = float(v) if isinstance(v, Fraction) else v
        return out

    def arr(self, x, k=None):
        return self.np.array(x)

    def copy(self, a):
        return self.np.array(a)

    def tolist(self, a):
        return a.tolist()

    def at(self, a, *i):
        if any(int(x) < 0 for x in i):
            raise IndexError("contract index")
        return a[tuple(int(x) for x in i)]

    def eq(self, a, b):
        if isinstance(a, Fraction): a = float(a)
        if isinstance(b, Fraction): b = float(b)
        try:
            na, nb = a != a, b != b
            if na or nb:
                return bool(na and nb)
            if a == b:
                return True
            return abs(a - b) <= self.tol * (1 + max(abs(a), abs(b)))
        except TypeError:
            return a == b

    def close(self, a, b): return abs(a - b) <= 1e-9 * abs(b)

    def near(self, a, b, tol):
        return abs(a - b) <= float(tol) * (1 + 1e-9) + self.tol * (1 + max(abs(a), abs(b)))

    def And(self, *a): return all(bool(x) for x in a)
    def Or(self, *a): return any(bool(x) for x in a)
    def Not(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r
    def le(self, a, b): return bool(a <= b + self.tol * (1 + max(abs(a), abs(b))))
    def lt(self, a, b): return bool(a < b + self.tol * (1 + max(abs(a), abs(b))))
    def sum(self, n, f): return sum([f(k) for k in range(int(n))], 0)
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def expj(self, x): return complex(math.cos(x), math.sin(x))
    def sqrt(self, x): return math.sqrt(x)
    def log10(self, x): return math.log10(x) if x > 0 else math.nan
    def pow10(self, x): return 10.0 ** x
    def abs(self, x): return abs(x)
    def re(self, x): return complex(x).real
    def im(self, x): return complex(x).imag
    def floor(self, x): return math.floor(x + 1e-9)
    def mod(self, a, b): return a % b
    def div(self, a, b): return a // b
    def frac(self, a, b): return a / b
    def isnan(self, x): return x != x
    def max_of(self, n, f): return max(f(k) for k in range(int(n)))
    def min_of(self, n, f): return min(f(k) for k in range(int(n)))
    def num(self, x): return x

    def decide(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise Skip("precondition")

    def hint(self, q, r): pass
    def cases(self, *conds): pass
    def fact(self, label, cond): return True

    # ---- obligations
    def ensure(self, label, cond):
        self.nensure += 1
        if not bool(cond):
            self.failed.append(label)
            return False
        return True

    def returns(self, out, label="returns normally"):
        return self.ensure("%s (%r)" % (label, out) if not out.ok else label, out.ok)

    def forall(self, label, dims, fn, setup=None):
        self.nensure += 1
        dims = [int(d) for d in dims]
        tot = 1
        for d in dims:
            tot *= d
        it = itertools.product(*[range(d) for d in dims])
        if tot > 3000:
            it = [tuple(self.rng.randrange(d) for d in dims) for _ in range(1500)]
        for i in it:
            if not bool(fn(*i)):
                self.failed.append("%s at index %s" % (label, i))
                return False
        return True

    def same(self, label, a, b, hints=None, tol=None):
        np = self.np
        self.nensure += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.failed.append("%s: shape %s instead of %s" % (label, a.shape, b.shape))
            return False
        if a.dtype.kind in "UO" or b.dtype.kind in "UO":
            if a.tolist() != b.tolist():
                self.failed.append("%s: elements" % label)
                return False
            return True
        t = tol or self.tol
        for i in itertools.product(*[range(s) for s in a.shape]):
            x, y = a[i], b[i]
            if not (x == y or (x != x and y != y) or abs(x - y) <= t * (1 + max(abs(x), abs(y)))):
                self.failed.append("%s: element %s is %r instead of %r" % (label, i, x, y))
                return False
        return True

    def unchanged(self, label, a, before):
        return self.same(label, a, before)

    # ---- calls
    def fn(self, key):
        mod, name = key.split(":")
        m = importlib.import_module(mod)
        o = m
        for p in name.split("."):
            o = getattr(o, p)
        return o

    def call(self, key, *a, **kw):
        f = self.fn(key) if isinstance(key, str) else key
        import warnings
        try:
            with warnings.catch_warnings(), self.np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                return Out(value=f(*a, **kw))
        except Skip:
            raise
        except Exception as e:
            return Out(exc=e)

    def cls(self, name):
        return getattr(importlib.import_module("SciDataTool.Classes." + name), name)

    def invariant(self, mk): pass
    def clear_invariants(self): pass
    def lemma_blocks(self, *a): return True
    def lemma_linear(self, *a): return True
    def lemma_last(self, *a): return True
    def lemma_first(self, *a): return True
    def lemma_reverse(self, *a): return True
    def lemma_split(self, *a): return True
    def lemma_shift(self, *a): return True
    def lemma_positive(self, *a): return True
    def lemma_log(self, *a): return True
    def at_index(self, *k): pass
    def angle_unique(self, a, b): pass
    def class_of(self, j): pass
    def first_of(self, k): pass
    def common(self, i, j): pass
    def perm(self, j, which=-1): pass
    def consecutive(self, a, w): pass
    def witness(self, *k): pass
    def type_name(self, x): return type(x).__name__
    def note(self, s): pass


FINDINGS = {}


def finding(fid):
    """demonstration of a recorded defect: fn(engine) -> True while it still shows"""
    def deco(fn):
        FINDINGS[fid] = fn
        return fn
    return deco
