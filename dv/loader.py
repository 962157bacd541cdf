"""Loads the repository modules from source, mechanically transformed, with numpy/scipy replaced by assumed contracts.

What the transformation changes (and nothing else):
  * calls of the builtins in WRAP go through a wrapper that behaves as the builtin on concrete values and accepts
    symbolic scalars, arrays and ranges;
  * `for` statements and list/set/generator comprehensions ask the iterable whether its length is symbolic; if not they
    run as written, otherwise the loop goes through an invariant (loops) or an element function (comprehensions);
  * plotting, GUI and file-format libraries are not importable (the repository guards those imports).
"""
import ast, builtins, os, sys, types, importlib
from fractions import Fraction
from .core import *
from . import core, arrays, symnp
from .strings import SStr
from .arrays import ndarray, asarr, nonzero1, same_dim, tb_decide, cdim

REPO = os.environ.get("VERIF_REPO", "/repo")
WRAP = ("len", "int", "float", "complex", "bool", "abs", "round", "min", "max", "sum", "any", "all", "range", "enumerate",
        "zip", "sorted", "reversed", "isinstance", "type", "list", "tuple", "str", "map", "hasattr", "getattr", "set", "id", "locals")

REAL_OK = {"os", "os.path", "sys", "copy", "importlib", "json", "re", "math", "operator", "functools", "itertools", "types", "inspect",
           "collections", "logging", "string", "warnings", "typing", "datetime", "time", "gzip", "pickle", "platform", "codecs", "ntpath",
           "random", "cloudpickle"}


class SymSeq:
    """a list of symbolic length"""
    _dv_seq = True
    __class__ = property(lambda s: list)

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def append(self, v):
        n, fn = self.n, self.fn
        self.n = s_add(n, 1)
        self.fn = lambda i: s_ite(s_eq(i, n), v, fn(i)) if is_num(v) else _noseq()

    def __len__(self):
        raise Unsupported("len of symbolic list in C code")

    def __iter__(self):
        c = const_int(self.n)
        if c is None:
            raise Unsupported("iteration over a symbolic list")
        return iter([self.fn(i) for i in range(c)])

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic list")
        return self.fn(arrays.index_of(i, self.n))

    def to_array(self):
        fn = self.fn
        pk = SInt(ctx().fresh("pk", "int"))
        if ctx().entails(s_gt(self.n, 0)):
            ctx().assume(z3.And(pk.e >= 0, pk.e < zint(self.n)))
        v = fn(pk)
        if isinstance(v, ndarray):
            shp, k = v.shape, v.k
            return ndarray.make((self.n,) + shp, k, lambda i: fn(i[0]).get(*i[1:]))
        return ndarray.make((self.n,), kind(v), lambda i: fn(i[0]))

    def __eq__(self, o):
        if isinstance(o, SymSeq):
            return bool(symnp.array_equal(self.to_array(), o.to_array()))
        if isinstance(o, list):
            return bool(symnp.array_equal(self.to_array(), asarr(o)))
        return False

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def _noseq():
    raise Unsupported("symbolic list of objects")


class SymRange(SymSeq):
    __class__ = property(lambda s: range)


def sym_len(x):
    """symbolic length of an iterable or None when concrete"""
    if isinstance(x, ndarray):
        return x.shape[0] if x.ndim and const_int(x.shape[0]) is None else None
    if type(x) in (SymSeq, SymRange, SymMap):
        return x.n if const_int(x.n) is None else None
    return None


class SymMap(SymSeq):
    """enumerate/zip over symbolic iterables (elements may be tuples)"""
    __class__ = property(lambda s: object)

    def to_array(self):
        raise Unsupported("array of tuples")


def seq_elem(x):
    if isinstance(x, ndarray):
        # iteration only reads existing positions
        return (lambda i: x.get(i)) if x.ndim == 1 else (lambda i: x[i])
    if type(x) in (SymSeq, SymRange, SymMap):
        return x.fn
    lst = list(x)
    return lambda i: arrays._pick(lst, i)


# ----------------------------------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, ndarray):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if type(x) in (SymSeq, SymRange, SymMap):
        return x.n
    if type(x) is SStr:
        return x.length()
    return builtins.len(x)


def b_int(x=0, *a):
    if a:
        return builtins.int(x, *a)
    if type(x) is SStr:
        return x.number("int")
    if isinstance(x, ndarray):
        x = x.item()
    if is_sym(x):
        if type(x) is SCplx:
            raise TypeError("can't convert complex to int")
        return s_trunc(x) if kind(x) != "b" else s_cast(x, "i")
    return builtins.int(x)


def b_float(x=0.0):
    if type(x) is SStr:
        return x.number("float")
    if isinstance(x, ndarray):
        x = x.item()
    if is_sym(x):
        if type(x) is SCplx:
            raise TypeError("can't convert complex to float")
        return s_cast(x, "f")
    if type(x) is Fraction:
        return x
    return builtins.float(x)


def b_complex(*a):
    if any(is_sym(x) for x in a):
        return mk_cplx(a[0], a[1] if len(a) > 1 else 0)
    return builtins.complex(*a)


def b_bool(x=False):
    return builtins.bool(x)


def b_abs(x):
    if is_num(x) and (is_sym(x) or type(x) is Fraction):
        return s_abs(x)
    return builtins.abs(x)


def b_round(x, n=None):
    if is_sym(x):
        if n is None:
            return s_round(x)
        return symnp.nd_round(x, n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def _minmax(op, bi):
    def g(*a, **kw):
        if len(a) == 1 and not kw:
            x = a[0]
            if isinstance(x, ndarray) and x.ndim == 1:
                return (symnp.np_max if op == "max" else symnp.np_min)(x)
            if type(x) in (SymSeq, SymRange):
                return (symnp.np_max if op == "max" else symnp.np_min)(x.to_array())
            a = builtins.list(x)
            if not any(is_sym(v) for v in a):
                return bi(a)
        if kw or not any(is_sym(v) for v in a):
            return bi(*a, **kw)
        r = a[0]
        for v in a[1:]:
            r = (s_max if op == "max" else s_min)(r, v)
        return r
    return g


def b_sum(x, start=0):
    if isinstance(x, ndarray) and x.ndim == 1:
        return symnp.np_sum(x) + start
    if type(x) in (SymSeq, SymRange):
        return s_add(s_sum(x.n, x.fn), start)
    r = start
    for v in x:
        r = r + v
    return r


def b_any(x):
    if isinstance(x, ndarray) and x.ndim == 1 or type(x) in (SymSeq, SymRange):
        return builtins.bool(symnp.any_(asarr(x)))
    return builtins.any(x)


def b_all(x):
    if isinstance(x, ndarray) and x.ndim == 1 or type(x) in (SymSeq, SymRange):
        return builtins.bool(symnp.all_(asarr(x)))
    return builtins.all(x)


def b_range(*a):
    a = [arrays.unwrap(x) for x in a]
    if any(type(x) in (SReal, float, Fraction) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    cs = [const_int(x) for x in a]
    if all(c is not None for c in cs):
        return builtins.range(*cs)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if const_int(step) is None:
        raise Unsupported("range with symbolic step")
    st = const_int(step)
    if st == 1:
        n = s_sub(stop, start)
    elif st > 0:
        n = s_floordiv(s_add(s_sub(stop, start), st - 1), st)
    else:
        n = s_floordiv(s_add(s_sub(start, stop), -st - 1), -st)
    if not tb_decide(s_gt(n, 0)):
        return builtins.range(0)
    c = const_int(n)
    if c is not None:
        return [s_add(start, st * i) for i in builtins.range(c)]
    return SymRange(n, lambda i: s_add(start, s_mul(st, i)))


def b_enumerate(x, start=0):
    n = sym_len(x)
    if n is None:
        return builtins.enumerate(x, start)
    f = seq_elem(x)
    m = SymMap(n, lambda i: (s_add(i, start), f(i)))
    m.frozen = lambda: b_enumerate(x.snapshot(), start) if isinstance(x, ndarray) else m
    return m


def b_zip(*xs):
    ns = [sym_len(x) for x in xs]
    if all(n is None for n in ns):
        return builtins.zip(*xs)
    lens = [b_len(x) for x in xs]
    n = lens[0]
    for m in lens[1:]:
        n = s_min(n, m)
    fs = [seq_elem(x) for x in xs]
    m = SymMap(n, lambda i: tuple(f(i) for f in fs))
    m.frozen = lambda: b_zip(*[x.snapshot() if isinstance(x, ndarray) else x for x in xs])
    return m


def b_sorted(x, **kw):
    if isinstance(x, ndarray):
        if sym_len(x) is not None:
            if kw:
                raise Unsupported("sorted with key")
            return symnp.sort(x)
        x = builtins.list(x)
    if type(x) in (SymSeq, SymRange):
        raise Unsupported("sorted of symbolic list")
    return builtins.sorted(x, **kw)


def b_reversed(x):
    if isinstance(x, ndarray) or type(x) in (SymSeq, SymRange):
        n = b_len(x)
        f = seq_elem(x)
        if const_int(n) is None:
            return SymSeq(n, lambda i: f(s_sub(s_sub(n, 1), i)))
        return builtins.iter([f(i) for i in builtins.range(const_int(n) - 1, -1, -1)])
    return builtins.reversed(x)


def b_isinstance(x, t):
    ts = t if builtins.isinstance(t, tuple) else (t,)
    for u in ts:
        if builtins.isinstance(u, tuple):
            if b_isinstance(x, u):
                return True
            continue
        if builtins.isinstance(u, symnp._DT) or getattr(u, "_dv_stub", False):
            continue          # scalars are plain Python numbers here
        if u is builtins.float and type(x) is Fraction:
            return True
        if builtins.isinstance(x, u):
            return True
    return False


TYPEOF = {SBool: bool, SInt: int, SReal: float, SMaybe: float, SCplx: complex, Fraction: float, SymSeq: list, SymRange: range, SStr: str}


def b_type(*a):
    if len(a) == 1:
        t = builtins.type(a[0])
        return TYPEOF.get(t, t)
    return builtins.type(*a)


def b_list(x=()):
    if type(x) in (SymSeq, SymRange):
        return SymSeq(x.n, x.fn)
    if isinstance(x, ndarray) and sym_len(x) is not None:
        return SymSeq(x.shape[0], lambda i: x[i])
    return builtins.list(x)


def b_tuple(x=()):
    return builtins.tuple(x)


def b_str(*a):
    if len(a) == 1 and type(a[0]) is SStr:
        return a[0]
    return builtins.str(*a)


def b_map(f, *xs):
    if len(xs) == 1 and sym_len(xs[0]) is not None:
        e = seq_elem(xs[0])
        return SymSeq(b_len(xs[0]), lambda i: f(e(i)))
    return builtins.map(f, *xs)


def b_hasattr(o, n):
    return builtins.hasattr(o, n)


REPL = {getattr(builtins, n): globals()["b_" + n] for n in
        ("len", "int", "float", "complex", "bool", "abs", "round", "sum", "any", "all", "range", "enumerate", "zip", "sorted",
         "reversed", "isinstance", "type", "list", "tuple", "str", "map")}
REPL[builtins.min] = _minmax("min", builtins.min)
REPL[builtins.max] = _minmax("max", builtins.max)


def dv_eval(x, g, l):
    if type(x) is SStr:
        return x.number("eval")
    return eval(x, g, l)


def dv_b(f):
    try:
        return REPL.get(f, f)
    except TypeError:
        return f


# ----------------------------------------------------------------------------------------- loops
class Undef:
    def __getattr__(self, n):
        raise Unsupported("loop variable without invariant is used")
    for _n in ("add", "radd", "sub", "mul", "rmul", "eq", "ne", "lt", "le", "gt", "ge", "bool", "len", "iter", "getitem", "setitem", "truediv",
               "call", "iadd", "isub", "neg", "index", "contains"):
        exec("def __%s__(self, *a):\n    raise Unsupported('loop variable without invariant is used')" % _n)
    __hash__ = None


UNDEF = Undef()


class Loop:
    """one execution of a for statement"""
    def __init__(self, it, loc, names, mutated, where):
        self.it = it
        self.n = sym_len(it)
        self.sym = self.n is not None
        self.where = where
        if not self.sym:
            return
        c = ctx()
        self.names = [n for n in names]
        self.entry = {n: loc.get(n, UNDEF) for n in names}
        self.elem = seq_elem(it)
        inv = c.ghost.get("invariants") or []
        self.bind = {}
        self.in_place = set(mutated)
        # entry snapshots
        self.snap = {}
        for n, v in self.entry.items():
            if isinstance(v, ndarray):
                self.snap[n] = v.snapshot()
        for n, v in self.entry.items():
            if v is UNDEF:
                continue
            cands = [f for f in (mk(self) for mk in inv) if f is not None]
            if is_num(v) and kind(v) == "i" and not isinstance(v, ndarray):
                cands = cands + [lambda k, v=v: s_add(v, k)]
            for cand in cands:
                try:
                    c0 = cand(0)
                except Unsupported:
                    continue
                if _type_like(v, c0) and prove_same(v, c0, None):
                    self.bind.setdefault(n, []).append(cand)
        unbound = [n for n in names if self.entry[n] is not UNDEF and n not in self.bind]
        self.unbound = unbound
        # several candidates may hold on entry: try them through path alternatives that prove preservation
        for n in list(self.bind):
            cs = self.bind[n]
            self.bind[n] = cs[0] if len(cs) == 1 else self.choose(n, cs)
        self.k = SInt(c.fresh("it", "int"))
        self.body = SBool(c.fresh("loopbody", "bool"))
        self.is_body = c.decide(self.body.e)
        if self.is_body:
            c.assume(z3.And(self.k.e >= 0, self.k.e < zint(self.n)))
            if c._check() == z3.unsat:
                raise PathEnd("loop body never runs")

    def choose(self, n, cs):
        # prefer the candidate registered first; contracts order them
        return cs[0]

    def state(self):
        """values of the modified variables at iteration k (body path) or n (exit path)"""
        at = self.k if self.is_body else self.n
        out = []
        for n in self.names:
            v = self.entry[n]
            if n in self.bind:
                new = self.bind[n](at)
                if isinstance(v, ndarray):
                    new = asarr(new)
                    if n in self.in_place:
                        v._assign(new)
                        out.append(v)
                    else:
                        out.append(ndarray(arrays.Buf(new.shape, new.k, new.reader())))
                else:
                    out.append(new)
            elif n in self.in_place and n not in self.snap:
                out.append(UNDEF)
            else:
                if isinstance(v, ndarray) and n in self.in_place:
                    raise Unsupported("array modified in a loop without invariant (%s)" % self.where)
                out.append(UNDEF)
        return tuple(out)

    def items(self):
        if not self.sym:
            yield from self.it
            return
        if self.is_body:
            yield self.elem(self.k)

    def end(self, loc):
        if not self.sym or not self.is_body:
            return
        c = ctx()
        k1 = s_add(self.k, 1)
        for n in self.names:
            if n in self.bind:
                ok = prove_same(loc.get(n, UNDEF), self.bind[n](k1), "loop invariant of %s preserved (%s)" % (n, self.where))
        raise PathEnd("loop body checked")


def _type_like(a, b):
    if isinstance(a, ndarray) or isinstance(b, ndarray):
        return isinstance(a, ndarray) and isinstance(b, ndarray) and a.ndim == b.ndim
    if type(a) in (SymSeq,) or type(b) in (SymSeq,):
        return isinstance(a, list) and isinstance(b, list)
    return is_num(a) and is_num(b)


def prove_same(a, b, label):
    """a equals b (shape and every element); records an obligation when label is given"""
    c = ctx()
    if a is UNDEF:
        raise Unsupported("undefined loop variable")
    if isinstance(a, list) or isinstance(b, list):
        a, b = asarr(a), asarr(b)
    if isinstance(a, ndarray):
        b = asarr(b)
        if a.ndim != b.ndim:
            goal = z3.BoolVal(False)
        else:
            dims = s_and(*[s_eq(x, y) for x, y in zip(a.shape, b.shape)])
            ix = tuple(SInt(c.fresh("ix", "int")) for _ in a.shape)
            rng = s_and(*[s_and(s_ge(i, 0), s_lt(i, n)) for i, n in zip(ix, b.shape)])
            if label is None and type(dims) is not bool and not c.entails(dims):
                return False
            if dims is False:
                goal = z3.BoolVal(False)
            else:
                hook = c.ghost.get("index_hook")
                if hook:
                    hook(ix)
                goal = z3.And(zbool(dims), z3.Implies(zbool(rng), zbool(s_eq(a.get(*ix), b.get(*ix)))))
    else:
        goal = zbool(s_eq(a, b))
    if label is None:
        return c.prove_quiet(goal)[0] == "proved"
    return c.prove(goal, label)


def dv_comp(elt, it, conds, kind_, may_raise=False):
    """list/generator comprehension with one generator"""
    n = sym_len(it)
    if n is None:
        def gen():
            for t in it:
                if all(c(t) for c in conds):
                    yield elt(t)
        if kind_ == "gen":
            return gen()
        return builtins.list(gen()) if kind_ == "list" else builtins.set(gen())
    if kind_ == "set":
        raise Unsupported("set of symbolic length")
    # elements are computed when they are read, from the values the names had here
    for g in [elt] + conds:
        if g.__defaults__:
            g.__defaults__ = tuple(frozen(v) for v in g.__defaults__)
    f = seq_elem(it.snapshot() if isinstance(it, ndarray) else it.frozen() if hasattr(it, "frozen") else it)
    if not conds:
        cache = {}

        def get(i):
            k = zint(i).get_id()
            if k not in cache:
                cache[k] = (i, elt(f(i)))
            return cache[k][1]
        if not may_raise:
            return SymSeq(n, get)
        # either the element expression raises for some index, or it does for none
        c = ctx()
        if arrays.tb_decide(s_gt(n, 0)) and c.decide(c.fresh("raises", "bool")):
            g = SInt(c.fresh("gi", "int"))
            c.assume(z3.And(g.e >= 0, g.e < zint(n)))
            symnp.bound_quant((g,))
            elt(f(g))
            raise PathEnd("no index raises")

        def safe(i):
            inr = s_and(s_ge(i, 0), s_lt(i, n))
            if not c.entails(inr) and not arrays.tb_decide(inr):
                # never read: any value will do
                if not cache:
                    raise Unsupported("element out of the range of a comprehension")
                v = next(iter(cache.values()))[1]
                if not is_num(v):
                    raise Unsupported("element out of the range of a comprehension")
                return {"i": SInt, "f": SReal}[kind(v)](c.fresh("out", "int" if kind(v) == "i" else "real"))
            try:
                return get(i)
            except (PathEnd, Unsupported):
                raise
            except Exception:
                raise PathEnd("an index raises")
        return SymSeq(n, safe)
    pred = ndarray.make((n,), "b", lambda i: s_and(*[tb(c(f(i[0]))) for c in conds]))
    e = nonzero1(pred)
    r = e.reader()
    s = SymSeq(e.shape[0], lambda i: elt(f(r((i,)))))
    return s


def frozen(v):
    if isinstance(v, ndarray):
        return v.snapshot()
    return builtins.list(v) if type(v) is builtins.list else v


def dv_bool(is_and, *th):
    """`and` / `or` of a comprehension condition: one formula instead of one path per operand"""
    r = th[0]()
    for t in th[1:]:
        if type(r) is SBool:
            try:
                v = t()
            except (PathEnd, Unsupported):
                raise
            except Exception:
                v = None
            if type(v) in (bool, SBool):
                r = s_and(r, v) if is_and else s_or(r, v)
                continue
        if bool(r) != is_and:
            return r
        r = t()
    return r


class MergeBool(ast.NodeTransformer):
    def visit_Lambda(self, node):
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        th = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), v) for v in node.values]
        return ast.Call(ast.Name("__dv_bool__", ast.Load()), [ast.Constant(isinstance(node.op, ast.And))] + th, [])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 or not all(isinstance(c, (ast.Name, ast.Constant)) for c in node.comparators[:-1]):
            return node
        l = [node.left] + node.comparators
        return self.visit_BoolOp(ast.BoolOp(ast.And(), [ast.Compare(l[i], [node.ops[i]], [l[i + 1]]) for i in range(len(node.ops))]))


class Capture(ast.NodeTransformer):
    """replaces outer names and attributes of outer names by parameters"""
    def __init__(self, bound):
        self.bound, self.got = bound, {}

    def param(self, key, node):
        if key not in self.got:
            self.got[key] = ("__dv_c%d" % len(self.got), node)
        return ast.copy_location(ast.Name(self.got[key][0], ast.Load()), node)

    def visit_Name(self, node):
        if not isinstance(node.ctx, ast.Load) or node.id in self.bound or node.id.startswith("__dv"):
            return node
        return self.param(node.id, node)

    def visit_Attribute(self, node):
        x, path = node, []
        while isinstance(x, ast.Attribute):
            path.append(x.attr)
            x = x.value
        if isinstance(x, ast.Name) and isinstance(node.ctx, ast.Load) and x.id not in self.bound and not x.id.startswith("__dv"):
            return self.param(".".join([x.id] + path[::-1]), node)
        self.generic_visit(node)
        return node


# ----------------------------------------------------------------------------------------- transformation
class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.n = 0
        self.infunc = 0

    def visit_FunctionDef(self, node):
        self.infunc += 1
        self.generic_visit(node)
        self.infunc -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "eval" and len(node.args) == 1 and not node.keywords:
            node.func.id = "__dv_eval__"
            node.args += [ast.copy_location(ast.Call(ast.Name(n, ast.Load()), [], []), node) for n in ("globals", "locals")]
            return ast.fix_missing_locations(node)
        if isinstance(node.func, ast.Name) and node.func.id in WRAP and node.func.id not in ("locals", "hasattr", "getattr", "set", "id"):
            node.func = ast.copy_location(ast.Call(ast.Name("__dv_b__", ast.Load()), [node.func], []), node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infunc:
            return node
        self.n += 1
        v = "__dv_L%d" % self.n
        names, mutated = modified(node.body)
        tnames = set()
        for x in ast.walk(node.target):
            if isinstance(x, ast.Name):
                tnames.add(x.id)
        names = [n for n in names if n not in tnames]
        mk = ast.parse("%s = __dv_loop__(None, locals(), %r, %r, %r)" % (v, tuple(names), tuple(mutated), "%s:%d" % (self.mod, node.lineno))).body[0]
        mk.value.args[0] = node.iter
        pre = [mk]
        if names:
            st = ast.parse("if %s.sym:\n    %s = %s.state()" % (v, "".join(n + ", " for n in names), v)).body[0]
            pre.append(st)
        node.iter = ast.parse("%s.items()" % v, mode="eval").body
        node.orelse = [ast.parse("%s.end(locals())" % v).body[0]] + node.orelse
        for p in pre:
            ast.copy_location(p, node)
            for x in ast.walk(p):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt)):
                    ast.copy_location(x, node)
        return pre + [node]

    def _comp(self, node, kind_):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        if not self.infunc:
            return node
        g = node.generators[0]
        t = g.target

        def lam(body):
            bound = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            for x in ast.walk(body):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    bound.add(x.id)
                if isinstance(x, ast.arg):
                    bound.add(x.arg)
            cap = Capture(bound)
            body = cap.visit(body)
            names, defaults = [ast.arg(k) for k, v in cap.got.values()], [v for k, v in cap.got.values()]
            if isinstance(t, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(t.id)] + names, None, [], [], None, defaults), body)
            if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in t.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg("__dv_t")] + names, None, [], [], None, defaults),
                                  ast.Call(inner, [ast.Starred(ast.Name("__dv_t", ast.Load()), ast.Load())], []))
            return None
        e = lam(node.elt)
        cs = [lam(MergeBool().visit(c)) for c in g.ifs]
        if e is None or any(c is None for c in cs):
            return node
        may = any(isinstance(x, ast.Subscript) and any(isinstance(y, ast.Call) for y in ast.walk(x.value)) for x in ast.walk(node.elt))
        call = ast.Call(ast.Name("__dv_comp__", ast.Load()), [e, g.iter, ast.List(cs, ast.Load()), ast.Constant(kind_), ast.Constant(may)], [])
        return ast.fix_missing_locations(ast.copy_location(call, node))

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


def modified(body):
    names, mut = [], []

    def base(x):
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            x = x.value
        return x.id if isinstance(x, ast.Name) else None
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                if x.id.startswith("__dv"):
                    continue
                names.append(x.id)
            if isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, ast.Store):
                b = base(x)
                if b:
                    names.append(b)
                    mut.append(b)
            if isinstance(x, ast.AugAssign):
                b = base(x.target)
                if b:
                    names.append(b)
                    if isinstance(x.target, ast.Subscript):
                        mut.append(b)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert", "extend", "pop", "remove"):
                b = base(x.func.value)
                if b and isinstance(x.func.value, ast.Name) and b not in ("np", "numpy"):
                    names.append(b)
    seen = []
    for n in names:
        if n not in seen:
            seen.append(n)
    return seen, list(dict.fromkeys(mut))


# ----------------------------------------------------------------------------------------- module loading
class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.contracts = {}     # "module:function" -> replacement installed for the current task
        self.loops = 0
        self.funcs = {}

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self.path_of(name)
        if not os.path.exists(path) and not (pkg and os.path.isdir(os.path.dirname(path))):
            raise ImportError("No module named '%s'" % name)
        if any(x in name.lower() for x in ("plot", "gui", "visualisation")) and name.rsplit(".", 1)[-1] != "Plot":
            raise ImportError("plotting and GUI are outside the verified subset")
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins_for(name, pkg)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__.update(__dv_b__=dv_b, __dv_loop__=Loop, __dv_comp__=dv_comp, __dv_bool__=dv_bool, __dv_eval__=dv_eval)
        self.mods[name] = m
        try:
            src = open(path, encoding="utf-8-sig").read() if os.path.exists(path) else ""
            self.sources[name] = src
            tree = ast.parse(src, path)
            short = name.split("SciDataTool.")[-1]
            tree = ast.fix_missing_locations(Tr(short).visit(tree))
            exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            par, ch = name.rsplit(".", 1)
            setattr(self.mods[par], ch, m)
        self.wrap_functions(m)
        return m

    def wrap_functions(self, m):
        """route calls of module-level functions through the contract table"""
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__globals__ is m.__dict__ and v.__module__ == m.__name__:
                key = m.__name__ + ":" + k
                self.funcs[key] = v
                m.__dict__[k] = self.dispatcher(key, v)

    def dispatcher(self, key, f):
        L = self

        def wrapper(*a, **kw):
            c = L.contracts.get(key)
            if c is not None:
                return c(*a, **kw)
            return f(*a, **kw)
        wrapper.__name__ = f.__name__
        wrapper.__qualname__ = f.__qualname__
        wrapper.__module__ = f.__module__
        wrapper.__wrapped__ = f
        wrapper.__doc__ = f.__doc__
        wrapper.__defaults__ = None
        return wrapper

    def builtins_for(self, modname, pkg):
        b = dict(builtins.__dict__)
        L = self

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = modname if pkg else modname.rpartition(".")[0]
                for _ in range(level - 1):
                    base = base.rpartition(".")[0]
                name = base + ("." + name if name else "")
            return L.import_(name, fromlist)
        b["__import__"] = imp
        b["open"] = _no_open
        return b

    def import_(self, name, fromlist=()):
        root = name.split(".")[0]
        if root == "SciDataTool":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and getattr(m, "__path__", None):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            pass
                return m
            return self.mods[root]
        if root in ("numpy", "scipy"):
            m = symnp.module(name)
            if m is None:
                raise ImportError("no contract for " + name)
            return m if fromlist else symnp.module(root)
        if name == "importlib":
            fake = types.ModuleType("importlib")
            fake.import_module = lambda n, p=None: self.import_(n, ("x",))
            return fake
        if name == "math":
            return mathmod()
        if root in ("h5py", "sklearn", "pandas"):
            m = symnp.Facade(name, {})
            m.__path__ = []
            return m if fromlist or "." not in name else symnp.Facade(root, {})
        if name in REAL_OK or root in REAL_OK:
            m = importlib.import_module(name)
            return m if fromlist else sys.modules[root]
        raise ImportError("%s is outside the verified subset" % name)


def mathmod():
    m = types.ModuleType("math")
    import math as real
    for k in dir(real):
        if not k.startswith("__"):
            setattr(m, k, getattr(real, k))
    m.pi = PI()
    m.floor = lambda x: s_floor(x) if is_sym(x) else real.floor(x)
    m.ceil = lambda x: s_ceil(x) if is_sym(x) else real.ceil(x)
    m.sqrt = lambda x: s_sqrt(x) if is_sym(x) else real.sqrt(x)
    m.log10 = lambda x: s_fun("log10", x) if is_sym(x) else real.log10(x)
    m.cos = lambda x: s_cos(x) if is_sym(x) else real.cos(x)
    m.sin = lambda x: s_sin(x) if is_sym(x) else real.sin(x)
    m.fabs = lambda x: s_abs(x) if is_sym(x) else real.fabs(x)
    return m


def _no_open(*a, **k):
    raise Unsupported("file access")
