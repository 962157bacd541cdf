"""Assumed contracts of the numpy / scipy functions the repository uses, over symbolic arrays.

Everything here is part of the trusted base; `dv/conform.py` compares every entry with the real library on
random inputs at check time."""
import builtins
import itertools
import types
from fractions import Fraction
from .core import *
from .core import _lift_nan2
from .arrays import *
from .arrays import _pick, _bin

pi = None


def A(x, k=None):
    return asarr(x, k)


def _ret(r):
    if isinstance(r, ndarray) and r.ndim == 0 and r.k not in "O":
        return r.get()
    return r


def map1(f, k=None):
    def g(x, *a, out=None, where=True, dtype=None, **kw):
        if kw or out is not None:
            raise Unsupported("ufunc option")
        if is_num(x):
            return f(norm(x))
        x = A(x)
        r = x.map(f, k)
        if where is not True:
            m = broadcast_to(A(where), r._shape).reader()
            rr = r.reader()
            c = ctx()
            c.n += 1
            u = z3.Function("undef!%d" % c.n, *([z3.IntSort()] * r.ndim + [z3.RealSort()])) if r.ndim else None
            r = ndarray.make(r._shape, r.k, lambda i: s_ite(m(i), rr(i), SReal(u(*[zint(j) for j in i])) if u is not None else 0))
        return _ret(r)
    return g


def map2(f, k=None):
    def g(x, y, out=None, **kw):
        if kw or out is not None:
            raise Unsupported("ufunc option")
        if is_num(x) and is_num(y):
            return f(norm(x), norm(y))
        return _ret(elementwise(f, A(x), A(y), k))
    return g


def tolist_shape(shape):
    if is_num(shape):
        return [shape]
    if isinstance(shape, ndarray):
        return shape.tolist() if shape.ndim else [shape.get()]
    return [unwrap(s) for s in shape]


def check_dims(shape):
    for s in shape:
        if type(s) in (float, SReal, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
        c = const_int(s)
        if c is not None:
            if c < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not tb_decide(s_ge(s, 0)):
            raise ValueError("negative dimensions are not allowed")


def full(shape, v, dtype=None):
    shape = tolist_shape(shape)
    check_dims(shape)
    v = unwrap(v)
    k = dkind(dtype) if dtype is not None else kind(v)
    v = s_cast_el(v, k) if k not in "OU" else v
    return ndarray.make(shape, k, lambda i: v)


def zeros(shape, dtype=float, order="C"):
    k = dkind(dtype)
    return full(shape, {"b": False, "i": 0, "f": Fraction(0), "c": SCplx(Fraction(0), Fraction(0)), "O": 0}[k], DTYPES[k])


def ones(shape, dtype=None):
    k = dkind(dtype)
    return full(shape, {"b": True, "i": 1, "f": Fraction(1), "c": SCplx(Fraction(1), Fraction(0))}[k], DTYPES[k])


def empty(shape, dtype=float):
    k = dkind(dtype)
    shape = tolist_shape(shape)
    check_dims(shape)
    c = ctx()
    c.n += 1
    f = z3.Function("empty!%d" % c.n, *([z3.IntSort()] * max(1, len(shape)) + [z3.RealSort()]))

    def fn(i):
        v = SReal(f(*[zint(j) for j in (i or (0,))]))
        return s_cast(v, k)
    return ndarray.make(shape, k, fn)


def zeros_like(a, dtype=None):
    a = A(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = A(a)
    return ones(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = A(a)
    return full(a.shape, s_cast(v, a.k), dtype or a.dtype)


def array(x, dtype=None, copy=True, ndmin=0):
    r = A(x)
    if r.k == "O" and r.ndim == 0:
        raise Unsupported("object array")
    r = r.copy() if copy else r
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None, ...]
    return r


def asarray(x, dtype=None):
    r = A(x)
    if dtype is not None and dkind(dtype) != r.k:
        r = r.astype(dtype)
    return r


def arange(*a, dtype=None):
    a = [unwrap(x) for x in a]
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    k = promote(kind(start), kind(stop), kind(step))
    if k == "b":
        k = "i"
    span = s_sub(stop, start)
    if const_int(step) == 1 and k == "i":
        n = span
    else:
        n = s_ceil(s_div(span, step))
    n = n if tb_decide(s_gt(n, 0)) else 0
    if dtype is not None:
        k = dkind(dtype)
    return ndarray.make((n,), k, lambda i: s_cast(s_add(start, s_mul(step, i[0])), k))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = unwrap(num)
    start, stop = unwrap(start), unwrap(stop)
    if isinstance(start, ndarray) or isinstance(stop, ndarray):
        raise Unsupported("linspace of arrays")
    if type(num) in (float, SReal, Fraction):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if tb_decide(s_lt(num, 0)):
        raise ValueError("Number of samples must be non-negative")
    endpoint = tb_decide(endpoint)
    div = s_sub(num, 1) if endpoint else num
    if tb_decide(s_gt(div, 0)):
        step = s_div(s_sub(stop, start), div)
        kk = promote("f", kind(start), kind(stop))

        def fn(i):
            v = s_add(start, s_mul(step, i[0]))
            if endpoint:
                return s_cast(s_ite(s_eq(i[0], div), stop, v), kk)   # numpy sets the last sample to stop exactly
            return s_cast(v, kk)
    else:
        step = float("nan")
        kk = promote("f", kind(start), kind(stop))
        fn = lambda i: s_cast(start, kk)
    r = ndarray.make((num,), kk, fn)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


def seq_of(x):
    if isinstance(x, ndarray):
        return list(x)
    return list(x)


def concatenate(arrs, axis=0):
    arrs = [A(a) for a in seq_of(arrs)]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        arrs, axis = [a.ravel() for a in arrs], 0
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    ax = norm_axis(axis, nd)
    for a in arrs[1:]:
        for d in range(nd):
            if d != ax and not same_dim(a.shape[d], arrs[0].shape[d]) and not dim_eq(a.shape[d], arrs[0].shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = promote(*[a.k for a in arrs])
    offs = [0]
    for a in arrs:
        offs.append(s_add(offs[-1], a.shape[ax]))
    rs = [a.reader() for a in arrs]
    shape = list(arrs[0].shape)
    shape[ax] = offs[-1]

    def fn(i):
        def val(j):
            return s_cast_el(rs[j](i[:ax] + (s_sub(i[ax], offs[j]),) + i[ax + 1:]), k)
        last = len(rs) - 1
        # drop empty pieces
        live = [j for j in range(len(rs)) if const_int(arrs[j].shape[ax]) != 0] or [last]
        r = None
        for j in reversed(live):
            if r is None:
                r = val(j)
            else:
                cond = s_lt(i[ax], offs[j + 1])
                cond = tb(cond)
                if cond is True:
                    r = val(j)
                elif cond is False:
                    pass
                else:
                    r = s_ite(cond, val(j), r)
        return r
    return ndarray.make(shape, k, fn)


def stack_cols(arrs):
    arrs = [A(a) for a in seq_of(arrs)]
    out = []
    for a in arrs:
        if a.ndim < 2:
            a = A(a).reshape([a.size, 1]) if a.ndim == 1 else A(a).reshape([1, 1])
        out.append(a)
    return concatenate(out, 1)


def vstack(arrs):
    out = []
    for a in [A(a) for a in seq_of(arrs)]:
        out.append(a if a.ndim >= 2 else a.reshape([1, a.size]))
    return concatenate(out, 0)


def hstack(arrs):
    arrs = [A(a) for a in seq_of(arrs)]
    arrs = [a.reshape([1]) if a.ndim == 0 else a for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def append(a, v, axis=None):
    a, v = A(a), A(v)
    if axis is None:
        return concatenate((a.ravel() if a.ndim else a.reshape([1]), v.ravel() if v.ndim else v.reshape([1])), 0)
    return concatenate((a, v), axis)


def insert(a, pos, v, axis=None):
    a = A(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ax = norm_axis(axis, a.ndim)
    pos = unwrap(pos)
    if isinstance(pos, (list, ndarray)):
        raise Unsupported("insert at several places")
    n = a.shape[ax]
    if tb_decide(s_or(s_lt(pos, s_neg(n)), s_gt(pos, n))):
        raise IndexError("index out of bounds")
    if tb_decide(s_lt(pos, 0)):
        pos = s_add(pos, n)
    pre, post = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    pre[ax], post[ax] = slice(None, pos), slice(pos, None)
    v = A(v)
    if a.ndim == 1:
        v = v.reshape([v.size]) if v.ndim else v.reshape([1])
    else:
        # numpy pads the value with leading dimensions, then moves the first one to the insertion axis
        if v.ndim > a.ndim:
            raise Unsupported("insert of an array of more dimensions")
        v = v.reshape([1] * (a.ndim - v.ndim) + list(v.shape))
        v = moveaxis(v, 0, ax)
        shp = list(a.shape)
        shp[ax] = v.shape[ax]
        v = broadcast_to(v, shp)
    return concatenate((a[tuple(pre)], v.astype(a.dtype), a[tuple(post)]), ax)


def delete(a, idx, axis=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    ax = norm_axis(axis, a.ndim)
    idx = unwrap(idx)
    if isinstance(idx, (list, ndarray)):
        m = A(idx)
        n = a.shape[ax]
        if m.enum is not None:
            en = m.enum
            keep = ndarray.make((n,), "b", lambda i: s_not(en.member(i[0])))
            return a._take(nonzero1(keep), ax)
        ids = [index_of(x, n) for x in m.tolist()]
        keep = ndarray.make((n,), "b", lambda i: s_and(*[s_ne(i[0], j) for j in ids]))
        return a._take(nonzero1(keep), ax)
    i = index_of(idx, a.shape[ax])
    pre, post = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    pre[ax], post[ax] = slice(None, i), slice(s_add(i, 1), None)
    return concatenate((a[tuple(pre)], a[tuple(post)]), ax)


def tile(a, reps):
    a = A(a)
    reps = tolist_shape(reps)
    n = max(a.ndim, len(reps))
    reps = [1] * (n - len(reps)) + list(reps)
    while a.ndim < n:
        a = a[None, ...]
    r = a.reader()
    check_dims(reps)
    shape = [s_mul(s, t) for s, t in zip(a.shape, reps)]
    old = a.shape

    def fn(i):
        return r(tuple(j if const_int(t) == 1 else (0 if const_int(s) == 1 else s_mod(j, s)) for j, s, t in zip(i, old, reps)))
    for s, t in zip(old, reps):
        if const_int(t) != 1 and const_int(s) is None:
            tb_decide(s_eq(s, 0))     # keep the empty case apart: no remainder modulo 0
    return ndarray.make(shape, a.k, fn)


def repeat(a, n, axis=None):
    a = A(a)
    if axis is None:
        a, axis = (a.ravel() if a.ndim else a.reshape([1])), 0
    ax = norm_axis(axis, a.ndim)
    n = unwrap(n)
    if isinstance(n, ndarray):
        raise Unsupported("repeat with counts")
    r = a.reader()
    shape = list(a.shape)
    shape[ax] = s_mul(shape[ax], n)
    return ndarray.make(shape, a.k, lambda i: r(i[:ax] + (s_floordiv(i[ax], n),) + i[ax + 1:]))


def roll(a, shift, axis=None):
    a = A(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("flattened roll")
        axis = 0
    ax = norm_axis(axis, a.ndim)
    n = a.shape[ax]
    if dim_eq(n, 0):
        return a.copy()
    r = a.reader()
    sh = unwrap(shift)
    c = const_int(sh)
    if c is not None and c in (1, -1):
        if c == 1:
            g = lambda i: s_ite(s_eq(i, 0), s_sub(n, 1), s_sub(i, 1))
        else:
            g = lambda i: s_ite(s_eq(i, s_sub(n, 1)), 0, s_add(i, 1))
    else:
        cc = ctx()
        if cc.entails(s_and(s_ge(sh, 0), s_lt(sh, n))):
            s0 = sh
        elif cc.entails(s_and(s_lt(sh, 0), s_ge(s_add(sh, n), 0))):
            s0 = s_add(sh, n)
        else:
            s0 = s_mod(sh, n)
        g = lambda i: s_ite(s_lt(i, s0), s_add(s_sub(i, s0), n), s_sub(i, s0))
    return ndarray.make(a.shape, a.k, lambda i: r(i[:ax] + (g(i[ax]),) + i[ax + 1:]))


def flip(a, axis=None):
    a = A(a)
    axes = range(a.ndim) if axis is None else [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    key = [slice(None)] * a.ndim
    for x in axes:
        key[x] = slice(None, None, -1)
    return a[tuple(key)]


def take(a, indices, axis=None, out=None, mode="raise"):
    if mode != "raise" or out is not None:
        raise Unsupported("take options")
    a = A(a)
    if axis is None:
        if a.ndim != 1:
            a = a.ravel()
        axis = 0
    ax = norm_axis(axis, a.ndim)
    ind = unwrap(indices) if isinstance(indices, ndarray) else indices
    key = [slice(None)] * a.ndim
    if is_num(ind):
        key[ax] = ind
        v = a[tuple(key)]
        return v.copy() if isinstance(v, ndarray) else v
    ind = A(ind)
    if ind.k == "b":
        ind = ind.astype(int)
    if ind.k != "i":
        if const_int(ind.size) == 0:
            ind = ind.astype(int)
        else:
            raise TypeError("Cannot cast array data to int")
    key[ax] = ind
    return a[tuple(key)]


def swapaxes(a, x, y):
    return A(a).swapaxes(x, y)


def result_type(*a):
    k = None
    for x in a:
        x = x.k if isinstance(x, ndarray) and x.ndim else dkind(x)
        k = x if k is None else promote(k, x)
    return DTYPES[k]


def moveaxis(a, s, d):
    a = A(a)
    s, d = norm_axis(s, a.ndim), norm_axis(d, a.ndim)
    order = [i for i in range(a.ndim) if i != s]
    order.insert(d, s)
    return a.transpose(order)


def transpose(a, axes=None):
    return A(a).transpose(axes) if axes is not None else A(a).transpose()


def squeeze(a, axis=None):
    a = A(a)
    r = a.squeeze(axis)
    return r


def expand_dims(a, axis):
    a = A(a)
    ax = norm_axis(axis, a.ndim + 1)
    key = [slice(None)] * a.ndim
    key.insert(ax, None)
    return a[tuple(key)]


def reshape(a, shape, order="C"):
    return A(a).reshape(shape, order=order)


def ravel(a):
    return A(a).ravel()


def atleast_1d(a):
    a = A(a)
    return a if a.ndim else a.reshape([1])


# ------------------------------------------------------------------ reductions
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [norm_axis(x, a.ndim) for x in axis]
    return [norm_axis(axis, a.ndim)]


def reduce_axis(a, ax, red, k, keepdims):
    """red(n, elemfunction) along one axis"""
    r = a.reader()
    n = a.shape[ax]
    if keepdims:
        shape = a.shape[:ax] + (1,) + a.shape[ax + 1:]
        fn = lambda i: red(n, lambda j: r(i[:ax] + (j,) + i[ax + 1:]))
    else:
        shape = a.shape[:ax] + a.shape[ax + 1:]
        fn = lambda i: red(n, lambda j: r(i[:ax] + (j,) + i[ax:]))
    return ndarray.make(shape, k, fn)


def _reduce(a, axis, red, k, keepdims):
    a = A(a)
    axs = _axes(a, axis)
    for ax in sorted(axs, reverse=True):
        a = reduce_axis(a, ax, red, k, keepdims)
    return _ret(a)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if kw or out is not None:
        raise Unsupported("sum option")
    if isinstance(a, types.GeneratorType):
        a = list(a)
    a = A(a)
    k = "i" if a.k == "b" else a.k
    return _reduce(a, axis, lambda n, f: s_cast(s_sum(n, lambda j: s_cast(f(j), k)), k), k, keepdims)


def nan_free(x, what):
    """assumed: the data contain no nan"""
    ctx().use("field values contain no nan (%s)" % what)


def nansum(a, axis=None, keepdims=False, **kw):
    nan_free(a, "nansum")
    return np_sum(a, axis=axis, keepdims=keepdims, **kw)


def prod(a, axis=None, **kw):
    a = A(a)

    def red(n, f):
        c = const_int(n)
        if c is None:
            raise Unsupported("product over a symbolic range")
        r = 1
        for j in range(c):
            r = s_mul(r, f(j))
        return r
    return _reduce(a, axis, red, a.k, False)


def mean(a, axis=None, keepdims=False, dtype=None):
    a = A(a)
    k = promote("f", a.k)
    axs = _axes(a, axis)
    n = 1
    for x in axs:
        n = s_mul(n, a.shape[x])
    s = np_sum(a, axis=axis, keepdims=keepdims)
    if isinstance(s, ndarray):
        return s.map(lambda x: s_cast(s_div(x, n), k), k)
    return s_cast(s_div(s, n), k)


def nanmean(a, axis=None, keepdims=False):
    nan_free(a, "nanmean")
    return mean(a, axis=axis, keepdims=keepdims)


def _extreme(op):
    def g(a, axis=None, out=None, keepdims=False, initial=None, **kw):
        if kw or out is not None or initial is not None:
            raise Unsupported("max/min option")
        a = A(a)
        for x in _axes(a, axis):
            if dim_eq(a.shape[x], 0):
                raise ValueError("zero-size array to reduction operation which has no identity")
        if a.k == "O":
            vals = a.ravel().tolist()
            return max(vals) if op == "max" else min(vals)
        return _reduce(a, axis, lambda n, f: s_ext(op, n, f), a.k, keepdims)
    return g


np_max = _extreme("max")
np_min = _extreme("min")


def nanmax(a, axis=None, **kw):
    nan_free(a, "nanmax")
    return np_max(a, axis=axis, **kw)


def nanmin(a, axis=None, **kw):
    nan_free(a, "nanmin")
    return np_min(a, axis=axis, **kw)


def _argext(op):
    def g(a, axis=None, **kw):
        if kw:
            raise Unsupported("argmax option")
        a = A(a)
        if axis is None and a.ndim != 1:
            a = a.ravel()
        if a.ndim == 2 and const_int(axis) is not None:
            ax = const_int(axis) % 2
            ra, cache = a.reader(), {}

            def el(i):
                e = z3.simplify(zint(i[0]))
                if e.get_id() not in cache:
                    ctx().keep.append(e)
                    col = ndarray.make((a.shape[ax],), a.k, lambda j: ra((j[0], i[0]) if ax == 0 else (i[0], j[0])))
                    cache[e.get_id()] = g(col)
                return cache[e.get_id()]
            return ndarray.make((a.shape[1 - ax],), "i", el)
        if a.ndim != 1:
            raise Unsupported("argmax along an axis of an nd array")
        n = a.shape[0]
        if dim_eq(n, 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        r = a.reader()
        better = s_gt if op == "max" else s_lt
        cn = const_int(n)
        if cn is not None and cn <= 8:
            bi, bv = 0, r((0,))
            for j in range(1, cn):
                c = better(r((j,)), bv)
                bi, bv = s_ite(c, j, bi), s_ite(c, r((j,)), bv)
            return bi
        c = ctx()
        w = SInt(c.fresh("arg", "int"))
        c.assume(z3.And(w.e >= 0, w.e < zint(n)))
        v = r((w,))
        c.ghost.setdefault("arg", []).append((op, w, n, r))

        def fact(k):
            # first best element
            c.assume(zbool(s_implies(s_and(s_ge(k, 0), s_lt(k, n)),
                                     s_and(s_not(better(r((k,)), v)), s_implies(s_lt(k, w), better(v, r((k,))))))))
        fact(0)
        fact(s_sub(n, 1))
        c.ghost.setdefault("argfact", []).append(fact)
        c.ghost.setdefault("argw", []).append(w)
        return w
    return g


argmax = _argext("max")
argmin = _argext("min")


def bound_arg(k):
    for f in list(ctx().ghost.get("argfact", [])):
        f(k)


def quant(n_dims, p, universal):
    """truth of (for all / exists) index: p(index), as a boolean; symbolic ranges get a witness"""
    c = ctx()
    cs = [const_int(n) for n in n_dims]
    if all(x is not None for x in cs):
        import itertools
        tot = 1
        for x in cs:
            tot *= x
        if tot <= 64:
            vals = [tb(p(ix)) for ix in itertools.product(*[range(x) for x in cs])]
            return s_and(*vals) if universal else s_or(*vals)
    w = tuple(SInt(c.fresh("w", "int")) for _ in n_dims)
    rng = s_and(*[s_and(s_ge(i, 0), s_lt(i, n)) for i, n in zip(w, n_dims)])
    if universal:
        c.ghost.setdefault("unis", []).append(w)
    else:
        c.ghost.setdefault("exis", []).append(w)
    pw = tb(p(w))
    b = SBool(c.fresh("Q", "bool"))
    if universal:
        # not b => the witness violates p;  b => p at every instantiated index
        c.assume(z3.Implies(z3.Not(b.e), z3.And(zbool(rng), z3.Not(zbool(pw)))))
        fact = lambda k: c.assume(zbool(s_implies(s_and(b, *[s_and(s_ge(i, 0), s_lt(i, n)) for i, n in zip(k, n_dims)]), p(k))))
    else:
        c.assume(z3.Implies(b.e, z3.And(zbool(rng), zbool(pw))))
        fact = lambda k: c.assume(zbool(s_implies(s_and(s_not(b), *[s_and(s_ge(i, 0), s_lt(i, n)) for i, n in zip(k, n_dims)]), s_not(p(k)))))
    c.ghost.setdefault("quant", []).append((len(n_dims), fact))
    # decide constant cases
    if c.entails(s_implies(rng, pw if universal else s_not(pw))):
        c.assume(b.e if universal else z3.Not(b.e))
        return universal
    fact(tuple(0 for _ in n_dims))
    fact(tuple(s_sub(n, 1) for n in n_dims))
    for k in c.ghost.get("witness", []):
        if len(k) == 1 and callable(k[0]):
            k = k[0]
            for w0 in c.ghost.get("unis", [])[-4:]:
                if len(n_dims) == 1:
                    fact((k(*w0),))
        elif len(k) == len(n_dims):
            fact(k)
    return b


def bound_quant(k):
    """instantiate every quantified fact at index k (tuple)"""
    for nd, fact in list(ctx().ghost.get("quant", [])):
        if nd == len(k):
            fact(k)


def all_(a, axis=None, **kw):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    if is_num(a):
        return tb(a)
    a = A(a)
    r = a.reader()
    if axis is not None:
        return _reduce(a, axis, lambda n, f: quant((n,), lambda j: tb(f(j[0])), True), "b", False)
    return quant(a.shape, lambda i: tb(r(i)), True)


def any_(a, axis=None, **kw):
    if is_num(a):
        return tb(a)
    a = A(a)
    r = a.reader()
    if axis is not None:
        return _reduce(a, axis, lambda n, f: quant((n,), lambda j: tb(f(j[0])), False), "b", False)
    return quant(a.shape, lambda i: tb(r(i)), False)


def array_equal(a, b, equal_nan=False):
    if a is None or b is None:
        return a is b
    a, b = A(a), A(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not dim_eq(x, y):
            return False
    if builtins.all(isinstance(n, int) for n in a.shape) and a.k not in "fcib":
        # text: element by element
        ra, rb = a.reader(), b.reader()
        return builtins.all(ra(i) == rb(i) for i in itertools.product(*[builtins.range(n) for n in a.shape]))
    return all_(elementwise(s_eq, a, b, "b!"))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = norm(rtol), norm(atol)
    f = lambda x, y: s_le(s_abs(s_sub(x, y)), s_add(at, s_mul(rt, s_abs(y))))
    if is_num(a) and is_num(b):
        return f(norm(a), norm(b))
    return _ret(elementwise(f, A(a), A(b), "b!"))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def cumsum(a, axis=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    ax = norm_axis(axis, a.ndim)
    r = a.reader()
    k = "i" if a.k == "b" else a.k
    return ndarray.make(a.shape, k, lambda i: s_cast(s_sum(s_add(i[ax], 1), lambda j: r(i[:ax] + (j,) + i[ax + 1:])), k))


def diff(a, n=1, axis=-1):
    if n != 1:
        raise Unsupported("diff order")
    a = A(a)
    ax = norm_axis(axis, a.ndim)
    lo, hi = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    lo[ax], hi[ax] = slice(None, -1), slice(1, None)
    return a[tuple(hi)] - a[tuple(lo)]


def trapz(y, x=None, dx=1.0, axis=-1):
    y = A(y)
    ax = norm_axis(axis, y.ndim)
    r = y.reader()
    n = y.shape[ax]
    if x is None:
        d = lambda j: norm(dx)
    else:
        x = A(x)
        if x.ndim != 1:
            raise Unsupported("trapz with nd x")
        rx = x.reader()
        if not dim_eq(x.shape[0], n):
            raise ValueError("operands could not be broadcast together")
        d = lambda j: s_sub(rx((s_add(j, 1),)), rx((j,)))
    k = promote("f", y.k)

    def red(i):
        get = lambda j: r(i[:ax] + (j,) + i[ax:])
        m = s_sub(n, 1)
        return s_cast(s_sum(m, lambda j: s_div(s_mul(d(j), s_add(get(s_add(j, 1)), get(j))), 2)), k)
    return _ret(ndarray.make(y.shape[:ax] + y.shape[ax + 1:], k, red))


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    y = A(y)
    ax = norm_axis(axis, y.ndim)
    r = y.reader()
    n = y.shape[ax]
    if x is None:
        d = lambda j: norm(dx)
    else:
        x = A(x)
        if x.ndim != 1:
            raise Unsupported("cumulative_trapezoid with nd x")
        rx = x.reader()
        if not dim_eq(x.shape[0], n):
            raise ValueError("If given, length of x along axis must be the same as y.")
        d = lambda j: s_sub(rx((s_add(j, 1),)), rx((j,)))
    k = promote("f", y.k)
    shape = list(y.shape)
    if initial is None:
        shape[ax] = s_sub(n, 1)
        off = 1
    else:
        off = 0

    def fn(i):
        get = lambda j: r(i[:ax] + (j,) + i[ax + 1:])
        v = s_cast(s_sum(s_add(i[ax], off), lambda j: s_div(s_mul(d(j), s_add(get(s_add(j, 1)), get(j))), 2)), k)
        if initial is not None:
            v = s_ite(s_eq(i[ax], 0), norm(initial), v)
        return v
    return ndarray.make(shape, k, fn)


def gradient(f, *varargs, axis=None, edge_order=1):
    f = A(f)
    if edge_order != 1 or len(varargs) > 1:
        raise Unsupported("gradient options")
    if axis is None:
        if f.ndim != 1:
            raise Unsupported("gradient along all axes")
        axis = 0
    ax = norm_axis(axis, f.ndim)
    n = f.shape[ax]
    if tb_decide(s_lt(n, 2)):
        raise ValueError("Shape of array too small to calculate a numerical gradient")
    k = promote("f", f.k)
    r = f.reader()
    if not varargs or is_num(varargs[0]):
        h = norm(varargs[0]) if varargs else 1
        xs = lambda j: s_mul(h, j)
    else:
        x = A(varargs[0])
        if not dim_eq(x.shape[0], n):
            raise ValueError("when 1d, distances must match the length of the corresponding dimension")
        rx = x.reader()
        xs = lambda j: rx((j,))

    def fn(i):
        get = lambda j: r(i[:ax] + (j,) + i[ax + 1:])
        j = i[ax]

        def inner():
            hd, hs = s_sub(xs(s_add(j, 1)), xs(j)), s_sub(xs(j), xs(s_sub(j, 1)))
            num = s_add(s_add(s_mul(s_mul(hs, hs), get(s_add(j, 1))), s_mul(s_sub(s_mul(hd, hd), s_mul(hs, hs)), get(j))),
                        s_neg(s_mul(s_mul(hd, hd), get(s_sub(j, 1)))))
            return s_div(num, s_mul(s_mul(hs, hd), s_add(hd, hs)))

        def first():
            return s_div(s_sub(get(1), get(0)), s_sub(xs(1), xs(0)))

        def last():
            return s_div(s_sub(get(s_sub(n, 1)), get(s_sub(n, 2))), s_sub(xs(s_sub(n, 1)), xs(s_sub(n, 2))))
        c0, c1 = tb(s_eq(j, 0)), tb(s_eq(j, s_sub(n, 1)))
        if c0 is not True and c0 is not False and ctx().entails(s_not(c0)):
            c0 = False
        if c1 is not True and c1 is not False and ctx().entails(s_not(c1)):
            c1 = False
        if c0 is True:
            v = first()
        elif c1 is True:
            v = last()
        else:
            v = inner()
            if c1 is not False:
                v = s_ite(c1, last(), v)
            if c0 is not False:
                v = s_ite(c0, first(), v)
        return s_cast(v, k)
    return ndarray.make(f.shape, k, fn)


# ------------------------------------------------------------------ selection
def where(c, *xy):
    c = A(c)
    if not xy:
        return nonzero(c)
    x, y = A(xy[0]), A(xy[1])
    shp = bshape([c.shape, x.shape, y.shape])
    rc, rx, ry = [broadcast_to(v, shp).reader() for v in (c, x, y)]
    k = promote(x.k, y.k)
    return _ret(ndarray.make(shp, k, lambda i: s_ite(rc(i), s_cast_el(rx(i), k), s_cast_el(ry(i), k))))


def nonzero(a):
    a = A(a)
    if a.ndim != 1:
        if all(const_int(d) is not None for d in a.shape):
            import itertools
            idx = [ix for ix in itertools.product(*[range(const_int(d)) for d in a.shape]) if tb_decide(a.get(*ix))]
            return tuple(A([ix[d] for ix in idx], "i") for d in range(a.ndim))
        raise Unsupported("nonzero of an nd array")
    return (nonzero1(a if a.k == "b" else a.map(lambda x: tb(s_ne(x, 0)), "b")),)


def argwhere(a):
    a = A(a)
    if a.ndim == 0:
        a = a.reshape([1])
        return nonzero(a)[0].reshape([-1, 1])[:, :0] if False else _unsup("argwhere of a scalar")
    if a.ndim != 1:
        raise Unsupported("argwhere of an nd array")
    e = nonzero1(a if a.k == "b" else a.map(lambda x: tb(s_ne(x, 0)), "b"))
    r = e.reader()
    out = ndarray.make((e.shape[0], 1), "i", lambda i: r((i[0],)))
    return out


def _unsup(m):
    raise Unsupported(m)


def flatnonzero(a):
    return nonzero(A(a).ravel())[0]


def count_nonzero(a):
    return np_sum(A(a).map(lambda x: tb(x), "b"))


def isin(a, b, **kw):
    a, b = A(a), A(b)
    ra, rb = a.reader(), b.ravel().reader()
    n = b.size
    return ndarray.make(a.shape, "b", lambda i: quant((n,), lambda j: s_eq(ra(i), rb(j)), False))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    """sorted distinct values; index of first occurrence; inverse; counts"""
    a = A(a)
    if a.ndim == 1 and const_int(axis) == 0:
        axis = None
    if a.k in "OU" or axis is not None:
        vals = a.ravel().tolist() if axis is None else None
        if vals is None or return_index or return_inverse or return_counts:
            raise Unsupported("unique of strings")
        return A(sorted(set(vals)))
    a = a.ravel()
    n = a.shape[0]
    r = a.reader()
    c = ctx()
    cn = const_int(n)
    if cn is not None and cn <= 1:
        out = [a.copy(), arange(cn), arange(cn), ones((cn,), int)]
        sel = [out[0]] + [o for o, f in zip(out[1:], (return_index, return_inverse, return_counts)) if f]
        return sel[0] if len(sel) == 1 else tuple(sel)
    c.use("np.unique: sorted distinct values with index, inverse and counts")
    m = SInt(c.fresh("nu", "int"))
    c.n += 1
    t = c.n
    IX = z3.Function("uidx!%d" % t, z3.IntSort(), z3.IntSort())     # index of first occurrence
    INV = z3.Function("uinv!%d" % t, z3.IntSort(), z3.IntSort())
    CNT = z3.Function("ucnt!%d" % t, z3.IntSort(), z3.IntSort())
    c.assume(z3.And(m.e >= 0, m.e <= zint(n), z3.Implies(zint(n) > 0, m.e >= 1), z3.Implies(zint(n) == 0, m.e == 0)))
    ks, js, done = [], [], set()

    def ix(k):
        ek = zint(k)
        v = IX(ek)
        if ("k", ek.get_id()) not in done:
            done.add(("k", ek.get_id()))
            c.keep.append(ek)
            inr = z3.And(ek >= 0, ek < m.e)
            c.assume(z3.Implies(inr, z3.And(v >= 0, v < zint(n), INV(v) == ek)))
            for o in ks:
                vo, vk = zreal(r((SInt(IX(o)),))), zreal(r((SInt(v),)))
                c.assume(z3.Implies(z3.And(0 <= o, o < ek, ek < m.e), vo < vk))
                c.assume(z3.Implies(z3.And(0 <= ek, ek < o, o < m.e), vk < vo))
            ks.append(ek)
        return SInt(v)

    def inv(j):
        ej = zint(j)
        v = INV(ej)
        if ("j", ej.get_id()) not in done:
            done.add(("j", ej.get_id()))
            c.keep.append(ej)
            inr = z3.And(ej >= 0, ej < zint(n))
            c.assume(z3.Implies(inr, z3.And(v >= 0, v < m.e)))
            i0 = ix(SInt(v))
            c.assume(z3.Implies(inr, z3.And(zreal(r((i0,))) == zreal(r((SInt(ej),))), i0.e <= ej)))
            js.append(ej)
        return SInt(v)

    def cnt(k):
        ek = zint(k)
        c.assume(z3.Implies(z3.And(ek >= 0, ek < m.e), z3.And(CNT(ek) >= 1, CNT(ek) <= zint(n))))
        return SInt(CNT(ek))
    c.ghost.setdefault("classes", []).append(inv)
    c.ghost.setdefault("firsts", []).append(ix)
    out = [ndarray.make((m,), a.k, lambda i: r((ix(i[0]),)))]
    if return_index:
        out.append(ndarray.make((m,), "i", lambda i: ix(i[0])))
    if return_inverse:
        out.append(ndarray.make((n,), "i", lambda i: inv(i[0])))
        c.ghost.setdefault("onto", []).append((out[-1].buf.fn, m))
    if return_counts:
        out.append(ndarray.make((m,), "i", lambda i: cnt(i[0])))
    return out[0] if len(out) == 1 else tuple(out)


def intersect1d(ar1, ar2, assume_unique=False, return_indices=False):
    """sorted distinct common values with a position in each array"""
    a, b = A(ar1).ravel(), A(ar2).ravel()
    c = ctx()
    c.use("np.intersect1d: sorted distinct values common to both arrays, with the position of the first occurrence in each")
    if assume_unique is not False:
        raise Unsupported("intersect1d of arrays assumed unique")
    n1, n2 = a.shape[0], b.shape[0]
    ra, rb = a.reader(), b.reader()
    m = SInt(c.fresh("ni", "int"))
    c.n += 1
    t = c.n
    I1, I2 = (z3.Function("isec%d!%d" % (d, t), z3.IntSort(), z3.IntSort()) for d in (1, 2))
    POS = z3.Function("ipos!%d" % t, z3.IntSort(), z3.IntSort())
    c.assume(z3.And(m.e >= 0, m.e <= zint(n1), m.e <= zint(n2)))
    done, ks = set(), []

    def at(k, I):
        ek = zint(k)
        if ek.get_id() not in done:
            done.add(ek.get_id())
            c.keep.append(ek)
            inr = z3.And(ek >= 0, ek < m.e)
            i, j = I1(ek), I2(ek)
            c.assume(z3.Implies(inr, z3.And(i >= 0, i < zint(n1), j >= 0, j < zint(n2), zreal(ra((SInt(i),))) == zreal(rb((SInt(j),))))))
            for o in ks:
                vo, vk = zreal(ra((SInt(I1(o)),))), zreal(ra((SInt(i),)))
                c.assume(z3.Implies(z3.And(0 <= o, o < ek, ek < m.e), vo < vk))
                c.assume(z3.Implies(z3.And(0 <= ek, ek < o, o < m.e), vk < vo))
            ks.append(ek)
        return SInt(I(ek))

    def common(i, j):
        """position of a value found at i in the first array and at j in the second one"""
        ei, ej = zint(i), zint(j)
        k = POS(ei)
        at(SInt(k), I1)
        inr = z3.And(ei >= 0, ei < zint(n1), ej >= 0, ej < zint(n2), zreal(ra((i,))) == zreal(rb((j,))))
        c.assume(z3.Implies(inr, z3.And(k >= 0, k < m.e, zreal(ra((SInt(I1(k)),))) == zreal(ra((i,))), I1(k) <= ei, I2(k) <= ej)))
        return SInt(k)
    c.ghost.setdefault("common", []).append(common)
    out = (ndarray.make((m,), a.k, lambda i: ra((at(i[0], I1),))), ndarray.make((m,), "i", lambda i: at(i[0], I1)), ndarray.make((m,), "i", lambda i: at(i[0], I2)))
    return out if return_indices else out[0]


def sort(a, axis=-1, **kw):
    a = A(a)
    if a.ndim != 1:
        raise Unsupported("sort of an nd array")
    r = a.reader()
    p = argsort(a)
    rp = p.reader()
    return ndarray.make(a.shape, a.k, lambda i: r((rp(i),)))


def argsort(a, axis=-1, kind=None, **kw):
    """a permutation that sorts (assumed; stability not modelled)"""
    a = A(a)
    if a.ndim != 1:
        raise Unsupported("argsort of an nd array")
    n = a.shape[0]
    r = a.reader()
    c = ctx()
    c.use("np.argsort returns a permutation that sorts the array")
    c.n += 1
    t = c.n
    PERM = z3.Function("perm!%d" % t, z3.IntSort(), z3.IntSort())
    PINV = z3.Function("pinv!%d" % t, z3.IntSort(), z3.IntSort())
    done, ks = set(), []

    def at(k):
        ek = zint(k)
        v = PERM(ek)
        if ek.get_id() not in done:
            done.add(ek.get_id())
            c.keep.append(ek)
            inr = z3.And(ek >= 0, ek < zint(n))
            c.assume(z3.Implies(inr, z3.And(v >= 0, v < zint(n), PINV(v) == ek)))
            vk = r((SInt(v),))
            for o in ks:
                vo = r((SInt(PERM(o)),))
                c.assume(z3.Implies(z3.And(0 <= o, o <= ek, ek < zint(n)), zbool(s_le(vo, vk))))
                c.assume(z3.Implies(z3.And(0 <= ek, ek <= o, o < zint(n)), zbool(s_le(vk, vo))))
            ks.append(ek)
        return SInt(v)
    done2 = set()

    def inverse(j):
        """position of element j: the order of a permutation is its inverse"""
        e = zint(j)
        k = PINV(e)
        if e.get_id() not in done2:
            done2.add(e.get_id())
            c.keep.append(e)
            at(SInt(k))
            c.assume(z3.Implies(z3.And(e >= 0, e < zint(n)), z3.And(k >= 0, k < zint(n), PERM(k) == e)))
        return SInt(k)
    known = c.ghost.setdefault("permof", [])
    for fn0, f in known:
        if a.src is None and a.buf.fn is fn0:
            out = ndarray.make((n,), "i", lambda i: f(i[0]))
            break
    else:
        out = ndarray.make((n,), "i", lambda i: at(i[0]))
        known.append((out.buf.fn, inverse))
    c.ghost.setdefault("perm", []).append((n, PERM, PINV, at))
    return out


def bincount(x, weights=None, minlength=0):
    x = A(x)
    if weights is None:
        w = lambda j: 1
        k = "i"
    else:
        wa = A(weights)
        if not dim_eq(wa.shape[0], x.shape[0]):
            raise ValueError("The weights and list don't have the same length.")
        rw = wa.reader()
        w = lambda j: rw((j,))
        if wa.k == "c":
            raise TypeError("Cannot cast array data from dtype('complex128') to dtype('float64') according to the rule 'safe'")
        k = "f"
    rx = x.reader()
    n = x.shape[0]
    if dim_eq(n, 0):
        return zeros((minlength,), DTYPES[k])
    mx = np_max(x)
    if tb_decide(s_lt(np_min(x), 0)):
        raise ValueError("'list' argument must have no negative elements")
    size = s_add(mx, 1)
    for fn0, m in ctx().ghost.get("onto", ()):
        if x.src is None and x.buf.fn is fn0:
            size = m            # every class is met, so the largest index is m - 1
    if not (const_int(minlength) == 0):
        if tb_decide(s_gt(minlength, size)):
            size = minlength
    return ndarray.make((size,), k, lambda i: s_cast(s_sum(n, lambda j: s_ite(s_eq(rx((j,)), i[0]), w(j), 0)), k))


def outer(a, b):
    a, b = A(a).ravel(), A(b).ravel()
    return a.reshape([a.size, 1]) * b.reshape([1, b.size])


def meshgrid(*xs, indexing="xy", sparse=False):
    xs = [A(x) for x in xs]
    xs = [x.reshape([1]) if x.ndim == 0 else x for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = [xs[o].shape[0] for o in order]
    out = []
    for v, x in enumerate(xs):
        d = order.index(v)
        r = x.reader()
        out.append(ndarray.make(shape, x.k, lambda i, r=r, d=d: r((i[d],))))
    return out


def tensordot(a, b, axes=2):
    a, b = A(a), A(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if is_num(aa) else list(aa)
        bb = [bb] if is_num(bb) else list(bb)
    aa, bb = [norm_axis(x, a.ndim) for x in aa], [norm_axis(x, b.ndim) for x in bb]
    if len(aa) != len(bb):
        raise ValueError("shape-mismatch for sum")
    for x, y in zip(aa, bb):
        if not dim_eq(a.shape[x], b.shape[y]):
            raise ValueError("shape-mismatch for sum")
    if len(aa) != 1:
        raise Unsupported("tensordot over several axes")
    fa, fb = [d for d in range(a.ndim) if d not in aa], [d for d in range(b.ndim) if d not in bb]
    shape = [a.shape[d] for d in fa] + [b.shape[d] for d in fb]
    ra, rb = a.reader(), b.reader()
    n = a.shape[aa[0]]
    k = promote(a.k, b.k)

    def fn(i):
        def term(j):
            ia, ib = [None] * a.ndim, [None] * b.ndim
            for d, x in zip(fa, i[:len(fa)]):
                ia[d] = x
            for d, x in zip(fb, i[len(fa):]):
                ib[d] = x
            ia[aa[0]] = j
            ib[bb[0]] = j
            return s_mul(ra(tuple(ia)), rb(tuple(ib)))
        return s_cast(s_sum(n, term), k)
    return _ret(ndarray.make(shape, k, fn))


def matmul(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if b.ndim <= 2 and a.ndim <= 2:
        return tensordot(a, b, ([a.ndim - 1], [max(0, b.ndim - 2)]))
    raise Unsupported("stacked matmul")


def dot(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, ([a.ndim - 1], [max(0, b.ndim - 2)]))


def apply_along_axis(f, axis, a, *args, **kw):
    """f applied to every 1-D slice; the result of f must be a scalar or 1-D with a length independent of the slice"""
    a = A(a)
    ax = norm_axis(axis, a.ndim)
    r = a.reader()
    c = ctx()
    for d, n in enumerate(a.shape):
        if d != ax and dim_eq(n, 0):
            raise ValueError("Cannot apply_along_axis when any iteration dimensions are 0")
    rest = a.shape[:ax] + a.shape[ax + 1:]

    def slice_at(i):
        return ndarray.make((a.shape[ax],), a.k, lambda j: r(tuple(i[:ax]) + j + tuple(i[ax:])))
    first = tuple(SInt(c.fresh("sl", "int")) for _ in rest)
    for i, n in zip(first, rest):
        c.assume(z3.And(i.e >= 0, i.e < zint(n)))
    res = f(slice_at(first), *args, **kw)
    ra = A(res)
    memo_ = {}

    def at(i):
        key = tuple(x if type(x) is int else x.e.get_id() for x in i)
        if key not in memo_:
            memo_[key] = (A(f(slice_at(i), *args, **kw)), i)
        return memo_[key][0]
    if ra.ndim == 0:
        return ndarray.make(rest, ra.k, lambda i: at(i).get())
    if ra.ndim != 1:
        raise Unsupported("apply_along_axis with an nd result")
    shape = a.shape[:ax] + (ra.shape[0],) + a.shape[ax + 1:]
    return ndarray.make(shape, ra.k, lambda i: at(i[:ax] + i[ax + 1:]).get(i[ax]))


def nd_round(a, decimals=0, out=None):
    if const_int(decimals) != 0:
        sc = Fraction(10) ** const_int(decimals)
        f = lambda x: s_div(s_cast(s_round(s_mul(x, sc)), "f"), sc) if kind(x) == "f" else x
    else:
        f = lambda x: s_cast(s_round(x), "f") if kind(x) == "f" else x
    if is_num(a):
        return f(norm(a))
    a = A(a)
    if a.k == "c":
        raise Unsupported("round of complex")
    return _ret(a.map(f, a.k))


def _floorf(x):
    return s_cast(s_floor(x), "f") if kind(x) == "f" else x


def _ceilf(x):
    return s_cast(s_ceil(x), "f") if kind(x) == "f" else x


def _tofloat(f):
    return lambda x: f(s_cast(x, "f") if kind(x) in "bi" else x)


def s_angle(z):
    re, im = cx(z)
    return s_arctan2(im, re)


def isnan1(x):
    x = norm(x)
    if isnan_py(x):
        return True
    if type(x) is SMaybe:
        return x.nan
    if type(x) is SCplx:
        return s_or(isnan1(x.re), isnan1(x.im))
    return False


def s_sign(x):
    return s_ite(s_gt(x, 0), 1, s_ite(s_lt(x, 0), -1, 0)) if kind(x) != "f" else s_cast(s_ite(s_gt(x, 0), 1, s_ite(s_lt(x, 0), -1, 0)), "f")


# ------------------------------------------------------------------ Fourier
def _multiple(a, o):
    """factor f with a = f * o element-wise, whatever the values of the Fourier sums; None if none of those tried"""
    c = ctx()
    ix = tuple(SInt(c.fresh("fi", "int")) for _ in a.shape)
    rng = s_and(*[s_and(s_ge(i, 0), s_lt(i, n_)) for i, n_ in zip(ix, a.shape)])
    c.ghost["opaque"] = True
    try:
        av, ov = a.get(*ix), o.get(*ix)
        size = 1
        cand = [1]
        for d in a.shape:
            cand += [d, s_div(1, d)]
            size = s_mul(size, d)
        if a.ndim > 1:
            cand += [size, s_div(1, size)]
        cand += [Fraction(1, 2), 2]
        for fac in cand:
            if c.prove_quiet(zbool(s_implies(rng, s_eq(av, s_mul(ov, fac)))))[0] == "proved":
                return fac
    finally:
        c.ghost["opaque"] = False
    return None


def _fft1(a, ax, sign, scale, register=True):
    """Fourier sum along one axis.  fft followed by ifft (same length) is recognised as the identity."""
    a = A(a)
    n = a.shape[ax]
    c = ctx()
    c.use("fft/ifft compute the Fourier sums and are inverse of each other")
    if dim_eq(n, 0):
        raise ValueError("Invalid number of FFT data points (0) specified.")
    r = a.reader()
    shape = a.shape

    c.n += 1
    isort = [z3.IntSort()] * len(shape)
    fre, fim = z3.Function("fft.re!%d" % c.n, *isort, z3.RealSort()), z3.Function("fft.im!%d" % c.n, *isort, z3.RealSort())

    def fn(i):
        if c.ghost.get("opaque"):
            zi = [zint(u) for u in i]
            return mk_cplx(SReal(fre(*zi)), SReal(fim(*zi)))
        k = i[ax]

        def term(j):
            ang = s_div(s_mul(s_mul(s_mul(2, PI()), s_mul(k, j)), sign), n)
            return s_mul(r(i[:ax] + (j,) + i[ax + 1:]), s_exp(mk_cplx(0, ang)))
        v = s_cast(s_sum(n, term), "c")
        v = s_div(v, n) if scale else v
        if all(isinstance(u, int) for u in i):
            zi = [zint(u) for u in i]
            vr, vi = cx(v)
            c.assume(z3.And(fre(*zi) == zreal(vr), fim(*zi) == zreal(vi)))
        return v
    out = ndarray.make(shape, "c", fn)
    if not register:
        return out
    # inverse recognition
    reg = c.ghost.setdefault("fft", [])
    for (o, src, oax, osign, oscale) in reg:
        if oax == ax and osign == -sign and o.ndim == a.ndim:
            if not all(same_dim(x, y) or ctx().entails(s_eq(x, y)) for x, y in zip(o.shape, shape)):
                continue
            fac = _multiple(a, o)
            if fac is not None:
                    rs = src.reader()
                    tot = fac
                    if oscale:
                        tot = s_div(tot, n)
                    if not scale:
                        tot = s_mul(tot, n)
                    return ndarray.make(shape, "c", lambda i: s_cast(s_mul(rs(i), tot), "c"))
    reg.append((out, a.snapshot(), ax, sign, scale))
    return out


def fft(a, n=None, axis=-1, norm=None, **kw):
    if n is not None or norm is not None or kw:
        raise Unsupported("fft option")
    a = A(a)
    return _fft1(a, norm_axis(axis, a.ndim), -1, False)


def ifft(a, n=None, axis=-1, norm=None, **kw):
    if n is not None or norm is not None or kw:
        raise Unsupported("ifft option")
    a = A(a)
    return _fft1(a, norm_axis(axis, a.ndim), 1, True)


def fftn(a, s=None, axes=None, norm=None, **kw):
    if s is not None or norm is not None or kw:
        raise Unsupported("fftn option")
    a = A(a)
    for x in (range(a.ndim) if axes is None else axes):
        a = fft(a, axis=x)
    return a


def ifftn(a, s=None, axes=None, norm=None, **kw):
    if s is not None or norm is not None or kw:
        raise Unsupported("ifftn option")
    a = A(a)
    for x in reversed(list(range(a.ndim) if axes is None else axes)):
        a = ifft(a, axis=x)
    return a


def rfft(a, n=None, axis=-1, norm=None, **kw):
    """the first n//2+1 terms of the Fourier sum of a real array"""
    if n is not None or norm is not None or kw:
        raise Unsupported("rfft option")
    a = A(a)
    if a.k == "c":
        raise Unsupported("rfft of a complex array")
    ax = norm_axis(axis, a.ndim)
    f = _fft1(a, ax, -1, False, register=False)
    m = s_add(s_floordiv(a.shape[ax], 2), 1)
    key = [slice(None)] * a.ndim
    key[ax] = slice(None, m)
    out = f[tuple(key)]
    ctx().ghost.setdefault("rfft", []).append((out.snapshot(), a.snapshot(), ax))
    return out


def irfft(a, n=None, axis=-1, norm=None, **kw):
    """real array of length 2*(m-1) whose first m Fourier terms are given; inverse of rfft for an even length"""
    if n is not None or norm is not None or kw:
        raise Unsupported("irfft option")
    a = A(a)
    ax = norm_axis(axis, a.ndim)
    c = ctx()
    c.use("fft/ifft compute the Fourier sums and are inverse of each other")
    m = a.shape[ax]
    n = s_mul(2, s_sub(m, 1))
    if dim_eq(m, 1) or dim_eq(m, 0):
        raise ValueError("Invalid number of FFT data points specified.")
    shape = a.shape[:ax] + (n,) + a.shape[ax + 1:]
    for (o, src, oax) in c.ghost.get("rfft", []):
        if oax != ax or o.ndim != a.ndim:
            continue
        if not all(same_dim(x, y) or c.entails(s_eq(x, y)) for x, y in zip(src.shape, shape)):
            continue
        fac = _multiple(a, o)
        if fac is not None:
            rs = src.reader()
            return ndarray.make(shape, "f", lambda i, rs=rs, fac=fac: s_cast(s_mul(rs(i), fac), "f"))
    r = a.reader()

    def fn(i):
        j = i[ax]
        at = lambda k: r(i[:ax] + (k,) + i[ax + 1:])

        def term(k):
            ang = s_div(s_mul(s_mul(2, PI()), s_mul(s_add(k, 1), j)), n)
            return s_mul(2, cx(s_mul(at(s_add(k, 1)), s_exp(mk_cplx(0, ang))))[0])
        ends = s_add(cx(at(0))[0], s_mul(cx(at(s_sub(m, 1)))[0], s_ite(s_eq(s_mod(j, 2), 0), 1, -1)))
        return s_cast(s_div(s_add(ends, s_sum(s_sub(m, 2), term)), n), "f")
    return ndarray.make(shape, "f", fn)


def rfftn(a, s=None, axes=None, norm=None, **kw):
    if s is not None or norm is not None or kw:
        raise Unsupported("rfftn option")
    a = A(a)
    axs = list(range(a.ndim)) if axes is None else list(axes)
    a = rfft(a, axis=axs[-1])
    for x in axs[:-1]:
        a = fft(a, axis=x)
    return a


def irfftn(a, s=None, axes=None, norm=None, **kw):
    if s is not None or norm is not None or kw:
        raise Unsupported("irfftn option")
    a = A(a)
    axs = list(range(a.ndim)) if axes is None else list(axes)
    for x in axs[:-1]:
        a = ifft(a, axis=x)
    return irfft(a, axis=axs[-1])


def fftshift(a, axes=None):
    a = A(a)
    axs = list(range(a.ndim)) if axes is None else ([axes] if is_num(axes) else list(axes))
    for x in axs:
        x = norm_axis(x, a.ndim)
        a = roll(a, s_floordiv(a.shape[x], 2), x)
    return a


def ifftshift(a, axes=None):
    a = A(a)
    axs = list(range(a.ndim)) if axes is None else ([axes] if is_num(axes) else list(axes))
    for x in axs:
        x = norm_axis(x, a.ndim)
        a = roll(a, s_neg(s_floordiv(a.shape[x], 2)), x)
    return a


def fftfreq(n, d=1.0):
    h = s_floordiv(s_add(n, 1), 2)
    return ndarray.make((n,), "f", lambda i: s_div(s_ite(s_lt(i[0], h), i[0], s_sub(i[0], n)), s_mul(n, norm(d))))


def rfftfreq(n, d=1.0):
    m = s_add(s_floordiv(n, 2), 1)
    return ndarray.make((m,), "f", lambda i: s_div(i[0], s_mul(n, norm(d))))


# ------------------------------------------------------------------ interpolation
def locate(rx, n, x):
    """index j with xs[j] <= x < xs[j+1] (increasing xs, xs[0] <= x <= xs[n-1]; j <= n-2)"""
    c = ctx()
    key = ("loc", id(rx), zreal(x).get_id())
    if key in c.ghost:
        return c.ghost[key][0]
    j = SInt(c.fresh("seg", "int"))
    ins = s_and(s_ge(x, rx((0,))), s_le(x, rx((s_sub(n, 1),))))
    c.assume(zbool(s_implies(s_and(ins, s_ge(n, 2)), s_and(s_ge(j, 0), s_le(j, s_sub(n, 2)),
                                        s_le(rx((j,)), x), s_le(x, rx((s_add(j, 1),)))))))
    # outside the samples: the first or the last segment
    c.assume(zbool(s_implies(s_lt(x, rx((0,))), s_eq(j, 0))))
    c.assume(zbool(s_implies(s_gt(x, rx((s_sub(n, 1),))), s_eq(j, s_sub(n, 2)))))
    c.ghost[key] = (j, x, rx)
    return j


class interp1d:
    """scipy.interpolate.interp1d(kind='linear'), bounds_error default: ValueError outside the range"""
    def __init__(self, x, y, axis=-1, kind="linear", fill_value=None, bounds_error=None, assume_sorted=False, copy=True):
        if kind != "linear":
            raise Unsupported("interp1d kind")
        self.x, self.y = A(x).snapshot(), A(y).snapshot()
        self.ax = norm_axis(axis, self.y.ndim)
        self.fill, self.be = fill_value, bounds_error
        if not dim_eq(self.x.shape[0], self.y.shape[self.ax]):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        ctx().use("interp1d(kind=linear): piecewise linear interpolation, samples sorted")

    def __call__(self, xn):
        c = ctx()
        xn = A(xn)
        rx, ry, rn = self.x.reader(), self.y.reader(), xn.reader()
        n = self.x.shape[0]
        ax = self.ax
        if xn.ndim > 1:
            raise Unsupported("interp1d at an nd array")
        out_of = None
        extrap = isinstance(self.fill, str) and self.fill == "extrapolate"
        fillv = None
        if self.fill is not None and not extrap:
            fillv = unwrap(self.fill)
            if isinstance(fillv, (tuple, list, ndarray)):
                raise Unsupported("interp1d fill values")
        inside = lambda v: s_and(s_ge(v, rx((0,))), s_le(v, rx((s_sub(n, 1),))))
        if not extrap and (fillv is None and self.be is not False):
            ok = quant(xn.shape, lambda i: inside(rn(i)), True)
            if not tb_decide(ok):
                raise ValueError("A value in x_new is outside the interpolation range.")
        if tb_decide(s_lt(n, 2)):
            raise Unsupported("interpolation with one sample")
        kk = promote("f", self.y.k)

        def val(i):
            xi = i[ax:ax + xn.ndim]
            v = rn(xi)
            j = locate(rx, n, v)
            if not extrap:
                bound_quant(xi)
            y0, y1 = ry(i[:ax] + (j,) + i[ax + xn.ndim:]), ry(i[:ax] + (s_add(j, 1),) + i[ax + xn.ndim:])
            x0, x1 = rx((j,)), rx((s_add(j, 1),))
            r = s_add(y0, s_div(s_mul(s_sub(y1, y0), s_sub(v, x0)), s_sub(x1, x0)))
            if not extrap and (fillv is not None or self.be is False):
                f = fillv if fillv is not None else float("nan")
                r = s_ite(inside(v), r, f)
            return s_cast(r, kk)
        shape = self.y.shape[:ax] + xn.shape + self.y.shape[ax + 1:]
        return _ret(ndarray.make(shape, kk, val))


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    x, xp, fp = A(x), A(xp), A(fp)
    rx, rp, rf = x.reader(), xp.reader(), fp.reader()
    n = xp.shape[0]
    ctx().use("np.interp: piecewise linear interpolation, samples sorted")

    def val(i):
        v = rx(i)
        j = locate(rp, n, v)
        y0, y1, x0, x1 = rf((j,)), rf((s_add(j, 1),)), rp((j,)), rp((s_add(j, 1),))
        r = s_add(y0, s_div(s_mul(s_sub(y1, y0), s_sub(v, x0)), s_sub(x1, x0)))
        lo = rf((0,)) if left is None else left
        hi = rf((s_sub(n, 1),)) if right is None else right
        return s_ite(s_lt(v, rp((0,))), lo, s_ite(s_gt(v, rp((s_sub(n, 1),))), hi, r))
    return _ret(ndarray.make(x.shape, "f", val))


# ------------------------------------------------------------------ modules
def arr_copy(a, **k):
    return A(a).copy()


def nd_len(a):
    return a.shape[0]


class _DT:
    def __init__(self, k, name):
        self._dv_kind, self.__name__ = k, name

    def __call__(self, x=0):
        return scalar_cast(x, self._dv_kind)

    def __instancecheck__(self, o):
        return False


def np_isclose(a, b, *k, **kw):
    return isclose(a, b, *k, **kw)


TABLE = dict(
    ndarray=ndarray, array=array, asarray=asarray, zeros=zeros, ones=ones, empty=empty, full=full,
    zeros_like=zeros_like, ones_like=ones_like, full_like=full_like, empty_like=lambda a, dtype=None: empty(A(a).shape, dtype or A(a).dtype),
    arange=arange, linspace=linspace, concatenate=concatenate, column_stack=stack_cols, vstack=vstack, hstack=hstack,
    append=append, insert=insert, delete=delete, tile=tile, repeat=repeat, roll=roll, flip=flip, take=take,
    flipud=lambda a: flip(a, 0), fliplr=lambda a: flip(a, 1),
    result_type=result_type, swapaxes=swapaxes, moveaxis=moveaxis, transpose=transpose, squeeze=squeeze, expand_dims=expand_dims,
    reshape=reshape, ravel=ravel, atleast_1d=atleast_1d, sum=np_sum, nansum=nansum, prod=prod, mean=mean, average=mean, nanmean=nanmean,
    max=np_max, min=np_min, amax=np_max, amin=np_min, nanmax=nanmax, nanmin=nanmin, argmax=argmax, argmin=argmin,
    all=all_, any=any_, alltrue=all_, array_equal=array_equal, isclose=isclose, allclose=allclose, cumsum=cumsum, diff=diff,
    trapz=trapz, gradient=gradient, where=where, nonzero=nonzero, argwhere=argwhere, flatnonzero=flatnonzero,
    count_nonzero=count_nonzero, isin=isin, in1d=isin, unique=unique, sort=sort, argsort=argsort, bincount=bincount,
    outer=outer, meshgrid=meshgrid, tensordot=tensordot, matmul=matmul, dot=dot, apply_along_axis=apply_along_axis,
    round=nd_round, around=nd_round, interp=np_interp, copy=arr_copy, shape=lambda a: A(a).shape, size=lambda a: A(a).size, ndim=lambda a: A(a).ndim,
    broadcast_to=lambda a, s: broadcast_to(A(a), tuple(tolist_shape(s))),
    broadcast_arrays=lambda *a: [broadcast_to(A(x), bshape([A(y).shape for y in a])) for x in a],
    abs=map1(s_abs), absolute=map1(s_abs), fabs=map1(s_abs), sqrt=map1(_tofloat(s_sqrt)), square=map1(lambda x: s_mul(x, x)), exp=map1(_tofloat(s_exp)),
    log10=map1(_tofloat(lambda x: s_fun("log10", x))), log=map1(_tofloat(lambda x: s_fun("log", x))),
    log2=map1(_tofloat(lambda x: s_fun("log2", x))),
    cos=map1(_tofloat(s_cos)), sin=map1(_tofloat(s_sin)), tan=map1(_tofloat(lambda x: s_div(s_sin(x), s_cos(x)))), floor=map1(_floorf), ceil=map1(_ceilf), rint=nd_round,
    real=map1(lambda x: cx(x)[0]), imag=map1(lambda x: cx(x)[1] if kind(x) == "c" else s_mul(x, 0)), conj=map1(s_conj), conjugate=map1(s_conj),
    angle=map1(lambda x: s_angle(x), "f"), isnan=map1(isnan1, "b"), isfinite=map1(lambda x: s_not(isnan1(x)), "b"),
    negative=map1(s_neg), sign=map1(s_sign), logical_not=map1(lambda x: s_not(tb(x)), "b"),
    logical_and=map2(lambda a, b: s_and(tb(a), tb(b)), "b!"), logical_or=map2(lambda a, b: s_or(tb(a), tb(b)), "b!"),
    arctan2=map2(lambda y, x: s_arctan2(y, x), "f"), mod=map2(s_mod), remainder=map2(s_mod), add=map2(s_add), subtract=map2(s_sub),
    multiply=map2(s_mul), divide=map2(s_div, "f"), true_divide=map2(s_div, "f"), power=map2(s_pow), maximum=map2(s_max), minimum=map2(s_min),
    floor_divide=map2(s_floordiv), equal=map2(s_eq, "b!"), less=map2(s_lt, "b!"), greater=map2(s_gt, "b!"),
    deg2rad=map1(_tofloat(lambda x: s_div(s_mul(x, PI()), 180))), rad2deg=map1(_tofloat(lambda x: s_div(s_mul(x, 180), PI()))),
    hypot=map2(lambda a, b: s_sqrt(s_add(s_mul(a, a), s_mul(b, b))), "f"),
    int8=_DT("i", "int8"), int16=_DT("i", "int16"), int32=_DT("i", "int32"), int64=_DT("i", "int64"), uint8=_DT("i", "uint8"),
    float64=_DT("f", "float64"), float32=_DT("f", "float32"), complex128=_DT("c", "complex128"), bool_=_DT("b", "bool_"),
    float_=_DT("f", "float64"), int_=_DT("i", "int64"), newaxis=None,
    integer=_DT("i", "integer"), floating=_DT("f", "floating"),
    nan=float("nan"), inf=float("inf"), e=None,
)
TABLE["NaN"] = TABLE["nan"]
METHODS = {k: TABLE[k] for k in ("sum", "mean", "max", "min", "argmax", "argmin", "all", "any", "cumsum", "round", "repeat",
                                 "take", "nonzero", "prod", "dot")}
METHODS["sort"] = None
METHODS["argsort"] = argsort
del METHODS["sort"]


def fill_method(a, v):
    a[...] = v


METHODS["fill"] = fill_method


def to_concrete(x):
    """numpy array of a fully concrete argument, else None"""
    import numpy as rnp
    if isinstance(x, ndarray):
        if x.k not in "bifU" or any(const_int(d) is None for d in x.shape):
            return None
        sh = [const_int(d) for d in x.shape]
        n = 1
        for d in sh:
            n *= d
        if n > 4000:
            return None
        import itertools
        out = []
        for i in itertools.product(*[range(d) for d in sh]):
            v = x.get(*i)
            if type(v) is str:
                out.append(v)
                continue
            v = norm(v)
            if is_sym(v):
                return None
            out.append(float(v) if type(v) is Fraction else v)
        return rnp.array(out, dtype={"b": bool, "i": int, "f": float, "U": None}[x.k]).reshape(sh)
    if isinstance(x, (list, tuple)):
        if any(is_sym(v) or isinstance(v, (ndarray, list, tuple, dict)) or getattr(v, "_dv_seq", False) for v in x):
            return None
        if all(type(v) in (int, bool, float, Fraction, str) for v in x):
            return rnp.array([float(v) if type(v) is Fraction else v for v in x])
    return None


def concrete_first(name, g):
    def f(*a, **kw):
        if a and all(isinstance(v, (ndarray, list, tuple)) for v in a[:1]):
            ca = [to_concrete(v) if isinstance(v, (ndarray, list, tuple)) else v for v in a]
            if all(v is not None for v in ca) and not any(is_sym(v) for v in list(ca) + list(kw.values())):
                import numpy as rnp
                r = getattr(rnp, name)(*ca, **kw)
                back = lambda v: from_numpy(v) if isinstance(v, rnp.ndarray) else (norm(v) if not isinstance(v, str) else v)
                return tuple(back(v) for v in r) if isinstance(r, tuple) else back(r)
        return g(*a, **kw)
    f.__name__ = name
    return f


class Facade(types.ModuleType):
    def __init__(self, name, table):
        super().__init__(name)
        object.__setattr__(self, "_t", table)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        t = object.__getattribute__(self, "_t")
        if k == "pi":
            return PI()
        if k in t:
            return t[k]
        full = self.__name__ + "." + k

        def stub(*a, **kw):
            raise Unsupported("%s has no assumed contract" % full)
        stub._dv_stub = True
        return stub


TABLE["intersect1d"] = intersect1d
for _n in ("argsort", "sort", "unique", "isin", "in1d", "nonzero", "argwhere", "flatnonzero", "argmax", "argmin", "where", "union1d", "intersect1d",
           "searchsorted", "lexsort", "setdiff1d", "char"):
    if _n == "char":
        continue
    TABLE[_n] = concrete_first(_n, TABLE.get(_n) or (lambda *a, _n=_n, **k: _unsup("numpy.%s has no assumed contract" % _n)))
METHODS["argsort"], METHODS["argmax"], METHODS["argmin"], METHODS["nonzero"] = (TABLE[_n] for _n in ("argsort", "argmax", "argmin", "nonzero"))


class _LA:
    def reduce(self, seq):
        seq = [A(x) for x in seq_of(seq)]
        r = seq[0]
        for s in seq[1:]:
            r = TABLE["logical_and"](r, s)
        return r

    def __call__(self, *a, **k):
        return map2(lambda a, b: s_and(tb(a), tb(b)), "b!")(*a, **k)


TABLE["logical_and"] = _LA()


def np_lexsort(*a):
    raise Unsupported("lexsort")


class _Char:
    pass


FFT = dict(fft=fft, ifft=ifft, fftn=fftn, ifftn=ifftn, rfft=rfft, irfft=irfft, rfftn=rfftn, irfftn=irfftn, fftshift=fftshift, ifftshift=ifftshift, fftfreq=fftfreq, rfftfreq=rfftfreq)
MODULES = {
    "numpy": TABLE,
    "numpy.fft": FFT,
    "scipy.fft": FFT,
    "numpy.core.numeric": TABLE,
    "numpy.linalg": {},
    "numpy.random": {},
    "numpy.core": {},
    "scipy": {},
    "scipy.integrate": dict(cumulative_trapezoid=cumulative_trapezoid, cumtrapz=cumulative_trapezoid, trapezoid=trapz, trapz=trapz),
    "scipy.interpolate": dict(interp1d=interp1d),
}
_made = {}


def module(name):
    if name not in MODULES:
        return None
    if name not in _made:
        _made[name] = Facade(name, MODULES[name])
        for sub in MODULES:
            if sub.startswith(name + ".") and sub.count(".") == name.count(".") + 1:
                MODULES[name].setdefault(sub.rsplit(".", 1)[1], module(sub))
    return _made[name]
