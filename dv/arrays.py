"""Symbolic ndarrays: symbolic dimensions, elements given by an index function, views sharing a buffer."""
from fractions import Fraction
from .core import *
from .core import _divmod_int
from . import core


class dtype:
    """stand-in for numpy dtypes: only the kind matters"""
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.type = self
        self.char = kind

    def __repr__(self):
        return "dtype('%s')" % self.name

    def __eq__(self, o):
        if o is self:
            return True
        try:
            return dkind(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __call__(self, x=0):
        return scalar_cast(x, self.kind)


DTYPES = dict(b=dtype("b", "bool"), i=dtype("i", "int64"), f=dtype("f", "float64"), c=dtype("c", "complex128"),
              O=dtype("O", "object"), U=dtype("U", "<U"))


def dkind(d):
    if d is None:
        return "f"
    if isinstance(d, dtype):
        return d.kind
    k = getattr(d, "_dv_kind", None)
    if k:
        return k
    if d is bool:
        return "b"
    if d is int:
        return "i"
    if d is float:
        return "f"
    if d is complex:
        return "c"
    if d is str:
        return "U"
    if d is object:
        return "O"
    if isinstance(d, str):
        d = d.lower()
        if d.startswith("float") or d in ("f", "d", "f8"):
            return "f"
        if d.startswith("complex"):
            return "c"
        if d.startswith("int") or d.startswith("uint"):
            return "i"
        if d.startswith("bool"):
            return "b"
    n = getattr(d, "__name__", "")
    if n.startswith("float"):
        return "f"
    if n.startswith("int") or n.startswith("uint"):
        return "i"
    if n.startswith("complex"):
        return "c"
    if n.startswith("bool"):
        return "b"
    raise Unsupported("dtype %r" % (d,))


def scalar_cast(x, k):
    if isinstance(x, ndarray):
        return x.astype(DTYPES[k])
    return s_cast(x, k)


ORDER = "bifc"


def promote(*ks):
    if any(k in "OU" for k in ks):
        if all(k == ks[0] for k in ks):
            return ks[0]
        return "O"
    return ORDER[max(ORDER.index(k) for k in ks)]


def dim_eq(a, b):
    """are two dimensions equal?  splits the path when both are possible"""
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return ca == cb
    return ctx().decide(zint(a) == zint(b))


def same_dim(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return ca == cb
    return z3.simplify(zint(a) - zint(b)).eq(z3.IntVal(0))


def cdim(d):
    """canonical dimension: python int when constant"""
    c = const_int(d)
    return c if c is not None else d


class Buf:
    __slots__ = ("shape", "k", "fn", "name")

    def __init__(self, shape, k, fn, name=None):
        self.shape = tuple(cdim(d) for d in shape)
        self.k = k
        self.fn = memo(fn)
        self.name = name


def memo(fn):
    if getattr(fn, "_memo", False):
        return fn
    cache = {}
    keepalive = []

    def g(idx):
        key = tuple(i if type(i) is int else ("s", i.e.get_id()) for i in idx)
        r = cache.get(key)
        if r is None:
            r = fn(idx)
            keepalive.append(idx)
            cache[key] = r
        return r
    g._memo = True
    return g


import itertools
_uid = itertools.count()


class ndarray:
    _dv_array = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, buf=None, shape=None, src=None, ro=False):
        if not isinstance(buf, Buf):
            # numpy.ndarray(shape): uninitialised memory
            shape = buf if buf is not None else shape
            sh = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
            f = z3.Function("uninit!%d" % next(_uid), *([z3.IntSort()] * max(1, len(sh))), z3.RealSort())
            buf, shape = Buf(sh, "f", lambda i: SReal(f(*[zint(x) for x in (i or (0,))]))), None
        self.buf = buf
        self.src = src            # None: identity
        self._shape = tuple(cdim(d) for d in (buf.shape if shape is None else shape))
        self.ro = ro
        self.enum = None          # Enumeration of indices, when this array is one

    # ---- construction
    @staticmethod
    def make(shape, k, fn, name=None):
        return ndarray(Buf(tuple(shape), k, fn, name))

    # ---- numpy attributes
    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.buf, self.src, self._shape = r.buf, r.src, r._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return DTYPES[self.buf.k]

    @property
    def k(self):
        return self.buf.k

    @property
    def T(self):
        return self.transpose()

    @property
    def base(self):
        return None

    def __len__(self):
        raise Unsupported("len() of a symbolic array reached C code")

    def __hash__(self):
        raise TypeError("unhashable type: 'ndarray'")

    def __repr__(self):
        return "<symbolic ndarray shape=%s kind=%s>" % (self._shape, self.k)

    __str__ = __repr__

    # ---- element access
    def reader(self):
        """element function with the buffer content as of now"""
        fn = self.buf.fn
        src = self.src
        if src is None:
            return fn

        def get(idx):
            return fn(tuple(s[1] if s[0] == "fix" else s_add(s[2], s_mul(s[3], idx[s[1]])) for s in src))
        return get

    def get(self, *idx):
        return self.reader()(tuple(idx))

    def snapshot(self):
        r = self.reader()
        return ndarray(Buf(self._shape, self.k, r))

    def copy(self, order="C"):
        return self.snapshot()

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.snapshot()

    def astype(self, d, copy=True):
        k = dkind(d)
        r = self.reader()
        return ndarray.make(self._shape, k, lambda i: s_cast(r(i), k))

    # ---- views
    def _view(self, shape, newsrc):
        """newsrc: for every dim of self: ('fix', i) or ('ax', d, start, step) in terms of the new dims"""
        base = self.src
        if base is None:
            base = [("ax", d, 0, 1) for d in range(len(self.buf.shape))]
        src = []
        for s in base:
            if s[0] == "fix":
                src.append(s)
                continue
            _, d, st, sp = s
            n = newsrc[d]
            if n[0] == "fix":
                src.append(("fix", s_add(st, s_mul(sp, n[1]))))
            else:
                src.append(("ax", n[1], s_add(st, s_mul(sp, n[2])), s_mul(sp, n[3])))
        return ndarray(self.buf, shape, src, self.ro)

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (list, tuple))):
            axes = axes[0]
        if not axes:
            axes = list(range(n))[::-1]
        axes = [norm_axis(a, n) for a in axes]
        if sorted(axes) != list(range(n)):
            raise ValueError("axes don't match array")
        inv = [axes.index(d) for d in range(n)]
        return self._view([self._shape[a] for a in axes], [("ax", inv[d], 0, 1) for d in range(n)])

    def swapaxes(self, a, b):
        n = self.ndim
        a, b = norm_axis(a, n), norm_axis(b, n)
        p = list(range(n))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def squeeze(self, axis=None):
        keep = []
        for d, s in enumerate(self._shape):
            if axis is not None and d not in [norm_axis(a, self.ndim) for a in (axis if isinstance(axis, tuple) else (axis,))]:
                keep.append(d)
            elif axis is not None:
                if not dim_eq(s, 1):
                    raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            elif not dim_eq(s, 1):
                keep.append(d)
        new = []
        for d in range(self.ndim):
            new.append(("ax", keep.index(d), 0, 1) if d in keep else ("fix", 0))
        return self._view([self._shape[d] for d in keep], new)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (list, tuple, ndarray)):
            shape = list(shape[0]) if not isinstance(shape[0], ndarray) else shape[0].tolist()
        shape = [cdim(unwrap(s)) for s in shape]
        if order != "C":
            raise Unsupported("reshape order " + order)
        neg = [i for i, s in enumerate(shape) if const_int(s) == -1]
        if len(neg) > 1:
            raise ValueError("can only specify one unknown dimension")
        # match non-unit dims
        mine = [(d, s) for d, s in enumerate(self._shape) if const_int(s) != 1]
        if neg:
            others = [s for i, s in enumerate(shape) if i != neg[0]]
            rest = list(self._shape)
            left = []
            for o in others:
                if const_int(o) == 1:
                    continue
                for r in rest:
                    if same_dim(r, o):
                        rest.remove(r)
                        break
                else:
                    left.append(o)
            val = 1
            for r in rest:
                val = s_mul(val, r)
            den = 1
            for o in left:
                den = s_mul(den, o)
            if const_int(den) != 1:
                q, rm = s_floordiv(val, den), s_mod(val, den)
                if not tb_decide(s_eq(rm, 0)):
                    raise ValueError("cannot reshape array")
                val = q
            shape[neg[0]] = cdim(val)
        theirs = [(d, s) for d, s in enumerate(shape) if const_int(s) != 1]
        if len(mine) == len(theirs) and all(same_dim(a[1], b[1]) or (len(mine) == 1 and dim_eq(a[1], b[1])) for a, b in zip(mine, theirs)):
            new = [None] * self.ndim
            for d in range(self.ndim):
                new[d] = ("fix", 0)
            for a, b in zip(mine, theirs):
                new[a[0]] = ("ax", b[0], 0, 1)
            return self._view(shape, new)
        # general case: row-major flattening
        tot_a = 1
        for s in self._shape:
            tot_a = s_mul(tot_a, s)
        tot_b = 1
        for s in shape:
            tot_b = s_mul(tot_b, s)
        if not tb_decide(s_eq(tot_a, tot_b)):
            raise ValueError("cannot reshape array of size into shape")
        r = self.reader()
        old = self._shape

        def fn(idx):
            flat = 0
            for i, s in zip(idx, shape):
                flat = s_add(s_mul(flat, s), i)
            out = []
            for s in reversed(old[1:]):
                out.append(s_mod(flat, s))
                flat = s_floordiv(flat, s)
            if old:
                out.append(flat)
            return r(tuple(reversed(out)))
        return ndarray.make(shape, self.k, fn)

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self
        n = 1
        for s in self._shape:
            n = s_mul(n, s)
        return self.reshape([n])

    def flatten(self, order="C"):
        return self.ravel().copy()

    def tolist(self):
        if self.ndim == 1 and const_int(self._shape[0]) is None:
            from .loader import SymSeq
            r = self.reader()
            return SymSeq(self._shape[0], lambda i: r((i,)))
        n = self.concrete_len()
        if self.ndim == 1:
            return [unwrap_np(self.get(i)) for i in range(n)]
        return [self[i].tolist() for i in range(n)]

    def item(self, *a):
        if not a:
            if self.ndim == 0:
                return self.get()
            return self.ravel()[0]
        return self[a if len(a) > 1 else a[0]]

    def concrete_len(self):
        n = const_int(self._shape[0]) if self.ndim else None
        if n is None:
            raise Unsupported("iteration over a dimension of symbolic length")
        return n

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return iter([self[i] for i in range(self.concrete_len())])

    def __contains__(self, x):
        from . import symnp
        return bool(symnp.any_(self == x))

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.get())
        n = 1
        for s in self._shape:
            n = s_mul(n, s)
        if dim_eq(n, 1):
            return bool(self.get(*([0] * self.ndim)))
        if dim_eq(n, 0):
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    # ---- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nspec = 0
        for x in key:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, ndarray) and x.k == "b":
                nspec += x.ndim
            else:
                nspec += 1
        if not any(x is Ellipsis for x in key):
            key.append(Ellipsis)
        out = []
        for x in key:
            if x is Ellipsis:
                out += [slice(None)] * (self.ndim - nspec)
            else:
                out.append(x)
        if nspec > self.ndim:
            raise IndexError("too many indices for array")
        return out

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices are valid indices")
        items = self._parse(key)
        items = [list_to_arr(x) for x in items]
        if any(isinstance(x, ndarray) and x.ndim > 0 for x in items):
            return self._adv_get(items)
        v = self._basic(items)
        if v.ndim == 0 and not isinstance(key, tuple) or (v.ndim == 0 and Ellipsis not in [k for k in (key if isinstance(key, tuple) else (key,)) if k is Ellipsis]):
            return v.get()
        return v

    def _basic(self, items):
        shape, new, d = [], [], 0
        for x in items:
            if x is None:
                shape.append(1)
                continue
            if isinstance(x, ndarray):
                x = x.get()
            n = self._shape[d]
            if isinstance(x, slice):
                start, cnt, step = slice_span(x, n)
                new.append(("ax", len(shape), start, step))
                shape.append(cnt)
            else:
                i = index_of(x, n)
                new.append(("fix", i))
            d += 1
        return self._view(shape, new)

    def _adv_get(self, items):
        # basic part first: treat every array item as a full slice, then index along that view dim
        arrs = []
        pre = []
        vd = 0
        for x in items:
            if isinstance(x, ndarray) and x.ndim > 0:
                if x.k == "b" and x.ndim > 1:
                    if len(items) - (x.ndim - 1) > 1 and any(not (isinstance(y, slice) and y == slice(None)) for y in items if y is not x):
                        raise Unsupported("multi-dimensional mask with other indices")
                    return self._mask_nd(x)
                arrs.append((vd, x))
                pre.append(slice(None))
                vd += 1
            else:
                pre.append(x)
                if x is None or isinstance(x, slice):
                    vd += 1
        v = self._basic(pre)
        if len(arrs) == 1:
            return v._take(arrs[0][1], arrs[0][0])
        # several index arrays: broadcast together
        nd = max(a.ndim for _, a in arrs)
        if any(a.k == "b" for _, a in arrs):
            arrs = [(d, nonzero1(a) if a.k == "b" else a) for d, a in arrs]
        dims = [d for d, _ in arrs]
        shp = bshape([a._shape for _, a in arrs])
        idxs = []
        for d, a in arrs:
            idxs.append((d, checked_index(broadcast_to(a, shp), v._shape[d])))
        contiguous = dims == list(range(dims[0], dims[0] + len(dims)))
        pos = dims[0] if contiguous else 0
        rest = [d for d in range(v.ndim) if d not in dims]
        nshape = [v._shape[d] for d in rest]
        nshape[pos:pos] = list(shp)
        r = v.reader()
        ms = len(shp)

        def fn(idx):
            ai = idx[pos:pos + ms]
            ri = idx[:pos] + idx[pos + ms:]
            full = [None] * v.ndim
            for d, i in zip(rest, ri):
                full[d] = i
            for d, f in idxs:
                full[d] = f(ai)
            return r(tuple(full))
        return ndarray.make(nshape, self.k, fn)

    def _mask_nd(self, m):
        if len(m._shape) != self.ndim:
            raise Unsupported("partial mask")
        flat = self.ravel()
        return flat._take(m.ravel(), 0)

    def _take(self, a, d):
        """self indexed by the index array a along dim d"""
        if a.k == "b":
            if not dim_eq(a._shape[0], self._shape[d]):
                raise IndexError("boolean index did not match indexed array")
            a = nonzero1(a)
        if a.k == "f":
            if const_int(a._shape[0]) == 0:
                a = a.astype(int)
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        f = checked_index(a, self._shape[d])
        r = self.reader()
        m = a.ndim
        nshape = self._shape[:d] + a._shape + self._shape[d + 1:]

        def fn(idx):
            return r(idx[:d] + (f(idx[d:d + m]),) + idx[d + m:])
        return ndarray.make(nshape, self.k, fn)

    def __setitem__(self, key, val):
        if self.ro:
            raise ValueError("assignment destination is read-only")
        items = self._parse(key)
        items = [list_to_arr(x) for x in items]
        if any(isinstance(x, ndarray) and x.ndim > 0 for x in items):
            return self._adv_set(items, val)
        v = self._basic(items)
        v._assign(val)

    def _assign(self, val, where=None):
        """write val (broadcast) in all elements of this view (where: predicate over the view index)"""
        buf = self.buf
        k = buf.k
        val = asarr(val) if not isinstance(val, ndarray) else val
        if val.k == "c" and k != "c":
            if val.ndim == 0:
                raise TypeError("can't convert complex to float")
        rv = broadcast_to(val, self._shape, strict=True).reader()
        old = buf.fn
        if self.src is None:
            src = [("ax", d, 0, 1) for d in range(len(buf.shape))]
        else:
            src = self.src
        shape = self._shape

        def fn(b):
            cond = []
            vi = [0] * len(shape)
            for bi, s, bn in zip(b, src, buf.shape):
                if s[0] == "fix":
                    cond.append(s_eq(bi, s[1]))
                    continue
                _, d, st, sp = s
                csp = const_int(sp)
                n = shape[d]
                if csp == 1 and const_int(st) == 0 and same_dim(n, bn):
                    vi[d] = bi
                    continue
                if csp == 1:
                    t = s_sub(bi, st)
                elif csp == -1:
                    t = s_sub(st, bi)
                else:
                    t = s_floordiv(s_sub(bi, st), sp)
                    cond.append(s_eq(s_mod(s_sub(bi, st), sp), 0))
                cond += [s_ge(t, 0), s_lt(t, n)]
                vi[d] = t
            c = s_and(*cond)
            if c is False:
                return old(b)
            if where is not None:
                c = s_and(c, where(tuple(vi)))
                if c is False:
                    return old(b)
            new = s_cast_el(rv(tuple(vi)), k)
            if c is True:
                return new
            return s_ite(c, new, old(b))
        buf.fn = memo(fn)

    def _adv_set(self, items, val):
        arrs = [(i, x) for i, x in enumerate(items) if isinstance(x, ndarray) and x.ndim > 0]
        if len(arrs) == 1 and arrs[0][1].k == "b" and arrs[0][1].ndim == self.ndim == len(items) + arrs[0][1].ndim - 1:
            m = arrs[0][1]
            for a, b in zip(m._shape, self._shape):
                if not dim_eq(a, b):
                    raise IndexError("boolean index did not match indexed array")
            rm = m.reader()
            val = asarr(val)
            if val.ndim and not all(const_int(d) == 1 for d in val.shape):
                if m.ndim == 1:
                    # positions in the enumeration of the mask
                    en = nonzero1(m)
                    if not dim_eq(val._shape[0], en._shape[0]):
                        raise ValueError("NumPy boolean array indexing assignment cannot assign")
                    rv = val.reader()
                    full = ndarray.make(self._shape, val.k, lambda i: s_ite_lazy(rm(i), lambda: rv((en.enum.pos(i[0]),)), 0))
                    self._assign(full, where=rm)
                    return
                raise Unsupported("masked assignment of an array")
            self._assign(val.reshape([]) if val.ndim else val, where=rm)
            return
        if len(arrs) == 1:
            i, a = arrs[0]
            vd = sum(1 for x in items[:i] if x is None or isinstance(x, slice))
            pre = [slice(None) if j == i else x for j, x in enumerate(items)]
            v = self._basic(pre)
            n = v._shape[vd]
            val = asarr(val)
            if a.k == "b":
                if not dim_eq(a._shape[0], n):
                    raise IndexError("boolean index did not match indexed array")
                rm = a.reader()
                if val.ndim == 0:
                    v._assign(val, where=lambda vi: rm((vi[vd],)))
                    return
                a = nonzero1(a)
            if a.ndim != 1:
                raise Unsupported("assignment through a multi-dimensional index array")
            shp = v._shape[:vd] + a._shape + v._shape[vd + 1:]
            if a.enum is not None:
                en = a.enum
                rv = broadcast_to(val, shp, strict=True).reader()
                full = ndarray.make(v._shape, val.k, lambda x: s_ite_lazy(en.member(x[vd]), lambda: rv(x[:vd] + (en.pos(x[vd]),) + x[vd + 1:]), 0))
                v._assign(full, where=lambda vi: en.member(vi[vd]))
                return
            m = const_int(a._shape[0])
            if m is not None and m <= 64:
                rv = broadcast_to(val, shp, strict=True)
                for j in range(m):
                    sub = [slice(None)] * v.ndim
                    sub[vd] = a.get(j)
                    sv = [slice(None)] * v.ndim
                    sv[vd] = j
                    v[tuple(sub)] = rv[tuple(sv)]
                return
            if val.ndim == 0 or all(const_int(d) == 1 for d in val.shape):
                raise Unsupported("assignment through an unknown index array")
        if len(arrs) > 1 and all(const_int(a.size) is not None for _, a in arrs):
            shp = bshape([a._shape for _, a in arrs])
            if len(shp) == 1:
                rv = asarr(val)
                bs = [(i, broadcast_to(a, shp)) for i, a in arrs]
                rest = [x for i, x in enumerate(items) if i not in [q for q, _ in bs]]
                if not rest or rv.ndim == 0:
                    rvb = broadcast_to(rv, shp) if rv.ndim <= 1 else None
                    if rvb is not None:
                        for j in range(const_int(shp[0])):
                            it = list(items)
                            for i, a in bs:
                                it[i] = a.get(j)
                            self[tuple(it)] = rvb.get(j)
                        return
        raise Unsupported("assignment through index arrays")

    # ---- arithmetic
    def _dv_binop(self, f, a, b):
        a, b = asarr(a), asarr(b)
        return elementwise(f, a, b)

    def __add__(s, o): return _bin(s_add, s, o)
    def __radd__(s, o): return _bin(s_add, o, s)
    def __sub__(s, o): return _bin(s_sub, s, o)
    def __rsub__(s, o): return _bin(s_sub, o, s)
    def __mul__(s, o): return _bin(s_mul, s, o)
    def __rmul__(s, o): return _bin(s_mul, o, s)
    def __truediv__(s, o): return _bin(s_div, s, o, "f")
    def __rtruediv__(s, o): return _bin(s_div, o, s, "f")
    def __floordiv__(s, o): return _bin(s_floordiv, s, o)
    def __rfloordiv__(s, o): return _bin(s_floordiv, o, s)
    def __mod__(s, o): return _bin(s_mod, s, o)
    def __rmod__(s, o): return _bin(s_mod, o, s)
    def __pow__(s, o): return _bin(s_pow, s, o)
    def __rpow__(s, o): return _bin(s_pow, o, s)
    def __neg__(s): return s.map(s_neg)
    def __pos__(s): return s.copy()
    def __abs__(s): return s.map(s_abs)
    def __invert__(s): return s.map(s_not) if s.k == "b" else s.map(lambda x: s_sub(s_neg(x), 1))
    def __and__(s, o): return _bin(s_and, s, o, "b!")
    __rand__ = __and__
    def __or__(s, o): return _bin(s_or, s, o, "b!")
    __ror__ = __or__
    def __eq__(s, o): return _cmpop(s_eq, s, o, False)
    def __ne__(s, o): return _cmpop(s_ne, s, o, True)
    def __lt__(s, o): return _bin(s_lt, s, o, "b!")
    def __le__(s, o): return _bin(s_le, s, o, "b!")
    def __gt__(s, o): return _bin(s_gt, s, o, "b!")
    def __ge__(s, o): return _bin(s_ge, s, o, "b!")

    def _inplace(self, r):
        if not isinstance(r, ndarray):
            return r
        if ORDER.index(r.k) > ORDER.index(self.k):
            raise TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (r.dtype, self.dtype))
        self._assign(r)
        return self

    def __iadd__(s, o): return s._inplace(s + o)
    def __isub__(s, o): return s._inplace(s - o)
    def __imul__(s, o): return s._inplace(s * o)
    def __itruediv__(s, o): return s._inplace(s / o)
    def __ipow__(s, o): return s._inplace(s ** o)
    def __ifloordiv__(s, o): return s._inplace(s // o)

    def map(self, f, k=None):
        r = self.reader()
        if k is None:
            k = probe_kind(self, f)
        return ndarray.make(self._shape, k, lambda i: f(r(i)))

    @property
    def real(self):
        return self.map(lambda x: cx(x)[0], "f") if self.k == "c" else self

    @property
    def imag(self):
        return self.map(lambda x: cx(x)[1], "f") if self.k == "c" else self.map(lambda x: 0, self.k)

    def conj(self):
        return self.map(s_conj, self.k)

    conjugate = conj

    @property
    def flat(self):
        return self.ravel()

    # methods defined in symnp
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import symnp
        f = symnp.METHODS.get(name)
        if f is None:
            if name.startswith("_dv"):
                raise AttributeError(name)
            raise Unsupported("ndarray.%s" % name)
        return lambda *a, **k: f(self, *a, **k)


def s_ite_lazy(c, fa, b):
    c = tb(c)
    if c is False:
        return b
    return s_ite(c, fa(), b)


def s_cast_el(x, k):
    if k in "OU":
        return x
    return s_cast(x, k)


def unwrap(x):
    if isinstance(x, ndarray) and x.ndim == 0:
        return x.get()
    return x


def unwrap_np(x):
    return x


def norm_axis(a, n):
    a = const_int(unwrap(a))
    if a is None:
        raise Unsupported("symbolic axis number")
    if a < -n or a >= n:
        raise AxisErr("axis %d is out of bounds for array of dimension %d" % (a, n))
    return a % n


class AxisErr(ValueError, IndexError):
    pass


AxisErr.__name__ = "AxisError"


def list_to_arr(x):
    if getattr(x, "_dv_seq", None) is not None:
        return x.to_array()
    if isinstance(x, (list, range)) or (isinstance(x, tuple)):
        return asarr(list(x), "i" if len(x) == 0 else None)
    return x


def tb_decide(c):
    c = tb(c)
    return c if type(c) is bool else ctx().decide(c.e)


def index_of(x, n):
    """normalised scalar index, IndexError when out of range"""
    if type(x) in (float, SReal, Fraction):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if type(x).__module__ == "numpy" and hasattr(x, "item"):
        x = x.item()
    if type(x) is bool or type(x) is SBool:
        raise Unsupported("boolean scalar index")
    if not (type(x) in (int, SInt)):
        raise IndexError("invalid index %r" % (x,))
    cx_, cn = const_int(x), const_int(n)
    if cx_ is not None and cn is not None:
        if not -cn <= cx_ < cn:
            raise IndexError("index %d is out of bounds for axis with size %d" % (cx_, cn))
        return cx_ + cn if cx_ < 0 else cx_
    if not tb_decide(s_and(s_ge(x, s_neg(n)), s_lt(x, n))):
        raise IndexError("index out of bounds")
    if cx_ is not None:
        return cx_ if cx_ >= 0 else s_add(n, cx_)
    if tb_decide(s_lt(x, 0)):
        return s_add(x, n)
    return x


def clamp(x, lo, hi):
    """min(max(x, lo), hi), by splitting the path when the case is not determined"""
    if tb_decide(s_lt(x, lo)):
        return lo
    if tb_decide(s_gt(x, hi)):
        return hi
    return x


def slice_span(s, n):
    """(start, count, step) of slice s over length n"""
    step = unwrap(s.step)
    step = 1 if step is None else step
    cstep = const_int(step)
    if cstep is None:
        raise Unsupported("symbolic slice step")
    if cstep == 0:
        raise ValueError("slice step cannot be zero")

    def idx(v):
        v = unwrap(v)
        if v is not None and type(v) in (float, SReal, Fraction):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        if v is not None and type(v).__module__ == "numpy":
            v = v.item()
        return v
    a, b = idx(s.start), idx(s.stop)
    if cstep > 0:
        if a is None:
            a = 0
        else:
            if tb_decide(s_lt(a, 0)):
                a = s_add(a, n)
            a = clamp(a, 0, n)
        if b is None:
            b = n
        else:
            if tb_decide(s_lt(b, 0)):
                b = s_add(b, n)
            b = clamp(b, 0, n)
        d = s_sub(b, a)
        if not tb_decide(s_gt(d, 0)):
            return a, 0, cstep
        if cstep == 1:
            return a, cdim(d), 1
        return a, cdim(s_floordiv(s_add(d, cstep - 1), cstep)), cstep
    if a is None:
        a = s_sub(n, 1)
    else:
        if tb_decide(s_lt(a, 0)):
            a = s_add(a, n)
        a = clamp(a, -1, s_sub(n, 1))
    if b is None:
        b = -1
    else:
        if tb_decide(s_lt(b, 0)):
            b = s_add(b, n)
        b = clamp(b, -1, s_sub(n, 1))
    d = s_sub(a, b)
    if not tb_decide(s_gt(d, 0)):
        return a, 0, cstep
    if cstep == -1:
        return a, cdim(d), -1
    return a, cdim(s_floordiv(s_add(d, -cstep - 1), -cstep)), cstep


def checked_index(a, n):
    """index function of an index array; every element must be within bounds"""
    r = a.reader()
    c = ctx()
    if a.enum is not None and same_dim(a.enum.n, n):
        return r
    nc = [const_int(d) for d in a._shape]
    if all(d is not None for d in nc):
        import itertools
        tot = 1
        for d in nc:
            tot *= d
        if tot <= 64:
            tab = {}
            for ix in itertools.product(*[range(d) for d in nc]):
                tab[ix] = index_of(r(ix), n)
            if all(type(v) is int for v in tab.values()) or True:
                def f(idx):
                    if all(type(i) is int for i in idx):
                        return tab[idx]
                    v = r(idx)
                    return s_ite(s_lt(v, 0), s_add(v, n), v)
                return f
    ks = [SInt(c.fresh("ix", "int")) for _ in a._shape]
    rng = z3.And(*[z3.And(k.e >= 0, k.e < zint(d)) for k, d in zip(ks, a._shape)])
    v = r(tuple(ks))
    nonneg = z3.Implies(rng, z3.And(zint(v) >= 0, zint(v) < zint(n)))
    if c.prove_quiet(nonneg)[0] == "proved":
        return r
    ok = z3.Implies(rng, z3.And(zint(v) >= -zint(n), zint(v) < zint(n)))
    if c.prove_quiet(ok)[0] != "proved":
        raise Unsupported("index array not provably within bounds")
    return lambda idx: s_ite(s_lt(r(idx), 0), s_add(r(idx), n), r(idx))


def probe_kind(a, f):
    if a.k in "OU":
        return "O"
    v = {"b": True, "i": 2, "f": Fraction(5, 2), "c": SCplx(Fraction(5, 2), Fraction(1, 3))}[a.k]
    try:
        return kind(f(v))
    except Unsupported:
        return a.k


def elementwise(f, a, b, k=None):
    shp = bshape([a._shape, b._shape])
    ra, rb = broadcast_to(a, shp).reader(), broadcast_to(b, shp).reader()
    if k == "b!":
        k = "b"
    elif k == "f":
        k = promote("f", a.k, b.k)
    elif k is None:
        k = promote(a.k, b.k)
        if f in (s_lt, s_le, s_gt, s_ge, s_eq, s_ne, s_and, s_or):
            k = "b"
        if f is s_pow and k == "i":
            pass
    if k == "f" and f is s_div:
        return ndarray.make(shp, k, lambda i: s_cast(s_div(ra(i), rb(i)), "f"))
    if k in "fc":
        return ndarray.make(shp, k, lambda i: s_cast(f(ra(i), rb(i)), k))
    return ndarray.make(shp, k, lambda i: f(ra(i), rb(i)))


def _bin(f, a, b, k=None):
    for x in (a, b):
        if x is None or isinstance(x, (str, dict)) or not (isinstance(x, (ndarray, list, tuple)) or is_num(x)):
            if x is None:
                raise TypeError("unsupported operand type(s): 'ndarray' and 'NoneType'")
            return NotImplemented
    a, b = asarr(a), asarr(b)
    r = elementwise(f, a, b, k)
    if r.ndim == 0:
        return r.get()
    return r


def _cmpop(f, a, b, default):
    if b is None or isinstance(b, (str, dict)):
        if b is None or isinstance(b, dict):
            return full_like_bool(a, default)
        if a.k in "OU":
            r = a.reader()
            return ndarray.make(a._shape, "b", lambda i: (r(i) == b) != default)
        return default
    if a.k in "OU":
        o = asarr(b)
        rb, r = broadcast_to(o, a._shape).reader(), a.reader()
        return ndarray.make(a._shape, "b", lambda i: (r(i) == rb(i)) != default)
    if not (isinstance(b, (ndarray, list, tuple)) or is_num(b)):
        return default
    b = asarr(b)
    try:
        return _bin(f, a, b, "b!")
    except ValueError:
        return default


def full_like_bool(a, v):
    return ndarray.make(a._shape, "b", lambda i: v)


def bshape(shapes):
    """broadcast shape; ValueError path when the dims do not match"""
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        dims = []
        for s in shapes:
            j = d - (n - len(s))
            if j >= 0:
                dims.append(s[j])
        cur = dims[0]
        for x in dims[1:]:
            if same_dim(cur, x):
                continue
            if const_int(cur) == 1:
                cur = x
            elif const_int(x) == 1:
                pass
            elif dim_eq(cur, x):
                if const_int(cur) is None and const_int(x) is not None:
                    cur = x
            elif dim_eq(cur, 1):
                cur = x
            elif dim_eq(x, 1):
                pass
            else:
                raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def broadcast_to(a, shape, strict=False):
    shape = tuple(shape)
    if len(shape) == a.ndim and all(same_dim(x, y) for x, y in zip(a._shape, shape)):
        return a
    off = len(shape) - a.ndim
    if off < 0:
        # leading unit dims of an assigned value may be dropped
        if strict and all(const_int(d) == 1 for d in a._shape[:-off]):
            return broadcast_to(a[(0,) * (-off)] if a.ndim > -off else asarr(a[(0,) * (-off)]), shape)
        raise ValueError("could not broadcast input array")
    r = a.reader()
    fixed = []
    for d, s in enumerate(a._shape):
        t = shape[off + d]
        if same_dim(s, t):
            fixed.append(False)
        elif const_int(s) == 1:
            fixed.append(True)
        elif dim_eq(s, t):
            fixed.append(False)
        elif dim_eq(s, 1):
            fixed.append(True)
        else:
            raise ValueError("could not broadcast input array from shape into shape")
    return ndarray(Buf(shape, a.k, lambda i: r(tuple(0 if fx else x for fx, x in zip(fixed, i[off:])))), ro=True)


def asarr(x, k=None):
    """ndarray of a nested list / scalar / array"""
    if isinstance(x, ndarray):
        return x
    if is_num(x):
        x = norm(x) if not (type(x) is float) else norm(x)
        kk = kind(x)
        return ndarray.make((), k or kk, lambda i: s_cast(x, k) if k else x)
    if isinstance(x, str):
        return ndarray.make((), "U", lambda i: x)
    if hasattr(x, "_dv_seq"):
        return x.to_array()
    if type(x).__module__ == "numpy" and hasattr(x, "tolist") and hasattr(x, "shape"):
        return from_numpy(x)
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if len(x) == 0:
            return ndarray.make((0,), k or "f", lambda i: 0)
        if all(isinstance(v, str) for v in x):
            tab = list(x)
            return ndarray.make((len(tab),), "U", lambda i: _pick(tab, i[0]))
        if all(is_num(v) for v in x):
            tab = [norm(v) for v in x]
            kk = k or promote(*[kind(v) for v in tab])
            tab = [s_cast(v, kk) for v in tab]
            return ndarray.make((len(tab),), kk, lambda i: _pick(tab, i[0]))
        subs = [asarr(v, k) if (isinstance(v, (list, tuple, ndarray, range)) or is_num(v) or hasattr(v, "_dv_seq")) else None for v in x]
        if any(s is None for s in subs):
            tab = list(x)
            return ndarray.make((len(tab),), "O", lambda i: _pick(tab, i[0]))
        if len({s.ndim for s in subs}) > 1:
            raise Unsupported("ragged array")
        shp = subs[0]._shape
        for s in subs[1:]:
            for a, b in zip(shp, s._shape):
                if not same_dim(a, b) and not dim_eq(a, b):
                    raise Unsupported("ragged array")
        kk = k or promote(*[s.k for s in subs])
        rs = [s.reader() for s in subs]
        return ndarray.make((len(subs),) + shp, kk, lambda i: _pick_lazy([(lambda r=r: s_cast_el(r(i[1:]), kk)) for r in rs], i[0]))
    if type(x).__name__ == "dict" or x is None or callable(x):
        return ndarray.make((), "O", lambda i: x)
    raise Unsupported("array of %r" % (type(x),))


def _pick(tab, i):
    ci = const_int(i)
    if ci is not None:
        return tab[ci]
    if all(v is tab[0] or (not is_sym(v) and not is_sym(tab[0]) and type(v) is type(tab[0]) and v == tab[0]) for v in tab):
        return tab[0]
    r = tab[-1]
    for j in range(len(tab) - 2, -1, -1):
        r = s_ite(s_eq(i, j), tab[j], r)
    return r


def _pick_lazy(fs, i):
    ci = const_int(i)
    if ci is not None:
        return fs[ci]()
    return _pick([f() for f in fs], i)


def from_numpy(x):
    import numpy as np
    k = {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c", "U": "U", "O": "O"}[x.dtype.kind]
    tab = x

    def fn(i):
        if all(const_int(j) is not None for j in i):
            v = tab[tuple(const_int(j) for j in i)]
            return norm(v.item() if hasattr(v, "item") else v) if k not in "OU" else str(v)
        if x.ndim == 1:
            return _pick([norm(v) for v in tab.tolist()], i[0])
        raise Unsupported("symbolic index in a constant table")
    return ndarray.make(x.shape, k, fn)


class Enumeration:
    """increasing enumeration of {i in [0,n): p(i)} with m elements"""
    def __init__(self, n, p):
        c = ctx()
        self.n, self.p = n, p
        self.m = SInt(c.fresh("cnt", "int"))
        c.n += 1
        self.E = z3.Function("enum!%d" % c.n, z3.IntSort(), z3.IntSort())
        self.P = z3.Function("pos!%d" % c.n, z3.IntSort(), z3.IntSort())
        c.assume(z3.And(self.m.e >= 0, self.m.e <= zint(n)))
        self.ks, self.js, self.done = [], [], set()
        self.block = None
        c.enums.append(self)
        for a, w in c.ghost.get("consecutive", []):
            # the set is {a, .., a+w-1}: tried for the blocks the contract names, used when proved
            i = SInt(c.fresh("ei", "int"))
            rng, ins = s_and(s_ge(i, 0), s_lt(i, n)), s_and(s_ge(i, a), s_lt(i, s_add(a, w)))
            g = z3.And(zint(a) >= 0, zint(w) >= 0, zint(a) + zint(w) <= zint(n), z3.Implies(zbool(rng), zbool(p(i)) == zbool(ins)))
            if c.solve(g, 2000)[0] == "proved":
                self.block = a, w
                c.assume(self.m.e == zint(w))
                break

    def at(self, k):
        c = ctx()
        ek = zint(k)
        if z3.is_app(ek) and ek.decl().eq(self.P):
            # every fact about E and P is stated for ranks below m and members: E(P(i)) = i may be taken for every i
            return mk_int(ek.arg(0))
        if self.block:
            return s_add(self.block[0], k)
        v = self.E(ek)
        key = ("k", ek.get_id())
        if key not in self.done:
            self.done.add(key)
            c.keep.append(ek)
            pi = self.p(SInt(v))
            c.assume(z3.Implies(z3.And(ek >= 0, ek < self.m.e),
                                z3.And(v >= 0, v < zint(self.n), zbool(pi), self.P(v) == ek, v >= ek)))
            for o in self.ks:
                c.assume(z3.Implies(z3.And(0 <= o, o < ek, ek < self.m.e), self.E(o) < v))
                c.assume(z3.Implies(z3.And(0 <= ek, ek < o, o < self.m.e), v < self.E(o)))
            self.ks.append(ek)
        return SInt(v)

    def member(self, i):
        return s_and(s_ge(i, 0), s_lt(i, self.n), self.p(i))

    def pos(self, i):
        """rank of i in the enumeration (meaningful for members)"""
        c = ctx()
        if self.block:
            return s_sub(i, self.block[0])
        ei = zint(i)
        v = self.P(ei)
        key = ("i", ei.get_id())
        if key not in self.done:
            self.done.add(key)
            c.keep.append(ei)
            c.assume(z3.Implies(zbool(self.member(i)), z3.And(v >= 0, v < self.m.e, self.E(v) == ei)))
            self.js.append(ei)
            for o in self.js[:-1]:
                c.assume(z3.Implies(z3.And(zbool(self.member(SInt(o))), zbool(self.member(i)), o < ei), self.P(o) < v))
                c.assume(z3.Implies(z3.And(zbool(self.member(SInt(o))), zbool(self.member(i)), ei < o), v < self.P(o)))
        return SInt(v)

    def instantiate(self):
        """two enumerations of the same set are the same list"""
        c = ctx()
        added = False
        me = c.enums.index(self)
        eqs = c.ghost.setdefault("enumeq", {})
        for oi in range(me):
            o = c.enums[oi]
            st = eqs.get((oi, me))
            if st is None:
                eqs[(oi, me)] = st = False
                i = SInt(c.fresh("ei", "int"))
                rng = s_and(s_ge(i, 0), s_lt(i, self.n))
                g = z3.And(zint(o.n) == zint(self.n), z3.Implies(zbool(rng), zbool(o.p(i)) == zbool(self.p(i))))
                if c.solve(g, 2000)[0] == "proved":
                    eqs[(oi, me)] = st = True
                    c.assume(self.m.e == o.m.e)
                    added = True
            if st:
                for k in list(self.ks) + list(o.ks):
                    key = ("eq", oi, k.get_id())
                    if key not in self.done:
                        self.done.add(key)
                        self.at(SInt(k)), o.at(SInt(k))
                        c.assume(z3.Implies(z3.And(k >= 0, k < self.m.e), self.E(k) == o.E(k)))
                        added = True
        return added


def nonzero1(a):
    """np.nonzero(a)[0] of a 1-D array"""
    n = const_int(a._shape[0])
    r = a.reader()
    if n is not None and n <= 16:
        vals = [tb(r((i,))) for i in range(n)]
        if all(type(v) is bool for v in vals):
            return asarr([i for i in range(n) if vals[i]], "i")
        got = [i for i in range(n) if tb_decide(vals[i])]
        return asarr(got, "i")
    probe = tb(r((SInt(ctx().fresh("pk", "int")),)))
    if type(probe) is bool:
        if probe is True:
            rr = ndarray.make((a._shape[0],), "i", lambda i: i[0])
            return rr
        return asarr([], "i")
    c = ctx()
    key = ("nz", id(a.buf.fn)) if a.src is None else None
    if key in c.ghost:
        en = c.ghost[key][0]
    else:
        en = Enumeration(a._shape[0], lambda i: tb(r((i,))))
        # the set is not empty when an existing index is a member
        for w in c.ghost.get("exis", [])[-4:]:
            if len(w) == 1:
                en.pos(w[0])
        if key:
            c.ghost[key] = (en, a.buf.fn)
    out = ndarray.make((en.m,), "i", lambda i: en.at(i[0]))
    out.enum = en
    return out
