"""C13: set routines with a tolerance"""
from dv.spec import contract, spec
from contracts.lib import *

SR = "SciDataTool.Functions.set_routines:"
VALUES = [0, 1, -1, 0.5, 0.25, 2, 100, 100.0001, 100.3, 99.9, -7.25, 1e-7, 3.5]


def values(S, name, n):
    return S.array(name, (n,), sample=lambda r: r.choice(VALUES))


def tolerance(S, absolute):
    return S.real("tol", pos=True, sample=[1e-6, 1e-3, 0.125, 0.5, 1, 3])


def used(S, x, tol, absolute):
    """the tolerance in the unit of the values"""
    if absolute:
        return tol
    t = tol * S.max_of(x.shape[0], lambda i: S.abs(S.at(x, i)))
    return S.ite(S.Or(t > 1, t == 0), 1, t)


@contract("C13", [SR + "get_relative_tolerance"])
def relative(S):
    """tolerance relative to the largest magnitude, at most 1"""
    n = S.int("n", 1, sample=(1, 5))
    x, tol = values(S, "x", n), tolerance(S, False)
    out = S.call(SR + "get_relative_tolerance", x, tol)
    if S.returns(out):
        S.ensure("tolerance", S.eq(S.num(out.value), used(S, x, tol, False)))
        S.ensure("tolerance is positive", out.value > 0)


OPT = [dict(index=i, inverse=v, stable=s, absolute=a, counts=c) for i in (False, True) for v in (False, True) for s in (False, True) for a in (False, True) for c in (False, True)]


def call(S, x, tol, index, inverse, stable, absolute, counts):
    out = S.call(SR + "unique_tol", x, tol=tol, is_abs_tol=absolute, return_index=index, return_inverse=inverse, return_counts=counts, is_stable=stable)
    if not S.returns(out):
        return None
    names = ["values"] + ["index"] * index + ["inverse"] * inverse + ["counts"] * counts
    got = [out.value] if len(names) == 1 else list(out.value)
    if not S.ensure("number of results", len(got) == len(names)):
        return None
    return dict(zip(names, got))


@contract("C13", [SR + "unique_tol"], OPT)
def unique(S, index, inverse, stable, absolute, counts):
    """unique values, direct and inverse indices"""
    n = S.int("n", 1, sample=(1, 8))
    x, tol = values(S, "x", n), tolerance(S, absolute)
    x0 = S.copy(x)
    got = call(S, x, tol, index, inverse, stable, absolute, counts)
    if got is None:
        return
    b = got["values"]
    m = b.shape[0]
    t = used(S, x0, tol, absolute)
    S.ensure("number of values", S.And(m >= 1, m <= n))
    if index:
        ia = got["index"]
        S.ensure("number of direct indices", ia.shape[0] == m)
        S.forall("values are the input at the direct indices", [m], lambda k: S.And(S.at(ia, k) >= 0, S.at(ia, k) < n, S.eq(S.at(b, k), S.at(x0, S.at(ia, k)))))
        if stable:
            S.forall("order of the input", [m, m], lambda k, l: S.implies(k < l, S.at(ia, k) < S.at(ia, l)))
    if inverse:
        ib = got["inverse"]
        S.ensure("number of inverse indices", ib.shape[0] == n)

        def back(i):
            k = S.at(ib, i)
            return S.And(k >= 0, k < m, S.le(S.abs(S.at(x0, i) - S.at(b, k)), t))
        S.forall("values at the inverse indices are the input within the tolerance", [n], back)
        S.forall("equal values have one inverse index", [n, n], lambda i, j: S.implies(S.at(x0, i) == S.at(x0, j), S.at(ib, i) == S.at(ib, j)))
        if not stable:
            S.forall("values of one inverse index differ at most by the tolerance", [n, n], lambda i, j: S.implies(S.at(ib, i) == S.at(ib, j), S.le(S.abs(S.at(x0, i) - S.at(x0, j)), t)))
        if index:
            S.forall("inverse index of a direct index", [m], lambda k: S.at(ib, S.at(ia, k)) == k)
    if not stable:
        S.forall("increasing values", [m, m], lambda k, l: S.implies(k < l, S.lt(S.at(b, k), S.at(b, l))))
    if counts:
        S.ensure("number of counts", got["counts"].shape[0] == m)
        S.forall("counts are positive", [m], lambda k: S.at(got["counts"], k) >= 1)
    S.unchanged("input", x, x0)


@spec(SR + "unique_tol")
def spec_unique(S, a, tol=1e-6, is_abs_tol=False, return_index=False, return_inverse=False, return_counts=False, is_stable=False, axis=0):
    """functional contract used by callers that ask for values and inverse"""
    if not is_abs_tol or return_index or return_counts or is_stable or not return_inverse or a.ndim != 1 or not S.decide(a.shape[0] >= 1) or not S.decide(tol > 0):
        return S.inline(SR + "unique_tol", a, tol, is_abs_tol, return_index, return_inverse, return_counts, is_stable, axis)
    return S.classes(a, tol)


@contract("C13", [SR + "unique_tol"], [dict(index=i, inverse=v, stable=s, absolute=a, counts=True) for i in (False, True) for v in (False, True) for s in (False, True) for a in (False, True)], bounded=True)
def counts(S, index, inverse, stable, absolute, counts):
    """each count is the number of elements that go to the value"""
    n = S.int("n", 1, sample=(1, 8))
    x, tol = values(S, "x", n), tolerance(S, absolute)
    got = call(S, x, tol, index, inverse, stable, absolute, counts)
    ref = call(S, x, tol, True, True, stable, absolute, True)
    if got is None or ref is None:
        return
    c = got["counts"]
    S.ensure("counts add up to the number of elements", sum(S.tolist(c)) == n)
    inv = S.tolist(ref["inverse"])
    S.ensure("counts", all(int(v) == sum(1 for j in inv if j == k) for k, v in enumerate(S.tolist(c))))


@contract("C13", [SR + "union1d_tol", SR + "unique_tol"], [dict(absolute=a, indices=i) for a in (False, True) for i in (False, True)])
def union(S, absolute, indices):
    """union of two arrays with index arrays"""
    n, m = S.int("n", 1, sample=(1, 5)), S.int("m", 1, sample=(1, 5))
    x, y, tol = values(S, "x", n), values(S, "y", m), tolerance(S, absolute)
    both = S.build((n + m,), lambda i: S.ite(i < n, S.at(x, S.ite(i < n, i, 0)), S.at(y, S.ite(i < n, 0, i - n))))
    t = used(S, both, tol, absolute)
    out = S.call(SR + "union1d_tol", x, y, tol=tol, is_abs_tol=absolute, return_indices=indices)
    if not S.returns(out):
        return
    b = out.value[0] if indices else out.value
    p = b.shape[0]
    S.ensure("number of values", S.And(p >= 1, p <= n + m))
    S.forall("increasing values", [p, p], lambda k, l: S.implies(k < l, S.lt(S.at(b, k), S.at(b, l))))
    if not indices:
        return
    for name, v, off, q, ix in (("first", x, 0, n, out.value[1]), ("second", y, n, m, out.value[2])):
        S.ensure("number of indices of the %s array" % name, ix.shape[0] == q)

        def ok(i):
            k = S.at(ix, i)
            if S.symbolic:
                c = S.class_of(i + off)
                S.fact("representative", S.And(c >= 0, c < p, S.le(S.abs(S.at(b, c) - S.at(v, i)), t)))
                S.at_index(c)
            return S.And(k >= 0, k < p, S.le(S.abs(S.at(b, k) - S.at(v, i)), t))
        S.forall("%s array found again within the tolerance" % name, [q], ok)


@contract("C13", [SR + "intersect1d_tol"], [dict(absolute=a, indices=i) for a in (False, True) for i in (False, True)])
def intersection(S, absolute, indices):
    """values present in both arrays"""
    n, m = S.int("n", 1, sample=(1, 6)), S.int("m", 1, sample=(1, 6))
    x, y, tol = values(S, "x", n), values(S, "y", m), tolerance(S, absolute)
    t = used(S, x, tol, absolute)
    out = S.call(SR + "intersect1d_tol", x, y, tol=tol, is_abs_tol=absolute, return_indices=indices)
    if not S.returns(out):
        return
    b = out.value[0] if indices else out.value
    p = b.shape[0]
    S.ensure("number of values", S.And(p >= 0, p <= n, p <= m))
    S.forall("increasing values", [p, p], lambda k, l: S.implies(k < l, S.lt(S.at(b, k), S.at(b, l))))
    if indices:
        ia, ib = out.value[1:]
        S.ensure("number of indices", S.And(ia.shape[0] == p, ib.shape[0] == p))
        S.forall("values are those of the first array", [p], lambda k: S.And(S.at(ia, k) >= 0, S.at(ia, k) < n, S.eq(S.at(b, k), S.at(x, S.at(ia, k)))))
        S.forall("values are in the second array within the tolerance", [p], lambda k: S.And(S.at(ib, k) >= 0, S.at(ib, k) < m, S.le(S.abs(S.at(b, k) - S.at(y, S.at(ib, k))), t)))

    if S.symbolic:
        def found(i, j):
            k = S.common(i, j)
            return S.implies(S.eq(S.at(x, i), S.at(y, j)), S.And(k >= 0, k < p, S.le(S.abs(S.at(b, k) - S.at(x, i)), t)))
    else:
        def found(i, j):
            return S.implies(bool(S.at(x, i) == S.at(y, j)), any(S.le(abs(v - S.at(x, i)), t) for v in S.tolist(b)))
    S.forall("common values are found", [n, m], found)
