"""C08: interpolation on requested axis values."""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries

IN = "SciDataTool.Functions.interpolations:"
GA = ["SciDataTool.Methods.DataND.get_along:get_along", "SciDataTool.Methods.DataND._interpolate:_interpolate", IN + "get_interpolation"]
KINDS = ("f", "c", "i")


def lin(S, t0, t1, x0, x1, v):
    """value at v of the line through (t0, x0) and (t1, x1)"""
    return x0 + (x1 - x0) * S.frac(v - t0, t1 - t0)


@contract("C08", [IN + "get_interpolation"], [dict(rank=r, axis=a, k=k) for r, a in AX for k in KINDS])
def subset(S, rank, axis, k):
    """values that are axis values, in any order and repeated, return their samples"""
    sh = dims(S, rank)
    sh[axis] = S.int("n", 2, sample=(2, 5))
    n, m = sh[axis], S.int("m", 2, sample=(2, 6))
    x, t = S.array("x", sh, k), S.increasing("t", n)
    p = S.array("p", (m,), "i", where=lambda v: S.And(v >= 0, v < n), sample=lambda r: r.randrange(0, 2))
    x0 = S.copy(x)
    new = S.build((m,), lambda i: S.at(t, S.at(p, i)))
    S.witness(lambda i: S.at(p, i))
    out = S.call(IN + "get_interpolation", x, t, new, axis)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (m if d == axis else sh[d]) for d in range(rank)]))
    S.forall("samples", setix(sh, axis, m), lambda *i: S.eq(S.at(y, *i), S.at(x0, *setix(i, axis, S.at(p, i[axis])))), setup=lambda *i: S.at_index(i[axis]))
    S.unchanged("field", x, x0)


@contract("C08", [IN + "get_interpolation"], [dict(rank=r, axis=a, k=k) for r, a in AX for k in KINDS])
def linear(S, rank, axis, k):
    """values inside the axis lie on the line between the two neighbouring samples"""
    sh = dims(S, rank)
    sh[axis] = S.int("n", 2, sample=(2, 5))
    n, m = sh[axis], S.int("m", 2, sample=(2, 6))
    x, t = S.array("x", sh, k), S.increasing("t", n)
    p = S.array("p", (m,), "i", where=lambda v: S.And(v >= 0, v < n - 1), sample=lambda r: r.randrange(0, 2))
    d = S.array("d", (m,), where=lambda v: v >= 0, sample=lambda r: r.choice([0, 0.0625, 0.25, 0.5, 1.5, 100]))
    x0 = S.copy(x)
    low, high = lambda i: S.at(t, S.at(p, i)), lambda i: S.at(t, S.at(p, i) + 1)
    new = S.build((m,), lambda i: S.ite(low(i) + S.at(d, i) <= high(i), low(i) + S.at(d, i), high(i)))
    out = S.call(IN + "get_interpolation", x, t, new, axis)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (m if d == axis else sh[d]) for d in range(rank)]))

    def val(*i):
        j = S.at(p, i[axis])
        t0, t1, v = low(i[axis]), high(i[axis]), S.at(new, i[axis])
        S.cases(v == t0, v == t1)
        a, b = S.at(x0, *setix(i, axis, j)), S.at(x0, *setix(i, axis, j + 1))
        return S.eq(S.at(y, *i), S.ite(v == t0, a, S.ite(v == t1, b, lin(S, t0, t1, a, b, v))))
    S.forall("values", setix(sh, axis, m), val, setup=lambda *i: S.at_index(i[axis]))
    S.unchanged("field", x, x0)


@contract("C08", [IN + "get_interpolation"], [dict(rank=r, axis=a, k=k, where=w) for r, a in AX for k in KINDS for w in ("inside", "below", "above")])
def single(S, rank, axis, k, where):
    """a single value returns the nearest sample, or nan outside the axis"""
    sh = dims(S, rank)
    n = sh[axis]
    x, t = S.array("x", sh, k), S.increasing("t", n)
    d = S.real("d", sample=[0, 0, 0.0625, -0.0625, 0.25])
    if where == "inside":
        # v is strictly nearer to sample j than to all the others
        j = S.int("j", 0, sample=(0, 2))
        S.assume(j < n)
        v = S.at(t, j) + d
        l, r = S.at(t, S.ite(j > 0, j - 1, 0)), S.at(t, S.ite(j < n - 1, j + 1, n - 1))
        S.assume(S.And(v >= S.at(t, 0), v <= S.at(t, n - 1)))
        S.assume(S.And(S.Or(j == 0, S.abs(d) < S.abs(v - l)), S.Or(j == n - 1, S.abs(d) < S.abs(v - r))))
    else:
        v = S.at(t, 0) - d if where == "below" else S.at(t, n - 1) + d
        S.assume(d > 0)
    x0 = S.copy(x)
    out = S.call(IN + "get_interpolation", x, t, [v], axis)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (1 if d == axis else sh[d]) for d in range(rank)]))
    if where != "inside":
        S.forall("nan", setix(sh, axis, 1), lambda *i: S.isnan(S.at(y, *i)))
        return
    S.forall("nearest sample", setix(sh, axis, 1), lambda *i: S.eq(S.at(y, *i), S.at(x0, *setix(i, axis, j))), setup=lambda *i: S.at_index(j))
    S.unchanged("field", x, x0)


@contract("C08", GA, [dict(rank=r, axis=a, k=k) for r, a in ((1, 0), (2, 0), (2, 1)) for k in "f"], uses=USES_AXIS, budget=120)
def requested(S, rank, axis, k):
    """get_along('name=axis_data') on an axis without symmetry"""
    n, o, m = S.int("n", 2, sample=(2, 5)), S.int("o", 2, sample=(2, 3)), S.int("m", 2, sample=(2, 6))
    t = S.increasing("t", n)
    sh = setix([o] * rank, axis, n)
    x = S.array("x", sh, k)
    p = S.array("p", (m,), "i", where=lambda v: S.And(v >= 0, v < n - 1), sample=lambda r: r.randrange(0, 2))
    d = S.array("d", (m,), where=lambda v: v >= 0, sample=lambda r: r.choice([0, 0.0625, 0.25, 0.5, 1.5, 100]))
    x0 = S.copy(x)
    low, high = lambda i: S.at(t, S.at(p, i)), lambda i: S.at(t, S.at(p, i) + 1)
    new = S.build((m,), lambda i: S.ite(low(i) + S.at(d, i) <= high(i), low(i) + S.at(d, i), high(i)))
    D1 = S.cls("Data1D")
    T, Z = D1(name="time", unit="s", values=t), D1(name="z", unit="m", values=S.array("z", (o,)))
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[T] if rank == 1 else ([T, Z] if axis == 0 else [Z, T]), values=x)
    out = S.call(F.get_along, *(["time=axis_data"] + (["z"] if rank == 2 else [])), axis_data={"time": new})
    if not S.returns(out):
        return
    y, g = out.value["F"], out.value["time"]
    if not S.ensure("number of axes", S.And(y.ndim == rank, g.ndim == 1)):
        return
    S.ensure("shape", S.And(g.shape[0] == m, *[y.shape[e] == (m if e == axis else sh[e]) for e in range(rank)]))
    S.forall("axis", [m], lambda i: S.eq(S.at(g, i), S.at(new, i)))

    def val(*i):
        j = S.at(p, i[axis])
        t0, t1, v = low(i[axis]), high(i[axis]), S.at(new, i[axis])
        S.cases(v == t0, v == t1)
        a, b = S.at(x0, *setix(i, axis, j)), S.at(x0, *setix(i, axis, j + 1))
        return S.eq(S.at(y, *i), S.ite(v == t0, a, S.ite(v == t1, b, lin(S, t0, t1, a, b, v))))
    S.forall("values", setix(sh, axis, m), val, setup=lambda *i: S.at_index(i[axis]))
    S.unchanged("field", F.values, x0)


@contract("C08", GA, [dict(cls=c, kind=s, k=k) for c in ("Data1D", "linspace_end") for s in ("period", "antiperiod") for k in "fc"], uses=USES_AXIS, bounded=True, conc=120)
def requested_period(S, cls, kind, k):
    """the requested values may lie in any rebuilt period"""
    n, q, m = S.int("n", 2, sample=(2, 5)), S.int("q", 1, sample=(1, 3)), S.int("m", 2, sample=(2, 6))
    h = S.frac(S.int("h", 1, sample=(1, 9)), 4)
    per = 2 * q if kind == "antiperiod" else q
    x = S.array("x", (n,), k)
    A = axis1d(S, cls, "angle", "rad", n, 0, h, {kind: per})[0]
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A], values=x, is_real=k == "f")
    N = n * per
    p = S.array("p", (m,), "i", where=lambda v: S.And(v >= 0, v < N), sample=lambda r: r.randrange(0, 40) % (N - 1))
    w = S.array("w", (m,), where=lambda v: S.And(v >= 0, v <= 1), sample=lambda r: r.choice([0, 0.25, 0.5, 0.875, 1]))
    new = S.build((m,), lambda i: h * (S.at(p, i) + S.at(w, i)))
    out = S.call(F.get_along, "angle=axis_data", axis_data={"angle": new})
    if not S.returns(out):
        return
    y = out.value["F"]
    xx = lambda j: sign(S, kind, S.div(j, n)) * S.at(x, S.mod(j, n))
    if S.ensure("one axis", y.ndim == 1):
        S.ensure("shape", y.shape[0] == m)
        S.forall("values", [m], lambda i: S.eq(S.at(y, i), xx(S.at(p, i)) + (xx(S.at(p, i) + 1) - xx(S.at(p, i))) * S.at(w, i)))


@contract("C08", GA, [dict(rank=r, axis=a, where=w) for r, a in ((1, 0), (2, 0), (2, 1)) for w in ("inside", "outside")], uses=USES_AXIS)
def requested_single(S, rank, axis, where):
    """a single requested value"""
    n, o = S.int("n", 2, sample=(2, 5)), S.int("o", 2, sample=(2, 3))
    t = S.increasing("t", n)
    sh = setix([o] * rank, axis, n)
    x = S.array("x", sh)
    D1 = S.cls("Data1D")
    T, Z = D1(name="time", unit="s", values=t), D1(name="z", unit="m", values=S.array("z", (o,)))
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[T] if rank == 1 else ([T, Z] if axis == 0 else [Z, T]), values=x)
    if where == "inside":
        j = S.int("j", 0, sample=(0, 1))
        S.assume(j < n)
        v = S.at(t, j)
    else:
        v = S.at(t, n - 1) + S.real("d", pos=True)
    out = S.call(F.get_along, *(["time=axis_data"] + (["z"] if rank == 2 else [])), axis_data={"time": [v]})
    if not S.returns(out):
        return
    y = S.arr(out.value["F"])
    ok = (lambda u, *i: S.eq(u, S.at(x, *insix(i, axis, j)))) if where == "inside" else (lambda u, *i: S.isnan(u))
    if rank == 1:
        if S.ensure("one value", y.ndim == 0 if S.symbolic else y.size == 1):
            S.at_index(j if where == "inside" else 0)
            S.ensure("value", ok(S.at(y.reshape([1]), 0)))
    elif S.ensure("one axis", y.ndim == 1):
        S.ensure("shape", y.shape[0] == o)
        S.forall("values", [o], lambda i: ok(S.at(y, i), i), setup=lambda i: S.at_index(j if where == "inside" else 0))


@contract("C08", [IN + "get_interpolation_step"], [dict(rank=r, axis=a, k=k) for r, a in AX for k in "fc"], bounded=True, conc=120)
def step(S, rank, axis, k):
    """the value of the step the point lies in, the mean of the two steps at an edge

    An edge holds for points within one thousandth of its coordinate (tolerance of the code)."""
    s, m = S.int("s", 1, sample=(1, 4)), S.int("m", 1, sample=(1, 6))
    sh = dims(S, rank)
    sh[axis] = 2 * s
    lv = S.array("lv", setix(sh, axis, s), k)
    edges = S.increasing("e", s + 1)
    p = S.array("p", (m,), "i", where=lambda v: S.And(v >= 0, v < s), sample=lambda r: r.randrange(0, 9) % int(s))
    w = S.array("w", (m,), where=lambda v: S.And(v >= 0, v <= 1), sample=lambda r: r.choice([0, 0.25, 0.5, 0.875, 1]))
    t = S.build((2 * s,), lambda i: S.at(edges, S.div(i + 1, 2)))
    x = S.build(sh, lambda *i: S.at(lv, *setix(i, axis, S.div(i[axis], 2))), k)
    new = S.build((m,), lambda i: S.at(edges, S.at(p, i)) * (1 - S.at(w, i)) + S.at(edges, S.at(p, i) + 1) * S.at(w, i))
    for i in range(int(m)):
        for e in range(int(s) + 1):
            u, b = float(new[i]), float(edges[e])
            S.assume(u == b or abs(u - b) > 2e-3 * max(abs(b), abs(u)) + 1e-7)
    x0 = S.copy(x)
    out = S.call(IN + "get_interpolation_step", x, t, new, axis)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[e] == (m if e == axis else sh[e]) for e in range(rank)]))

    def val(*i):
        j, f = int(p[i[axis]]), float(w[i[axis]])
        a = S.at(lv, *setix(i, axis, j))
        if f == 0 and j > 0:
            a = (a + S.at(lv, *setix(i, axis, j - 1))) / 2
        if f == 1 and j < s - 1:
            a = (a + S.at(lv, *setix(i, axis, j + 1))) / 2
        return S.eq(S.at(y, *i), a)
    if not (m == 2 * s and all(float(new[i]) == float(t[i]) for i in range(int(m)))):
        S.forall("values", setix(sh, axis, m), val)
    S.unchanged("field", x, x0)
