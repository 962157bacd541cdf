"""C09: a slice request returns exactly the requested samples"""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries  # contract of rebuild_symmetries_axis

GA = ["SciDataTool.Methods.DataND.get_along:get_along", "SciDataTool.Methods.DataND._extract_slices:_extract_slices",
      "SciDataTool.Methods.DataND._get_field:_get_field", "SciDataTool.Methods.DataND._comp_axes:_comp_axes",
      "SciDataTool.Methods.RequestedAxis.get_axis:get_axis", "SciDataTool.Functions.fix_axes_order:fix_axes_order",
      "SciDataTool.Functions.parser:read_input_strings"]
INDEX = {"[0]": [0], "[1]": [1], "[3]": [3], "[-1]": [-1], "[2,0]": [2, 0], "[0,-1]": [0, -1], "[1,3,2]": [1, 3, 2], "[1:3]": [1, 2], "[0:4]": [0, 1, 2, 3], "[-2,1]": [-2, 1]}


def field(S, cls, kind, k, pos, others=1):
    """field along a symmetric axis "time" at position pos among other axes"""
    n, m, p = S.int("n", 2, sample=(2, 6)), S.int("m", 2, sample=(2, 4)), S.int("p", 1, sample=(1, 3))
    a0, h = S.real("a0"), S.frac(S.int("h", 1, sample=(1, 9)), 4)
    A, av = axis1d(S, cls, "time", "s", n, a0, h, symd(kind, p))
    sh = insix([m] * others, pos, n)
    x = S.array("x", sh, k)
    bv = S.array("bv", (m,))
    B = [S.cls("Data1D")(name=("z", "X")[i], unit="m", values=bv) for i in range(others)]
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=insix(B, pos, A), values=x, is_real=k == "f")
    return F, x, n, m, nper(kind, p), a0, h, bv


@contract("C09", GA, [dict(req=r, cls=c, kind=s, pos=q) for r in INDEX for c, s, q in
                      (("Data1D", "none", 0), ("linspace_end", "period", 1), ("Data1D", "antiperiod", 0), ("linspace_noend", "antiperiod", 1), ("Data1D", "period", 0))], uses=USES_AXIS)
def indices(S, req, cls, kind, pos):
    """single index, list and range of indices, also in a rebuilt period"""
    F, x, n, m, per, a0, h, bv = field(S, cls, kind, "f", pos)
    N = n * per
    L = INDEX[req]
    S.assume(S.And(*[(j < N) if j >= 0 else (-j <= N) for j in L]))
    x0 = S.copy(x)
    args = ["time" + req, "z"]
    out = S.call(F.get_along, *(args if pos == 0 else args[::-1]))
    if not S.returns(out):
        return
    y, g = out.value["F"], out.value["time"]
    J = [j if j >= 0 else N + j for j in L]
    for j in L:
        if j < 0:
            div_hints(S, per - 1, n, n + j)
    S.ensure("number of axis values", S.And(g.ndim == 1, g.shape[0] == len(L)))
    for e, j in enumerate(J):
        S.ensure("axis value %d" % e, S.eq(S.at(g, e), a0 + h * j))
    if not S.ensure("number of axes", y.ndim == (1 if len(L) == 1 else 2)):
        return
    S.ensure("shape", S.And(*[a == b for a, b in zip(y.shape, [m] if len(L) == 1 else insix([m], pos, len(L)))]))
    for e, j in enumerate(J):
        S.forall("field at index %d" % L[e], [m], lambda i: S.eq(S.at(y, *([i] if len(L) == 1 else insix([i], pos, e))), sign(S, kind, S.div(j, n)) * S.at(x0, *insix([i], pos, S.mod(j, n)))))
    S.same("other axis", out.value["z"], bv)
    S.unchanged("field", F.values, x0)


@contract("C09", GA, [dict(req=r, pos=q, cls=c) for r in ("=[-1.5,2]", "=[0,4.25]", ">0.5", "<2.5") for c, q in (("Data1D", 0), ("Data1D", 1))])
def interval(S, req, pos, cls):
    """closed value interval, lower and upper bound on an axis with any increasing values"""
    n, m = S.int("n", 2, sample=(2, 8)), S.int("m", 2, sample=(2, 4))
    t = S.increasing("t", n)
    x = S.array("x", insix([m], pos, n))
    lo, hi = {"=[-1.5,2]": (-1.5, 2), "=[0,4.25]": (0, 4.25), ">0.5": (0.5, None), "<2.5": (None, 2.5)}[req]
    inside = lambda v: S.And(*([v >= lo] if lo is not None else []), *([v <= hi] if hi is not None else []))
    a, w = S.int("a", 0, sample=(0, 3)), S.int("w", 1, sample=(1, 3))
    if not S.symbolic:
        ok = [i for i in range(int(n)) if inside(t[i])]
        S.assume(len(ok) > 0)
        a, w = ok[0], len(ok)
    # samples a .. a+w-1 and no others lie inside
    S.assume(S.And(a + w <= n, inside(S.at(t, a)), inside(S.at(t, a + w - 1))))
    S.assume(S.Or(a == 0, S.Not(inside(S.at(t, S.ite(a > 0, a - 1, 0))))))
    S.assume(S.Or(a + w == n, S.Not(inside(S.at(t, S.ite(a + w < n, a + w, 0))))))
    S.consecutive(a, w)
    B = S.cls("Data1D")(name="z", unit="m", values=S.array("bv", (m,)))
    A = S.cls("Data1D")(name="time", unit="s", values=t)
    x0 = S.copy(x)
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=insix([B], pos, A), values=x)
    out = S.call(F.get_along, "time" + req, "z", is_squeeze=False)
    if not S.returns(out):
        return
    y, g = out.value["F"], out.value["time"]
    if not S.ensure("number of axes", S.And(g.ndim == 1, y.ndim == 2)):
        return
    S.ensure("length", S.And(g.shape[0] == w, y.shape[pos] == w, y.shape[1 - pos] == m))
    S.forall("axis values", [w], lambda i: S.eq(S.at(g, i), S.at(t, a + i)))
    S.forall("field", [w, m], lambda i, j: S.eq(S.at(y, *insix([j], pos, i)), S.at(x0, *insix([j], pos, a + i))))
    S.unchanged("field", F.values, x0)


@contract("C09", GA, [dict(req=r, kind=s) for r in ("[2,0]", "[1:3]") for s in ("none", "antiperiod")], uses=USES_AXIS)
def missing_axes(S, req, kind):
    """axes left out are taken at their first sample and reported; unknown axes are ignored"""
    F, x, n, m, per, a0, h, bv = field(S, "Data1D", kind, "f", 1, 2)
    L = INDEX[req]
    S.assume(n * per > max(L))
    x0 = S.copy(x)
    for label, args in (("one axis", ("time" + req,)), ("and an unknown one", ("time" + req, "slice[3]"))):
        out = S.call(F.get_along, *args)
        if not S.returns(out, label):
            return
        y, g, other = out.value["F"], out.value["time"], out.value["axes_dict_other"]
        S.ensure(label + ": one axis", S.And(y.ndim == 1, y.shape[0] == len(L), g.shape[0] == len(L)))
        for e, j in enumerate(L):
            S.ensure(label + ": axis value %d" % e, S.eq(S.at(g, e), a0 + h * j))
            S.ensure(label + ": sample %d" % e, S.eq(S.at(y, e), sign(S, kind, S.div(j, n)) * S.at(x0, 0, S.mod(j, n), 0)))
        if S.ensure(label + ": axes left out", sorted(other) == ["X", "z"]):
            for b in other:
                S.ensure(label + ": first value of " + b, S.And(S.eq(other[b][0], S.at(bv, 0)), other[b][1] == "m"))


@contract("C09", GA, [dict(req=r, order=o) for r in (("time[1,0]", "z", "X[0]"), ("time", "z[1]", "X"), ("time[0:2]", "z>0.5", "X[1]")) for o in ((0, 2, 1), (2, 1, 0), (1, 2, 0))])
def order(S, req, order):
    """the order in which the axes are requested does not change the result"""
    sh = [S.int("n%d" % i, 2, sample=(2, 4)) for i in range(3)]
    x = S.array("x", sh)
    ax = [S.increasing("t", sh[0]), S.increasing("v", sh[1]), S.increasing("w", sh[2])]
    a = S.int("a", 0, sample=(0, 0))
    S.assume(S.And(a < sh[1], S.at(ax[1], a) >= 0.5))
    S.assume(S.Or(a == 0, S.at(ax[1], S.ite(a > 0, a - 1, 0)) < 0.5))
    S.consecutive(a, sh[1] - a)
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[S.cls("Data1D")(name=nm, unit=u, values=v) for nm, u, v in zip(("time", "z", "X"), "smm", ax)], values=x)
    a, b = S.call(F.get_along, *req), S.call(F.get_along, *[req[i] for i in order])
    if not (S.returns(a, "in order") and S.returns(b, "reordered")):
        return
    S.same("field", b.value["F"], a.value["F"])
    for nm in ("time", "z", "X"):
        S.same("axis " + nm, b.value[nm], a.value[nm])


@contract("C09", GA + ["SciDataTool.Methods.DataND._extract_slices_fft:_extract_slices_fft"], [dict(req=r, name=nm, k=k) for r in ("[0]", "[1]", "[2,0]", "[0:2]") for nm in ("freqs", "wavenumber") for k in "fc"], uses=USES_AXIS)
def spectrum(S, req, name, k):
    """indices of a spectrum"""
    n, m = S.int("n", 4, sample=(4, 9)), S.int("m", 2, sample=(2, 4))
    h = S.frac(S.int("h", 1, sample=(1, 9)), 4)
    A, av = axis1d(S, "linspace_end", {"freqs": "time", "wavenumber": "angle"}[name], "s" if name == "freqs" else "rad", n, 0, h, {})
    x = S.array("x", (m, n), k)
    B = S.cls("Data1D")(name="z", unit="m", values=S.array("bv", (m,)))
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[B, A], values=x, is_real=k == "f")
    a, b = S.call(F.get_along, "z", name), S.call(F.get_along, "z", name + req)
    if not (S.returns(a, "whole") and S.returns(b, "slice")):
        return
    L = INDEX.get(req, [0, 1])
    y, y0, g, g0 = b.value["F"], a.value["F"], b.value[name], a.value[name]
    S.ensure("number of axis values", S.And(g.ndim == 1, g.shape[0] == len(L)))
    if not S.ensure("number of axes", y.ndim == (1 if len(L) == 1 else 2)):
        return
    S.ensure("shape", S.And(*[u == v for u, v in zip(y.shape, [m] if len(L) == 1 else [m, len(L)])]))
    for e, j in enumerate(L):
        S.ensure("axis value %d" % e, S.eq(S.at(g, e), S.at(g0, j)))
        S.forall("field at %d" % j, [m], lambda i: S.eq(S.at(y, *([i] if len(L) == 1 else [i, e])), S.at(y0, i, j)))


@contract("C09", GA, [dict(req=r, pos=q) for r in INDEX for q in (0, 1)])
def pattern(S, req, pos):
    """indices along a pattern axis number the rebuilt positions"""
    n, m, w = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4)), S.int("w", 4, sample=(4, 7))
    x, v, vw = S.array("x", insix([m], pos, n)), S.array("v", (n,)), S.array("vw", (w,))
    ri = S.array("ri", (w,), "i", where=lambda r: S.And(r >= 0, r < n), sample=lambda rng: rng.randrange(n))
    A = S.cls("DataPattern")(name="z", unit="m", values=v, values_whole=vw, rebuild_indices=S.tolist(ri), unique_indices=S.tolist(ri), is_step=True)
    B, bv = axis1d(S, "Data1D", "angle", "rad", m, S.real("b0"), S.real("g", pos=True), {})
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=insix([B], pos, A), values=x)
    out = S.call(F.get_along, "z" + req, "angle", is_squeeze=False)
    if not S.returns(out):
        return
    y, g, L = out.value["F"], out.value["z"], INDEX[req]
    S.ensure("number of axis values", S.And(g.ndim == 1, g.shape[0] == len(L)))
    if not S.ensure("number of axes", y.ndim == 2):
        return
    S.ensure("shape", S.And(y.shape[pos] == len(L), y.shape[1 - pos] == m))
    for e, j in enumerate(L):
        J = j if j >= 0 else w + j
        S.ensure("axis value %d" % e, S.eq(S.at(g, e), S.at(vw, J)))
        S.forall("field at %d" % j, [m], lambda i: S.eq(S.at(y, *insix([i], pos, e)), S.at(x, *insix([i], pos, S.at(ri, J)))))
