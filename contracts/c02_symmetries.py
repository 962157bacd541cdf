"""C02: rebuilding a field from one period / one anti-period."""
from dv.spec import contract, spec

from contracts.lib import *


@contract("C02", SYM + ":rebuild_symmetries", [dict(rank=r, axis=a, kind=k, c=c) for r, a in AX for k in ("period", "antiperiod", "none") for c in "fc"])
def rebuild(S, rank, axis, kind, c):
    """copy k of the stored values, with sign (-1)^k for an anti-period, at positions k*n .. k*n+n-1"""
    sh = dims(S, rank)
    p = S.int("p", 1, sample=(1, 5))
    x = S.array("x", sh, c)
    x0 = S.copy(x)
    sym = {} if kind == "none" else {kind: p}
    out = S.call(SYM + ":rebuild_symmetries", x, axis, sym)
    if not S.returns(out):
        return
    is_copies(S, "field", out.value, x0, axis, nper(kind, p), kind)
    S.unchanged("input values not modified", x, x0)
    S.ensure("symmetry dictionary not modified", sym == ({} if kind == "none" else {kind: p}))


def tiled_axis(S, v, p):
    """p copies of an axis of at least two values, each shifted so that the step between copies is the last step"""
    n = v.shape[0]
    w = (S.at(v, n - 1) - S.at(v, 0)) + (S.at(v, n - 1) - S.at(v, n - 2))
    return S.build((p * n,), lambda i: S.at(v, S.mod(i, n)) + S.div(i, n) * w)


def axis_invariants(S, v, delta=None):
    if delta is None:
        S.invariant(lambda loop: (lambda k: tiled_axis(S, v, k + 1)))
    else:
        S.invariant(lambda loop: (lambda k: S.build((k + 1,), lambda i: S.at(v, 0) + i * delta)))


@contract("C02", SYM + ":rebuild_symmetries_axis", [dict(kind=k) for k in ("period", "antiperiod", "none")])
def rebuild_axis(S, kind):
    """the rebuilt axis is p copies of the stored axis shifted by the period width"""
    n, p = S.int("n", 2, sample=(2, 5)), S.int("p", 1, sample=(1, 5))
    v = S.array("v", (n,))
    v0 = S.copy(v)
    sym = {} if kind == "none" else {kind: p}
    axis_invariants(S, v0)
    out = S.call(SYM + ":rebuild_symmetries_axis", v, sym)
    if not S.returns(out):
        return
    y = out.value
    q = 1 if kind == "none" else p
    w = (S.at(v0, n - 1) - S.at(v0, 0)) + (S.at(v0, n - 1) - S.at(v0, n - 2))
    S.ensure("length", y.shape[0] == q * n)
    S.forall("copy k is the stored axis shifted by k widths", [q, n], lambda k, j: S.eq(S.at(y, k * n + j), S.at(v0, j) + k * w), setup=lambda k, j: S.hint(k, j))
    S.unchanged("stored axis not modified", v, v0)


@contract("C02", SYM + ":rebuild_symmetries_axis", [dict(kind=k) for k in ("period", "antiperiod")])
def rebuild_axis_single(S, kind):
    """an axis of one sample continues with the given step"""
    p, d = S.int("p", 1, sample=(1, 5)), S.real("d")
    v = S.array("v", (1,))
    v0 = S.copy(v)
    axis_invariants(S, v0, d)
    out = S.call(SYM + ":rebuild_symmetries_axis", v, {kind: p, "delta": d})
    if not S.returns(out):
        return
    S.ensure("length", out.value.shape[0] == p)
    S.forall("values", [p], lambda k: S.eq(S.at(out.value, k), S.at(v0, 0) + k * d))


@spec(SYM + ":rebuild_symmetries_axis")
def spec_axis(S, values, symmetries):
    """functional contract used by callers (axes of at least two values)"""
    p = symmetries.get("period", symmetries.get("antiperiod"))
    if p is None:
        return values
    if not S.decide(values.shape[0] >= 2):
        return S.inline(SYM + ":rebuild_symmetries_axis", values, symmetries)
    n = values.shape[0]
    if not S.decide(p >= 1):
        return S.inline(SYM + ":rebuild_symmetries_axis", values, symmetries)
    return tiled_axis(S, values, p)


GA = ["SciDataTool.Classes.DataTime:DataTime.get_along", "SciDataTool.Methods.DataND.get_along:get_along",
      "SciDataTool.Methods.DataND._rebuild_symmetries:_rebuild_symmetries", "SciDataTool.Methods.DataND._get_field:_get_field",
      "SciDataTool.Methods.RequestedAxis.get_axis:get_axis"]


def field2(S, cls, kind, names, pos, x):
    """data object with a symmetric axis at position pos and another axis"""
    n, m = x.shape[pos], x.shape[1 - pos]
    p = S.int("p", 1, sample=(1, 4))
    a0, h = S.real("a0"), S.real("h", pos=True)
    b0, g = S.real("b0"), S.real("g", pos=True)
    A, av = axis1d(S, cls, names[0], "s", n, a0, h, symd(kind, p))
    B, bv = axis1d(S, "Data1D", names[1], "m", m, b0, g, {})
    axes = [A, B] if pos == 0 else [B, A]
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=axes, values=x)
    return F, p, av, bv, a0, h


@contract("C02", GA, [dict(kind=k, names=nm, cls=c, pos=q) for k in ("period", "antiperiod", "none")
                      for nm, c, q in ((("time", "angle"), "Data1D", 0), (("angle", "time"), "linspace_end", 1), (("z", "time"), "linspace_noend", 0), (("X", "z"), "linspace_nofinal", 1))],
          uses=USES_AXIS)
def field_along(S, kind, names, cls, pos):
    """a request for whole axes returns the rebuilt field on the rebuilt axis"""
    n, m = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m) if pos == 0 else (m, n))
    x0 = S.copy(x)
    F, p, av, bv, a0, h = field2(S, cls, kind, names, pos, x)
    out = S.call(F.get_along, *(names if pos == 0 else names[::-1]))
    if not S.returns(out):
        return
    is_copies(S, "field", out.value["F"], x0, pos, nper(kind, p), kind)
    ax = out.value[names[0]]
    S.ensure("axis length equals field length", ax.shape[0] == nper(kind, p) * n)
    S.forall("axis values continue with the same step", [nper(kind, p), n], lambda k, j: S.eq(S.at(ax, k * n + j), a0 + h * (k * n + j)), setup=lambda k, j: S.hint(k, j))
    S.same("other axis", out.value[names[1]], bv)
    S.unchanged("stored values not modified", F.values, x0)


@contract("C02", GA, [dict(kind=k, sel=s, cls=c, pos=q) for k in ("period", "antiperiod", "none") for s in ("smallestperiod", "oneperiod", "antiperiod")
                      for c, q in (("Data1D", 0), ("linspace_end", 1))], uses=USES_AXIS)
def field_selector(S, kind, sel, cls, pos):
    """period selectors return the stored part, the half period or one full period"""
    n, m = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m) if pos == 0 else (m, n))
    x0 = S.copy(x)
    names = ("time", "angle")
    F, p, av, bv, a0, h = field2(S, cls, kind, names, pos, x)
    req = ["time[%s]" % sel, "angle"]
    out = S.call(F.get_along, *(req if pos == 0 else req[::-1]))
    if sel == "antiperiod" and kind != "antiperiod":
        S.ensure("axis without anti-period is refused", out.raised("AxisError"))
        return
    if not S.returns(out):
        return
    q = 2 if sel == "oneperiod" and kind == "antiperiod" else 1
    is_copies(S, "field", out.value["F"], x0, pos, q, kind)
    ax = out.value["time"]
    S.ensure("axis length equals field length", ax.shape[0] == q * n)
    S.forall("axis values", [q, n], lambda k, j: S.eq(S.at(ax, k * n + j), a0 + h * (k * n + j)), setup=lambda k, j: S.hint(k, j))


@contract("C02", GA, [dict(k1=a, k2=b) for a in ("period", "antiperiod") for b in ("period", "antiperiod")], uses=USES_AXIS)
def field_two_symmetries(S, k1, k2):
    """symmetries along two axes are rebuilt independently"""
    n, m = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4))
    p, q = S.int("p", 1, sample=(1, 4)), S.int("q", 1, sample=(1, 4))
    x = S.array("x", (n, m))
    A, av = axis1d(S, "Data1D", "time", "s", n, S.real("a0"), S.real("h", pos=True), {k1: p})
    B, bv = axis1d(S, "linspace_end", "angle", "rad", m, S.real("b0"), S.real("g", pos=True), {k2: q})
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A, B], values=x)
    out = S.call(F.get_along, "time", "angle")
    if not S.returns(out):
        return
    y = out.value["F"]
    S.ensure("shape", S.And(y.shape[0] == p * n, y.shape[1] == q * m, out.value["time"].shape[0] == p * n, out.value["angle"].shape[0] == q * m))

    def hints(k, l, i, j):
        div_hints(S, k, n, i)
        div_hints(S, l, m, j)
    S.forall("blocks", [p, q, n, m], lambda k, l, i, j: S.eq(S.at(y, k * n + i, l * m + j), sign(S, k1, k) * sign(S, k2, l) * S.at(x, i, j)), setup=hints)


@contract("C02", GA, [dict(sel=s) for s in ("", "[pattern]")])
def field_pattern(S, sel):
    """a pattern axis returns the stored sample of each rebuilt position"""
    n, m, w = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4)), S.int("w", 2, sample=(2, 6))
    x = S.array("x", (n, m))
    v = S.array("v", (n,))
    vw = S.array("vw", (w,))
    ri = S.array("ri", (w,), "i", where=lambda r: S.And(r >= 0, r < n), sample=lambda rng: rng.randrange(n))
    B, bv = axis1d(S, "Data1D", "angle", "rad", m, S.real("b0"), S.real("g", pos=True), {})
    A = S.cls("DataPattern")(name="z", unit="m", values=v, values_whole=vw, rebuild_indices=S.tolist(ri), unique_indices=S.tolist(ri), is_step=True)
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A, B], values=x)
    out = S.call(F.get_along, "z" + sel, "angle")
    if not S.returns(out):
        return
    y = out.value["F"]
    if sel:
        S.same("stored field", y, x)
        S.same("stored axis", out.value["z"], v)
    else:
        S.ensure("shape", S.And(y.ndim == 2, y.shape[0] == w, y.shape[1] == m))
        S.forall("sample of each position", [w, m], lambda i, j: S.eq(S.at(y, i, j), S.at(x, S.at(ri, i), j)))
        S.same("whole axis", out.value["z"], vw)
