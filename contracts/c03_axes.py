"""C03: axis values, axis length and periodic reduction."""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries  # callee contract of rebuild_symmetries_axis

M = "SciDataTool.Methods."
GV = [M + c + ".get_values:get_values" for c in ("Data1D", "DataLinspace")]
GL = [M + c + ".get_length:get_length" for c in ("Data1D", "DataLinspace")]
KINDS = ("Data1D", "linspace_end", "linspace_noend", "linspace_step", "linspace_nofinal")
SEL = {"whole": {}, "smallest": {"is_smallestperiod": True}, "one": {"is_oneperiod": True}, "anti": {"is_antiperiod": True}}


def copies(kind, p, sel):
    """number of stored parts a selector returns"""
    if sel == "whole":
        return nper(kind, p)
    return 2 if sel == "one" and kind == "antiperiod" else 1


@contract("C03", GV + GL, [dict(cls=c, kind=k, sel=s) for c in KINDS for k in ("period", "antiperiod", "none") for s in SEL], uses=USES_AXIS)
def values_and_length(S, cls, kind, sel):
    """a uniform axis is returned as start + i*step with exactly the reported number of values"""
    n, p = S.int("n", 2, sample=(2, 6)), S.int("p", 1, sample=(1, 5))
    a0, h = S.real("a0"), S.real("h", pos=True)
    A, v = axis1d(S, cls, "angle", "rad", n, a0, h, symd(kind, p))
    out, ln = S.call(A.get_values, **SEL[sel]), S.call(A.get_length, **SEL[sel])
    if sel == "anti" and kind != "antiperiod":
        S.ensure("axis without anti-period is refused", S.And(out.raised("AxisError"), ln.raised("AxisError")))
        return
    if not S.And(S.returns(out), S.returns(ln, "length returns normally")):
        return
    q = copies(kind, p, sel)
    y = out.value
    S.ensure("number of values equals the reported length", y.shape[0] == ln.value)
    S.ensure("number of values", y.shape[0] == q * n)
    S.forall("values continue with the axis step", [q, n], lambda k, j: S.eq(S.at(y, k * n + j), a0 + h * (k * n + j)), setup=lambda k, j: S.hint(k, j))


@contract("C03", GV + GL, [dict(cls=c, kind=k, sel=s) for c in ("Data1D", "linspace_end") for k in ("period", "antiperiod") for s in ("whole", "smallest", "one")], uses=USES_AXIS)
def frequency_axis_length(S, cls, kind, sel):
    """frequency axes are returned without symmetries and report that length"""
    n, p = S.int("n", 2, sample=(2, 6)), S.int("p", 1, sample=(1, 5))
    A, v = axis1d(S, cls, "freqs", "Hz", n, S.real("a0"), S.real("h", pos=True), symd(kind, p))
    out, ln = S.call(A.get_values, **SEL[sel]), S.call(A.get_length, **SEL[sel])
    if S.And(S.returns(out), S.returns(ln, "length returns normally")):
        S.same("stored values", out.value, v)
        S.ensure("number of values equals the reported length", out.value.shape[0] == ln.value)


@contract("C03", GV[:1] + GL[:1], [dict(kind=k, sel=s) for k in ("period", "antiperiod", "none") for s in SEL], uses=USES_AXIS)
def values_any(S, kind, sel):
    """any stored values: copies shifted so that the last step continues"""
    n, p = S.int("n", 2, sample=(2, 6)), S.int("p", 1, sample=(1, 5))
    v = S.array("v", (n,))
    v0 = S.copy(v)
    A = S.cls("Data1D")(name="z", unit="m", values=v, symmetries=symd(kind, p))
    out, ln = S.call(A.get_values, **SEL[sel]), S.call(A.get_length, **SEL[sel])
    if sel == "anti" and kind != "antiperiod":
        S.ensure("axis without anti-period is refused", S.And(out.raised("AxisError"), ln.raised("AxisError")))
        return
    if not S.And(S.returns(out), S.returns(ln, "length returns normally")):
        return
    q = copies(kind, p, sel)
    y = out.value
    w = (S.at(v0, n - 1) - S.at(v0, 0)) + (S.at(v0, n - 1) - S.at(v0, n - 2))
    S.ensure("number of values equals the reported length", S.And(y.shape[0] == ln.value, y.shape[0] == q * n))
    S.forall("values", [q, n], lambda k, j: S.eq(S.at(y, k * n + j), S.at(v0, j) + k * w), setup=lambda k, j: S.hint(k, j))
    S.unchanged("stored values", A.values, v0)


@contract("C03", [M + "DataPattern.get_values:get_values", M + "DataPattern.get_length:get_length"], [dict(whole=w, sel=s) for w in (True, False) for s in ({}, {"is_smallestperiod": True}, {"is_pattern": True})])
def pattern_axis(S, whole, sel):
    """a pattern axis returns its whole values, or the stored value of each rebuilt position"""
    n, w = S.int("n", 1, sample=(1, 4)), S.int("w", 1, sample=(1, 6))
    v, vw = S.array("v", (n,)), S.array("vw", (w,))
    ri = S.array("ri", (w,), "i", where=lambda r: S.And(r >= 0, r < n), sample=lambda rng: rng.randrange(n))
    A = S.cls("DataPattern")(name="z", unit="m", values=v, rebuild_indices=S.tolist(ri), unique_indices=S.tolist(ri), **({"values_whole": vw} if whole else {}))
    out, ln = S.call(A.get_values, **sel), S.call(A.get_length, **sel)
    if not S.And(S.returns(out), S.returns(ln, "length returns normally")):
        return
    S.ensure("number of values equals the reported length", out.value.shape[0] == ln.value)
    S.same("values", out.value, v if sel else vw if whole else S.build((w,), lambda i: S.at(v, S.at(ri, i))))


@contract("C03", [M + "Data1D.get_axis_periodic:get_axis_periodic", M + "DataLinspace.get_axis_periodic:get_axis_periodic"] + GV + GL,
          [dict(cls=c, aper=a, kind=k) for c in KINDS for a in (False, True) for k in ("none", "period") if k == "none" or c in ("Data1D", "linspace_end")], uses=USES_AXIS)
def reduce_and_rebuild(S, cls, aper, kind):
    """reducing an axis to p (anti)periods and rebuilding it gives the original axis"""
    m, k, q = S.int("m", 2, sample=(2, 6)), S.int("k", 1, sample=(1, 3)), S.int("q", 1, sample=(1, 3))
    a0, h = S.real("a0"), S.real("h", pos=True)
    # q stored parts of N samples reduced to p parts of m samples: q*N == p*m
    if kind == "none":
        q = 1
    else:
        k = 1  # an axis that already has q parts is reduced to the same parts
    p, N = q * k, (2 if aper else 1) * m * k
    A, v = axis1d(S, cls, "angle", "rad", N, a0, h, symd(kind, q))
    p2 = 2 * p if aper else p
    S.fact("positive products", S.And(m * k >= 2, q * k >= 1, q * k >= q, q * N == p2 * m, q * N >= 2))
    out = S.call(A.get_axis_periodic, p, is_aper=aper)
    if not S.returns(out):
        return
    B = out.value
    S.ensure("kind of axis and name", S.And(S.type_name(B) == S.type_name(A), B.name == "angle", B.unit == "rad"))
    red = S.call(B.get_values, is_smallestperiod=True)
    if S.returns(red, "stored values of the reduced axis"):
        S.ensure("length of the reduced axis", red.value.shape[0] == m)
        S.forall("reduced axis is the beginning of the axis", [m], lambda i: S.eq(S.at(red.value, i), a0 + i * h))
    full, ln = S.call(B.get_values), S.call(B.get_length)
    if not S.And(S.returns(full, "rebuilt values"), S.returns(ln, "rebuilt length")):
        return
    S.ensure("length of the rebuilt axis", S.And(full.value.shape[0] == q * N, ln.value == q * N))
    S.forall("rebuilt axis is the original axis", [p2, m], lambda c, j: S.eq(S.at(full.value, c * m + j), a0 + h * (c * m + j)), setup=lambda c, j: S.hint(c, j))
    per = S.call(B.get_periodicity)
    if S.returns(per, "periodicity"):
        S.ensure("reported periodicity", S.And(per.value[0] == p2, S.implies(p2 > 1, per.value[1] == aper)))


@contract("C03", [M + "Data1D.get_axis_periodic:get_axis_periodic", M + "DataLinspace.get_axis_periodic:get_axis_periodic"], [dict(cls=c, aper=a) for c in KINDS for a in (False, True)], uses=USES_AXIS)
def reduce_not_divisible(S, cls, aper):
    """an axis whose length is not divisible by the number of periods is returned unreduced"""
    N, p = S.int("N", 2, sample=(2, 12)), S.int("p", 1, sample=(1, 6))
    a0, h = S.real("a0"), S.real("h", pos=True)
    A, v = axis1d(S, cls, "angle", "rad", N, a0, h, {})
    p2 = 2 * p if aper else p
    S.assume(S.mod(N, p2) != 0)
    out = S.call(A.get_axis_periodic, p, is_aper=aper)
    if not S.returns(out):
        return
    B = out.value
    full = S.call(B.get_values)
    if S.returns(full, "values"):
        S.same("original values", full.value, v)
    S.ensure("no symmetry", B.symmetries == {})


@contract("C03", [M + "Data1D.to_linspace:to_linspace"], [dict(kind=k) for k in ("period", "antiperiod", "none")], uses=USES_AXIS)
def to_linspace(S, kind):
    """a uniform Data1D axis becomes a linspace axis with the same values and length"""
    n, p = S.int("n", 2, sample=(2, 6)), S.int("p", 1, sample=(1, 5))
    a0, h = S.real("a0"), S.real("h", pos=True)
    A, v = axis1d(S, "Data1D", "angle", "rad", n, a0, h, symd(kind, p))
    out = S.call(A.to_linspace)
    if not S.returns(out):
        return
    B = out.value
    S.ensure("linspace axis", S.And(S.type_name(B) == "DataLinspace", B.name == "angle", B.unit == "rad"))
    full, ln = S.call(B.get_values), S.call(B.get_length)
    if S.And(S.returns(full, "values"), S.returns(ln, "length")):
        q = nper(kind, p)
        S.ensure("length", S.And(full.value.shape[0] == q * n, ln.value == q * n))
        S.forall("values", [q, n], lambda k, j: S.eq(S.at(full.value, k * n + j), a0 + h * (k * n + j)), setup=lambda k, j: S.hint(k, j))
