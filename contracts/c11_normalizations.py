"""C11: normalizations"""
from dv.spec import contract
from contracts.lib import *
from contracts.c03_axes import copies, SEL, KINDS
import contracts.c02_symmetries  # contract of rebuild_symmetries_axis

M = "SciDataTool.Methods."
FORMULAS = [M + "%s.normalize:normalize" % c for c in ("Norm_ref", "Norm_affine", "Norm_func", "Norm_indices", "Norm_vector")]
GV = [M + c + ".get_values:get_values" for c in ("Data1D", "DataLinspace")]
GA = [M + "DataND.get_along:get_along", M + "DataND._convert:_convert"] + GV


def norm(S, what, unit="SI", n=None):
    """(normalization object, formula of value v at position i)"""
    if what == "ref":
        r = S.real("ref")
        S.assume(r != 0)
        return S.cls("Norm_ref")(ref=r, unit=unit), lambda v, i: v / r
    if what == "affine":
        a, b = S.real("slope"), S.real("offset")
        return S.cls("Norm_affine")(slope=a, offset=b, unit=unit), lambda v, i: a * v + b
    if what == "func":
        c = S.real("c")
        return S.cls("Norm_func")(function=lambda x: x * x + c, unit=unit), lambda v, i: v * v + c
    if what == "indices":
        return S.cls("Norm_indices")(unit=unit), lambda v, i: i
    w = S.array("w", (n,))
    w0 = S.copy(w)
    return S.cls("Norm_vector")(vector=w, unit=unit), lambda v, i: S.at(w0, i)


@contract("C11", FORMULAS, [dict(what=w, k=k) for w in ("ref", "affine", "func", "indices", "vector") for k in "fc"])
def formula(S, what, k):
    """each normalization applied to a vector of values"""
    n = S.int("n", 0, sample=(0, 6))
    v = S.array("v", (n,), k)
    v0 = S.copy(v)
    N, f = norm(S, what, n=n)
    out = S.call(N.normalize, v)
    if not S.returns(out):
        return
    y = S.arr(out.value)
    if S.ensure("number of axes", y.ndim == 1):
        S.ensure("number of values", y.shape[0] == n)
        S.forall("values", [n], lambda i: S.eq(S.at(y, i), f(S.at(v0, i), i)))
    S.unchanged("values before", v, v0)


@contract("C11", FORMULAS[:3], [dict(what=w, rank=r) for w in ("ref", "affine", "func") for r in (2, 3)])
def formula_field(S, what, rank):
    """normalizations of a field with several axes"""
    sh = dims(S, rank)
    v = S.array("v", sh)
    v0 = S.copy(v)
    N, f = norm(S, what)
    out = S.call(N.normalize, v)
    if not S.returns(out):
        return
    S.same("values", out.value, S.build(sh, lambda *i: f(S.at(v0, *i), None)))
    S.unchanged("values before", v, v0)


@contract("C11", FORMULAS[4:])
def vector_length(S):
    """a vector of another length is refused"""
    n, m = S.int("n", 0, sample=(0, 4)), S.int("m", 0, sample=(0, 4))
    N, f = norm(S, "vector", n=m)
    out = S.call(N.normalize, S.array("v", (n,)))
    if S.decide(n == m):
        S.returns(out)
    else:
        S.ensure("refused", out.raised("NormError"))


@contract("C11", GV + FORMULAS, [dict(cls=c, what=w, kind=k, sel=s, by=b) for c in ("Data1D", "linspace_end") for w in ("ref", "affine", "func", "indices", "vector")
                                 for k in ("period", "antiperiod", "none") for s in ("whole", "smallest", "one") for b in ("name", "unit") if b == "name" or s == "whole"], uses=USES_AXIS)
def axis(S, cls, what, kind, sel, by):
    """normalized axis values, asked for by normalization name or in place of the unit"""
    n, p = S.int("n", 2, sample=(2, 6)), S.int("p", 1, sample=(1, 5))
    a0, h = S.real("a0"), S.real("h", pos=True)
    N, f = norm(S, what, unit="rad" if by == "name" else "SI", n=n)
    A, v = axis1d(S, cls, "angle", "rad", n, a0, h, symd(kind, p))
    A.normalizations = {"mine": N}
    out = S.call(A.get_values, **{"normalization" if by == "name" else "unit": "mine"}, **SEL[sel])
    if not S.returns(out):
        return
    y = S.arr(out.value)
    q = copies(kind, p, sel)
    S.ensure("number of values", y.shape[0] == q * n)
    if what == "vector":
        w0 = S.copy(N.vector)
        S.forall("first copy is the vector", [n], lambda i: S.eq(S.at(y, i), f(None, i)), setup=lambda i: S.hint(0, i))
        S.forall("copies of the vector continue with its step", [q, n], lambda k, j: S.eq(S.at(y, k * n + j), S.at(w0, j) + k * (2 * S.at(w0, n - 1) - S.at(w0, 0) - S.at(w0, n - 2))), setup=lambda k, j: S.hint(k, j))
    else:
        S.forall("values", [q, n], lambda k, j: S.eq(S.at(y, k * n + j), f(a0 + h * (k * n + j), k * n + j)), setup=lambda k, j: S.hint(k, j))
    if what == "vector":
        S.ensure("stored vector", N.vector.shape[0] == n)
    again = S.call(A.get_values, **SEL[sel])
    if S.returns(again, "axis itself"):
        S.forall("axis itself is unchanged", [q, n], lambda k, j: S.eq(S.at(again.value, k * n + j), a0 + h * (k * n + j)), setup=lambda k, j: S.hint(k, j))


@contract("C11", GV + [M + "DataPattern.get_values:get_values"], [dict(cls=c, unit=u) for c in ("Data1D", "linspace_end", "pattern") for u in ("absent", "deg", "m")])
def refused(S, cls, unit):
    """a normalization that is missing or stated for another unit"""
    n = S.int("n", 2, sample=(2, 6))
    N, f = norm(S, "ref", unit=unit)
    if cls == "pattern":
        r = S.tolist(S.array("ri", (n,), "i", where=lambda r: S.And(r >= 0, r < n), sample=lambda rng: rng.randrange(n)))
        A = S.cls("DataPattern")(name="angle", unit="rad", values=S.array("v", (n,)), rebuild_indices=r, unique_indices=r)
    else:
        A, v = axis1d(S, cls, "angle", "rad", n, 0, S.real("h", pos=True), {})
    A.normalizations = {"mine": N} if unit != "absent" else {}
    S.ensure("by name", S.call(A.get_values, normalization="mine").raised("NormError"))
    if unit != "absent":
        S.ensure("in place of the unit", S.call(A.get_values, unit="mine").raised("NormError"))


@contract("C11", [M + "DataPattern.get_values:get_values"] + FORMULAS, [dict(what=w, whole=b) for w in ("ref", "affine", "indices") for b in (True, False)])
def pattern(S, what, whole):
    """normalized values of a pattern axis"""
    n, w = S.int("n", 1, sample=(1, 4)), S.int("w0", 1, sample=(1, 6))
    v, vw = S.array("v", (n,)), S.array("vw", (w,))
    ri = S.array("ri", (w,), "i", where=lambda r: S.And(r >= 0, r < n), sample=lambda rng: rng.randrange(n))
    N, f = norm(S, what)
    A = S.cls("DataPattern")(name="z", unit="m", values=v, rebuild_indices=S.tolist(ri), unique_indices=S.tolist(ri), normalizations={"mine": N}, **({"values_whole": vw} if whole else {}))
    out = S.call(A.get_values, normalization="mine")
    if S.returns(out):
        S.same("values", S.arr(out.value), S.build((w,), lambda i: f(S.at(vw, i) if whole else S.at(v, S.at(ri, i)), i)))
    out = S.call(A.get_values, normalization="mine", is_smallestperiod=True)
    if S.returns(out, "pattern values"):
        S.same("pattern values", S.arr(out.value), S.build((n,), lambda i: f(S.at(v, i), i)))


@contract("C11", GA, [dict(what=w, kind=k, req=r) for w in ("ref", "affine", "indices", "vector") for k in ("period", "antiperiod", "none") for r in ("angle->mine", "angle[smallestperiod]->mine") if k != "none" or "small" not in r], uses=USES_AXIS)
def request(S, what, kind, req):
    """a request with a normalized axis returns the normalized axis and the same field"""
    n, p = S.int("n", 2, sample=(2, 4)), 2 * S.int("p", 1, sample=(1, 2))
    a0, h = S.real("a0"), S.real("h", pos=True)
    N, f = norm(S, what, n=n)
    A, v = axis1d(S, "Data1D", "angle", "rad", n, a0, h, symd(kind, p))
    A.normalizations = {"mine": N}
    x = S.array("x", (n,))
    x0 = S.copy(x)
    D = S.cls("DataND")(name="field", unit="T", symbol="B", axes=[A], values=x)
    out = S.call(D.get_along, req)
    if not S.returns(out):
        return
    q = nper(kind, p) if "small" not in req else 1
    y, z = S.arr(out.value["angle"]), S.arr(out.value["B"])
    S.ensure("lengths", S.And(y.shape[0] == q * n, z.shape[0] == q * n))
    if what != "vector" or q == 1:
        S.forall("axis", [q, n], lambda k, j: S.eq(S.at(y, k * n + j), f(a0 + h * (k * n + j), k * n + j)), setup=lambda k, j: S.hint(k, j))
    S.forall("field", [q, n], lambda k, j: S.eq(S.at(z, k * n + j), sign(S, kind, k) * S.at(x0, j)), setup=lambda k, j: div_hints(S, k, n, j))


@contract("C11", GA, [dict(how=h, what=w) for h, w in (("is_norm", "ref"), ("unit", "ref"), ("unit", "affine"), ("unit", "func"))] + [dict(how="missing", what="affine"), dict(how="absent", what="ref")])
def field(S, how, what):
    """normalized field"""
    sh = dims(S, 2, lo=2)
    x = S.array("x", sh)
    x0 = S.copy(x)
    A = axis1d(S, "linspace_end", "angle", "rad", sh[0], 0, S.real("h", pos=True), {})[0]
    Z = axis1d(S, "linspace_end", "z", "m", sh[1], 0, S.real("hz", pos=True), {})[0]
    N, f = norm(S, what)
    key = {"is_norm": "ref", "missing": "other", "absent": None}.get(how, "mine")
    D = S.cls("DataND")(name="field", unit="T", symbol="B", axes=[A, Z], values=x, normalizations={key: N} if key else {})
    out = S.call(D.get_along, "angle", "z", **({"unit": "mine"} if how == "unit" else {"is_norm": True}))
    if how in ("missing", "absent"):
        S.ensure("no reference", out.raised("NormError"))
        return
    if S.returns(out):
        S.same("field", out.value["B"], S.build(sh, lambda *i: f(S.at(x0, *i), None)))
    S.unchanged("stored field", D.values, x0)
