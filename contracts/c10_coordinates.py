"""C10: coordinate changes"""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries  # contract of rebuild_symmetries_axis

CV = "SciDataTool.Functions.conversions:"
VF = "SciDataTool.Methods.VectorField."


@contract("C10", [CV + "xyz_to_rphiz", CV + "rphiz_to_xyz"])
def points(S):
    """cartesian to cylindrical coordinates and back"""
    n = S.int("n", 1, sample=(1, 5))
    v = S.array("v", (n, 3), sample=lambda r: r.choice([0, 1, -1, 0.5, -2, 3.25]))
    v0 = S.copy(v)
    out = S.call(CV + "xyz_to_rphiz", v)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == 2):
        return
    S.ensure("shape", S.And(y.shape[0] == n, y.shape[1] == 3))

    def polar(i):
        r, p, z = (S.at(y, i, j) for j in range(3))
        x0, y0, z0 = (S.at(v0, i, j) for j in range(3))
        return S.And(r >= 0, p >= 0, p < 2 * S.pi, S.eq(r * S.cos(p), x0), S.eq(r * S.sin(p), y0), S.eq(r * r, x0 * x0 + y0 * y0), S.eq(z, z0))
    S.forall("radius, angle in [0, 2 pi) and z", [n], polar)
    back = S.call(CV + "rphiz_to_xyz", y)
    if S.returns(back, "back"):
        S.same("back to the same point", back.value, v0)
    S.unchanged("points", v, v0)


@contract("C10", [CV + "rphiz_to_xyz"], [dict(c=2), dict(c=3)])
def cylindrical_points(S, c):
    """cylindrical to cartesian coordinates, with or without z"""
    n = S.int("n", 1, sample=(1, 5))
    v = S.array("v", (n, c))
    v0 = S.copy(v)
    out = S.call(CV + "rphiz_to_xyz", v)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == 2):
        return
    S.ensure("shape", S.And(y.shape[0] == n, y.shape[1] == c))
    S.forall("x = r cos(phi), y = r sin(phi)", [n], lambda i: S.And(
        S.eq(S.at(y, i, 0), S.at(v0, i, 0) * S.cos(S.at(v0, i, 1))), S.eq(S.at(y, i, 1), S.at(v0, i, 0) * S.sin(S.at(v0, i, 1))),
        *([S.eq(S.at(y, i, 2), S.at(v0, i, 2))] if c == 3 else [])))
    S.unchanged("points", v, v0)


@contract("C10", [CV + "rphiz_to_xyz", CV + "xyz_to_rphiz"])
def cylindrical_round_trip(S):
    """cylindrical to cartesian and back, off the axis"""
    n = S.int("n", 1, sample=(1, 5))
    r = S.array("r", (n,), where=lambda v: v > 0, sample=lambda g: g.choice([0.5, 1, 2, 3.25]))
    p = S.array("p", (n,), where=lambda v: S.And(v >= 0, v < 2 * S.pi), sample=lambda g: g.choice([0, 0.5, 1.5, 3, 4, 5, 6.125]))
    z = S.array("z", (n,))
    v = S.build((n, 3), lambda i, j: S.ite(j == 0, S.at(r, i), S.ite(j == 1, S.at(p, i), S.at(z, i))))
    out = S.call(CV + "rphiz_to_xyz", v)
    if not S.returns(out):
        return
    back = S.call(CV + "xyz_to_rphiz", out.value)
    if not S.returns(back, "back"):
        return
    y = back.value
    S.forall("radius", [n], lambda i: S.eq(S.at(y, i, 0), S.at(r, i)))

    def angle(i):
        a, b, c = S.at(y, i, 1), S.at(p, i), S.at(r, i)
        S.fact("radius", S.eq(S.at(y, i, 0), c))
        S.fact("cosine", S.eq(c * S.cos(a), c * S.cos(b)))
        S.fact("sine", S.eq(c * S.sin(a), c * S.sin(b)))
        S.fact("same cosine", S.eq(S.cos(a), S.cos(b)))
        S.fact("same sine", S.eq(S.sin(a), S.sin(b)))
        S.angle_unique(S.at(y, i, 1), S.at(p, i))
        return S.eq(S.at(y, i, 1), S.at(p, i))
    S.forall("angle", [n], angle)
    S.forall("z", [n], lambda i: S.eq(S.at(y, i, 2), S.at(z, i)))


@contract("C10", [CV + "xy_to_rphi", CV + "rphi_to_xy"], [dict(rank=r) for r in (1, 2)])
def plane(S, rank):
    """the plane versions"""
    sh = dims(S, rank)
    x, y = (S.array(nm, sh, sample=lambda r: r.choice([0, 1, -1, 0.5, -2, 3.25])) for nm in "xy")
    out = S.call(CV + "xy_to_rphi", x, y)
    if not S.returns(out):
        return
    r, p = out.value
    S.forall("radius and angle in [0, 2 pi)", sh, lambda *i: S.And(
        S.at(r, *i) >= 0, S.at(p, *i) >= 0, S.at(p, *i) < 2 * S.pi, S.eq(S.at(r, *i) * S.cos(S.at(p, *i)), S.at(x, *i)), S.eq(S.at(r, *i) * S.sin(S.at(p, *i)), S.at(y, *i))))
    a, b = S.array("a", sh), S.array("b", sh)
    out = S.call(CV + "rphi_to_xy", a, b)
    if S.returns(out, "to cartesian"):
        S.forall("x = r cos(phi), y = r sin(phi)", sh, lambda *i: S.And(
            S.eq(S.at(out.value[0], *i), S.at(a, *i) * S.cos(S.at(b, *i))), S.eq(S.at(out.value[1], *i), S.at(a, *i) * S.sin(S.at(b, *i)))))


def to_cyl(S, x, y, p):
    return x * S.cos(p) + y * S.sin(p), y * S.cos(p) - x * S.sin(p)


def to_car(S, r, t, p):
    return r * S.cos(p) - t * S.sin(p), r * S.sin(p) + t * S.cos(p)


def norm2(S, *v):
    return sum(S.re(u) * S.re(u) + S.im(u) * S.im(u) for u in v)


@contract("C10", [CV + "xyz_to_rphiz_field", CV + "rphiz_to_xyz_field"], [dict(to=t, k=k) for t in ("cyl", "car") for k in "fc"])
def components(S, to, k):
    """vector components at points of given angles, and back"""
    n = S.int("n", 1, sample=(1, 5))
    v, p = S.array("v", (n, 3), k), S.array("p", (n,))
    v0, p0 = S.copy(v), S.copy(p)
    f, g, fm = (CV + "xyz_to_rphiz_field", CV + "rphiz_to_xyz_field", to_cyl) if to == "cyl" else (CV + "rphiz_to_xyz_field", CV + "xyz_to_rphiz_field", to_car)
    out = S.call(f, v, p)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == 2):
        return
    S.ensure("shape", S.And(y.shape[0] == n, y.shape[1] == 3))

    def ok(i):
        a, b = fm(S, S.at(v0, i, 0), S.at(v0, i, 1), S.at(p0, i))
        return S.And(S.eq(S.at(y, i, 0), a), S.eq(S.at(y, i, 1), b), S.eq(S.at(y, i, 2), S.at(v0, i, 2)))
    S.forall("components", [n], ok)
    S.forall("norm", [n], lambda i: S.eq(norm2(S, S.at(y, i, 0), S.at(y, i, 1), S.at(y, i, 2)), norm2(S, S.at(v0, i, 0), S.at(v0, i, 1), S.at(v0, i, 2))))
    back = S.call(g, y, p)
    if S.returns(back, "back"):
        S.same("back to the same components", back.value, v0)
    S.unchanged("components", v, v0)
    S.unchanged("angles", p, p0)


@contract("C10", [CV + "cart2pol", CV + "pol2cart"], [dict(to=t, rank=r, k=k) for t in ("cyl", "car") for r in (1, 2, 3) for k in "fc"])
def fields(S, to, rank, k):
    """components of a field along time, angle, z (angle alone, or second)"""
    sh = dims(S, rank)
    ax = 0 if rank == 1 else 1
    u, v, p = S.array("u", sh, k), S.array("v", sh, k), S.array("p", (sh[ax],))
    u0, v0 = S.copy(u), S.copy(v)
    f, g, fm = (CV + "cart2pol", CV + "pol2cart", to_cyl) if to == "cyl" else (CV + "pol2cart", CV + "cart2pol", to_car)
    out = S.call(f, u, v, p)
    if not S.returns(out):
        return
    a, b = out.value
    if not S.ensure("number of axes", S.And(a.ndim == rank, b.ndim == rank)):
        return
    S.ensure("shape", S.And(*[z.shape[d] == sh[d] for z in (a, b) for d in range(rank)]))

    def ok(*i):
        c, d = fm(S, S.at(u0, *i), S.at(v0, *i), S.at(p, i[ax]))
        return S.And(S.eq(S.at(a, *i), c), S.eq(S.at(b, *i), d))
    S.forall("components", sh, ok)
    S.forall("norm", sh, lambda *i: S.eq(norm2(S, S.at(a, *i), S.at(b, *i)), norm2(S, S.at(u0, *i), S.at(v0, *i))))
    back = S.call(g, a, b, p)
    if S.returns(back, "back"):
        S.same("first component back", back.value[0], u0)
        S.same("second component back", back.value[1], v0)
    S.unchanged("first component", u, u0)
    S.unchanged("second component", v, v0)


def vector(S, frame, comps, rank, kind="none"):
    """vector field along time and angle (and z) or angle alone"""
    n, m = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 5))
    q = S.int("q", 1, sample=(1, 3)) if kind != "none" else 1
    per = q if kind != "antiperiod" else 2 * q
    A, av = axis1d(S, "Data1D", "angle", "rad", m, 0, S.frac(S.int("h", 1, sample=(1, 5)), 8), symd(kind, per))
    if rank == 2 and kind == "none":
        T = S.cls("Data1D")(name="time", unit="s", values=S.increasing("t", n))
    else:
        T = axis1d(S, "linspace_end", "time", "s", n, 0, S.frac(S.int("ht", 1, sample=(1, 5)), 4), {})[0]
    Z = axis1d(S, "linspace_end", "z", "m", n, 0, 1, {})[0]
    axes = [[A], [T, A], [T, A, Z]][rank - 1]
    sh = [[m], [n, m], [n, m, n]][rank - 1]
    arr = {c: S.array(c, sh) for c in comps}
    names = {"radial": "B_r", "tangential": "B_t", "axial": "B_a", "comp_x": "B_x", "comp_y": "B_y", "comp_z": "B_z"}
    V = S.cls("VectorField")(name="B", symbol="B", components={c: S.cls("DataTime")(name=c, unit="T", symbol=names[c], axes=axes, values=arr[c]) for c in comps})
    return V, arr, av, sh, per, 0 if rank == 1 else 1


def stored(S, arr, c, *i):
    return S.at(arr[c], *i) if c in arr else 0


@contract("C10", [VF + "to_xyz:to_xyz", VF + "get_xyz_along:get_xyz_along", CV + "pol2cart"],
          [dict(comps=c, rank=r) for c in (("radial",), ("radial", "tangential"), ("radial", "tangential", "axial"), ("radial", "tangential", "comp_z")) for r in (1, 2, 3)], uses=USES_AXIS, budget=110)
def to_cartesian(S, comps, rank):
    """to_xyz and the way back"""
    V, arr, av, sh, per, ax = vector(S, "cyl", comps, rank)
    keep = {c: S.copy(arr[c]) for c in comps}
    out = S.call(V.to_xyz)
    if not S.returns(out):
        return
    W = out.value
    want = ["comp_x", "comp_y"] + (["comp_z"] if len(comps) == 3 else [])
    if not S.ensure("components", sorted(W.components) == want):
        return
    for d, name in enumerate(("comp_x", "comp_y")):
        y = W.components[name].values
        if S.ensure(name + ": number of axes", y.ndim == rank):
            S.ensure(name + ": shape", S.And(*[y.shape[e] == sh[e] for e in range(rank)]))
            S.forall(name, sh, lambda *i: S.eq(S.at(y, *i), to_car(S, stored(S, keep, "radial", *i), stored(S, keep, "tangential", *i), S.at(av, i[ax]))[d]))
    if len(comps) == 3:
        S.same("axial part", W.components["comp_z"].values, keep[comps[2]])
    for c in comps:
        S.unchanged("original " + c, V.components[c].values, keep[c])
    S.ensure("original components", sorted(V.components) == sorted(comps))
    back = S.call(W.to_rphiz)
    if not S.returns(back, "back"):
        return
    U = back.value
    if S.ensure("components back", sorted(U.components) == sorted(["radial", "tangential"] + (["axial"] if len(comps) == 3 else []))):
        S.same("radial back", U.components["radial"].values, keep["radial"])
        S.forall("tangential back", sh, lambda *i: S.eq(S.at(U.components["tangential"].values, *i), stored(S, keep, "tangential", *i)))
        if len(comps) == 3:
            S.same("axial back", U.components["axial"].values, keep[comps[2]])


@contract("C10", [VF + "to_rphiz:to_rphiz", VF + "get_rphiz_along:get_rphiz_along", CV + "cart2pol"],
          [dict(comps=c, rank=r) for c in (("comp_x", "comp_y"), ("comp_x", "comp_y", "comp_z")) for r in (1, 2, 3)], uses=USES_AXIS)
def to_cylindrical(S, comps, rank):
    """to_rphiz"""
    V, arr, av, sh, per, ax = vector(S, "car", comps, rank)
    keep = {c: S.copy(arr[c]) for c in comps}
    out = S.call(V.to_rphiz)
    if not S.returns(out):
        return
    W = out.value
    want = (["axial"] if len(comps) == 3 else []) + ["radial", "tangential"]
    if not S.ensure("components", sorted(W.components) == want):
        return
    for d, name in enumerate(("radial", "tangential")):
        y = W.components[name].values
        if S.ensure(name + ": number of axes", y.ndim == rank):
            S.ensure(name + ": shape", S.And(*[y.shape[e] == sh[e] for e in range(rank)]))
            S.forall(name, sh, lambda *i: S.eq(S.at(y, *i), to_cyl(S, S.at(keep["comp_x"], *i), S.at(keep["comp_y"], *i), S.at(av, i[ax]))[d]))
    if len(comps) == 3:
        S.same("axial part", W.components["axial"].values, keep["comp_z"])
    for c in comps:
        S.unchanged("original " + c, V.components[c].values, keep[c])
    S.ensure("original components", sorted(V.components) == sorted(comps))


ALONG = [VF + "get_xyz_along:get_xyz_along", VF + "get_rphiz_along:get_rphiz_along"]


@contract("C10", ALONG, [dict(to=t, kind="antiperiod", req=("time", "angle")) for t in ("car", "cyl")], uses=USES_AXIS, bounded=True)
def along_antiperiod(S, to, kind, req):
    """the same over a whole turn of an anti-periodic angle"""
    along(S, to, kind, req)


@contract("C10", ALONG,
          [dict(to=t, kind=s, req=r) for t in ("car", "cyl") for s in ("none", "period") for r in (("time", "angle"), ("time[1]", "angle"), ("time", "angle[smallestperiod]"))]
          + [dict(to=t, kind="antiperiod", req=("time", "angle[smallestperiod]")) for t in ("car", "cyl")]
          + [dict(to=t, kind="none", req=r) for t in ("car", "cyl") for r in (("time", "angle[1]"), ("time[0]", "angle[1,0]"))], uses=USES_AXIS)
def along(S, to, kind, req):
    """requests for the components of the other frame"""
    comps = ("radial", "tangential", "axial") if to == "car" else ("comp_x", "comp_y", "comp_z")
    V, arr, av, sh, per, ax = vector(S, to, comps, 2, kind)
    n, m = sh
    keep = {c: S.copy(arr[c]) for c in comps}
    out = S.call(V.get_xyz_along if to == "car" else V.get_rphiz_along, *req)
    if not S.returns(out):
        return
    names = ("comp_x", "comp_y", "comp_z") if to == "car" else ("radial", "tangential", "axial")
    h = S.at(av, 1)
    single_t = {"time[1]": 1, "time[0]": 0}.get(req[0])
    sel = {"angle[1]": [1], "angle[1,0]": [1, 0]}.get(req[1])
    whole = req[1] == "angle"
    for d, name in enumerate(names):
        y = S.arr(out.value[name])
        if not S.ensure(name + ": number of axes", y.ndim in (2, 2 - (single_t is not None) - (sel is not None and len(sel) == 1))):
            continue

        def want(i, k, j, s=1):
            a, b, c = (s * S.at(keep[nm], i, j) for nm in comps)
            u = (to_car if to == "car" else to_cyl)(S, a, b, h * (k * m + j))
            return (u + (c,))[d]

        one_t, one_a = single_t is not None, sel is not None and len(sel) == 1
        full = y.ndim == 2  # an axis reduced to one value may be kept

        def at(i, e):
            return S.at(y, *([0] if full else []) if one_t else [i], *([0] if full else []) if one_a else [e])
        if sel is None:
            q = per if whole else 1
            S.ensure(name + ": length", y.shape[-1] == q * m)
            for par in (0, 1) if kind == "antiperiod" and whole else (0,):
                step = 2 if kind == "antiperiod" and whole else 1
                S.forall(name + ("", ", odd copies")[par], [n, S.div(q, step), m],
                         lambda i, k, j: S.eq(at(i, (step * k + par) * m + j), want(single_t if single_t is not None else i, step * k + par, j, (-1) ** par)),
                         setup=lambda i, k, j: (S.hint(0, 0), S.hint(q - 1, m - 1), S.hint(step * k + par, j), S.hint(k, par * m + j)))
        else:
            for e, j in enumerate(sel):
                S.forall("%s at %d" % (name, j), [n], lambda i: S.eq(at(i, e), want(single_t if single_t is not None else i, 0, j)))
    S.ensure("original components", sorted(V.components) == sorted(comps))
    for c in comps:
        S.unchanged("original " + c, V.components[c].values, keep[c])
