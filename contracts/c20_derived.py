"""C20: a derived data object answers like the request that produced it"""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries  # contract of rebuild_symmetries_axis

M = "SciDataTool.Methods."
GD = M + "DataND.get_data_along:get_data_along"
TOLIN = M + "Data1D.to_linspace:to_linspace"
CONV = "SciDataTool.Functions.conversions:"
# request name: (requests, options, unit of the result, [(axis, unit, symmetries kept)], class)
T, A, W, Q = ("time", "s"), ("angle", "rad"), ("wavenumber", "dimless"), ("freqs", "Hz")
REQ = {
    "whole": (("time", "angle"), {}, "T", [T + (0,), A + (0,)], "DataTime"),
    "smallest": (("time[smallestperiod]", "angle[smallestperiod]"), {}, "T", [T + (1,), A + (1,)], "DataTime"),
    "smallest time": (("time[smallestperiod]", "angle"), {}, "T", [T + (1,), A + (0,)], "DataTime"),
    "smallest angle": (("time", "angle[smallestperiod]"), {}, "T", [T + (0,), A + (1,)], "DataTime"),
    "period": (("time[oneperiod]", "angle"), {}, "T", [T + (0,), A + (0,)], "DataTime"),
    "index": (("time[1]", "angle"), {}, "T", [T + (0,), A + (0,)], "DataTime"),
    "indices": (("time", "angle[0,1]"), {}, "T", [T + (0,), A + (0,)], "DataTime"),
    "mean": (("time=mean", "angle"), {}, "T", [A + (0,)], "DataTime"),
    "sum": (("time", "angle=sum"), {}, "T", [T + (0,)], "DataTime"),
    "sum smallest": (("time[smallestperiod]", "angle=sum"), {}, "T", [T + (1,)], "DataTime"),
    "max": (("time=max", "angle[smallestperiod]"), {}, "T", [A + (1,)], "DataTime"),
    "integral": (("time=integrate", "angle"), {}, "Ts", [A + (0,)], "DataTime"),
    "antiderivative": (("time=antiderivate", "angle"), {}, "Ts", [T + (1,), A + (0,)], "DataTime"),
    "derivative": (("time=derivate", "angle"), {}, "T/s", [T + (1,), A + (0,)], "DataTime"),
    "unit": (("time", "angle"), dict(unit="mT"), "mT", [T + (0,), A + (0,)], "DataTime"),
    "unit smallest": (("time[smallestperiod]", "angle=sum"), dict(unit="mT"), "mT", [T + (1,)], "DataTime"),
    "axis unit": (("time{ms}", "angle{°}"), {}, "T", [("time", "ms", 0), ("angle", "°", 0)], "DataTime"),
    "one axis": (("time",), {}, "T", [T + (0,)], "DataTime"),
    "other axis": (("angle[smallestperiod]",), {}, "T", [A + (1,)], "DataND"),
    "spectrum": (("freqs", "angle[0]"), {}, "T", [Q + (1,), A + (0,)], "DataFreq"),
    "spectrum smallest": (("freqs", "angle[smallestperiod]"), {}, "T", [Q + (1,), A + (1,)], "DataFreq"),
    "spectra": (("freqs", "wavenumber"), {}, "T", [Q + (1,), W + (1,)], "DataFreq"),
    "waves": (("time", "wavenumber"), {}, "T", [T + (0,), W + (1,)], "DataTime"),
    "value": (("time=0.25", "angle"), {}, "T", [T + (0,), A + (0,)], "DataTime"),
    "interval": (("time=[0,0.25]", "angle"), {}, "T", [T + (0,), A + (0,)], "DataTime"),
    "interpolation": (("time=axis_data", "angle"), dict(axis_data=True), "T", [T + (0,), A + (0,)], "DataTime"),
    "local integral": (("time=integrate_local", "angle"), {}, "Ts", [T + (0,), A + (0,)], "DataTime"),
}
FOURIER = ("spectrum", "spectrum smallest", "spectra", "waves")
OPEN = ("value", "interval", "interpolation", "local integral")
KINDS = (("none", "none"), ("period", "none"), ("none", "antiperiod"), ("antiperiod", "period"))


def field(S, kt, ka):
    n, m, p, q = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4)), S.int("p", 1, sample=(1, 3)), S.int("q", 1, sample=(1, 3))
    if not S.symbolic:
        p, q = (2 * p if kt == "antiperiod" else p), (2 * q if ka == "antiperiod" else q)
    x = S.array("x", (n, m))
    a, _ = axis1d(S, "linspace_noend" if kt == "none" else "Data1D", "time", "s", n, 0, S.real("h", pos=True, sample=[0.1, 0.25, 0.5]), symd(kt, p))
    b, _ = axis1d(S, "Data1D" if kt == "none" else "linspace_noend", "angle", "rad", m, 0, S.real("g", pos=True, sample=[0.1, 0.25]), symd(ka, q))
    a.normalizations = {"by_ref": S.cls("Norm_ref")(ref=2.0)}
    return S.cls("DataTime")(name="N", unit="T", symbol="F", axes=[a, b], values=x, normalizations={"ref": S.cls("Norm_ref")(ref=3.0)})


def options(S, kw):
    kw = dict(kw)
    if kw.get("axis_data"):
        kw["axis_data"] = {"time": S.arr([0, 0.125, 0.25])}
    return kw


def axis_values(S, label, ax, want):
    """the axis holds the values of the request (a uniform axis is stored by its ends)"""
    got = ax.get_values(is_smallestperiod=True)
    S.ensure(label + ": number of values", S.eq(got.shape[0], want.shape[0]))
    if S.type_name(ax) == "Data1D":
        S.forall(label + ": values", want.shape, lambda k: S.eq(S.at(got, k), S.at(want, k)))
    else:
        S.forall(label + ": values to the tolerance of a uniform axis", want.shape, lambda k: S.near(S.at(got, k), S.at(want, k), 1e-8 + 1e-5 * S.abs(S.at(got, k))), setup=lambda k: S.at_index(k))


def derive(S, req, kt, ka, what):
    F = field(S, kt, ka)
    args, kw, unit, axes, cls = REQ[req]
    kw = options(S, kw)
    out = S.call(lambda: F.get_along(*args, is_squeeze=False, **kw))
    if not out.ok:
        return  # what a request answers is the matter of other properties
    r = out.value
    out = S.call(lambda: F.get_data_along(*(args[::-1] if what == "order" else args), **kw))
    if not S.returns(out):
        return
    d = out.value
    S.ensure("class", S.type_name(d) == cls)
    S.ensure("name and symbol", d.name == "N" and d.symbol == "F" and d.is_real is True)
    S.ensure("unit", d.unit == unit)
    S.ensure("normalizations", sorted(d.normalizations) == ["ref"])
    if not S.ensure("the requested axes in the order of the field", [a.name for a in d.axes] == [a[0] for a in axes]):
        return
    stored = {"time": F.axes[0], "freqs": F.axes[0], "angle": F.axes[1], "wavenumber": F.axes[1]}
    for ax, (name, u, kept) in zip(d.axes, axes):
        S.ensure("%s: unit" % name, ax.unit == u)
        S.ensure("%s: normalizations" % name, sorted(ax.normalizations) == sorted(stored[name].normalizations))
        sym = stored[name].symmetries if kept else {}
        if S.ensure("%s: symmetries" % name, sorted(ax.symmetries) == sorted(sym)):
            for k in sym:
                S.ensure("%s: %s" % (name, k), S.eq(ax.symmetries[k], sym[k]))
        axis_values(S, name, ax, r[name])
    v = r["F"]
    left = [a.split("=")[0].split("[")[0].split("{")[0] in [x[0] for x in axes] for a in args]
    if len(args) < 2:
        left = [x in [y[0] for y in axes] for x in ("time", "angle")][:v.ndim] if v.ndim == 2 else [True]
    if not S.ensure("as many dimensions as axes", d.values.ndim == len(axes)):
        return

    def source(i):
        i = list(i)
        return tuple(i.pop(0) if l else 0 for l in left)

    S.forall("values of the request", d.values.shape, lambda *i: S.eq(S.at(d.values, *i), S.at(v, *source(i))))
    if what != "again":
        return
    names = [a.name + ("" if a.name in ("freqs", "wavenumber") else "[smallestperiod]") for a in d.axes]
    out = S.call(lambda: d.get_along(*names, is_squeeze=False))
    if not S.returns(out, "the derived object answers"):
        return
    w = out.value["F"]
    if S.ensure("answer: as many dimensions", w.ndim == d.values.ndim):
        for k in range(w.ndim):
            S.ensure("answer: length %d" % k, S.eq(w.shape[k], d.values.shape[k]))
        S.forall("the derived object answers with the values of the request", w.shape, lambda *i: S.eq(S.at(w, *i), S.at(v, *source(i))))


CASES = [dict(req=r, kt=kt, ka=ka) for r in REQ for kt, ka in KINDS]
HARD = [c for c in CASES if c["req"] in OPEN]
LONG = [c for c in CASES if c in HARD or c["kt"] == "antiperiod" or c["req"] == "spectra" and c["ka"] == "antiperiod"]


@contract("C20", [GD, TOLIN, CONV + "get_unit_derivate", CONV + "get_unit_integrate"], [c for c in CASES if c not in HARD and not (c in LONG and c["req"] in FOURIER)], uses=USES_AXIS, conc=8)
def derived(S, req, kt, ka):
    """class, axes, units, symmetries and values of the derived object"""
    derive(S, req, kt, ka, "derived")


@contract("C20", [GD], [c for c in CASES if c not in LONG], uses=USES_AXIS, conc=8)
def any_order(S, req, kt, ka):
    """the same object for the requests in another order"""
    derive(S, req, kt, ka, "order")


@contract("C20", [GD], [c for c in CASES if c not in LONG], uses=USES_AXIS, conc=8)
def read_again(S, req, kt, ka):
    """the derived object answers with the values of the request"""
    derive(S, req, kt, ka, "again")


@contract("C20", [GD], [dict(c, what=w) for c in LONG for w in ("derived", "order", "again")], bounded=True, conc=12)
def selected(S, req, kt, ka, what):
    """requests that select by value or interpolate"""
    derive(S, req, kt, ka, what)


VREQ = ("whole", "smallest", "index", "mean", "unit", "axis unit", "derivative")


@contract("C20", ["SciDataTool/Methods/VectorField/get_vectorfield_along.py:get_vectorfield_along"], [dict(req=r, kt=kt, ka=ka) for r in VREQ for kt, ka in KINDS[:2]], uses=USES_AXIS, conc=8)
def vector(S, req, kt, ka):
    """every component of a derived vector field is the derived object of that component"""
    F = field(S, kt, ka)
    G = S.cls("DataTime")(name="N", unit="T", symbol="F", axes=F.axes, values=S.array("y", F.values.shape))
    args, kw, unit, axes, cls = REQ[req]
    V = S.cls("VectorField")(name="V", symbol="v", components={"radial": F, "axial": G})
    out = S.call(lambda: V.get_vectorfield_along(*args, **kw))
    if not S.returns(out):
        return
    W = out.value
    S.ensure("name and symbol", W.name == "V" and W.symbol == "v")
    if not S.ensure("components", list(W.components) == ["radial", "axial"]):
        return
    for c, f in (("radial", F), ("axial", G)):
        d, w = f.get_data_along(*args, **kw), W.components[c]
        S.ensure(c + ": unit", w.unit == d.unit == unit)
        if S.ensure(c + ": axes", [a.name for a in w.axes] == [a[0] for a in axes]) and S.ensure(c + ": dimensions", w.values.ndim == d.values.ndim):
            for k in range(d.values.ndim):
                S.ensure(c + ": length %d" % k, S.eq(w.values.shape[k], d.values.shape[k]))
            S.forall(c + ": values", d.values.shape, lambda *i: S.eq(S.at(w.values, *i), S.at(d.values, *i)))
