"""C16: reading never changes the data"""
from dv.spec import contract
from contracts.lib import *
from contracts.c03_axes import KINDS
import contracts.c02_symmetries  # contract of rebuild_symmetries_axis

M = "SciDataTool.Methods."
AXIS = ("name", "unit", "values", "initial", "final", "step", "number", "include_endpoint", "symmetries", "normalizations", "is_overlay", "rebuild_indices", "unique_indices", "values_whole", "is_step", "is_components", "delimiter", "filter")
FIELD = ("name", "unit", "symbol", "values", "normalizations", "is_real")
NORM = ("ref", "slope", "offset", "vector", "unit", "function")


def snap(S, o):
    """content of an object, taken before a request"""
    if isinstance(o, dict):
        return ("dict", o, [(k, snap(S, v)) for k, v in o.items()])
    if isinstance(o, list):
        return ("list", o, [snap(S, v) for v in o])
    if hasattr(o, "shape") and hasattr(o, "ndim") and o.ndim > 0:
        return ("array", o, S.copy(o))
    t = S.type_name(o)
    if t in ("Data1D", "DataLinspace", "DataPattern"):
        return ("object", o, [(k, snap(S, getattr(o, k))) for k in AXIS if hasattr(o, k)])
    if t in ("DataND", "DataTime", "DataFreq"):
        return ("object", o, [(k, snap(S, getattr(o, k))) for k in FIELD] + [("axes", snap(S, o.axes))])
    if t == "VectorField":
        return ("object", o, [(k, snap(S, getattr(o, k))) for k in ("name", "symbol", "components")])
    if t.startswith("Norm_"):
        return ("object", o, [(k, snap(S, getattr(o, k))) for k in NORM if hasattr(o, k)])
    return ("value", o, None)


def kept(S, label, o, before):
    """the object holds what it held"""
    kind, old, content = before
    if kind == "dict":
        if S.ensure(label + ": same entries", isinstance(o, dict) and sorted(o) == sorted(k for k, _ in content)):
            for k, b in content:
                kept(S, "%s %s" % (label, k), o[k], b)
    elif kind == "list":
        if S.ensure(label + ": same number", isinstance(o, list) and len(o) == len(content)):
            for k, b in enumerate(content):
                kept(S, "%s %d" % (label, k), o[k], b)
    elif kind == "array":
        if S.ensure(label + ": array", hasattr(o, "shape") and o.ndim == content.ndim):
            S.unchanged(label, o, content)
    elif kind == "object":
        if S.ensure(label + ": same class", S.type_name(o) == S.type_name(old)):
            for k, b in content:
                kept(S, "%s.%s" % (label, k), getattr(o, k), b)
    elif old is None or isinstance(old, (str, bool)) or callable(old):
        S.ensure(label, (o is old) if old is None or callable(old) else (type(o) == type(old) and o == old))
    else:
        S.ensure(label, S.eq(S.num(o), S.num(old)))


def answer(S, label, a, b):
    """two answers to one request are equal"""
    if not S.ensure(label + ": same outcome", a.ok == b.ok):
        return
    if a.ok:
        equal(S, label, a.value, b.value)


def equal(S, label, x, y):
    if isinstance(x, dict):
        if S.ensure(label + ": same entries", isinstance(y, dict) and sorted(x) == sorted(y)):
            for k in x:
                equal(S, "%s %s" % (label, k), x[k], y[k])
    elif isinstance(x, (list, tuple)):
        if S.ensure(label + ": same number", len(x) == len(y)):
            for k, v in enumerate(x):
                equal(S, label, v, y[k])
    elif hasattr(x, "shape"):
        S.same(label, x, y)
    elif S.type_name(x) in ("Data1D", "DataLinspace", "DataPattern", "DataND", "DataTime", "DataFreq", "VectorField") or S.type_name(x).startswith("Norm_"):
        kept(S, label, y, snap(S, x))
    elif S.type_name(x) == "RequestedAxis":
        for k in ("name", "unit", "values", "extension", "transform", "indices"):
            equal(S, "%s %s" % (label, k), getattr(x, k), getattr(y, k))
    elif x is None or isinstance(x, (str, bool)):
        S.ensure(label, x is y if x is None else x == y)
    else:
        S.ensure(label, S.eq(S.num(x), S.num(y)))


def norms(S):
    r = S.real("ref")
    S.assume(r != 0)
    return {"by_ref": S.cls("Norm_ref")(ref=r), "by_slope": S.cls("Norm_affine")(slope=S.real("slope"), offset=S.real("offset")), "by_index": S.cls("Norm_indices")()}


READS = ["values", "oneperiod", "antiperiod", "smallest", "unit", "bad unit", "norm", "bad norm", "length", "length one", "length anti", "periodicity", "has period", "periodic axis", "periodic axis anti", "periodic axis, anti-periodic in time"]
CLASSES = ["Data1D", "linspace_end", "linspace_noend", "linspace_step", "linspace_nofinal"]
AXM = [M + c + "." + f + ":" + f for c in ("Data1D", "DataLinspace") for f in ("get_values", "get_length", "get_periodicity", "has_period", "get_axis_periodic")]


def read_axis(S, A, what, per):
    if what == "values":
        return S.call(A.get_values)
    if what == "oneperiod":
        return S.call(A.get_values, is_oneperiod=True)
    if what == "antiperiod":
        return S.call(A.get_values, is_antiperiod=True)
    if what == "smallest":
        return S.call(A.get_values, is_smallestperiod=True)
    if what == "unit":
        return S.call(A.get_values, unit="ms")
    if what == "bad unit":
        return S.call(A.get_values, unit="T")
    if what == "norm":
        return S.call(A.get_values, normalization="by_ref")
    if what == "bad norm":
        return S.call(A.get_values, normalization="none such")
    if what == "length":
        return S.call(A.get_length)
    if what == "length one":
        return S.call(A.get_length, is_oneperiod=True)
    if what == "length anti":
        return S.call(A.get_length, is_antiperiod=True)
    if what == "periodicity":
        return S.call(A.get_periodicity)
    if what == "has period":
        return S.call(A.has_period)
    if what == "periodic axis":
        return S.call(A.get_axis_periodic, Nper=per)
    if what == "periodic axis anti":
        return S.call(A.get_axis_periodic, Nper=per, is_aper=True)
    return S.call(A.get_axis_periodic, per, True)


@contract("C16", AXM, [dict(cls=c, kind=k, what=w) for c in CLASSES for k in KINDS for w in READS], uses=USES_AXIS)
def axis(S, cls, kind, what):
    """reading an axis"""
    n, p, per = S.int("n", 2, sample=(2, 6)), S.int("p", 1, sample=(1, 4)), S.int("per", 1, sample=(1, 3))
    A, v = axis1d(S, cls, "time", "s", n, S.real("a0"), S.real("h", pos=True), symd(kind, p))
    A.normalizations = norms(S)
    before = snap(S, A)
    one = read_axis(S, A, what, per)
    kept(S, "axis", A, before)
    two = read_axis(S, A, what, per)
    answer(S, "second answer", one, two)
    kept(S, "axis read twice", A, before)


REQ = [("whole", ("time", "angle"), {}),
       ("smallest", ("time[smallestperiod]", "angle[smallestperiod]"), {}),
       ("period", ("time[oneperiod]", "angle"), {}),
       ("index", ("time[1]", "angle"), {}),
       ("indices", ("time", "angle[0,1]"), {}),
       ("value", ("time=0.25", "angle"), {}),
       ("mean", ("time=mean", "angle"), {}),
       ("sum", ("time", "angle=sum"), {}),
       ("rss", ("time=rss", "angle"), {}),
       ("max", ("time=max", "angle"), {}),
       ("integral", ("time=integrate", "angle"), {}),
       ("antiderivative", ("time=antiderivate", "angle"), {}),
       ("derivative", ("time", "angle=derivate"), {}),
       ("unit", ("time", "angle"), dict(unit="mT")),
       ("axis unit", ("time{ms}", "angle{degree}"), {}),
       ("norm", ("time->by_ref", "angle"), {}),
       ("field norm", ("time", "angle"), dict(is_norm=True)),
       ("interpolation", ("time=axis_data", "angle"), dict(axis_data=True)),
       ("spectrum", ("freqs", "angle[0]"), {}),
       ("spectra", ("freqs", "wavenumber"), {}),
       ("bad unit", ("time", "angle"), dict(unit="m")),
       ("bad axis", ("time", "height"), {}),
       ("bad index", ("time[40]", "angle"), {}),
       ("bad norm", ("time->nothing", "angle"), {}),
       ("bad axis unit", ("time{T}", "angle"), {})]
METHODS = ["get_along", "get_data_along", "get_magnitude_along", "get_phase_along"]
GA = [M + "DataND.%s:%s" % (f, f) for f in METHODS + ["_get_field", "_rebuild_symmetries", "_extract_slices", "_extract_slices_fft", "_apply_operations", "_convert", "_comp_axes", "_interpolate"]]


def field(S, kind, cls, conc=False):
    n, m, p = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4)), S.int("p", 1, sample=(1, 3))
    if kind == "antiperiod" and not S.symbolic:
        p = 2 * p
    x = S.array("x", (n, m))
    A, _ = axis1d(S, cls, "time", "s", n, 0, S.real("h", pos=True, sample=[0.1, 0.25, 0.5]), symd(kind, p))
    B, _ = axis1d(S, "Data1D", "angle", "rad", m, 0, S.real("g", pos=True, sample=[0.1, 0.25]), {})
    A.normalizations, r = norms(S), S.real("fref", nonzero=True)
    return S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A, B], values=x, normalizations={"ref": S.cls("Norm_ref")(ref=r)})


def ask(S, F, method, req):
    name, args, kw = req
    kw = dict(kw)
    if kw.get("axis_data"):
        kw["axis_data"] = {"time": S.arr([0, 0.125, 0.25])}
    return S.call(getattr(F, method), *args, **kw)


CASES = [dict(req=r[0], method=m, kind=k, cls=c) for r in REQ for m in METHODS for k, c in (("none", "Data1D"), ("period", "linspace_end"), ("antiperiod", "Data1D"))]
OPEN = [c for c in CASES if c["req"] in ("value", "interpolation") or (c["kind"] == "antiperiod" and c["req"] in ("spectrum", "spectra", "derivative"))]


def keeps(S, req, method, kind, cls):
    F = field(S, kind, cls)
    r = next(x for x in REQ if x[0] == req)
    before = snap(S, F)
    one = ask(S, F, method, r)
    kept(S, "field", F, before)
    return F, r, before, one


def twice(S, req, method, kind, cls):
    F, r, before, one = keeps(S, req, method, kind, cls)
    two = ask(S, F, method, r)
    answer(S, "second answer", one, two)
    kept(S, "field asked twice", F, before)


@contract("C16", GA, [c for c in CASES if c not in OPEN], uses=USES_AXIS, conc=12)
def field_requests(S, **case):
    """every kind of request on a field, also those that fail: field kept and same answer again"""
    twice(S, **case)


@contract("C16", GA, [c for c in OPEN if not (c["req"] == "interpolation" and c["kind"] == "antiperiod")], uses=USES_AXIS, conc=2, budget=60)
def field_kept(S, **case):
    """requests whose answer is not followed symbolically: the field is kept"""
    keeps(S, **case)


@contract("C16", GA, OPEN, bounded=True, conc=12)
def field_again(S, **case):
    """requests whose answer is not followed symbolically: same answer again"""
    twice(S, **case)


def spectrum(S):
    n, m = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m), "c")
    h = S.real("h", pos=True, sample=[1, 10, 50])
    A = S.cls("Data1D")(name="freqs", unit="Hz", values=S.build((n,), lambda i: h * i), normalizations=norms(S))
    B, _ = axis1d(S, "Data1D", "angle", "rad", m, 0, S.real("g", pos=True, sample=[0.1, 0.25]), {})
    return S.cls("DataFreq")(name="F", unit="T", symbol="F", axes=[A, B], values=x, normalizations={"ref": S.cls("Norm_ref")(ref=S.real("fref", nonzero=True))})


FREQ = [("whole", ("freqs", "angle"), {}), ("index", ("freqs[1]", "angle"), {}), ("values", ("freqs=[0,50]", "angle"), {}), ("sum", ("freqs=sum", "angle"), {}), ("mean", ("freqs", "angle=mean"), {}),
        ("norm", ("freqs->by_ref", "angle"), {}), ("unit", ("freqs", "angle"), dict(unit="mT")), ("dB", ("freqs", "angle"), dict(unit="dB")), ("dBA", ("freqs", "angle"), dict(unit="dBA")),
        ("time", ("time", "angle"), {}), ("times", ("time=axis_data", "angle"), dict(axis_data=True)), ("bad unit", ("freqs", "angle"), dict(unit="m")), ("bad norm", ("freqs->nothing", "angle"), {}), ("bad axis", ("height", "angle"), {})]
FCASES = [dict(req=r[0], method=m) for r in FREQ for m in METHODS]
FOPEN = [c for c in FCASES if c["req"] in ("values", "times", "time", "dB", "dBA")]


def keeps_spectrum(S, req, method, again):
    F = spectrum(S)
    r = next(x for x in FREQ if x[0] == req)
    before = snap(S, F)
    one = ask(S, F, method, r)
    kept(S, "spectrum", F, before)
    if again:
        two = ask(S, F, method, r)
        answer(S, "second answer", one, two)
        kept(S, "spectrum asked twice", F, before)


@contract("C16", GA, [c for c in FCASES if c not in FOPEN], uses=USES_AXIS, conc=12)
def spectrum_requests(S, **case):
    """requests on a spectrum: kept and same answer again"""
    keeps_spectrum(S, again=True, **case)


@contract("C16", GA, FOPEN, uses=USES_AXIS, conc=2, budget=60)
def spectrum_kept(S, **case):
    """requests whose answer is not followed symbolically: the spectrum is kept"""
    keeps_spectrum(S, again=False, **case)


@contract("C16", GA, FOPEN, bounded=True, conc=12)
def spectrum_again(S, **case):
    """requests whose answer is not followed symbolically: same answer again"""
    keeps_spectrum(S, again=True, **case)


VREQ = [("whole", ("time", "angle"), {}), ("index", ("time[1]", "angle"), {}), ("angle index", ("time", "angle[1]"), {}), ("mean", ("time=mean", "angle"), {}), ("spectra", ("freqs", "wavenumber"), {}), ("smallest", ("time", "angle[smallestperiod]"), {}),
        ("unit", ("time", "angle"), dict(unit="mT")), ("bad unit", ("time", "angle"), dict(unit="m")), ("bad unit, angle index", ("time", "angle[1]"), dict(unit="m")), ("bad axis", ("time", "height"), {}), ("bad index", ("time[40]", "angle[1]"), {}), ("bad angle index", ("time", "angle[40]"), {}), ("bad norm", ("time->nothing", "angle[0]"), {})]
VM = ["get_xyz_along", "get_rphiz_along", "get_mag_xyz_along", "get_mag_rphiz_along", "get_harm_xyz_along", "get_harm_rphiz_along", "get_vectorfield_along"]
COMPS = {"polar": ("radial", "tangential"), "polar with axial": ("radial", "tangential", "axial"), "cartesian": ("comp_x", "comp_y"), "cartesian with z": ("comp_x", "comp_y", "comp_z")}


def vectors(S, comps):
    import math
    n, m, p = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4)), S.int("p", 1, sample=(1, 3))
    T = S.cls("DataLinspace")(name="time", unit="s", initial=0, final=1, number=n, include_endpoint=False)
    A = S.cls("DataLinspace")(name="angle", unit="rad", initial=0, final=2 * math.pi / p, number=m, include_endpoint=False, symmetries={} if p == 1 else {"period": p})
    return S.cls("VectorField")(name="V", symbol="V", components={c: S.cls("DataTime")(name="F " + c, unit="T", symbol="F_" + c, axes=[T, A], values=S.array("x" + c, (n, m))) for c in COMPS[comps]})


@contract("C16", [M + "VectorField.%s:%s" % (f, f) for f in VM], [dict(req=r[0], method=m, comps=c) for r in VREQ for m in VM for c in COMPS], bounded=True, conc=8)
def vector_requests(S, req, method, comps):
    """requests on a vector field, also those that fail"""
    V = vectors(S, comps)
    r = next(x for x in VREQ if x[0] == req)
    before = snap(S, V)
    args = ((3,) if "harm" in method else ()) + r[1]
    one = S.call(getattr(V, method), *args, **r[2])
    kept(S, "vector field", V, before)
    two = S.call(getattr(V, method), *args, **r[2])
    answer(S, "second answer", one, two)
    kept(S, "vector field asked twice", V, before)


DERIVED = {"time_to_freq": lambda S, F: S.call(F.time_to_freq), "change_referential waveform": lambda S, F: S.call(F.change_referential, 60, True), "change_referential": lambda S, F: S.call(F.change_referential, 60, False),
           "filter_spectral_leakage": lambda S, F: S.call(F.filter_spectral_leakage, S.arr([0.0, 1.0])), "get_axes": lambda S, F: S.call(F.get_axes), "has_period": lambda S, F: S.call(F.has_period), "copy": lambda S, F: S.call(F.copy), "as_dict": lambda S, F: S.call(F.as_dict),
           "get_harmonics": lambda S, F: S.call(F.get_harmonics, 2, "freqs", "wavenumber"), "bad change_referential": lambda S, F: S.call(F.change_referential, "fast", False)}


@contract("C16", [M + "DataTime.time_to_freq:time_to_freq", M + "DataND.change_referential:change_referential", M + "DataND.filter_spectral_leakage:filter_spectral_leakage", M + "DataND.get_harmonics:get_harmonics"], [dict(what=w, bad=b) for w in DERIVED for b in (False, True)], bounded=True, conc=15)
def derived(S, what, bad):
    """conversions of a whole field to another object"""
    n, m = S.int("n", 4, sample=(4, 8)), S.int("m", 2, sample=(2, 4))
    T = S.cls("DataLinspace")(name="height" if bad else "time", unit="s", initial=0, final=1, number=n, include_endpoint=False)
    A = S.cls("DataLinspace")(name="angle", unit="rad", initial=0, final=6.283185307179586, number=m, include_endpoint=False)
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[T, A], values=S.array("x", (n, m)))
    before = snap(S, F)
    one = DERIVED[what](S, F)
    kept(S, "field", F, before)
    two = DERIVED[what](S, F)
    S.ensure("same outcome", one.ok == two.ok)
    kept(S, "field asked twice", F, before)


@contract("C16", [M + "DataFreq.freq_to_time:freq_to_time", M + "DataND.filter_spectral_leakage:filter_spectral_leakage"], [dict(what=w) for w in ("freq_to_time", "filter_spectral_leakage", "change_referential", "copy", "as_dict")], bounded=True, conc=15)
def derived_spectrum(S, what):
    """conversions of a whole spectrum to another object"""
    F = spectrum(S)
    before = snap(S, F)
    run = lambda: S.call(getattr(F, what), *((S.arr([0.0, 1.0]),) if what.startswith("filter") else (60, False) if what.startswith("change") else ()))
    one = run()
    kept(S, "spectrum", F, before)
    two = run()
    S.ensure("same outcome", one.ok == two.ok)
    kept(S, "spectrum asked twice", F, before)
