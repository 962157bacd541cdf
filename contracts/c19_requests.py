"""C19: a request string is read as exactly the axis, unit and selection it spells"""
from dv.spec import contract
from contracts.lib import *

READ = "SciDataTool.Functions.parser:read_input_strings"
INF = float("inf")
OPERATIONS = ("max", "min", "rss", "sum", "rms", "mean", "integrate", "integrate_local", "derivate", "antiderivate")
PERIODS = ("oneperiod", "antiperiod", "smallestperiod", "pattern", "smallestpattern")
SELECTIONS = ("whole",) + OPERATIONS + PERIODS + ("axis_data", "no_data", "above", "below", "interval", "value", "list3", "list4", "index", "indices2", "indices3", "range", "all", "largest", "literal", "expression")
FORMS = ("plain", "norm", "norm_last", "unit", "unit_text", "octave")


def selection(S, sel, tag, name):
    """(text, extension, indices, input values, entry of axis_data)"""
    if sel == "whole":
        return "", "whole", None, None, None
    if sel in OPERATIONS:
        return "=" + sel, sel, None, None, None
    if sel in PERIODS:
        return "[" + sel + "]", "pattern" if sel == "smallestpattern" else sel, None, None, None
    if sel == "axis_data":
        v = S.array("v" + tag, (S.int("n" + tag, lo=1),))
        return "=axis_data", "axis_data", None, v, {name: v}
    if sel == "no_data":
        return "=axis_data", "whole", None, None, {name: None}
    if sel in ("index", "indices2", "indices3"):
        i = [S.int("i%d%s" % (k, tag)) for k in range({"index": 1, "indices2": 2, "indices3": 3}[sel])]
        t = []
        for k, x in enumerate(i):
            t += ([","] if k else []) + [x]
        return S.text("[", *(t + ["]"])), "single" if sel == "index" else "list", i, None, None
    if sel == "range":
        i, j = S.int("i" + tag, lo=0), S.int("j" + tag, lo=0)
        return S.text("[", i, ":", j, "]"), "interval", (i, j), None, None
    if sel == "all":
        return "[]", "list", [":"], None, None
    if sel == "largest":
        i = S.int("i" + tag, lo=1)
        return S.text("[", i, "largest]"), "list", [S.text(i)], None, None
    if sel == "literal":
        return "=[-0.5,1e-3]", "interval", None, [-0.5, 1e-3], None
    if sel == "expression":
        return "=[0,2*pi]", "interval", None, [0, 2 * S.pi], None
    x = [S.real("x%d%s" % (k, tag)) for k in range({"above": 1, "below": 1, "value": 1, "interval": 2, "list3": 3, "list4": 4}[sel])]
    t = []
    for k, v in enumerate(x):
        t += ([","] if k else []) + [v]
    if sel == "above":
        return S.text(">", *t), "interval", None, [x[0], INF], None
    if sel == "below":
        return S.text("<", *t), "interval", None, [-INF, x[0]], None
    if sel == "value":
        return S.text("=", *t), "single", None, x, None
    return S.text("=[", *(t + ["]"])), "interval" if sel == "interval" else "list", None, x, None


def request(S, sel, form, tag=""):
    """(string, expected reading)"""
    name = S.word("name" + tag)
    t, ext, indices, values, data = selection(S, sel, tag, name)
    if form == "plain":
        return S.text(name, t), (name, "SI", None, ext, indices, values), data
    if form == "norm":
        norm = S.word("norm" + tag, free=("oct",))
        return S.text(name, "->", norm, t), (name, norm, None, ext, indices, values), data
    if form == "norm_last":
        norm = S.word("norm" + tag, free=("oct",))
        return S.text(name, t, "->", norm), (name, norm, None, ext, indices, values), data
    if form == "unit":
        unit = S.word("unit" + tag, free=("oct",))
        return S.text(name, t, "{", unit, "}"), (name, unit, None, ext, indices, values), data
    if form == "unit_text":
        return S.text(name, t, "{rad/s^2}"), (name, "rad/s^2", None, ext, indices, values), data
    k = S.int("noct" + tag, lo=1)
    return S.text(name, t, "{1/", k, "oct}"), (name, "SI", k, ext, indices, values), data


def same_text(S, x, y):
    return isinstance(x, str) and S.decide(x == y)


def reads(S, label, ax, expected):
    name, unit, noct, ext, indices, values = expected
    S.ensure(label + ": axis name", same_text(S, ax.name, name))
    S.ensure(label + ": unit", same_text(S, ax.unit, unit))
    S.ensure(label + ": kind of selection", ax.extension == ext)
    S.ensure(label + ": octave bands", (ax.noct is None) if noct is None else S.eq(ax.noct, noct))
    rest = S.cls("RequestedAxis")()
    for k in ("values", "corr_name", "corr_unit", "operation", "index", "transform", "is_pattern", "rebuild_indices", "is_step", "corr_values", "is_components"):
        S.ensure("%s: %s is not set" % (label, k), type(getattr(ax, k)) == type(getattr(rest, k)) and getattr(ax, k) == getattr(rest, k))
    got = ax.indices
    if indices is None:
        S.ensure(label + ": no indices", got is None)
    elif isinstance(indices, tuple):
        i, j = indices
        a = S.arr(got)
        n = S.ite(S.lt(i, j), j - i, 0)
        S.ensure(label + ": number of indices", S.eq(a.shape[0], n))
        S.forall(label + ": indices", (n,), lambda k: S.eq(S.at(a, k), i + k))
    elif S.ensure(label + ": number of indices", isinstance(got, list) and len(got) == len(indices)):
        for k, (g, e) in enumerate(zip(got, indices)):
            S.ensure("%s: index %d" % (label, k), same_text(S, g, e) if isinstance(e, str) else S.eq(g, e))
    got = ax.input_data
    if values is None:
        S.ensure(label + ": no values", got is None)
    elif not isinstance(values, list):
        S.unchanged(label + ": values", got, values)
    elif S.ensure(label + ": number of values", hasattr(got, "shape") and got.ndim == 1 and S.decide(S.eq(got.shape[0], len(values)))):
        for k, e in enumerate(values):
            g = S.at(got, k)
            if isinstance(e, float) and abs(e) == INF:
                S.ensure("%s: bound %d is infinite" % (label, k), isinstance(g, float) and g == e)
            else:
                S.ensure("%s: value %d" % (label, k), S.eq(g, S.num(e)))


CASES = [dict(sel=s, form=f) for s in SELECTIONS for f in FORMS if not (f == "norm_last" and s in ("above", "below", "value") or f in ("norm_last",) and s in OPERATIONS + ("axis_data", "no_data", "interval", "list3", "list4", "literal", "expression"))]


@contract("C19", target=[READ], cases=CASES)
def one_string(S, sel, form):
    """the reading of one request string"""
    t, expected, data = request(S, sel, form)
    out = S.call(READ, [t], data or {})
    if not S.returns(out):
        return
    if S.ensure("one axis", len(out.value) == 1):
        reads(S, "request", out.value[0], expected)


@contract("C19", target=[READ], cases=[dict(sel=s, other=o, form=f) for s in SELECTIONS for o, f in (("mean", "unit"), ("interval", "norm"), ("index", "octave"), ("whole", "plain"))])
def several_strings(S, sel, other, form):
    """the reading of a string does not depend on the strings around it"""
    t1, e1, d1 = request(S, other, form, "_first")
    t2, e2, d2 = request(S, sel, "plain")
    t3, e3, d3 = request(S, other, "plain", "_last")
    given = [t1, t2, t3]
    out = S.call(READ, given, d2 or {})
    if not S.returns(out):
        return
    if S.ensure("as many axes as strings", len(out.value) == 3):
        for label, ax, e in zip(("first", "second", "third"), out.value, (e1, e2, e3)):
            reads(S, label, ax, e)
    S.ensure("the strings are kept", len(given) == 3 and given[0] is t1 and given[1] is t2 and given[2] is t3)


@contract("C19", target=[READ], cases=[dict(form=f) for f in ("plain", "norm", "unit")])
def missing_data(S, form):
    """values that were announced but not given are an axis error"""
    name = S.word("name")
    t = {"plain": S.text(name, "=axis_data"), "norm": S.text(name, "->", S.word("norm", free=("oct",)), "=axis_data"), "unit": S.text(name, "=axis_data{s}")}[form]
    out = S.call(READ, [t], {})
    S.ensure("axis error", out.raised("AxisError"))


ORDER = "SciDataTool.Functions.fix_axes_order:fix_axes_order"
FFT = {"time": "freqs", "angle": "wavenumber", "freqs": "time", "wavenumber": "angle"}
FREE = tuple(FFT)
TAILS = ("", "=mean", "[oneperiod]", "->n{u}", ">2.5", "=[1,2]{s}", "<0")


@contract("C19", target=[ORDER], cases=[dict(perm=p, tail=t, first=f, req=r) for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)) for t in range(len(TAILS)) for f, r in (("time", "time"), ("angle", "wavenumber"), ("freqs", "time"))])
def any_order(S, perm, tail, first, req):
    """requests given in any order are put in the order of the axes, whatever the names"""
    a, b = S.word("a", free=FREE, distinct=True), S.word("b", free=FREE, distinct=True)
    axes = [a, first, b]
    requests = [S.text(a, TAILS[tail]), req + TAILS[(tail + 1) % len(TAILS)], S.text(b, TAILS[(tail + 3) % len(TAILS)])]
    given = [requests[k] for k in perm]
    out = S.call(ORDER, list(axes), list(given))
    if not S.returns(out):
        return
    if S.ensure("as many requests", len(out.value) == 3):
        for k in range(3):
            S.ensure("request %d is that of axis %d" % (k, k), same_text(S, out.value[k], requests[k]))


@contract("C19", target=[ORDER], cases=[dict(perm=p) for p in ((0, 1), (1, 0))])
def unknown_axis(S, perm):
    """requests on an axis that is not there are left as they are"""
    a, b, c = (S.word(x, free=FREE, distinct=True) for x in "abc")
    requests = [S.text(b, "=sum"), S.text(c, "[1]")]
    given = [requests[k] for k in perm]
    out = S.call(ORDER, [a, b], list(given))
    if not S.returns(out):
        return
    if S.ensure("as many requests", len(out.value) == 2):
        for k in range(2):
            S.ensure("request %d" % k, same_text(S, out.value[k], given[k]))
