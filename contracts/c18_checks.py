"""C18: wrongly typed or inconsistent content is rejected"""
from dv.spec import contract
from contracts.lib import *
from contracts.c17_copies import make, snap, same_content, properties

K = "SciDataTool.Classes."
CHECK = K + "_check:"
DATA = dict(symbol="str", name="str", unit="str", normalizations="{Normalization}")
TYPES = {
    "Data1D": dict(DATA, values="ndarray", is_components="bool", symmetries="dict", is_overlay="bool", delimiter="str", sort_indices="list", filter="dict", char_to_rm="list"),
    "DataLinspace": dict(DATA, initial="float", final="float", step="float", number="int", include_endpoint="bool", is_components="bool", symmetries="dict", is_overlay="bool"),
    "DataPattern": dict(DATA, rebuild_indices="list", unique_indices="list", is_step="bool", values="ndarray", is_components="bool", symmetries="dict", values_whole="ndarray", is_overlay="bool"),
    "DataTime": dict(DATA, axes="[Data]", FTparameters="dict", is_real="bool"),
    "DataFreq": dict(DATA, axes="[Data]", FTparameters="dict", is_real="bool"),
    "DataDual": dict(DATA, axes="[Data]", FTparameters="dict", is_real="bool", axes_dt="[Data]", values_dt="ndarray", axes_df="[Data]", values_df="ndarray"),
    "VectorField": dict(name="str", symbol="str", components="{DataND}"),
    "Norm_ref": dict(unit="str", ref="float"),
    "Norm_affine": dict(unit="str", slope="float", offset="float"),
    "Norm_vector": dict(unit="str", vector="ndarray"),
    "Norm_indices": dict(unit="str"),
    "RequestedAxis": dict(name="str", corr_name="str", unit="str", corr_unit="str", extension="str", values="ndarray", indices="list", input_data="ndarray", operation="str", index="int", transform="str", is_pattern="bool", rebuild_indices="ndarray", is_step="bool", noct="int", corr_values="ndarray", is_components="bool"),
}
TYPE_NAMES = ("ndarray", "bool", "dict", "str", "list", "float", "int", "[Data]", "{DataND}", "{Normalization}")


def accepted(S, t):
    """values of a declared type: (what is set, what is read back or None for the same)"""
    n = S.int("n", lo=1)
    if t == "ndarray":
        a = S.array("a", (n,))
        return [(a, None), (S.array("b", (n, 2)), None), ([1.0, 2.5], "array")]
    if t == "bool":
        return [(True, None), (False, None)]
    if t == "dict":
        return [({}, None), ({"period": 4}, None)]
    if t == "str":
        return [("", None), ("abc", None)]
    if t == "list":
        return [([], None), ([1, 2], None), (["x"], None)]
    if t == "float":
        return [(S.real("r"), None), (S.int("i"), None), (2, None), (2.5, None)]
    if t == "int":
        return [(S.int("i"), None), (3, None), (3.0, None)]
    axis = S.cls("Data1D")(name="time", values=S.array("t", (n,)))
    if t == "[Data]":
        return [([axis, S.cls("DataLinspace")(name="angle", initial=0.0, final=1.0, number=n)], None), ([], None)]
    if t == "{DataND}":
        return [({"radial": S.cls("DataTime")(name="B", axes=[axis], values=S.array("x", (n,)))}, None), ({}, None)]
    return [({"ref": S.cls("Norm_ref")(ref=S.real("r"))}, None), ({"ind": S.cls("Norm_indices")()}, None), ({}, None)]


def rejected(S, t):
    n = S.int("n", lo=1)
    array = S.array("a", (n,))
    norm = S.cls("Norm_ref")(ref=2.0)
    axis = S.cls("Data1D")(name="time", values=S.array("t", (n,)))
    if t == "ndarray":
        return ["abc", 1.5, {}, True, (1, 2), axis]
    if t == "bool":
        return [1, 0, 1.0, "True", [], array, S.int("i"), S.real("r")]
    if t == "dict":
        return [[], "a", 1, True, array, axis, S.real("r")]
    if t == "str":
        return [1, 1.5, True, [], {}, b"a", array, S.real("r"), S.int("i")]
    if t == "list":
        return ["ab", {}, (1, 2), 1, True, array, S.real("r")]
    if t == "float":
        return ["1", True, False, 1j, [1.0], {}, array, axis]
    if t == "int":
        x = S.real("r")
        S.assume(S.Not(S.eq(x, S.floor(x))))
        return ["1", True, False, 1.5, [1], {}, array, axis, x]
    if t == "[Data]":
        return ["time", {}, 1.5, True, axis, [norm], [axis, norm], [S.cls("VectorField")(name="V")]]
    if t == "{DataND}":
        return ["time", [], 1.5, True, array, {"radial": axis}, {"radial": norm}]
    return ["time", [], 1.5, True, array, {"n": "abc"}, {"n": axis}, {"n": True and "x"}]


CASES = [dict(kind=k, prop=p) for k in TYPES for p in TYPES[k]]
SETTERS = [K + "%s:%s._set_%s" % (k, k, p) for k in TYPES for p in TYPES[k] if not (k in ("DataTime", "DataFreq") or p in ("axes", "FTparameters", "is_real") and k == "DataDual" or p in DATA and k not in ("VectorField", "RequestedAxis"))] + [K + "DataND:DataND._set_axes", K + "DataND:DataND._set_FTparameters", K + "DataND:DataND._set_is_real", K + "Data:Data._set_name", K + "Data:Data._set_unit", K + "Data:Data._set_symbol", "SciDataTool.Methods.Data._set_normalizations:_set_normalizations", K + "Normalization:Normalization._set_unit", CHECK + "check_var", CHECK + "check_type"]


@contract("C18", target=SETTERS, cases=CASES)
def read_back(S, kind, prop):
    """a value of the declared type is accepted and reads back equal; nothing else changes"""
    for i, (v, what) in enumerate(accepted(S, TYPES[kind][prop])):
        o = make(S, kind)
        before = snap(S, o)
        given = snap(S, v)
        out = S.call(lambda: setattr(o, prop, v))
        S.returns(out)
        got = getattr(o, prop)
        label = "accepted %d" % i
        if what == "array":
            S.ensure(label + ": array", hasattr(got, "shape") and got.ndim == 1 and S.decide(S.eq(got.shape[0], len(v))))
            for k, x in enumerate(v):
                S.ensure("%s: element %d" % (label, k), S.eq(S.at(got, k), x))
        else:
            same_content(S, label, got, given)
        others = [(k, b) for k, b in before[2] if k != prop]
        for k, b in others:
            if k != "values" or kind not in ("DataTime", "DataFreq", "DataDual"):
                same_content(S, "%s: %s kept" % (label, k), getattr(o, "_" + k), b)
    o = make(S, kind)
    out = S.call(lambda: setattr(o, prop, None))
    S.returns(out)
    S.ensure("no value is accepted", getattr(o, prop) is None)


@contract("C18", target=SETTERS, cases=CASES)
def wrong_type(S, kind, prop):
    """a value of another type raises the type error and changes nothing"""
    for i, v in enumerate(rejected(S, TYPES[kind][prop])):
        o = make(S, kind)
        before = snap(S, o)
        out = S.call(lambda: setattr(o, prop, v))
        S.ensure("wrong value %d is rejected with the type error" % i, out.raised("CheckTypeError"))
        same_content(S, "wrong value %d" % i, o, before)


@contract("C18", target=SETTERS + [K + "%s:%s.__init__" % (k, k) for k in TYPES], cases=[c for c in CASES if c["prop"] not in ("axes", "axes_dt", "axes_df", "components")])
def wrong_argument(S, kind, prop):
    """the constructor and the constructor from a dictionary reject the same values"""
    t = TYPES[kind][prop]
    full = {}
    if kind in ("DataTime", "DataFreq", "DataDual"):
        n = S.int("n", lo=1)
        full = dict(axes=[S.cls("Data1D")(name="time", values=S.array("t", (n,)))], values=S.array("x", (n,)))
    for i, v in enumerate(rejected(S, t)):
        out = S.call(lambda: S.cls(kind)(**dict(full, **{prop: v})))
        S.ensure("wrong argument %d is rejected with the type error" % i, out.raised("CheckTypeError"))
        out = S.call(lambda: S.cls(kind)(init_dict=dict(full, **{prop: v, "__class__": kind})))
        S.ensure("wrong dictionary entry %d is rejected with the type error" % i, out.raised("CheckTypeError"))


@contract("C18", target=[K + "_frozen:FrozenClass.__setattr__", K + "_frozen:FrozenClass._freeze"] + [K + "%s:%s.__init__" % (k, k) for k in TYPES], cases=[dict(kind=k) for k in TYPES])
def unknown_property(S, kind):
    """no property can be added to an object"""
    o = make(S, kind)
    before = snap(S, o)
    names = ["unknown", "_unknown", "x", "Values", "__class"] + [p + "s_" for p in TYPES[kind]] + ["_" + p + "_" for p in TYPES[kind]] + [p.upper() for p in TYPES[kind]]
    for name in names:
        out = S.call(lambda: setattr(o, name, 1))
        S.ensure("%s is rejected" % name, out.raised("FrozenError"))
        S.ensure("%s is not there" % name, not hasattr(o, name))
    same_content(S, "object", o, before)


def ranges(S, t, v, lo, hi):
    vmin = S.real("vmin") if lo else None
    vmax = S.real("vmax") if hi else None
    out = S.call(CHECK + "check_var", "x", v, t, vmin, vmax)
    return out, vmin, vmax


@contract("C18", target=[CHECK + "check_var", CHECK + "check_min", CHECK + "check_max", CHECK + "check_type"], cases=[dict(t=t, lo=lo, hi=hi) for t in ("float", "int") for lo in (False, True) for hi in (False, True)])
def number_range(S, t, lo, hi):
    """a number is accepted exactly when it lies in the declared range"""
    v = S.real("v") if t == "float" else S.int("v")
    out, vmin, vmax = ranges(S, t, v, lo, hi)
    if out.ok:
        S.ensure("accepted values are in the range", S.And(S.le(vmin, v) if lo else True, S.le(v, vmax) if hi else True))
    elif out.raised("CheckMinError"):
        S.ensure("too small", lo and S.lt(v, vmin))
    else:
        S.ensure("otherwise the maximum error", out.raised("CheckMaxError"))
        S.ensure("too large", hi and S.lt(vmax, v))


@contract("C18", target=[CHECK + "check_var", CHECK + "check_min", CHECK + "check_max"], cases=[dict(lo=lo, hi=hi) for lo in (False, True) for hi in (False, True)])
def array_range(S, lo, hi):
    """an array is accepted exactly when all its elements lie in the declared range"""
    n = S.int("n", lo=1)
    a = S.array("a", (n,))
    out, vmin, vmax = ranges(S, "ndarray", a, lo, hi)
    if out.ok:
        S.forall("accepted arrays have all elements in the range", (n,), lambda k: S.And(S.le(vmin, S.at(a, k)) if lo else True, S.le(S.at(a, k), vmax) if hi else True), setup=lambda k: S.at_index(k))
    elif out.raised("CheckMinError"):
        S.ensure("an element is too small", lo and S.lt(S.min_of(n, lambda k: S.at(a, k)), vmin))
    else:
        S.ensure("otherwise the maximum error", out.raised("CheckMaxError"))
        S.ensure("an element is too large", hi and S.lt(vmax, S.max_of(n, lambda k: S.at(a, k))))


AXIS_KINDS = ("Data1D", "linspace", "pattern", "step")


def one_axis(S, kind, k, n):
    name = "axis%d" % k
    if kind == "Data1D":
        return S.cls("Data1D")(name=name, values=S.array("v%d" % k, (n,)))
    if kind == "linspace":
        return S.cls("DataLinspace")(name=name, initial=0.0, final=1.0, number=n)
    if kind == "pattern":
        return S.cls("DataPattern")(name=name, values=S.array("v%d" % k, (n,)), rebuild_indices=[0], unique_indices=[0])
    return S.cls("DataLinspace")(name=name, initial=0.0, final=S.build(n - 1) * 1.0, step=1.0, include_endpoint=True)


def fits(S, shape, sizes):
    """the shapes agree but for dimensions of length one"""
    a = [x for x in shape if not S.decide(S.eq(x, 1))]
    b = [x for x in sizes if not S.decide(S.eq(x, 1))]
    if len(a) != len(b):
        return False
    return S.And(True, *[S.eq(x, y) for x, y in zip(a, b)])


@contract("C18", target=["SciDataTool.Methods.DataND._set_values:_set_values", CHECK + "check_dimensions"], cases=[dict(axes=a, dim=d, how=h) for h in ("built", "set") for d in (1, 2, 3) for a in (("Data1D",), ("linspace",), ("pattern",), ("Data1D", "linspace"), ("pattern", "Data1D"), ("linspace", "Data1D", "pattern"))])
def dimensions(S, axes, dim, how):
    """values are accepted exactly when their shape is that of the axes, lengths of one apart"""
    sizes = tuple(S.int("n%d" % k, lo=1) for k in range(len(axes)))
    shape = tuple(S.int("m%d" % k, lo=1) for k in range(dim))
    ax = [one_axis(S, a, k, n) for k, (a, n) in enumerate(zip(axes, sizes))]
    x = S.array("x", shape)
    given = S.copy(x)
    if how == "built":
        out = S.call(lambda: S.cls("DataTime")(name="F", axes=ax, values=x))
    else:
        o = S.cls("DataTime")(name="F", axes=ax, values=S.array("y", sizes))
        before = snap(S, o)
        out = S.call(lambda: setattr(o, "values", x))
    ok = S.decide(fits(S, shape, sizes))
    if not ok:
        S.ensure("a shape that does not fit is rejected with the dimension error", out.raised("CheckDimError"))
        if how == "set":
            same_content(S, "the object", o, before)
        return
    S.returns(out)
    got = (out.value if how == "built" else o).values
    if not S.ensure("as many dimensions as axes", got.ndim == len(axes)):
        return
    for k, n in enumerate(sizes):
        S.ensure("dimension %d is that of the axis" % k, S.eq(got.shape[k], n))
    one = [S.decide(S.eq(n, 1)) for n in sizes]
    one_m = [S.decide(S.eq(m, 1)) for m in shape]

    def source(*i):
        rest = [j for j, o1 in zip(i, one) if not o1]
        return tuple(0 if o1 else rest.pop(0) for o1 in one_m)

    S.forall("elements", got.shape, lambda *i: S.eq(S.at(got, *i), S.at(given, *source(*i))))


@contract("C18", target=["SciDataTool.Methods.DataND._set_values:_set_values"], cases=[dict(v=v) for v in ("text", "number", "dict", "tuple")])
def values_type(S, v):
    """values that are no array are rejected with the type error"""
    n = S.int("n", lo=1)
    o = S.cls("DataTime")(name="F", axes=[one_axis(S, "Data1D", 0, n)], values=S.array("y", (n,)))
    before = snap(S, o)
    w = dict(text="abc", number=1.5, dict={}, tuple=(1.0, 2.0))[v]
    out = S.call(lambda: setattr(o, "values", w))
    S.ensure("rejected with the type error", out.raised("CheckTypeError"))
    same_content(S, "the object", o, before)
