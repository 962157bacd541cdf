"""C17: copies and saved objects are equal to and independent of the original"""
import os
import shutil
import tempfile
from dv.spec import contract
from contracts.lib import *

K = "SciDataTool.Classes."
AXES = ("Data1D", "DataLinspace", "DataPattern", "components")
FIELDS = ("DataND", "DataTime", "DataFreq", "DataDual")
NORMS = ("Norm_ref", "Norm_affine", "Norm_vector", "Norm_indices")
OTHER = ("VectorField", "RequestedAxis")
ALL = AXES + FIELDS + NORMS + OTHER


def properties(o):
    """names of all the stored properties"""
    return sorted(k[1:] for k in o.__dict__ if k.startswith("_") and not k.startswith("_Frozen"))


def is_object(o):
    return hasattr(o, "as_dict") and hasattr(o, "copy")


def is_array(o):
    return hasattr(o, "shape") and hasattr(o, "ndim") and o.ndim > 0


def snap(S, o):
    if isinstance(o, dict):
        return ("dict", o, [(k, snap(S, v)) for k, v in o.items()])
    if isinstance(o, list):
        return ("list", o, [snap(S, v) for v in o])
    if is_array(o):
        return ("array", o, S.copy(o))
    if is_object(o):
        return ("object", S.type_name(o), [(k, snap(S, getattr(o, "_" + k))) for k in properties(o)])
    return ("value", o, None)


def same_content(S, label, o, before):
    kind, old, content = before
    if kind == "dict":
        if S.ensure(label + ": same entries", isinstance(o, dict) and sorted(o) == sorted(k for k, _ in content)):
            for k, b in content:
                same_content(S, "%s %s" % (label, k), o[k], b)
    elif kind == "list":
        if S.ensure(label + ": same number", isinstance(o, list) and len(o) == len(content)):
            for k, b in enumerate(content):
                same_content(S, "%s %d" % (label, k), o[k], b)
    elif kind == "array":
        if S.ensure(label + ": array", is_array(o) and o.ndim == content.ndim):
            if isinstance(content[(0,) * content.ndim], str):
                S.ensure(label, [x for x in S.tolist(o)] == [x for x in S.tolist(content)])
            else:
                S.unchanged(label, o, content)
    elif kind == "object":
        if S.ensure(label + ": same class", S.type_name(o) == old):
            S.ensure(label + ": same properties", properties(o) == [k for k, _ in content])
            for k, b in content:
                same_content(S, "%s.%s" % (label, k), getattr(o, "_" + k), b)
    elif old is None or isinstance(old, (str, bool)):
        S.ensure(label, (o is None) if old is None else (type(o) == type(old) and o == old))
    else:
        S.ensure(label, S.eq(S.num(o), S.num(old)))


def make(S, kind, tag=""):
    """an object of the given class with all its properties filled in"""
    def real(n):
        return S.real(n + tag)

    def norms():
        return {"ref": S.cls("Norm_ref")(ref=real("ref"), unit="u1"), "aff": S.cls("Norm_affine")(slope=real("slope"), offset=real("offset"))}

    def axis(name, n):
        return S.cls("Data1D")(name=name, unit="s", symbol="t", values=S.array("v_" + name + tag, (n,)), symmetries={"period": 3}, normalizations=norms())

    n, m = S.int("n", lo=1), S.int("m", lo=1)
    if kind == "Data1D":
        return axis("time", n)
    if kind == "components":
        return S.cls("Data1D")(name="comp", values=["a", "bb"], is_components=True, is_overlay=True, filter={"comp": ["a"]}, sort_indices=[1, 0], delimiter="-", char_to_rm=["x"])
    if kind == "DataLinspace":
        return S.cls("DataLinspace")(name="time", unit="s", symbol="t", initial=real("i"), final=real("f"), number=n, include_endpoint=False, symmetries={"antiperiod": 2}, normalizations=norms(), is_overlay=True)
    if kind == "DataPattern":
        return S.cls("DataPattern")(name="z", unit="m", values=S.array("v" + tag, (n,)), values_whole=S.array("vw" + tag, (m,)), unique_indices=[0, 2], rebuild_indices=[0, 0, 1], is_step=False, normalizations=norms())
    if kind in ("DataND", "DataTime"):
        return S.cls(kind)(name="F", unit="T", symbol="B", axes=[axis("time", n), axis("angle", m)], values=S.array("x" + tag, (n, m)), normalizations=norms(), FTparameters={"a": real("ft")}, is_real=False)
    if kind == "DataFreq":
        return S.cls(kind)(name="F", unit="T", symbol="B", axes=[axis("freqs", n), axis("angle", m)], values=S.array("x" + tag, (n, m), k="c"), normalizations=norms(), is_real=False)
    if kind == "DataDual":
        return S.cls(kind)(name="F", unit="T", symbol="B", axes=[axis("time", n)], values=S.array("x" + tag, (n,)), axes_dt=[axis("time", n)], values_dt=S.array("xt" + tag, (n,)), axes_df=[axis("freqs", m)], values_df=S.array("xf" + tag, (m,)), normalizations=norms())
    if kind == "VectorField":
        return S.cls(kind)(name="V", symbol="B", components={c: S.cls("DataTime")(name="F", unit="T", symbol="B" + c, axes=[axis("time", n)], values=S.array("x" + c + tag, (n,))) for c in ("radial", "axial")})
    if kind == "Norm_ref":
        return S.cls(kind)(ref=real("ref"), unit="u1")
    if kind == "Norm_affine":
        return S.cls(kind)(slope=real("slope"), offset=real("offset"), unit="u1")
    if kind == "Norm_vector":
        return S.cls(kind)(vector=S.array("w" + tag, (n,)), unit="u1")
    if kind == "Norm_indices":
        return S.cls(kind)(unit="u1")
    if kind == "RequestedAxis":
        return S.cls(kind)(name="time", unit="s", corr_name="angle", corr_unit="rad", corr_values=S.array("cv" + tag, (n,)), values=S.array("v" + tag, (n,)), indices=[0, 1], input_data=[1.0, 2.0], operation="sum", index=1, transform="fft", extension="whole", is_pattern=True, rebuild_indices=[0, 0], is_step=True, noct=3)


def spoil_value(S, v):
    if v is None:
        return None
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return v + "x"
    return v + 1


def spoil(S, o):
    """change everything that is reachable from an object"""
    if isinstance(o, dict):
        for k in list(o):
            if isinstance(o[k], (dict, list)) and k in ("comp",):
                continue  # a list inside the filter is shared (see the statement)
            if isinstance(o[k], (dict, list)) or is_array(o[k]) or is_object(o[k]):
                spoil(S, o[k])
            else:
                o[k] = spoil_value(S, o[k])
        o["added"] = 5
    elif isinstance(o, list):
        for k in range(len(o)):
            if isinstance(o[k], (dict, list)) or is_array(o[k]) or is_object(o[k]):
                spoil(S, o[k])
            else:
                o[k] = spoil_value(S, o[k])
        o.append(None)
    elif is_array(o):
        i = (0,) * o.ndim
        x = o[i]
        if not isinstance(x, str):
            o[i] = x + 1
        elif not S.symbolic:
            o[i] = "q"
    elif is_object(o):
        for k in properties(o):
            v = getattr(o, "_" + k)
            if isinstance(v, (dict, list)) or is_array(v) or is_object(v):
                spoil(S, v)
            elif v is not None:
                setattr(o, "_" + k, spoil_value(S, v))


def agrees(S, label, o, c, before):
    same_content(S, label, c, before)
    for x, y, what in ((o, c, "original == new"), (c, o, "new == original")):
        out = S.call(lambda: x == y)
        S.returns(out)
        S.ensure("%s: %s" % (label, what), out.value)
    out = S.call(lambda: o.compare(c))
    S.returns(out)
    S.ensure(label + ": no difference listed", out.value == [])


@contract("C17", target=[K + "%s:%s.copy" % (k, k) for k in ALL if k != "components"] + [K + "%s:%s.__eq__" % (k, k) for k in ALL if k != "components"] + [K + "%s:%s.compare" % (k, k) for k in ALL if k != "components"], cases=[dict(kind=k) for k in ALL])
def copied(S, kind):
    """a copy has the class and the content of the original, and changing it leaves the original alone"""
    o = make(S, kind)
    before = snap(S, o)
    out = S.call(lambda: o.copy())
    S.returns(out)
    c = out.value
    S.ensure("a new object", c is not o)
    agrees(S, "copy", o, c, before)
    same_content(S, "original", o, before)
    spoil(S, c)
    same_content(S, "original after changing the copy", o, before)


@contract("C17", target=["SciDataTool.Functions.copy:copy"], cases=[dict(kind=k) for k in ALL], bounded=True)
def copied_by_function(S, kind):
    """the function copy gives an independent equal object"""
    o = make(S, kind)
    before = snap(S, o)
    out = S.call("SciDataTool.Functions.copy:copy", o)
    S.returns(out)
    agrees(S, "copy", o, out.value, before)
    spoil(S, out.value)
    same_content(S, "original after changing the copy", o, before)


def dictionary(S, kind, handle):
    o = make(S, kind)
    before = snap(S, o)
    out = S.call(lambda: o.as_dict(type_handle_ndarray=handle))
    S.returns(out)
    d = out.value
    S.ensure("class name in the dictionary", d["__class__"] == S.type_name(o))
    same_content(S, "original", o, before)
    out = S.call(lambda: S.cls(S.type_name(o))(init_dict=d))
    S.returns(out)
    agrees(S, "object of the dictionary", o, out.value, before)
    if handle < 2:
        spoil(S, d)
        same_content(S, "original after changing the dictionary", o, before)


@contract("C17", target=[K + "%s:%s.as_dict" % (k, k) for k in ALL if k != "components"] + [K + "%s:%s.__init__" % (k, k) for k in ALL if k != "components"], cases=[dict(kind=k, handle=h) for k in ALL for h in (1, 2)])
def dictionary_arrays(S, kind, handle):
    """an object is rebuilt from its dictionary (arrays kept as arrays)"""
    dictionary(S, kind, handle)


@contract("C17", target=[K + "%s:%s.as_dict" % (k, k) for k in ALL if k != "components"] + [K + "%s:%s.__init__" % (k, k) for k in ALL if k != "components"], cases=[dict(kind=k) for k in ALL], bounded=True)
def dictionary_lists(S, kind):
    """an object is rebuilt from its dictionary (arrays as lists)"""
    dictionary(S, kind, 0)


def other_value(S, o, k):
    """another value for one property, or None when there is no other"""
    v = getattr(o, "_" + k)
    if v is None:
        return None
    if isinstance(v, bool):
        return (not v,)
    if isinstance(v, str):
        return (v + "x",)
    if is_array(v):
        w = S.copy(v)
        i = (0,) * v.ndim
        if S.symbolic and isinstance(v[i], str):
            return None
        w[i] = v[i] + 1 if not isinstance(v[i], str) else "q"
        return (w,)
    if isinstance(v, dict):
        w = dict(v)
        for key in list(w):
            x = w[key]
            if is_object(x):
                x = x.copy()
                setattr(x, properties(x)[-1], spoil_value(S, getattr(x, properties(x)[-1])))
                w[key] = x
            elif isinstance(x, list):
                w[key] = x + ["more"]
            else:
                w[key] = spoil_value(S, x)
            return (w,)
        return ({"more": 1} if k != "normalizations" else {"more": S.cls("Norm_indices")()},)
    if isinstance(v, list):
        w = list(v)
        if len(w) == 0:
            return ([1],)
        x = w[-1]
        if is_object(x):
            x = x.copy()
            x.unit = spoil_value(S, x.unit)
            w[-1] = x
        else:
            w[-1] = spoil_value(S, x)
        return (w,)
    return (v + 1,)


@contract("C17", target=[K + "%s:%s.__eq__" % (k, k) for k in ALL if k != "components"] + [K + "%s:%s.compare" % (k, k) for k in ALL if k != "components"], cases=[dict(kind=k) for k in ALL])
def told_apart(S, kind):
    """objects that differ in one property are not equal, and the difference is listed"""
    o = make(S, kind)
    for k in properties(o):
        w = other_value(S, o, k)
        if w is None:
            continue
        c = o.copy()
        setattr(c, "_" + k, w[0])
        for x, y, what in ((o, c, "original and changed"), (c, o, "changed and original")):
            out = S.call(lambda: x == y)
            S.returns(out)
            S.ensure("%s: %s differ" % (k, what), S.Not(out.value))
            out = S.call(lambda: x.compare(y))
            S.returns(out)
            S.ensure("%s: %s: difference listed" % (k, what), len(out.value) > 0)


@contract("C17", target=[K + "%s:%s.__eq__" % (k, k) for k in ("Data1D", "DataLinspace", "DataTime", "DataFreq", "Norm_ref", "Norm_vector", "VectorField")], cases=[dict(kind=k) for k in ("Data1D", "DataLinspace", "Norm_ref", "Norm_affine", "Norm_vector")])
def equal_values(S, kind):
    """two objects with any contents are equal exactly when all the values are"""
    a, b = make(S, kind), make(S, kind, "'")
    out = S.call(lambda: a == b)
    S.returns(out)
    same = S.decide(out.value)

    def conj(x, y):
        if isinstance(x, dict):
            return S.And(*[conj(x[k], y[k]) for k in x])
        if is_object(x):
            return S.And(*[conj(getattr(x, "_" + k), getattr(y, "_" + k)) for k in properties(x)])
        if isinstance(x, (str, bool)) or x is None:
            return True
        return S.eq(S.num(x), S.num(y))

    for k in properties(a):
        x, y = getattr(a, "_" + k), getattr(b, "_" + k)
        if is_array(x):
            if same:
                S.forall("equal objects have equal %s" % k, x.shape, lambda *i: S.eq(S.at(x, *i), S.at(y, *i)), setup=lambda *i: S.at_index(*i))
        elif same:
            S.ensure("equal objects have equal %s" % k, conj(x, y))


def saved(S, o, name):
    """save an object in a scratch directory and read it back"""
    folder = tempfile.mkdtemp(prefix="verif_c17_")
    cwd = os.getcwd()
    try:
        path = os.path.join(folder, name)
        out = S.call(lambda: o.save(path))
        S.returns(out)
        files = sorted(os.listdir(folder))
        S.ensure("one file is written, with the name asked for", files == [name if name.endswith(".json") else (name or type(o).__name__) + ".json"])
        out = S.call("SciDataTool.Functions.load:load", os.path.join(folder, files[0]))
        S.ensure("the working directory is the same", os.getcwd() == cwd)
        return out
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder)


@contract("C17", target=["SciDataTool.Functions.save:save_data", "SciDataTool.Functions.save:build_data", "SciDataTool.Functions.save:fix_file_name", "SciDataTool.Functions.load:load", "SciDataTool.Functions.load:init_data", "SciDataTool.Functions.Load.load_json:load_json"], cases=[dict(kind=k, name=n) for k in ALL if k != "DataFreq" for n in ("obj.json", "obj", "")], bounded=True)
def saved_file(S, kind, name):
    """an object saved to a JSON file and loaded is the same object"""
    if S.symbolic:
        return
    o = make(S, kind)
    before = snap(S, o)
    out = saved(S, o, name)
    S.returns(out)
    agrees(S, "loaded", o, out.value, before)
    same_content(S, "original", o, before)
