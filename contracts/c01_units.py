"""C01: unit conversion."""
from fractions import Fraction
from dv.spec import contract
from contracts.lib import *

CV = "SciDataTool.Functions.conversions:"
# SI size (pi kept apart: factor, power of pi) and dimension (mass, length, time, temperature, angle, current)
SYMBOLS = {
    "dimless": (1, 0, (0, 0, 0, 0, 0, 0)), "degC": (1, 0, (0, 0, 0, 1, 0, 0)), "rad": (1, 0, (0, 0, 0, 0, 1, 0)), "°": (Fraction(1, 180), 1, (0, 0, 0, 0, 1, 0)),
    "rpm": (Fraction(1, 30), 1, (0, 0, -1, 0, 1, 0)), "min": (60, 0, (0, 0, 1, 0, 0, 0)), "Ohm": (1, 0, (1, 2, -3, 0, 0, -2)), "At": (1, 0, (0, 0, 0, 0, 0, 1)),
    "Wb": (1, 0, (1, 2, -2, 0, 0, -1)), "Mx": (Fraction(1, 10 ** 8), 0, (1, 2, -2, 0, 0, -1)), "Hz": (1, 0, (0, 0, -1, 0, 0, 0)), "Pa": (1, 0, (1, -1, -2, 0, 0, 0)),
    "g": (Fraction(1, 1000), 0, (1, 0, 0, 0, 0, 0)), "s": (1, 0, (0, 0, 1, 0, 0, 0)), "h": (3600, 0, (0, 0, 1, 0, 0, 0)), "A": (1, 0, (0, 0, 0, 0, 0, 1)),
    "J": (1, 0, (1, 2, -2, 0, 0, 0)), "W": (1, 0, (1, 2, -3, 0, 0, 0)), "N": (1, 0, (1, 1, -2, 0, 0, 0)), "C": (1, 0, (0, 0, 1, 0, 0, 1)),
    "T": (1, 0, (1, 0, -2, 0, 0, -1)), "G": (Fraction(1, 10 ** 4), 0, (1, 0, -2, 0, 0, -1)), "V": (1, 0, (1, 2, -3, 0, 0, -1)), "F": (1, 0, (-1, -2, 4, 0, 0, 2)),
    "H": (1, 0, (1, 2, -2, 0, 0, -2)), "m": (1, 0, (0, 1, 0, 0, 0, 0))}
PREFIXES = {"Y": 24, "Z": 21, "E": 18, "P": 15, "T": 12, "G": 9, "M": 6, "k": 3, "h": 2, "da": 1, "": 0, "d": -1, "c": -2, "m": -3, "µ": -6, "u": -6, "μ": -6,
            "n": -9, "p": -12, "f": -15, "a": -18, "z": -21, "y": -24}
# prefix + symbol texts that are also another unit, read as that one
TAKEN = {"min"}


def size(part):
    """(rational factor, power of pi, dimension) of (prefix, symbol, power)"""
    pre, sym, p = part
    f, k, d = SYMBOLS[sym]
    return (Fraction(10) ** PREFIXES[pre] * f) ** p, k * p, tuple(p * x for x in d)


def unit_size(num, den=None):
    f, k, d = size(num)
    if den:
        g, l, e = size(den)
        return f / g, k - l, tuple(a - b for a, b in zip(d, e))
    return f, k, d


def text(num, den=None):
    t = lambda u: u[0] + u[1] + ("" if u[2] == 1 else str(u[2]))
    return t(num) + ("/" + t(den) if den else "")


def factor(S, u1, u2):
    (f, k, d), (g, l, e) = u1, u2
    assert d == e
    v = S.num(f / g) if S.symbolic else float(f / g)
    for _ in range(abs(k - l)):
        v = v * S.pi if k > l else S.frac(v, S.pi)
    return v


def converts(S, x, x0, t1, t2, fac):
    out = S.call(CV + "convert", x, t1, t2)
    if not S.returns(out, "%s -> %s: returns normally" % (t1, t2)):
        return
    y = out.value
    if not S.ensure("%s -> %s: shape" % (t1, t2), S.And(y.ndim == x0.ndim, *[a == b for a, b in zip(y.shape, x0.shape)])):
        return
    S.forall("%s -> %s: every value times the ratio of the sizes" % (t1, t2), list(x0.shape), lambda *i: S.close(S.at(y, *i), S.at(x0, *i) * fac))


@contract("C01", [CV + "convert", CV + "get_dim_prefix"], [dict(sym=s) for s in SYMBOLS], conc=3, budget=60)
def prefixes_and_powers(S, sym):
    """every prefix with every symbol, powers 1 to 3, to the base unit and back"""
    n = S.int("n", 1, sample=(1, 3))
    x = S.array("x", (n,))
    x0 = S.copy(x)
    for pre in PREFIXES:
        for p in (1, 2, 3):
            if pre + sym in TAKEN or (p > 1 and pre not in ("", "k", "m", "h", "T", "da", "µ")):
                continue
            u, v = (pre, sym, p), ("", sym, p)
            converts(S, x, x0, text(u), text(v), factor(S, unit_size(u), unit_size(v)))
            converts(S, x, x0, text(v), text(u), factor(S, unit_size(v), unit_size(u)))
    S.unchanged("input not modified", x, x0)


def P(t):
    """('m', 's', 1) etc. from a list of parts"""
    return tuple(t)


SAME = [[[("", "Pa", 1)], [("", "N", 1), ("", "m", 2)], [("k", "N", 1), ("c", "m", 2)], [("", "J", 1), ("", "m", 3)]],
        [[("", "rad", 1)], [("", "°", 1)], [("m", "°", 1)]],
        [[("", "rad", 1), ("", "s", 1)], [("", "rpm", 1)], [("", "°", 1), ("m", "s", 1)], [("", "rad", 1), ("", "min", 1)]],
        [[("", "s", 1)], [("", "min", 1)], [("", "h", 1)], [("u", "s", 1)]],
        [[("", "Wb", 1)], [("", "Mx", 1)], [("k", "Mx", 1)]],
        [[("", "T", 1)], [("", "G", 1)], [("", "Wb", 1), ("", "m", 2)], [("k", "G", 1)]],
        [[("", "At", 1)], [("m", "A", 1)], [("", "C", 1), ("", "s", 1)]],
        [[("", "W", 1)], [("", "J", 1), ("", "s", 1)], [("k", "J", 1), ("", "h", 1)]],
        [[("", "H", 1)], [("", "Wb", 1), ("", "A", 1)]],
        [[("", "Ohm", 1)], [("", "V", 1), ("", "A", 1)], [("k", "V", 1), ("m", "A", 1)]],
        [[("", "V", 1)], [("", "W", 1), ("", "A", 1)], [("", "Wb", 1), ("", "s", 1)]],
        [[("", "F", 1)], [("", "C", 1), ("", "V", 1)]],
        [[("", "J", 1), ("", "m", 1)], [("", "N", 1)], [("h", "N", 1)]],
        [[("", "m", 1), ("", "s", 2)], [("c", "m", 1), ("m", "s", 2)], [("k", "m", 1), ("", "h", 2)]],
        [[("", "A", 1), ("", "m", 1)], [("k", "A", 1), ("m", "m", 1)]],
        [[("", "g", 1), ("", "m", 3)], [("k", "g", 1), ("d", "m", 3)]],
        [[("", "Hz", 1)], [("k", "Hz", 1)], [("", "dimless", 1), ("", "s", 1)]]]


@contract("C01", [CV + "convert", CV + "get_dim_prefix"], [dict(g=g) for g in range(len(SAME))], conc=4)
def same_dimension(S, g):
    """units of the same dimension written with different symbols, with denominators, through a third unit"""
    n, m = S.int("n", 1, sample=(1, 3)), S.int("m", 1, sample=(1, 3))
    x = S.array("x", (n, m))
    x0 = S.copy(x)
    us = SAME[g]
    for a in us:
        for b in us:
            f = factor(S, unit_size(*a), unit_size(*b))
            converts(S, x, x0, text(*a), text(*b), f)
            spaced = text(*a).replace("2", "^2").replace("/", " / ")
            if spaced != text(*a):
                converts(S, x, x0, spaced, text(*b), f)
            out = S.call(CV + "convert", x, text(*a), text(*b))
            if S.returns(out):
                back = S.call(CV + "convert", out.value, text(*b), text(*a))
                if S.returns(back):
                    S.forall("%s -> %s and back" % (text(*a), text(*b)), [n, m], lambda i, j: S.close(S.at(back.value, i, j), S.at(x0, i, j)))
                for c in us:
                    if c != a and c != b:
                        via = S.call(CV + "convert", x, text(*a), text(*c))
                        via = S.call(CV + "convert", via.value, text(*c), text(*b)) if via.ok else via
                        if S.returns(via):
                            S.forall("%s -> %s through %s" % (text(*a), text(*b), text(*c)), [n, m], lambda i, j: S.close(S.at(via.value, i, j), S.at(out.value, i, j)))
    S.unchanged("input not modified", x, x0)


@contract("C01", [CV + "convert", CV + "get_dim_prefix"], [dict(sym=s) for s in SYMBOLS], conc=2)
def different_dimension(S, sym):
    """another dimension, in numerator, power or denominator, raises UnitError"""
    x = S.array("x", (S.int("n", 1, sample=(1, 2)),))
    for other in SYMBOLS:
        for a, b in (([("", sym, 1)], [("", other, 1)]), ([("k", sym, 1)], [("m", other, 2)]), ([("", sym, 2)], [("", other, 1)]),
                     ([("", sym, 1), ("", other, 1)], [("", sym, 1)]), ([("", "V", 1), ("", sym, 1)], [("", "V", 1), ("", other, 1)])):
            if unit_size(*a)[2] != unit_size(*b)[2] and not any(u[0] + u[1] in TAKEN for u in a + b):
                out = S.call(CV + "convert", x, text(*a), text(*b))
                S.ensure("%s -> %s is rejected (%r)" % (text(*a), text(*b), out if not S.symbolic else ""), out.raised("UnitError"))


@contract("C01", [CV + "convert", CV + "get_dim_prefix"], conc=2)
def unknown_units(S):
    x = S.array("x", (S.int("n", 1, sample=(1, 2)),))
    for sym in SYMBOLS:
        for t in ("q" + sym, "kk" + sym, "x" + sym + "2"):
            for a, b in ((t, sym), (sym, t), ("V/" + t, "V/" + sym)):
                out = S.call(CV + "convert", x, a, b)
                S.ensure("%s -> %s is rejected" % (a, b), out.raised("UnitError"))
    for t in ("?", "u", "k", "Q", "zz", "2"):
        out = S.call(CV + "convert", x, t, "V")
        S.ensure("%s is rejected" % t, out.raised("UnitError"))


@contract("C01", CV + "convert", [dict(d=d) for d in ("BH", "HB", "BHB")])
def bark(S, d):
    """critical bands: the two published formulas, which undo each other"""
    n = S.int("n", 1, sample=(1, 3))
    x = S.array("x", (n,), where=(lambda v: S.And(v > 1, v < 20)), sample=lambda r: r.uniform(1.1, 19.9))
    x0 = S.copy(x)
    y = S.call(CV + "convert", x, *(("Bark", "Hz") if d[0] == "B" else ("Hz", "Bark")))
    if not S.returns(y):
        return
    if d == "BH":
        S.forall("frequency of a band", [n], lambda i: S.eq(S.at(y.value, i) * (S.num(26.28) - S.at(x0, i)), 1960 * (S.at(x0, i) + S.num(0.53))))
    elif d == "HB":
        S.forall("band of a frequency", [n], lambda i: S.eq((S.at(y.value, i) + S.num(0.53)) * (1960 + S.at(x0, i)), S.num(26.81) * S.at(x0, i)))
    S.unchanged("input not modified", x, x0)


UN = [("T", "mT"), ("N/m2", "MPa"), ("m/s2", "mm/s2"), ("V", "V"), ("rad", "°")]


@contract("C01", ["SciDataTool.Methods.DataND.get_along:get_along", "SciDataTool.Methods.DataND._convert:_convert", CV + "convert"], [dict(u=u, tu=t) for u in range(len(UN)) for t in ("ms", "s", "h")])
def along_units(S, u, tu):
    """get_along(unit=..) and 'time{unit}' convert the field and the axis"""
    n, m = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m))
    x0 = S.copy(x)
    A, av = axis1d(S, "Data1D", "time", "s", n, S.real("a0"), S.real("h", pos=True), {})
    B, bv = axis1d(S, "linspace_end", "angle", "rad", m, S.real("b0"), S.real("g", pos=True), {})
    un = {"T": [("", "T", 1)], "mT": [("m", "T", 1)], "N/m2": [("", "N", 1), ("", "m", 2)], "MPa": [("M", "Pa", 1)], "m/s2": [("", "m", 1), ("", "s", 2)],
          "mm/s2": [("m", "m", 1), ("", "s", 2)], "V": [("", "V", 1)], "rad": [("", "rad", 1)], "°": [("", "°", 1)]}
    F = S.cls("DataTime")(name="F", unit=UN[u][0], symbol="F", axes=[A, B], values=x)
    out = S.call(F.get_along, "time{%s}" % tu, "angle{°}", unit=UN[u][1])
    if not S.returns(out):
        return
    f = factor(S, unit_size(*un[UN[u][0]]), unit_size(*un[UN[u][1]]))
    y = out.value["F"]
    if S.ensure("number of axes", y.ndim == 2):
        S.forall("field in the requested unit", [n, m], lambda i, j: S.close(S.at(y, i, j), f * S.at(x0, i, j)))
    ft = factor(S, unit_size(("", "s", 1)), unit_size({"ms": ("m", "s", 1), "s": ("", "s", 1), "h": ("", "h", 1)}[tu]))
    S.forall("axis in the requested unit", [n], lambda i: S.close(S.at(out.value["time"], i), ft * S.at(av, i)))
    S.forall("second axis in the requested unit", [m], lambda i: S.eq(S.at(out.value["angle"], i) * S.pi, 180 * S.at(bv, i)))
    S.unchanged("stored field not modified", F.values, x0)
