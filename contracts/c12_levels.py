"""C12: dB, dBA and octave bands"""
from dv.spec import contract
from contracts.lib import *

CV = "SciDataTool.Functions.conversions:"
M = "SciDataTool.Methods.DataND."
UNITS = (("T", 20), ("m/s", 20), ("N/m^2", 20), ("W", 10), ("kW", 10))


def level(S, v, ref, c, one):
    """c log10(v / ref), v not below the reference when there is one"""
    if not one:
        v = S.ite(v < ref, ref, v)
    return S.ite(S.eq(v, 0), 0, c * S.log10(v / ref))


def weight(S, f):
    """A-weight of a frequency"""
    f = f * S.frac(1, 1)
    f2 = f * f
    p1, p2, p3, p4 = 20.6 ** 2, 107.7 ** 2, 737.0 ** 2, 12200.0 ** 2
    ra = p4 * f2 * f2 / ((f2 + p1) * S.sqrt((f2 + p2) * (f2 + p3)) * (f2 + p4))
    return S.ite(S.eq(f, 0), -100, 2 + 20 * S.log10(ra))


def magnitudes(S, name, sh):
    return S.array(name, sh, where=lambda v: v >= 0, sample=lambda r: r.choice([0, 0.25, 0.5, 1, 2, 3.5, 100]))


def reference(S, one):
    if one:
        return 1
    r = S.real("ref", pos=True)
    S.assume(r != 1)
    return r


def frequencies(S, name, n):
    return S.array(name, (n,), where=lambda v: v >= 0, sample=lambda r: r.choice([0, 10, 50, 63, 1000, 4000.5, 20000]))


@contract("C12", [CV + "to_dB"], [dict(unit=u, c=c, one=o, rank=r) for u, c in UNITS for o in (True, False) for r in (1, 2, 3) if r == 1 or u in ("T", "W")])
def decibels(S, unit, c, one, rank):
    """levels of magnitudes of any shape"""
    sh = dims(S, rank)
    v, ref = magnitudes(S, "v", sh), reference(S, one)
    v0 = S.copy(v)
    out = S.call(CV + "to_dB", v, unit, *(() if one else (ref,)))
    if not S.returns(out):
        return
    y = out.value
    if S.ensure("number of axes", y.ndim == rank):
        S.ensure("shape", S.And(*[y.shape[d] == sh[d] for d in range(rank)]))
        S.forall("levels", sh, lambda *i: S.eq(S.at(y, *i), level(S, S.at(v0, *i), ref, c, one)))
    S.unchanged("magnitudes", v, v0)


@contract("C12", [CV + "to_dB"], [dict(unit=u, c=c, one=o) for u, c in (("T", 20), ("W", 10)) for o in (True, False)])
def decibels_number(S, unit, c, one):
    """level of one magnitude"""
    v, ref = S.real("v", pos=True), reference(S, one)
    out = S.call(CV + "to_dB", v, unit, ref)
    if S.returns(out):
        S.ensure("level", S.eq(S.num(out.value), level(S, v, ref, c, one)))


@contract("C12", [CV + "dB_to_dBA"])
def weighting(S):
    """A-weights added to levels"""
    n = S.int("n", 1, sample=(1, 6))
    v, f = S.array("v", (n,)), frequencies(S, "f", n)
    v0, f0 = S.copy(v), S.copy(f)
    out = S.call(CV + "dB_to_dBA", v, f)
    if not S.returns(out):
        return
    S.ensure("number of values", out.value.shape[0] == n)
    S.forall("levels", [n], lambda i: S.eq(S.at(out.value, i), S.at(v0, i) + weight(S, S.at(f0, i))))
    S.unchanged("levels before", v, v0)
    S.unchanged("frequencies", f, f0)


@contract("C12", [CV + "dB_to_dBA"])
def weighting_integers(S):
    """frequencies given as integers"""
    n = S.int("n", 1, sample=(1, 6))
    v, f = S.array("v", (n,)), S.array("f", (n,), "i", where=lambda v: v >= 0, sample=lambda r: r.choice([0, 10, 50, 63, 1000, 20000]))
    out = S.call(CV + "dB_to_dBA", v, f)
    if S.returns(out):
        S.forall("levels", [n], lambda i: S.eq(S.at(out.value, i), S.at(v, i) + weight(S, S.at(f, i))))


@contract("C12", [CV + "to_dBA", CV + "to_dB", CV + "dB_to_dBA"], [dict(unit=u, c=c, one=o) for u, c in (("T", 20), ("W", 10)) for o in (True, False)])
def weighted_levels(S, unit, c, one):
    """magnitudes to weighted levels"""
    n = S.int("n", 1, sample=(1, 6))
    v, f, ref = magnitudes(S, "v", (n,)), frequencies(S, "f", n), reference(S, one)
    v0 = S.copy(v)
    out = S.call(CV + "to_dBA", v, f, unit, ref)
    if not S.returns(out):
        return
    S.ensure("number of values", out.value.shape[0] == n)
    S.forall("levels", [n], lambda i: S.eq(S.at(out.value, i), level(S, S.at(v0, i), ref, c, one) + weight(S, S.at(f, i))))
    S.unchanged("magnitudes", v, v0)


@contract("C12", [CV + "dB_to_dBA"], bounded=True, conc=200)
def tabulated(S):
    """A-weights of the third-octave bands are those of the standard, to a third of a decibel"""
    table = {10: -70.4, 12.5: -63.4, 16: -56.7, 20: -50.5, 25: -44.7, 31.5: -39.4, 40: -34.6, 50: -30.2, 63: -26.2, 80: -22.5, 100: -19.1, 125: -16.1, 160: -13.4, 200: -10.9,
             250: -8.6, 315: -6.6, 400: -4.8, 500: -3.2, 630: -1.9, 800: -0.8, 1000: 0, 1250: 0.6, 1600: 1, 2000: 1.2, 2500: 1.3, 3150: 1.2, 4000: 1, 5000: 0.5, 6300: -0.1,
             8000: -1.1, 10000: -2.5, 12500: -4.3, 16000: -6.6, 20000: -9.3}
    n = S.int("n", 1, sample=(1, 6))
    v, f = S.array("v", (n,)), S.array("f", (n,), sample=lambda r: r.choice(sorted(table)))
    out = S.call(CV + "dB_to_dBA", v, f)
    if S.returns(out):
        S.forall("weights", [n], lambda i: S.near(S.at(out.value, i) - S.at(v, i), table[float(S.at(f, i))], 0.35))


NOMINAL = {1: ["16", "31.5", "63", "125", "250", "500", "1000", "2000", "4000", "8000", "16000"],
           3: ["12.5", "16", "20", "25", "31.5", "40", "50", "63", "80", "100", "125", "160", "200", "250", "315", "400", "500", "630", "800", "1000", "1250", "1600", "2000", "2500",
               "3150", "4000", "5000", "6300", "8000", "10000", "12500", "16000", "20000"]}


@contract("C12", ["SciDataTool.Functions.fft_functions:comp_nthoctave_axis"], [dict(noct=n) for n in (1, 3)])
def bands(S, noct):
    """centre frequencies of the octave and third-octave bands"""
    from fractions import Fraction
    table = [Fraction(x) for x in NOMINAL[noct]]
    lo, hi = S.real("lo", sample=(0, 25000)), S.real("hi", sample=(0, 25000))
    out = S.call("SciDataTool.Functions.fft_functions:comp_nthoctave_axis", noct, lo, hi)
    if not S.returns(out):
        return
    y = list(out.value)
    inside = [f for f in table if S.decide(S.And(lo <= f, f <= hi))]
    if S.ensure("number of bands", len(y) == len(inside)):
        S.ensure("centre frequencies in order", S.And(*[S.eq(u, f) for u, f in zip(y, inside)]))


API = [M + "get_magnitude_along:get_magnitude_along", M + "get_along:get_along", M + "_convert:_convert", CV + "to_dBA", CV + "to_dB", CV + "dB_to_dBA"]
REQ = (("freqs",), ("freqs", "z"), ("z", "freqs"), ("z[1]", "freqs"), ("freqs", "z[0]"))


@contract("C12", API, [dict(unit=u, one=o, axes=a, how=h) for u in ("dB", "dBA") for o in (True, False) for a in REQ for h in ("magnitude", "along")])
def request(S, unit, one, axes, how):
    """levels of a spectrum"""
    n, m = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4))
    names = [a.split("[")[0] for a in axes]
    sh = [n if a == "freqs" else m for a in names]
    f = frequencies(S, "f", n)
    ax = [S.cls("Data1D")(name="freqs", unit="Hz", values=f) if a == "freqs" else S.cls("Data1D")(name="z", unit="m", values=S.increasing("zz", m)) for a in names]
    ref = reference(S, one)
    v = S.array("v", sh, "c")
    v0 = S.copy(v)
    D = S.cls("DataFreq")(name="spectrum", unit="T", symbol="B", axes=ax, values=v, normalizations={} if one else {"ref": S.cls("Norm_ref")(ref=ref)})
    out = S.call(D.get_magnitude_along if how == "magnitude" else D.get_along, *axes, unit=unit)
    if not S.returns(out):
        return
    y = S.arr(out.value["B"])
    fix = {d: int(a[-2]) for d, a in enumerate(axes) if "[" in a}
    free = [d for d in range(len(sh)) if d not in fix]
    if not S.ensure("number of axes", y.ndim == len(free)):
        return
    S.ensure("shape", S.And(*[y.shape[e] == sh[d] for e, d in enumerate(free)]))

    def ok(*i):
        j = [fix[d] if d in fix else i[free.index(d)] for d in range(len(sh))]
        w = level(S, S.abs(S.at(v0, *j)), ref, 20, one)
        return S.eq(S.at(y, *i), w + weight(S, S.at(f, j[names.index("freqs")])) if unit == "dBA" else w)
    S.forall("levels", [sh[d] for d in free], ok)
    S.unchanged("stored spectrum", D.values, v0)
