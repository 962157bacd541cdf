"""C14: sum and convolution of spectra"""
from dv.spec import contract
from contracts.lib import *
import contracts.c13_sets

UNIQUE = ["SciDataTool.Functions.set_routines:unique_tol"]

SC = "SciDataTool.Functions.sum_convolution:"
FREQS = [0, 1, 2, 2.5, 3, 4, 5, 6, 10, 12.5, 50]


KIND = [dict(k="c"), dict(k="f")]


def both(S, n, m, x, y):
    """first list followed by the second one"""
    return lambda j: S.ite(j < n, S.at(x, S.ite(j < n, j, 0)), S.at(y, S.ite(j < n, 0, j - n)))


@contract("C14", [SC + "get_sum_indices"], uses=UNIQUE)
def sum_indices(S):
    """frequencies of the sum and place of each input frequency"""
    n, m = S.int("n", 1, sample=(1, 5)), S.int("m", 1, sample=(1, 5))
    x, y = S.array("f1", (n,), sample=lambda r: r.choice(FREQS)), S.array("f2", (m,), sample=lambda r: r.choice(FREQS))
    tol = S.real("tol", pos=True, sample=[1e-4, 1e-2, 0.5, 1])
    x0, y0 = S.copy(x), S.copy(y)
    f = both(S, n, m, x0, y0)
    out = S.call(SC + "get_sum_indices", x, y, tol)
    if not S.returns(out):
        return
    un, inv = out.value
    p = un.shape[0]
    S.ensure("number of frequencies", S.And(p >= 1, p <= n + m, inv.shape[0] == n + m))
    S.forall("increasing frequencies", [p, p], lambda k, l: S.implies(k < l, S.lt(S.at(un, k), S.at(un, l))))
    S.forall("each input frequency is found at its place", [n + m], lambda j: S.And(S.at(inv, j) >= 0, S.at(inv, j) < p, S.le(S.abs(S.at(un, S.at(inv, j)) - f(j)), tol)))
    S.forall("equal frequencies have one place", [n + m, n + m], lambda i, j: S.implies(f(i) == f(j), S.at(inv, i) == S.at(inv, j)))
    S.forall("frequencies further apart than the tolerance have different places", [n + m, n + m], lambda i, j: S.implies(S.abs(f(i) - f(j)) > tol, S.Not(S.at(inv, i) == S.at(inv, j))))
    S.unchanged("first frequencies", x, x0)
    S.unchanged("second frequencies", y, y0)


@contract("C14", [SC + "get_sum_amplitudes"], KIND)
def sum_amplitudes(S, k):
    """at each place the sum of the amplitudes that go there"""
    n, m = S.int("n", 1, sample=(1, 5)), S.int("m", 1, sample=(1, 5))
    p = S.int("p", 1, sample=(1, 4))
    a, b = S.array("a", (n,), k), S.array("b", (m,), k)
    inv = S.array("inv", (n + m,), "i", where=lambda v: S.And(v >= 0, v < p), sample=lambda r: 0)
    last = S.int("last", 0, sample=(0, 0))
    S.assume(S.And(last < n + m, S.at(inv, last) == p - 1))
    a0, b0 = S.copy(a), S.copy(b)
    amp = both(S, n, m, a0, b0)
    out = S.call(SC + "get_sum_amplitudes", a, b, inv)
    if not S.returns(out):
        return
    got = out.value
    if S.symbolic:
        S.at_index(last)
    if not S.ensure("number of amplitudes", got.shape[0] == p):
        return
    for part, g in ((("real part", S.re), ("imaginary part", S.im)) if k == "c" else (("amplitude", S.num),)):
        S.forall(part, [p], lambda q: S.eq(g(S.at(got, q)), S.sum(n + m, lambda j: S.ite(S.at(inv, j) == q, g(amp(j)), 0))))
    S.unchanged("first amplitudes", a, a0)
    S.unchanged("second amplitudes", b, b0)


DF = "SciDataTool.Methods.DataFreq."


def spectrum(S, name, f, k):
    v = S.array("v" + name, f.shape, k)
    D = S.cls("DataFreq")(name="D" + name, unit="T", symbol="X" + name, axes=[S.cls("Data1D")(name="freqs", unit="Hz", values=f)], values=v)
    return D, v


@contract("C14", [DF + "sum:sum", SC + "get_sum_indices", SC + "get_sum_amplitudes"], [dict(k=k, meta=m) for k in ("c", "f") for m in (False, True)], uses=UNIQUE, budget=90)
def sum_spectra(S, k, meta):
    """sum of two spectra: every frequency once, amplitudes added"""
    n, m = S.int("n", 1, sample=(1, 5)), S.int("m", 1, sample=(1, 5))
    tol = S.real("tol", pos=True, sample=[1e-4, 1e-2, 0.25])
    f1, f2 = S.separated([("f1", n), ("f2", m)], tol, lo=0, sample=lambda r: r.choice(FREQS))
    D1, v1 = spectrum(S, "1", f1, k)
    D2, v2 = spectrum(S, "2", f2, k)
    f10, f20, v10, v20 = S.copy(f1), S.copy(f2), S.copy(v1), S.copy(v2)
    kw = dict(name="total", symbol="Y", unit="A") if meta else {}
    out = S.call(D1.sum, D2, tol_freq=tol, **kw)
    if not S.returns(out):
        return
    R = out.value
    S.ensure("a spectrum", S.type_name(R) == "DataFreq")
    S.ensure("name, symbol and unit", (R.name, R.symbol, R.unit) == (("total", "Y", "A") if meta else ("D1", "X1", "T")))
    S.ensure("one frequency axis", len(R.axes) == 1 and R.axes[0].name == "freqs" and R.axes[0].unit == "Hz")
    un, got = R.axes[0].values, R.values
    p = un.shape[0]
    f, amp = both(S, n, m, f10, f20), both(S, n, m, v10, v20)
    S.ensure("number of frequencies", S.And(p >= 1, p <= n + m))
    if not S.ensure("one amplitude per frequency", got.shape[0] == p):
        return
    S.forall("increasing frequencies", [p, p], lambda a, b: S.implies(a < b, S.lt(S.at(un, a), S.at(un, b))))
    if S.symbolic:
        S.forall("every input frequency is present", [n + m], lambda j: S.And(S.class_of(j) >= 0, S.class_of(j) < p, S.eq(S.at(un, S.class_of(j)), f(j))))
    else:
        S.forall("every input frequency is present", [n + m], lambda j: any(abs(u - f(j)) <= tol for u in S.tolist(un)))
    same = (lambda a, b: a == b) if S.symbolic else (lambda a, b: abs(a - b) <= tol)
    for part, g in ((("real part", S.re), ("imaginary part", S.im)) if k == "c" else (("amplitude", S.num),)):
        S.forall(part, [p], lambda q: S.eq(g(S.at(got, q)), S.sum(n + m, lambda j: S.ite(same(f(j), S.at(un, q)), g(amp(j)), 0))))
    S.unchanged("first spectrum", D1.values, v10)
    S.unchanged("second spectrum", D2.values, v20)
    S.unchanged("first frequencies", D1.axes[0].values, f10)
    S.unchanged("second frequencies", D2.axes[0].values, f20)


def signal(f, a, t):
    import cmath
    return sum((v * cmath.exp(2j * cmath.pi * w * t)).real for w, v in zip(f, a))


@contract("C14", [DF + "conv:conv", SC + "get_conv_indices", SC + "get_conv_amplitudes"], [dict(k=k, window=w) for k in ("c", "f") for w in ("none", "max", "min", "both")], bounded=True, conc=80)
def product(S, k, window):
    """convolution: the spectrum of the product of the signals"""
    n, m = S.int("n", 1, sample=(1, 5)), S.int("m", 1, sample=(1, 5))
    step, tol = S.real("step", pos=True, sample=[0.5, 1, 2.5]), S.real("tol", pos=True, sample=[1e-4, 1e-2, 0.2])
    S.assume(step > 2 * tol)
    q1, q2 = (S.array(name, (d,), "i", where=lambda v: v >= 0, sample=lambda r: r.choice([0, 0, 1, 2, 3, 4, 5, 7, 10, 40])) for name, d in (("q1", n), ("q2", m)))
    f1, f2 = (S.build(q.shape, lambda i: S.at(q, i) * step) for q in (q1, q2))
    D1, v1 = spectrum(S, "1", f1, k)
    D2, v2 = spectrum(S, "2", f2, k)
    f10, f20, v10, v20 = S.copy(f1), S.copy(f2), S.copy(v1), S.copy(v2)
    kw = dict(tol_freq=tol)
    lo, hi = S.real("lo", 0, sample=[0, 0, 0.25, 1.25, 3.1]), S.real("hi", pos=True, sample=[2.1, 4.6, 9.9, 30])
    if window in ("max", "both"):
        kw["f_max"] = hi
    if window in ("min", "both"):
        kw["f_min"] = lo
    inside = lambda f: not ("f_max" in kw and f > hi) and not ("f_min" in kw and f < lo)
    terms = {}
    for a, x in zip(S.tolist(f10), S.tolist(v10)):
        for b, y in zip(S.tolist(f20), S.tolist(v20)):
            x, y = complex(x), complex(y)
            for s, u, w in ((a + b, x, y), (a - b, x, y.conjugate()), (b - a, x.conjugate(), y), (-a - b, x.conjugate(), y.conjugate())):
                q = round(s / step)
                terms[q] = terms.get(q, 0) + u * w / 4
    keep = {q: (v if q == 0 else 2 * v) for q, v in terms.items() if q >= 0 and inside(q * step)}
    edge = any("f_max" in kw and abs(q * step - hi) < 1e-6 or "f_min" in kw and lo and abs(q * step - lo) < 1e-6 for q in terms)
    S.assume(not edge and len(keep) > 0)
    out = S.call(D1.conv, D2, **kw)
    if not S.returns(out):
        return
    R = out.value
    S.ensure("a spectrum", S.type_name(R) == "DataFreq")
    un, got = S.tolist(R.axes[0].values), S.tolist(R.values)
    S.ensure("frequencies", len(un) == len(keep) and all(abs(u - q * step) < 1e-6 for u, q in zip(un, sorted(keep))))
    if not S.ensure("one amplitude per frequency", len(got) == len(un)):
        return
    S.ensure("amplitudes", all(S.eq(g, keep[q]) for g, q in zip(got, sorted(keep))))
    if window == "none":
        for t in (0, 0.1, 0.37, 1.9):
            S.ensure("product of the signals", S.eq(signal(un, got, t), signal(S.tolist(f10), S.tolist(v10), t) * signal(S.tolist(f20), S.tolist(v20), t)))
    S.unchanged("first spectrum", D1.values, v10)
    S.unchanged("second spectrum", D2.values, v20)
    S.unchanged("first frequencies", D1.axes[0].values, f10)
    S.unchanged("second frequencies", D2.axes[0].values, f20)
