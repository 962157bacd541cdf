"""C06: Fourier transform of uniformly sampled signals."""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries

FF = "SciDataTool.Functions.fft_functions:"
GA = ["SciDataTool.Methods.DataND.get_along:get_along", FF + "comp_fftn", FF + "comp_fft_freqs"]


@contract("C06", FF + "comp_fft_freqs", [dict(time=t, real=r) for t in (True, False) for r in (True, False)])
def freqs(S, time, real):
    """frequencies k/(N*dt), k = 0..N/2 (real time signals) or -N/2..(N-1)/2; integer wavenumbers"""
    n = S.int("n", 2, sample=(2, 9))
    t, a0, h = S.uniform("t", n)
    out = S.call(FF + "comp_fft_freqs", t, time, real)
    if not S.returns(out):
        return
    f = S.arr(out.value)
    half = S.div(n, 2)
    one = time and real
    S.ensure("number of harmonics", f.shape[0] == (half + 1 if one else n))
    S.forall("harmonics", [half + 1 if one else n], lambda k: S.eq(S.at(f, k), S.frac(k if one else k - half, n * h if time else 1)))


@contract("C06", FF + "comp_fft_freqs", [dict(time=t, real=r) for t in (True, False) for r in (True, False)])
def freqs_single(S, time, real):
    """a single sample only has the constant component"""
    out = S.call(FF + "comp_fft_freqs", S.array("t", (1,)), time, real)
    if S.returns(out):
        f = S.arr(out.value)
        S.ensure("one harmonic", f.shape[0] == 1)
        S.ensure("at 0", S.eq(S.at(f, 0), 0))


@contract("C06", FF + "comp_fft_time", [dict(angle=a, real=r) for a in (True, False) for r in (True, False)])
def times(S, angle, real):
    """samples over one period of the fundamental: 1/df seconds, 2*pi/dr radians"""
    n = S.int("n", 2, sample=(2, 9))
    df = S.real("df", pos=True)
    one = real and not angle
    half = S.div(n, 2)
    f = S.build((n,), lambda k: df * (k if one else k - half))
    out = S.call(FF + "comp_fft_time", f, angle, real)
    if not S.returns(out):
        return
    t = S.arr(out.value)
    m = 2 * (n - 1) if one else n
    S.ensure("number of samples", t.shape[0] == m)
    S.forall("samples", [m], lambda i: S.eq(S.at(t, i), S.frac((2 * S.pi if angle else 1) * i, m * df)))


def mk_axis(S, cls, name, n, h, sym, start=0):
    return axis1d(S, cls, name, "s" if name == "time" else "rad", n, start, h, sym)[0]


def unshift(S, i, half, n):
    """position of the harmonic number i - half in the unshifted spectrum of n terms: (i - half) mod n"""
    return S.ite(i < half, i - half + n, i - half)


def harm(S, n, k, x):
    """Fourier sum of harmonic k over n samples x(j)"""
    return S.sum(n, lambda j: x(j) * S.expj(-2 * S.pi * S.frac(k * j, n)))


@contract("C06", GA, [dict(cls=c, k=k, off=o) for c in ("Data1D", "linspace_end", "linspace_noend") for k in "fc" for o in (False, True)], uses=USES_AXIS)
def time_spectrum(S, cls, k, off):
    """get_along('freqs'): one-sided amplitudes for a real field, two-sided for a complex one"""
    n = S.int("n", 2, sample=(2, 8))
    # an axis that contains 0 as sample q: steps without rounding
    h = S.frac(S.int("h", 1, sample=(1, 9)), 4) if off else S.real("h", pos=True)
    q = S.int("q", 0, sample=(0, 7)) if off else 0
    if off:
        S.assume(q < n)
        S.witness(q)
    x = S.array("x", (n,), k)
    A = mk_axis(S, cls, "time", n, h, {}, start=0 - q * h)
    real = k == "f"
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A], values=x, is_real=real)
    out = S.call(F.get_along, "freqs")
    if not S.returns(out):
        return
    f, y = out.value["freqs"], out.value["F"]
    half = S.div(n, 2)
    m = half + 1 if real else n
    if not S.ensure("one axis", S.And(f.ndim == 1, y.ndim == 1)):
        return
    S.ensure("number of harmonics", S.And(f.shape[0] == m, y.shape[0] == m))
    S.forall("frequencies", [m], lambda i: S.eq(S.at(f, i), S.frac(i if real else i - half, n * h)))

    def amp(i):
        S.cases(i == 0 if real else i < half)
        r = S.ite(i == 0, 0, i) if real else unshift(S, i, half, n)
        s = harm(S, n, r, lambda j: S.at(x, j))
        return S.eq(S.at(y, i), S.frac(s * S.ite(i == 0, 1, 2) if real else s, n))
    S.forall("amplitudes", [m], amp)


@contract("C06", GA, [dict(cls=c, k=k, kind=s) for c in ("Data1D", "linspace_end") for k in "fc" for s in ("none", "period", "antiperiod")], uses=USES_AXIS)
def angle_spectrum(S, cls, k, kind):
    """get_along('wavenumber'): two-sided amplitudes; wavenumbers are multiples of the number of spatial periods"""
    n = S.int("n", 2, sample=(2, 7))
    h = S.real("h", pos=True)
    p = S.int("p", 1, sample=(1, 4)) if kind != "none" else 1
    x = S.array("x", (n,), k)
    A = mk_axis(S, cls, "angle", n, h, symd(kind, 2 * p if kind == "antiperiod" else p))
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A], values=x, is_real=k == "f")
    out = S.call(F.get_along, "wavenumber")
    if not S.returns(out):
        return
    f, y = out.value["wavenumber"], out.value["F"]
    m = 2 * n if kind == "antiperiod" else n
    half = S.div(m, 2)
    xx = (lambda j: S.ite(j >= n, lambda: -1 * S.at(x, j - n), lambda: S.at(x, j))) if kind == "antiperiod" else (lambda j: S.at(x, j))
    if not S.ensure("one axis", S.And(f.ndim == 1, y.ndim == 1)):
        return
    S.ensure("number of harmonics", S.And(f.shape[0] == m, y.shape[0] == m))
    S.forall("wavenumbers", [m], lambda i: S.eq(S.at(f, i), (i - half) * p))
    S.forall("amplitudes", [m], lambda i: S.eq(S.at(y, i), S.frac(harm(S, m, unshift(S, i, half, m), xx), m)), setup=lambda i: S.cases(i < half))


@contract("C06", GA, [dict(k=k, order=o) for k in "fc" for o in ("ta", "at")], uses=USES_AXIS)
def both_spectrum(S, k, order):
    """get_along('freqs', 'wavenumber') of a field along time and angle"""
    n, m = S.int("n", 2, sample=(2, 6)), S.int("m", 2, sample=(2, 6))
    h, g = S.real("h", pos=True), S.real("g", pos=True)
    T, A = mk_axis(S, "Data1D", "time", n, h, {}), mk_axis(S, "linspace_end", "angle", m, g, {})
    x = S.array("x", (n, m) if order == "ta" else (m, n), k)
    xt = (lambda i, j: S.at(x, i, j)) if order == "ta" else (lambda i, j: S.at(x, j, i))
    real = k == "f"
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[T, A] if order == "ta" else [A, T], values=x, is_real=real)
    out = S.call(F.get_along, "freqs", "wavenumber")
    if not S.returns(out):
        return
    y, f, w = out.value["F"], out.value["freqs"], out.value["wavenumber"]
    nf, hf, hw = (S.div(n, 2) + 1 if real else n), S.div(n, 2), S.div(m, 2)
    if not S.ensure("two axes", y.ndim == 2):
        return
    yt = (lambda i, j: S.at(y, i, j)) if order == "ta" else (lambda i, j: S.at(y, j, i))
    S.ensure("shape", S.And(*[a == b for a, b in zip(y.shape, (nf, m) if order == "ta" else (m, nf))]))
    S.ensure("lengths of the axes", S.And(f.shape[0] == nf, w.shape[0] == m))
    S.forall("frequencies", [nf], lambda i: S.eq(S.at(f, i), S.frac(i if real else i - hf, n * h)))
    S.forall("wavenumbers", [m], lambda i: S.eq(S.at(w, i), i - hw))

    def amp(i, j):
        S.cases(i == 0 if real else i < hf, j < hw)
        a, b = (S.ite(i == 0, 0, i) if real else unshift(S, i, hf, n)), unshift(S, j, hw, m)
        if real or order == "at":
            s = harm(S, m, b, lambda v: harm(S, n, a, lambda u: xt(u, v)))
        else:
            s = harm(S, n, a, lambda u: harm(S, m, b, lambda v: xt(u, v)))
        return S.eq(yt(i, j), S.frac(s * S.ite(i == 0, 1, 2) if real else s, n * m))
    S.forall("amplitudes", [nf, m], amp)


RT = ["SciDataTool.Methods.DataTime.time_to_freq:time_to_freq", "SciDataTool.Methods.DataFreq.freq_to_time:freq_to_time", FF + "comp_ifftn", FF + "comp_fft_time"] + GA


@contract("C06", RT, [dict(name=nm, k=k, how=w) for nm in ("time", "angle") for k in "fc" for w in ("object", "along")], uses=USES_AXIS)
def round_trip(S, name, k, how):
    """the inverse of the spectrum gives the samples and the axis back"""
    m = S.int("m", 1, sample=(1, 4))
    n = 2 * m
    if name == "angle":
        S.assume(m >= 2)
    h = S.real("h", pos=True) if name == "time" else S.frac(2 * S.pi, n)
    x = S.array("x", (n,), k)
    A = mk_axis(S, "Data1D", name, n, h, {})
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A], values=x, is_real=k == "f")
    out = S.call(F.time_to_freq)
    if not S.returns(out, "time_to_freq"):
        return
    G = out.value
    S.ensure("a spectrum", S.type_name(G) == "DataFreq")
    if how == "object":
        out = S.call(G.freq_to_time)
        if not S.returns(out, "freq_to_time"):
            return
        B = out.value
        S.ensure("a field", S.type_name(B) == "DataTime")
        y, t = B.values, B.axes[0].get_values()
    else:
        out = S.call(G.get_along, name)
        if not S.returns(out, "get_along"):
            return
        y, t = out.value["F"], out.value[name]
    if S.ensure("one axis", S.And(y.ndim == 1, t.ndim == 1)):
        S.ensure("number of samples", S.And(y.shape[0] == n, t.shape[0] == n))
        S.forall("axis", [n], lambda i: S.eq(S.at(t, i), h * i))
        S.forall("samples", [n], lambda i: S.eq(S.at(y, i), S.at(x, i)))


@contract("C06", RT, [dict(k=k, how=w) for k in "fc" for w in ("object", "along")], uses=USES_AXIS)
def round_trip_two(S, k, how):
    """the same along time and angle"""
    m, l = S.int("m", 1, sample=(1, 3)), S.int("l", 2, sample=(2, 5))
    n = 2 * m
    h = S.real("h", pos=True)
    g = S.frac(2 * S.pi, l)
    x = S.array("x", (n, l), k)
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[mk_axis(S, "Data1D", "time", n, h, {}), mk_axis(S, "Data1D", "angle", l, g, {})], values=x, is_real=k == "f")
    out = S.call(F.time_to_freq)
    if not S.returns(out, "time_to_freq"):
        return
    if how == "object":
        out = S.call(out.value.freq_to_time)
        if not S.returns(out, "freq_to_time"):
            return
        B = out.value
        y, t, a = B.values, B.axes[0].get_values(), B.axes[1].get_values()
    else:
        out = S.call(out.value.get_along, "time", "angle")
        if not S.returns(out, "get_along"):
            return
        y, t, a = out.value["F"], out.value["time"], out.value["angle"]
    if S.ensure("two axes", S.And(y.ndim == 2, t.ndim == 1, a.ndim == 1)):
        S.ensure("number of samples", S.And(y.shape[0] == n, y.shape[1] == l, t.shape[0] == n, a.shape[0] == l))
        S.forall("time axis", [n], lambda i: S.eq(S.at(t, i), h * i))
        S.forall("angle axis", [l], lambda i: S.eq(S.at(a, i), g * i))
        S.forall("samples", [n, l], lambda i, j: S.eq(S.at(y, i, j), S.at(x, i, j)))
