"""C07: Fourier sums at arbitrary instants and frequencies."""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries

NU = "SciDataTool.Functions.nudft_functions:"
GA = ["SciDataTool.Methods.DataND.get_along:get_along", "SciDataTool.Functions.fft_functions:comp_fftn", NU + "nudftn"]


@contract("C07", [NU + "matrice_D", NU + "matrice_E"], [dict(which=w) for w in "DE"])
def kernels(S, which):
    n, m = S.int("n", 1, sample=(1, 4)), S.int("m", 1, sample=(1, 4))
    t, f = S.array("t", (n,)), S.array("f", (m,))
    t0, f0 = S.copy(t), S.copy(f)
    out = S.call(NU + "matrice_" + which, t, f)
    if not S.returns(out):
        return
    M = out.value
    if not S.ensure("matrix", M.ndim == 2):
        return
    shape = (m, n) if which == "D" else (n, m)
    S.ensure("shape", S.And(*[a == b for a, b in zip(M.shape, shape)]))
    S.forall("entries", [m, n], lambda k, j: S.eq(S.at(M, k, j) if which == "D" else S.at(M, j, k), S.expj((-2 if which == "D" else 2) * S.pi * S.at(f, k) * S.at(t, j))))
    S.unchanged("instants", t, t0)
    S.unchanged("frequencies", f, f0)


def freqs(S, name, m, fs):
    """frequencies of a one-sided spectrum, or with at least one negative one"""
    if fs == "one-sided":
        return S.array(name, (m,), where=lambda v: v >= 0, sample=lambda r: r.choice([0, 0.5, 1, 2, 3.25, 7]))
    f, w = S.array(name, (m,), sample=lambda r: r.choice([0, -0.5, 1, 2, -3.25, 7])), S.real(name + ".lowest", pos=True)
    q = S.int(name + ".neg", 0, sample=(0, 1))
    S.assume(q < m)
    S.witness(q)
    return S.build((m,), lambda i: S.ite(i == q, -1 * w, S.at(f, i)))


def dft(S, n, f, t, x):
    return S.sum(n, lambda j: x(j) * S.expj(-2 * S.pi * f * S.at(t, j)))


@contract("C07", [NU + "nudftn"], [dict(rank=r, axis=a, k=k, fs=fs) for r, a in AX for k in ("f", "c", "i") for fs in ("one-sided", "two-sided")])
def forward(S, rank, axis, k, fs):
    """(1/N) sum_n x(t_n) exp(-2 pi j f t_n), doubled for f != 0 when no frequency is negative"""
    sh = dims(S, rank)
    sh[axis] = S.int("N", 2, sample=(2, 4))
    n = sh[axis]
    m = S.int("m", 1, sample=(1, 4))
    x, t = S.array("x", sh, k), S.increasing("t", n)
    f = freqs(S, "f", m, fs)
    x0, t0, f0 = S.copy(x), S.copy(t), S.copy(f)
    out = S.call(NU + "nudftn", x, {axis: [t, f]})
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (m if d == axis else sh[d]) for d in range(rank)]))

    def val(*i):
        fi = S.at(f, i[axis])
        if fs == "one-sided":
            S.cases(fi == 0)
        s = dft(S, n, fi, t, lambda j: S.at(x0, *setix(i, axis, j)))
        return S.eq(S.at(y, *i), S.frac(s, n) * (S.ite(fi == 0, 1, 2) if fs == "one-sided" else 1))
    S.forall("Fourier sums", setix(sh, axis, m), val)
    S.unchanged("signal", x, x0)
    S.unchanged("instants", t, t0)
    S.unchanged("frequencies", f, f0)


@contract("C07", [NU + "nudftn"], [dict(rank=r, axes=a, fs=fs) for r, a in ((2, (0, 1)), (2, (1, 0)), (3, (0, 2))) for fs in ("one-sided", "two-sided")])
def forward_two(S, rank, axes, fs):
    """two axes are transformed one after the other"""
    sh = dims(S, rank)
    a, b = axes
    sh[a], sh[b] = S.int("N", 2, sample=(2, 4)), S.int("M", 2, sample=(2, 4))
    ma, mb = S.int("ma", 1, sample=(1, 3)), S.int("mb", 1, sample=(1, 3))
    x = S.array("x", sh, "c")
    ta, tb = S.increasing("ta", sh[a]), S.increasing("tb", sh[b])
    fa, fb = freqs(S, "fa", ma, "two-sided"), freqs(S, "fb", mb, fs)
    x0 = S.copy(x)
    out = S.call(NU + "nudftn", x, {a: [ta, fa], b: [tb, fb]})
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    osh = setix(setix(sh, a, ma), b, mb)
    S.ensure("shape", S.And(*[y.shape[d] == osh[d] for d in range(rank)]))

    def val(*i):
        f = S.at(fb, i[b])
        if fs == "one-sided":
            S.cases(f == 0)
        inner = lambda l: S.frac(dft(S, sh[a], S.at(fa, i[a]), ta, lambda j: S.at(x0, *setix(setix(i, a, j), b, l))), sh[a])
        s = dft(S, sh[b], f, tb, inner)
        return S.eq(S.at(y, *i), S.frac(s, sh[b]) * (S.ite(f == 0, 1, 2) if fs == "one-sided" else 1))
    S.forall("Fourier sums", osh, val)
    S.unchanged("signal", x, x0)


@contract("C07", [NU + "inudftn"], [dict(rank=r, axis=a, k=k) for r, a in AX for k in "fc"])
def inverse(S, rank, axis, k):
    """sum_k X(f_k) exp(2 pi j f_k t)"""
    sh = dims(S, rank)
    m = sh[axis]
    n = S.int("n", 1, sample=(1, 4))
    x, t, f = S.array("x", sh, k), S.array("t", (n,)), S.array("f", (m,))
    x0, t0, f0 = S.copy(x), S.copy(t), S.copy(f)
    out = S.call(NU + "inudftn", x, {axis: [t, f]})
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (n if d == axis else sh[d]) for d in range(rank)]))
    S.forall("sums", setix(sh, axis, n), lambda *i: S.eq(S.at(y, *i), S.sum(m, lambda k: S.at(x0, *setix(i, axis, k)) * S.expj(2 * S.pi * S.at(f, k) * S.at(t, i[axis])))))
    S.unchanged("spectrum", x, x0)
    S.unchanged("instants", t, t0)
    S.unchanged("frequencies", f, f0)


@contract("C07", [NU + "is_uniform"], [dict(ok=o) for o in ("uniform", "spread", "offset")])
def uniform(S, ok):
    """equally spaced samples that contain 0 are uniform; others are not"""
    n = S.int("n", 2 if ok != "spread" else 3, None if ok != "spread" else 1000, sample=(3, 8))
    if ok == "uniform":
        h = S.frac(S.int("h", 1, sample=(1, 9)), 4)
        q = S.int("q", 0, sample=(0, 7))
        S.assume(q < n)
        S.witness(q)
        t = S.build((n,), lambda i: h * (i - q))
    elif ok == "offset":
        h, a = S.real("h", pos=True), S.real("a", pos=True)
        t = S.build((n,), lambda i: a + h * i)
    else:
        # one sample is moved by a hundredth of the range
        h = S.real("h", lo=1, hi=100)
        q = S.int("q", 1, sample=(1, 3))
        S.assume(q < n - 1)
        S.witness(q)
        t = S.build((n,), lambda i: h * i + S.ite(i == q, S.frac(h, 2), 0))
    out = S.call(NU + "is_uniform", t)
    if S.returns(out):
        S.ensure("answer", out.value if ok == "uniform" else S.Not(out.value))


@contract("C07", GA, [dict(rank=r, axis=a, name=nm, real=rl, fs=fs) for r, a in ((1, 0), (2, 0), (2, 1)) for nm in ("time", "angle") for rl in (True, False) for fs in ("one-sided", "two-sided")], uses=USES_AXIS)
def requested(S, rank, axis, name, real, fs):
    """get_along('freqs=axis_data') along an axis whose samples are not equally spaced"""
    n, o = S.int("n", 3, sample=(3, 6)), S.int("o", 2, sample=(2, 3))
    t = S.increasing("t", n, sample=(0.5, 20))
    S.assume(S.at(t, 0) > 0)
    sh = [n] if rank == 1 else [o, o]
    sh[axis] = n
    x = S.array("x", sh, "f" if real else "c")
    D1 = S.cls("Data1D")
    T = D1(name=name, unit="s" if name == "time" else "rad", values=t)
    Z = D1(name="z", unit="m", values=S.array("z", (o,)))
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[T] if rank == 1 else ([T, Z] if axis == 0 else [Z, T]), values=x, is_real=real)
    m = S.int("m", 2, sample=(2, 4))
    f = freqs(S, "f", m, fs)
    f0, x0 = S.copy(f), S.copy(x)
    out_name = "freqs" if name == "time" else "wavenumber"
    args = [out_name + "=axis_data"] + (["z"] if rank == 2 else [])
    out = S.call(F.get_along, *args, axis_data={out_name: f})
    if not S.returns(out):
        return
    y, g = out.value["F"], out.value[out_name]
    if not S.ensure("number of axes", S.And(y.ndim == rank, g.ndim == 1)):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (m if d == axis else sh[d]) for d in range(rank)]))
    S.ensure("number of frequencies", g.shape[0] == m)
    S.forall("frequencies", [m], lambda i: S.eq(S.at(g, i), S.at(f0, i)))

    def val(*i):
        fi = S.at(f0, i[axis])
        if fs == "one-sided":
            S.cases(fi == 0)
        ff = fi if name == "time" else S.frac(fi, 2 * S.pi)
        s = dft(S, n, ff, t, lambda j: S.at(x0, *setix(i, axis, j)))
        return S.eq(S.at(y, *i), S.frac(s, n) * (S.ite(fi == 0, 1, 2) if fs == "one-sided" else 1))
    S.forall("Fourier sums", setix(sh, axis, m), val)
    S.unchanged("field", F.values, x0)
