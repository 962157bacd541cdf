"""C04: reductions over an axis, with and without symmetry."""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries

SM = "SciDataTool.Functions.sum_mean:"
DI = "SciDataTool.Functions.derivation_integration:"
OPS = ("sum", "mean", "rms", "rss", "integrate", "max", "min")
SHAPES = [(1, 0), (2, 0), (2, 1), (3, 1)]


def full_sum(S, n, p, kind, f):
    """sum of the (anti)periodic extension of f over p parts of n samples, f(k, j) = value of sample j of part k"""
    if kind == "antiperiod":
        # an even number p = 2*r of half periods
        r = S.div(p, 2)
        two = lambda i: S.ite(i < n, f(0, S.ite(i < n, i, 0)), f(1, S.ite(i < n, 0, i - n)))
        g = lambda i: two(S.mod(i, 2 * n))
        S.lemma_split(n, n, two)
        S.lemma_linear(n, lambda j: two(n + j), -1, two)
        S.lemma_blocks(2 * n, r, g, two)
        return S.sum(r * (2 * n), g)
    g = lambda i: f(0, S.mod(i, n))
    S.lemma_blocks(n, p, g, lambda j: f(0, j))
    return S.sum(p * n, g)


def op_value(S, op, phys, n, p, kind, x, h):
    """value the reduction gives on the full signal; x(k, j): sample j of part k; uniform step h"""
    tot = p * n
    sq = lambda k, j: x(k, j) * x(k, j)

    def trap(f):
        # closed trapezoidal rule: the sample after the last one of a part is the first one of the next part
        nxt = lambda k, j: S.ite(j + 1 < n, f(k, S.ite(j + 1 < n, j + 1, 0)), f(k + 1, 0))
        return lambda k, j: S.frac(h * (f(k, j) + nxt(k, j)), 2)
    ev = "period" if kind == "antiperiod" else kind     # squares have the same sign on both half periods
    if op == "sum":
        return full_sum(S, n, p, kind, x)
    if op == "rss" and not phys:
        return S.sqrt(full_sum(S, n, p, ev, sq))
    if op == "integrate":
        return full_sum(S, n, p, kind, trap(x))
    if op == "rss":
        return S.sqrt(full_sum(S, n, p, ev, trap(sq)))
    if op == "mean":
        return S.frac(full_sum(S, n, p, kind, trap(x)), tot * h) if phys else S.frac(full_sum(S, n, p, kind, x), tot)
    if op == "rms":
        return S.sqrt(S.frac(full_sum(S, n, p, ev, trap(sq)), tot * h) if phys else S.frac(full_sum(S, n, p, ev, sq), tot))


def check_reduced(S, label, op, phys, y, x, axis, p, kind, h, keep):
    """y is the reduction of the full signal of which x is the stored part"""
    sh = list(x.shape)
    n = sh[axis]
    oth = dropix(sh, axis)

    def sample(i):
        return lambda k, j: sign(S, kind, k) * S.at(x, *insix(i, axis, j))

    def at(i):
        return S.at(y, *(insix(i, axis, 0) if keep else i)) if len(sh) - (not keep) else y
    if not S.ensure(label + ": number of axes", (y.ndim if hasattr(y, "ndim") else 0) == len(sh) - (not keep)):
        return
    if len(sh) - (not keep):
        S.ensure(label + ": shape of the other axes", S.And(True, *[y.shape[d if keep or d < axis else d - 1] == s for d, s in enumerate(sh) if d != axis]))
    if op in ("max", "min"):
        m = 2 * n if kind == "antiperiod" else n

        def ext(*i):
            f = sample(i)
            g = lambda j: f(S.div(j, n), S.mod(j, n))
            return S.eq(at(i), S.max_of(m, g) if op == "max" else S.min_of(m, g))
        S.forall(label + ": %simum of the stored part" % op, oth, ext)

        def bound(k, j, *i):
            v = sample(i)(k, j)
            at(i)
            S.at_index(j)
            S.at_index(n + j)
            return S.le(v, at(i)) if op == "max" else S.le(at(i), v)

        S.forall(label + ": bounds every sample of the full signal", [p, n] + oth, bound)
        return
    S.forall(label + ": equals the reduction of the full signal", oth, lambda *i: S.eq(at(i), op_value(S, op, phys, n, p, kind, sample(i), h)))


GA = ["SciDataTool.Methods.DataND.get_along:get_along", "SciDataTool.Methods.DataND._apply_operations:_apply_operations"]


def period(S, kind):
    if kind == "none":
        return 1
    p = S.int("p", 1, sample=(1, 4))
    return 2 * p if kind == "antiperiod" else p


@contract("C04", GA + [SM + f for f in ("my_sum", "my_mean", "root_mean_square", "root_sum_square")] + [DI + "integrate"],
          [dict(op=o, kind=k, name=nm, pos=q) for o in OPS for k in ("period", "antiperiod", "none") for nm, q in (("time", 0), ("angle", 1), ("X", 0), ("z", 1), ("Y", 1))
           if not (o == "integrate" and nm in "XY")], uses=USES_AXIS)
def along(S, op, kind, name, pos):
    """get_along(axis=op) returns the reduction of the full field"""
    n, m = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m) if pos == 0 else (m, n))
    p = period(S, kind)
    h = S.real("h", pos=True)
    cls = "Data1D" if pos == 0 else "linspace_end"
    A, av = axis1d(S, cls, name, "m", n, S.real("a0"), h, symd(kind, p))
    B, bv = axis1d(S, "Data1D", "freqs", "Hz", m, S.real("b0"), S.real("g", pos=True), {})
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A, B] if pos == 0 else [B, A], values=x)
    out = S.call(F.get_along, "%s=%s" % (name, op), "freqs")
    if not S.returns(out):
        return
    check_reduced(S, op, op, name in ("time", "angle", "z"), out.value["F"], x, pos, p, kind, h, False)


@contract("C04", GA, [dict(o1=a, o2=b, k1=k, k2=l) for a, b in (("max", "max"), ("sum", "sum"), ("max", "sum"), ("mean", "max"), ("min", "mean")) for k, l in (("none", "none"), ("period", "antiperiod"), ("antiperiod", "none"), ("none", "period"))
                     if "antiperiod" not in (k, l) or (a, b, k) in (("sum", "sum", "period"), ("sum", "sum", "antiperiod"), ("max", "sum", "period"), ("max", "sum", "antiperiod"), ("mean", "max", "antiperiod"), ("min", "mean", "period"), ("min", "mean", "antiperiod"))], uses=USES_AXIS)
def along_two(S, o1, o2, k1, k2):
    """two reduced axes: each reduction acts on its own axis"""
    n, m, l = S.int("n", 2, sample=(2, 4)), S.int("m", 2, sample=(2, 4)), S.int("l", 2, sample=(2, 4))
    x = S.array("x", (n, m, l))
    P = [2 * S.int("p%d" % i, 1, sample=(1, 3)) if k == "antiperiod" else S.int("p%d" % i, 1, sample=(1, 3)) if k == "period" else 1 for i, k in enumerate((k1, k2))]
    A, av = axis1d(S, "Data1D", "X", "m", n, S.real("a0"), S.real("h", pos=True), symd(k1, P[0]))
    B, bv = axis1d(S, "linspace_end", "Y", "m", m, S.real("b0"), S.real("g", pos=True), symd(k2, P[1]))
    C, cv = axis1d(S, "Data1D", "Z", "m", l, S.real("c0"), S.real("f", pos=True), {})
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A, B, C], values=x)
    out = S.call(F.get_along, "X=" + o1, "Y=" + o2, "Z")
    if not S.returns(out):
        return
    y = out.value["F"]
    if not S.ensure("one axis is left", y.ndim == 1):
        return
    S.ensure("length of the axis left", y.shape[0] == l)

    def red(op, kind, p, n, f):
        g = lambda i: S.ite(i < n, f(S.ite(i < n, i, 0)), -1 * f(S.ite(i < n, 0, i - n)))
        if op == "max":
            return S.max_of(2 * n, g) if kind == "antiperiod" else S.max_of(n, f)
        if op == "min":
            return S.min_of(2 * n, g) if kind == "antiperiod" else S.min_of(n, f)
        if kind == "antiperiod":
            return 0
        t = p * S.sum(n, f)
        return S.frac(S.sum(n, f), n) if op == "mean" else t
    S.forall("first axis reduced, then the second", [l], lambda c: S.eq(S.at(y, c), red(o2, k2, P[1], m, lambda b: red(o1, k1, P[0], n, lambda a: S.at(x, a, b, c)))))


@contract("C04", [SM + "my_sum", SM + "root_sum_square", SM + "my_mean", SM + "root_mean_square", DI + "integrate"],
          [dict(op=o, rank=r, axis=a, kind=k, phys=ph, c=c) for o in ("sum", "mean", "rms", "rss", "integrate") for r, a in SHAPES for k in ("period", "antiperiod", "none")
           for ph in (True, False) for c in ("fc" if o in ("sum", "mean", "integrate") else "f") if (ph or o != "integrate") and (ph is False or o != "sum") and not (c == "c" and ((r, a) != (2, 1) or ph))])
def functions(S, op, rank, axis, kind, phys, c):
    """the reduction functions on any shape and axis; Nper periods, uniform axis"""
    sh = dims(S, rank)
    n = sh[axis]
    if phys:
        S.assume(n >= 2)
    x = S.array("x", sh, c)
    x0 = S.copy(x)
    p = period(S, kind)
    av, a0, h = S.uniform("ax", n)
    aper = kind == "antiperiod"
    f = {"sum": lambda: S.call(SM + "my_sum", x, axis, p, aper, "T", False),
         "rss": lambda: S.call(SM + "root_sum_square", x, av, axis, p, aper, phys, "T", False),
         "mean": lambda: S.call(SM + "my_mean", x, av, axis, p, aper, phys, False),
         "rms": lambda: S.call(SM + "root_mean_square", x, av, axis, p, aper, phys, False),
         "integrate": lambda: S.call(DI + "integrate", x, av, axis, p, aper, True)}
    out = f[op]()
    if not S.returns(out):
        return
    check_reduced(S, op, op, phys, out.value, x0, axis, p, kind, h, True)
    S.unchanged("input not modified", x, x0)


@contract("C04", [DI + "integrate", SM + "my_mean", SM + "root_mean_square", SM + "root_sum_square"], [dict(op=o, rank=r, axis=a) for o in ("integrate", "mean", "rms", "rss") for r, a in SHAPES])
def open_axis(S, op, rank, axis):
    """without periodicity (Nper None): plain trapezoidal rule on the given samples, any increasing axis"""
    sh = dims(S, rank)
    n = sh[axis]
    S.assume(n >= 2)
    x = S.array("x", sh)
    av = S.increasing("ax", n)
    f = {"rss": lambda: S.call(SM + "root_sum_square", x, av, axis, None, None, True, "T", False),
         "mean": lambda: S.call(SM + "my_mean", x, av, axis, None, None, True, False),
         "rms": lambda: S.call(SM + "root_mean_square", x, av, axis, None, None, True, False),
         "integrate": lambda: S.call(DI + "integrate", x, av, axis, None, None, True)}
    out = f[op]()
    if not S.returns(out):
        return
    y = out.value
    S.ensure("shape", S.And(y.ndim == rank, *[y.shape[d] == (1 if d == axis else s) for d, s in enumerate(sh)]))

    def val(*i):
        g = lambda j: S.at(x, *insix(i, axis, j))
        if op in ("rms", "rss"):
            f0 = g
            g = lambda j: f0(j) * f0(j)
        t = S.sum(n - 1, lambda j: S.frac((S.at(av, j + 1) - S.at(av, j)) * (g(j) + g(j + 1)), 2))
        if op in ("mean", "rms"):
            t = S.frac(t, S.at(av, n - 1) - S.at(av, 0))
        return S.sqrt(t) if op in ("rms", "rss") else t
    S.forall("trapezoidal rule", dropix(sh, axis), lambda *i: S.eq(S.at(y, *insix(i, axis, 0)), val(*i)))


@contract("C04", [SM + "my_sum", SM + "root_sum_square"], [dict(op=o, rank=r, axis=a, per=q, fft=f, unit=u) for o in ("sum", "rss") for r, a in ((1, 0), (2, 0), (2, 1)) for q in (True, False) for f in (True, False) for u in ("dB", "dBA")])
def levels(S, op, rank, axis, per, fft, unit):
    """levels in dB are added as energies; a spectrum is not counted once per period"""
    sh = dims(S, rank)
    n = sh[axis]
    x = S.array("x", sh, sample=lambda r: r.uniform(0, 60))
    x0 = S.copy(x)
    p = S.int("p", 1, sample=(1, 5)) if per else None
    av, a0, h = S.uniform("ax", n)
    out = S.call(SM + "my_sum", x, axis, p, False, unit, fft) if op == "sum" else S.call(SM + "root_sum_square", x, av, axis, p, False, not fft, unit, fft)
    if not S.returns(out):
        return
    y = out.value
    if not S.ensure("number of axes", y.ndim == rank):
        return
    S.ensure("shape", S.And(*[y.shape[d] == (1 if d == axis else s) for d, s in enumerate(sh)]))

    def val(*i):
        e = lambda j: S.pow10(S.frac(S.at(x0, *insix(i, axis, j)), 10))
        S.lemma_positive(n, e)
        q = p if per and not fft else 1
        S.lemma_log(q, S.sum(n, e))
        return S.eq(S.at(y, *insix(i, axis, 0)), 10 * S.log10(q * S.sum(n, e)))
    S.forall("level of the summed energies", dropix(sh, axis), val)
    S.unchanged("input not modified", x, x0)


@contract("C04", [SM + "my_sum", SM + "my_mean", SM + "root_mean_square", SM + "root_sum_square"], [dict(op=o, rank=r, axis=a) for o in ("sum", "mean", "rms", "rss") for r, a in ((1, 0), (2, 1))])
def spectra(S, op, rank, axis):
    """along a frequency or wavenumber axis the stored harmonics are reduced once, whatever the number of periods"""
    sh = dims(S, rank)
    n = sh[axis]
    x = S.array("x", sh)
    x0 = S.copy(x)
    p = S.int("p", 1, sample=(1, 4))
    av, a0, h = S.uniform("ax", n)
    out = {"sum": lambda: S.call(SM + "my_sum", x, axis, p, False, "T", True),
           "rss": lambda: S.call(SM + "root_sum_square", x, av, axis, p, False, False, "T", True),
           "mean": lambda: S.call(SM + "my_mean", x, av, axis, p, False, False, True),
           "rms": lambda: S.call(SM + "root_mean_square", x, av, axis, p, False, False, True)}[op]()
    if not S.returns(out):
        return
    check_reduced(S, op, op, False, out.value, x0, axis, 1, "none", h, True)
