"""C05: derivation, anti-derivation and local integration."""
from dv.spec import contract
from contracts.lib import *
import contracts.c02_symmetries

DI = "SciDataTool.Functions.derivation_integration:"
SHAPES = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]
GA = ["SciDataTool.Methods.DataND.get_along:get_along", "SciDataTool.Methods.DataND._apply_operations:_apply_operations"]


def same_shape(S, y, sh):
    ok = S.ensure("number of axes is unchanged", y.ndim == len(sh))
    return ok and S.ensure("shape is unchanged", S.And(True, *[a == b for a, b in zip(y.shape, sh)]))


def ext(S, f, n, sg):
    """sample j (-1 <= j <= n) of the (anti)periodic extension of f"""
    return lambda j: S.ite(j < 0, sg * f(S.ite(j < 0, n - 1, 0)), S.ite(j < n, f(S.ite(S.And(j >= 0, j < n), j, 0)), sg * f(0)))


def primitive(S, f, n, sg, h):
    """zero-mean cumulative trapezoidal primitive of the (anti)periodic extension on a step h"""
    e = ext(S, f, n, sg)
    cum = lambda j: S.sum(j, lambda t: S.frac(h * (e(t + 1) + e(t)), 2))
    mean = S.frac(S.sum(n, cum), n) if sg == 1 else S.frac(cum(n), 2)
    return lambda j: cum(j) - mean


def check_derived(S, op, y, x, axis, sg, h):
    sh = list(x.shape)
    n = sh[axis]
    if not same_shape(S, y, sh):
        return
    line = lambda i: (lambda j: S.at(x, *setix(i, axis, j)))

    if op == "derivate":
        def fn(*i):
            e = ext(S, line(i), n, sg)
            return S.eq(S.at(y, *i) * (2 * h), e(i[axis] + 1) - e(i[axis] - 1))
        S.forall("central difference of the extension", sh, fn, setup=lambda *i: S.cases(i[axis] == 0, i[axis] == n - 1))
    elif op == "antiderivate":
        S.forall("centred cumulative trapezoidal primitive", sh, lambda *i: S.eq(S.at(y, *i), primitive(S, line(i), n, sg, h)(i[axis])))
    else:
        def fn(*i):
            f, j = line(i), i[axis]
            left = S.ite(j > 0, f(S.ite(j > 0, j - 1, 0)) + f(j), 0)
            right = S.ite(j < n - 1, f(S.ite(j < n - 1, j + 1, 0)) + f(j), 0)
            return S.eq(4 * S.at(y, *i), h * (left + right))
        S.forall("half of each neighbouring trapezoid", sh, fn)


def local_invariant(S, x, axis, h):
    """running value of the local integral after k segments: the halves of the first k trapezoids"""
    sh = list(x.shape)
    sh[0], sh[axis] = sh[axis], sh[0]

    def state(k):
        def el(*i):
            q = list(i)
            q[0], q[axis] = q[axis], q[0]
            j = i[0]
            seg = lambda t: S.frac(h * (S.at(x, *setix(q, axis, t)) + S.at(x, *setix(q, axis, t + 1))), 4)
            a = S.ite(S.And(j > 0, j <= k), seg(S.ite(j > 0, j - 1, 0)), 0)
            b = S.ite(j < k, seg(S.ite(j < k, j, 0)), 0)
            return a + b
        return S.build(sh, el)
    S.invariant(lambda loop: state)


@contract("C05", [DI + f for f in ("derivate", "antiderivate", "integrate_local")],
          [dict(op=o, rank=r, axis=a, aper=ap) for o in ("derivate", "antiderivate", "integrate_local") for r, a in SHAPES for ap in (False, True)])
def periodic_axis(S, op, rank, axis, aper):
    sh = dims(S, rank)
    n = sh[axis]
    S.assume(n >= 2)
    x = S.array("x", sh)
    x0 = S.copy(x)
    av, a0, h = S.uniform("ax", n)
    av0 = S.copy(av)
    p = S.int("p", 1, sample=(1, 4))
    if op == "integrate_local":
        local_invariant(S, x, axis, h)
    out = S.call(DI + op, x, av, axis, p, aper, True, False)
    if not S.returns(out):
        return
    check_derived(S, op, out.value, x0, axis, -1 if aper else 1, h)
    S.unchanged("field not modified", x, x0)
    S.unchanged("axis not modified", av, av0)


@contract("C05", GA + [DI + f for f in ("derivate", "antiderivate", "integrate_local")],
          [dict(op=o, kind=k, name=nm, pos=q) for o in ("derivate", "antiderivate", "integrate_local") for k in ("period", "antiperiod", "none") for nm, q in (("time", 0), ("angle", 1), ("z", 0)) if (o, nm) != ("integrate_local", "z")], uses=USES_AXIS)
def along(S, op, kind, name, pos):
    """get_along(axis=op) gives the operator on the stored part of the field, on the stored axis"""
    n, m = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m) if pos == 0 else (m, n))
    x0 = S.copy(x)
    p = 1 if kind == "none" else S.int("p", 1, sample=(1, 4))
    h = S.real("h", pos=True)
    A, av = axis1d(S, "Data1D" if pos == 0 else "linspace_end", name, "m", n, S.real("a0"), h, symd(kind, 2 * p if kind == "antiperiod" else p))
    B, bv = axis1d(S, "Data1D", "Y", "m", m, S.real("b0"), S.real("g", pos=True), {})
    F = S.cls("DataTime")(name="F", unit="T", symbol="F", axes=[A, B] if pos == 0 else [B, A], values=x)
    if op == "integrate_local":
        local_invariant(S, x, pos, h)
    out = S.call(F.get_along, "%s=%s" % (name, op), "Y")
    if not S.returns(out):
        return
    check_derived(S, op, out.value["F"], x0, pos, -1 if kind == "antiperiod" else 1, h)
    S.same("axis of the result", out.value[name], av)


@contract("C05", [DI + "derivate", DI + "antiderivate"], [dict(op=o, rank=r, axis=a, c=c) for o in ("derivate", "antiderivate", "both") for r, a in SHAPES for c in "fc"])
def frequency_axis(S, op, rank, axis, c):
    """multiply / divide by 2*pi*j*f; the one undoes the other"""
    sh = dims(S, rank)
    x = S.array("x", sh, c)
    f = S.array("f", (sh[axis],), where=lambda v: v != 0)
    call = lambda o, v: S.call(DI + o, v, f, axis, 1, False, False, True)
    out = call("derivate" if op == "both" else op, x)
    if not S.returns(out):
        return
    y = out.value
    if op == "both":
        out = call("antiderivate", y)
        if S.returns(out):
            S.same("anti-derivation undoes derivation", out.value, x)
        return
    if not same_shape(S, y, sh):
        return

    def fn(*i):
        w = 2 * S.pi * S.at(f, i[axis])
        v, u = S.at(y, *i), S.at(x, *i)
        if op == "antiderivate":
            v, u = u, v
        return S.And(S.eq(S.re(v), -1 * w * S.im(u)), S.eq(S.im(v), w * S.re(u)))
    S.forall("factor 2*pi*j*f", sh, fn)


@contract("C05", GA + [DI + "derivate", DI + "antiderivate"], [dict(op=o, pos=q) for o in ("derivate", "antiderivate") for q in (0, 1)])
def along_freqs(S, op, pos):
    n, m = S.int("n", 2, sample=(2, 5)), S.int("m", 2, sample=(2, 4))
    x = S.array("x", (n, m) if pos == 0 else (m, n), "c")
    f = S.array("f", (n,), where=lambda v: v != 0)
    A = S.cls("Data1D")(name="freqs", unit="Hz", values=f)
    B, bv = axis1d(S, "Data1D", "angle", "rad", m, S.real("b0"), S.real("g", pos=True), {})
    F = S.cls("DataFreq")(name="F", unit="T", symbol="F", axes=[A, B] if pos == 0 else [B, A], values=x)
    out = S.call(F.get_along, "freqs=" + op, "angle")
    if not S.returns(out):
        return
    y = out.value["F"]
    if not same_shape(S, y, list(x.shape)):
        return

    def fn(*i):
        w = 2 * S.pi * S.at(f, i[pos])
        v, u = S.at(y, *i), S.at(x, *i)
        if op == "antiderivate":
            v, u = u, v
        return S.And(S.eq(S.re(v), -1 * w * S.im(u)), S.eq(S.im(v), w * S.re(u)))
    S.forall("factor 2*pi*j*f", list(x.shape), fn)


@contract("C05", [DI + "derivate", DI + "antiderivate"], [dict(op=o, rank=r, axis=a) for o in ("derivate", "antiderivate") for r, a in SHAPES])
def open_axis(S, op, rank, axis):
    """no periodicity: every sample keeps its place; differences and trapezoids of the given samples"""
    sh = dims(S, rank)
    n = sh[axis]
    S.assume(n >= 2)
    x = S.array("x", sh)
    av, a0, h = S.uniform("ax", n)
    out = S.call(DI + op, x, av, axis, None, None, True, False)
    if not S.returns(out):
        return
    y = out.value
    if not same_shape(S, y, sh):
        return

    def fn(*i):
        f, j = (lambda t: S.at(x, *setix(i, axis, t))), i[axis]
        v = S.at(y, *i)
        if op == "derivate":
            lo, hi = S.ite(j > 0, j - 1, 0), S.ite(j < n - 1, j + 1, j)
            return S.eq(v * h * (hi - lo), f(hi) - f(lo))
        cum = lambda t: S.sum(t, lambda q: S.frac(h * (f(q + 1) + f(q)), 2))
        return S.eq(v, cum(j) - S.frac(S.sum(n, cum), n))
    S.forall("differences and trapezoids of the given samples", sh, fn)


@contract("C05", DI + "integrate_local_pattern", [dict(rank=r, axis=a) for r, a in SHAPES], bounded=True)
def pattern_segments(S, rank, axis):
    """local integration along z: trapezoid and middle of every segment of non-zero length"""
    sh = dims(S, rank)
    n = sh[axis]
    S.assume(n >= 2)
    x = S.array("x", sh)
    av = S.increasing("ax", n, strict=False)
    S.assume(S.at(av, 0) < S.at(av, n - 1))
    out = S.call(DI + "integrate_local_pattern", x, av, axis)
    if not S.returns(out):
        return
    y, mid = out.value
    seg = [j for j in range(n - 1) if S.at(av, j) != S.at(av, j + 1)]
    if not S.ensure("one value per segment", y.ndim == rank and [int(s) for s in y.shape] == [len(seg) if d == axis else s for d, s in enumerate(sh)]):
        return
    S.forall("trapezoid", list(y.shape), lambda *i: S.eq(2 * S.at(y, *i), (S.at(av, seg[i[axis]] + 1) - S.at(av, seg[i[axis]])) * (S.at(x, *setix(i, axis, seg[i[axis]])) + S.at(x, *setix(i, axis, seg[i[axis]] + 1)))))
    S.forall("middle", [len(seg)], lambda k: S.eq(2 * S.at(mid, k), S.at(av, seg[k]) + S.at(av, seg[k] + 1)))
