"""shared vocabulary of the contracts"""
AX = [(r, a) for r in (1, 2, 3) for a in range(r)]
SYM = "SciDataTool.Functions.symmetries"
USES_AXIS = [SYM + ":rebuild_symmetries_axis"]


def dims(S, rank, lo=1):
    return [S.int("n%d" % d, lo, sample=(max(lo, 1), 4)) for d in range(rank)]


def setix(i, d, v):
    i = list(i)
    i[d] = v
    return i


def dropix(i, d):
    i = list(i)
    del i[d]
    return i


def insix(i, d, v):
    i = list(i)
    i.insert(d, v)
    return i


def symd(kind, p):
    return {} if kind == "none" else {kind: p}


def nper(kind, p):
    return 1 if kind == "none" else p


def sign(S, kind, k):
    return S.ite(S.mod(k, 2) == 0, 1, -1) if kind == "antiperiod" else 1


def div_hints(S, k, n, j):
    S.hint(k, j)
    S.hint(S.div(k, 2), S.mod(k, 2) * n + j)


def is_copies(S, label, y, x0, axis, q, kind):
    """y holds q copies of x0 along axis (sign alternating for an anti-period)"""
    sh = list(x0.shape)
    rank = len(sh)
    n = sh[axis]
    if not S.ensure(label + ": number of axes", y.ndim == rank):
        return
    for d in range(rank):
        S.ensure(label + ": length of axis %d" % d, y.shape[d] == (q * n if d == axis else sh[d]))
    S.forall(label + ": copy k is the stored block with its sign", [q] + sh,
             lambda k, *i: S.eq(S.at(y, *setix(i, axis, k * n + i[axis])), sign(S, kind, k) * S.at(x0, *i)),
             setup=lambda k, *i: div_hints(S, k, n, i[axis]))


def axis1d(S, cls, name, unit, n, start, step, sym):
    """uniform axis object of either kind; returns (object, stored values)"""
    if cls == "Data1D":
        v = S.build((n,), lambda i: start + step * i)
        return S.cls("Data1D")(name=name, unit=unit, values=v, symmetries=sym), v
    v = S.build((n,), lambda i: start + step * i)
    if cls == "linspace_end":
        a = S.cls("DataLinspace")(name=name, unit=unit, initial=start, final=start + step * (n - 1), number=n, include_endpoint=True, symmetries=sym)
    elif cls == "linspace_noend":
        a = S.cls("DataLinspace")(name=name, unit=unit, initial=start, final=start + step * n, number=n, include_endpoint=False, symmetries=sym)
    elif cls == "linspace_step":
        a = S.cls("DataLinspace")(name=name, unit=unit, initial=start, final=start + step * (n - 1), step=step, include_endpoint=True, symmetries=sym)
    elif cls == "linspace_nofinal":
        a = S.cls("DataLinspace")(name=name, unit=unit, initial=start, step=step, number=n, include_endpoint=True, symmetries=sym)
    return a, v
