"""C15: change of referential"""
from dv.spec import contract
from contracts.lib import *

CR = "SciDataTool.Functions.change_referential:"
DN = "SciDataTool.Methods.DataND.change_referential:change_referential"
VF = "SciDataTool.Methods.VectorField.change_referential:change_referential"
SPEEDS = [0, 60, -60, 30, 120, -120, 1000, 37.5]


def moved(S, f, r, speed, x):
    """harmonics in the new referential: {(frequency number, wavenumber): amplitude}, sorted frequencies"""
    f, r = S.tolist(f), S.tolist(r)
    new = sorted(fi + rj * speed / 60 for fi in f for rj in r)
    un = [v for k, v in enumerate(new) if k == 0 or v - new[k - 1] > 1e-7]
    place = lambda v: min(range(len(un)), key=lambda k: abs(un[k] - v))
    out = [[0] * len(r) for _ in un]
    for i, fi in enumerate(f):
        for j, rj in enumerate(r):
            k = place(fi + rj * speed / 60)
            out[k][j] = out[k][j] + x[i][j]
    return un, out


def near(S, got, exp):
    return all(S.eq(a, b) for x, y in zip(got, exp) for a, b in zip(x, y))


@contract("C15", [CR + "change_referential_spectrum"], [dict(k=k, slices=s, atol=a, again=g) for k in ("c", "f") for s in (0, 1, 3) for a in (0, 1e-9) for g in (False, True) if not (g and a)], bounded=True)
def spectrum(S, k, slices, atol, again):
    """harmonics moved to f + r*speed/60 and added there"""
    n, m = S.int("n", 1, sample=(1, 5)), S.int("m", 1, sample=(1, 5))
    f = S.array("f", (n,), sample=lambda r: r.choice([-20, -10, -2.5, 0, 1, 2, 5, 10, 50]))
    w = S.array("w", (m,), "i", sample=lambda r: r.randint(-6, 6))
    S.assume(len(set(S.tolist(f))) == n and len(set(S.tolist(w))) == m)
    speed = S.real("speed", sample=SPEEDS)
    x = S.array("x", (n, m) + ((slices,) if slices else ()), k, sample=(lambda r: r.choice([0, 1, 2, -3, 0.5, 1j, 2 - 1j])) if k == "c" else None)
    f0, w0, x0 = S.copy(f), S.copy(w), S.copy(x)
    kw = {}
    if again:
        first = S.call(CR + "change_referential_spectrum", f, w, speed, S.copy(x) * 2, atol=0)
        if not S.returns(first):
            return
        kw = dict(freqs_new=first.value[1], I1=first.value[2], Irf_un=first.value[3])
    out = S.call(CR + "change_referential_spectrum", f, w, speed, x, atol=atol, **kw)
    if not S.returns(out):
        return
    y, fn = out.value[0], S.tolist(out.value[1])
    S.ensure("number of axes", y.ndim == x0.ndim and y.shape[0] == len(fn) and y.shape[1] == m)
    biggest = max([abs(v) for v in S.copy(x0).ravel().tolist()])
    un, whole = None, []
    for q in range(max(slices, 1)):
        un, exp = moved(S, f0, w0, speed, S.tolist(x0[:, :, q] if slices else x0))
        whole.append(exp)
    keep = list(range(len(un)))
    if atol:
        top = max(abs(v) for e in whole for row in e for v in row)
        size = [sum(abs(v) for e in whole for v in e[i]) for i in keep]
        S.assume(not any(0 < s < 1e-6 for s in size) and top > 0)
        keep = [i for i in keep if size[i] > atol * top]
    if not S.ensure("frequencies", len(fn) == len(keep) and all(abs(a - un[b]) < 1e-6 for a, b in zip(fn, keep))):
        return
    for q in range(max(slices, 1)):
        S.ensure("amplitudes", near(S, S.tolist(y[:, :, q] if slices else y), [whole[q][i] for i in keep]))
        for j in range(m):
            S.ensure("total of each wavenumber", S.eq(sum(S.tolist((y[:, :, q] if slices else y)[:, j])), sum(S.tolist((x0[:, :, q] if slices else x0)[:, j]))))
    S.unchanged("spectrum", x, x0)
    S.unchanged("frequencies of the input", f, f0)
    S.unchanged("wavenumbers of the input", w, w0)


def wrap(S, x, ang, a, q):
    """periodic linear interpolation of row q at angle a"""
    row, n = [v for v in S.tolist(x[q])], len(ang)
    end = ang[-1] + ang[1] - ang[0]
    a = a % end
    for i in range(n):
        lo, hi = ang[i], ang[i + 1] if i + 1 < n else end
        if lo <= a <= hi:
            t = (a - lo) / (hi - lo)
            return row[i] * (1 - t) + row[(i + 1) % n] * t
    return row[0]


@contract("C15", [CR + "change_referential_waveform"], [dict(slices=s, at=t, aa=a, again=g) for s in (0, 2) for t in (False, True) for a in (False, True) for g in (False, True)], bounded=True)
def waveform(S, slices, at, aa, again):
    """field read at the shifted angle with wrap-around"""
    import math
    n, m = S.int("n", 2, sample=(2, 6)), S.int("m", 2, sample=(2, 6))
    step = S.real("dt", pos=True, sample=[0.1, 0.5, 0.01])
    t0 = S.real("t0", sample=[0, 0, 0.3])
    speed = S.real("speed", sample=SPEEDS)
    per = S.int("per", 1, sample=(1, 4))
    t = S.build((n,), lambda i: t0 + i * step)
    a = S.build((m,), lambda i: 2 * math.pi / per * i / m)
    x = S.array("x", (n, m) + ((slices,) if slices else ()))
    t1, a1, x1 = S.copy(t), S.copy(a), S.copy(x)
    kw = {}
    if again:
        first = S.call(CR + "change_referential_waveform", S.copy(x) + 1, t, a, speed)
        if not S.returns(first):
            return
        kw = dict(ta_in=first.value[3], ta_out=first.value[4])
    out = S.call(CR + "change_referential_waveform", x, t, a, speed, aa, at, **kw)
    if not S.returns(out):
        return
    y, tn, an = out.value[:3]
    nt, na = (n // 2 if at else n), (m // 2 if aa else m)
    if not S.ensure("shape", tuple(y.shape) == (nt, na) + ((slices,) if slices else ())):
        return
    S.same("time axis", tn, t1[:nt])
    S.same("angle axis", an, a1[:na])
    ang = S.tolist(a1)
    for q in range(max(slices, 1)):
        xs, ys = (x1[:, :, q], y[:, :, q]) if slices else (x1, y)
        S.forall("field at the shifted angle", [nt, na], lambda i, j: S.near(S.at(ys, i, j), wrap(S, xs, ang, ang[j] + 2 * math.pi * speed / 60 * S.at(t1, i), i), 1e-6 * (1 + abs(speed))))
        if speed == 0:
            S.forall("no rotation: the field itself", [nt, na], lambda i, j: S.near(S.at(ys, i, j), S.at(xs, i, j), 1e-6))
    S.unchanged("field", x, x1)
    S.unchanged("time", t, t1)
    S.unchanged("angle", a, a1)


def field(S, comps=1, aper=False):
    import math
    n, m = 2 * S.int("nt", 2, sample=(2, 4)), 2 * S.int("na", 2, sample=(2, 4))
    per = S.int("per", 1, sample=(1, 3))
    T = S.cls("DataLinspace")(name="time", unit="s", initial=0, final=1, number=n, include_endpoint=False)
    sym = {} if per == 1 else {"period": per}
    A = S.cls("DataLinspace")(name="angle", unit="rad", initial=0, final=2 * math.pi / per, number=m, include_endpoint=False, symmetries=sym)
    vals = [S.array("x%d" % c, (n, m), sample=lambda r: r.choice([0, 1, -1, 2.5, 3])) for c in range(comps)]
    return [S.cls("DataTime")(name="F%d" % c, unit="T", symbol="F%d" % c, axes=[T, A], values=v) for c, v in enumerate(vals)], [S.copy(v) for v in vals], n, m, per


def check_spectrum(S, label, G, full, f, r, speed, un=None):
    """G is the one-sided spectrum of the moved full spectrum"""
    un, exp = moved(S, f, r, speed, full)
    keep = [i for i in range(len(un)) if un[i] > -1e-7]
    fs = S.tolist(G.axes[0].get_values())
    exp = {round(un[i], 6) + 0.0: [v * (1 if abs(un[i]) < 1e-7 else 2) for v in exp[i]] for i in keep}
    got = {round(v, 6) + 0.0: S.tolist(G.values[i]) for i, v in enumerate(fs)}
    S.ensure(label + ": frequencies", len(got) == len(fs) and all(a in exp for a in got))
    S.ensure(label + ": wavenumbers", all(abs(a - b) < 1e-9 for a, b in zip(S.tolist(G.axes[1].get_values()), S.tolist(r))))
    zero = [0] * len(S.tolist(r))
    S.ensure(label + ": amplitudes", all(S.near(a, b, 1e-6) for q in exp for a, b in zip(got.get(q, zero), exp[q])))


@contract("C15", [DN, CR + "change_referential_spectrum"], [dict(atol=a) for a in (0, 1e-9)], bounded=True, conc=60)
def data_spectrum(S, atol):
    """spectrum of a field in the new referential"""
    (F,), (x0,), n, m, per = field(S)
    speed = S.real("speed", sample=SPEEDS)
    S.assume(max(abs(v) for v in x0.ravel().tolist()) > 0)
    C = F.copy()
    C.is_real = False
    ref = C.get_along("freqs", "wavenumber")
    out = S.call(F.change_referential, speed, False, atol=atol)
    if not S.returns(out):
        return
    G = out.value[0]
    S.ensure("a spectrum", S.type_name(G) == "DataFreq" and (G.unit, G.symbol) == ("T", "F0"))
    check_spectrum(S, "spectrum", G, S.tolist(ref["F0"].reshape((len(ref["freqs"]), len(ref["wavenumber"])))), ref["freqs"], ref["wavenumber"], speed)
    S.unchanged("field", F.values, x0)
    S.ensure("still a real field", F.is_real is True and [a.name for a in F.axes] == ["time", "angle"])


@contract("C15", [DN, CR + "change_referential_waveform"], [dict(kind="time"), dict(kind="vector")], bounded=True, conc=60)
def data_waveform(S, kind):
    """field in the new referential"""
    import math
    D, X, n, m, per = field(S, 1 if kind == "time" else 2)
    speed = S.real("speed", sample=SPEEDS)
    if kind == "time":
        out = S.call(D[0].change_referential, speed, True)
    else:
        V = S.cls("VectorField")(name="V", symbol="V", components={"radial": D[0], "tangential": D[1]})
        out = S.call(V.change_referential, speed, True)
    if not S.returns(out):
        return
    G = [out.value[0]] if kind == "time" else [out.value.components["radial"], out.value.components["tangential"]]
    ang = [2 * math.pi / per * i / m for i in range(m)]
    for g, x0, d in zip(G, X, D):
        S.ensure("a field", S.type_name(g) == "DataTime" and (g.unit, g.symbol) == ("T", d.symbol))
        if not S.ensure("shape", tuple(g.values.shape) == (n, m)):
            return
        S.forall("field at the shifted angle", [n, m], lambda i, j: S.near(S.at(g.values, i, j), wrap(S, x0, ang, ang[j] + 2 * math.pi * speed / 60 * i / n, i), 1e-6 * (1 + abs(speed))))
        S.ensure("angle axis", len(S.tolist(g.axes[1].get_values())) == m * per)
        S.unchanged("field", d.values, x0)


@contract("C15", [VF, DN, CR + "change_referential_spectrum"], [dict(atol=0)], bounded=True, conc=60)
def vector_spectrum(S, atol):
    """spectra of all components in the new referential"""
    D, X, n, m, per = field(S, 2)
    speed = S.real("speed", sample=SPEEDS)
    V = S.cls("VectorField")(name="V", symbol="V", components={"radial": D[0], "tangential": D[1]})
    out = S.call(V.change_referential, speed, False, atol=atol)
    if not S.returns(out):
        return
    for c, d in (("radial", D[0]), ("tangential", D[1])):
        C = d.copy()
        C.is_real = False
        ref = C.get_along("freqs", "wavenumber")
        check_spectrum(S, c, out.value.components[c], S.tolist(ref[d.symbol].reshape((len(ref["freqs"]), len(ref["wavenumber"])))), ref["freqs"], ref["wavenumber"], speed)
    for d, x0 in zip(D, X):
        S.unchanged("field", d.values, x0)
        S.ensure("still a real field", d.is_real is True)
