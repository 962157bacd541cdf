"""Exact division of polynomials over z3 atoms (used to simplify quotients whose divisor is known to be non-zero)."""
from fractions import Fraction
import z3

LIMIT = 60


def poly(e):
    """dict monomial -> coefficient, monomial = tuple of (atom id, power); None when too large"""
    atoms = {}
    p = _poly(e, atoms)
    return p, atoms


def _mul(p, q):
    if p is None or q is None or len(p) * len(q) > LIMIT * 4:
        return None
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, k in m2:
                d[a] = d.get(a, 0) + k
            m = tuple(sorted(d.items()))
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def _poly(e, atoms):
    k = e.decl().kind()
    if z3.is_rational_value(e):
        c = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return {(): c} if c else {}
    if z3.is_int_value(e):
        c = e.as_long()
        return {(): Fraction(c)} if c else {}
    if k == z3.Z3_OP_TO_REAL:
        return _poly(e.arg(0), atoms)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        r = {}
        for i, x in enumerate(e.children()):
            p = _poly(x, atoms)
            if p is None:
                return None
            s = -1 if k == z3.Z3_OP_SUB and i else 1
            for m, c in p.items():
                r[m] = r.get(m, 0) + s * c
        return {m: c for m, c in r.items() if c}
    if k == z3.Z3_OP_UMINUS:
        p = _poly(e.arg(0), atoms)
        return None if p is None else {m: -c for m, c in p.items()}
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for x in e.children():
            r = _mul(r, _poly(x, atoms))
            if r is None:
                return None
        return r
    if k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).numerator_as_long() != 0:
        p = _poly(e.arg(0), atoms)
        d = Fraction(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long())
        return None if p is None else {m: c / d for m, c in p.items()}
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 < e.arg(1).numerator_as_long() < 5:
        p = _poly(e.arg(0), atoms)
        r = {(): Fraction(1)}
        for _ in range(e.arg(1).numerator_as_long()):
            r = _mul(r, p)
            if r is None:
                return None
        return r
    atoms[e.get_id()] = e
    return {((e.get_id(), 1),): Fraction(1)}


def _order(m, order):
    d = dict(m)
    return tuple(d.get(a, 0) for a in order)


def divide(num, den):
    """quotient polynomial, or None when the division leaves a remainder"""
    if not den:
        return None
    order = sorted({a for p in (num, den) for m in p for a, _ in m})
    lt = max(den, key=lambda m: _order(m, order))
    lo, lc = _order(lt, order), den[lt]
    num, q = dict(num), {}
    for _ in range(LIMIT):
        if not num:
            return q
        m = max(num, key=lambda x: _order(x, order))
        o = _order(m, order)
        if any(a < b for a, b in zip(o, lo)):
            return None
        t = tuple((a, x - y) for a, x, y in zip(order, o, lo) if x - y)
        c = num[m] / lc
        q[t] = q.get(t, 0) + c
        for m2, c2 in den.items():
            d = dict(t)
            for a, k in m2:
                d[a] = d.get(a, 0) + k
            mm = tuple(sorted(d.items()))
            v = num.get(mm, 0) - c * c2
            if v:
                num[mm] = v
            else:
                num.pop(mm, None)
    return None


def cancel(num, den):
    """(num, den) without the largest monomial that divides all their terms; (None, None) when there is none"""
    common = None
    for p in (num, den):
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(k, d[a]) for a, k in common.items() if a in d}
    if not common:
        return None, None

    def red(p):
        return {tuple((a, k - common.get(a, 0)) for a, k in m if k - common.get(a, 0)): c for m, c in p.items()}
    return red(num), red(den)


def build(p, atoms, sort="real"):
    """z3 term of a polynomial; None when an integer term is asked for and the polynomial is not integral"""
    terms = []
    for m in sorted(p):
        c = p[m]
        if sort == "int":
            if c.denominator != 1 or any(atoms[a].sort() != z3.IntSort() for a, _ in m):
                return None
            t = z3.IntVal(c.numerator)
        else:
            t = z3.RealVal(str(c))
        for a, k in m:
            x = atoms[a]
            if sort == "real" and x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            for _ in range(k):
                t = t * x
        terms.append(t)
    if not terms:
        return z3.IntVal(0) if sort == "int" else z3.RealVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def _add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


ONE = {(): Fraction(1)}


def rational(e, atoms, nonzero):
    """(numerator, denominator) polynomials; quotients are only combined when their divisor is known to be non-zero"""
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return rational(e.arg(0), atoms, nonzero)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = {}, ONE
        for i, x in enumerate(e.children()):
            r = rational(x, atoms, nonzero)
            if r is None:
                return None
            s = -1 if k == z3.Z3_OP_SUB and i else 1
            if r[1] == d:
                n = _add(n, r[0], s)
            else:
                a, b, d = _mul(n, r[1]), _mul(r[0], d), _mul(d, r[1])
                if a is None or b is None or d is None:
                    return None
                n = _add(a, b, s)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        r = rational(e.arg(0), atoms, nonzero)
        return None if r is None else ({m: -c for m, c in r[0].items()}, r[1])
    if k == z3.Z3_OP_MUL:
        n, d = ONE, ONE
        for x in e.children():
            r = rational(x, atoms, nonzero)
            if r is None:
                return None
            n, d = _mul(n, r[0]), _mul(d, r[1])
            if n is None or d is None:
                return None
        return n, d
    if k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)) and nonzero(e.arg(1)):
        a, b = rational(e.arg(0), atoms, nonzero), rational(e.arg(1), atoms, nonzero)
        if a is None or b is None:
            return None
        n, d = _mul(a[0], b[1]), _mul(a[1], b[0])
        return None if n is None or d is None else (n, d)
    p = _poly(e, atoms)
    return None if p is None else (p, ONE)


def canonical(e, nonzero):
    """(sign, term): e = sign * term, the same term for equal rational functions of the same atoms; None when too large"""
    atoms = {}
    r = rational(e, atoms, nonzero)
    if r is None or not r[1]:
        return None
    n, d = r
    if not n:
        return 1, z3.RealVal(0), atoms
    q = divide(n, d)
    if q is not None:
        n, d = q, ONE
    else:
        a, b = cancel(n, d)
        if a is not None:
            n, d = a, b
    lead = d[max(d)]
    s = 1 if n[max(n)] / lead > 0 else -1
    n = {m: c * s / lead for m, c in n.items()}
    d = {m: c / lead for m, c in d.items()}
    t = build(n, atoms)
    return s, (t if d == ONE else t / build(d, atoms)), atoms
