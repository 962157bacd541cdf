"""Symbolic text: literal pieces and atoms (arbitrary words, decimal texts of arbitrary numbers).

A word is any nonempty text over letters, digits, underscores and spaces.  Whether a word contains a given text, or is a
given text, is a Boolean unknown, so both answers are followed; a model is turned into a word that fits it.  Every
operation whose outcome is not settled by these unknowns is outside the fragment (Unsupported).
"""
import string as _string
from .core import *
from .core import ctx
import z3

WORD = set(_string.ascii_letters + _string.digits + "_ ")
DIGITS = set("0123456789-")
DECIMAL = set("0123456789.+-e")


class Atom:
    def __init__(self, kind, name, value=None, free=()):
        self.kind, self.name, self.value, self.free = kind, name, value, free
        self.chars = {"word": WORD, "int": DIGITS, "real": DECIMAL}[kind]

    def __repr__(self):
        return "<%s>" % self.name

    # Boolean unknowns of a word
    def has(self, sub):
        if sub in self.free:
            return False
        tab = ctx().ghost.setdefault(("word", self.name), {})
        if ("has", sub) not in tab:
            v = z3.Bool("%s contains %r" % (self.name, sub))
            for (k, t), w in tab.items():
                if k == "is":
                    ctx().assume(z3.Implies(w, v if sub in t else z3.Not(v)))
                elif sub in t:
                    ctx().assume(z3.Implies(w, v))
                elif t in sub:
                    ctx().assume(z3.Implies(v, w))
            tab[("has", sub)] = v
        return SBool(tab[("has", sub)])

    def is_(self, text):
        if any(f in text for f in self.free) or not text or not set(text) <= self.chars:
            return False
        tab = ctx().ghost.setdefault(("word", self.name), {})
        if ("is", text) not in tab:
            v = z3.Bool("%s is %r" % (self.name, text))
            for (k, t), w in tab.items():
                if k == "is":
                    ctx().assume(z3.Not(z3.And(v, w)))
                else:
                    ctx().assume(z3.Implies(v, w if t in text else z3.Not(w)))
            tab[("is", text)] = v
        return SBool(tab[("is", text)])


def same_atom(x, y):
    return x is y or isinstance(y, Atom) and x.kind == y.kind != "word" and x.value is y.value


def word_of(c, name, m):
    """a word that fits a model"""
    tab = c.ghost.get(("word", name), {})
    for (k, t), v in tab.items():
        if k == "is" and z3.is_true(m.eval(v, model_completion=True)):
            return t
    return "Q".join(["W" + name.upper().replace("_", "")] + [t for (k, t), v in tab.items() if k == "has" and z3.is_true(m.eval(v, model_completion=True))])


def mk(parts):
    out = []
    for p in parts:
        if isinstance(p, Atom):
            out.append(p)
        elif p == "":
            continue
        elif out and not isinstance(out[-1], Atom):
            out[-1] += p
        else:
            out.append(p)
    if all(not isinstance(p, Atom) for p in out):
        return out[0] if out else ""
    return SStr(out)


def parts_of(x):
    if type(x) is SStr:
        return x.parts
    if type(x) is str:
        return [x] if x else []
    raise TypeError("text expected, %s given" % type(x).__name__)


def _lit(x):
    if type(x) is SStr:
        raise Unsupported("symbolic text where a literal text is needed")
    if type(x) is not str:
        raise TypeError("text expected, %s given" % type(x).__name__)
    return x


class SStr:
    _dv_str = True
    __class__ = property(lambda s: str)

    def __init__(self, parts):
        self.parts = list(parts)

    def __repr__(self):
        return "".join(repr(p)[1:-1] if type(p) is str else repr(p) for p in self.parts)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        if len(self.parts) == 1 and self.parts[0].kind == "word":
            return hash(("atom", self.parts[0].name))
        raise Unsupported("symbolic text as a key")

    def __eq__(self, o):
        if type(o) not in (SStr, str):
            return False
        a, b = self.parts, parts_of(o)
        if len(a) == len(b) and all(same_atom(x, y) if isinstance(x, Atom) else type(y) is str and x == y for x, y in zip(a, b)):
            return True
        if type(o) is str:
            if len(a) == 1 and a[0].kind == "word":
                return a[0].is_(o)
            lits = [p for p in a if type(p) is str]
            if any(p not in o for p in lits):
                return False
            raise Unsupported("comparison of symbolic text")
        if len(a) == 1 and len(b) == 1:
            dw = ctx().ghost.get("distinct words", ())
            if a[0].kind == "word" and b[0].kind == "word" and a[0].name in dw and b[0].name in dw:
                return False
        raise Unsupported("comparison of symbolic texts")

    def __ne__(self, o):
        return s_not(self.__eq__(o))

    def __add__(self, o):
        if type(o) not in (SStr, str):
            return NotImplemented
        return mk(self.parts + parts_of(o))

    def __radd__(self, o):
        if type(o) not in (SStr, str):
            return NotImplemented
        return mk(parts_of(o) + self.parts)

    # -- occurrences
    def _inside(self, sub):
        """may sub occur with at least one character in an atom?  list of atoms that would contain it whole"""
        whole = []
        for n, p in enumerate(self.parts):
            if isinstance(p, Atom):
                if set(sub) <= p.chars:
                    whole.append(p)
                self._span(sub, n)
            else:
                # starts in this literal, reaches the following atom
                for k in range(1, len(sub)):
                    if p.endswith(sub[:k]) and n + 1 < len(self.parts) and self._can(sub[k:], n + 1):
                        raise Unsupported("text %r may lie across the pieces of a symbolic text" % sub)
        return whole

    def _span(self, sub, n):
        p = self.parts[n]
        for k in range(1, len(sub)):
            if set(sub[:k]) <= p.chars and n + 1 < len(self.parts) and self._can(sub[k:], n + 1):
                raise Unsupported("text %r may lie across the pieces of a symbolic text" % sub)

    def _can(self, sub, n):
        """may the text from piece n on start with sub?"""
        if not sub:
            return True
        if n >= len(self.parts):
            return False
        p = self.parts[n]
        if isinstance(p, Atom):
            return any(set(sub[:k]) <= p.chars and (k == len(sub) or self._can(sub[k:], n + 1)) for k in range(1, len(sub) + 1))
        k = min(len(p), len(sub))
        return p[:k] == sub[:k] and self._can(sub[k:], n + 1)

    def contains(self, sub):
        if type(sub) is SStr:
            at = self._find(sub.parts)
            if at is not None:
                return True
            raise Unsupported("search of a symbolic text")
        _lit(sub)
        if sub == "" or any(type(p) is str and sub in p for p in self.parts):
            return True
        whole = self._inside(sub)
        r = False
        for p in whole:
            if p.kind != "word":
                raise Unsupported("search in the text of a number")
            r = s_or(r, p.has(sub))
        return r

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def _find(self, old):
        """pieces of old in sequence: (first piece, offset, last piece, offset)"""
        if len(old) == 1 and type(old[0]) is str:
            for n, p in enumerate(self.parts):
                if type(p) is str and old[0] in p:
                    return (n, p.index(old[0]), n, p.index(old[0]) + len(old[0]))
            return None
        for n in range(len(self.parts) - len(old) + 1):
            seg = self.parts[n:n + len(old)]
            ok, lo, hi = True, 0, None
            for j, (x, y) in enumerate(zip(seg, old)):
                if isinstance(y, Atom):
                    ok = isinstance(x, Atom) and same_atom(x, y)
                elif isinstance(x, Atom):
                    ok = False
                elif j == 0:
                    ok = x.endswith(y)
                    lo = len(x) - len(y)
                elif j == len(old) - 1:
                    ok = x.startswith(y)
                    hi = len(y)
                else:
                    ok = x == y
                if not ok:
                    break
            if ok:
                return (n, lo, n + len(old) - 1, hi)
        return None

    def _settled(self, sub):
        """sub does not occur in an atom (decided when it may)"""
        for p in self._inside(sub):
            if p.kind != "word":
                raise Unsupported("search in the text of a number")
            if tb_bool(p.has(sub)):
                raise Unsupported("splitting inside an arbitrary word")

    def split(self, sep=None, maxsplit=-1):
        sep = _lit(sep)
        if not sep:
            raise ValueError("empty separator")
        self._settled(sep)
        out, cur, left = [], [], maxsplit
        for p in self.parts:
            if isinstance(p, Atom):
                cur.append(p)
                continue
            while sep in p and left != 0:
                a, p = p.split(sep, 1)
                out.append(mk(cur + [a]))
                cur, left = [], left - 1
            cur.append(p)
        return out + [mk(cur)]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        l = self.split(sep)
        if len(l) <= maxsplit + 1:
            return l
        k = len(l) - maxsplit
        head = l[0]
        for x in l[1:k]:
            head = head + sep + x
        return [head] + l[k:]

    def partition(self, sep):
        l = self.split(sep, 1)
        return (l[0], sep, l[1]) if len(l) == 2 else (self, "", "")

    def replace(self, old, new, count=-1):
        if count != -1:
            raise Unsupported("replace with a count")
        po = parts_of(old)
        if len(po) == 1 and type(po[0]) is str:
            l = self.split(old)
            r = l[0]
            for x in l[1:]:
                r = r + new + x
            return r
        at = self._find(po)
        if at is None:
            raise Unsupported("replacement of a symbolic text")
        a, lo, b, hi = at
        head = self.parts[:a] + ([self.parts[a][:lo]] if type(self.parts[a]) is str else [])
        tail = ([self.parts[b][hi:]] if type(self.parts[b]) is str else []) + self.parts[b + 1:]
        if a == b:
            tail = self.parts[b + 1:] if isinstance(self.parts[a], Atom) else tail
        rest = mk(tail)
        if type(rest) is SStr and rest._find(po) is not None:
            raise Unsupported("several replacements")
        return mk(head + parts_of(new) + parts_of(rest))

    def _strip(self, chars, left, right):
        if chars is None:
            chars = " \t\n"
        chars = _lit(chars)
        ps = list(self.parts)
        if left:
            while ps:
                if isinstance(ps[0], Atom):
                    if ps[0].chars & set(chars) and not (ps[0].kind == "word" and set(chars) <= set(" \t\n")):
                        raise Unsupported("strip of symbolic text")
                    break
                t = ps[0].lstrip(chars)
                if t:
                    ps[0] = t
                    break
                ps.pop(0)
        if right:
            while ps:
                if isinstance(ps[-1], Atom):
                    if ps[-1].chars & set(chars) and not (ps[-1].kind == "word" and set(chars) <= set(" \t\n")):
                        raise Unsupported("strip of symbolic text")
                    break
                t = ps[-1].rstrip(chars)
                if t:
                    ps[-1] = t
                    break
                ps.pop()
        return mk(ps)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def startswith(self, t):
        t = _lit(t)
        p = self.parts[0]
        if type(p) is str and p.startswith(t):
            return True
        if not self._can(t, 0):
            return False
        raise Unsupported("start of symbolic text")

    def endswith(self, t):
        t = _lit(t)
        p = self.parts[-1]
        if type(p) is str and (p.endswith(t) or len(p) >= len(t)):
            return p.endswith(t)
        if isinstance(p, Atom) and t and t[-1] not in p.chars:
            return False
        raise Unsupported("end of symbolic text")

    def find(self, t):
        raise Unsupported("position in symbolic text")

    index = rfind = rindex = find

    def __len__(self):
        raise Unsupported("len of symbolic text in C code")

    def length(self):
        c = ctx()
        n = c.fresh("len", "int")
        c.assume(n >= sum(1 if isinstance(p, Atom) else len(p) for p in self.parts))
        return SInt(n)

    def __bool__(self):
        return True

    def __iter__(self):
        raise Unsupported("iteration over symbolic text")

    def __getitem__(self, i):
        p = self.parts
        if isinstance(i, slice) and i.step is None:
            a, b = i.start, i.stop
            if type(a) is int and a >= 0 and b is None and type(p[0]) is str and len(p[0]) >= a:
                return mk([p[0][a:]] + p[1:])
            if a in (None, 0) and type(b) is int and b < 0 and type(p[-1]) is str and len(p[-1]) >= -b:
                return mk(p[:-1] + [p[-1][:b]])
            if a in (None, 0) and type(b) is int and b >= 0 and type(p[0]) is str and len(p[0]) >= b:
                return p[0][:b]
            if type(a) is int and a > 0 and type(b) is int and b < 0:
                return self[a:][:b]
        elif type(i) is int:
            if i >= 0 and type(p[0]) is str and i < len(p[0]):
                return p[0][i]
            if i < 0 and type(p[-1]) is str and -i <= len(p[-1]):
                return p[-1][i]
        raise Unsupported("characters of symbolic text")

    def number(self, what):
        """int(), float() or eval() of the text"""
        ps = self.parts
        if len(ps) == 1:
            p = ps[0]
            if p.kind == "word":
                raise Unsupported("evaluation of an arbitrary word")
            if what == "int" and p.kind == "real":
                raise ValueError("invalid literal for int() with base 10")
            return s_cast(p.value, "f") if what == "float" else p.value
        if what in ("int", "float"):
            if type(ps[0]) is str and not ps[0].strip() and len(ps) == 2:
                return SStr(ps[1:]).number(what)
            if any(type(p) is str and set(p) - DECIMAL - set(" ") for p in ps):
                raise ValueError("invalid literal for %s()" % what)
        raise Unsupported("evaluation of symbolic text")


def tb_bool(x):
    return bool(x)


def text(parts):
    """text from literals, symbolic texts and numbers"""
    out = []
    for k, p in enumerate(parts):
        if type(p) is SStr:
            out += p.parts
        elif type(p) is str:
            out.append(p)
        elif is_sym(p):
            out.append(Atom("int" if kind(p) == "i" else "real", "number%d" % k, p))
        else:
            out.append(repr(p))
    return mk(out)
