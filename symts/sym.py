"""Symbolic values: canonical Laurent polynomials with exact coefficients over solver variables.

A Sym is a finite sum of terms  coef * prod(atom_i ^ k_i) * exp(poly).  Atoms are solver variables or defined
values (min of a set, reciprocal, square root, log, floor, ite).  Formulas (SBool) are comparisons of Syms with 0
and boolean combinations.  Nothing here knows about tslearn.
"""
import math
import numbers
from fractions import Fraction

INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """The engine met an operation it cannot encode."""


class ENG:
    """Hook to the running exploration engine (set by engine.py)."""
    cur = None
    njit_depth = 0


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "args", "name", "pos", "nonneg", "integer")

    def __init__(self, id, kind, args, name, pos=False, nonneg=False, integer=False):
        self.id, self.kind, self.args, self.name = id, kind, args, name
        self.pos, self.nonneg, self.integer = pos, nonneg or pos, integer


ATOMS = []
_ATOM_KEY = {}


def atom(kind, key, args, name=None, **fl):
    k = (kind, key)
    a = _ATOM_KEY.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, args, name or "%s%d" % (kind, len(ATOMS)), **fl)
        ATOMS.append(a)
        _ATOM_KEY[k] = a
    return a


def reset_atoms():
    ATOMS.clear()
    _ATOM_KEY.clear()
    _MM.clear()
    _SOS.clear()
    _GROUND.clear()
    FACTS.clear()


# ------------------------------------------------------------------ monomials
# mono = (atoms, E): atoms = tuple of (atom id, exponent) sorted; E = tuple of (mono, coef) sorted  (exponent of exp)
ONE = ((), ())
_MM = {}


def mono_mul(a, b):
    """product of monomials; returns list of (mono, coef) because sqrt atoms reduce. Usually one entry."""
    if a == ONE:
        return ((b, 1),)
    if b == ONE:
        return ((a, 1),)
    k = (a, b)
    r = _MM.get(k)
    if r is not None:
        return r
    d = dict(a[0])
    for i, e in b[0]:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            del d[i]
    E = a[1]
    if b[1]:
        if E:
            dE = dict(E)
            for m, c in b[1]:
                n = dE.get(m, 0) + c
                if n:
                    dE[m] = n
                else:
                    del dE[m]
            E = tuple(sorted(dE.items()))
        else:
            E = b[1]
    # reduce sqrt atoms: s^2 -> p
    extra = None
    for i in list(d):
        at = ATOMS[i]
        if at.kind == "abs" and d[i] >= 2:
            q, r_ = divmod(d[i], 2)
            if r_:
                d[i] = r_
            else:
                del d[i]
            pp = at.args[0] ** (2 * q)
            extra = pp if extra is None else extra * pp
        elif at.kind == "sqrt" and (d[i] >= 2 or d[i] <= -1):
            q, r_ = divmod(d[i], 2)
            if r_:
                d[i] = r_
            else:
                del d[i]
            p = at.args[0]
            if q > 0 and type(p) is Sym:      # s^2 * inv(p) = 1
                pr = None
                for j in list(d):
                    if ATOMS[j].kind == "inv" and d[j] > 0:
                        pr = pr or primitive(p)
                        if ATOMS[j].args[0].key() == pr[0].key():
                            k2 = min(q, d[j])
                            q -= k2
                            if d[j] == k2:
                                del d[j]
                            else:
                                d[j] -= k2
                            f = Sym({pr[1]: norm(Fraction(pr[2]))}) ** k2
                            extra = f if extra is None else extra * f
                            break
            pp = p ** q
            extra = pp if extra is None else extra * pp
    m = (tuple(sorted(d.items())), E)
    if extra is None:
        r = ((m, 1),)
    else:
        s = lift(extra) * Sym({m: 1})
        r = tuple(lift(s).t.items())
    _MM[k] = r
    return r


# ------------------------------------------------------------------ polynomials
class Sym:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    # -- identity
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        return hash(self.key())

    def const(self):
        t = self.t
        if not t:
            return Fraction(0)
        if len(t) == 1 and ONE in t:
            return Fraction(t[ONE])
        return None

    # -- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m)
            if n is None:
                t[m] = c
            else:
                n = norm(n + c)
                if n:
                    t[m] = n
                else:
                    del t[m]
        return out(t)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return (-self) + o

    def __mul__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return mul_special(self, o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                c = c1 * c2
                for m, k in mono_mul(m1, m2):
                    n = t.get(m)
                    n = norm(c * k if n is None else n + c * k)
                    t[m] = n
        return out({m: c for m, c in t.items() if c})

    __rmul__ = __mul__

    def __truediv__(self, o):
        return sdiv(self, o)

    def __rtruediv__(self, o):
        return sdiv(o, self)

    def __pow__(self, n):
        return spow(self, n)

    def __rpow__(self, b):
        return spow(b, self)

    def __floordiv__(self, o):
        return sfloor(sdiv(self, o))

    def __rfloordiv__(self, o):
        return sfloor(sdiv(o, self))

    def __mod__(self, o):
        return self - sfloor(sdiv(self, o)) * o

    def __rmod__(self, o):
        return o - sfloor(sdiv(o, self)) * self

    def __abs__(self):
        return sabs(self)

    # -- comparison
    def __lt__(self, o):
        return compare("lt", self, o)

    def __le__(self, o):
        return compare("le", self, o)

    def __gt__(self, o):
        return compare("lt", o, self)

    def __ge__(self, o):
        return compare("le", o, self)

    def __eq__(self, o):
        return compare("eq", self, o)

    def __ne__(self, o):
        return bnot(compare("eq", self, o))

    def __bool__(self):
        return truth(self != 0)

    # -- numpy object-array protocol and numeric look-alike
    def sqrt(self):
        return ssqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Fraction(0)

    def __int__(self):
        return ENG.cur.choose_int(self, trunc=True)

    def __index__(self):
        raise TypeError("float object used as an index")

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return ENG.cur.choose_int(sfloor(self))

    def __ceil__(self):
        return -ENG.cur.choose_int(sfloor(-self))

    def __round__(self, n=None):
        r = sround(self, n or 0)
        return ENG.cur.choose_int(r) if n is None else r

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the modelled code")

    def item(self):
        return self

    def astype(self, dtype):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    ndim = 0
    shape = ()
    size = 1

    def __repr__(self):
        return show(self)


def show(s, maxlen=200):
    if type(s) is not Sym:
        return str(s)
    parts = []
    for m, c in sorted(s.t.items()):
        f = [] if (c == 1 and m != ONE) else [str(c)]
        for i, e in m[0]:
            f.append(ATOMS[i].name + ("^%d" % e if e != 1 else ""))
        if m[1]:
            f.append("exp(%s)" % show(Sym(dict(m[1]))))
        parts.append("*".join(f))
        if sum(map(len, parts)) > maxlen:
            parts.append("...")
            break
    return " + ".join(parts) or "0"


def out(t):
    """Normalise a term dict to Fraction when constant."""
    if not t:
        return Fraction(0)
    if len(t) == 1 and ONE in t:
        return Fraction(t[ONE])
    return Sym(t)


def lift(x):
    """number -> Sym (constants included)."""
    if type(x) is Sym:
        return x
    x = norm(Fraction(x))
    return Sym({ONE: x} if x else {})


_FRAC = {}


def frac(x):
    """float -> exact Fraction of its shortest decimal (specials unchanged)."""
    x = float(x)
    if x != x or x in (INF, -INF):
        return x
    r = _FRAC.get(x)
    if r is None:
        r = _FRAC[x] = Fraction(repr(x))
    return r


def num(x):
    """Canonical scalar of the symbolic world: Sym | Fraction | int | bool | inf/nan float."""
    t = type(x)
    if t is Sym or t is Fraction or t is int or t is bool or t is SBool:
        return x
    if t is float:
        return frac(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, numbers.Real):
        return frac(float(x))
    return x


def coerce(x):
    """operand of a Sym operation -> Sym, or a special float, or None."""
    t = type(x)
    if t is Sym:
        return x
    if t is Fraction or t is int or t is bool:
        x = norm(x) if t is Fraction else int(x)
        return Sym({ONE: x} if x else {})
    if t is float:
        if x != x or x in (INF, -INF):
            return x
        return lift(frac(x))
    if t is SBool:
        return lift(b2n(x))
    import numpy as np
    if isinstance(x, np.bool_):
        return lift(int(x))
    if isinstance(x, numbers.Integral):
        return lift(int(x))
    if isinstance(x, numbers.Real):
        return coerce(float(x))
    return None


def mul_special(s, f):
    if f != f:
        return f
    if truth(s > 0):
        return f
    if truth(s < 0):
        return -f
    return NAN


def var(name, pos=False, nonneg=False, integer=False):
    a = atom("var", name, (), name, pos=pos, nonneg=nonneg, integer=integer)
    return Sym({(((a.id, 1),), ()): 1})


def atom_sym(a):
    return Sym({(((a.id, 1),), ()): 1})


def is_special(x):
    return type(x) is float


# -- text: a formatted symbolic number is a token that parses back to the number (or, when the format drops digits, to an
#    arbitrary number within the format's error)
TOKENS = []


def token(x, fmt):
    import re
    x = num(x)
    if type(x) is not Sym:
        return fmt % (x if isinstance(x, int) and not isinstance(x, bool) else float(x))
    m = re.fullmatch(r"%[-+ 0#]*\d*(?:\.(\d+))?([eEgGfFsr])", fmt)
    if m is None:
        raise Unsupported("number format %s" % fmt)
    p = 6 if m.group(1) is None else int(m.group(1))
    k = m.group(2).lower()
    if k in "sr" and m.group(1) is None or k == "e" and p >= 16 or k == "g" and p >= 17:
        v = x
    else:
        v = ENG.cur.fresh("rounded")
        e = Fraction(1, 10 ** p)
        ENG.cur.assume(compare("le", sabs(v - x), e if k == "f" else sabs(x) * (e * (10 if k == "g" else 1))))
    TOKENS.append(v)
    return "@%d" % (len(TOKENS) - 1)


def untoken(t):
    t = t.strip()
    if t.startswith("@"):
        return TOKENS[int(t[1:])]
    return frac(float(t))


def is_const(x):
    return type(x) is not Sym


# ------------------------------------------------------------------ division, powers
def zero_div(n):
    if ENG.njit_depth > 0:
        raise ZeroDivisionError("division by zero")
    if is_special(n):
        if n != n:
            return NAN
        return n
    if type(n) is Sym:
        if truth(n > 0):
            return INF
        if truth(n < 0):
            return -INF
        return NAN
    return NAN if n == 0 else (INF if n > 0 else -INF)


def sdiv(a, b):
    a, b = num(a), num(b)
    if type(a) is SBool:
        a = b2n(a)
    if type(b) is SBool:
        b = b2n(b)
    ta, tb = type(a), type(b)
    if ta is bool:
        a = int(a)
    if tb is bool:
        b = int(b)
    if not isinstance(a, (Sym, Fraction, int, float)) or not isinstance(b, (Sym, Fraction, int, float)):
        return NotImplemented
    if is_special(b):
        if b != b or is_special(a):
            return NAN
        return Fraction(0)
    if not type(b) is Sym:
        if b == 0:
            return zero_div(a)
        if is_special(a):
            return a if b > 0 else -a
        if type(a) is Sym:
            return a * (Fraction(1) / Fraction(b))
        return Fraction(a) / Fraction(b)
    if truth(b == 0):
        return zero_div(a)
    if is_special(a):
        if a != a:
            return a
        return a if truth(b > 0) else -a
    if type(a) is not Sym and a == 0:
        return Fraction(0)
    return lift(a) * recip(b) if type(a) is not Sym else a * recip(b)


def recip(b):
    """1/b for a Sym known to be non zero."""
    p, mono, c = primitive(b)
    r = mono_recip(mono) * norm(Fraction(1) / Fraction(c))
    if len(p.t) == 1 and ONE in p.t:
        return r
    a = atom("inv", p.key(), (p,), pos=known_pos(p))
    return r * atom_sym(a)


def mono_recip(mono):
    r = Sym({((), tuple((x, -y) for x, y in mono[1])): 1})
    for i, e in mono[0]:
        a = ATOMS[i]
        if a.kind == "sqrt":      # 1/s = s / p
            for _ in range(e):
                r = r * atom_sym(a) * recip_any(a.args[0])
        elif a.kind == "inv":
            r = r * spow(a.args[0], e)
        else:
            r = r * Sym({(((i, -e),), ()): 1})
    return r


def recip_any(x):
    if type(x) is Sym:
        return recip(x)
    return Fraction(1) / Fraction(x)


def primitive(b):
    """b = c * mono * p with p's terms sharing no factor and a leading coefficient 1."""
    terms = list(b.t.items())
    at = dict(terms[0][0][0])
    E = dict(terms[0][0][1])
    if len(terms) > 1:
        exps = [dict(m[0]) for m, _ in terms]
        at = {}
        for i in set().union(*exps):
            if ATOMS[i].kind == "sqrt":
                continue
            v = min(d.get(i, 0) for d in exps)
            if v:
                at[i] = v
        Es = [dict(m[1]) for m, _ in terms]
        E = {}
        for mm in set(Es[0]).intersection(*Es[1:]):
            vs = set(d[mm] for d in Es)
            if len(vs) == 1:
                E[mm] = vs.pop()
            else:
                sg = {v > 0 for v in vs}
                if len(sg) == 1:
                    E[mm] = min(vs, key=abs)
    mono = (tuple(sorted(at.items())), tuple(sorted(E.items())))
    if mono == ONE:
        p = b
    else:
        p = b * Sym({(tuple((i, -e) for i, e in mono[0]), tuple((x, -y) for x, y in mono[1])): 1})
    p = lift(p)
    lead = p.t[min(p.t)]
    c = abs(lead) if False else lead
    if c != 1:
        p = Sym({m: norm(Fraction(v) / Fraction(c)) for m, v in p.t.items()})
    return p, mono, c


def known_pos(p):
    """syntactic sufficient condition for p > 0"""
    ok = True
    strict = False
    for m, c in p.t.items():
        if c < 0:
            return exp_margin(p)
        st = True
        for i, e in m[0]:
            a = ATOMS[i]
            if e % 2 == 0 and not a.pos:
                st = False
            elif not a.pos:
                if a.nonneg:
                    st = False
                else:
                    return False
        strict = strict or st
    return ok and strict


def exp_margin(p):
    """const - sum c_k exp(E_k) (+ nonnegative terms) with E_k <= 0 and const > sum c_k"""
    slack = Fraction(0)
    for m, c in p.t.items():
        if m == ONE:
            slack += c
        elif c < 0:
            if m[0] or not m[1] or not known_nonneg(Sym({q: -v for q, v in m[1]})):
                return False
            slack += c
        elif not all(ATOMS[i].nonneg or e % 2 == 0 for i, e in m[0]):
            return False
    return slack > 0


def known_nonneg(p):
    for m, c in p.t.items():
        if c < 0:
            return is_sos(p)
        for i, e in m[0]:
            a = ATOMS[i]
            if e % 2 and not a.nonneg:
                return is_sos(p)
    return True


_SOS = {}
FACTS = {}        # nonnegative differences used to simplify; told to the solver as lemmas


def sos(p):
    """record that p was built as a sum of squares (so nonnegative although its expanded form does not show it)"""
    if type(p) is Sym:
        _SOS[p.key()] = True
    return p


def is_sos(p):
    """p is (syntactically) a sum of squares of linear forms plus nonnegative terms; exact LDL of the Gram matrix"""
    k = p.key()
    r = _SOS.get(k)
    if r is None:
        if len(p.t) > 60:
            return False
        ms = list(p.t)
        com = set(ms[0][0])
        for m in ms[1:]:
            com &= set(m[0])
        com = {(i, e) for i, e in com if ATOMS[i].pos or e % 2 == 0}
        q = Sym({(tuple(x for x in m[0] if x not in com), m[1]): c for m, c in p.t.items()}) if com else p
        r = _SOS[k] = _is_sos(q)
    return r


def _is_sos(p):
    G = {}
    idx = set()
    for m, c in p.t.items():
        at, E = m
        if E:
            if c >= 0 and all(ATOMS[i].nonneg or e % 2 == 0 for i, e in at):
                continue
            return False
        deg = sum(e for i, e in at)
        if any(e < 0 for i, e in at) or deg > 2:
            if c >= 0 and all(ATOMS[i].nonneg or e % 2 == 0 for i, e in at):
                continue
            return False
        if deg == 0:
            a, b = -1, -1
        elif deg == 1:
            if c >= 0 and ATOMS[at[0][0]].nonneg:
                continue
            a, b = -1, at[0][0]
        elif len(at) == 1:
            a = b = at[0][0]
        else:
            a, b = at[0][0], at[1][0]
        idx.update((a, b))
        if a == b:
            G[a, a] = Fraction(c)
        else:
            G[a, b] = G[b, a] = Fraction(c) / 2
    order = sorted(idx, reverse=True)
    if len(order) > 14:
        return False
    for n, x in enumerate(order):
        dgl = G.get((x, x), 0)
        if dgl < 0:
            return False
        rest = order[n + 1:]
        if dgl == 0:
            if any(G.get((x, y), 0) for y in rest):
                return False
            continue
        for y in rest:
            gy = G.get((x, y), 0)
            if gy:
                for z in rest:
                    gz = G.get((x, z), 0)
                    if gz:
                        G[y, z] = G.get((y, z), 0) - gy * gz / dgl
    return True


def spow(b, n):
    b, n = num(b), num(n)
    if type(n) is Fraction and n.denominator == 1:
        n = n.numerator
    if isinstance(n, bool):
        n = int(n)
    if type(n) is int:
        if is_special(b):
            return b ** n
        if type(b) is not Sym:
            if n < 0:
                return sdiv(1, spow(b, -n))
            return b ** n if type(b) is not bool else int(b) ** n
        if n < 0:
            return sdiv(1, spow(b, -n))
        r = Fraction(1)
        while n:
            if n & 1:
                r = b * r
            n >>= 1
            if n:
                b = b * b
        return r
    if type(n) is Fraction and n.denominator == 2:
        if n > 0:
            return spow(ssqrt(b), n.numerator)
        return sdiv(1, spow(ssqrt(b), -n.numerator))
    if is_special(n) or is_special(b):
        return float(b) ** n if type(b) is not Sym else NAN
    if type(b) is not Sym and b == 1:
        return Fraction(1)
    # b ** n = exp(n log b)
    return sexp(n * slog(b))


def poly_sqrt(p):
    """r with r*r == p for a polynomial that is a perfect square, else None"""
    n = len(p.t)
    if n < 3 or n > 45:
        return None
    ids = set()
    for m in p.t:
        if m[1]:
            return None
        for i, e in m[0]:
            if e < 0:
                return None
            ids.add(i)
    ids = sorted(ids)
    if len(ids) > 12:
        return None

    def key(m):
        d = dict(m[0])
        v = [d.get(i, 0) for i in ids]
        return (sum(v), v)
    lead = max(p.t, key=key)
    c = Fraction(p.t[lead])
    if c < 0 or any(e % 2 for i, e in lead[0]):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator:
        return None
    lm = (tuple((i, e // 2) for i, e in lead[0]), ())
    lc = Fraction(a, b)
    r = Sym({lm: norm(lc)})
    ld = dict(lm[0])
    rem = lift(p - r * r)
    for _ in range(9):
        if type(rem) is not Sym or not rem.t:
            return r if not (type(rem) is Sym and rem.t) and rem_zero(rem) else None
        m = max(rem.t, key=key)
        d = dict(m[0])
        for i, e in ld.items():
            d[i] = d.get(i, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        t = Sym({(tuple(sorted((i, e) for i, e in d.items() if e)), ()): norm(Fraction(rem.t[m]) / (2 * lc))})
        if key(next(iter(t.t))) >= key(lm):
            return None
        r2 = lift(r + t)
        if len(r2.t) <= len(r.t):
            return None
        rem = lift(rem - 2 * r * t - t * t)
        r = r2
    return None


def rem_zero(x):
    return (type(x) is Sym and not x.t) or x == 0


def ssqrt(x):
    x = num(x)
    if type(x) is bool:
        x = int(x)
    if is_special(x):
        return NAN if x < 0 else x
    if type(x) is not Sym:
        x = Fraction(x)
        if x < 0:
            return NAN
        a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if a * a == x.numerator and b * b == x.denominator:
            return Fraction(a, b)
        # pull square factors so that equal surds are syntactically equal: sqrt(n/d) = sqrt(n*d)/d
        nd = x.numerator * x.denominator
        f = 1
        k = 2
        while k * k <= nd and k < 2000:
            while nd % (k * k) == 0:
                nd //= k * k
                f *= k
            k += 1
        at = atom("sqrt", ("c", nd), (Fraction(nd),), pos=True)
        return atom_sym(at) * Fraction(f, x.denominator)
    if not known_nonneg(x) and truth(x < 0):
        return NAN
    # sqrt(c * m^2 ...) simplifications for a single monomial
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c > 0 and all(e % 2 == 0 or ATOMS[i].pos for i, e in m[0]) and all(e % 2 == 0 for i, e in m[0]):
            r = Sym({((), tuple((q, norm(Fraction(v) / 2)) for q, v in m[1])): 1})
            for i, e in m[0]:
                base = Sym({(((i, e // 2),), ()): 1})
                r = r * (base if (ATOMS[i].nonneg or (e // 2) % 2 == 0) else sabs(base))
            return r * ssqrt(Fraction(c))
        if c > 0 and (len(m[0]) > 1 or m[1] or c != 1 or m[0][0][1] != 1 or ATOMS[m[0][0][0]].kind == "inv") \
                and all(e % 2 == 0 or ATOMS[i].nonneg for i, e in m[0]):
            # product of nonnegative factors: root of each factor
            r = Sym({((), tuple((q, norm(Fraction(v) / 2)) for q, v in m[1])): 1})
            for i, e in m[0]:
                h, odd = divmod(e, 2)
                if h:
                    base = Sym({(((i, h),), ()): 1})
                    r = r * (base if (ATOMS[i].nonneg or h % 2 == 0) else sabs(base))
                if odd:
                    a = ATOMS[i]
                    if a.kind == "inv":
                        r = r * ssqrt(a.args[0]) * atom_sym(a)
                    else:
                        r = r * atom_sym(atom("sqrt", atom_sym(a).key(), (atom_sym(a),), nonneg=True, pos=a.pos))
            return r * ssqrt(Fraction(c))
    if len(x.t) > 1:
        r = poly_sqrt(x)
        if r is not None:
            return sabs(r)
        g = 0
        import math as _m
        # numeric content: keep canonical up to square factors
        p, mono, c = primitive(x)
        if c > 0 and all(e % 2 == 0 or ATOMS[i].nonneg for i, e in mono[0]) and (mono != ONE or c != 1) and known_monic(p):
            outer = ssqrt(Sym({mono: c})) if mono != ONE else ssqrt(Fraction(c))
            at = atom("sqrt", p.key(), (p,), nonneg=True, pos=known_pos(p))
            return atom_sym(at) * outer
    at = atom("sqrt", x.key(), (x,), nonneg=True, pos=known_pos(x))
    return atom_sym(at)


def known_monic(p):
    return True


def sexp(x):
    x = num(x)
    if type(x) is bool:
        x = int(x)
    if is_special(x):
        return math.exp(x) if x == x and x < 0 else x
    if type(x) is not Sym:
        if x == 0:
            return Fraction(1)
        return Sym({((), ((ONE, norm(Fraction(x))),)): 1})
    E = {}
    factor = Fraction(1)
    for m, c in x.t.items():
        # c * log(P)  ->  P ** c for integer c
        if len(m[0]) == 1 and not m[1] and m[0][0][1] == 1 and ATOMS[m[0][0][0]].kind == "log":
            k = Fraction(c)
            P = ATOMS[m[0][0][0]].args[0]
            if k.denominator == 1:
                kk = k.numerator
                f = spow(P, kk) if kk >= 0 else spow(recip_any(P), -kk)
                factor = f * factor
                continue
            if k.denominator == 2:
                f = ssqrt(P)
                kk = k.numerator
                f = spow(f, kk) if kk >= 0 else spow(recip_any(f), -kk)
                factor = f * factor
                continue
        E[m] = c
    if E:
        return Sym({((), tuple(sorted(E.items()))): 1}) * factor
    return factor


def slog(x):
    x = num(x)
    if type(x) is bool:
        x = int(x)
    if is_special(x):
        return NAN if (x != x or x < 0) else x
    if type(x) is not Sym:
        if x == 0:
            return -INF
        if x < 0:
            return NAN
        if x == 1:
            return Fraction(0)
        r = Fraction(0)
        for q, sg in ((Fraction(x).numerator, 1), (Fraction(x).denominator, -1)):
            k = 2
            while q > 1 and k * k <= q and k < 1000:
                n = 0
                while q % k == 0:
                    q //= k
                    n += 1
                if n:
                    r = r + n * sg * atom_sym(atom("log", ("c", Fraction(k)), (Fraction(k),), pos=True))
                k += 1
            if q > 1:
                r = r + sg * atom_sym(atom("log", ("c", Fraction(q)), (Fraction(q),), pos=True))
        return r
    if not known_pos(x):
        if truth(x <= 0):
            return -INF if truth(x == 0) else NAN
    p, mono, c = primitive(x)
    r = Fraction(0)
    if mono[1]:
        r = r + out({m: v for m, v in mono[1]})
    rest = Sym({(mono[0], ()): 1})
    for i, e in mono[0]:
        if ATOMS[i].pos:
            r = r + e * atom_sym(atom("log", ("a", i), (atom_sym(ATOMS[i]),)))
        else:
            p = p * Sym({(((i, e),), ()): 1})
    if c < 0:
        p = -p
        c = -c
    r = r + slog(Fraction(c))
    p = lift(p)
    if p.const() is not None:
        return r + slog(p.const())
    return r + atom_sym(atom("log", p.key(), (p,)))


def sfloor(x):
    x = num(x)
    if type(x) is bool:
        return int(x)
    if is_special(x):
        return x
    if type(x) is not Sym:
        return Fraction(math.floor(x))
    at = atom("floor", x.key(), (x,), integer=True)
    return atom_sym(at)


def sceil(x):
    return -sfloor(-num(x))


def sround(x, n=0):
    """round half to even, as numpy does"""
    x = num(x)
    n = int(n or 0)
    if is_special(x):
        return x
    if type(x) is not Sym:
        return Fraction(round(Fraction(x), n)) if n else Fraction(round(Fraction(x)))
    sc = Fraction(10) ** n
    y = x * sc
    # an integer within 1/2 of y (at exact ties either neighbour)
    at = atom("round", y.key(), (y,), integer=True)
    return atom_sym(at) / sc


# ------------------------------------------------------------------ min / max / abs / ite
def smin(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    return _smin([num(x) for x in xs])


def _smin(xs):
    best = None          # constant part
    syms = {}
    for x in xs:
        if type(x) is SBool:
            x = b2n(x)
        if type(x) is Sym:
            # flatten c*1*minatom + 0
            if len(x.t) == 1:
                (m, c), = x.t.items()
                if c == 1 and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                    a = ATOMS[m[0][0][0]]
                    if a.kind == "min":
                        for y in a.args:
                            syms[y.key()] = y
                        continue
            syms[x.key()] = x
        elif x != x:
            return NAN
        else:
            if best is None or x < best:
                best = x
    if not syms:
        return best
    if best is not None and best == -INF:
        return best
    if best is not None and best != INF:
        s = lift(best)
        syms[s.key()] = s
    # drop dominated entries: y - x a nonnegative constant
    vals = list(syms.values())
    if len(vals) > 1:
        base = {}
        for y in vals:
            c = y.t.get(ONE, 0)
            k = tuple(sorted((m, v) for m, v in y.t.items() if m != ONE))
            if k not in base or c < base[k][0]:
                base[k] = (c, y)
        vals = [y for _, y in base.values()]
    if len(vals) > 1:
        # values without free variables: their enclosures decide
        iv = [(ground(y), y) for y in vals]
        top = min((v[1] for v, _ in iv if v is not None), default=None)
        if top is not None:
            vals = [y for v, y in iv if v is None or v[0] <= top]
    if 1 < len(vals) <= 6:
        keep = []
        for n, y in enumerate(vals):
            for q, x in enumerate(vals):
                if q != n:
                    d = lift(y - x)
                    if known_nonneg(d) and (q < n or not known_nonneg(-d)):
                        FACTS[d.key()] = d
                        break
            else:
                keep.append(y)
        vals = keep
    if len(vals) == 1:
        return out(vals[0].t)
    drop = positive_factor(vals)
    if drop:
        return Sym({(tuple(sorted(drop.items())), ()): 1}) * _smin([out(unfactor(y, drop).t) for y in vals])
    vals.sort(key=lambda y: y.key())
    nn = all(known_nonneg(y) for y in vals)
    ps = all(known_pos(y) for y in vals)
    at = atom("min", tuple(y.key() for y in vals), tuple(vals), pos=ps, nonneg=nn)
    return atom_sym(at)


def smax(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = _smin([-num(x) if not isinstance(x, (bool, SBool)) else -b2n(x) for x in xs])
    return -r


def sabs(x):
    x = num(x)
    if type(x) is not Sym:
        return abs(x)
    if known_nonneg(x):
        return x
    if known_nonneg(-x):
        return -x
    # |x| = max(x,-x); canonical sign so |x| and |-x| coincide
    at = atom("abs", max(x.key(), (-x).key()), (x,), nonneg=True)
    return atom_sym(at)


def site(c, a, b):
    """if-then-else value"""
    if type(c) is not SBool:
        return a if c else b
    a, b = num(a), num(b)
    if is_special(a) or is_special(b):
        return a if truth(c) else b
    a, b = lift(a if type(a) is not SBool else b2n(a)), lift(b if type(b) is not SBool else b2n(b))
    if a.key() == b.key():
        return out(a.t)
    d = a - b
    at = atom("ite", c.key(), (c,), nonneg=True)   # indicator 0/1
    return b + atom_sym(at) * d


def b2n(x):
    """bool -> number"""
    if type(x) is SBool:
        at = atom("ite", x.key(), (x,), nonneg=True)
        return atom_sym(at)
    return int(x) if isinstance(x, bool) else x


def ssign(x):
    x = num(x)
    if type(x) is not Sym:
        return x if x != x else Fraction((x > 0) - (x < 0))
    return Fraction(1) if truth(x > 0) else (Fraction(-1) if truth(x < 0) else Fraction(0))


# ------------------------------------------------------------------ formulas
class SBool:
    """op in lt, le, eq (args: Sym compared with 0), and, or, not, var"""
    __slots__ = ("op", "args", "_k")

    def __init__(self, op, args):
        self.op, self.args, self._k = op, args, None

    def key(self):
        if self._k is None:
            if self.op in ("lt", "le", "eq"):
                self._k = (self.op, self.args[0].key())
            elif self.op == "var":
                self._k = ("var", self.args[0])
            else:
                self._k = (self.op,) + tuple(a.key() for a in self.args)
        return self._k

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return ENG.cur.branch(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)) or type(o).__name__ == "bool":
            return bnot(self ^ o)
        return b2n(self) == o

    def __ne__(self, o):
        return bnot(self == o)

    # arithmetic on booleans
    def __add__(self, o):
        return b2n(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return b2n(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return b2n(self) - o

    def __rsub__(self, o):
        return o - b2n(self)

    def __truediv__(self, o):
        return sdiv(b2n(self), o)

    def __neg__(self):
        return -b2n(self)

    def __lt__(self, o):
        return b2n(self) < o

    def __gt__(self, o):
        return b2n(self) > o

    def __le__(self, o):
        return b2n(self) <= o

    def __ge__(self, o):
        return b2n(self) >= o

    def __int__(self):
        return 1 if self else 0

    def __index__(self):
        return int(self)

    def __float__(self):
        return float(int(self))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.op in ("lt", "le", "eq"):
            return "(%s %s 0)" % (show(self.args[0]), {"lt": "<", "le": "<=", "eq": "=="}[self.op])
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


def truth(b):
    if type(b) is SBool:
        return ENG.cur.branch(b)
    return bool(b)


def band(*xs):
    r = []
    for x in xs:
        if type(x) is SBool:
            if x.op == "and":
                r.extend(x.args)
            else:
                r.append(x)
        elif not x:
            return False
    if not r:
        return True
    return r[0] if len(r) == 1 else SBool("and", tuple(r))


def bor(*xs):
    r = []
    for x in xs:
        if type(x) is SBool:
            if x.op == "or":
                r.extend(x.args)
            else:
                r.append(x)
        elif x:
            return True
    if not r:
        return False
    return r[0] if len(r) == 1 else SBool("or", tuple(r))


def bnot(x):
    if type(x) is not SBool:
        return not x
    if x.op == "not":
        return x.args[0]
    if x.op == "lt":
        return SBool("le", (-x.args[0],))
    if x.op == "le":
        return SBool("lt", (-x.args[0],))
    return SBool("not", (x,))


def compare(op, a, b):
    a, b = num(a), num(b)
    if type(a) is SBool:
        a = b2n(a)
    if type(b) is SBool:
        b = b2n(b)
    if type(a) is not Sym and type(b) is not Sym:
        return a < b if op == "lt" else (a <= b if op == "le" else a == b)
    if not isinstance(a, (Sym, int, Fraction, float)) or not isinstance(b, (Sym, int, Fraction, float)):
        if op == "eq":
            return False
        return NotImplemented
    if is_special(a) or is_special(b):
        fa = a if is_special(a) else 0.0
        fb = b if is_special(b) else 0.0
        return fa < fb if op == "lt" else (fa <= fb if op == "le" else fa == fb)
    d = lift(a - b)
    return mkcmp(op, d)


_GROUND = {}
_UP, _DN = 1 + 1e-15, 1 - 1e-15


def _iv(lo, hi):
    """outward rounding"""
    return (lo * _DN if lo > 0 else lo * _UP if lo < 0 else lo - 5e-324), (hi * _UP if hi > 0 else hi * _DN if hi < 0 else hi + 5e-324)


def _ivmul(a, b):
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return _iv(min(p), max(p))


def _ivfrac(c):
    f = float(c)
    return (f, f) if Fraction(f) == c else _iv(f, f)


def _ivatom(i):
    """enclosure of an atom without free variables, or None"""
    if i in _GROUND:
        return _GROUND[i]
    a, r = ATOMS[i], None
    if a.kind in ("inv", "sqrt", "log", "abs", "min"):
        v = [ground(y) for y in a.args]
        if all(x is not None for x in v):
            lo, hi = v[0]
            if a.kind == "inv":
                r = _iv(1 / hi, 1 / lo) if lo > 0 or hi < 0 else None
            elif a.kind == "sqrt":
                r = _iv(math.sqrt(lo), math.sqrt(hi)) if lo > 0 else None
            elif a.kind == "log":
                r = None
                if lo > 0:
                    l, h = math.log(lo), math.log(hi)
                    r = l - 1e-15 * (1 + abs(l)), h + 1e-15 * (1 + abs(h))
            elif a.kind == "abs":
                r = (lo, hi) if lo > 0 else (-hi, -lo) if hi < 0 else (0.0, max(-lo, hi))
            else:
                r = min(x[0] for x in v), min(x[1] for x in v)
    _GROUND[i] = r
    return r


def ground(d):
    """enclosure (lo, hi) of an expression without free variables; None if it has variables or is out of range"""
    if type(d) is not Sym:
        return None if is_special(d) else _ivfrac(Fraction(d))
    lo = hi = 0.0
    try:
        for (at, E), c in d.t.items():
            x = _ivfrac(Fraction(c))
            for i, e in at:
                v = _ivatom(i)
                if v is None or abs(e) > 40:
                    return None
                if e < 0:
                    if v[0] <= 0 <= v[1]:
                        return None
                    v = _iv(1 / v[1], 1 / v[0])
                for _ in range(abs(e)):
                    x = _ivmul(x, v)
            if E:
                v = ground(Sym({m: k for m, k in E}))
                if v is None or max(abs(v[0]), abs(v[1])) > 100:
                    return None
                x = _ivmul(x, _iv(math.exp(v[0]), math.exp(v[1])))
            lo, hi = _iv(lo + x[0], hi + x[1])
            # absolute error of the two additions
            lo, hi = lo - 1e-16 * abs(x[0]), hi + 1e-16 * abs(x[1])
    except (OverflowError, ZeroDivisionError):
        return None
    return (lo, hi) if abs(lo) < 1e300 and abs(hi) < 1e300 else None


def numeric(d):
    """float value of an expression without free variables, with an error bound; None if it has variables"""
    g = ground(d)
    return None if g is None else ((g[0] + g[1]) / 2, (g[1] - g[0]) / 2 + 1e-300)


def mkcmp(op, d):
    """formula  d op 0"""
    c = d.const()
    if c is None:
        c = numeric(d)
        if c is not None:
            c = c[0] if abs(c[0]) > c[1] else None
    if c is not None:
        return c < 0 if op == "lt" else (c <= 0 if op == "le" else c == 0)
    # trivial signs
    if known_pos(d):
        return False
    if known_pos(-d):
        return op != "eq"
    if op == "lt" and known_nonneg(d):
        return False
    if op == "le" and known_nonneg(-d):
        return True
    d = strip_positive(d)
    d2 = strip_logs(d, op)
    if d2 is not None:
        return mkcmp(op, d2) if type(d2) is Sym else compare(op, d2, 0)
    if op == "eq":
        z = clear_denoms(d)
        if type(z) is not Sym:
            return z == 0
        if len(z.t) == 1:
            (m, _), = z.t.items()
            zs = [SBool("eq", (atom_sym(ATOMS[i]),)) if ATOMS[i].kind != "abs" else mkcmp("eq", ATOMS[i].args[0]) for i, e in m[0] if not ATOMS[i].pos]
            return bor(*zs)
        return SBool("eq", (lead1(z),))
    d = scale_pos(d)
    # single sqrt compared with something: left to the solver
    return SBool(op, (d,))


def lead1(z):
    c = z.t[min(z.t)]
    if c != 1:
        z = Sym({m: norm(Fraction(v) / Fraction(c)) for m, v in z.t.items()})
    return z


def strip_positive(d):
    """drop common factors that are positive wherever d is defined: inverses of nonnegative terms, and their square roots"""
    drop = positive_factor([d])
    return unfactor(d, drop) if drop else d


def unfactor(d, drop):
    return Sym({(tuple((i, e - drop.get(i, 0)) for i, e in m[0] if e != drop.get(i, 0)), m[1]): c for m, c in d.t.items()})


def positive_factor(ds):
    ex = [dict(m[0]) for d in ds for m in d.t]
    com = set(ex[0]) if ex else set()
    for q in ex[1:]:
        com &= set(q)
        if not com:
            break
    inv = [i for i in com if ATOMS[i].kind == "inv" and all(q[i] > 0 for q in ex) and known_nonneg(ATOMS[i].args[0])]
    if not inv:
        return None
    keys = {ATOMS[i].args[0].key() for i in inv}
    drop = {i: min(q[i] for q in ex) for i in inv}
    for i in com:
        a = ATOMS[i]
        if a.kind == "sqrt" and type(a.args[0]) is Sym and all(q[i] == 1 for q in ex) and primitive(a.args[0])[0].key() in keys:
            drop[i] = 1
    return drop


def scale_pos(d):
    """divide by a positive constant and by known-positive common factors"""
    p, mono, c = primitive(d)
    keep = [(i, e) for i, e in mono[0] if not ATOMS[i].pos and e % 2]
    keep2 = [(i, e) for i, e in mono[0] if not ATOMS[i].pos and not e % 2]
    r = p
    if keep or keep2:
        r = p * Sym({(tuple(sorted(keep + keep2)), ()): 1})
    return lift(r) if c > 0 else -lift(r)


def strip_logs(d, op):
    """sum c_i log(P_i) + r  op 0   ->   prod P_i^(c_i) * exp(r) - 1 op 0 , when coefficients are rational after
    dividing by a common positive monomial."""
    if not any(ATOMS[i].kind == "log" for m in d.t for i, e in m[0]):
        return None
    # divide by the factor common to all logarithms
    co = None
    for m in d.t:
        for i, e in m[0]:
            if ATOMS[i].kind == "log":
                q = (tuple((j, x) for j, x in m[0] if j != i), m[1])
                if e != 1 or (co is not None and co != q):
                    return None
                co = q
    if any(not ATOMS[i].pos for i, e in co[0]):
        return None
    p = d if co == ONE else d * Sym({(tuple((j, -x) for j, x in co[0]), tuple((x, -y) for x, y in co[1])): 1})
    if type(p) is not Sym:
        return p
    dens = []
    logs = []
    rest = {}
    for m, v in p.t.items():
        ls = [i for i, e in m[0] if ATOMS[i].kind == "log"]
        if ls:
            if len(m[0]) == 1 and m[0][0][1] == 1 and not m[1]:
                logs.append((ATOMS[ls[0]].args[0], Fraction(v)))
                dens.append(Fraction(v).denominator)
            else:
                return None
        else:
            rest[m] = v
    L = math.lcm(*dens) if dens else 1
    lhs, rhs = Fraction(1), Fraction(1)
    for P, v in logs:
        k = int(v * L)
        if k > 0:
            lhs = spow(P, k) * lhs
        else:
            rhs = spow(P, -k) * rhs
    r = {m: norm(v * L) for m, v in rest.items()}
    if r:
        lhs = lhs * sexp(out(r))
    return lhs - rhs


def clear_denoms(d):
    """multiply an equality's left-hand side by the (non-zero) denominators occurring in it"""
    for _ in range(40):
        if type(d) is not Sym:
            return d
        worst = None
        for m in d.t:
            for i, e in m[0]:
                a = ATOMS[i]
                if a.kind == "inv" or e < 0:
                    if worst is None or i > worst:
                        worst = i
        if worst is None:
            return d
        a = ATOMS[worst]
        if a.kind == "inv":
            k = max((e for m in d.t for i, e in m[0] if i == worst), default=0)
            P = a.args[0]
            acc = Fraction(0)
            powP = {0: Fraction(1)}
            for m, c in d.t.items():
                e = dict(m[0]).get(worst, 0)
                rest = (tuple((i, x) for i, x in m[0] if i != worst), m[1])
                n = k - e
                if n not in powP:
                    powP[n] = spow(P, n)
                acc = acc + Sym({rest: c}) * powP[n]
            d = acc
        else:
            k = -min(e for m in d.t for i, e in m[0] if i == worst)
            d = d * Sym({(((worst, k),), ()): 1})
    return d
