"""Path exploration and solver queries.  Deterministic re-execution with decision prefixes."""
import signal
import sys
import random
import time
from fractions import Fraction

_p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(_p)
import z3  # noqa: E402
sys.path.remove(_p)

from . import sym as S
from .sym import Sym, SBool, ATOMS, ONE, ENG, Unsupported

z3.set_param("smt.random_seed", 1)


class PathAbort(BaseException):
    """This path ends here (infeasible assumption or cap)."""


class PathTimeout(BaseException):
    """One execution of the harness ran longer than path_timeout."""


def _alarm(*a):
    raise PathTimeout()


signal.signal(signal.SIGALRM, _alarm)


def zfrac(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


def _enclose_exp(n):
    """rational enclosure of exp(n), n Fraction"""
    import mpmath  # pragma: no cover
    raise Unsupported


class Tr:
    """Translation of formulas to z3, abstract (nonlinear monomials are free variables) or exact."""

    def __init__(self, exact):
        self.exact = exact
        self.vars = {}
        self.polys = {}
        self.forms = {}
        self.monos = {}
        self.defs = []          # constraints to be asserted, in order of appearance
        self.sqrts = []
        self.den = {}           # exp base monomial -> common denominator
        self.expv = {}
        self.kinds = {}

    def a(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        at = ATOMS[i]
        if at.integer:
            iv = z3.Int("i_%s" % at.name)
            v = z3.ToReal(iv)
        else:
            v = z3.Real(at.name)
        self.vars[i] = v
        d = self.defs.append
        if at.pos:
            d(v > 0)
        elif at.nonneg:
            d(v >= 0)
        k = at.kind
        if k == "min":
            xs = [self.poly(x) for x in at.args]
            for x in xs:
                d(v <= x)
            d(z3.Or([v == x for x in xs]))
        elif k == "abs":
            x = self.poly(at.args[0])
            d(v >= x)
            d(v >= -x)
            d(z3.Or(v == x, v == -x))
        elif k == "inv":
            if self.exact:
                d(v * self.poly(at.args[0]) == 1)
            else:
                d(self.poly(S.lift(S.atom_sym(at) * at.args[0])) == 1)
                x = self.poly(at.args[0])
                d((v > 0) == (x > 0))
                _recip_lemmas(d, x, v)
        elif k == "sqrt":
            x = at.args[0]
            if isinstance(x, Fraction):
                lo, hi = _sqrt_bounds(x)
                d(v >= zfrac(lo))
                d(v <= zfrac(hi))
                if self.exact:
                    d(v * v == zfrac(x))
            else:
                px = self.poly(x)
                if self.exact:
                    d(v * v == px)
                else:
                    d((v == 0) == (px == 0))
                    d(px >= 0)
                    for w, pw in self.sqrts[-12:]:
                        d((v <= w) == (px <= pw))
                        d((v >= w) == (px >= pw))
                    self.sqrts.append((v, px))
        elif k == "floor":
            x = self.poly(at.args[0])
            d(v <= x)
            d(x < v + 1)
        elif k == "round":
            x = self.poly(at.args[0])
            d(v - zfrac(Fraction(1, 2)) <= x)
            d(x <= v + zfrac(Fraction(1, 2)))
        elif k == "ite":
            d(v == z3.If(self.form(at.args[0]), z3.RealVal(1), z3.RealVal(0)))
        elif k == "log":
            x = at.args[0]
            if not isinstance(x, Fraction):
                px = self.poly(x)
                d((v > 0) == (px > 1))
                d((v == 0) == (px == 1))
            else:
                lo, hi = _log_bounds(x)
                d(v >= zfrac(lo))
                d(v <= zfrac(hi))
        return v

    def expvar(self, m, c):
        """exp(c*m): integer power of the base exp(m/L); L fixed at 4*lcm seen so far (grown lazily)."""
        c = Fraction(c)
        L = self.den.get(m)
        if L is None or (c * L).denominator != 1:
            # a new base variable for this denominator, linked to the old one
            newL = c.denominator if L is None else (L * c.denominator)
            old = self.expv.get(m)
            v = z3.Real("e%d_%d" % (len(self.expv) if old is None else id(m) % 10007, newL) + "_%d" % len(self.defs))
            self.defs.append(v > 0)
            if old is not None:
                self.defs.append(_zpow(v, newL // L) == old)
            if m == ONE:
                lo, hi = _exp_bounds(Fraction(1, newL))
                self.defs.append(v >= zfrac(lo))
                self.defs.append(v <= zfrac(hi))
            else:
                pm = self.poly(Sym({m: 1}))
                self.defs.append((v > 1) == (pm > 0))
                self.defs.append((v < 1) == (pm < 0))
            self.den[m] = L = newL
            self.expv[m] = v
        k = int(c * L)
        v = self.expv[m]
        if k >= 0:
            return _zpow(v, k)
        # 1/v as its own variable
        key = ("ri", m, L)
        r = self.monos.get(key)
        if r is None:
            r = self.monos[key] = z3.Real("re_%d" % len(self.defs))
            self.defs.append(r > 0)
            self.defs.append(r * v == 1)
        return _zpow(r, -k)

    def mono(self, m):
        if m == ONE:
            return None
        at, E = m
        if not E and len(at) == 1 and at[0][1] == 1:
            return self.a(at[0][0])
        v = self.monos.get(m)
        if v is not None:
            return v
        if self.exact:
            f = []
            for i, e in at:
                if e > 0:
                    f.append(_zpow(self.a(i), e))
                else:
                    key = ("r", i)
                    r = self.monos.get(key)
                    if r is None:
                        r = self.monos[key] = z3.Real("rcp_%s" % ATOMS[i].name)
                        self.defs.append(r * self.a(i) == 1)
                        if ATOMS[i].pos:
                            self.defs.append(r > 0)
                    f.append(_zpow(r, -e))
            for mm, c in E:
                f.append(self.expvar(mm, c))
            v = f[0]
            for x in f[1:]:
                v = v * x
        else:
            v = z3.Real("m%d_%s" % (len(self.monos), "_".join("%s^%d" % (ATOMS[i].name, e) for i, e in at)))
            pos = all(ATOMS[i].pos for i, e in at)
            nn = all(ATOMS[i].nonneg or e % 2 == 0 for i, e in at)
            if pos:
                self.defs.append(v > 0)
            elif nn:
                self.defs.append(v >= 0)
            for i, e in at:           # defining constraints of the atoms stay relevant
                if ATOMS[i].kind in ("min", "abs", "ite", "floor", "round"):
                    self.a(i)
            if len(at) == 2 and nn and not pos and not E and all(e > 0 for i, e in at):
                self.defs.append((v == 0) == z3.Or([self.a(i) == 0 for i, e in at if not ATOMS[i].pos]))
            if len(at) == 1 and at[0][1] == 2 and not E:
                x = self.a(at[0][0])
                self.defs.append((v == 0) == (x == 0))
                self.defs.append(z3.Implies(x >= 1, v >= x))
                self.defs.append(z3.Implies(x <= -1, v >= -x))
            elif len(at) == 1 and at[0][1] == -1 and not E:
                x = self.a(at[0][0])
                self.defs.append((v > 0) == (x > 0))
                _recip_lemmas(self.defs.append, x, v)
            # indicator * x products: exact linearisation
            if not E and len(at) == 2 and all(e == 1 for i, e in at):
                for (i, j) in ((0, 1), (1, 0)):
                    if ATOMS[at[i][0]].kind == "ite":
                        g = self.form(ATOMS[at[i][0]].args[0])
                        self.defs.append(z3.Implies(g, v == self.a(at[j][0])))
                        self.defs.append(z3.Implies(z3.Not(g), v == 0))
        self.monos[m] = v
        return v

    def poly(self, p):
        if not isinstance(p, Sym):
            return zfrac(p)
        k = p.key()
        v = self.polys.get(k)
        if v is None:
            terms = []
            for m, c in k:
                x = self.mono(m)
                if x is None:
                    terms.append(zfrac(c))
                elif c == 1:
                    terms.append(x)
                else:
                    terms.append(zfrac(c) * x)
            v = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self.polys[k] = v
        return v

    def form(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if not isinstance(f, SBool):
            return z3.BoolVal(bool(f))
        k = f.key()
        v = self.forms.get(k)
        if v is not None:
            return v
        o = f.op
        if o == "lt":
            v = self.poly(f.args[0]) < 0
        elif o == "le":
            v = self.poly(f.args[0]) <= 0
        elif o == "eq":
            v = self.poly(f.args[0]) == 0
        elif o == "and":
            v = z3.And([self.form(x) for x in f.args])
        elif o == "or":
            v = z3.Or([self.form(x) for x in f.args])
        elif o == "not":
            v = z3.Not(self.form(f.args[0]))
        else:
            v = z3.Bool(f.args[0])
        self.forms[k] = v
        return v


_GRID = [Fraction(x) for x in ("1/4", "1/2", "1", "3/2", "2", "3", "4", "6", "8")]


def _recip_lemmas(d, x, v):
    """v * x = 1: tangents and secants of 1/x at fixed points"""
    for t in _GRID:
        d(z3.Implies(x > 0, v >= zfrac(2 / t) - x * zfrac(1 / t ** 2)))
    for p, q in zip(_GRID, _GRID[1:]):
        d(z3.Implies(z3.And(x >= zfrac(p), x <= zfrac(q)), v <= (zfrac(p + q) - x) * zfrac(1 / (p * q))))
    d(z3.Implies(x >= 8, v <= zfrac(Fraction(1, 8))))


def _zpow(v, n):
    r = v
    for _ in range(n - 1):
        r = r * v
    return r if n else z3.RealVal(1)


def _sqrt_bounds(x):
    import math
    k = 10 ** 14
    n = math.isqrt(int(x * k * k))
    return Fraction(n, k), Fraction(n + 1, k)


def _log_bounds(x):
    import math
    v = Fraction(math.log(x))
    e = Fraction(1, 10 ** 12)
    return v - e, v + e


def _exp_bounds(x):
    import math
    v = Fraction(math.exp(x))
    e = Fraction(1, 10 ** 12)
    return v - e, v + e


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0

    def d(self):
        return dict(self.__dict__)


class Engine:
    """Explores one harness case."""

    def __init__(self, max_paths=100000, deadline=None, q_timeout=10000, exact_timeout=20000,
                 feas_exact=False, keep_models=2, path_timeout=60):
        self.max_paths = max_paths
        self.deadline = deadline
        self.q_timeout, self.exact_timeout = q_timeout, exact_timeout
        self.feas_exact = feas_exact
        self.st = Stats()
        self.complete = True
        self.keep_models = keep_models
        self.models = []
        self._rnd = random.Random(20)
        self.violations = []
        self.inconclusive = []
        self.unsupported = []
        self.exceptions = []
        self.path_timeout = path_timeout

    # ------------------------------------------------------------ per path
    def _start(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.known = {}
        self.inputs = {}
        self.obl = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.q_timeout)
        self.tr = Tr(False)
        self.ndefs = 0
        self.nfacts = 0
        self.counter = 0

    def _flush(self):
        if len(S.FACTS) > self.nfacts:
            new = list(S.FACTS.values())[self.nfacts:]
            self.nfacts = len(S.FACTS)
            for p in new[:300]:
                self.tr.defs.append(self.tr.poly(p) >= 0)
        while self.ndefs < len(self.tr.defs):
            self.solver.add(self.tr.defs[self.ndefs])
            self.ndefs += 1

    def _check(self, *fs):
        z = [self.tr.form(f) for f in fs]
        self._flush()
        t = time.time()
        r = self.solver.check(*z)
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unknown:
            self.st.unknown += 1
        return r

    def feasible(self, f):
        r = self._check(f)
        if r == z3.unsat:
            return False
        if self.feas_exact and r == z3.sat:
            r2 = self.exact_check(self.pc + [f], timeout=1500)[0]
            return r2 != z3.unsat
        return True

    def add(self, f):
        if f is True:
            return
        self.pc.append(f)
        z = self.tr.form(f)
        self._flush()
        self.solver.add(z)

    def assume(self, f):
        if not isinstance(f, SBool):
            if not f:
                raise PathAbort
            return
        self._learn(f, True)
        self.add(f)
        if self.pos >= len(self.prefix) and self._check() == z3.unsat:
            raise PathAbort

    def _learn(self, f, d):
        self.known[f.key()] = d
        n = S.bnot(f)
        if isinstance(n, SBool):
            self.known[n.key()] = not d

    def branch(self, f):
        k = f.key()
        d = self.known.get(k)
        if d is not None:
            return d
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
        else:
            if self.deadline and time.time() > self.deadline:
                self.complete = False
                raise PathAbort
            n = S.bnot(f)
            if not self.feasible(f):
                d = False
            elif not self.feasible(n):
                d = True
            else:
                d = True
                self.st.decisions += 1
                self.stack.append(self.trace + [False])
            self.trace.append(d)
            self.pos += 1
        self._learn(f, d)
        self.add(f if d else S.bnot(f))
        return d

    def choose(self, options):
        """nondeterministic choice among a list of concrete options (a schedule, a configuration)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            d = 0
            for j in range(len(options) - 1, 0, -1):
                self.stack.append(self.trace + [j])
            self.pos += 1
            self.st.decisions += len(options) - 1
        self.trace.append(d)
        return options[d]

    def choose_int(self, x, trunc=False):
        """concrete integer value of x: every feasible value is explored on its own path"""
        if type(x) is float:
            raise ValueError("cannot convert float to integer")
        if type(x) is not Sym:
            return int(x)
        nv = S.numeric(x)
        if nv is not None and nv[1] < 1e-10 and abs(nv[0] - round(nv[0])) > 1e-9:
            return int(nv[0])
        n = 0
        while True:
            n += 1
            if n > 200:
                raise Unsupported("integer value with too many alternatives")
            if self.pos < len(self.prefix):
                v, d = self.prefix[self.pos]
                self.pos += 1
                f = self._int_formula(x, v, trunc)
                self.trace.append((v, d))
                self._learn_add(f, d)
                if d:
                    return v
                continue
            r = self._check()
            if r != z3.sat:
                raise PathAbort
            mv = self.solver.model().eval(self.tr.poly(x), model_completion=True)
            self._flush()
            fr = _z2frac(mv)
            v = int(fr)
            f = self._int_formula(x, v, trunc)
            if not isinstance(f, SBool):
                self.trace.append((v, True))
                self.pos += 1
                return v
            if not self.feasible(f):
                # abstract model value is not a real one; retry with the exclusion
                self.add(S.bnot(f))
                self.trace.append((v, False))
                self.pos += 1
                continue
            if self.feasible(S.bnot(f)):
                self.stack.append(self.trace + [(v, False)])
            self.trace.append((v, True))
            self.pos += 1
            self._learn_add(f, True)
            return v

    def _int_formula(self, x, v, trunc):
        if not trunc:
            return S.compare("eq", x, v)
        if v > 0:
            return S.band(x >= v, x < v + 1)
        if v < 0:
            return S.band(x <= v, x > v - 1)
        return S.band(x > -1, x < 1)

    def _learn_add(self, f, d):
        if isinstance(f, SBool):
            self.add(f if d else S.bnot(f))

    def fresh(self, base, **fl):
        self.counter += 1
        return S.var("%s!%d" % (base, self.counter), **fl)

    # ------------------------------------------------------------ exploration
    def explore(self, body):
        """body() runs the harness once in the current path context."""
        self.stack = [[]]
        prev = ENG.cur
        ENG.cur = self
        try:
            while self.stack:
                if self.st.paths + self.st.aborted >= self.max_paths or (self.deadline and time.time() > self.deadline):
                    self.complete = False
                    break
                prefix = self.stack.pop()
                self._start(prefix)
                ENG.njit_depth = 0
                try:
                    signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
                    body()
                except PathAbort:
                    self.st.aborted += 1
                    continue
                except Unsupported as e:
                    import traceback
                    self.unsupported.append("%s @ %s" % (e, traceback.format_exc().strip().splitlines()[-3].strip()))
                    self._note_model()
                    self.st.aborted += 1
                    continue
                except PathTimeout:
                    self.st.paths += 1
                    self.exceptions.append(dict(label="no termination within %ss" % self.path_timeout, kind="timeout",
                                                models=self.candidate_models(list(self.pc)), formula=""))
                    if len(self.exceptions) >= 3:
                        self.complete = False
                        break
                    continue
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    self.st.paths += 1
                    self.exceptions.append(dict(label="%s: %s" % (type(e).__name__, str(e)[:200]), kind="exception",
                                                formula=" < ".join("%s:%d %s" % (f.filename.split("/")[-1], f.lineno, f.name) for f in reversed(tb[-6:])),
                                                models=self.candidate_models(list(self.pc))))
                    if len(self.exceptions) >= 3:
                        self.complete = False
                        break
                    continue
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                self.st.paths += 1
                self._discharge()
                self._note_model()
                if len(self.violations) >= 3:
                    self.complete = False
                    break
        finally:
            ENG.cur = prev

    def check(self, label, f):
        self.obl.append((label, f))

    def _note_model(self):
        if len(self.models) < self.keep_models:
            from . import evalf
            m = evalf.sample(self.inputs, self.pc, self._rnd)
            if m is None:
                m = self.model_inputs(self.pc, quick=True)
            if m is not None:
                self.models.append(m)

    def _discharge(self):
        obl = self.obl
        self.st.obligations += len(obl)
        if not obl:
            return
        bad = [(l, f) for l, f in obl if not isinstance(f, SBool) and not f]
        rest = [(l, f) for l, f in obl if isinstance(f, SBool)]
        self.st.discharged += sum(1 for l, f in obl if not isinstance(f, SBool) and f)
        # the constant obligations still get one solver query: is this path real?
        if bad:
            for l, f in bad:
                self._refute(l, True)
        if rest:
            neg = S.bor(*[S.bnot(f) for l, f in rest])
            r = self._check(neg)
            if r == z3.unsat:
                self.st.unsat += 1
                self.st.discharged += len(rest)
                return
            if len(rest) == 1:
                self._refute(rest[0][0], neg)
                return
            for l, f in rest:
                n = S.bnot(f)
                if self._check(n) == z3.unsat:
                    self.st.unsat += 1
                    self.st.discharged += 1
                else:
                    self._refute(l, n)
                    if len(self.violations) >= 3:
                        return

    def _refute(self, label, neg):
        """the abstract query could not discharge it: decide exactly"""
        fs = self.pc + ([neg] if isinstance(neg, SBool) else [])
        r, s, tr = self.exact_check(fs, timeout=self.exact_timeout)
        if r == z3.unsat:
            self.st.unsat += 1
            self.st.discharged += 1
            return
        if r == z3.sat:
            self.st.sat += 1
            ms = self.candidate_models(fs)
            self.violations.append(dict(label=label, models=ms, formula=repr(neg)[:400]))
        else:
            ms = self.candidate_models(fs)
            self.inconclusive.append(dict(label=label, models=ms, formula=repr(neg)[:400]))

    def exact_check(self, fs, timeout, extra=None):
        tr = Tr(True)
        s = z3.Solver()
        s.set("timeout", int(timeout))
        z = [tr.form(f) for f in fs]
        if extra:
            z += extra(tr)
        for d in tr.defs:
            s.add(d)
        for f in z:
            s.add(f)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unknown:
            self.st.unknown += 1
        return r, s, tr

    def _inputs_of(self, s, tr):
        m = s.model()
        vals = {}
        for name, (kind, x) in self.inputs.items():
            if kind == "real":
                e = m.eval(tr.poly(x), model_completion=True)
                vals[name] = float(_z2frac(e))
            else:
                vals[name] = x
        return vals

    def model_inputs(self, fs, quick=False):
        def ext_int(tr):
            out = []
            for name, (kind, x) in self.inputs.items():
                if kind == "real":
                    v = tr.poly(x)
                    out += [v <= 8, v >= -8]
            return out
        if not any(k == "real" for k, x in self.inputs.values()):
            return {n: x for n, (k, x) in self.inputs.items()}
        for extra in (ext_int, None):
            r, s, tr = self.exact_check(fs, timeout=1500 if quick else 5000, extra=extra)
            if r == z3.sat:
                return self._inputs_of(s, tr)
            if r == z3.unknown and quick:
                break
        # fall back to the abstract model
        t = self.solver.check()
        if t == z3.sat:
            try:
                return self._inputs_of(self.solver, self.tr)
            except z3.Z3Exception:
                return None
        return None

    def candidate_models(self, fs):
        """several concrete assignments for one counterexample, the tidiest first"""
        out = []
        reals = [(n, x) for n, (k, x) in self.inputs.items() if k == "real"]

        def ext(bound, grid):
            def f(tr):
                r = []
                for i, (n, x) in enumerate(reals):
                    v = tr.poly(x)
                    r += [v <= bound, v >= -bound]
                    if grid:
                        k = z3.Int("grid_%d" % i)
                        r.append(v * grid == z3.ToReal(k))
                return r
            return f
        margin = []
        last = fs[-1] if fs else None
        if isinstance(last, SBool):
            mg = _with_margin(last)
            if mg is not None:
                margin = fs[:-1] + [mg]
        tries = []
        if margin:
            tries += [(margin, ext(8, 0), 4000), (margin, None, 4000)]
        tries += [(fs, ext(4, 2), 3000), (fs, ext(8, 0), 4000), (fs, None, 6000)]
        for f, e, to in tries:
            r, s, tr = self.exact_check(f, timeout=to, extra=e)
            if r == z3.sat:
                try:
                    m = self._inputs_of(s, tr)
                except Exception:
                    continue
                if m not in out:
                    out.append(m)
            if len(out) >= 3:
                break
        if not out:
            m = self.model_inputs(fs)
            if m:
                out.append(m)
        return out


def _with_margin(f, eps=Fraction(1, 20)):
    if not isinstance(f, SBool):
        return None
    if f.op in ("lt", "le"):
        return S.mkcmp("le", S.lift(f.args[0] + eps))
    if f.op == "not" and f.args[0].op == "eq":
        p = f.args[0].args[0]
        return S.bor(S.mkcmp("le", S.lift(p + eps)), S.mkcmp("le", S.lift(eps - p)))
    if f.op == "or":
        xs = [_with_margin(x, eps) for x in f.args]
        xs = [x for x in xs if x is not None]
        return S.bor(*xs) if xs else None
    if f.op == "and":
        return S.band(*[(_with_margin(x, eps) or x) for x in f.args])
    return None


def _z2frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise z3.Z3Exception("no value")
