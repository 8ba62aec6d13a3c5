"""What a harness sees.  The same harness runs symbolically (SymWorld) and on the real library (ConcWorld)."""
import importlib
import math
from fractions import Fraction


class Skip(BaseException):
    """assumption not met by a concrete input"""


class BaseWorld:
    def mod(self, name="tslearn.metrics"):
        return importlib.import_module(name)

    def raises(self, fn, *exc):
        """None if fn() returns, else the name of the exception class (only those listed, others propagate)"""
        try:
            fn()
        except exc or (Exception,) as e:
            return type(e).__name__
        return None

    def warping_paths(self, n, m, allowed=None):
        """all warping paths of an n x m grid (restricted to allowed cells)"""
        out = []

        def go(i, j, p):
            if allowed is not None and not allowed(i, j):
                return
            p = p + [(i, j)]
            if (i, j) == (n - 1, m - 1):
                out.append(p)
                return
            for a, b in ((1, 0), (0, 1), (1, 1)):
                if i + a < n and j + b < m:
                    go(i + a, j + b, p)
        go(0, 0, [])
        return out

    def is_warping_path(self, p, n, m):
        p = [(int(i), int(j)) for i, j in p]
        if not p or p[0] != (0, 0) or p[-1] != (n - 1, m - 1):
            return False
        return all((b[0] - a[0], b[1] - a[1]) in ((1, 0), (0, 1), (1, 1)) for a, b in zip(p, p[1:]))

    def lst(self, a):
        return a.tolist() if hasattr(a, "tolist") else a

    def flat(self, a):
        out = []

        def go(x):
            if hasattr(x, "tolist"):
                x = x.tolist()
            if isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
            else:
                out.append(x)
        go(a)
        return out

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def sqdist(self, p, q):
        return self.sum([(a - b) * (a - b) for a, b in zip(p, q)])

    def shape(self, a):
        return tuple(int(x) for x in a.shape)

    def all_eq(self, a, b):
        """arrays / nested lists equal elementwise (NaN equals NaN)"""
        fa, fb = self.flat(a), self.flat(b)
        if len(fa) != len(fb):
            return False
        return self.and_(*[self.eq(x, y) for x, y in zip(fa, fb)])

    def same(self, label, a, b):
        """check shapes and values"""
        sa, sb = getattr(a, "shape", None), getattr(b, "shape", None)
        if sa is not None and sb is not None:
            self.check(label + " (shape)", tuple(sa) == tuple(sb))
            if tuple(sa) != tuple(sb):
                return
        self.check(label, self.all_eq(a, b))


class SymWorld(BaseWorld):
    symbolic = True

    def __init__(self, eng):
        from . import sym as S, arr as A
        self.S, self.A, self.e = S, A, eng
        self.nan, self.inf = S.NAN, S.INF

    # inputs
    def real(self, name, lo=None, hi=None, pos=False):
        v = self.S.var(name, pos=pos)
        self.e.inputs[name] = ("real", v)
        if lo is not None:
            self.assume(v >= self.c(lo))
        if hi is not None:
            self.assume(v <= self.c(hi))
        return v

    def int(self, name, lo, hi):
        v = self.S.var(name, integer=True)
        self.e.assume(self.S.band(v >= lo, v <= hi))
        r = self.e.choose_int(v)
        self.e.inputs[name] = ("const", r)
        return r

    def choice(self, name, options):
        options = list(options)
        i = self.e.choose(range(len(options)))
        self.e.inputs[name] = ("const", i)
        return options[i]

    def bool(self, name):
        return self.choice(name, [False, True])

    def c(self, x):
        return self.S.num(x)

    def arr(self, x, dtype=float):
        return self.A.mkarray(x, dtype)

    def reals(self, name, *shape, lo=None, hi=None, pos=False):
        import numpy as np
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            o[i] = self.real(name + "_".join(map(str, ("",) + i)) if False else name + "".join("_%d" % q for q in i), lo, hi, pos)
        return o.view(self.A.SArr)

    def tensor(self, a, share=False):
        """torch tensor with the values of an array (a copy unless share)"""
        from .shim import torchshim
        return torchshim.T(a) if share else torchshim.tensor(a)

    # logic
    def assume(self, c):
        self.e.assume(c)

    def check(self, label, c):
        import numpy as np
        if isinstance(c, (np.bool_,)):
            c = bool(c)
        self.e.check(label, c)

    def eq(self, a, b):
        S = self.S
        a, b = S.num(a), S.num(b)
        if S.is_special(a) or S.is_special(b):
            return S.is_special(a) and S.is_special(b) and (a == b or (a != a and b != b))
        return S.compare("eq", a, b)

    def exactly(self, a, b):
        """equality without tolerance in replays"""
        return self.eq(a, b)

    def le(self, a, b):
        return self.S.compare("le", a, b)

    def lt(self, a, b):
        return self.S.compare("lt", a, b)

    def and_(self, *x):
        return self.S.band(*x)

    def or_(self, *x):
        return self.S.bor(*x)

    def not_(self, x):
        return self.S.bnot(x)

    def implies(self, a, b):
        return self.S.bor(self.S.bnot(a), b)

    def ite(self, c, a, b):
        return self.S.site(c, a, b)

    def truth(self, c):
        """decide a condition (forks symbolically)"""
        return self.S.truth(c)

    def torch_leaf(self, a):
        return self.tensor(a)

    def torch_backward(self, loss, weights, leaf):
        """gradient of (weights * loss).sum() with respect to the tensor the custom autograd function was given"""
        cls, ctx = loss.grad_fn
        return cls.backward(ctx, weights)[0]

    def tensor_like(self, x):
        return self.A.TENSOR is not None and type(x) is self.A.TENSOR

    # math
    def min(self, xs):
        return self.S.smin(list(xs))

    def max(self, xs):
        return self.S.smax(list(xs))

    def sqrt(self, x):
        return self.S.ssqrt(x)

    def exp(self, x):
        return self.S.sexp(x)

    def log(self, x):
        return self.S.slog(x)

    def abs(self, x):
        return self.S.sabs(x)

    def div(self, a, b):
        return self.S.sdiv(a, b)

    def isnan(self, x):
        return type(x) is float and x != x

    def rng(self, name, script=None):
        return ScriptedRNG(self, name, script)

    def deriv(self, e, x):
        from .calculus import deriv
        return deriv(e, x)

    def hook(self, name, f):
        """replace an unmodelled numeric library routine by a contract model (symbolic world only)"""
        from .shim import npshim
        npshim.HOOKS[name] = f

    def schedule(self, reverse):
        from .shim import others
        others.PAR["reverse"] = reverse


class Fuzzy:
    """truth value with tolerance: len = holds within tolerance, strict = holds with margin"""
    __slots__ = ("l", "s")

    def __init__(self, l, s):
        self.l, self.s = bool(l), bool(s)

    def __bool__(self):
        return self.l

    def __and__(self, o):
        o = fz(o)
        return Fuzzy(self.l and o.l, self.s and o.s)

    def __or__(self, o):
        o = fz(o)
        return Fuzzy(self.l or o.l, self.s or o.s)

    def __invert__(self):
        return Fuzzy(not self.s, not self.l)


def fz(x):
    return x if isinstance(x, Fuzzy) else Fuzzy(bool(x), bool(x))


class ConcWorld(BaseWorld):
    symbolic = False
    TOL = 1e-6

    def __init__(self, inputs):
        import numpy as np
        self.np = np
        self.inputs = inputs
        self.nan, self.inf = float("nan"), float("inf")
        self.failed = []
        self.passed = 0
        self.undo = []
        self.stand_ins = []

    def real(self, name, lo=None, hi=None, pos=False):
        v = float(self.inputs.get(name, 1.0 if pos else 0.0))
        if lo is not None and v < lo - 1e-9 or hi is not None and v > hi + 1e-9:
            raise Skip(name)
        if pos and v <= 0:
            raise Skip(name)
        return v

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def choice(self, name, options):
        return list(options)[int(self.inputs.get(name, 0))]

    def bool(self, name):
        return self.choice(name, [False, True])

    def c(self, x):
        return float(x) if isinstance(x, Fraction) else x

    def arr(self, x, dtype=float):
        return self.np.array(x, dtype=dtype)

    def reals(self, name, *shape, lo=None, hi=None, pos=False):
        np = self.np
        o = np.empty(shape)
        for i in np.ndindex(shape):
            o[i] = self.real(name + "".join("_%d" % q for q in i), lo, hi, pos)
        return o

    def tensor(self, a, share=False):
        import torch
        t = torch.from_numpy(a)
        return t if share else t.clone()

    def torch_leaf(self, a):
        return self.tensor(a).requires_grad_()

    def torch_backward(self, loss, weights, leaf):
        loss.backward(weights)
        return leaf.grad

    def tensor_like(self, x):
        import torch
        return torch.is_tensor(x)

    def assume(self, c):
        if not (c.l if isinstance(c, Fuzzy) else c):
            raise Skip("assumption")

    def check(self, label, c):
        if fz(c).l:
            self.passed += 1
        else:
            self.failed.append(label)

    def _t(self, a, b):
        a, b = float(a), float(b)
        return self.TOL * (1 + abs(a) + abs(b))

    def exactly(self, a, b):
        return Fuzzy(float(a) == float(b), float(a) == float(b))

    def eq(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return Fuzzy(a == b, a == b)
        a, b = float(a), float(b)
        if a != a or b != b:
            r = a != a and b != b
            return Fuzzy(r, r)
        if math.isinf(a) or math.isinf(b):
            return Fuzzy(a == b, a == b)
        return Fuzzy(abs(a - b) <= self._t(a, b), a == b)

    def le(self, a, b):
        a, b = float(a), float(b)
        if a != a or b != b:
            return Fuzzy(False, False)
        if math.isinf(a) or math.isinf(b):
            return Fuzzy(a <= b, a <= b)
        t = self._t(a, b)
        return Fuzzy(a <= b + t, a <= b - t)

    def lt(self, a, b):
        return self.le(a, b)

    def and_(self, *x):
        r = Fuzzy(True, True)
        for y in x:
            r = r & y
        return r

    def or_(self, *x):
        r = Fuzzy(False, False)
        for y in x:
            r = r | y
        return r

    def not_(self, x):
        return ~fz(x)

    def implies(self, a, b):
        return (~fz(a)) | fz(b)

    def ite(self, c, a, b):
        return a if c else b

    def truth(self, c):
        return bool(c)

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def sqrt(self, x):
        return math.sqrt(max(float(x), 0.0))

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def abs(self, x):
        return abs(x)

    def div(self, a, b):
        return a / b

    def isnan(self, x):
        return x != x

    def rng(self, name, script=None):
        return make_conc_rng(self, name, script)

    PATCH = {"minimize": ("scipy.optimize", "minimize"), "kmeanspp": ("sklearn.cluster._kmeans", "_kmeans_plusplus"),
             "argpartition": ("numpy", "argpartition"), "SVC": ("sklearn.svm", "SVC"), "SVR": ("sklearn.svm", "SVR")}

    def hook(self, name, f):
        """stand in for a library routine: rebinds it wherever tslearn imported it"""
        if name not in self.PATCH:
            return
        import sys
        mod, attr = self.PATCH[name]
        real = getattr(importlib.import_module(mod), attr)
        if name == "argpartition":
            f = legal_partition
        if name == "kmeanspp":
            g = f
            f = lambda X, n_clusters, x_squared_norms=None, sample_weight=None, random_state=None, n_local_trials=None: g(X, n_clusters, random_state)
        for m in [importlib.import_module(mod)] + [m for k, m in list(sys.modules.items()) if k.startswith("tslearn") and m is not None]:
            for k, v in list(vars(m).items()):
                if v is real:
                    setattr(m, k, f)
                    self.undo.append((m, k, real))
        self.stand_ins.append((f, real))

    def close(self):
        import sys
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        for f, real in reversed(self.stand_ins):      # modules imported meanwhile
            for m in [m for k, m in list(sys.modules.items()) if k.startswith("tslearn") and m is not None]:
                for k, v in list(vars(m).items()):
                    if v is f:
                        setattr(m, k, real)

    def schedule(self, reverse):
        pass


def legal_partition(a, kth, axis=-1, **k):
    """numpy's small-array partition happens to sort; the replay uses another result its documentation allows: everything before
    the kth entry and everything after it in reverse order (as symbolically)"""
    import numpy as np
    r = np.moveaxis(np.argsort(a, axis=axis, kind="stable"), axis, -1).copy()
    ks = [int(x) for x in np.atleast_1d(np.asarray(kth))]
    if len(ks) == 1:
        q = ks[0] % r.shape[-1]
        r[..., :q] = r[..., :q][..., ::-1].copy()
        r[..., q + 1:] = r[..., q + 1:][..., ::-1].copy()
    return np.moveaxis(r, -1, axis)


class ScriptedRNG:
    """random generator whose outputs are arbitrary: reals are solver variables, discrete draws are explored choices"""
    _scripted = True

    def __init__(self, W, name, script=None):
        self.W, self.name, self.k, self.script, self.pos = W, name, 0, script, 0

    def _n(self):
        self.k += 1
        return "%s.%d" % (self.name, self.k)

    def _int(self, n, lo, hi):
        """explored choice, or the next number of a given script (reduced to the range)"""
        if self.script is None:
            return self.W.int(n, lo, hi)
        self.pos += 1
        return lo + self.script[(self.pos - 1) % len(self.script)] % (hi - lo + 1)

    def randn(self, *shape):
        return self.W.reals(self._n(), *shape) if shape else self.W.real(self._n())

    def normal(self, loc=0, scale=1, size=None):
        size = () if size is None else ((size,) if isinstance(size, int) else tuple(size))
        return loc + scale * (self.W.reals(self._n(), *size) if size else self.W.real(self._n()))

    def rand(self, *shape):
        return self.W.reals(self._n(), *shape, lo=0, hi=1) if shape else self.W.real(self._n(), 0, 1)

    def random_sample(self, size=None):
        return self.rand(*(() if size is None else ((size,) if isinstance(size, int) else tuple(size))))

    def random(self, size=None):
        return self.random_sample(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random_sample(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        n = self._n()
        if size is None:
            return self._int(n, int(low), int(high) - 1)
        size = (size,) if isinstance(size, int) else tuple(size)
        tot = 1
        for s in size:
            tot *= s
        v = [self._int("%s_%d" % (n, i), int(low), int(high) - 1) for i in range(tot)]
        return self.W.arr(v, int).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        n = self._n()
        pool = list(range(a)) if not hasattr(a, "__len__") else list(range(len(a)))
        vals = a if hasattr(a, "__len__") else None
        if size is None:
            i = pool[self._int(n, 0, len(pool) - 1)]
            return i if vals is None else vals[i]
        cnt = size if isinstance(size, int) else int(size[0])
        idx = []
        for q in range(cnt):
            j = self._int("%s_%d" % (n, q), 0, len(pool) - 1)
            idx.append(pool[j])
            if not replace:
                pool.pop(j)
        r = self.W.arr(idx, int)
        return r if vals is None else vals[r]

    def permutation(self, a):
        n = a if isinstance(a, int) else len(a)
        p = self.choice(n, n, replace=False)
        return p if isinstance(a, int) else a[p]

    def shuffle(self, a):
        p = self.permutation(len(a))
        b = [a[int(i)] for i in p]
        for i, x in enumerate(b):
            a[i] = x

    def get_state(self, *a, **k):
        return ("scripted", self.k)

    def __deepcopy__(self, memo):
        return self


_RNG_CLASS = None


def make_conc_rng(W, name, script=None):
    import numpy as np
    global _RNG_CLASS
    if _RNG_CLASS is None:
        ns = {k: v for k, v in ScriptedRNG.__dict__.items() if callable(v) and k not in ("__init__", "__deepcopy__", "get_state")}

        class R(np.random.RandomState):
            def __init__(self):
                super().__init__(0)

            def __deepcopy__(self, memo):
                return self

            def __copy__(self):
                return self
        for k, v in ns.items():
            setattr(R, k, v)
        _RNG_CLASS = R
    r = _RNG_CLASS()
    r.W, r.name, r.k, r.script, r.pos = W, name, 0, script, 0
    return r
