"""Substitutes for the other modules tslearn imports.  Each models the documented contract of the real one."""
import builtins
import functools
import importlib
import math
import types
from fractions import Fraction

import numpy as np

from .. import arr as A
from .. import sym as S
from ..arr import SArr, base, mkarray, to_obj, float_obj, float_
from ..sym import Sym, SBool, Unsupported, ENG
from . import npshim
from .npshim import np_

MODULES = {}


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    MODULES[name] = m
    return m


class Proxy(types.ModuleType):
    """real module with some attributes replaced"""

    def __init__(self, name, **over):
        super().__init__(name)
        self.__dict__.update(over)
        self.__dict__["_real_name"] = name
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(importlib.import_module(self._real_name), n)


def proxy(name, **over):
    MODULES[name] = Proxy(name, **over)
    return MODULES[name]


# ------------------------------------------------------------------ numpy
MODULES["numpy"] = np_
MODULES["numpy.linalg"] = np_.linalg
MODULES["numpy.fft"] = np_.fft
MODULES["numpy.random"] = np_.random
MODULES["numpy.lib"] = np_.lib
MODULES["numpy.lib.stride_tricks"] = np_.lib.stride_tricks


# ------------------------------------------------------------------ numba
def njit(*a, **k):
    def deco(f):
        @functools.wraps(f)
        def w(*args, **kw):
            ENG.njit_depth += 1
            try:
                return f(*args, **kw)
            finally:
                ENG.njit_depth -= 1
        w.py_func = f
        return w
    if len(a) == 1 and callable(a[0]) and not k:
        return deco(a[0])
    return deco


class objmode:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        self.d = ENG.njit_depth
        ENG.njit_depth = 0

    def __exit__(self, *a):
        ENG.njit_depth = self.d
        return False


def prange(*a):
    """iterations of a parallel loop may run in any order: forward or backward, chosen per exploration"""
    r = range(*a)
    if PAR["reverse"]:
        return reversed(r)
    return r


PAR = {"reverse": False}
mod("numba", njit=njit, jit=njit, prange=prange, objmode=objmode, vectorize=njit, guvectorize=njit,
    set_num_threads=lambda n: None, get_num_threads=lambda: 1, float64=float_, int64=int, boolean=bool, types=types.SimpleNamespace(),
    typed=types.SimpleNamespace(List=list, Dict=dict))
MODULES["numba"].__path__ = []


# ------------------------------------------------------------------ joblib
def delayed(f):
    def g(*a, **k):
        return (f, a, k)
    return g


class Parallel:
    """All tasks run, in an order chosen by PAR; results come back in submission order unless return_as='generator_unordered',
    where they come in completion order."""

    def __init__(self, n_jobs=None, return_as="list", **k):
        self.return_as = return_as

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, tasks):
        tasks = list(tasks)
        order = list(range(len(tasks)))
        if PAR["reverse"]:
            order.reverse()
        res = [None] * len(tasks)
        for i in order:
            f, a, k = tasks[i]
            res[i] = f(*a, **k)
        if self.return_as == "generator_unordered":
            return iter([res[i] for i in order])
        if self.return_as == "generator":
            return iter(res)
        return res


mod("joblib", Parallel=Parallel, delayed=delayed, cpu_count=lambda *a: 4, effective_n_jobs=lambda n=None: 1 if n is None else (4 if n < 0 else n))
proxy("sklearn.utils.parallel", Parallel=Parallel, delayed=delayed)


# ------------------------------------------------------------------ math
def _m(f, g):
    def h(x):
        x = S.num(x)
        return f(x)
    return h


def _mathlog(x, b=None):
    x = S.num(x)
    if type(x) is not Sym and x <= 0:
        raise ValueError("math domain error")
    r = S.slog(x)
    return r if b is None else S.sdiv(r, S.slog(b))


def _mathsqrt(x):
    x = S.num(x)
    if type(x) is not Sym and x < 0:
        raise ValueError("math domain error")
    return S.ssqrt(x)


def _isclose(a, b, *, rel_tol=Fraction(1, 10 ** 9), abs_tol=0):
    a, b = S.num(a), S.num(b)
    if S.is_special(a) or S.is_special(b):
        return a == b
    if b == 0 and type(b) is not Sym and not abs_tol:
        return S.truth(S.compare("eq", a, 0))
    if a == 0 and type(a) is not Sym and not abs_tol:
        return S.truth(S.compare("eq", b, 0))
    t = S.smax(S.smax(S.sabs(a), S.sabs(b)) * S.num(rel_tol), S.num(abs_tol))
    return S.truth(S.compare("le", S.sabs(a - b), t))


class MathMod(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return S.num(f)

        def g(*a):
            if any(type(S.num(x)) is Sym for x in a):
                raise Unsupported("math.%s" % n)
            r = f(*[float(x) if isinstance(x, Fraction) and x.denominator != 1 else (int(x) if isinstance(x, Fraction) else x) for x in a])
            return S.num(r)
        return g


mm = MathMod("math")
mm.__dict__.update(sqrt=_mathsqrt, exp=S.sexp, log=_mathlog, fabs=S.sabs, isclose=_isclose, pow=S.spow, inf=S.INF, nan=S.NAN,
                   isnan=lambda x: type(x) is float and x != x, isinf=lambda x: type(x) is float and x in (S.INF, -S.INF),
                   isfinite=lambda x: type(x) is not float, floor=lambda x: int(S.sfloor(x)) if type(S.num(x)) is not Sym else S.num(x).__floor__(),
                   ceil=lambda x: -((-S.num(x)).__floor__()) if type(S.num(x)) is Sym else math.ceil(x),
                   hypot=lambda *a: S.ssqrt(sum(S.num(x) * S.num(x) for x in a)))
MODULES["math"] = mm


# ------------------------------------------------------------------ distances
def _sq(u, v):
    return S.sos(npshim._sum([(x - y) * (x - y) for x, y in zip(u, v)]))


def _metric_fn(metric, kw):
    if callable(metric):
        return lambda u, v: metric(u.view(SArr) if isinstance(u, np.ndarray) else u, v.view(SArr) if isinstance(v, np.ndarray) else v, **kw)
    m = metric
    if m == "sqeuclidean":
        return _sq
    if m in ("euclidean", "l2"):
        return lambda u, v: S.ssqrt(_sq(u, v))
    if m in ("cityblock", "manhattan", "l1"):
        return lambda u, v: npshim._sum([S.sabs(x - y) for x, y in zip(u, v)])
    if m == "chebyshev":
        return lambda u, v: S.smax([S.sabs(x - y) for x, y in zip(u, v)])
    if m == "cosine":
        return lambda u, v: 1 - S.sdiv(npshim._sum([x * y for x, y in zip(u, v)]),
                                       S.ssqrt(npshim._sum([x * x for x in u])) * S.ssqrt(npshim._sum([x * x for x in v])))
    raise Unsupported("distance metric %s" % m)


def cdist(XA, XB, metric="euclidean", *, out=None, **kw):
    a, b = float_obj(np_.asarray(XA)), float_obj(np_.asarray(XB))
    if a.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    if b.ndim != 2:
        raise ValueError("XB must be a 2-dimensional array.")
    if a.shape[1] != b.shape[1]:
        raise ValueError("XA and XB must have the same number of columns (i.e. feature dimension.)")
    f = _metric_fn(metric, kw)
    o = np.empty((len(a), len(b)), dtype=object)
    for i in range(len(a)):
        for j in range(len(b)):
            o[i, j] = A._tofloat(f(a[i], b[j]))
    return o.view(SArr)


def pdist(X, metric="euclidean", **kw):
    a = float_obj(np_.asarray(X))
    f = _metric_fn(metric, kw)
    return mkarray([A._tofloat(f(a[i], a[j])) for i in range(len(a)) for j in range(i + 1, len(a))], float)


def squareform(X, *a, **k):
    X = np_.asarray(X)
    if X.ndim == 1:
        n = int((1 + math.isqrt(1 + 8 * len(X))) // 2)
        o = np_.zeros((n, n))
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                o[i, j] = X[k]
                o[j, i] = X[k]
                k += 1
        return o
    n = len(X)
    return mkarray([X[i, j] for i in range(n) for j in range(i + 1, n)], float)


def euclidean_distances(X, Y=None, *, squared=False, **k):
    return cdist(X, X if Y is None else Y, "sqeuclidean" if squared else "euclidean")


def pairwise_distances(X, Y=None, metric="euclidean", *, n_jobs=None, **kw):
    if metric == "precomputed":
        return np_.asarray(X)
    kw.pop("force_all_finite", None)
    kw.pop("ensure_all_finite", None)
    return cdist(X, X if Y is None else Y, metric, **kw)


mod("scipy.spatial.distance", cdist=cdist, pdist=pdist, squareform=squareform,
    sqeuclidean=lambda u, v: _sq(u, v), euclidean=lambda u, v: S.ssqrt(_sq(u, v)))
mod("scipy.spatial", distance=MODULES["scipy.spatial.distance"])


def pairwise_kernels(X, Y=None, metric="linear", *, filter_params=False, n_jobs=None, **kw):
    a = float_obj(np_.asarray(X))
    b = a if Y is None else float_obj(np_.asarray(Y))
    o = np.empty((len(a), len(b)), dtype=object)
    if metric == "precomputed":
        return np_.asarray(X)
    for i in range(len(a)):
        for j in range(len(b)):
            d = npshim._sum([x * y for x, y in zip(a[i], b[j])])
            if metric == "linear":
                o[i, j] = d
            elif metric == "rbf":
                g = kw.get("gamma")
                g = S.sdiv(1, a.shape[1]) if g is None else g
                o[i, j] = S.sexp(-(_sq(a[i], b[j]) * g))
            elif metric in ("poly", "polynomial"):
                g = kw.get("gamma")
                g = S.sdiv(1, a.shape[1]) if g is None else g
                o[i, j] = S.spow(d * g + kw.get("coef0", 1), kw.get("degree", 3))
            elif callable(metric):
                o[i, j] = metric(a[i].view(SArr), b[j].view(SArr), **kw)
            else:
                raise Unsupported("kernel %s" % metric)
    return o.view(SArr)


def _regression(loss):
    def f(y_true, y_pred, *, sample_weight=None, multioutput="uniform_average"):
        a, b = check_array(y_true, ensure_2d=False), check_array(y_pred, ensure_2d=False)
        a = a.reshape(-1, 1) if a.ndim == 1 else a
        b = b.reshape(-1, 1) if b.ndim == 1 else b
        if len(a) != len(b):
            raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(a), len(b)])
        if a.shape[1] != b.shape[1]:
            raise ValueError("y_true and y_pred have different number of output (%d!=%d)" % (a.shape[1], b.shape[1]))
        if sample_weight is not None and len(sample_weight) != len(a):
            raise ValueError("Found input variables with inconsistent numbers of samples")
        e = np_.average(loss(a - b), axis=0, weights=sample_weight)
        if isinstance(multioutput, str):
            if multioutput == "raw_values":
                return e
            multioutput = None
        return np_.average(e, weights=multioutput)
    return f


mean_absolute_error = _regression(lambda e: np_.abs(e))
mean_squared_error = _regression(lambda e: e * e)
def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    a, b = np.ravel(to_obj(npshim._arr(y_true))).tolist(), np.ravel(to_obj(npshim._arr(y_pred))).tolist()
    if len(a) != len(b):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(a), len(b)))
    w = [1] * len(a) if sample_weight is None else list(to_obj(npshim._arr(sample_weight)).ravel())
    hit = npshim._sum([u for u, x, y in zip(w, a, b) if S.truth(npshim._eq(x, y))])
    return S.sdiv(hit, npshim._sum(w)) if normalize else hit


def confusion_matrix(y_true, y_pred, *, labels=None, sample_weight=None, normalize=None):
    a, b = np.ravel(to_obj(npshim._arr(y_true))).tolist(), np.ravel(to_obj(npshim._arr(y_pred))).tolist()
    if len(a) != len(b):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(a), len(b)))
    if sample_weight is not None:
        raise Unsupported("confusion_matrix weights")
    L = sorted(set(a) | set(b)) if labels is None else np.ravel(to_obj(npshim._arr(labels))).tolist()
    M = [[0] * len(L) for _ in L]
    for x, y in zip(a, b):
        if x in L and y in L:
            M[L.index(x)][L.index(y)] += 1
    if normalize is not None:
        M = [[Fraction(v) for v in r] for r in M]
        tot = sum(map(sum, M))
        col = [sum(r[j] for r in M) for j in range(len(L))]
        M = [[(v / d if d else Fraction(0)) for v, d in ((v, dict(true=sum(r), pred=col[j], all=tot)[normalize]) for j, v in enumerate(r))] for r in M]
        return mkarray(M, float)
    return mkarray(M, int)


proxy("sklearn.metrics", mean_absolute_error=mean_absolute_error, mean_squared_error=mean_squared_error, accuracy_score=accuracy_score, confusion_matrix=confusion_matrix)


def _plain(x):
    o = to_obj(npshim._arr(x))
    return np.array([v if isinstance(v, str) else float(v) for v in o.ravel()])


def train_test_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    """the real routine splits the positions (its random choices depend on nothing else)"""
    import sklearn.model_selection as ms
    arrays = [npshim._arr(a) for a in arrays]
    n = {len(a) for a in arrays}
    if len(n) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(a) for a in arrays])
    test_size, train_size = [float(v) if isinstance(v, Fraction) else v for v in (test_size, train_size)]
    if isinstance(random_state, npshim.RandomState):
        random_state = random_state.__dict__.get("_r", None) or 0
    tr, te = ms.train_test_split(np.arange(n.pop()), test_size=test_size, train_size=train_size, random_state=random_state, shuffle=shuffle,
                                 stratify=None if stratify is None else _plain(stratify))
    out = []
    for a in arrays:
        out += [a[[int(i) for i in tr]], a[[int(i) for i in te]]]
    return out


proxy("sklearn.model_selection", train_test_split=train_test_split)
proxy("sklearn.metrics.pairwise", euclidean_distances=euclidean_distances, pairwise_distances=pairwise_distances, pairwise_kernels=pairwise_kernels)


# ------------------------------------------------------------------ scipy
class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=S.NAN, assume_sorted=False):
        if kind not in ("linear", "slinear"):
            raise Unsupported("interp1d kind %s" % kind)
        self.x, self.y, self.axis = np_.asarray(x), np_.asarray(y), axis
        self.fill = fill_value

    def __call__(self, t):
        y = np.moveaxis(to_obj(self.y), self.axis, 0)
        x = list(to_obj(self.x))
        flat = y.reshape(len(x), -1)
        if len(x) == 0:
            raise ValueError("x and y arrays must have at least 1 entry")
        ts = to_obj(np_.asarray(t))
        cols = []
        for c in range(flat.shape[1]):
            def one(v, c=c):
                if len(x) == 1:
                    return flat[0, c] if S.truth(npshim._eq(v, x[0])) else (flat[0, c] if self.fill == "extrapolate" else _oob())
                if S.truth(S.compare("lt", v, x[0])) or S.truth(S.compare("lt", x[-1], v)):
                    if self.fill != "extrapolate":
                        return _oob()
                i = 0
                while i < len(x) - 2 and S.truth(S.compare("lt", x[i + 1], v)):
                    i += 1
                return flat[i, c] + (flat[i + 1, c] - flat[i, c]) * S.sdiv(v - x[i], x[i + 1] - x[i])
            o = np.empty(ts.shape, dtype=object)
            for i in np.ndindex(ts.shape):
                o[i] = one(ts[i])
            cols.append(o)
        r = np.stack(cols, -1) if cols else np.empty(ts.shape + (0,), dtype=object)
        r = r.reshape(ts.shape + y.shape[1:])
        if y.ndim > 1 and ts.ndim == 1:
            r = np.moveaxis(r, 0, self.axis)
        return r.copy().view(SArr)


def _oob():
    raise ValueError("A value in x_new is out of the interpolation range.")


mod("scipy.interpolate", interp1d=interp1d)


def _fl(x):
    """concrete numbers -> native float array (None when symbolic)"""
    o = to_obj(x) if isinstance(x, np.ndarray) else to_obj(mkarray(x))
    if any(type(v) is Sym for v in o.ravel()):
        return None
    return np.array([float(v) for v in o.ravel()]).reshape(o.shape)


class _Norm:
    """normal law: concrete quantiles come from scipy; location and scale may be symbolic"""

    def __getattr__(self, n):
        from scipy.stats import norm as real

        def f(x, loc=0, scale=1):
            xs = _fl(x)
            if n in ("ppf", "isf"):
                if xs is None:
                    raise Unsupported("norm.%s of symbolic probabilities" % n)
                r = npshim.conv_result(getattr(real, n)(xs))
                lo, sc = S.num(loc) if not isinstance(loc, np.ndarray) else loc, S.num(scale) if not isinstance(scale, np.ndarray) else scale
                return r * sc + lo
            lo, sc = _fl(loc), _fl(scale)
            if xs is None or lo is None or sc is None:
                raise Unsupported("norm.%s of symbolic values" % n)
            return npshim.conv_result(getattr(real, n)(xs, loc=lo, scale=sc))
        return f


proxy("scipy.stats", norm=_Norm())


def minimize(fun, x0, *a, **k):
    h = npshim.HOOKS.get("minimize")
    if h is None:
        raise Unsupported("scipy.optimize.minimize")
    return h(fun, x0, *a, **k)


proxy("scipy.optimize", minimize=minimize)


class coo_matrix:
    def __init__(self, arg, shape=None, dtype=None):
        (d, (r, c)) = arg
        self.d, self.r, self.c = d, r, c
        r_ = [int(x) for x in r]
        c_ = [int(x) for x in c]
        self.shape = shape if shape is not None else (max(r_, default=-1) + 1, max(c_, default=-1) + 1)
        self.M = np_.zeros(self.shape)
        for x, i, j in zip(list(d), r_, c_):
            self.M[i, j] = self.M[i, j] + x

    def tocsr(self):
        return self

    tocsc = tocoo = tocsr

    def toarray(self):
        return self.M

    todense = toarray

    def dot(self, o):
        return np_.dot(self.M, o)

    def __matmul__(self, o):
        return np_.dot(self.M, o)

    @property
    def T(self):
        s = object.__new__(coo_matrix)
        s.M = self.M.T
        s.shape = s.M.shape
        return s

    def sum(self, axis=None):
        return np_.sum(self.M, axis=axis, keepdims=True) if axis is not None else np_.sum(self.M)


proxy("scipy.sparse", coo_matrix=coo_matrix)
sp = proxy("scipy", spatial=MODULES["scipy.spatial"], interpolate=MODULES["scipy.interpolate"], optimize=MODULES["scipy.optimize"],
           stats=MODULES["scipy.stats"], sparse=MODULES["scipy.sparse"])


# ------------------------------------------------------------------ sklearn
def check_array(array, *, dtype="numeric", ensure_2d=True, allow_nd=False, ensure_all_finite=True, force_all_finite=None,
                ensure_min_samples=1, ensure_min_features=1, copy=False, **k):
    if force_all_finite is not None:
        ensure_all_finite = force_all_finite
    if array is None:
        raise ValueError("Expected 2D array, got scalar array instead:\narray=None.")
    if isinstance(array, SArr) and not copy:
        a = array
    else:
        try:
            a = mkarray(array if not hasattr(array, "__array__") or isinstance(array, np.ndarray) else np.asarray(array.__array__()))
        except ValueError:
            raise
    if dtype in ("numeric", float, float_, np.float64, np.float32) and A.raw_dtype(a).kind in "US":
        a = A.cast(a, float)
    if dtype in (float, float_, np.float64):
        a = np_.asarray(a, dtype=float)
    if ensure_2d and a.ndim < 2:
        raise ValueError("Expected 2D array, got %dD array instead" % a.ndim)
    if not allow_nd and a.ndim >= 3:
        raise ValueError("Found array with dim %d. Estimator expected <= 2." % a.ndim)
    if ensure_all_finite:
        for x in to_obj(a).ravel():
            if type(x) is float and (x != x and ensure_all_finite != "allow-nan" or x in (S.INF, -S.INF)):
                raise ValueError("Input contains NaN." if x != x else "Input contains infinity or a value too large for dtype('float64').")
    if ensure_min_samples > 0 and (a.shape[0] if a.ndim else 1) < ensure_min_samples:
        raise ValueError("Found array with 0 sample(s) while a minimum of %d is required." % ensure_min_samples)
    if ensure_min_features > 0 and a.ndim == 2 and a.shape[1] < ensure_min_features:
        raise ValueError("Found array with 0 feature(s) while a minimum of %d is required." % ensure_min_features)
    return a.copy() if copy and a is array else a


def check_X_y(X, y, **k):
    yk = {q: k.pop(q) for q in ("multi_output", "y_numeric") if q in k}
    X = check_array(X, **k)
    y = mkarray(y) if not isinstance(y, SArr) else y
    if not yk.get("multi_output"):
        y = np_.ravel(y) if y.ndim > 1 and y.shape[1] == 1 else y
    if len(X) != len(y):
        raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (len(X), len(y)))
    return X, y


def check_random_state(seed):
    if seed is None or seed is np.random:
        return npshim._glob
    if isinstance(seed, npshim.RandomState) or getattr(seed, "_scripted", False):
        return seed
    if isinstance(seed, np.random.RandomState):
        return npshim.RandomState(seed)
    if isinstance(seed, (int, np.integer)):
        return npshim.RandomState(int(seed))
    raise ValueError("%r cannot be used to seed a numpy.random.RandomState instance" % seed)


def _check_sample_weight(sample_weight, X, dtype=None, **k):
    n = len(X)
    if sample_weight is None:
        return np_.ones(n)
    if isinstance(sample_weight, (int, Fraction, Sym)):
        return np_.full(n, sample_weight, dtype=float)
    return mkarray(sample_weight, float)


proxy("sklearn.utils.validation", check_array=check_array, check_X_y=check_X_y, check_random_state=check_random_state, _check_sample_weight=_check_sample_weight)
proxy("sklearn.utils", check_array=check_array, check_X_y=check_X_y, check_random_state=check_random_state,
      validation=MODULES["sklearn.utils.validation"])


def unique_labels(*ys):
    v = []
    for y in ys:
        v.extend(np_.ravel(mkarray(y) if not isinstance(y, SArr) else y).tolist())
    return np_.unique(mkarray(v))


proxy("sklearn.utils.multiclass", unique_labels=unique_labels)


class CCA:
    """canonical correlation analysis: an arbitrary linear projection per fit (hook supplied by the check)"""

    def __init__(self, n_components=2, **k):
        self.n_components = n_components

    def fit(self, X, Y):
        h = npshim.HOOKS.get("cca")
        if h is None:
            raise Unsupported("CCA")
        h(self, X, Y)
        return self

    def transform(self, X, Y=None, copy=True):
        r = self._tx(X)
        return r if Y is None else (r, self._ty(Y))

    def fit_transform(self, X, Y):
        return self.fit(X, Y).transform(X, Y)


proxy("sklearn.cross_decomposition", CCA=CCA)


class LinearRegression:
    """ordinary least squares (minimum-norm solution when the regressor is constant)"""

    def __init__(self, *, fit_intercept=True, copy_X=True, tol=None, n_jobs=None, positive=False):
        self.fit_intercept = fit_intercept

    def fit(self, X, y, sample_weight=None):
        X, y = float_obj(np_.asarray(X)), float_obj(np_.asarray(y))
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
        for v in list(X.ravel()) + list(y.ravel()):
            if S.is_special(v):
                raise ValueError("Input contains NaN or infinity")
        if X.shape[1] != 1 or sample_weight is not None:
            raise Unsupported("LinearRegression with several regressors")
        x = list(X[:, 0])
        n = len(x)
        if n != len(y):
            raise ValueError("Found input variables with inconsistent numbers of samples: [%d, %d]" % (n, len(y)))
        Y = y.reshape(n, -1)
        mx = S.sdiv(npshim._sum(x), n) if self.fit_intercept else Fraction(0)
        den = npshim._sum([(v - mx) * (v - mx) for v in x])
        coef, icpt = [], []
        for c in range(Y.shape[1]):
            col = list(Y[:, c])
            my = S.sdiv(npshim._sum(col), n) if self.fit_intercept else Fraction(0)
            num = npshim._sum([(v - mx) * (w - my) for v, w in zip(x, col)])
            k = Fraction(0) if S.truth(npshim._eq(den, 0)) else S.sdiv(num, den)
            coef.append([k])
            icpt.append(my - k * mx)
        self.coef_ = mkarray(coef if y.ndim > 1 else coef[0], float)
        self.intercept_ = mkarray(icpt, float) if y.ndim > 1 else icpt[0]
        self.n_features_in_ = 1
        return self

    def predict(self, X):
        X = np_.asarray(X)
        c = self.coef_
        return np_.dot(X, c.T if c.ndim > 1 else c) + self.intercept_


proxy("sklearn.linear_model", LinearRegression=LinearRegression)


def _kpp(X, n_clusters, x_squared_norms, sample_weight, random_state, n_local_trials=None):
    h = npshim.HOOKS.get("kmeanspp")
    if h is None:
        raise Unsupported("kmeans++")
    return h(X, n_clusters, random_state)


proxy("sklearn.cluster._kmeans", _kmeans_plusplus=_kpp)


def _machine(name):
    class Machine:
        """libsvm: replaced by the check's stand-in"""

        def __new__(cls, *a, **k):
            h = npshim.HOOKS.get(name)
            if h is None:
                raise Unsupported(name)
            return h(*a, **k)
    Machine.__name__ = name
    return Machine


proxy("sklearn.svm", SVC=_machine("SVC"), SVR=_machine("SVR"))


# ------------------------------------------------------------------ neighbours (contract model of scikit-learn's k-NN)
def _knn_mods():
    import sklearn.neighbors as skn
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

    class _KB:
        def _nn_fit(self, X, y=None):
            self._fit_X = X
            self._fit_method = "brute"
            self.n_samples_fit_ = len(X)
            self.effective_metric_ = self.metric
            self.n_features_in_ = X.shape[1] if X.ndim > 1 else 1
            self._is_fitted_flag = True

        def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
            k = self.n_neighbors if n_neighbors is None else n_neighbors
            if self.metric == "precomputed":
                D = np_.asarray(X)
                if D.shape[1] != self.n_samples_fit_:
                    raise ValueError("Precomputed metric requires shape (n_queries, n_indexed).")
            else:
                D = cdist(self._fit_X if X is None else X, self._fit_X, self.metric, **(self.metric_params or {}))
            if k > self.n_samples_fit_:
                raise ValueError("Expected n_neighbors <= n_samples_fit")
            o = np_.argsort(D, axis=1)
            if X is None and self.metric != "precomputed":
                o = mkarray([[j for j in row if int(j) != i][:k] for i, row in enumerate(o)])
            ind = o[:, :k]
            if not return_distance:
                return ind
            return mkarray([[D[i, int(j)] for j in ind[i]] for i in range(len(ind))], float).reshape(len(ind), k), ind

        def radius_neighbors(self, X=None, radius=None, return_distance=True, sort_results=False):
            radius = self.radius if radius is None else radius
            if self.metric == "precomputed":
                D = np_.asarray(X)
                if D.shape[1] != self.n_samples_fit_:
                    raise ValueError("Precomputed metric requires shape (n_queries, n_indexed).")
            else:
                D = cdist(self._fit_X if X is None else X, self._fit_X, self.metric, **(self.metric_params or {}))
            ind, dist = np.empty(len(D), object), np.empty(len(D), object)
            for i in range(len(D)):
                js = [j for j in range(D.shape[1]) if not (X is None and i == j) and not S.truth(npshim._lt(radius, D[i, j]))]
                ind[i] = np.array(js, dtype=np.int64)
                dist[i] = mkarray([D[i, j] for j in js], float).reshape(len(js))
            return (dist, ind) if return_distance else ind

        def _weights(self, dist):
            w = self.weights
            if w in (None, "uniform"):
                return None
            if w == "distance":
                out = np_.zeros(dist.shape)
                for i in range(dist.shape[0]):
                    z = [S.truth(npshim._eq(d, 0)) for d in dist[i]]
                    for j in range(dist.shape[1]):
                        out[i, j] = (Fraction(1) if z[j] else Fraction(0)) if any(z) else S.sdiv(1, dist[i, j])
                return out
            return w(dist)

    class NearestNeighbors(_KB, skn.NearestNeighbors):
        def fit(self, X, y=None):
            self._nn_fit(np_.asarray(X))
            return self

    class KNeighborsClassifier(_KB, skn.KNeighborsClassifier):
        def fit(self, X, y):
            self._nn_fit(np_.asarray(X))
            y = mkarray(y) if not isinstance(y, SArr) else y
            self.classes_, self._y = np_.unique(y, return_inverse=True)
            self.outputs_2d_ = False
            return self

        def predict_proba(self, X):
            if not hasattr(self, "_fit_method"):
                from sklearn.exceptions import NotFittedError
                raise NotFittedError("This instance is not fitted yet.")
            if self.outputs_2d_ or self._fit_X is None:
                raise Unsupported("several outputs")
            d, ind = self.kneighbors(X)
            w = self._weights(d)
            P = np_.zeros((len(ind), len(self.classes_)))
            for i in range(len(ind)):
                for q, j in enumerate(ind[i]):
                    c = int(self._y[int(j)])
                    P[i, c] = P[i, c] + (1 if w is None else w[i, q])
            s = np_.sum(P, axis=1)
            return mkarray([[S.sdiv(P[i, c], s[i]) for c in range(P.shape[1])] for i in range(P.shape[0])], float).reshape(P.shape)

        def predict(self, X):
            P = self.predict_proba(X)
            return self.classes_[np_.argmax(P, axis=1)]

    class KNeighborsRegressor(_KB, skn.KNeighborsRegressor):
        def fit(self, X, y):
            self._nn_fit(np_.asarray(X))
            self._y = mkarray(y) if not isinstance(y, SArr) else y
            return self

        def predict(self, X):
            d, ind = self.kneighbors(X)
            w = self._weights(d)
            out = []
            for i in range(len(ind)):
                ys = [self._y[int(j)] for j in ind[i]]
                if w is None:
                    out.append(S.sdiv(1, len(ys)) * sum(ys[1:], ys[0]))
                else:
                    ws = list(w[i])
                    tot = sum(ws[1:], ws[0])
                    s = sum([a * b for a, b in zip(ws, ys)][1:], ws[0] * ys[0])
                    out.append(s * S.sdiv(1, tot) if not isinstance(s, np.ndarray) else s / tot)
            return mkarray(out)

    return dict(NearestNeighbors=NearestNeighbors, KNeighborsClassifier=KNeighborsClassifier, KNeighborsRegressor=KNeighborsRegressor)


class _LazySk(Proxy):
    def __getattr__(self, n):
        if n in ("NearestNeighbors", "KNeighborsClassifier", "KNeighborsRegressor"):
            self.__dict__.update(_knn_mods())
            return self.__dict__[n]
        return Proxy.__getattr__(self, n)


MODULES["sklearn.neighbors"] = _LazySk("sklearn.neighbors")


def dbscan_inner(is_core, neighborhoods, labels):
    """scikit-learn's compiled depth-first search"""
    label = 0
    for i in range(len(labels)):
        if int(labels[i]) != -1 or not int(is_core[i]):
            continue
        stack, v = [], i
        while True:
            if int(labels[v]) == -1:
                labels[v] = label
                if int(is_core[v]):
                    for j in neighborhoods[v]:
                        if int(labels[int(j)]) == -1:
                            stack.append(int(j))
            if not stack:
                break
            v = stack.pop()
        label += 1


mod("sklearn.cluster._dbscan_inner", dbscan_inner=dbscan_inner)


def silhouette_score(X, labels, *, metric="euclidean", sample_size=None, random_state=None, **kwds):
    if sample_size is not None:
        idx = [int(i) for i in check_random_state(random_state).permutation(len(X))[:sample_size]]
        labels = [labels[i] for i in idx]
        X = X[idx][:, idx] if metric == "precomputed" else X[idx]
    if metric == "precomputed":
        D = np_.asarray(X)
    else:
        D = pairwise_distances(X, metric=metric, **kwds)
    lab = [x.item() if hasattr(x, "item") else x for x in labels]
    n = len(lab)
    if not 2 <= len(set(lab)) <= n - 1:
        raise ValueError("Number of labels is %d. Valid values are 2 to n_samples - 1 (inclusive)" % len(set(lab)))
    tot = Fraction(0)
    for i in range(n):
        own = [j for j in range(n) if lab[j] == lab[i] and j != i]
        if not own:
            continue
        a = S.sdiv(sum([D[i, j] for j in own][1:], D[i, own[0]]), len(own))
        b = None
        for c in set(lab) - {lab[i]}:
            js = [j for j in range(n) if lab[j] == c]
            m = S.sdiv(sum([D[i, j] for j in js][1:], D[i, js[0]]), len(js))
            b = m if b is None else S.smin(b, m)
        mx = S.smax(a, b)
        if S.truth(npshim._eq(mx, 0)):
            continue
        tot = tot + S.sdiv(b - a, mx)
    return S.sdiv(tot, n)


proxy("sklearn.metrics.cluster", silhouette_score=silhouette_score)


# ------------------------------------------------------------------ pandas (the real one, on object columns) and cesium
def _plainpd(x):
    if isinstance(x, SArr):
        b = base(x)
        if A.raw_dtype(b) == object and b.size and not any(type(v) in (Sym, SBool) for v in b.ravel()):
            if all(isinstance(v, (Fraction, float)) for v in b.ravel()):
                pass
        return b
    if isinstance(x, dict):
        return {k: _plainpd(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and any(isinstance(v, SArr) for v in x):
        return type(x)(_plainpd(v) for v in x)
    return x


class _LazyPd(Proxy):
    def __getattr__(self, n):
        if n in ("DataFrame", "Series"):
            import pandas as pd

            def dt(dtype):
                return None if A.want(dtype) == "f" else dtype if dtype is not None else None

            class Series(pd.Series):
                @property
                def _constructor(self):
                    return Series

                @property
                def _constructor_expanddim(self):
                    return DataFrame

                def __init__(self, data=None, index=None, dtype=None, **k):
                    d = _plainpd(data)
                    o = object if isinstance(d, (list, tuple)) and any(type(v) in (Sym, Fraction) for v in d) else dt(dtype)
                    super().__init__(d, index=_plainpd(index), dtype=o, **k)

                def to_numpy(self, *a, **k):
                    return mkarray(pd.Series.to_numpy(self))

                def __setitem__(self, k, v):
                    super().__setitem__(_plainpd(k), _plainpd(v))

            class DataFrame(pd.DataFrame):
                @property
                def _constructor(self):
                    return DataFrame

                @property
                def _constructor_sliced(self):
                    return Series

                def __init__(self, data=None, index=None, columns=None, dtype=None, **k):
                    d = _plainpd(data)
                    if isinstance(d, list) and d and isinstance(d[0], (list, tuple)):
                        d = base(mkarray(d))
                    super().__init__(d, index=_plainpd(index), columns=columns, dtype=dt(dtype), **k)

                def __setitem__(self, k, v):
                    super().__setitem__(_plainpd(k), _plainpd(v))

                def to_numpy(self, *a, **k):
                    return mkarray(pd.DataFrame.to_numpy(self))
            self.__dict__["Series"], self.__dict__["DataFrame"] = Series, DataFrame
            return self.__dict__[n]
        return Proxy.__getattr__(self, n)


MODULES["pandas"] = _LazyPd("pandas")
del MODULES["pandas"].__dict__["__path__"]


class _LazyCesium(types.ModuleType):
    """cesium.time_series: its own source, run in the symbolic world"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import importlib.util
        from .. import loader
        p = importlib.util.find_spec("cesium").submodule_search_locations[0] + "/time_series.py"
        l = loader.Loader(p, loader.make_builtins())
        m = types.ModuleType("cesium.time_series")
        l.exec_module(m)
        self.__dict__.update({k: v for k, v in vars(m).items() if not k.startswith("__")})
        return self.__dict__[n]


MODULES["cesium.time_series"] = _LazyCesium("cesium.time_series")


class Stub(types.ModuleType):
    """module whose attributes are inert placeholders (deep-learning stack; never executed by a check)"""

    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return type(n, (), {"__init__": lambda self, *a, **k: None, "__call__": lambda self, *a, **k: (a[0] if a and callable(a[0]) else self)})


STUB_PREFIXES = ("keras", "tensorflow", "h5py", "stumpy")
HIDDEN = {"torch"}      # ImportError in the numpy world; a check may replace it by a torch model


def lookup(name):
    if name in MODULES:
        return MODULES[name]
    top = name.split(".")[0]
    if top in HIDDEN:
        raise ModuleNotFoundError("No module named %r (symbolic world)" % name, name=name)
    if top in STUB_PREFIXES:
        m = MODULES[name] = Stub(name)
        return m
    return None


_real_import = builtins.__import__


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = lookup(name)
        if m is not None:
            if fromlist:
                for f in fromlist:
                    if name + "." + f in MODULES and f not in m.__dict__:
                        m.__dict__[f] = MODULES[name + "." + f]
                return m
            top = name.split(".")[0]
            t = lookup(top)
            if t is not None:
                parts = name.split(".")
                cur = t
                for i in range(1, len(parts)):
                    sub = lookup(".".join(parts[:i + 1]))
                    if sub is not None and parts[i] not in cur.__dict__:
                        cur.__dict__[parts[i]] = sub
                    cur = getattr(cur, parts[i])
                return t
            return _real_import(name, globals, locals, fromlist, level)
        kids = {f: MODULES[name + "." + f] for f in fromlist or () if name + "." + f in MODULES}
        if kids:
            _real_import(name, globals, locals, fromlist, level)
            return Proxy(name, **kids)
    return _real_import(name, globals, locals, fromlist, level)


def sym_import_module(name, package=None):
    m = lookup(name)
    return m if m is not None else importlib.import_module(name, package)


proxy("importlib", import_module=sym_import_module)


# ------------------------------------------------------------------ stumpy (contract: self-join matrix profile with exclusion zone ceil(m / 4))
def _stump(T_A, m, T_B=None, ignore_trivial=True, normalize=True, p=2.0, k=1, **kw):
    if T_B is not None or not ignore_trivial or p != 2.0 or k != 1 or kw:
        raise Unsupported("stumpy.stump options")
    x = list(npshim.to_obj(npshim._arr(T_A)).ravel())
    n = len(x) - m + 1
    wins = []
    for i in range(n):
        w = x[i:i + m]
        if any(type(v) is float and v != v for v in w):
            wins.append(None)
            continue
        if normalize:
            mu = S.sdiv(npshim._sum(w), m)
            c = [v - mu for v in w]
            var = S.sdiv(npshim._sum([v * v for v in c]), m)
            w = c if S.truth(S.compare("eq", var, 0)) else [S.sdiv(v, S.ssqrt(var)) for v in c]
        wins.append(w)
    zone = -(-m // 4)
    out = np.empty((n, 4), dtype=object)
    for i in range(n):
        best = S.INF
        for j in range(n):
            if abs(i - j) > zone and wins[i] is not None and wins[j] is not None:
                best = S.smin(best, npshim.Linalg.norm(npshim.mkarray([a - b for a, b in zip(wins[i], wins[j])], float)))
        out[i] = [best, -1, -1, -1]
    return npshim.mkarray(list(out.ravel()), float).reshape(n, 4)


class _Stumpy(Stub):
    def __init__(self):
        super().__init__("stumpy")
        self.stump = _stump
        self.gpu_stump = lambda *a, **k: _stump(*a, **k)


MODULES["stumpy"] = _Stumpy()


from . import store  # noqa: E402  (json, pickle, h5py)
