"""U01: time series containers preserve every value."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.utils"]


def U():
    return import_module("tslearn.utils")


def pattern(W, name, n, d):
    """(n, d) rows whose entries are NaN or real, every pattern explored"""
    return [[W.nan if W.bool("%s_nan_%d_%d" % (name, i, k)) else W.real("%s_%d_%d" % (name, i, k)) for k in range(d)] for i in range(n)]


def size(W, rows):
    n = len(rows)
    while n and all(W.isnan(v) for v in rows[n - 1]):
        n -= 1
    return n


FORMS = ("array", "flat", "list", "flatlist", "tuple", "none")


def form(W, rows, f):
    """the same series in another container (flat forms are for univariate series)"""
    if f == "array":
        return W.arr(rows).reshape(len(rows), len(rows[0])) if rows else W.arr(rows)
    if f == "flat":
        return W.arr([r[0] for r in rows])
    if f == "list":
        return [list(r) for r in rows]
    if f == "tuple":
        return tuple(tuple(r) for r in rows)
    if f == "flatlist":
        return [r[0] for r in rows]
    if f == "none":  # missing values written as None
        return [[None if W.isnan(v) else v for v in r] for r in rows]


def freeze(x):
    if isinstance(x, (list, tuple)):
        return type(x)(freeze(y) for y in x)
    return x.copy() if hasattr(x, "copy") else x


def kept(W, label, snap, x):
    def same(a, b):
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
        if hasattr(a, "shape"):
            return W.shape(a) == W.shape(b) and bool(W.truth(W.all_eq(a, b)))
        return a is None and b is None or a is not None and b is not None and bool(W.truth(W.eq(a, b)))
    W.check(label, same(snap, x))


@cases(CASES, [dict(n=n, d=d, f=f) for n, d in ((1, 1), (2, 1), (4, 1), (1, 2), (2, 2), (3, 2), (1, 3)) for f in FORMS if d == 1 or f in ("array", "list", "tuple", "none")],
       [dict(n=6, d=1, f="array"), dict(n=4, d=2, f="list"), dict(n=2, d=4, f="array")])
def one(W, n, d, f):
    rows = pattern(W, "x", n, d)
    x = form(W, rows, f)
    snap = freeze(x)
    s = size(W, rows)
    W.check("ts_size", int(U().ts_size(x)) == s)
    for rm in (False, True):
        ts = U().to_time_series(x, remove_nans=rm)
        m = s if rm else n
        W.check("shape (remove_nans=%s)" % rm, W.shape(ts) == (m, d))
        if m:
            W.check("values (remove_nans=%s)" % rm, W.all_eq(ts, rows[:m]))
        again = U().to_time_series(ts, remove_nans=rm)
        W.check("idempotent (remove_nans=%s)" % rm, W.shape(again) == W.shape(ts) and W.all_eq(again, ts))
        ts[...] = 77  # the result is the caller's: writing to it must not reach the input
    kept(W, "input unmodified", snap, x)


DS = [dict(sizes=s, d=d, forms=f) for s, d, f in (
    ((2,), 1, ("array",)), ((1, 2), 1, ("list", "array")), ((2, 2), 1, ("flat", "flatlist")), ((2, 1), 1, ("none", "flat")), ((1, 3), 1, ("tuple", "array")),
    ((1, 1, 2), 1, ("flatlist", "array", "list")), ((2, 1), 2, ("array", "list")), ((1, 2), 2, ("none", "tuple")), ((2, 2), 2, ("array", "array")), ((1, 1), 3, ("list", "array")))]


@cases(CASES, DS, [dict(sizes=(3, 2), d=2, forms=("array", "list")), dict(sizes=(3, 3, 2), d=1, forms=("array", "list", "flat"))])
def many(W, sizes, d, forms):
    R = [pattern(W, "x%d" % q, n, d) for q, n in enumerate(sizes)]
    data = [form(W, r, f) for r, f in zip(R, forms)]
    snap = freeze(data)
    ss = [size(W, r) for r in R]
    X = U().to_time_series_dataset(data)
    T = max(ss)
    W.check("shape", W.shape(X) == (len(R), T, d))
    for q, r in enumerate(R):
        if ss[q]:
            W.check("values of series %d" % q, W.all_eq(X[q, :ss[q]], r[:ss[q]]))
        W.check("padding of series %d" % q, all(W.isnan(X[q, i, k]) for i in range(ss[q], T) for k in range(d)))
        W.check("size of series %d" % q, int(U().ts_size(X[q])) == ss[q])
    W.check("check_equal_size", bool(U().check_equal_size(data)) == (len(set(ss)) == 1))
    W.check("check_equal_size of the array", bool(U().check_equal_size(X)) == (len(set(ss)) == 1))
    Y = U().to_time_series_dataset(X)
    W.check("idempotent", W.shape(Y) == W.shape(X) and W.all_eq(X, Y))
    K = freeze(X)
    Y[...] = 5
    W.check("result is a copy", W.all_eq(X, K))
    for fu in (False, True):
        for fe in (False, True):
            for fs in (False, True):
                bad = fu and d != 1 or fe and len(set(ss)) != 1 or fs and len(R) != 1
                r = W.raises(lambda: U().check_dataset(data, force_univariate=fu, force_equal_length=fe, force_single_time_series=fs), ValueError)
                W.check("check_dataset raises exactly when a requirement fails %s" % ((fu, fe, fs),), (r is not None) == bad)
    Z = U().to_sklearn_dataset(data)
    W.check("to_sklearn_dataset", W.shape(Z) == (len(R), T * d) and W.all_eq(Z, X))
    kept(W, "inputs unmodified", snap, data)


@cases(CASES, [dict(n=n, t=t, d=d, pad=p) for n, t, d, p in ((1, 3, 1, 0), (3, 4, 1, 1), (2, 5, 3, 2), (4, 7, 2, 0), (2, 12, 1, 5), (3, 1, 4, 0))])
def padded_array(W, n, t, d, pad):
    """a 3-d array whose common trailing padding is dropped and whose values stay put"""
    rows = [[[W.real("x_%d_%d_%d" % (q, i, k)) for k in range(d)] for i in range(t - (q % 2) if t > 1 else t)] for q in range(n)]
    full = [r + [[W.nan] * d] * (t + pad - len(r)) for r in rows]
    A = W.arr(full).reshape(n, t + pad, d)
    snap = freeze(A)
    X = U().to_time_series_dataset(A)
    W.check("shape", W.shape(X) == (n, t, d))
    W.check("values", W.all_eq(X, [f[:t] for f in full]))
    W.check("equal sizes", bool(U().check_equal_size(A)) == (len(set(map(len, rows))) == 1))
    if d == 1:
        Y = U().to_time_series_dataset(A[:, :, 0])
        W.check("2-d form", W.shape(Y) == (n, t, 1) and W.all_eq(X, Y))
        Z = U().to_time_series_dataset([[None if W.isnan(v[0]) else v[0] for v in f] for f in full])
        W.check("list form with None", W.shape(Z) == (n, t, 1) and W.all_eq(X, Z))
        S = U().to_time_series_dataset(A[0, :, 0])
        W.check("single series", W.shape(S) == (1, len(rows[0]), 1) and W.all_eq(S, rows[0]))
    kept(W, "input unmodified", snap, A)


@cases(CASES, [dict(sizes=(2, 3)), dict(sizes=(1,)), dict(sizes=())])
def integers(W, sizes):
    """integer data become floats without loss; an empty dataset is allowed"""
    data = [[W.int("i%d_%d" % (q, k), -1, 1) for k in range(n)] for q, n in enumerate(sizes)]
    X = U().to_time_series_dataset(data)
    if not sizes:
        W.check("empty", W.shape(X) == (0, 0, 0))
        return
    W.check("shape", W.shape(X) == (len(sizes), max(sizes), 1))
    for q, r in enumerate(data):
        W.check("values", W.all_eq(X[q, :len(r)], r))
    half = W.c(Fraction(1, 2))
    X[0, 0, 0] = half
    W.check("float container", W.eq(X[0, 0, 0], half))
    t = U().to_time_series(data[0])
    t[0, 0] = half
    W.check("float series", W.eq(t[0, 0], half))


@cases(CASES, [dict(fit=(2, 3, 1), new=n) for n in ((2, 3, 1), (1, 3, 1), (2, 2, 1), (2, 3, 2), (2, 4, 2), (4, 3))])
def dims(W, fit, new):
    X = W.reals("x", *new)
    full = new if len(new) == 3 else new + (1,)
    out = []
    W.check("check_dims returns the data", W.raises(lambda: out.append(U().check_dims(X)), ValueError) is None and W.shape(out[0]) == full and W.all_eq(out[0], X))
    for only in (False, True):
        bad = full[2] != fit[2] or not only and full[1] != fit[1]
        W.check("mismatch is rejected (%s)" % only, (W.raises(lambda: U().check_dims(X, X_fit_dims=fit, check_n_features_only=only), ValueError) is not None) == bad)
    W.check("None is rejected", W.raises(lambda: U().check_dims(None), ValueError) is not None)
