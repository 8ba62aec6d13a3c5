"""T02: resampling and imputation keep what they must keep."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.preprocessing"]
ASSUMPTIONS = ["series given to the resampler have no missing value inside (padding only)"]


def P():
    return import_module("tslearn.preprocessing")


def interpolate(W, col, target):
    """values at `target` evenly spaced instants of the piecewise linear curve through col"""
    n = len(col)
    out = []
    for k in range(target):
        pos = Fraction(k * (n - 1), target - 1) if target > 1 else Fraction(0)
        i = int(pos)
        f = pos - i
        out.append(col[i] if f == 0 else col[i] * W.c(1 - f) + col[i + 1] * W.c(f))
    return out


RS = [(s, d, t) for s, d in (((1,), 1), ((3,), 1), ((2, 2), 2), ((3, 1, 2), 1), ((1, 4), 2), ((4, 4), 1), ((5, 2), 3)) for t in (-1, 0, 1, 2, 3, 4, 5, 7)] + [((9, 6), 1, 4), ((4, 7), 2, 13), ((8, 8), 1, 5), ((11,), 1, 11)]


@cases(CASES, [dict(sizes=s, d=d, sz=t) for s, d, t in RS])
def resample(W, sizes, d, sz):
    X = dataset(W, "x", sizes, d)
    snap = snapshot(W, X)
    rs = P().TimeSeriesResampler(sz=sz)
    Y = rs.fit_transform(X)
    unchanged(W, "input unmodified", snap, X)
    T = sz if sz > 0 else max(sizes)
    W.check("length", W.shape(Y) == (len(sizes), T, d))
    for q, n in enumerate(sizes):
        for k in range(d):
            col = [X[q, i, k] for i in range(n)]
            if T == 1:
                W.check("one sample: the mean", W.eq(Y[q, 0, k] * n, W.sum(col)))
                continue
            ref = interpolate(W, col, T)
            for i in range(T):
                W.check("linear interpolation over the series' own span", W.eq(Y[q, i, k], ref[i]))
            W.check("end points kept", W.and_(W.eq(Y[q, 0, k], col[0]), W.eq(Y[q, T - 1, k], col[-1])))
    if len(set(sizes)) == 1 and T == sizes[0]:
        W.check("identity at the same length", W.all_eq(Y, X))


@cases(CASES, [dict(fit=f, new=n, sz=t) for f, n, t in (((2, 2), (3, 1), 4), ((4,), (2, 3), -1), ((3, 2), (5,), 2), ((2, 3), (2,), 1))])
def resample_reuse(W, fit, new, sz):
    """a fitted resampler treats new data like a fresh one, series by series; lists work as well"""
    A, B = dataset(W, "a", fit, 2), dataset(W, "b", new, 2)
    rs = P().TimeSeriesResampler(sz=sz).fit(A)
    rs.transform(A)
    Y = rs.transform(B)
    W.check("same as a fresh one", W.all_eq(Y, P().TimeSeriesResampler(sz=sz).fit_transform(B)))
    if sz > 0:
        for q, n in enumerate(new):
            W.check("series alone", W.all_eq(Y[q], P().TimeSeriesResampler(sz=sz).fit_transform(B[q:q + 1, :n])[0]))
    L = [[[B[q, i, k] for k in range(2)] for i in range(n)] for q, n in enumerate(new)]
    W.check("lists", W.all_eq(Y, rs.transform(L)))
    C = dataset(W, "c", (2,), 1)
    W.check("wrong number of features rejected", W.raises(lambda: rs.transform(C), ValueError) is not None)


METHODS = ("mean", "median", "ffill", "bfill", "linear", "constant", "callable")


def impute_ref(W, col, method, value):
    """documented imputation of one feature (None: left missing)"""
    obs = [(i, v) for i, v in enumerate(col) if not W.isnan(v)]
    vals = [v for _, v in obs]
    out = list(col)
    for i, v in enumerate(col):
        if not W.isnan(v):
            continue
        if method == "constant":
            out[i] = value
        elif method == "callable":
            out[i] = 7 * W.c(1) + i
        elif not obs:
            continue
        elif method == "mean":
            out[i] = W.div(W.sum(vals), len(vals))
        elif method == "median":
            out[i] = ("median", vals)
        elif method == "ffill":
            p = [w for j, w in obs if j < i]
            out[i] = p[-1] if p else v
        elif method == "bfill":
            p = [w for j, w in obs if j > i]
            out[i] = p[0] if p else v
        elif method == "linear":
            a, b = [(j, w) for j, w in obs if j < i], [(j, w) for j, w in obs if j > i]
            if not a:
                out[i] = b[0][1]
            elif not b:
                out[i] = a[-1][1]
            else:
                (j, u), (l, w) = a[-1], b[0]
                out[i] = u * W.c(Fraction(l - i, l - j)) + w * W.c(Fraction(i - j, l - j))
    return out


def order_stat(W, vals, r):
    """r-th smallest (from 0): the smallest maximum over groups of r + 1 values"""
    from itertools import combinations
    return W.min([W.max(list(c)) for c in combinations(vals, r + 1)])


def is_median(W, y, vals):
    n = len(vals)
    return W.eq(y * 2, order_stat(W, vals, (n - 1) // 2) + order_stat(W, vals, n // 2))


def pat(W, name, n, d, T, blank=False):
    """rows of T cells: the first n explored over every missing-value pattern, the rest padding"""
    rows = [[W.nan if W.bool("%s_nan_%d_%d" % (name, i, k)) else W.real("%s_%d_%d" % (name, i, k)) for k in range(d)] for i in range(n)]
    return rows + [[W.nan] * d for _ in range(T - n)]


def size(W, rows):
    n = len(rows)
    while n and all(W.isnan(v) for v in rows[n - 1]):
        n -= 1
    return n


IM = [((3,), 1), ((2,), 2), ((1, 2), 1), ((4,), 1), ((3,), 2)]


@cases(CASES, [dict(method=m, sizes=s, d=d, keep=k) for m in METHODS for s, d in IM for k in (True, False) if not (s == (3,) and d == 2 and not k)],
       [dict(method=m, sizes=s, d=d, keep=k) for m in METHODS for s, d in (((6,), 1), ((2, 3), 1), ((2,), 3)) for k in (True, False)])
def impute(W, method, sizes, d, keep):
    T = max(sizes) + 1
    R = [pat(W, "x%d" % q, n, d, T) for q, n in enumerate(sizes)]
    if not any(size(W, r) for r in R):
        W.check("nothing observed", True)
        return
    c = W.real("value")
    seen = []

    def fill(ts):
        seen.append(W.shape(ts))
        out = ts.copy()
        for i in range(int(ts.shape[0])):
            for k in range(int(ts.shape[1])):
                if W.isnan(ts[i, k]):
                    out[i, k] = 7 * W.c(1) + i
        return out
    X = W.arr(R).reshape(len(R), T, d)
    snap = snapshot(W, X)
    im = P().TimeSeriesImputer(method=fill if method == "callable" else method, value=c, keep_trailing_nans=keep)
    Y = im.fit(X).transform(X)
    unchanged(W, "input unmodified", snap, X)
    L = max(size(W, r) for r in R)      # common padding is dropped on conversion
    stops = [size(W, r) if keep else L for r in R]
    if method == "callable":
        W.check("callable gets each series without its padding", seen == [(s, d) for s in stops])
    exp = []
    for q, r in enumerate(R):
        rows = [list(v) for v in r[:L]]
        for k in range(d):
            col = impute_ref(W, [rows[i][k] for i in range(stops[q])], method, c)
            for i in range(stops[q]):
                rows[i][k] = col[i]
        exp.append(rows)
    S = max(max([i + 1 for i in range(L) if any(isinstance(v, tuple) or not W.isnan(v) for v in rows[i])], default=0) for rows in exp)
    W.check("shape", W.shape(Y) == (len(R), S, d))
    for q in range(len(R)):
        for i in range(S):
            for k in range(d):
                e, y, x = exp[q][i][k], Y[q, i, k], R[q][i][k]
                if isinstance(e, tuple):
                    W.check("median", is_median(W, y, e[1]))
                elif W.isnan(e):
                    W.check("left missing", W.isnan(y))
                else:
                    W.check("observed value kept" if not W.isnan(x) else "imputed value", W.eq(y, e))


@cases(CASES, [dict(method=m) for m in METHODS if m != "callable"])
def impute_reuse(W, method):
    """each series is imputed from itself only, and a fitted imputer keeps nothing of earlier data"""
    def mk(name, holes, sizes):
        T = max(sizes)
        return W.arr([[[W.nan if i >= n or (q, i, k) in holes else W.real("%s%d_%d_%d" % (name, q, i, k)) for k in range(2)] for i in range(T)] for q, n in enumerate(sizes)]).reshape(len(sizes), T, 2)
    A, B = mk("a", {(0, 1, 0)}, (3, 2)), mk("b", {(0, 1, 0), (1, 1, 1), (1, 2, 1)}, (3, 4))
    im = P().TimeSeriesImputer(method=method, value=W.c(5))
    im.fit(A).transform(A)
    Y = im.transform(B)
    W.check("same as a fresh one", W.all_eq(Y, P().TimeSeriesImputer(method=method, value=W.c(5)).fit_transform(B)))
    W.check("twice", W.all_eq(im.transform(Y), Y))
    for q, n in enumerate((3, 4)):
        W.check("series alone", W.all_eq(Y[q, :n], P().TimeSeriesImputer(method=method, value=W.c(5)).fit_transform(B[q:q + 1])[0, :n]))


@cases(CASES, [dict(m=m) for m in ("foo", "", "Mean")])
def unknown_method(W, m):
    X = W.reals("x", 1, 2, 1)
    W.check("unknown method rejected", W.raises(lambda: P().TimeSeriesImputer(method=m).fit_transform(X), ValueError) is not None)


LONG = [dict(method=m, mask=k, d=d, keep=kp) for m in METHODS if m != "callable" for k, d in ((".o..oo.ooo.o..", 1), ("oooooooo.ooo", 1), (".......o......", 2), ("o.o.o.o.o.o.o.o.", 2)) for kp in (True, False)]


@cases(CASES, LONG)
def impute_long(W, method, mask, d, keep):
    """longer series with a fixed pattern of gaps; two values are arbitrary, the others are fixed numbers"""
    n = len(mask)
    A = mixed(W, "x", n, d, {7, 10}, seed=n)
    B = mixed(W, "z", n - 2, d, {3}, seed=n + 1)
    R = [[[A[i, k] if mask[(i + 5 * k) % n] == "o" else W.nan for k in range(d)] for i in range(n)],
         [[B[i, k] if i < n - 2 and mask[(i * 3 + k) % n] == "o" else W.nan for k in range(d)] for i in range(n)]]
    c = W.c(Fraction(9, 4))
    X = W.arr(R).reshape(2, n, d)
    Y = P().TimeSeriesImputer(method=method, value=c, keep_trailing_nans=keep).fit_transform(X)
    L = max(size(W, r) for r in R)
    for q, r in enumerate(R):
        stop = size(W, r) if keep else L
        for k in range(d):
            col = impute_ref(W, [r[i][k] for i in range(stop)], method, c)
            for i in range(int(Y.shape[1])):
                e, y = col[i] if i < stop else W.nan, Y[q, i, k]
                if isinstance(e, tuple):
                    W.check("median", is_median(W, y, e[1]))
                elif W.isnan(e):
                    W.check("left missing", W.isnan(y))
                else:
                    W.check("value", W.eq(y, e))
