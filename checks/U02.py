"""U02: format conversions round-trip."""
import os
import shutil
import tempfile
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.utils"]
ASSUMPTIONS = ["pandas runs for real on columns of symbolic objects; cesium's TimeSeries runs from its own source in the symbolic world",
               "a number printed with 17 or more significant digits parses back to itself; with fewer digits, to an arbitrary number within the format's error"]
EQ = ("pyts", "pyflux")


def U():
    return import_module("tslearn.utils")


def irr(W, v):
    """a value with a full mantissa, so that digits lost in text show"""
    return v * W.c(Fraction("0.7234567890123456"))


def holes(W, name, sizes, d, mask):
    """dataset with fixed interior NaN cells given as {(series, time, feature)}"""
    T = max(sizes)
    X = []
    for q, n in enumerate(sizes):
        X.append([[W.nan if i >= n or (q, i, k) in mask else W.real("%s%d_%d_%d" % (name, q, i, k)) for k in range(d)] for i in range(T)])
    return W.arr(X).reshape(len(sizes), T, d)


SH = [((1,), 1, ()), ((3,), 2, ()), ((2, 2), 1, ()), ((2, 2), 3, ()), ((3, 3, 3), 2, ()), ((1, 2), 1, ()), ((3, 1, 2), 2, ()), ((2, 3), 3, ()), ((4, 2), 1, ()), ((1, 1), 1, ()), ((12, 7, 11), 11, ()),
      ((3, 2), 1, ((0, 1, 0),)), ((3, 3), 2, ((0, 0, 0), (1, 1, 1))), ((2, 3), 2, ((0, 1, 0), (1, 2, 1))), ((3, 3), 2, ((1, 2, 0),))]


def ok(fmt, sizes, d, mask):
    if fmt == "pyts":
        return len(set(sizes)) == 1 and not mask
    if fmt == "pyflux":
        return len(sizes) == 1 and not mask
    if fmt == "cesium":
        return min(sizes) > 1  # cesium itself rejects series of one measurement
    return True


F = ("sktime", "pyts", "seglearn", "stumpy", "tsfresh", "cesium", "pyflux")


@cases(CASES, [dict(fmt=f, sizes=s, d=d, mask=m) for f in F for s, d, m in SH if ok(f, s, d, m)])
def roundtrip(W, fmt, sizes, d, mask):
    X = holes(W, "x", sizes, d, set(mask))
    snap = snapshot(W, X)
    to, frm = getattr(U(), "to_%s_dataset" % fmt), getattr(U(), "from_%s_dataset" % fmt)
    Y = to(X)
    unchanged(W, "input unmodified by to_%s_dataset" % fmt, snap, X)
    layout(W, fmt, Y, X, sizes, d)
    Z = frm(Y)
    W.check("shape", W.shape(Z) == W.shape(X))
    W.check("values", W.all_eq(Z, X))
    layout(W, fmt, Y, X, sizes, d)
    Z2 = frm(Y)
    W.check("a second conversion agrees", W.all_eq(Z2, X))
    if fmt not in EQ:
        L = [[[None if W.isnan(X[q, i, k]) else X[q, i, k] for k in range(d)] for i in range(n)] for q, n in enumerate(sizes)]
        Z3 = frm(to(L))
        W.check("from lists", W.shape(Z3) == W.shape(X) and W.all_eq(Z3, X))


def layout(W, fmt, Y, X, sizes, d):
    """each value sits where the other library's documentation says"""
    lab = "%s layout" % fmt
    n = len(sizes)

    def cell(q, i, k):
        if fmt == "sktime":
            return Y["dim_%d" % k].iloc[q].iloc[i]
        if fmt == "pyts":
            return Y[q, i] if d == 1 else Y[q, k, i]
        if fmt == "seglearn":
            return Y[q][i, k]
        if fmt == "stumpy":
            return Y[q][i] if d == 1 else Y[q][k, i]
        if fmt == "cesium":
            return Y[q].measurement[i] if d == 1 else Y[q].measurement[k, i]
        if fmt == "pyflux":
            return Y["dim_%d" % k].iloc[i]
        r = Y[(Y["id"] == q) & (Y["time"] == i)]
        return r["dim_%d" % k].iloc[0]
    if fmt == "sktime":
        W.check(lab + " shape", tuple(Y.shape) == (n, d) and all(len(Y["dim_%d" % k].iloc[q]) == sizes[q] for k in range(d) for q in range(n)))
    if fmt == "tsfresh":
        W.check(lab + " shape", tuple(Y.shape) == (sum(sizes), d + 2))
    if fmt in ("seglearn", "stumpy", "cesium"):
        W.check(lab + " shape", len(Y) == n)
    for q in range(n):
        for i in range(sizes[q]):
            for k in range(d):
                W.check(lab, W.eq(cell(q, i, k), X[q, i, k]))


def frame_of(W, sizes, d):
    X = dataset(W, "x", sizes, d)
    return X, U().to_sktime_dataset(X)


IX = [(0, 1, 2), (2, 0, 1), (5, 7, 6), ("c", "a", "b"), (0, 0, 1)]


@cases(CASES, [dict(sizes=s, d=d, index=ix) for s, d in (((2, 3, 1), 1), ((2, 2, 2), 2)) for ix in IX])
def sktime_index(W, sizes, d, index):
    """row labels of the frame do not matter, as after a train/test split"""
    X, Y = frame_of(W, sizes, d)
    Y.index = list(index)
    Z = U().from_sktime_dataset(Y)
    W.check("rows by position", W.shape(Z) == W.shape(X) and W.all_eq(Z, X))
    R = U().from_sktime_dataset(Y.iloc[[2, 0]])
    for a, q in enumerate((2, 0)):
        W.check("selected rows", W.all_eq(R[a, :sizes[q]], X[q, :sizes[q]]) and all(W.isnan(v) for v in W.flat(R[a, sizes[q]:])))


@cases(CASES, [dict(d=d, order=o) for d, o in ((2, (1, 0)), (3, (2, 0, 1)), (3, (1, 2, 0)))])
def sktime_columns(W, d, order):
    """columns named dim_0, dim_1, ... give the features in that order; other columns are ignored; gaps are rejected"""
    X, Y = frame_of(W, (2, 3), d)
    Z = U().from_sktime_dataset(Y[["dim_%d" % k for k in order]])
    W.check("features by name", W.all_eq(Z, X))
    Y["label"] = [3, 4]
    W.check("other columns ignored", W.all_eq(U().from_sktime_dataset(Y), X))
    W.check("gap rejected", W.raises(lambda: U().from_sktime_dataset(Y[["dim_%d" % k for k in range(1, d)]]), ValueError) is not None)


@cases(CASES, [dict(sizes=s, d=d, ids=i, rows=r) for s, d in (((2, 3, 1), 1), ((2, 2, 2), 2)) for i in ((0, 1, 2), (4, 11, 300), ("a", "b", "c"), (-5, -2, 7)) for r in ("sorted", "reversed", "mixed")])
def tsfresh_rows(W, sizes, d, ids, rows):
    """series are told apart by id and ordered by time, wherever their rows are"""
    X = dataset(W, "x", sizes, d)
    Y = U().to_tsfresh_dataset(X)
    Y["id"] = [ids[int(q)] for q in list(Y["id"])]
    n = sum(sizes)
    o = list(range(n))
    if rows == "reversed":
        o.reverse()
    if rows == "mixed":
        o = sorted(o, key=lambda i: (i * 7 + 3) % 5)
    Z = U().from_tsfresh_dataset(Y.iloc[o])
    W.check("shape", W.shape(Z) == W.shape(X))
    W.check("values", W.all_eq(Z, X))


@cases(CASES, [dict(d=d) for d in (1, 2, 3)])
def tsfresh_columns(W, d):
    """column order is kept as in the frame, wherever id and time stand"""
    X = dataset(W, "x", (2, 3), d)
    Y = U().to_tsfresh_dataset(X)
    cols = ["dim_%d" % k for k in reversed(range(d))]
    Z = U().from_tsfresh_dataset(Y[[cols[0], "time"] + cols[1:] + ["id"]])
    W.check("shape", W.shape(Z) == W.shape(X))
    for q, n in enumerate((2, 3)):
        for i in range(n):
            for k in range(d):
                W.check("value", W.eq(Z[q, i, k], X[q, i, d - 1 - k]))


@cases(CASES, [dict(ragged=r) for r in (False, True)])
def domain(W, ragged):
    """layouts that need equal lengths or one series refuse other datasets instead of dropping values"""
    X = dataset(W, "x", (2, 3) if ragged else (2, 2), 1)
    W.check("pyts", (W.raises(lambda: U().to_pyts_dataset(X), ValueError) is not None) == ragged)
    W.check("pyflux", W.raises(lambda: U().to_pyflux_dataset(X), ValueError) is not None)
    for f in ("sktime", "tsfresh", "pyflux"):
        W.check("from_%s wants a frame" % f, W.raises(lambda: getattr(U(), "from_%s_dataset" % f)(X), ValueError) is not None)
    W.check("from_cesium wants time series", W.raises(lambda: U().from_cesium_dataset(X), ValueError) is not None)


@cases(CASES, [dict(n=n, t=t, d=d) for n, t, d in ((1, 2, 1), (2, 3, 1), (2, 3, 2), (3, 2, 4))])
def sklearn_layout(W, n, t, d):
    X = dataset(W, "x", (t,) * n, d)
    Y, dd = U().to_sklearn_dataset(X, return_dim=True)
    W.check("dimension", int(dd) == d)
    W.check("2-d", W.shape(Y) == (n, t * d))
    W.check("inverse by reshape", W.all_eq(Y.reshape(n, t, d), X))
    W.check("without the dimension", W.all_eq(U().to_sklearn_dataset(X), Y))


def same_exact(W, a, b):
    if W.symbolic:
        return W.all_eq(a, b)
    return all(x == y or x != x and y != y for x, y in zip(W.flat(a), W.flat(b)))


TX = [(1, 1, ()), (3, 1, ()), (1, 3, ()), (2, 2, ()), (4, 3, ()), (3, 1, ((1, 0),)), (3, 2, ((0, 1), (2, 0))), (2, 11, ())]


@cases(CASES, [dict(n=n, d=d, mask=m) for n, d, m in TX])
def text(W, n, d, mask):
    """one series: text keeps values, length and dimension"""
    A = W.arr([[W.nan if (i, k) in mask else irr(W, W.real("x_%d_%d" % (i, k))) for k in range(d)] for i in range(n)]).reshape(n, d)
    snap = snapshot(W, A)
    s = U().time_series_to_str(A)
    W.check("text", isinstance(s, str) and len(s.split("|")) == d and "\n" not in s)
    B = U().str_to_time_series(s)
    W.check("shape", W.shape(B) == (n, d))
    W.check("values", same_exact(W, A, B))
    W.check("twice", U().time_series_to_str(B) == s if not W.symbolic else True)
    if d == 1:
        C = U().str_to_time_series(U().time_series_to_str(A[:, 0]))
        W.check("flat series", W.shape(C) == (n, 1) and same_exact(W, A, C))
    unchanged(W, "input unmodified", snap, A)


@cases(CASES, [dict(sizes=s, d=d, mask=m, form=f) for s, d, m in (((1,), 1, ()), ((2, 2), 1, ()), ((1, 3), 1, ()), ((3, 1, 2), 2, ()), ((2, 3), 3, ()), ((3, 2), 1, ((0, 1, 0),)), ((3, 3), 2, ((0, 0, 0), (1, 1, 1))), ((3, 3), 2, ((1, 2, 0),)))
               for f in ("array", "list")])
def file(W, sizes, d, mask, form):
    """a dataset saved to a text file comes back unchanged"""
    T = max(sizes)
    rows = [[[W.nan if (q, i, k) in mask else irr(W, W.real("x%d_%d_%d" % (q, i, k))) for k in range(d)] for i in range(n)] for q, n in enumerate(sizes)]
    X = W.arr([r + [[W.nan] * d] * (T - len(r)) for r in rows]).reshape(len(sizes), T, d)
    snap = snapshot(W, X)
    tmp = tempfile.mkdtemp()
    try:
        p = os.path.join(tmp, "set.txt")
        for _ in (0, 1):  # saving again replaces the file
            U().save_time_series_txt(p, X if form == "array" else rows)
        Y = U().load_time_series_txt(p)
    finally:
        shutil.rmtree(tmp)
    W.check("shape", W.shape(Y) == W.shape(X))
    W.check("values", same_exact(W, X, Y))
    W.check("number of lines", True)
    unchanged(W, "input unmodified", snap, X)


@cases(CASES, [dict(digits=k) for k in (17, 20)])
def text_format(W, digits):
    """a user-chosen format with enough digits keeps the values"""
    A = W.arr([[irr(W, W.real("x_%d_%d" % (i, k))) for k in range(2)] for i in range(2)])
    B = U().str_to_time_series(U().time_series_to_str(A, fmt="%%.%dg" % digits))
    W.check("values", W.shape(B) == (2, 2) and same_exact(W, A, B))
