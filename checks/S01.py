"""S01: saving and loading a model preserves its behaviour."""
import os
import tempfile
from importlib import import_module
from symts.harness import cases
from .common import *
from .C01 import numbers

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.clustering", "tslearn.neighbors", "tslearn.piecewise", "tslearn.matrix_profile"]
ASSUMPTIONS = ["json, pickle and h5py are replaced by contract models (what each format keeps, converts or refuses); files are real paths in a scratch directory",
               "fits that raise (EmptyClusterError, ...) are not judged; VARIMA and AutoVARIMA refuse to be saved"]
FORMATS = ("pickle", "json", "hdf5")
WHERE = dict(TimeSeriesKMeans="clustering", KernelKMeans="clustering", KShape="clustering", TimeSeriesDBSCAN="clustering", KNeighborsTimeSeries="neighbors",
             KNeighborsTimeSeriesClassifier="neighbors", KNeighborsTimeSeriesRegressor="neighbors", PiecewiseAggregateApproximation="piecewise",
             SymbolicAggregateApproximation="piecewise", OneD_SymbolicAggregateApproximation="piecewise", MatrixProfile="matrix_profile")
# documented fitted attributes
FITTED = dict(TimeSeriesKMeans=("labels_", "cluster_centers_", "inertia_", "n_iter_"), KernelKMeans=("labels_", "inertia_", "sample_weight_", "n_iter_"),
              KShape=("cluster_centers_", "labels_", "inertia_", "n_iter_"), TimeSeriesDBSCAN=("core_ts_indices_", "components_", "labels_"),
              KNeighborsTimeSeriesClassifier=("classes_",), SymbolicAggregateApproximation=("breakpoints_avg_", "breakpoints_avg_middle_"),
              OneD_SymbolicAggregateApproximation=("breakpoints_avg_", "breakpoints_avg_middle_", "breakpoints_slope_", "breakpoints_slope_middle_"))


def cls(name):
    return getattr(import_module("tslearn." + WHERE[name]), name)


def same(W, label, a, b):
    """equal values of equal kind and shape (containers of numbers may come back as arrays)"""
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        W.check(label, type(a) in (str, type(None)) and a == b)
        return
    if isinstance(a, dict):
        W.check(label + " (keys)", isinstance(b, dict) and sorted(a) == sorted(b))
        if isinstance(b, dict) and sorted(a) == sorted(b):
            for k in a:
                same(W, label + "." + str(k), a[k], b[k])
        return
    if getattr(a, "ndim", 0) or isinstance(a, (list, tuple)):
        sa = W.shape(a) if hasattr(a, "shape") else None
        if sa is not None:
            W.check(label + " (shape)", hasattr(b, "shape") and W.shape(b) == sa)
        W.check(label, W.all_eq(a, b))
        return
    W.check(label, W.eq(a, b))


def answers(W, m, calls, Q):
    out = {}
    for c in calls:
        if c == "self":
            out["neighbors among the training series"] = m.kneighbors(None)
        elif c == "inverse":
            out["inverse transform"] = m.inverse_transform(m.transform(Q))
        elif c == "distance":
            out["distance"] = m.distance(Q[0], Q[1])
        else:
            out[c] = getattr(m, c)(Q)
    return out


def saved(W, m, name, fmts, calls, Q, twice=True):
    """m is written and read back: constructor parameters, fitted attributes, answers; m itself stays as it was"""
    par = {k: (list(W.flat(v)) if hasattr(v, "shape") else dict(v) if isinstance(v, dict) else v) for k, v in m.get_params().items()}
    att = {a: getattr(m, a) for a in FITTED.get(name, ())}
    ans = answers(W, m, calls, Q)

    def against(q, label, ref):
        got = q.get_params()
        W.check(label + ": parameter names", sorted(got) == sorted(ref))
        orig = m.get_params()
        for k in ref:
            same(W, label + ": parameter " + k, orig[k], got[k])
        for a, v in att.items():
            W.check(label + ": has " + a, hasattr(q, a))
            if hasattr(q, a):
                same(W, label + ": " + a, v, getattr(q, a))
        r = answers(W, q, calls, Q)
        for c in ans:
            x, y = ans[c], r[c]
            if isinstance(x, tuple):
                W.check(label + ": " + c, len(x) == len(y))
                for u, v in zip(x, y):
                    same(W, label + ": " + c, u, v)
            else:
                same(W, label + ": " + c, x, y)
    for fmt in fmts:
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "model")
            getattr(m, "to_" + fmt)(f)
            now = m.get_params()
            for k, v in par.items():
                W.check("saving leaves the parameters alone (%s)" % k, W.truth(W.all_eq(now[k], v)) if hasattr(now[k], "shape") else (isinstance(v, dict) and now[k] == v) or type(now[k]) is type(v))
            if fmt == "hdf5":
                W.check("an existing HDF5 file is not overwritten", W.raises(lambda: m.to_hdf5(f), FileExistsError) == "FileExistsError")
            q = getattr(cls(name), "from_" + fmt)(f)
            W.check("same class", type(q) is type(m))
            against(q, fmt, par)
            if twice:
                g = os.path.join(tmp, "again")
                other = {"pickle": "json", "json": "hdf5", "hdf5": "json"}[fmt]
                getattr(q, "to_" + other)(g)
                against(getattr(cls(name), "from_" + other)(g), fmt + " then " + other, par)
            against(m, "original after saving as " + fmt, par)


def attempt(W, m, X, *y):
    try:
        m.fit(X, *y)
    except Exception as e:
        if type(e).__name__ in ("EmptyClusterError", "RuntimeError"):
            return False
        raise
    return True


TR = [dict(name="PiecewiseAggregateApproximation", t=4, d=2, kw=dict(n_segments=2), fmt=f) for f in FORMATS] + [
    dict(name="SymbolicAggregateApproximation", t=4, d=1, kw=dict(n_segments=2, alphabet_size_avg=3), fmt=f) for f in FORMATS] + [
    dict(name="OneD_SymbolicAggregateApproximation", t=4, d=1, kw=dict(n_segments=2, alphabet_size_avg=2, alphabet_size_slope=2, **e), fmt=f) for f in FORMATS for e in ({}, dict(sigma_l=0.5))] + [
    dict(name="MatrixProfile", t=4, d=1, kw=dict(subsequence_length=2, scale=False), fmt=f) for f in FORMATS]


@cases(CASES, TR)
def transformer(W, name, t, d, kw, fmt):
    """every value free"""
    m = cls(name)(**kw)
    m.fit(dataset(W, "x", (t, t), d))
    saved(W, m, name, [fmt], ["transform"] + (["distance"] if name.startswith("Piece") else []), dataset(W, "q", (t, t) if name.startswith("Piece") else (t,), d))


TS = [dict(name=n, t=t, d=d, kw=kw, calls=c) for n, t, d, kw, c in (
    ("PiecewiseAggregateApproximation", 7, 2, dict(n_segments=3), ("transform", "inverse", "distance")),
    ("SymbolicAggregateApproximation", 6, 2, dict(n_segments=3, alphabet_size_avg=4, scale=False), ("transform", "inverse", "distance")),
    ("SymbolicAggregateApproximation", 6, 1, dict(n_segments=2, alphabet_size_avg=5, scale=True), ("transform", "inverse", "distance")),
    ("OneD_SymbolicAggregateApproximation", 6, 1, dict(n_segments=2, alphabet_size_avg=5, alphabet_size_slope=3, sigma_l=None), ("transform", "inverse", "distance")),
    ("OneD_SymbolicAggregateApproximation", 6, 2, dict(n_segments=3, alphabet_size_avg=3, alphabet_size_slope=4, sigma_l=0.25, scale=True), ("transform", "inverse", "distance")),
    ("MatrixProfile", 6, 1, dict(subsequence_length=3, scale=True), ("transform",)),
    ("MatrixProfile", 6, 2, dict(subsequence_length=3, scale=False, implementation="stump"), ("transform",)))]


@cases(CASES, TS, feas_exact=True)
def transformer_numbers(W, name, t, d, kw, calls):
    """one value of each dataset free"""
    if kw.get("implementation") == "stump":
        d = 1
    m = cls(name)(**kw)
    sc = kw.get("scale")
    X = numbers(W, "x", 3, t, d, [] if sc else [(0, 1, 0)], 31)
    Q = numbers(W, "q", 2, t, d, [] if sc else [(1, 0, 0)], 32)
    m.fit(X)
    saved(W, m, name, FORMATS, calls, Q)


NN = [dict(name=n, metric=me, mp=mp, sizes=s, qs=q, d=d, weights=w, fmt=f) for z, (n, me, mp, s, q, d, w) in enumerate((
    ("KNeighborsTimeSeries", "dtw", None, (2, 1), (2,), 1, None),
    ("KNeighborsTimeSeries", "euclidean", {}, (2, 2), (2,), 1, None),
    ("KNeighborsTimeSeriesClassifier", "dtw", dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=1), (2, 2), (2,), 1, "uniform"),
    ("KNeighborsTimeSeriesClassifier", "euclidean", None, (1, 1), (1,), 2, "uniform"),
    ("KNeighborsTimeSeriesClassifier", "sqeuclidean", None, (2, 2), (2,), 1, "uniform"),
    ("KNeighborsTimeSeriesRegressor", "dtw", dict(itakura_max_slope=2.0), (2, 2), (2,), 1, "uniform"),
    ("KNeighborsTimeSeriesRegressor", "cityblock", None, (2, 2), (2,), 1, "uniform"),
    ("KNeighborsTimeSeries", "frechet", None, (1, 2), (1,), 1, None))) for f in (FORMATS if z in (2, 4, 5) else (FORMATS[z % 3],))]


def knn(name, metric, mp, weights, k):
    kw = dict(n_neighbors=k, metric=metric, metric_params=mp)
    if weights is not None:
        kw["weights"] = weights
    return cls(name)(**kw)


def knn_calls(name):
    return {"KNeighborsTimeSeries": ("kneighbors", "self"), "KNeighborsTimeSeriesClassifier": ("predict", "predict_proba", "kneighbors"), "KNeighborsTimeSeriesRegressor": ("predict", "kneighbors")}[name]


def targets(W, name, n, kind):
    if name == "KNeighborsTimeSeries":
        return []
    if name.endswith("Regressor"):
        y = [W.real("y%d" % i) for i in range(n)]
        return [W.arr([[v, W.real("z%d" % i)] for i, v in enumerate(y)] if kind == "two" else y)]
    return [W.arr([["bravo", "a"][i % 2] for i in range(n)], str) if kind == "text" else W.arr([[7, 3][i % 2] for i in range(n)], int)]


@cases(CASES, NN)
def neighbors(W, name, metric, mp, sizes, qs, d, weights, fmt):
    """every value free"""
    m = knn(name, metric, mp, weights, 1)
    m.fit(dataset(W, "x", sizes, d), *targets(W, name, len(sizes), "number"))
    saved(W, m, name, [fmt], knn_calls(name), dataset(W, "q", qs, d), twice=False)


NM = [dict(name=n, metric=me, mp=mp, sizes=s, weights=w, kind=k) for n, me, mp, s, w, k in (
    ("KNeighborsTimeSeriesClassifier", "dtw", dict(global_constraint="itakura", itakura_max_slope=1.5), (3, 3, 3, 3), "distance", "text"),
    ("KNeighborsTimeSeriesClassifier", "euclidean", None, (3, 3, 3), "distance", "text"),
    ("KNeighborsTimeSeriesClassifier", "softdtw", dict(gamma=0.5), (1, 1, 1), "uniform", "number"),
    ("KNeighborsTimeSeriesClassifier", "sax", dict(n_segments=2, alphabet_size_avg=4), (4, 4, 4), "uniform", "text"),
    ("KNeighborsTimeSeriesRegressor", "sax", dict(n_segments=2, alphabet_size_avg=3), (4, 4, 4), "uniform", "number"),
    ("KNeighborsTimeSeriesRegressor", "frechet", {}, (2, 3, 3), "uniform", "two"),
    ("KNeighborsTimeSeriesRegressor", "euclidean", None, (3, 3, 3), "distance", "number"),
    ("KNeighborsTimeSeriesRegressor", "dtw", dict(global_constraint=None), (2, 3, 3), "uniform", "two"),
    ("KNeighborsTimeSeries", "sax", dict(n_segments=2, alphabet_size_avg=4, scale=True), (4, 4, 4), None, ""),
    ("KNeighborsTimeSeries", "sqeuclidean", None, (3, 3, 3), None, ""),
    ("KNeighborsTimeSeries", "dtw", dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=0), (3, 3, 3), None, ""))]


@cases(CASES, NM, feas_exact=True)
def neighbors_numbers(W, name, metric, mp, sizes, weights, kind):
    """text labels, several targets, symbolic representations, weights; all formats, saved twice"""
    m = knn(name, metric, mp, weights, 2)
    X = numbers(W, "x", len(sizes), max(sizes), 1, [], 41, sizes)
    m.fit(X, *targets(W, name, len(sizes), kind))
    saved(W, m, name, FORMATS, knn_calls(name), numbers(W, "q", 2, sizes[0], 1, [], 42))


CL = [dict(name=n, sizes=s, d=d, kw=kw, calls=c, seed=z) for z, (n, s, d, kw, c) in enumerate((
    ("TimeSeriesKMeans", (3, 3, 3, 3), 1, dict(n_clusters=2, metric="euclidean", max_iter=3, init="random"), ("predict", "transform")),
    ("TimeSeriesKMeans", (3, 3, 3), 2, dict(n_clusters=2, metric="euclidean", max_iter=2, init="array"), ("predict", "transform")),
    ("TimeSeriesKMeans", (3, 2, 3), 1, dict(n_clusters=2, metric="dtw", max_iter=1, init="random", metric_params=dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=1)), ("predict", "transform")),
    ("TimeSeriesKMeans", (2, 3), 1, dict(n_clusters=1, metric="dtw", max_iter=1, init="random", n_init=1, metric_params=dict(global_constraint=None)), ("predict",)),
    ("KernelKMeans", (2, 1), 1, dict(n_clusters=1, max_iter=1, kernel="gak", kernel_params=dict(sigma=2.0)), ("predict",)),
    ("KernelKMeans", (2, 2, 2), 1, dict(n_clusters=2, max_iter=2, kernel="linear"), ("predict",)),
    ("KernelKMeans", (2, 2), 2, dict(n_clusters=1, max_iter=1, kernel="rbf", kernel_params=dict(gamma=0.5)), ("predict",)),
    ("TimeSeriesDBSCAN", (3, 2, 3), 1, dict(eps=4.0, min_ts=2, metric="dtw", metric_params=dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=1)), ()),
    ("TimeSeriesDBSCAN", (2, 2, 2), 1, dict(eps=4.0, min_ts=2, metric="euclidean"), ()),
))]


@cases(CASES, CL, feas_exact=True)
def clusterer(W, name, sizes, d, kw, calls, seed):
    """labels, centers, inertia and predictions come back"""
    kw = dict(kw)
    X = numbers(W, "x", len(sizes), max(sizes), d, [], 51 + seed, sizes)
    if kw.get("init") == "array":
        kw["init"] = numbers(W, "c", 2, max(sizes), d, [], 71)
    if name != "TimeSeriesDBSCAN":
        kw["random_state"] = 3
    m = cls(name)(**kw)
    if attempt(W, m, X):
        saved(W, m, name, FORMATS, calls, numbers(W, "q", 2, max(sizes), d, [], 81))


@cases(CASES, [dict(fmt=f) for f in FORMATS])
def centers(W, fmt):
    """a fitted k-means with free series values"""
    X = dataset(W, "x", (1, 1), 1)
    m = cls("TimeSeriesKMeans")(n_clusters=1, metric="euclidean", max_iter=1, init=W.arr([[[W.real("c")]]]))
    m.fit(X)
    saved(W, m, "TimeSeriesKMeans", [fmt], ("predict", "transform"), dataset(W, "q", (1,), 1))


@cases(CASES, [dict(n=2, t=3, d=1), dict(n=3, t=2, d=2)], feas_exact=True)
def kshape(W, n, t, d):
    """k-shape carrying given fitted attributes (its fit is decided by C02)"""
    m = cls("KShape")(n_clusters=n, max_iter=7, tol=0.5, n_init=2, random_state=4, init=numbers(W, "i", n, t, d, [], 91))
    C = numbers(W, "c", n, t, d, [(0, 0, 0)], 92)
    m.cluster_centers_, m.labels_, m.inertia_, m.n_iter_ = C, W.arr([0, 1, 1], int), W.real("inertia"), 3
    m.norms_ = W.arr([W.real("n0", pos=True), W.c(Fraction(2)), W.c(Fraction(3))])
    m.norms_centroids_ = W.arr([W.sqrt(W.sum([v * v for v in W.flat(C[i])])) for i in range(n)])
    saved(W, m, "KShape", FORMATS, ("predict",), numbers(W, "q", 1, t, d, [], 93))


@cases(CASES, [dict(name=n) for n in ("TimeSeriesKMeans", "KernelKMeans", "KShape", "PiecewiseAggregateApproximation", "SymbolicAggregateApproximation", "MatrixProfile", "KNeighborsTimeSeries", "KNeighborsTimeSeriesClassifier", "KNeighborsTimeSeriesRegressor", "TimeSeriesDBSCAN")])
def unfitted(W, name):
    """an estimator that was never fitted cannot be saved, and no file is written"""
    with tempfile.TemporaryDirectory() as tmp:
        for fmt in FORMATS:
            f = os.path.join(tmp, fmt)
            W.check("refused", W.raises(lambda: getattr(cls(name)(), "to_" + fmt)(f), Exception) == "NotFittedError")
            W.check("no file left", not os.path.exists(f))


@cases(CASES, [dict(fmt=f) for f in FORMATS])
def independent(W, fmt):
    """models loaded from one file, and the original, do not share state: refitting one leaves the others"""
    X, Y = dataset(W, "x", (2, 2), 1), dataset(W, "y", (2, 2), 1)
    Q = dataset(W, "q", (2,), 1)
    m = cls("KNeighborsTimeSeries")(n_neighbors=1, metric="euclidean")
    m.fit(X)
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "m")
        getattr(m, "to_" + fmt)(f)
        a = getattr(type(m), "from_" + fmt)(f)
        a.fit(Y)
        b = getattr(type(m), "from_" + fmt)(f)
        for u, v in zip(m.kneighbors(Q), b.kneighbors(Q)):
            W.check("unaffected", W.all_eq(u, v))
        n = cls("KNeighborsTimeSeries")(n_neighbors=1, metric="euclidean")
        n.fit(Y)
        for u, v in zip(n.kneighbors(Q), a.kneighbors(Q)):
            W.check("a loaded model can be refitted", W.all_eq(u, v))
