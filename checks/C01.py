"""C01: k-means labels, inertia and predictions are consistent."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .M11 import soft_and_use

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.clustering"]
ASSUMPTIONS = ["fits that end with an EmptyClusterError (or without any successful initialisation) are not judged",
               "scikit-learn's k-means++ seeding is replaced by an arbitrary choice of distinct rows; the soft-DTW barycenter optimiser by arbitrary centers"]


def K():
    return import_module("tslearn.clustering")


def valid(W, X, q, n=None):
    T = W.shape(X)[1]
    out = []
    for i in range(T if n is None else n):
        out.append([X[q, i, k] for k in range(W.shape(X)[2])])
    return W.arr(out)


def dist2(W, metric, a, b, con=("none",), gamma=None):
    """squared distance of series a to center b"""
    if metric == "euclidean":
        return W.sum([W.sqdist(p, q) for p, q in zip(pts(a), pts(b))])
    n, m = int(a.shape[0]), int(b.shape[0])
    C = cost_matrix(W, a, b)
    return flat_dtw(W, C, constraint(n, m, con)[1])


def consistent(W, km, X, sizes, metric, con=("none",), other=None):
    """labels, inertia, predict and transform against the fitted centers"""
    n, k = len(sizes), int(km.cluster_centers_.shape[0])
    D = [[dist2(W, metric, valid(W, X, q, sizes[q]), km.cluster_centers_[c], con) for c in range(k)] for q in range(n)]
    lab = [int(v) for v in W.flat(km.labels_)]
    W.check("one label per series", len(lab) == n and all(0 <= v < k for v in lab))
    for q in range(n):
        for c in range(k):
            if c != lab[q]:
                W.check("label is a nearest center", W.le(D[q][lab[q]], D[q][c]))
    W.check("no empty cluster", set(lab) == set(range(k)))
    E = D if other is None else [[dist2(W, other, valid(W, X, q, sizes[q]), km.cluster_centers_[c]) for c in range(k)] for q in range(n)]
    W.check("inertia is the mean squared distance to the assigned centers", W.eq(km.inertia_ * n, W.sum([E[q][lab[q]] for q in range(n)])))
    W.check("predict gives the labels", W.flat(km.predict(X)) == lab)
    W.check("inertia and labels survive predict", [int(v) for v in W.flat(km.labels_)] == lab)
    T = km.transform(X)
    W.check("transform gives the distances", W.shape(T) == (n, k) and W.truth(W.and_(*[W.and_(W.le(0, T[q, c]), W.eq(T[q, c] * T[q, c], D[q][c])) for q in range(n) for c in range(k)])))


def fit(km, X):
    try:
        km.fit(X)
    except K().EmptyClusterError:
        return False
    return km._X_fit is not None


EU = [dict(n=n, t=t, d=d, k=k, it=i) for n, t, d, k, i in ((1, 1, 1, 1, 1), (2, 1, 1, 1, 2), (2, 1, 1, 2, 1), (2, 1, 1, 2, 2), (3, 1, 1, 2, 1), (2, 2, 1, 2, 1), (3, 1, 1, 1, 2), (2, 1, 2, 2, 1))]


@cases(CASES, EU, [dict(n=3, t=1, d=1, k=2, it=2), dict(n=4, t=1, d=1, k=2, it=1), dict(n=3, t=1, d=1, k=3, it=1)])
def euclidean(W, n, t, d, k, it):
    X = dataset(W, "x", (t,) * n, d)
    init = dataset(W, "c", (t,) * k, d)
    snap = snapshot(W, X, init)
    km = K().TimeSeriesKMeans(n_clusters=k, metric="euclidean", max_iter=it, init=init)
    if not fit(km, X):
        return
    W.check("shape", W.shape(km.cluster_centers_) == (k, t, d))
    consistent(W, km, X, (t,) * n, "euclidean")
    unchanged(W, "data and initial centers unmodified", snap, X, init)
    W.check("constructor parameters unchanged", km.n_clusters == k and km.init is init and km.max_iter == it)


def numbers(W, name, n, t, d, free, seed, sizes=None, spread=2):
    """fixed dataset with some free samples"""
    g = lcg(seed)
    T = t
    R = [[[W.c(Fraction(next(g))) for _ in range(d)] if sizes is None or i < sizes[q] else [W.nan] * d for i in range(T)] for q in range(n)]
    for z, (q, i, k) in enumerate(free):
        u = W.real("%s%d" % (name, z))
        c = R[q][i][k]
        W.assume(W.and_(W.le(c - spread, u), W.le(u, c + spread)))
        R[q][i][k] = u
    return W.arr(R)


def seeding(W):
    W.hook("kmeanspp", lambda X, n_clusters, rng: (X[[int(i) for i in rng.choice(W.shape(X)[0], n_clusters, replace=False)]], None))


LONG = [dict(n=n, t=t, d=d, k=k, it=i, init=init, seed=s) for n, t, d, k, i, init, s in (
    (6, 3, 1, 2, 3, "array", 1), (5, 4, 2, 2, 10, "array", 2), (6, 2, 1, 3, 5, "array", 3), (4, 3, 1, 2, 3, "random", 4), (4, 3, 1, 2, 5, "k-means++", 5), (5, 2, 2, 3, 1, "array", 61), (5, 3, 1, 2, 6, "array", 62), (6, 4, 1, 3, 4, "array", 63))]


@cases(CASES, LONG, [dict(n=10, t=5, d=2, k=3, it=20, init="array", seed=7), dict(n=6, t=4, d=1, k=3, it=5, init="random", seed=8)], feas_exact=True, over_thorough=dict(budget=900))
def iterated(W, n, t, d, k, it, init, seed):
    """larger data and iterations to convergence, one free sample"""
    X = numbers(W, "u", n, t, d, [(n - 1, t - 1, d - 1)], seed, spread=15)
    ini = numbers(W, "v", k, t, d, [], seed + 50) if init == "array" else init
    snap = snapshot(W, X)
    seeding(W)
    km = K().TimeSeriesKMeans(n_clusters=k, metric="euclidean", max_iter=it, init=ini, random_state=W.rng("r") if init != "array" else None)
    if not fit(km, X):
        return
    consistent(W, km, X, (t,) * n, "euclidean")
    unchanged(W, "data unmodified", snap, X)


DT = [dict(sizes=s, d=d, k=k, c=c, it=i, con=con) for s, d, k, c, i, con in (
    ((1, 1), 1, 1, 1, 1, ("none",)), ((2, 1), 1, 1, 2, 1, ("none",)), ((1, 1), 1, 2, 1, 1, ("none",)), ((2, 2), 1, 1, 2, 1, ("sc", 0)), ((2, 2), 1, 1, 1, 1, ("none",)), ((1, 2), 2, 1, 1, 1, ("none",)))]


@cases(CASES, DT, [dict(sizes=(2, 1), d=1, k=2, c=1, it=1, con=("none",))])
def dtw(W, sizes, d, k, c, it, con):
    """every value free: series of different lengths, centers of length c"""
    X = dataset(W, "x", sizes, d)
    init = dataset(W, "c", (c,) * k, d)
    snap = snapshot(W, X, init)
    mp = constraint(2, 2, con)[0] or None
    before = dict(mp or {})
    km = K().TimeSeriesKMeans(n_clusters=k, metric="dtw", max_iter=it, init=init, metric_params=mp)
    if not fit(km, X):
        return
    consistent(W, km, X, sizes, "dtw", con)
    unchanged(W, "data and initial centers unmodified", snap, X, init)
    W.check("metric_params unmodified", dict(mp or {}) == before)


DL = [dict(sizes=s, d=d, k=k, c=c, it=i, con=con, init=ini, seed=sd) for s, d, k, c, i, con, ini, sd in (
    ((3, 3, 3), 1, 2, 3, 1, ("none",), "array", 11), ((4, 3, 2), 1, 2, 3, 2, ("none",), "array", 12), ((3, 3, 3), 1, 2, 3, 2, ("sc", 0), "array", 13), ((3, 3, 3), 2, 2, 3, 1, ("sc?", 1), "array", 14), ((3, 2, 3), 1, 2, 3, 1, ("none",), "random", 15),
    ((4, 4, 4), 1, 2, 4, 1, ("ita", 2), "array", 16), ((2, 1, 2), 1, 2, 2, 1, ("none",), "k-means++", 17), ((4, 3, 4), 1, 2, 4, 3, ("none",), "array", 32))]


@cases(CASES, DL, [dict(sizes=(3, 3, 2), d=1, k=2, c=3, it=1, con=("none",), init="k-means++", seed=17), dict(sizes=(5, 4, 3, 5), d=1, k=2, c=4, it=4, con=("none",), init="array", seed=18)], feas_exact=True, over_thorough=dict(budget=900))
def dtw_long(W, sizes, d, k, c, it, con, init, seed):
    T = max(sizes)
    X = numbers(W, "u", len(sizes), T, d, [(0, sizes[0] - 1, d - 1)], seed, sizes, spread=10)
    ini = numbers(W, "v", k, c, d, [], seed + 50) if init == "array" else init
    snap = snapshot(W, X)
    km = K().TimeSeriesKMeans(n_clusters=k, metric="dtw", max_iter=it, init=ini, metric_params=constraint(2, 2, con)[0], random_state=W.rng("r") if init != "array" else None)
    if not fit(km, X):
        return
    if init != "array":
        W.check("centers are full length", not any(W.isnan(v) is True for v in W.flat(km.cluster_centers_)))
    consistent(W, km, X, sizes, "dtw", con)
    unchanged(W, "data unmodified", snap, X)


@cases(CASES, [dict(n=2, t=1, k=1), dict(n=2, t=2, k=1)])
def dtw_inertia(W, n, t, k):
    """dtw_inertia=True: labels by the model's metric, inertia by DTW"""
    X = dataset(W, "x", (t,) * n, 1)
    init = dataset(W, "c", (t,) * k, 1)
    km = K().TimeSeriesKMeans(n_clusters=k, metric="euclidean", max_iter=1, init=init, dtw_inertia=True)
    if not fit(km, X):
        return
    consistent(W, km, X, (t,) * n, "euclidean", other="dtw")


@cases(CASES, [dict(n=2, t=1, k=1, g=1), dict(n=2, t=2, k=1, g=0.5), ], [dict(n=2, t=1, k=2, g=1, fixed=True)], feas_exact=True)
def softdtw(W, n, t, k, g, fixed=False):
    """labels, transform and inertia are those of the soft-DTW discrepancies to the centers the optimiser returned"""
    X = numbers(W, "x", n, t, 1, [], 24) if fixed else dataset(W, "x", (t,) * n, 1)
    cnt = [0]

    class Res:
        pass

    def h(fun, x0, args=(), **kw):
        r = Res()
        shp = W.shape(x0)
        cnt[0] += 1
        r.x = W.reals("opt%d" % cnt[0], *shp) if not fixed else numbers(W, "opt%d." % cnt[0], int(shp[0]), 1, 1, [(0, 0, 0)], 60 + cnt[0], spread=9)[:, 0, 0]
        r.fun = 0.0
        return r
    W.hook("minimize", h)
    mp = {"gamma": g}
    km = K().TimeSeriesKMeans(n_clusters=k, metric="softdtw", max_iter=1, init=X[:k] if fixed else dataset(W, "c", (t,) * k, 1), metric_params=mp)
    if not fit(km, X):
        return
    W.check("metric_params unmodified", mp == {"gamma": g})
    M = import_module("tslearn.metrics")
    D = M.cdist_soft_dtw(X, km.cluster_centers_, gamma=g)
    lab = [int(v) for v in W.flat(km.labels_)]
    for q in range(n):
        for c in range(k):
            W.check("label is a nearest center", W.le(D[q, lab[q]], D[q, c]))
    W.check("transform gives the discrepancies", W.all_eq(km.transform(X), D))
    W.check("predict gives the labels", W.flat(km.predict(X)) == lab)
    W.check("inertia", W.eq(km.inertia_ * n, W.sum([D[q, lab[q]] * D[q, lab[q]] for q in range(n)])))


@cases(CASES, [dict(metric="euclidean", n=2, t=1, k=2), dict(metric="euclidean", n=3, t=1, k=2), dict(metric="dtw", n=2, t=2, k=1), dict(metric="dtw", n=2, t=1, k=2)])
def predict(W, metric, n, t, k):
    """prediction for new series: the nearest center, whatever else is in the batch"""
    C = numbers(W, "c", k, t, 1, [], 21)
    km = K().TimeSeriesKMeans(n_clusters=k, metric=metric, max_iter=1, init=C)
    if not fit(km, C):
        return
    Y = dataset(W, "y", (t,) * n, 1)
    snap = snapshot(W, Y)
    centers = W.flat(km.cluster_centers_)
    P = [int(v) for v in W.flat(km.predict(Y))]
    for q in range(n):
        D = [dist2(W, metric, Y[q], km.cluster_centers_[c]) for c in range(k)]
        for c in range(k):
            W.check("nearest center", W.le(D[P[q]], D[c]))
    for q in range(n):
        W.check("alone", [int(v) for v in W.flat(km.predict(Y[q:q + 1]))] == [P[q]])
    unchanged(W, "data unmodified", snap, Y)
    W.check("centers unmodified", W.all_eq(centers, km.cluster_centers_))


@cases(CASES, [dict(metric=m, sizes=s) for m, s in (("dtw", (1, 2)), ("dtw", (3, 2)), ("dtw", (2, 4)))])
def predict_lengths(W, metric, sizes):
    """new series shorter or longer than the centers"""
    C = numbers(W, "c", 2, 2, 1, [], 22)
    km = K().TimeSeriesKMeans(n_clusters=2, metric=metric, max_iter=1, init=C)
    if not fit(km, C):
        return
    T = max(sizes)
    Y = numbers(W, "y", len(sizes), T, 1, [(0, 0, 0)], 23, sizes)
    P = [int(v) for v in W.flat(km.predict(Y))]
    Z = km.transform(Y)
    for q in range(len(sizes)):
        D = [dist2(W, metric, valid(W, Y, q, sizes[q]), km.cluster_centers_[c]) for c in range(2)]
        for c in range(2):
            W.check("nearest center", W.le(D[P[q]], D[c]))
            W.check("distance", W.eq(Z[q, c] * Z[q, c], D[c]))


@cases(CASES, [dict(rows=r, k=k, it=it, seed=s) for r, k, it, s in (
    (((0, 1), (2, 3)), 2, 6, 31), (((2, 3), (0, 1)), 2, 6, 32), (((0, 1, 2), (1, 2, 3), (0, 3, 4)), 3, 6, 33), (((1, 2), (0, 3), (3, 4)), 2, 1, 34), (((0,), (1,)), 1, 1, 35))], feas_exact=True)
def best_of(W, rows, k, it, seed):
    """of several initialisations the one with the least inertia is kept, with its own centers and labels"""
    n = max(max(r) for r in rows) + 1
    X = numbers(W, "u", n, 1, 1, [(0, 0, 0)], seed, spread=12)
    todo = []
    W.hook("kmeanspp", lambda X, n_clusters, rng: (X[list(todo.pop(0) if len(todo) > 1 else todo[0])], None))
    mk = lambda i: K().TimeSeriesKMeans(n_clusters=k, metric="euclidean", max_iter=it, tol=0.0, n_init=i, init="k-means++", random_state=0)
    todo[:] = rows
    km = mk(len(rows))
    if not fit(km, X):
        return
    consistent(W, km, X, (1,) * n, "euclidean")
    runs = []
    for r in rows:
        todo[:] = [r] * 11
        o = mk(1)
        if fit(o, X):
            runs.append(o.inertia_)
            W.check("inertia not above that of any run", W.le(km.inertia_, o.inertia_ + W.c(Fraction(1, 10 ** 5))))
    W.check("inertia of one of the runs", W.or_(*[W.eq(km.inertia_, r) for r in runs]))


@cases(CASES, [dict(metric=m) for m in ("euclidean", "dtw")])
def refit(W, metric):
    """a refit depends only on its own data and parameters"""
    A, B = dataset(W, "a", (1, 1), 1), dataset(W, "b", (1, 1), 1)
    init = W.arr([[[0.0]], [[1.0]]])
    mk = lambda: K().TimeSeriesKMeans(n_clusters=2, metric=metric, max_iter=2, init=init)
    one, two = mk(), mk()
    fit(two, A)
    ok1, ok2 = fit(one, B), fit(two, B)
    W.check("same outcome", ok1 == ok2)
    if ok1 and ok2:
        W.check("same labels", W.flat(one.labels_) == W.flat(two.labels_))
        W.check("same centers", W.all_eq(one.cluster_centers_, two.cluster_centers_))
        W.check("same inertia", W.eq(one.inertia_, two.inertia_))
