"""C03: DBSCAN labels are the density-connected clusters; silhouette scores use the stated metric."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .C01 import numbers
from .K01 import reference, metric_kw, SQUARED
from .M14 import cca_hook, fitted

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.clustering", "tslearn.neighbors"]
ASSUMPTIONS = ["no distance is within 1/1000 of eps", "scikit-learn's radius_neighbors, its compiled depth-first search and its silhouette formula are modelled by contract"]


def K():
    return import_module("tslearn.clustering")


def near(W, D, squared, eps):
    """neighbourhood relation; distances too close to eps are left out"""
    e = Fraction(eps)
    lo, hi = (e - Fraction(1, 1000), e + Fraction(1, 1000))
    if squared:
        lo, hi = lo * lo, hi * hi
    n = len(D)
    N = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                N[i][j] = True
                continue
            if j < i:
                N[i][j] = N[j][i]
                continue
            W.assume(W.or_(W.lt(D[i][j], lo), W.lt(hi, D[i][j])))
            N[i][j] = bool(W.truth(W.lt(D[i][j], lo)))
    return N


def clusters(N, min_ts):
    n = len(N)
    core = [sum(N[i]) >= min_ts for i in range(n)]
    comp = {}
    c = 0
    for i in range(n):
        if core[i] and i not in comp:
            todo = [i]
            while todo:
                v = todo.pop()
                if v not in comp:
                    comp[v] = c
                    todo += [j for j in range(n) if N[v][j] and core[j] and j not in comp]
            c += 1
    return core, comp


def judge(W, db, N, min_ts, X):
    n = len(N)
    core, comp = clusters(N, min_ts)
    lab = [int(v) for v in W.flat(db.labels_)]
    W.check("one label per series", len(lab) == n)
    for i in range(n):
        if core[i]:
            W.check("core series: its connected component, numbered by first appearance", lab[i] == comp[i])
        else:
            own = {comp[j] for j in range(n) if N[i][j] and core[j]}
            W.check("border series: the cluster of a core neighbour, noise otherwise", lab[i] in own if own else lab[i] == -1)
    idx = [int(v) for v in W.flat(db.core_ts_indices_)]
    W.check("core indices", idx == [i for i in range(n) if core[i]])
    if idx:
        W.check("components are the core series", W.all_eq(db.components_, X[idx]))
    return lab


S = [dict(metric=m, sizes=s, d=d, eps=e, mts=k, params=p) for m, s, d, e, k, p in (
    ("dtw", (1, 1, 1), 1, 1, 2, None), ("dtw", (2, 2), 1, 0.5, 2, None), ("dtw", (2, 1), 1, 2, 1, None), ("dtw", (1, 1, 1), 1, 1, 3, None), ("dtw", (3, 3), 1, 1, 2, {"_con": ("sc", 0)}), ("dtw", (3, 3), 1, 1, 2, {"_con": ("ita", 2)}), ("dtw", (2, 2), 2, 3, 2, None),
    ("euclidean", (1, 1, 1), 1, 1, 2, None), ("euclidean", (2, 2), 2, 2, 2, None), ("frechet", (2, 2), 1, 1, 2, None), ("frechet", (1, 1, 1), 1, 1, 2, None), ("frechet", (2, 1), 1, 1, 1, None), ("ctw", (2, 2), 1, 1, 2, None), ("dtw", (1, 1), 1, 1, 2, {"n_jobs": 2}), ("frechet", (1, 1), 1, 1, 2, {"n_jobs": 2, "_con": ("sc", 0)}),
    ("precomputed", (4,), 1, 1, 2, None), ("precomputed", (3,), 1, 1, 3, None))]


@cases(CASES, S, [dict(metric="euclidean", sizes=(1, 1, 1, 1), d=1, eps=1, mts=2, params=None), dict(metric="dtw", sizes=(2, 2, 2), d=1, eps=1, mts=2, params=None), dict(metric="euclidean", sizes=(1,) * 5, d=1, eps=1, mts=3, params=None), dict(metric="precomputed", sizes=(5,), d=1, eps=1, mts=3, params=None)], over_thorough=dict(budget=900))
def dbscan(W, metric, sizes, d, eps, mts, params):
    """labels, core series and components for arbitrary series"""
    if metric == "precomputed":
        n = sizes[0]
        D = [[W.c(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                D[i][j] = D[j][i] = W.real("d%d_%d" % (i, j), pos=True)
        X = W.arr(D)
        XX = X.reshape(n, n, 1)
    else:
        if metric == "ctw":
            cca_hook(W)
        n = len(sizes)
        XX = X = dataset(W, "x", sizes, d)
        D = fitted(W, lambda: W.lst(import_module("tslearn.metrics").cdist_ctw(X))) if metric == "ctw" else reference(W, metric, params, X, sizes, X, sizes)
    N = near(W, D, metric in SQUARED, eps)
    snap = snapshot(W, X)
    kw = metric_kw(metric, params)
    before = dict(kw or {})
    db = K().TimeSeriesDBSCAN(eps=eps, min_ts=mts, metric=metric, metric_params=kw)
    lab = judge(W, db.fit(X), N, mts, XX)
    W.check("fit_predict returns the labels", [int(v) for v in W.flat(db.fit_predict(X))] == lab)
    unchanged(W, "data unmodified", snap, X)
    W.check("parameters unmodified", db.eps == eps and db.min_ts == mts and db.metric == metric and db.metric_params is kw and (kw or {}) == before)


L = [dict(metric=m, sizes=s, d=d, eps=e, mts=k, params=p, seed=z, jobs=j) for z, (m, s, d, e, k, p, j) in enumerate((
    ("dtw", (4, 3, 4, 2, 4, 3), 1, 6, 3, None, None), ("dtw", (3,) * 7, 1, 4, 2, {"_con": ("sc", 1)}, 2), ("dtw", (4,) * 5, 2, 7, 2, None, 2), ("euclidean", (3,) * 8, 1, 6, 3, None, None), ("euclidean", (2,) * 9, 1, 3, 3, None, 2), ("frechet", (3, 4, 3, 4, 3, 2), 1, 4, 3, None, 2),
    ("frechet", (3,) * 6, 1, 3, 2, {"_con": ("sc", 0), "n_jobs": 2}, None), ("dtw", (2,) * 10, 1, 2.5, 3, None, None)))]


@cases(CASES, L, feas_exact=True)
def larger(W, metric, sizes, d, eps, mts, params, seed, jobs):
    """more series, one free sample; jobs and a refit on the same object"""
    X = numbers(W, "u", len(sizes), max(sizes), d, [(1, 0, 0)], 120 + seed, sizes, 12)
    N = near(W, reference(W, metric, params, X, sizes, X, sizes), metric in SQUARED, eps)
    W.schedule(jobs is not None)
    db = K().TimeSeriesDBSCAN(eps=eps, min_ts=mts, metric=metric, metric_params=metric_kw(metric, params), n_jobs=jobs)
    if seed % 2:
        db.fit(numbers(W, "v", 3, 2, d, [], 150))
    judge(W, db.fit(X), N, mts, X)


@cases(CASES, [dict(metric=m, sizes=s, labels=l, kw=k, mp=p) for m, s, l, k, p in (
    (None, (2, 2, 2), (0, 1, 1), None, None), ("dtw", (2, 1, 2), (0, 1, 1), None, None), ("dtw", (3, 3, 3), (1, 0, 1), dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=0), None), ("dtw", (3, 3, 3), (1, 0, 1), None, dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=0)),
    ("dtw", (2, 2, 2), (0, 0, 1), None, dict(n_jobs=3)), ("euclidean", (2, 2, 2), (0, 1, 1), None, None), ("precomputed", (3,), (0, 1, 1), None, None), ("call", (2, 2, 2), (1, 0, 0), None, None), ("softdtw", (1, 1, 1), (0, 1, 1), None, None), ("softdtw", (2, 2, 2), (0, 1, 1), dict(gamma=2.0), None), ("softdtw", (2, 2, 2), (0, 1, 1), None, dict(gamma=0.5)),
    ("dtw", (2, 2, 2, 2), (0, 1, 1, 0), None, None), ("euclidean", (1, 1, 1, 1), (0, 1, 2, 0), None, None))])
def silhouette(W, metric, sizes, labels, kw, mp):
    """mean of (b - a) / max(a, b) for the distances of the stated metric"""
    M = W.mod()
    n = len(sizes)
    g = lambda a, b: W.abs(W.sum([(2 * i + 1) * p[0] for i, p in enumerate(pts(a))]) - W.sum([(2 * i + 1) * p[0] for i, p in enumerate(pts(b))]))
    fixed = len(sizes) > 3 or metric == "softdtw"
    if metric == "precomputed":
        n = sizes[0]
        D = [[W.c(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                D[i][j] = D[j][i] = W.real("d%d_%d" % (i, j), pos=True)
        X = W.arr(D)
    else:
        X = numbers(W, "u", n, max(sizes), 1, [(0, 0, 0)], 171, sizes, 5) if fixed else dataset(W, "x", sizes)
        con = dict(kw or {}, **(mp or {}))
        r = {"_con": ("sc", 0)} if "global_constraint" in con else None
        if metric == "softdtw":
            Z = M.cdist_soft_dtw_normalized(X, gamma=con.get("gamma", 1.0))
            D = [[Z[i, j] for j in range(n)] for i in range(n)]
        elif metric == "call":
            from .C01 import valid
            D = [[g(valid(W, X, i, sizes[i]), valid(W, X, j, sizes[j])) for j in range(n)] for i in range(n)]
            for i in range(n):
                D[i][i] = W.c(0)
        else:
            Q = reference(W, metric or "dtw", r, X, sizes, X, sizes)
            D = [[W.sqrt(Q[i][j]) if i != j else W.c(0) for j in range(n)] for i in range(n)]
    snap = snapshot(W, X)
    before = dict(mp or {})
    got = K().silhouette_score(X, labels, metric=(lambda a, b: g(a, b)) if metric == "call" else metric, metric_params=mp, **(kw or {}))
    tot = []
    for i in range(n):
        own = [D[i][j] for j in range(n) if labels[j] == labels[i] and j != i]
        if not own:
            continue
        a = W.div(W.sum(own), len(own))
        b = W.min([W.div(W.sum([D[i][j] for j in range(n) if labels[j] == c]), sum(1 for j in range(n) if labels[j] == c)) for c in sorted(set(labels) - {labels[i]})])
        m = W.max([a, b])
        W.assume(W.lt(Fraction(1, 1000), m))
        tot.append(W.div(b - a, m))
    W.check("silhouette of the stated distances", W.eq(got * n, W.sum(tot)))
    unchanged(W, "data unmodified", snap, X)
    W.check("parameters unmodified", (mp or {}) == before)
