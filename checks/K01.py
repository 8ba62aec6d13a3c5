"""K01: k-nearest-neighbour queries return the nearest series."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .C01 import numbers, valid
from .M14 import cca_hook, fitted

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.neighbors", "tslearn.piecewise"]
ASSUMPTIONS = ["scikit-learn's brute-force k-NN vote (uniform, distance and callable weights) and the metric validation of its constructor are modelled by contract",
               "numpy.argpartition returns any partition its documentation allows (the reverse of the sorted order on both sides of the pivot, also in the replay)", "ties between distances are broken arbitrarily by the code and not judged",
               "CCA (metric ctw) is an arbitrary affine projection per pair of series"]
KINDS = ("KNeighborsTimeSeries", "KNeighborsTimeSeriesClassifier", "KNeighborsTimeSeriesRegressor")
SQUARED = ("dtw", "euclidean", "frechet")


def make(kind, **kw):
    return getattr(import_module("tslearn.neighbors"), KINDS[kind])(**kw)


def fit(m, X, y=None):
    return m.fit(X) if "Classifier" not in type(m).__name__ and "Regressor" not in type(m).__name__ else m.fit(X, y)


def reference(W, metric, params, A, sa, B, sb):
    """distances of every row of A to every row of B (squared for the metrics in SQUARED); sizes give the lengths"""
    M = W.mod()
    p = dict(params or {})
    if metric == "sax":
        s = import_module("tslearn.piecewise").SymbolicAggregateApproximation(n_segments=p.get("n_segments", 10), alphabet_size_avg=p.get("alphabet_size_avg", 4), scale=p.get("scale", False))
        s.fit(B)
        ta, tb = s.transform(A), s.transform(B)
        return [[s.distance_sax(ta[i], tb[j]) for j in range(len(sb))] for i in range(len(sa))]
    out = []
    for i in range(len(sa)):
        row = []
        for j in range(len(sb)):
            a, b = valid(W, A, i, sa[i]), valid(W, B, j, sb[j])
            if metric == "dtw":
                con = p.get("_con", ("none",))
                row.append(flat_dtw(W, cost_matrix(W, a, b), constraint(sa[i], sb[j], con)[1]))
            elif metric == "frechet":
                C = cost_matrix(W, a, b)
                row.append(W.min([W.max([C[u][v] for u, v in q]) for q in W.warping_paths(sa[i], sb[j], constraint(sa[i], sb[j], p.get("_con", ("none",)))[1])]))
            elif metric in ("euclidean", "sqeuclidean"):
                row.append(W.sum([W.sqdist(u, v) for u, v in zip(pts(a), pts(b))]))
            elif metric == "cityblock":
                row.append(W.sum([W.abs(x - y) for x, y in zip(W.flat(a), W.flat(b))]))
            elif metric == "softdtw":
                row.append(M.soft_dtw(a, b, gamma=p.get("gamma", p.get("gamma_sdtw", 1.0))))
            elif metric == "ctw":
                row.append(M.ctw(a, b))
        out.append(row)
    return out


def nearest(W, label, D, squared, dist, ind, k, self_=False):
    """(dist, ind) are the k nearest columns of D for every row"""
    nq, nf = len(D), len(D[0])
    k = min(k, nf - (1 if self_ else 0))
    W.check(label + ": k neighbours per query", W.shape(ind) == (nq, k) and (dist is None or W.shape(dist) == (nq, k)))
    for i in range(nq):
        I = [int(ind[i, j]) for j in range(k)]
        W.check(label + ": distinct training series", len(set(I)) == k and all(0 <= q < nf for q in I) and not (self_ and i in I))
        rest = [q for q in range(nf) if q not in I and not (self_ and q == i)]
        for j in range(k):
            if dist is not None:
                e = dist[i, j]
                W.check(label + ": exact distance", W.and_(W.le(0, e), W.eq(e * e, D[i][I[j]])) if squared else W.eq(e, D[i][I[j]]))
            if j:
                W.check(label + ": in order of distance", W.le(D[i][I[j - 1]], D[i][I[j]]))
        if k:
            for q in rest:
                W.check(label + ": no nearer series left out", W.le(D[i][I[-1]], D[i][q]))


def metric_kw(metric, params):
    p = dict(params or {})
    con = p.pop("_con", None)
    if con is not None:
        p.update(constraint(3, 3, con)[0])
    return p or None


Q = [dict(kind=z % 3, metric=m, sa=sa, sb=sb, d=d, k=k, params=p) for z, (m, sa, sb, d, k, p) in enumerate((
    ("dtw", (2,), (2, 2), 1, 1, None), ("dtw", (1, 2), (2, 1), 1, 2, None), ("dtw", (2,), (1, 2), 2, 1, None), ("dtw", (1,), (1, 1, 1), 1, 2, None), ("dtw", (3,), (3, 3), 1, 1, {"_con": ("sc", 0)}),
    ("dtw", (3,), (3, 2), 1, 1, {"_con": ("sc?", 1)}), ("dtw", (3,), (3, 3), 1, 2, {"_con": ("ita", 2)}), ("dtw", (2,), (2, 2), 1, 5, {"n_jobs": 3, "verbose": 0}),
    ("euclidean", (1,), (1, 1, 1), 1, 2, None), ("euclidean", (2, 2), (2, 2), 1, 1, None), ("euclidean", (1, 1), (1, 1), 2, 3, None), ("sqeuclidean", (2,), (2, 2), 1, 2, None), ("cityblock", (2,), (2, 2), 1, 1, None),
    ("cityblock", (1,), (1, 1, 1), 1, 2, None), ("frechet", (2,), (2, 2), 1, 1, None), ("frechet", (1, 2), (2, 1), 1, 2, None), ("frechet", (3,), (3, 3), 1, 1, {"_con": ("sc", 1)}), ("softdtw", (2,), (2, 1), 1, 2, None),
    ("softdtw", (2,), (2, 2), 1, 1, {"gamma": 2.0}), ("softdtw", (2,), (2, 2), 1, 1, {"gamma_sdtw": 0.5}), ("ctw", (2,), (2, 2), 1, 1, None)))]


@cases(CASES, Q, [dict(kind=0, metric=m, sa=(2, 1), sb=(2, 2, 1), d=1, k=2, params=None) for m in ("dtw", "frechet")] + [dict(kind=1, metric="euclidean", sa=(2,), sb=(2, 2, 2), d=2, k=2, params=None)], over_thorough=dict(budget=900))
def query(W, kind, metric, sa, sb, d, k, params):
    """nearest training series, their order and exact distances, for given queries"""
    W.hook("argpartition", True)
    if metric == "ctw":
        cca_hook(W)
    A, B = dataset(W, "q", sa, d), dataset(W, "x", sb, d)
    kw = metric_kw(metric, params)
    before = dict(kw or {})
    snap = snapshot(W, A, B)
    m = fit(make(kind, n_neighbors=k, metric=metric, metric_params=kw), B, list(range(len(sb))))
    dist, ind = fitted(W, lambda: m.kneighbors(A)) if metric == "ctw" else m.kneighbors(A)
    D = reference(W, metric, params, A, sa, B, sb)
    nearest(W, "query", D, metric in SQUARED, dist, ind, k)
    W.check("indices only", W.all_eq(m.kneighbors(A, return_distance=False), ind))
    unchanged(W, "data unmodified", snap, A, B)
    W.check("parameters unmodified", m.metric == metric and m.metric_params is kw and (kw or {}) == before and m.n_neighbors == k)


@cases(CASES, [dict(kind=z % 3, metric=m, sb=sb, d=d, k=k, params=p) for z, (m, sb, d, k, p) in enumerate((
    ("dtw", (2, 2), 1, 1, None), ("dtw", (1, 1, 1), 1, 1, None), ("dtw", (1, 2), 1, 2, None), ("euclidean", (1, 1, 1), 1, 1, None), ("euclidean", (1, 1, 1), 1, 2, None), ("euclidean", (2, 2), 2, 5, None),
    ("cityblock", (1, 1, 1), 1, 1, None), ("frechet", (2, 1), 1, 1, None), ("frechet", (1, 1, 1), 1, 2, None), ("softdtw", (2, 2), 1, 1, None), ("softdtw", (1, 1, 1), 1, 1, {"gamma": 3.0}), ("sqeuclidean", (1, 1, 1), 1, 1, None)))])
def itself(W, kind, metric, sb, d, k, params):
    """without a query, the neighbours of every training series among the others (equal series included)"""
    W.hook("argpartition", True)
    B = dataset(W, "x", sb, d)
    m = fit(make(kind, n_neighbors=k, metric=metric, metric_params=metric_kw(metric, params)), B, list(range(len(sb))))
    dist, ind = m.kneighbors()
    nearest(W, "training set", reference(W, metric, params, B, sb, B, sb), metric in SQUARED, dist, ind, k, True)


def fixed(W, name, sizes, d, free, seed, spread=10):
    return numbers(W, name, len(sizes), max(sizes), d, free, seed, sizes, spread)


LONG = [dict(kind=z % 3, metric=m, sa=sa, sb=sb, d=d, k=k, params=p, seed=z) for z, (m, sa, sb, d, k, p) in enumerate((
    ("dtw", (3, 2), (3, 4, 2, 3, 4), 1, 3, None), ("dtw", (4,), (4, 4, 4, 3), 2, 2, {"_con": ("sc", 1)}), ("euclidean", (4, 4), (4,) * 6, 1, 4, None), ("euclidean", (3,), (3,) * 7, 2, 3, None), ("cityblock", (4,), (4,) * 5, 1, 2, None),
    ("frechet", (3,), (3, 4, 2, 3), 1, 2, None), ("sax", (6,), (6, 6, 6), 1, 2, {"n_segments": 3}), ("sax", (6, 6), (6, 6, 6, 6), 1, 2, {"n_segments": 2, "alphabet_size_avg": 6, "scale": True}),
    ("sax", (8,), (8, 8, 8), 1, 1, {"n_segments": 4, "alphabet_size_avg": 3, "n_jobs": 2}), ("sax", (10,), (10, 10), 1, 2, None)))]


@cases(CASES, LONG, feas_exact=True)
def longer(W, kind, metric, sa, sb, d, k, params, seed):
    """more and longer series, one free sample; single queries, jobs and repeated queries agree with the batch"""
    W.hook("argpartition", True)
    A, B = fixed(W, "u", sa, d, [(0, 1, 0)], 10 + seed), fixed(W, "v", sb, d, [], 40 + seed)
    kw = metric_kw(metric, params)
    m = fit(make(kind, n_neighbors=k, metric=metric, metric_params=kw), B, list(range(len(sb))))
    dist, ind = m.kneighbors(A)
    nearest(W, "query", reference(W, metric, params, A, sa, B, sb), metric in SQUARED, dist, ind, k)
    for i in range(len(sa)):
        d1, i1 = m.kneighbors(A[i:i + 1, :sa[i]])
        W.check("a single query gives the row of the batch", W.all_eq(d1, dist[i:i + 1]))
    d2, i2 = m.kneighbors(B, n_neighbors=1)
    W.check("a training series is nearest to itself", W.all_eq(d2, W.arr([[0]] * len(sb))))
    W.schedule(True)
    j = fit(make(kind, n_neighbors=k, metric=metric, metric_params=kw, n_jobs=2), B, list(range(len(sb))))
    d3, i3 = j.kneighbors(A)
    W.check("the same with two jobs", W.all_eq(d3, dist))


VOTE = [dict(kind=kd, metric=m, weights=w, k=k) for kd in (1, 2) for m, w, k in (("dtw", "uniform", 1), ("dtw", "uniform", 2), ("dtw", "distance", 2), ("euclidean", "uniform", 3), ("cityblock", "uniform", 2), ("euclidean", "distance", 2), ("frechet", "uniform", 1), ("dtw", "call", 2), ("sax", "uniform", 2), ("sax", "distance", 2))]


@cases(CASES, VOTE, feas_exact=True)
def vote(W, kind, metric, weights, k):
    """predictions are the vote (mean) of the k nearest training series; each query on its own"""
    W.hook("argpartition", True)
    n, t = (4, 4) if metric != "sax" else (4, 6)
    B = fixed(W, "v", (t,) * n, 1, [], 70)
    A = fixed(W, "u", (t,) * 2, 1, [(0, 0, 0)], 80, 15 if weights == "uniform" else 2)
    y = ["b", "a", "b", "a"] if kind == 1 else [W.c(Fraction(v)) for v in (2, 7, -1, 4)]
    wf = {"uniform": "uniform", "distance": "distance", "call": lambda d: 1 / (1 + d)}[weights]
    p = {"n_segments": 2} if metric == "sax" else None
    m = make(kind, n_neighbors=k, metric=metric, weights=wf, metric_params=p).fit(B, y if kind == 1 else W.arr(y))
    got = m.predict(A)
    D = reference(W, metric, p, A, (t, t), B, (t,) * n)
    for i in range(2):
        # clear-cut neighbourhoods only
        o = list(range(n))
        for a in range(1, n):
            b = a
            while b and W.truth(W.lt(D[i][o[b]], D[i][o[b - 1]])):
                o[b], o[b - 1] = o[b - 1], o[b]
                b -= 1
        if k < n and not W.truth(W.lt(D[i][o[k - 1]] + Fraction(1, 1000), D[i][o[k]])):
            continue
        ds = [W.sqrt(D[i][q]) if metric in SQUARED else D[i][q] for q in o[:k]]
        if weights == "uniform":
            w = [W.c(1)] * k
        elif weights == "distance":
            if W.truth(W.lt(D[i][o[0]], Fraction(1, 1000))):
                continue
            w = [W.div(1, v) for v in ds]
        else:
            w = [W.div(1, 1 + v) for v in ds]
        if kind == 2:
            W.check("weighted mean of the targets", W.eq(got[i] * W.sum(w), W.sum([a * y[q] for a, q in zip(w, o)])))
        else:
            s = {c: W.sum([a for a, q in zip(w, o) if y[q] == c] + [W.c(0)]) for c in ("a", "b")}
            P = m.predict_proba(A)
            W.check("vote shares", W.and_(W.eq(P[i, 0] * W.sum(w), s["a"]), W.eq(P[i, 1] * W.sum(w), s["b"])))
            g = str(got[i])
            W.check("one of the classes", g in ("a", "b"))
            W.check("class with the largest share", W.and_(W.implies(W.lt(P[i, 0] + Fraction(1, 1000), P[i, 1]), g == "b"), W.implies(W.lt(P[i, 1] + Fraction(1, 1000), P[i, 0]), g == "a")))
    one = m.predict(A[:1])
    W.check("predictions do not depend on the batch", W.all_eq(one, got[:1]) if kind == 2 else str(one[0]) == str(got[0]))
    W.check("metric kept", m.metric == metric)


HIST = [dict(kind=z % 3, a=a, b=b) for z, (a, b) in enumerate(((("dtw", None), ("euclidean", None)), (("euclidean", None), ("dtw", None)), (("dtw", None), ("frechet", None)), (("softdtw", {"gamma": 1.0}), ("softdtw", {"gamma": 4.0})),
    (("sax", {"n_segments": 2}), ("sax", {"n_segments": 3, "alphabet_size_avg": 5})), (("dtw", {"_con": ("sc", 0)}), ("dtw", None)), (("sax", {"n_segments": 2, "scale": True}), ("sax", {"n_segments": 2, "scale": True})),
    (("frechet", None), ("cityblock", None)), (("sax", {"n_segments": 3}), ("euclidean", None))))] + [dict(kind=k, a=("dtw", None), b=("euclidean", None)) for k in (1, 2)]


@cases(CASES, HIST, feas_exact=True)
def history(W, kind, a, b):
    """a refitted model, also after a failed call, answers as a fresh one"""
    W.hook("argpartition", True)
    n, t = 3, 6 if "sax" in (a[0], b[0]) else 2 if a[0] == "softdtw" else 4
    A, B = fixed(W, "u", (t,) * 2, 1, [(0, 1, 0)] if a[0] != "softdtw" else [], 91), fixed(W, "v", (t,) * n, 1, [], 93)
    old = fixed(W, "w", (t - 1 if a[0] not in ("euclidean", "sax", "cityblock") else t,) * 4, 1, [], 97)
    m = fit(make(kind, n_neighbors=2, metric=a[0], metric_params=metric_kw(*a)), old, [2, 0, 1, 1])
    m.kneighbors(old[:1])
    if kind:
        m.predict(old[:2])
    m.set_params(metric=b[0], metric_params=metric_kw(*b), n_neighbors=1)
    fit(m, B, [1, 0, 2])
    fresh = fit(make(kind, n_neighbors=1, metric=b[0], metric_params=metric_kw(*b)), B, [1, 0, 2])
    bad = W.arr([[[0.0, 1.0]] * t])
    try:
        m.kneighbors(bad)
    except Exception as e:
        if type(e).__name__ == "Unsupported":
            raise
    if kind:
        try:
            m.predict(bad)
        except Exception as e:
            if type(e).__name__ == "Unsupported":
                raise
    W.check("metric and parameters as set", m.metric == b[0] and m.metric_params == metric_kw(*b) and m.n_neighbors == 1)
    d1, i1 = m.kneighbors(A)
    d2, i2 = fresh.kneighbors(A)
    W.check("same distances", W.all_eq(d1, d2))
    nearest(W, "after refit", reference(W, b[0], b[1], A, (t, t), B, (t,) * n), b[0] in SQUARED, d1, i1, 1)
    d1, i1 = m.kneighbors(n_neighbors=2)
    nearest(W, "after refit, training set", reference(W, b[0], b[1], B, (t,) * n, B, (t,) * n), b[0] in SQUARED, d1, i1, 2, True)
    if kind:
        p, q = m.predict(A), fresh.predict(A)
        W.check("same predictions", W.all_eq(p, q))
