"""X01: PAA and SAX encode segment means and breakpoint bins."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.piecewise"]
ASSUMPTIONS = ["Gaussian quantiles are computed by scipy itself (concrete alphabet sizes); n_segments does not exceed the series length", "with scale=True a feature is constant or has variance at least 1e-4 (smaller variances meet the scaler's floating-point floor)"]


def P():
    return import_module("tslearn.piecewise")


def quantiles(W, a):
    """breakpoints splitting the standard normal law into a equiprobable intervals, and the interval medians"""
    from statistics import NormalDist
    g = NormalDist()
    return [W.c(Fraction(g.inv_cdf(i / a))) for i in range(1, a)], [W.c(Fraction(g.inv_cdf((2 * i + 1) / (2 * a)))) for i in range(a)]


TOL = Fraction(1, 10 ** 7)


def near(W, a, b):
    return W.le(W.abs(a - b), W.c(TOL))


def seg_means(W, X, q, n, d, segs):
    L = n // segs
    return [[W.div(W.sum([X[q, s * L + i, k] for i in range(L)]), W.c(L)) for k in range(d)] for s in range(segs)]


def in_bin(W, m, s, bps):
    """m lies in the s-th interval (up to the tolerance on the quantiles)"""
    c = []
    if s > 0:
        c.append(W.le(bps[s - 1] - W.c(TOL), m))
    if s < len(bps):
        c.append(W.le(m, bps[s] + W.c(TOL)))
    return W.and_(*c) if c else True


PA = [(s, d, g) for s, d in (((4,), 1), ((6, 6), 2), ((5, 3), 1), ((7, 4, 2), 2), ((12, 9), 1), ((3, 3), 3)) for g in (1, 2, 3, 4, 5, 7) if g <= min(s)]


@cases(CASES, [dict(sizes=s, d=d, segs=g) for s, d, g in PA])
def paa(W, sizes, d, segs):
    X = dataset(W, "x", sizes, d)
    T = max(sizes)
    snap = snapshot(W, X)
    est = P().PiecewiseAggregateApproximation(n_segments=segs)
    E = est.fit_transform(X)
    W.check("shape", W.shape(E) == (len(sizes), segs, d))
    for q, n in enumerate(sizes):
        m = seg_means(W, X, q, n, d, segs)
        for s in range(segs):
            for k in range(d):
                W.check("segment mean", W.eq(E[q, s, k], m[s][k]))
    es = snapshot(W, E)
    R = est.inverse_transform(E)
    W.check("inverse shape", W.shape(R) == (len(sizes), T, d))
    L = T // segs
    for q in range(len(sizes)):
        for i in range(L * segs):
            for k in range(d):
                W.check("inverse repeats the mean", W.eq(R[q, i, k], E[q, i // L, k]))
    if T % segs == 0 and len(set(sizes)) == 1:
        W.check("encoding the reconstruction gives the encoding back", W.all_eq(est.transform(R), E))
    unchanged(W, "input unmodified", snap, X)
    unchanged(W, "encoding unmodified", es, E)
    Y = dataset(W, "y", (4,) if min(sizes) >= 4 else (segs,), d)
    other = P().PiecewiseAggregateApproximation(n_segments=segs).fit(Y).transform(X)
    W.check("each series is encoded on its own, whatever the model was fitted on", W.all_eq(other, E))
    for q, n in enumerate(sizes):
        W.check("alone", W.all_eq(est.transform(X[q:q + 1, :n])[0], E[q]))


SX = [dict(sizes=s, d=d, segs=g, a=a, scale=sc) for s, d, g, a, sc in (
    ((2,), 1, 1, 2, False), ((3,), 1, 1, 3, False), ((4,), 1, 2, 4, False), ((3,), 1, 3, 3, False), ((4, 4), 1, 2, 3, False), ((2, 2), 2, 1, 3, False), ((5, 3), 1, 2, 3, False), ((2,), 1, 1, 7, False), ((3,), 1, 1, 12, False),
    ((2,), 2, 1, 4, False), ((2,), 1, 1, 3, True), ((2,), 1, 2, 3, True), ((2, 1), 1, 1, 3, True), ((2,), 2, 1, 3, True), ((1, 1), 1, 1, 4, True), ((3,), 1, 1, 1, False), ((2, 2), 1, 1, 3, True))]


@cases(CASES, SX, [dict(sizes=(6, 6), d=1, segs=3, a=3, scale=False), dict(sizes=(4,), d=2, segs=2, a=4, scale=False), dict(sizes=(3, 2), d=1, segs=1, a=4, scale=True)])
def sax(W, sizes, d, segs, a, scale):
    X = dataset(W, "x", sizes, d)
    T = max(sizes)
    n = len(sizes)
    snap = snapshot(W, X)
    est = P().SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a, scale=scale)
    E = est.fit_transform(X)
    bps, med = quantiles(W, a)
    W.check("breakpoints", len(est.breakpoints_avg_) == a - 1 and W.truth(W.and_(*([near(W, x, y) for x, y in zip(list(est.breakpoints_avg_), bps)] or [True]))))
    W.check("shape", W.shape(E) == (n, segs, d))
    norm = {}
    for k in range(d):
        v = [X[q, i, k] for q in range(n) for i in range(sizes[q])]
        mean = W.div(W.sum(v), W.c(len(v)))
        var = W.div(W.sum([(x - mean) * (x - mean) for x in v]), W.c(len(v)))
        if scale:
            W.assume(W.or_(W.and_(True, *[W.exactly(v[0], x) for x in v[1:]]), W.le(W.c(Fraction(1, 10 ** 4)), var)))
        sd = W.c(1) if W.truth(W.eq(var, 0)) else W.sqrt(var)
        norm[k] = (mean, sd) if scale else (W.c(0), W.c(1))
    for q in range(n):
        m = seg_means(W, X, q, sizes[q], d, segs)
        for s in range(segs):
            for k in range(d):
                y = int(E[q, s, k])
                W.check("symbol in range", 0 <= y < a)
                mu, sd = norm[k]
                W.check("symbol is the interval of the mean", in_bin(W, W.div(m[s][k] - mu, sd), y, bps))
    R = est.inverse_transform(E)
    W.check("inverse shape", W.shape(R) == (n, T, d))
    L = T // segs
    for q in range(n):
        for i in range(L * segs):
            for k in range(d):
                mu, sd = norm[k]
                W.check("inverse gives the interval's median", near(W, W.div(R[q, i, k] - mu, sd), med[int(E[q, i // L, k])]))
    if not scale and T % segs == 0 and len(set(sizes)) == 1:
        W.check("encoding the reconstruction gives the encoding back", W.flat(est.transform(R)) == W.flat(E))
    unchanged(W, "input unmodified", snap, X)
    if len(sizes) > 1:
        for q, t in enumerate(sizes):
            W.check("alone", W.flat(est.transform(X[q:q + 1, :t])) == W.flat(E[q]))


@cases(CASES, [dict(a=a, d=d) for a in (2, 3, 5, 10) for d in (1,)])
def monotone(W, a, d):
    """a larger mean never gets a smaller symbol; the value on a breakpoint belongs to one of the two neighbours"""
    X = dataset(W, "x", (2, 2), d)
    E = P().SymbolicAggregateApproximation(n_segments=1, alphabet_size_avg=a).fit_transform(X)
    x, y = X[0, 0, 0] + X[0, 1, 0], X[1, 0, 0] + X[1, 1, 0]
    s, t = int(E[0, 0, 0]), int(E[1, 0, 0])
    if s > t:
        W.check("monotone", W.le(y, x))
    elif s < t:
        W.check("monotone", W.le(x, y))
    else:
        W.check("same symbol: both means in one interval", W.and_(in_bin(W, W.div(x, W.c(2)), s, quantiles(W, a)[0]), in_bin(W, W.div(y, W.c(2)), s, quantiles(W, a)[0])))


@cases(CASES, [dict(scale=s) for s in (False, True)])
def refit(W, scale):
    """refitting forgets the earlier data; transforming new data uses the fitted statistics"""
    A, B = dataset(W, "a", (2,), 1), dataset(W, "b", (2,), 1)
    Z = W.arr([[[3.0], [1.0]], [[2.0], [0.5]]])
    mk = lambda: P().SymbolicAggregateApproximation(n_segments=1, alphabet_size_avg=3, scale=scale)
    est = mk().fit(Z)
    est.transform(Z)
    est.fit(A)
    E = est.transform(B)
    W.check("same as a fresh model", W.flat(E) == W.flat(mk().fit(A).transform(B)))
    W.check("inverse as a fresh model's", W.all_eq(est.inverse_transform(E), mk().fit(A).inverse_transform(E)))
    x = W.div(B[0, 0, 0] + B[0, 1, 0], W.c(2))
    if scale:
        m = W.div(A[0, 0, 0] + A[0, 1, 0], W.c(2))
        h = W.abs(A[0, 0, 0] - m)
        x = x - m if W.truth(W.eq(h, 0)) else W.div(x - m, h)
    W.check("fitted statistics", in_bin(W, x, int(E[0, 0, 0]), quantiles(W, 3)[0]))
