"""X02: PAA and SAX distances lower-bound the Euclidean distance."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .X01 import quantiles, TOL, near

CASES = []
PRELOAD = ["tslearn.piecewise", "tslearn.metrics", "tslearn.metrics.sax"]
ASSUMPTIONS = ["Gaussian quantiles are computed by scipy itself (concrete alphabet sizes)"]


def P():
    return import_module("tslearn.piecewise")


def euclid2(W, x, y):
    return W.sum([W.sqdist(p, q) for p, q in zip(pts(x), pts(y))])


def le_sq(W, label, dist, bound2):
    """dist >= 0 and dist^2 <= bound2"""
    W.check(label + " (non-negative)", W.le(0, dist))
    W.check(label, W.le(dist * dist, bound2))


@cases(CASES, [dict(n=n, d=d, segs=g) for n, d, g in ((1, 1, 1), (2, 1, 1), (4, 1, 2), (4, 2, 2), (6, 1, 3), (6, 1, 2), (3, 3, 3), (9, 1, 3), (8, 2, 2))], [dict(n=16, d=1, segs=4), dict(n=12, d=3, segs=2)])
def paa(W, n, d, segs):
    X = dataset(W, "x", (n, n), d)
    est = P().PiecewiseAggregateApproximation(n_segments=segs)
    E = est.fit_transform(X)
    D = est.distance_paa(E[0], E[1])
    W.check("definition", W.and_(W.le(0, D), W.eq(D * D * segs, W.sum([W.sqdist(p, q) for p, q in zip(pts(E[0]), pts(E[1]))]) * n)))
    W.check("distance() is the distance of the encodings", W.eq(est.distance(X[0], X[1]), D))
    W.check("symmetric", W.eq(est.distance_paa(E[1], E[0]), D))
    W.check("zero on itself", W.eq(est.distance_paa(E[0], E[0]), 0))
    le_sq(W, "lower bound", D, euclid2(W, X[0], X[1]))
    R = est.inverse_transform(E)
    W.check("Euclidean distance of the reconstructions", W.eq(D * D, euclid2(W, R[0], R[1])))
    # the documented scaling uses the fitted length, whatever data came since
    est.transform(X[:, :segs])
    W.check("unchanged by transforms", W.eq(est.distance_paa(E[0], E[1]), D))


def mindist2(W, s, t, n, bps):
    """squared MINDIST: gap between the intervals of two symbols, per segment and feature"""
    tot = W.c(0)
    for a, b in zip(s, t):
        for p, q in zip(a, b):
            p, q = int(p), int(q)
            if abs(p - q) > 1:
                g = bps[max(p, q) - 1] - bps[min(p, q)]
                tot = tot + g * g
    return W.div(tot * n, W.c(len(s)))


def sax_check(W, est, S, D, n, a, label):
    bps = quantiles(W, a)[0]
    W.check(label, W.and_(W.le(0, D), W.le(W.abs(D * D - mindist2(W, S[0], S[1], n, bps)), W.c(Fraction(1, 10 ** 4)))))


@cases(CASES, [dict(n=n, d=d, segs=g, a=a, reverse=r) for n, d, g, a, r in ((1, 1, 1, 3, 0), (1, 1, 1, 5, 0), (2, 1, 1, 4, 0), (4, 1, 2, 3, 1), (2, 1, 2, 3, 0), (2, 2, 1, 3, 0), (1, 1, 1, 9, 0), (2, 1, 1, 2, 1))], [dict(n=2, d=1, segs=2, a=5, reverse=0), dict(n=3, d=1, segs=3, a=3, reverse=0)])
def sax(W, n, d, segs, a, reverse):
    W.schedule(bool(reverse))
    X = dataset(W, "x", (n, n), d)
    est = P().SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a)
    E = est.fit_transform(X)
    D = est.distance_sax(E[0], E[1])
    sax_check(W, est, E, D, n, a, "definition")
    W.check("distance() is the distance of the encodings", W.eq(est.distance(X[0], X[1]), D))
    W.check("symmetric", W.eq(est.distance_sax(E[1], E[0]), D))
    W.check("zero on itself", W.eq(est.distance_sax(E[0], E[0]), 0))
    pe = P().PiecewiseAggregateApproximation(n_segments=segs)
    A = pe.fit_transform(X)
    p2 = W.div(W.sum([W.sqdist(p, q) for p, q in zip(pts(A[0]), pts(A[1]))]) * n, W.c(segs))
    W.check("never exceeds the PAA distance", W.le(D * D, p2 + W.c(TOL)))
    W.check("nor the Euclidean distance", W.le(D * D, euclid2(W, X[0], X[1]) + W.c(TOL)))


@cases(CASES, [dict(segs=g, d=d, a=a, n=n) for g, d, a, n in ((1, 1, 4, 1), (2, 1, 4, 6), (3, 1, 3, 3), (2, 2, 3, 4), (1, 1, 10, 5), (5, 1, 6, 10), (4, 3, 5, 8))])
def symbols(W, segs, d, a, n):
    """distance_sax and cdist_sax on arbitrary encodings"""
    cells = segs * d
    free = 2 if cells > 2 else cells
    S = []
    for w in range(3):
        v = [(7 * w + 3 * i + w * i * i) % a for i in range(cells)]
        if w < 2:
            for i in range(free):
                v[(i * 5 + w) % cells if cells > 2 else i] = W.int("s%d_%d" % (w, i), 0, a - 1)
        S.append(v)
    E = W.arr(S, int).reshape(3, segs, d)
    est = P().SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a).fit(W.arr([[[0.0] * d] * n]))
    D = {}
    for i in range(3):
        for j in range(3):
            D[i, j] = est.distance_sax(E[i], E[j])
    for i in range(3):
        for j in range(i):
            sax_check(W, est, (E[i], E[j]), D[i, j], n, a, "definition")
            W.check("symmetric", W.eq(D[i, j], D[j, i]))
        W.check("zero on itself", W.eq(D[i, i], 0))
    cd = import_module("tslearn.metrics.sax").cdist_sax
    C = cd(E, est.breakpoints_avg_, n)
    C2 = cd(E, est.breakpoints_avg_, n, E[:2], n_jobs=2)
    W.check("cdist shapes", W.shape(C) == (3, 3) and W.shape(C2) == (3, 2))
    for i in range(3):
        for j in range(3):
            W.check("cdist_sax entry", W.eq(C[i, j], D[i, j]))
            if j < 2:
                W.check("cdist_sax entry, two sets", W.eq(C2[i, j], D[i, j]))


@cases(CASES, [dict(n=n, a=a, segs=g) for n, a, g in ((2, 3, 1), (2, 4, 2))])
def scaled(W, n, a, segs):
    """with scale=True the bound holds for the standardised series"""
    X = dataset(W, "x", (n, n), 1)
    # fit on data of mean 1 and deviation 2, so that standardisation is (x - 1) / 2
    F = W.arr([[[-1.0], [3.0]] * (n // 2) if n % 2 == 0 else None])
    est = P().SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a, scale=True).fit(F)
    E = est.transform(X)
    D = est.distance_sax(E[0], E[1])
    W.check("lower bound", W.le(D * D, W.div(euclid2(W, X[0], X[1]), W.c(4)) + W.c(TOL)))
    W.check("distance() scales too", W.eq(est.distance(X[0], X[1]), D))
