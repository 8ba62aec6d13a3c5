"""X03: 1d-SAX encodes each segment's least-squares line."""
from importlib import import_module
from statistics import NormalDist
from symts.harness import cases
from .common import *
from .X01 import quantiles, TOL, near, in_bin, seg_means
from .X02 import euclid2

CASES = []
PRELOAD = ["tslearn.piecewise", "tslearn.metrics", "tslearn.metrics.cysax"]
ASSUMPTIONS = ["Gaussian quantiles are computed by scipy itself (concrete alphabet sizes)", "the ordinary least squares of scikit-learn's LinearRegression is modelled by its closed form for one regressor", "with scale=True a feature is constant or has variance at least 1e-4 (smaller variances meet the scaler's floating-point floor)"]


def P():
    return import_module("tslearn.piecewise")


def seg_slopes(W, X, q, n, d, segs):
    """least-squares slope of each segment: cov(t, x) / var(t)"""
    L = n // segs
    out = []
    for s in range(segs):
        row = []
        for k in range(d):
            num, den = W.c(0), Fraction(0)
            for i in range(L):
                t = Fraction(2 * i - (L - 1), 2)
                num = num + W.c(t) * X[q, s * L + i, k]
                den += t * t
            row.append(W.div(num, W.c(den)) if den else W.c(0))
        out.append(row)
    return out


def scaled(W, bps, sig):
    return [b * sig for b in bps]


def statistics(W, X, sizes, d, scale):
    norm = []
    for k in range(d):
        v = [X[q, i, k] for q in range(len(sizes)) for i in range(sizes[q])]
        mean = W.div(W.sum(v), W.c(len(v)))
        var = W.div(W.sum([(x - mean) * (x - mean) for x in v]), W.c(len(v)))
        if scale:
            W.assume(W.or_(W.and_(True, *[W.exactly(v[0], x) for x in v[1:]]), W.le(W.c(Fraction(1, 10 ** 4)), var)))
        sd = W.c(1) if W.truth(W.eq(var, 0)) else W.sqrt(var)
        norm.append((mean, sd) if scale else (W.c(0), W.c(1)))
    return norm


def default_sigma(W, L):
    return W.c(Fraction((0.03 / L) ** 0.5))


EN = [dict(n=n, T=T, d=d, segs=g, a=a, b=b, sig=s, scale=sc) for n, T, d, g, a, b, s, sc in (
    (1, 2, 1, 1, 2, 2, 1, False), (1, 2, 1, 1, 3, 3, None, False), (1, 3, 1, 1, 2, 4, None, False), (1, 4, 1, 2, 2, 2, None, False), (1, 5, 1, 2, 2, 2, 2, False),
    (1, 2, 2, 1, 2, 2, None, False), (2, 3, 1, 1, 2, 2, None, False), (1, 3, 1, 3, 2, 2, None, False), (1, 4, 1, 1, 5, 5, None, False), (1, 2, 1, 1, 2, 2, "sym", False),
    (1, 2, 1, 1, 2, 2, 1, True), (1, 3, 1, 1, 2, 3, None, True), (1, 3, 1, 1, 2, 3, 1, True), (1, 4, 1, 2, 2, 2, None, True), (2, 2, 1, 1, 2, 3, 1, True))]


@cases(CASES, EN, [dict(n=1, T=6, d=1, segs=3, a=2, b=2, sig=None, scale=False), dict(n=1, T=3, d=2, segs=1, a=2, b=3, sig=None, scale=False), dict(n=1, T=2, d=2, segs=1, a=2, b=2, sig=1, scale=True)])
def encode(W, n, T, d, segs, a, b, sig, scale):
    X = dataset(W, "x", (T,) * n, d)
    snap = snapshot(W, X)
    sg = W.real("sigma") if sig == "sym" else sig
    if sig == "sym":
        W.assume(W.lt(0, sg))
    est = P().OneD_SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a, alphabet_size_slope=b, sigma_l=sg, scale=scale)
    E = est.fit_transform(X)
    L = T // segs
    sl = default_sigma(W, L) if sig is None else (sg if sig == "sym" else W.c(sig))
    bps, med = quantiles(W, a)
    sb, sm = quantiles(W, b)
    sb, sm = scaled(W, sb, sl), scaled(W, sm, sl)
    W.check("shape", W.shape(E) == (n, segs, 2 * d))
    norm = statistics(W, X, (T,) * n, d, scale)
    for q in range(n):
        m, v = seg_means(W, X, q, T, d, segs), seg_slopes(W, X, q, T, d, segs)
        for s in range(segs):
            for k in range(d):
                mu, sd = norm[k]
                y, z = int(E[q, s, k]), int(E[q, s, d + k])
                W.check("level symbol in range", 0 <= y < a)
                W.check("slope symbol in range", 0 <= z < b)
                W.check("level symbol is the interval of the line's mean value", in_bin(W, W.div(m[s][k] - mu, sd), y, bps))
                c = []
                sv = W.div(v[s][k], sd)
                tol = W.c(TOL) if sig != "sym" else W.c(TOL) * sl
                if z > 0:
                    c.append(W.le(sb[z - 1] - tol, sv))
                if z < b - 1:
                    c.append(W.le(sv, sb[z] + tol))
                if c:
                    W.check("slope symbol is the interval of the least-squares slope", W.and_(*c))
    es = snapshot(W, E)
    R = est.inverse_transform(E)
    W.check("inverse shape", W.shape(R) == (n, T, d))
    for q in range(n):
        for i in range(L * segs):
            s, t = i // L, Fraction(2 * (i % L) - (L - 1), 2)
            for k in range(d):
                mu, sd = norm[k]
                want = med[int(E[q, s, k])] + sm[int(E[q, s, d + k])] * W.c(t)
                if sig == "sym":
                    W.check("inverse is the line of representative level and slope", W.le(W.abs(R[q, i, k] - want), W.c(TOL) * (W.c(1) + sl)))
                else:
                    W.check("inverse is the line of representative level and slope", near(W, W.div(R[q, i, k] - mu, sd), want))
    unchanged(W, "input unmodified", snap, X)
    unchanged(W, "encoding unmodified", es, E)
    if n > 1:
        for q in range(n):
            W.check("alone", W.flat(est.transform(X[q:q + 1])) == W.flat(E[q]))


@cases(CASES, [dict(T=T, d=d, segs=g, what=w) for T, d, g, w in ((2, 1, 1, "slope"), (3, 1, 1, "slope"), (5, 1, 1, "slope"), (8, 1, 2, "slope"), (7, 1, 2, "slope"), (12, 1, 3, "slope"), (6, 1, 2, "level"), (5, 1, 2, "level"), (4, 2, 1, "slope"), (4, 2, 1, "level"), (9, 2, 2, "slope"))])
def longer(W, T, d, segs, what):
    """longer series: one free sample (and its feature), the rest fixed"""
    X = [[W.c(mixed(k, i)) if False else W.c(Fraction(((3 * i + 5 * k) % 7) - 3, 4)) for k in range(d)] for i in range(T)]
    j = T - 1 if T % segs == 0 else (T // segs) * segs - 1
    X[j][d - 1] = W.real("u")
    X[0][0] = W.real("v") if j else X[0][0]
    X = W.arr([X])
    a, b = (2, 3) if what == "slope" else (4, 2)
    est = P().OneD_SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a, alphabet_size_slope=b)
    E = est.fit_transform(X)
    L = T // segs
    m, v = seg_means(W, X, 0, T, d, segs), seg_slopes(W, X, 0, T, d, segs)
    sl = default_sigma(W, L)
    for s in range(segs):
        for k in range(d):
            W.check("level symbol is the interval of the line's mean value", in_bin(W, m[s][k], int(E[0, s, k]), quantiles(W, a)[0]))
            W.check("slope symbol is the interval of the least-squares slope", in_bin(W, v[s][k], int(E[0, s, d + k]), scaled(W, quantiles(W, b)[0], sl)))


def symbols(W, name, segs, d, a, b):
    return W.arr([[W.int("%s%d_%d" % (name, s, k), 0, (a if k < d else b) - 1) for k in range(2 * d)] for s in range(segs)], dtype=int)


def fitted(W, T, d, segs, a, b, sig=None, scale=False, X=None):
    est = P().OneD_SymbolicAggregateApproximation(n_segments=segs, alphabet_size_avg=a, alphabet_size_slope=b, sigma_l=sig, scale=scale)
    return est.fit(W.arr([[[Fraction(i % 3) - k for k in range(d)] for i in range(T)]]) if X is None else X)


DI = [dict(T=T, d=d, segs=g, a=a, b=b, sig=s) for T, d, g, a, b, s in ((1, 1, 1, 3, 3, None), (2, 1, 1, 3, 3, None), (3, 1, 1, 4, 4, 1), (5, 1, 1, 3, 2, 2), (2, 2, 1, 2, 2, None), (4, 1, 2, 2, 2, None), (5, 1, 2, 2, 2, None), (7, 1, 3, 2, 1, 1))]


@cases(CASES, DI, [dict(T=11, d=1, segs=2, a=3, b=2, sig=None)])
def distance(W, T, d, segs, a, b, sig):
    est = fitted(W, T, d, segs, a, b, sig)
    S = [symbols(W, nm, segs, d, a, b) for nm in "st"]
    S = [W.arr([[int(v) for v in row] for row in s], dtype=int) for s in S]
    D = est.distance_1d_sax(S[0], S[1])
    R = est.inverse_transform(W.arr([[[int(v) for v in row] for row in s] for s in S], dtype=int))
    L = T // segs
    for q in range(2):
        for i in range(L * segs, T):
            for k in range(d):
                W.check("samples after the last whole segment are zero in the reconstruction", W.eq(R[q, i, k], 0))
    E2 = euclid2(W, R[0], R[1])
    W.check("Euclidean distance of the encoded piecewise-linear series", W.and_(W.le(0, D), W.le(W.abs(D * D - E2), W.c(TOL))))
    W.check("symmetric", W.le(W.abs(est.distance_1d_sax(S[1], S[0]) - D), W.c(TOL)))
    W.check("zero on itself", W.eq(est.distance_1d_sax(S[0], S[0]), 0))


@cases(CASES, [dict(scale=s, T=t, segs=g) for s, t, g in ((False, 2, 1), (False, 3, 1), (True, 2, 1), (False, 4, 2))])
def on_series(W, scale, T, segs):
    """distance() encodes both series with the fitted model"""
    X = dataset(W, "x", (T, T), 1)
    est = fitted(W, T, 1, segs, 2, 2, 1, scale)
    S = est.transform(X)
    W.check("distance() is the distance of the encodings", W.eq(est.distance(X[0], X[1]), est.distance_1d_sax(S[0], S[1])))
    for q in range(2):
        W.check("series encoded one at a time", W.flat(est.transform(X[q:q + 1])[0]) == W.flat(S[q]))


@cases(CASES, [dict(sig=s, T=t) for s, t in ((None, 2), (1, 2), (None, 3))])
def monotone(W, sig, T):
    X = dataset(W, "x", (T, T), 1)
    est = fitted(W, T, 1, 1, 3, 3, sig)
    E = est.transform(X)
    v = [seg_slopes(W, X, q, T, 1, 1)[0][0] for q in range(2)]
    m = [seg_means(W, X, q, T, 1, 1)[0][0] for q in range(2)]
    for lab, val, k in (("level", m, 0), ("slope", v, 1)):
        s, t = int(E[0, 0, k]), int(E[1, 0, k])
        if s < t:
            W.check(lab + " monotone", W.le(val[0], val[1]))
        elif s > t:
            W.check(lab + " monotone", W.le(val[1], val[0]))


@cases(CASES, [dict(sig=s, scale=c) for s in (None, 2) for c in (False, True)])
def refit(W, sig, scale):
    """a refitted model is the model fitted afresh, also for other lengths"""
    A, B = dataset(W, "a", (2,), 1), dataset(W, "b", (2,), 1)
    est = fitted(W, 4, 1, 1, 2, 2, sig, scale)
    est.fit(A)
    new = fitted(W, 2, 1, 1, 2, 2, sig, scale, A)
    E, F = est.transform(B), new.transform(B)
    W.check("same encoding", W.flat(E) == W.flat(F))
    W.check("same reconstruction", W.all_eq(est.inverse_transform(E), new.inverse_transform(F)))
    W.check("constructor parameters unchanged", est.sigma_l == sig and est.n_segments == 1 and est.scale == scale)


@cases(CASES, [dict(kind="encode"), dict(kind="distance")])
def order(W, kind):
    """the result does not depend on the order in which the parallel loops run"""
    if kind == "encode":
        X = dataset(W, "x", (2, 2), 1)
        est = fitted(W, 2, 1, 1, 2, 2, 1)
        E = est.transform(X)
        W.schedule(True)
        F = est.transform(X)
        W.check("encoding", W.flat(E) == W.flat(F))
        R = est.inverse_transform(F)
        W.schedule(False)
        W.check("reconstruction", W.all_eq(R, est.inverse_transform(E)))
    else:
        est = fitted(W, 4, 1, 2, 2, 2)
        S = [symbols(W, nm, 2, 1, 2, 2) for nm in "st"]
        S = [W.arr([[int(v) for v in row] for row in s], dtype=int) for s in S]
        D = est.distance_1d_sax(S[0], S[1])
        W.schedule(True)
        W.check("distance", W.le(W.abs(D - est.distance_1d_sax(S[0], S[1])), W.c(TOL)))
