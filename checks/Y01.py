"""Y01: the matrix profile holds each window's nearest-neighbour distance."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.matrix_profile"]
ASSUMPTIONS = ["windows that are z-normalised are constant or have a variance of at least 1/100", "stumpy.stump is modelled by its documentation"]


def MP(m, **k):
    return import_module("tslearn.matrix_profile").MatrixProfile(subsequence_length=m, **k)


def windows(x, m):
    return [x[i:i + m] for i in range(len(x) - m + 1)]


def squared(W, u, v, scale):
    """squared distance of two windows"""
    m = len(u)
    if not scale:
        return W.sum([(a - b) * (a - b) for a, b in zip(u, v)])
    mu, mv = W.div(W.sum(u), m), W.div(W.sum(v), m)
    cu, cv = [a - mu for a in u], [b - mv for b in v]
    su, sv = W.div(W.sum([a * a for a in cu]), m), W.div(W.sum([b * b for b in cv]), m)
    nu, nv = constant(W, su), constant(W, sv)
    if nu or nv:
        return W.c(0 if nu and nv else m)
    ru, rv = W.sqrt(su), W.sqrt(sv)
    return W.sum([(W.div(a, ru) - W.div(b, rv)) * (W.div(a, ru) - W.div(b, rv)) for a, b in zip(cu, cv)])


def constant(W, var):
    return not W.truth(W.lt(W.c(Fraction(1, 200)), var))


def varied(W, x, m):
    """assume that no window is (nearly) constant"""
    for u in windows(x, m):
        mu = W.div(W.sum(u), m)
        W.assume(W.le(W.c(Fraction(1, 100)), W.div(W.sum([(a - mu) * (a - mu) for a in u]), m)))


def judge(W, Y, x, m, scale):
    """Y: profile of the series x (list)"""
    ws = windows(x, m)
    zone = -(-m // 4)
    W.check("one value per window", W.shape(Y)[0] >= len(ws))
    for i, u in enumerate(ws):
        near = [squared(W, *((u, v) if i < j else (v, u)), scale) for j, v in enumerate(ws) if abs(i - j) > zone]
        y = Y[i, 0]
        if not near:
            W.check("no admissible window: infinite", W.eq(y, W.inf))
            continue
        W.check("distance", W.le(W.c(0), y))
        if len(near) == 1:
            W.check("distance to the only admissible window", W.eq(y * y, near[0]))
        else:
            W.check("nearest admissible window", W.eq(y, W.min([W.sqrt(v) for v in near])))


def build(W, sizes, m, free, seed=1):
    if free is None:
        return dataset(W, "x", sizes)
    T = max(sizes)
    rows = []
    for i, n in enumerate(sizes):
        a = mixed(W, "x%d" % i, n, 1, free if i == 0 else (), seed + i)
        rows.append([[a[t, 0]] for t in range(n)] + [[W.nan]] * (T - n))
    return W.arr(rows).reshape(len(sizes), T, 1)


def run(W, sizes, m, scale, free, impl):
    X = build(W, sizes, m, free, 3 + m)
    if scale and m > 1:
        for i, n in enumerate(sizes):
            varied(W, [X[i, t, 0] for t in range(n)], m)
    snap = snapshot(W, X)
    mp = MP(m, scale=scale, implementation=impl)
    Y = mp.fit_transform(X)
    unchanged(W, "input unmodified", snap, X)
    T = max(sizes)
    W.check("shape", W.shape(Y) == (len(sizes), T - m + 1, 1))
    for i, n in enumerate(sizes):
        judge(W, Y[i], [X[i, t, 0] for t in range(n)], m, scale)
        for t in range(max(n - m + 1, 0), T - m + 1):
            W.check("windows over the padding match nothing", W.eq(Y[i, t, 0], W.inf))
        if n >= m and len(sizes) > 1:
            W.check("same as the series alone", W.all_eq(MP(m, scale=scale, implementation=impl).fit_transform(X[i:i + 1, :n])[0], Y[i, :n - m + 1]))
    W.check("transform after fit", W.all_eq(mp.fit(X).transform(X), Y))


PL = [dict(sizes=s, m=m, scale=False, free=None, impl="numpy") for s, m in (((3,), 1), ((4,), 1), ((4, 3), 2), ((5,), 2), ((6,), 3), ((6, 6), 4), ((5, 4), 3), ((9,), 6), ((4, 1), 2), ((3,), 3), ((8,), 5), ((9,), 4))]
PL += [dict(sizes=s, m=m, scale=False, free=f, impl="numpy") for s, m, f in (((14,), 3, (6,)), ((16, 12), 8, (3,)), ((20,), 9, (0, 12)), ((12,), 1, (4,)))]
SC = [dict(sizes=s, m=m, scale=True, free=f, impl="numpy") for s, m, f in (((4,), 2, None), ((5,), 3, None), ((6,), 4, (0, 3, 5)), ((5,), 3, (0, 4)), ((6,), 3, (1,)), ((6, 5), 4, (2,)), ((8,), 4, (1,)), ((14, 9), 5, (6,)), ((15,), 9, (7,)), ((6,), 1, (1, 2)), ((6, 4), 3, (2,)))]
ST = [dict(sizes=s, m=m, scale=c, free=f, impl="stump") for s, m, c, f in (((9,), 3, False, (3,)), ((9, 7), 4, True, (3,)), ((10, 9), 5, False, (6,)))]


@cases(CASES, PL + SC + ST, [dict(sizes=(7,), m=3, scale=False, free=None, impl="numpy"), dict(sizes=(7,), m=5, scale=True, free=(0, 2, 5), impl="numpy"), dict(sizes=(30, 25), m=10, scale=True, free=(11,), impl="numpy")], budget=300)
def profile(W, sizes, m, scale, free, impl):
    run(W, sizes, m, scale, free, impl)


FLAT = [dict(vals=v, m=m, free=f) for v, m, f in (((1, 1, 1, 5, 2, 1, 4, 4), 2, 4), ((2, 2, 2, 2, 2, 7, 7, 7, 7), 3, 5), ((0, 0, 0, 1, 2, 4, 4, 4, 4, 4), 4, 3), ((3, 3, 3, 3, 3, 3), 2, None))]


@cases(CASES, FLAT, budget=300)
def flat_windows(W, vals, m, free):
    """z-normalised constant windows: equal to each other, at distance sqrt(m) from any other window"""
    x = [W.c(v) for v in vals]
    if free is not None:
        x[free] = W.real("x", 10, 20)
    X = W.arr(x).reshape(1, len(x), 1)
    judge(W, MP(m).fit_transform(X)[0], x, m, True)


REUSE = [dict(fit=f, new=n, m=m, scale=s) for f, n, m, s in (((4,), (6, 5), 3, False), ((7,), (5,), 2, True), ((4, 5), (4,), 1, False))]


@cases(CASES, REUSE)
def reuse(W, fit, new, m, scale):
    """a fitted transformer treats new data like a fresh one; invariances of the z-normalised profile"""
    A = build(W, fit, m, (0,), 4)
    B = build(W, new, m, (1,), 8)
    if scale:
        for i, n in enumerate(new):
            varied(W, [B[i, t, 0] for t in range(n)], m)
            varied(W, [B[i, t, 0] for t in range(n)], m + 1)
    mp = MP(m, scale=scale).fit(A)
    mp.transform(A)
    Y = mp.transform(B)
    W.check("same as a fresh one", W.all_eq(Y, MP(m, scale=scale).fit_transform(B)))
    for i, n in enumerate(new):
        judge(W, Y[i], [B[i, t, 0] for t in range(n)], m, scale)
    L = [[B[0, t, 0] for t in range(new[0])]]
    W.check("a list of numbers is a dataset of one series", W.all_eq(MP(m, scale=scale).fit_transform(L)[0], Y[0, :new[0] - m + 1]))
    mp.set_params(subsequence_length=m + 1)
    W.check("a changed window length is used", W.all_eq(mp.fit_transform(B), MP(m + 1, scale=scale).fit_transform(B)))
    C = W.arr([[[W.c(1), W.c(2)]] * (m + 2)]).reshape(1, m + 2, 2)
    W.check("multivariate series are rejected", W.raises(lambda: MP(m, scale=scale).fit_transform(C), NotImplementedError) is not None)
    W.check("unknown implementation rejected", W.raises(lambda: MP(m, implementation="fast").fit_transform(B), ValueError) is not None)
