"""M01: dtw is the cost of a cheapest warping path, dtw_path returns a path attaining it."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


@cases(CASES, [dict(n=n, m=m, d=1, pa=0, pb=0) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
       + [dict(n=n, m=m, d=2, pa=0, pb=0) for n, m in ((1, 2), (2, 2), (3, 2), (2, 3), (3, 3))]
       + [dict(n=2, m=3, d=1, pa=2, pb=0), dict(n=3, m=2, d=1, pa=0, pb=1), dict(n=2, m=2, d=2, pa=1, pb=1)],
       [dict(n=n, m=m, d=d, pa=0, pb=0) for n, m, d in ((5, 5, 1), (4, 6, 1), (6, 4, 1), (4, 4, 2), (2, 5, 3), (1, 7, 1))],
       over_thorough=dict(budget=900))
def value(W, n, m, d, pa, pb):
    M = W.mod()
    a, b = series(W, "a", n, d, pa), series(W, "b", m, d, pb)
    snap = snapshot(W, a, b)
    v = M.dtw(a, b)
    C = cost_matrix(W, a[:n], b[:m])
    best = flat_dtw(W, C) if n * m <= 12 else dp_dtw(W, C)
    W.check("dtw is the square root of the cheapest path sum", W.eq(v, W.sqrt(best)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, d=1) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4) if n * m <= 12]
       + [dict(n=2, m=2, d=2), dict(n=3, m=2, d=2)],
       [dict(n=n, m=m, d=d) for n, m, d in ((4, 4, 1), (3, 5, 1), (5, 3, 1), (3, 3, 2), (2, 6, 1), (6, 2, 1))],
       over_thorough=dict(budget=900))
def path(W, n, m, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    p, v = M.dtw_path(a, b)
    W.check("path is a warping path", W.is_warping_path(p, n, m))
    C = cost_matrix(W, a, b)
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("value is not negative", W.le(0, v))
    W.check("value is the minimum", W.eq(v * v, dp_dtw(W, C)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=3, m=3, pa=2, pb=1), dict(n=2, m=3, pa=0, pb=2), dict(n=3, m=2, pa=1, pb=0)])
def path_padding(W, n, m, pa, pb):
    M = W.mod()
    a, b = series(W, "a", n, 1), series(W, "b", m, 1)
    p, v = M.dtw_path(padded(W, a, pa) if pa else a, padded(W, b, pb) if pb else b)
    W.check("path is a warping path of the unpadded series", W.is_warping_path(p, n, m))
    C = cost_matrix(W, a, b)
    W.check("padding does not change the value", W.eq(v * v, dp_dtw(W, C)))
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))


@cases(CASES, [dict(n=3, m=3, kind=k) for k in ("list", "1d", "int")])
def containers(W, n, m, kind):
    """lists, 1-d arrays and integer series are the same series"""
    M = W.mod()
    if kind == "int":
        vals = [W.int("v%d" % i, 0, 2) for i in range(4)]
        a, b = W.arr([vals[0], vals[1], 1], int), W.arr([vals[2], 2, vals[3]], int)
        C = [[W.c((int(x) - int(y)) ** 2) for y in b] for x in a]
    else:
        a, b = W.reals("a", n), W.reals("b", m)
        C = cost_matrix(W, a, b)
        if kind == "list":
            a, b = list(a), list(b)
    p, v = M.dtw_path(a, b)
    W.check("value", W.eq(v * v, dp_dtw(W, C)))
    W.check("dtw agrees with dtw_path", W.eq(M.dtw(a, b), v))
    W.check("path", W.and_(W.is_warping_path(p, n, m), W.eq(path_cost(W, C, p), v * v)))


@cases(CASES, [dict(n=9, m=8, d=1, fa=(8,), fb=(7,)), dict(n=12, m=5, d=2, fa=(10,), fb=()), dict(n=21, m=17, d=1, fa=(20,), fb=()),
               dict(n=33, m=33, d=1, fa=(32,), fb=())],
       [dict(n=40, m=70, d=1, fa=(39,), fb=(69,)), dict(n=9, m=11, d=1, fa=(0, 4), fb=(7,))], path_timeout=200, budget=60,
       over_thorough=dict(budget=900))
def long_path(W, n, m, d, fa, fb):
    """longer series, mostly fixed values, some symbolic points"""
    M = W.mod()
    a, b = mixed(W, "a", n, d, fa, 1), mixed(W, "b", m, d, fb, 2)
    p, v = M.dtw_path(a, b)
    C = cost_matrix(W, a, b)
    W.check("path", W.is_warping_path(p, n, m))
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("minimum", W.eq(v * v, dp_dtw(W, C)))


@cases(CASES, [dict(n=40, m=33, d=1, fa=(3, 20), fb=(7,)), dict(n=17, m=70, d=1, fa=(16,), fb=(0,)), dict(n=30, m=12, d=3, fa=(10,), fb=(2, 7))],
       [dict(n=130, m=128, d=1, fa=(64,), fb=(5,)), dict(n=20, m=300, d=1, fa=(4,), fb=(150,))], path_timeout=200, over_thorough=dict(budget=900))
def long_value(W, n, m, d, fa, fb):
    M = W.mod()
    a, b = mixed(W, "a", n, d, fa, 1), mixed(W, "b", m, d, fb, 2)
    v = M.dtw(a, b)
    W.check("minimum", W.eq(v, W.sqrt(dp_dtw(W, cost_matrix(W, a, b)))))
    W.check("symmetric", W.eq(v, M.dtw(b, a)))
