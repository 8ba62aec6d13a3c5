"""M04: length-limited DTW is optimal among paths of bounded length."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


def best_limited(W, C, L):
    """cheapest path sum over warping paths with at most L pairs (recurrence over the number of pairs)"""
    n, m = len(C), len(C[0])
    D = {(0, 0, 1): C[0][0]}
    for k in range(2, L + 1):
        for i in range(n):
            for j in range(m):
                pr = [D[q] for q in ((i - 1, j, k - 1), (i, j - 1, k - 1), (i - 1, j - 1, k - 1)) if q in D]
                if pr:
                    D[i, j, k] = C[i][j] + W.min(pr)
    return W.min([D[n - 1, m - 1, k] for k in range(1, L + 1) if (n - 1, m - 1, k) in D])


SH = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def lens(n, m, extra=2):
    return range(max(n, m), n + m + extra - 1)


@cases(CASES, [dict(n=n, m=m, L=L) for n, m in SH + [(2, 4), (4, 3), (4, 4)] for L in lens(n, m)],
       [dict(n=n, m=m, L=L) for n, m in ((3, 5), (5, 3), (5, 5)) for L in lens(n, m)], over_thorough=dict(budget=600))
def value(W, n, m, L):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    snap = snapshot(W, a, b)
    C = cost_matrix(W, a, b)
    v = M.dtw_limited_warping_length(a, b, L)
    W.check("cheapest among paths of at most %d pairs" % L, W.eq(v * v, best_limited(W, C, L)))
    W.check("not negative", W.le(0, v))
    if L >= n + m - 1:
        W.check("equals dtw when the limit does not bind", W.eq(v, M.dtw(a, b)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, L=L, d=1) for n, m in SH for L in lens(n, m, 1)] + [dict(n=2, m=2, L=3, d=2), dict(n=2, m=4, L=5, d=1), dict(n=4, m=3, L=4, d=1), dict(n=4, m=3, L=5, d=1)],
       [dict(n=n, m=m, L=L, d=1) for n, m in ((4, 4), (4, 3), (3, 5)) for L in lens(n, m)], over_thorough=dict(budget=900), budget=200)
def path(W, n, m, L, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    C = cost_matrix(W, a, b)
    p, v = M.dtw_path_limited_warping_length(a, b, L)
    W.check("path is a warping path", W.is_warping_path(p, n, m))
    W.check("path has at most L pairs", len(p) <= L)
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("optimal", W.eq(v * v, best_limited(W, C, L)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m) for n, m in ((2, 2), (3, 2), (2, 4), (1, 3), (4, 4))])
def refusal(W, n, m):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    L = W.int("L", 0, max(n, m) - 1)
    W.check("value raises ValueError", W.raises(lambda: M.dtw_limited_warping_length(a, b, L), ValueError) == "ValueError")
    W.check("path raises ValueError", W.raises(lambda: M.dtw_path_limited_warping_length(a, b, L), ValueError) == "ValueError")


@cases(CASES, [dict(pa=1, pb=0, L=3), dict(pa=0, pb=2, L=4), dict(pa=2, pb=1, L=3)])
def padding(W, pa, pb, L):
    M = W.mod()
    a, b = series(W, "a", 2, 1, pa), series(W, "b", 3, 1, pb)
    C = cost_matrix(W, a[:2], b[:3])
    v = M.dtw_limited_warping_length(a, b, L)
    W.check("value of the unpadded series", W.eq(v * v, best_limited(W, C, L)))
    p, v = M.dtw_path_limited_warping_length(a, b, L)
    W.check("path", W.and_(W.is_warping_path(p, 2, 3), len(p) <= L, W.eq(path_cost(W, C, p), v * v)))
    W.check("path value", W.eq(v * v, best_limited(W, C, L)))


@cases(CASES, [dict(n=7, m=9, L=9, fa=(6,)), dict(n=8, m=8, L=10, fa=(7,)), dict(n=10, m=6, L=13, fa=(9,))], path_timeout=200)
def longer(W, n, m, L, fa):
    M = W.mod()
    a, b = mixed(W, "a", n, 1, fa, 1), mixed(W, "b", m, 1, (), 2)
    C = cost_matrix(W, a, b)
    p, v = M.dtw_path_limited_warping_length(a, b, L)
    W.check("path", W.is_warping_path(p, n, m) and len(p) <= L)
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("optimal", W.eq(v * v, best_limited(W, C, L)))
    w = M.dtw_limited_warping_length(a, b, L)
    W.check("same value", W.eq(w, v))
