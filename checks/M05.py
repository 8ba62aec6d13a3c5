"""M05: subsequence DTW finds the cheapest window match."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


def windows(W, C, i, j):
    """cheapest alignment cost of query[:i+1] with a window ending at j"""
    out = []
    for s in range(j + 1):
        sub = [row[s:j + 1] for row in C[:i + 1]]
        out.append(dp_dtw(W, sub))
    return W.min(out)


SH = [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)]


@cases(CASES, [dict(n=n, m=m, d=1) for n, m in SH + [(3, 4)]] + [dict(n=2, m=2, d=2)], [dict(n=3, m=5, d=1), dict(n=4, m=4, d=1), dict(n=4, m=6, d=1)], over_thorough=dict(budget=900))
def matrix(W, n, m, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    A = M.subsequence_cost_matrix(a, b)
    C = cost_matrix(W, a, b)
    W.check("shape", W.shape(A) == (n, m))
    for i in range(n):
        for j in range(m):
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], windows(W, C, i, j)))
    unchanged(W, "inputs unmodified", snap, a, b)


def valid_sub(p, n, m, end=None):
    p = [(int(i), int(j)) for i, j in p]
    if not p or p[0][0] != 0 or p[-1][0] != n - 1:
        return False
    if end is not None and p[-1][1] != end:
        return False
    if not all(0 <= j < m for i, j in p):
        return False
    return all((y[0] - x[0], y[1] - x[1]) in ((1, 0), (0, 1), (1, 1)) for x, y in zip(p, p[1:]))


@cases(CASES, [dict(n=n, m=m, d=1) for n, m in SH] + [dict(n=2, m=2, d=2)], [dict(n=3, m=4, d=1), dict(n=4, m=3, d=1)], over_thorough=dict(budget=900))
def best_path(W, n, m, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    C = cost_matrix(W, a, b)
    p, v = M.dtw_subsequence_path(a, b)
    W.check("path matches the whole query to a window", valid_sub(p, n, m))
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("smallest over all windows", W.eq(v * v, W.min([windows(W, C, n - 1, j) for j in range(m)])))
    W.check("not negative", W.le(0, v))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m) for n, m in SH], [dict(n=3, m=4), dict(n=4, m=3)], over_thorough=dict(budget=900))
def backtrack(W, n, m):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    C = cost_matrix(W, a, b)
    A = M.subsequence_cost_matrix(a, b)
    end = W.int("end", 0, m - 1)
    p = M.subsequence_path(A, end)
    W.check("alignment of the query ending at the chosen index", valid_sub(p, n, m, end))
    W.check("alignment cost", W.eq(path_cost(W, C, p), A[n - 1, end]))


@cases(CASES, [dict(pa=1, pb=0), dict(pa=0, pb=2), dict(pa=2, pb=1)])
def padding(W, pa, pb):
    M = W.mod()
    a, b = series(W, "a", 2, 1, pa), series(W, "b", 3, 1, pb)
    C = cost_matrix(W, a[:2], b[:3])
    A = M.subsequence_cost_matrix(a, b)
    W.check("padding dropped", W.shape(A) == (2, 3))
    p, v = M.dtw_subsequence_path(a, b)
    W.check("path", W.and_(valid_sub(p, 2, 3), W.eq(path_cost(W, C, p), v * v)))
    W.check("value", W.eq(v * v, W.min([windows(W, C, 1, j) for j in range(3)])))


@cases(CASES, [dict(n=4, m=25, fb=(12,)), dict(n=6, m=40, fb=(39,)), dict(n=1, m=12, fb=(3,))], path_timeout=200, max_paths=400)
def longer(W, n, m, fb):
    M = W.mod()
    a, b = mixed(W, "a", n, 1, (), 3), mixed(W, "b", m, 1, fb, 4)
    C = cost_matrix(W, a, b)
    p, v = M.dtw_subsequence_path(a, b)
    W.check("path", valid_sub(p, n, m))
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("smallest over all windows", W.eq(v * v, W.min([windows(W, C, n - 1, j) for j in range(m)])))
