"""M07: LCSS similarity is a longest admissible common subsequence."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


def longest(W, match, n, m, ok):
    """length of a longest strictly increasing sequence of matching admissible pairs (standard recurrence on booleans)"""
    L = {}
    for i in range(-1, n):
        for j in range(-1, m):
            if i < 0 or j < 0:
                L[i, j] = 0
            elif (ok is None or ok(i, j)) and match[i][j]:
                L[i, j] = max(L[i - 1, j - 1] + 1, L[i - 1, j], L[i, j - 1])
            else:
                L[i, j] = max(L[i - 1, j], L[i, j - 1])
    return L[n - 1, m - 1]


def decided(W, a, b, eps, n, m, ok, dist=None):
    """decide each admissible comparison (forks)"""
    if dist is None:
        A, B = pts(a, n), pts(b, m)
        return [[(ok is None or ok(i, j)) and W.truth(W.le(W.sqrt(W.sqdist(A[i], B[j])), eps)) for j in range(m)] for i in range(n)]
    return [[(ok is None or ok(i, j)) and W.truth(W.le(dist[i][j], eps)) for j in range(m)] for i in range(n)]


def judge(W, match, n, m, ok, p, v):
    best = longest(W, match, n, m, ok)
    W.check("similarity is the longest common subsequence", W.eq(v, W.c(Fraction(best, min(n, m)))))
    if p is not None:
        p = [(int(i), int(j)) for i, j in p]
        W.check("path pairs strictly increase", all(x[0] < y[0] and x[1] < y[1] for x, y in zip(p, p[1:])))
        W.check("path pairs match and are admissible", all(0 <= i < n and 0 <= j < m and match[i][j] for i, j in p))
        W.check("path has the longest length", len(p) == best)


CONS = [("none",), ("sc", 0), ("sc", 1), ("sc?", 1), ("scdef",), ("ita", 2), ("ita?", 3), ("itadef",)]


def shapes(ns, cons=CONS):
    out = []
    for n, m in ns:
        for c in cons:
            if c[0].startswith("ita") and n != m:
                continue
            out.append(dict(n=n, m=m, con=c))
    return out


@cases(CASES, shapes([(2, 2), (2, 3), (3, 2)]) + shapes([(3, 3)], [("none",), ("sc", 0), ("sc", 1), ("ita", 2), ("ita", 3)]) + shapes([(1, 3), (3, 1), (1, 1)], [("none",), ("sc", 1)]),
       shapes([(3, 4), (4, 3)], [("none",), ("sc", 1)]) + shapes([(4, 4)], [("sc", 0), ("ita", 2), ("sc", 1)]), over_thorough=dict(budget=900), max_paths=20000)
def values(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    eps = W.real("eps", lo=0)
    snap = snapshot(W, a, b)
    kw, ok = constraint(n, m, con)
    match = decided(W, a, b, eps, n, m, ok)
    v = M.lcss(a, b, eps=eps, **kw)
    p, v2 = M.lcss_path(a, b, eps=eps, **kw)
    judge(W, match, n, m, ok, p, v)
    W.check("lcss and lcss_path agree", W.eq(v, v2))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, shapes([(2, 2), (2, 3), (3, 2), (3, 3)], [("none",), ("sc", 0), ("sc", 1), ("scdef",), ("ita?", 2), ("itadef",)]) + shapes([(4, 4), (5, 5)], [("sc", 0)]),
       shapes([(4, 4)], [("sc", 1), ("none",), ("ita", 2)]), over_thorough=dict(budget=900), max_paths=20000)
def precomputed(W, n, m, con):
    M = W.mod()
    D = W.reals("D", n, m, lo=0)
    eps = W.c(Fraction(3, 2))
    snap = snapshot(W, D)
    kw, ok = constraint(n, m, con)
    match = decided(W, None, None, eps, n, m, ok, [[D[i, j] for j in range(m)] for i in range(n)])
    p, v = M.lcss_path_from_metric(D, eps=eps, metric="precomputed", **kw)
    judge(W, match, n, m, ok, p, v)
    unchanged(W, "matrix unmodified", snap, D)


@cases(CASES, [dict(kind=k, n=2, m=3) for k in ("euclidean", "sqeuclidean", "cityblock", "callable", "default")])
def named(W, kind, n, m):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    eps = W.real("eps", lo=0)
    A, B = pts(a), pts(b)
    f = {"sqeuclidean": lambda p, q: W.sqdist(p, q), "callable": lambda p, q: W.abs(p[0] - q[0]) * 2}.get(kind, lambda p, q: W.abs(p[0] - q[0]))
    match = decided(W, None, None, eps, n, m, None, [[f(p, q) for q in B] for p in A])
    kw = {} if kind == "default" else dict(metric=(lambda p, q: abs(p[0] - q[0]) * 2) if kind == "callable" else kind)
    p, v = M.lcss_path_from_metric(a, b, eps=eps, **kw)
    judge(W, match, n, m, None, p, v)


@cases(CASES, [dict(pa=1, pb=0), dict(pa=0, pb=2)])
def padding(W, pa, pb):
    M = W.mod()
    a, b = series(W, "a", 2, 1, pa), series(W, "b", 3, 1, pb)
    match = decided(W, a, b, W.c(1), 2, 3, None)
    v = M.lcss(a, b)
    p, v2 = M.lcss_path(a, b)
    judge(W, match, 2, 3, None, p, v)
    W.check("lcss and lcss_path agree", W.eq(v, v2))


@cases(CASES, [dict(n=2, m=2, d=2)])
def multivariate(W, n, m, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    eps = W.real("eps", lo=0)
    match = decided(W, a, b, eps, n, m, None)
    v = M.lcss(a, b, eps=eps)
    p, v2 = M.lcss_path(a, b, eps=eps)
    judge(W, match, n, m, None, p, v)
    W.check("lcss and lcss_path agree", W.eq(v, v2))


@cases(CASES, [dict(n=5, m=5, con=("sc", 1), free=2), dict(n=6, m=6, con=("sc", 0), free=2), dict(n=6, m=6, con=("ita", 2), free=2), dict(n=12, m=9, con=("sc?", 2), free=1),
               dict(n=15, m=15, con=("itadef",), free=1), dict(n=10, m=13, con=("none",), free=1)], max_paths=3000, path_timeout=30)
def longer(W, n, m, con, free):
    M = W.mod()
    a, b = mixed(W, "a", n, 1, tuple(range(n // 2, n // 2 + free)), 1), mixed(W, "b", m, 1, (m // 3,), 2)
    eps = W.c(1)
    kw, ok = constraint(n, m, con) if con[0] == "none" or n != m or con[0][:2] == "sc" else _ita(n, m, con)
    match = decided(W, a, b, eps, n, m, ok)
    v = M.lcss(a, b, eps=eps, **kw)
    p, v2 = M.lcss_path(a, b, eps=eps, **kw)
    judge(W, match, n, m, ok, p, v)
    W.check("lcss and lcss_path agree", W.eq(v, v2))


def _ita(n, m, con):
    return constraint(n, m, con)
