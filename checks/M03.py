"""M03: DTW from a ground metric or a precomputed cost matrix is optimal for that cost."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


def ground(W, kind, p, q):
    if kind == "sqeuclidean":
        return W.sqdist(p, q)
    if kind == "euclidean":
        return W.sqrt(W.sqdist(p, q))
    return W.sum([W.abs(x - y) for x, y in zip(p, q)])


SH = [(1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (2, 4)]


def judge(W, C, p, v, n, m, ok):
    W.check("path is a warping path", W.is_warping_path(p, n, m))
    W.check("path stays inside the band", ok is None or all(ok(int(i), int(j)) for i, j in p))
    W.check("value is the sum of costs along the path", W.eq(path_cost(W, C, p), v))
    W.check("value is minimal", W.eq(v, dp_dtw(W, C, ok)))


@cases(CASES, [dict(n=n, m=m, con=("none",)) for n, m in SH] + [dict(n=n, m=m, con=c) for n, m in ((3, 3), (2, 4), (4, 3)) for c in (("sc", 1), ("sc?", 0), ("scdef",))]
       + [dict(n=3, m=3, con=("ita", 2)), dict(n=4, m=4, con=("ita?", 3)), dict(n=4, m=4, con=("itadef",))],
       [dict(n=n, m=m, con=("none",)) for n, m in ((4, 4), (3, 5), (5, 3))], over_thorough=dict(budget=900))
def precomputed(W, n, m, con):
    M = W.mod()
    D = W.reals("D", n, m, lo=0)
    C = [[D[i, j] for j in range(m)] for i in range(n)]
    snap = snapshot(W, D)
    kw, ok = constraint(n, m, con)
    p, v = M.dtw_path_from_metric(D, metric="precomputed", **kw)
    judge(W, C, p, v, n, m, ok)
    unchanged(W, "matrix unmodified", snap, D)


@cases(CASES, [dict(n=n, m=m, kind=k, d=d) for n, m, d in ((2, 2, 1), (3, 2, 1), (2, 3, 1), (3, 3, 1), (2, 2, 2)) for k in ("sqeuclidean", "euclidean", "cityblock", "callable")
                if not (d == 2 and k == "euclidean")] + [dict(n=3, m=3, kind="default", d=1)],
       [dict(n=4, m=3, kind=k, d=1) for k in ("sqeuclidean", "cityblock", "callable")], over_thorough=dict(budget=900))
def named(W, n, m, kind, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    if kind == "callable":
        def f(p, q):
            return W.sqdist(list(p), list(q)) * 2 + 1
        C = [[W.sqdist(p, q) * 2 + 1 for q in pts(b)] for p in pts(a)]
    else:
        f = kind
        C = [[ground(W, "euclidean" if kind == "default" else kind, p, q) for q in pts(b)] for p in pts(a)]
    p, v = M.dtw_path_from_metric(a, b, **({} if kind == "default" else dict(metric=f)))
    judge(W, C, p, v, n, m, None)
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=3, m=3, kind="sqeuclidean", con=("sc", 1)), dict(n=2, m=4, kind="cityblock", con=("sc?", 0)), dict(n=3, m=3, kind="callable", con=("scdef",)),
               dict(n=4, m=4, kind="cityblock", con=("ita", 2))])
def banded(W, n, m, kind, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, ok = constraint(n, m, con)
    if kind == "callable":
        def f(p, q):
            return abs(p[0] - q[0])
        C = [[W.abs(p[0] - q[0]) for q in pts(b)] for p in pts(a)]
    else:
        f = kind
        C = [[ground(W, kind, p, q) for q in pts(b)] for p in pts(a)]
    p, v = M.dtw_path_from_metric(a, b, metric=f, **kw)
    judge(W, C, p, v, n, m, ok)


@cases(CASES, [dict(pa=1, pb=2), dict(pa=0, pb=1)])
def padding(W, pa, pb):
    M = W.mod()
    a, b = series(W, "a", 2, 1, pa), series(W, "b", 3, 1, pb)
    C = cost_matrix(W, a[:2], b[:3])
    p, v = M.dtw_path_from_metric(a, b, metric="sqeuclidean")
    judge(W, C, p, v, 2, 3, None)


@cases(CASES, [dict(n=12, m=15, fa=(11,), r=2), dict(n=18, m=18, fa=(17,), r=0), dict(n=25, m=10, fa=(24,), r=None)], path_timeout=200)
def longer(W, n, m, fa, r):
    """precomputed matrix, mostly fixed numbers"""
    M = W.mod()
    g = lcg(5)
    C = [[W.c(Fraction(abs(next(g)))) for j in range(m)] for i in range(n)]
    for i in fa:
        for j in (m - 1, m - 2):
            C[i][j] = W.real("c_%d_%d" % (i, j), lo=0)
    D = W.arr(C)
    kw = {} if r is None else dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=r)
    p, v = M.dtw_path_from_metric(D, metric="precomputed", **kw)
    judge(W, C, p, v, n, m, None if r is None else in_band(n, m, r))
