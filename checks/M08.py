"""M08: the discrete Frechet distance is the minimax path cost."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


def flat_minimax(W, C, ok=None):
    n, m = len(C), len(C[0])
    return W.min([W.max([C[i][j] for i, j in p]) for p in W.warping_paths(n, m, ok)])


def dp_minimax(W, C, ok=None):
    D = {}
    n, m = len(C), len(C[0])
    for i in range(n):
        for j in range(m):
            if ok is not None and not ok(i, j):
                continue
            pr = [D[p] for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if p in D]
            if (i, j) == (0, 0):
                D[i, j] = C[0][0]
            elif pr:
                D[i, j] = W.max([C[i][j], W.min(pr)])
    return D[n - 1, m - 1]


SH = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)]


@cases(CASES, [dict(n=n, m=m, d=1, con=("none",)) for n, m in SH] + [dict(n=2, m=2, d=2, con=("none",)), dict(n=3, m=3, d=1, con=("sc", 1)), dict(n=2, m=4, d=1, con=("sc", 0))],
       [dict(n=4, m=4, d=1, con=("none",)), dict(n=3, m=3, d=2, con=("none",))], over_thorough=dict(budget=900))
def value(W, n, m, d, con):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    C = cost_matrix(W, a, b)
    kw, ok = constraint(n, m, con)
    v = M.frechet(a, b, **kw)
    W.check("minimax over all warping paths", W.eq(v * v, flat_minimax(W, C, ok) if n * m <= 9 else dp_minimax(W, C, ok)))
    W.check("not negative", W.le(0, v))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, d=1, con=("none",)) for n, m in SH if n * m <= 6] + [dict(n=3, m=3, d=1, con=c) for c in (("none",), ("sc", 1), ("sc?", 0), ("ita", 3))] + [dict(n=2, m=2, d=2, con=("none",))],
       [dict(n=3, m=4, d=1, con=("none",)), dict(n=4, m=4, d=1, con=("sc", 1))], over_thorough=dict(budget=900))
def path(W, n, m, d, con):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    C = cost_matrix(W, a, b)
    kw, ok = constraint(n, m, con)
    p, v = M.frechet_path(a, b, **kw)
    W.check("admissible warping path", W.is_warping_path(p, n, m) and (ok is None or all(ok(int(i), int(j)) for i, j in p)))
    W.check("path attains the value", W.eq(W.max([C[int(i)][int(j)] for i, j in p]), v * v))
    W.check("minimal", W.eq(v * v, dp_minimax(W, C, ok)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, con=("none",)) for n, m in SH] + [dict(n=3, m=3, con=c) for c in (("sc", 1), ("sc?", 0), ("ita", 2), ("scdef",))] + [dict(n=2, m=4, con=("sc", 1)), dict(n=4, m=4, con=("itadef",))],
       [dict(n=3, m=4, con=("none",)), dict(n=4, m=4, con=("none",)), dict(n=4, m=4, con=("sc", 1))], over_thorough=dict(budget=900))
def precomputed(W, n, m, con):
    M = W.mod()
    D = W.reals("D", n, m, lo=0)
    snap = snapshot(W, D)
    C = [[D[i, j] for j in range(m)] for i in range(n)]
    kw, ok = constraint(n, m, con)
    p, v = M.frechet_path_from_metric(D, metric="precomputed", **kw)
    W.check("admissible warping path", W.is_warping_path(p, n, m) and (ok is None or all(ok(int(i), int(j)) for i, j in p)))
    W.check("path attains the value", W.eq(W.max([C[int(i)][int(j)] for i, j in p]), v))
    W.check("minimal", W.eq(v, dp_minimax(W, C, ok)))
    unchanged(W, "matrix unmodified", snap, D)


@cases(CASES, [dict(n=n, m=m, kind=k) for n, m in ((2, 2), (2, 3), (3, 2)) for k in ("euclidean", "sqeuclidean", "cityblock", "callable")], [dict(n=3, m=3, kind=k) for k in ("cityblock", "sqeuclidean")])
def named(W, n, m, kind):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    if kind == "callable":
        f, g = (lambda p, q: abs(p[0] - q[0]) + 1), (lambda p, q: W.abs(p[0] - q[0]) + 1)
    elif kind == "sqeuclidean":
        f, g = kind, W.sqdist
    else:
        f, g = kind, (lambda p, q: W.abs(p[0] - q[0]))
    C = [[g(p, q) for q in pts(b)] for p in pts(a)]
    p, v = M.frechet_path_from_metric(a, b, metric=f)
    W.check("warping path", W.is_warping_path(p, n, m))
    W.check("path attains the value", W.eq(W.max([C[int(i)][int(j)] for i, j in p]), v))
    W.check("minimal", W.eq(v, dp_minimax(W, C)))


@cases(CASES, [dict(pa=1, pb=0), dict(pa=0, pb=2)])
def padding(W, pa, pb):
    M = W.mod()
    a, b = series(W, "a", 2, 1, pa), series(W, "b", 3, 1, pb)
    C = cost_matrix(W, a[:2], b[:3])
    v = M.frechet(a, b)
    W.check("value of the unpadded series", W.eq(v * v, flat_minimax(W, C)))
    p, w = M.frechet_path(a, b)
    W.check("path", W.is_warping_path(p, 2, 3))
    W.check("same value", W.eq(v, w))
    p, w = M.frechet_path_from_metric(a, b, metric="sqeuclidean")
    W.check("from metric", W.and_(W.is_warping_path(p, 2, 3), W.eq(w, flat_minimax(W, C))))


@cases(CASES, [dict(n=9, m=12, fa=(8,), r=None), dict(n=20, m=20, fa=(19,), r=3), dict(n=15, m=8, fa=(14,), r=1)], path_timeout=200)
def longer(W, n, m, fa, r):
    M = W.mod()
    a, b = mixed(W, "a", n, 1, fa, 1), mixed(W, "b", m, 1, (), 2)
    C = cost_matrix(W, a, b)
    ok = None if r is None else in_band(n, m, r)
    p, v = M.frechet_path(a, b, sakoe_chiba_radius=r)
    W.check("path", W.is_warping_path(p, n, m) and (ok is None or all(ok(int(i), int(j)) for i, j in p)))
    W.check("path attains the value", W.eq(W.max([C[int(i)][int(j)] for i, j in p]), v * v))
    W.check("minimal", W.eq(v * v, dp_minimax(W, C, ok)))
    W.check("frechet agrees", W.eq(M.frechet(a, b, sakoe_chiba_radius=r), v))
