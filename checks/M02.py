"""M02: global constraints admit exactly the documented cells."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


@cases(CASES, grid(n=(1, 2, 3, 5, 7), m=(1, 2, 4, 5, 8)), grid(n=(4, 6, 9, 12), m=(3, 6, 10, 13)))
def sc_mask(W, n, m):
    M = W.mod()
    r = W.int("r", 0, max(n, m))
    ok = in_band(n, m, r)
    for nm, a in (("sakoe_chiba_mask", M.sakoe_chiba_mask(n, m, radius=r)),
                  ("compute_mask", M.compute_mask(n, m, 2, sakoe_chiba_radius=r) if hasattr(M, "compute_mask") else None)):
        if a is not None:
            W.check("%s is the documented band" % nm, W.shape(a) == (n, m) and all(bool(a[i, j]) == ok(i, j) for i in range(n) for j in range(m)))


@cases(CASES, [dict(n=n, m=m) for n, m in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (4, 6), (6, 4), (3, 5), (5, 3), (2, 4), (7, 7))],
       [dict(n=n, m=m) for n, m in ((8, 8), (9, 6), (6, 9), (10, 10), (5, 9))], max_paths=4000, feas_exact=True, over_thorough=dict(budget=900))
def itakura_mask(W, n, m):
    """any real slope in [1, 6]"""
    M = W.mod()
    s = W.real("s", 1, 6)
    out = []
    e = W.raises(lambda: out.append(M.itakura_mask(n, m, max_slope=s)), RuntimeWarning)
    B = itakura_bounds(W, n, m, s)
    eps = W.c(Fraction(1, 100))
    if e is None:
        a = out[0]
        W.check("shape", W.shape(a) == (n, m))
        for j in range(m):
            lo, hi = B[j]
            for i in range(n):
                if bool(a[i, j]):
                    W.check("cell (%d,%d) is inside the parallelogram" % (i, j), W.and_(W.le(lo - eps, i), W.le(i, hi + eps)))
                else:
                    W.check("cell (%d,%d) is outside the parallelogram" % (i, j), W.not_(W.and_(W.le(lo + eps, i), W.le(i, hi - eps))))
        W.check("an admissible path exists", connected(n, m, lambda i, j: bool(a[i, j])))
    else:
        # infeasible: some row or column has no cell well inside
        rows = [W.and_(*[W.not_(W.and_(W.le(B[j][0] + eps, i), W.le(i, B[j][1] - eps))) for j in range(m)]) for i in range(n)]
        cols = [W.and_(*[W.not_(W.and_(W.le(B[j][0] + eps, i), W.le(i, B[j][1] - eps))) for i in range(n)]) for j in range(m)]
        W.check("RuntimeWarning only when infeasible", W.or_(*(rows + cols)))


CONS = [("none",), ("none''",), ("sc", 0), ("sc", 1), ("sc", 2), ("sc?", 1), ("sc?", 0), ("scdef",), ("ita", 2), ("ita", 3), ("ita?", 2), ("itadef",),
        ("both-sc", 1, 2.0), ("both-ita", 1, 2.0), ("both-ita", 0, 3.0)]


def feasible(n, m, con):
    try:
        kw, ok = constraint(n, m, con)
    except AssertionError:
        return False
    if ok is None:
        return True
    rows = all(any(ok(i, j) for j in range(m)) for i in range(n))
    cols = all(any(ok(i, j) for i in range(n)) for j in range(m))
    return rows and cols and connected(n, m, ok)


def shapes(ns, cons):
    return [dict(n=n, m=m, con=c) for n, m in ns for c in cons if feasible(n, m, c)]


@cases(CASES, shapes([(3, 3), (4, 4), (2, 4), (4, 3)], CONS), shapes([(5, 5), (4, 5), (5, 4), (6, 6)], CONS), over_thorough=dict(budget=600))
def dtw_values(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, ok = constraint(n, m, con)
    C = cost_matrix(W, a, b)
    best = dp_dtw(W, C, ok)
    W.check("dtw optimises over the admissible cells", W.eq(M.dtw(a, b, **kw), W.sqrt(best)))


@cases(CASES, shapes([(3, 3), (2, 4), (4, 2)], CONS) + shapes([(4, 4), (5, 5)], [("sc", 0), ("sc", 1), ("ita", 2), ("sc?", 1), ("ita?", 2), ("itadef",)]),
       shapes([(4, 4), (3, 5), (5, 3)], CONS), over_thorough=dict(budget=600), max_paths=3000)
def dtw_paths(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, ok = constraint(n, m, con)
    C = cost_matrix(W, a, b)
    p, v = M.dtw_path(a, b, **kw)
    W.check("path is a warping path", W.is_warping_path(p, n, m))
    W.check("path stays inside the admissible cells", ok is None or all(ok(int(i), int(j)) for i, j in p))
    W.check("path attains the value", W.eq(path_cost(W, C, p), v * v))
    W.check("optimal", W.eq(v * v, dp_dtw(W, C, ok)))


def minimax(W, C, ok):
    D = {}
    n, m = len(C), len(C[0])
    for i in range(n):
        for j in range(m):
            if ok is not None and not ok(i, j):
                continue
            pr = [D[p] for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if p in D]
            if (i, j) == (0, 0):
                D[i, j] = C[0][0]
            elif pr:
                D[i, j] = W.max([C[i][j], W.min(pr)])
    return D[n - 1, m - 1]


@cases(CASES, shapes([(3, 3), (2, 4), (4, 2)], [c for c in CONS if c[0] != "none''"]) + shapes([(4, 4)], [("sc", 1), ("ita", 2)]),
       shapes([(4, 4), (5, 5)], CONS), over_thorough=dict(budget=600))
def frechet(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, ok = constraint(n, m, con)
    C = cost_matrix(W, a, b)
    best = minimax(W, C, ok)
    W.check("frechet optimises over the admissible cells", W.eq(M.frechet(a, b, **kw), W.sqrt(best)))


@cases(CASES, shapes([(3, 3), (2, 3), (3, 2)], [c for c in CONS if c[0] != "none''"]), shapes([(4, 4)], [("sc", 1), ("ita", 2)]), over_thorough=dict(budget=600))
def frechet_paths(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, ok = constraint(n, m, con)
    C = cost_matrix(W, a, b)
    p, v = M.frechet_path(a, b, **kw)
    W.check("path is a warping path", W.is_warping_path(p, n, m))
    W.check("path stays inside the admissible cells", ok is None or all(ok(int(i), int(j)) for i, j in p))
    W.check("path attains the value", W.eq(W.max([C[int(i)][int(j)] for i, j in p]), v * v))
    W.check("optimal", W.eq(v * v, minimax(W, C, ok)))


FUNS = ["dtw", "dtw_path", "frechet", "frechet_path", "lcss", "lcss_path", "cdist_dtw", "cdist_frechet", "dtw_path_from_metric", "frechet_path_from_metric",
        "lcss_path_from_metric"]


@cases(CASES, grid(fun=FUNS, gc=(None, "")) + grid(fun=FUNS, gc=("slope",)))
def refusal(W, fun, gc):
    """ambiguous or infeasible constraints raise instead of returning a value"""
    M = W.mod()
    f = getattr(M, fun)
    if gc == "slope":
        a, b = series(W, "a", 2), series(W, "b", 6)
        kw = dict(global_constraint="itakura", itakura_max_slope=1.0)
    else:
        a, b = series(W, "a", 3), series(W, "b", 3)
        kw = dict(global_constraint=gc, sakoe_chiba_radius=W.int("r", 0, 2), itakura_max_slope=2.0)
    if fun.endswith("from_metric"):
        kw["metric"] = "euclidean"
    if fun.startswith("cdist"):
        args = (a.reshape(1, -1, 1), b.reshape(1, -1, 1))
    else:
        args = (a, b)
    W.check("raises RuntimeWarning", W.raises(lambda: f(*args, **kw), RuntimeWarning) == "RuntimeWarning")
