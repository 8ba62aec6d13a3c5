"""R01: the PyTorch backend computes the same function as the NumPy backend."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.utils"]
TORCH = True
ASSUMPTIONS = ["torch is modelled by symts/shim/torchshim.py (values, views and shared memory; floating tensors are exact reals whatever their "
               "precision; gradients, devices and float32 rounding are not modelled)"]

HOW = ["tensor", "be"]          # tensors with the backend inferred / arrays with be="pytorch"


def num(W, x):
    return x.item() if W.tensor_like(x) else x


def arg(W, how, *arrays):
    """arguments for the PyTorch side and its keyword arguments (inputs are shared with the caller where torch can share them)"""
    if how == "be":
        return list(arrays), dict(be="pytorch")
    if how == "both":
        return [W.tensor(a, share=True) for a in arrays], dict(be="pytorch")
    return [W.tensor(a, share=True) for a in arrays], {}


def same_array(W, label, t, a):
    W.check(label + ": a tensor", W.tensor_like(t))
    W.check(label + ": shape", tuple(int(x) for x in t.shape) == tuple(int(x) for x in a.shape))
    if tuple(int(x) for x in t.shape) == tuple(int(x) for x in a.shape):
        W.check(label, W.all_eq(t, a))


def same_value(W, label, t, v):
    W.check(label, W.eq(num(W, t), num(W, v)))


def copy(W, *arrays):
    return [W.arr(a) for a in arrays]


CONS = [("none",), ("sc", 1), ("sc", 0), ("sc?", 1), ("scdef",), ("ita", 2), ("ita?", 2), ("itadef",)]
METRICS = ["dtw", "soft_dtw", "soft_dtw_normalized", "frechet", "lcss"]


def call(M, name, a, b, kw):
    kw = dict(kw)
    if name.startswith("soft"):
        kw.setdefault("gamma", 0.5)
    if name.startswith("lcss"):
        kw.setdefault("eps", 0.75)
    return getattr(M, name)(a, b, **kw)


@cases(CASES, [dict(fn=f, n=n, m=m, d=d, con=c, how=h) for f in ("dtw", "frechet") for n, m, d, c, h in (
    (1, 1, 1, ("none",), "be"), (1, 3, 1, ("none",), "tensor"), (3, 1, 2, ("none",), "both"), (3, 2, 2, ("none",), "be"), (2, 4, 1, ("none",), "tensor"),
    (3, 3, 1, ("sc", 1), "be"), (4, 3, 1, ("sc", 0), "tensor"), (2, 4, 1, ("sc?", 1), "both"), (3, 3, 1, ("scdef",), "be"),
    (4, 4, 1, ("ita", 2), "be"), (3, 4, 1, ("ita?", 2), "tensor"), (4, 4, 1, ("itadef",), "both"), (3, 3, 1, ("none''",), "be"))]
    + [dict(fn=f, n=n, m=m, d=d, con=c, how=h) for f in ("soft_dtw", "soft_dtw_normalized") for n, m, d, c, h in (
        (1, 1, 1, ("none",), "be"), (1, 2, 2, ("none",), "tensor"), (2, 2, 1, ("none",), "both"), (3, 2, 1, ("none",), "be"),
        (3, 3, 1, ("sc", 0), "be"), (3, 2, 1, ("sc", 0), "tensor"), (2, 2, 1, ("sc?", 0), "both"), (4, 4, 1, ("ita", 2), "be"))]
    + [dict(fn="lcss", n=n, m=m, d=d, con=c, how=h) for n, m, d, c, h in (
        (1, 1, 1, ("none",), "be"), (2, 2, 1, ("none",), "tensor"), (3, 2, 1, ("none",), "be"), (2, 3, 2, ("none",), "both"),
        (3, 3, 1, ("sc", 0), "be"), (2, 3, 1, ("sc?", 0), "tensor"), (3, 2, 1, ("scdef",), "be"))],
    [dict(fn=f, n=4, m=4, d=1, con=c, how="be") for f in ("dtw", "frechet", "lcss") for c in CONS], path_timeout=60, budget=200, over_thorough=dict(budget=900))
def value(W, fn, n, m, d, con, how):
    """every pairwise metric"""
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    kw, _ = constraint(n, m, con)
    snap = snapshot(W, a, b)
    v = call(M, fn, a, b, kw)
    x, k = arg(W, how, a, b)
    t = call(M, fn, x[0], x[1], dict(kw, **k))
    same_value(W, fn, t, v)
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(fn=f, n=2, m=2, pa=1, pb=2, how=h) for f, h in (("dtw", "be"), ("frechet", "tensor"), ("soft_dtw", "be"), ("lcss", "tensor"), ("gak", "be"),
                                                                  ("soft_dtw_normalized", "tensor"))])
def padding(W, fn, n, m, pa, pb, how):
    """series padded with NaN"""
    M = W.mod()
    a, b = series(W, "a", n, 1, pa), series(W, "b", m, 1, pb)
    snap = snapshot(W, a, b)
    v = call(M, fn, a[:n], b[:m], {})
    x, k = arg(W, how, a, b)
    same_value(W, fn, call(M, fn, x[0], x[1], k), v)
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(fn=f, how=h) for f, h in (("dtw", "be"), ("soft_dtw", "tensor"), ("soft_dtw_normalized", "be"), ("frechet", "tensor"), ("lcss", "be"))])
def flat(W, fn, how):
    """one-dimensional arrays are univariate series"""
    M = W.mod()
    a, b = W.reals("a", 3), W.reals("b", 2)
    v = call(M, fn, a, b, {})
    x, k = arg(W, how, a, b)
    same_value(W, fn, call(M, fn, x[0], x[1], k), v)


@cases(CASES, [dict(fn=f) for f in ("soft_dtw", "soft_dtw_normalized", "soft_dtw_alignment", "cdist_soft_dtw", "cdist_soft_dtw_normalized")])
def gamma_zero(W, fn):
    M = W.mod()
    a, b = series(W, "a", 3), series(W, "b", 2)
    if fn.startswith("cdist"):
        a, b = a.reshape(1, 3, 1), b.reshape(1, 2, 1)
    v = getattr(M, fn)(a, b, gamma=0.0)
    t = getattr(M, fn)(a, b, gamma=0.0, be="pytorch")
    if fn == "soft_dtw_alignment":
        same_value(W, "value", t[1], v[1])
        W.check("one cell of ones per path position", W.is_warping_path([(i, j) for i in range(3) for j in range(2) if W.truth(W.eq(num(W, t[0][i, j]), 1))], 3, 2))
    elif fn.startswith("cdist"):
        same_array(W, "matrix", t, v)
    else:
        same_value(W, "value", t, v)


@cases(CASES, [dict(g=g, fn=f, n=n, m=m) for g in (0.1, 1.0, 10.0) for f, n, m in (("soft_dtw", 2, 3), ("soft_dtw_normalized", 2, 2), ("soft_dtw_alignment", 2, 2))])
def gammas(W, g, fn, n, m):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    v, t = getattr(M, fn)(a, b, gamma=g), getattr(M, fn)(a, b, gamma=g, be="pytorch")
    if fn == "soft_dtw_alignment":
        same_array(W, "soft alignment", t[0], v[0])
        v, t = v[1], t[1]
    same_value(W, fn, t, v)


@cases(CASES, [dict(n=n, m=m, d=d, con=c, how=h) for n, m, d, c, h in ((1, 1, 1, ("none",), "be"), (2, 2, 1, ("none",), "tensor"), (2, 3, 1, ("none",), "be"),
                                                                   (3, 1, 2, ("none",), "both"), (3, 3, 1, ("sc", 0), "be"), (3, 3, 1, ("sc", 1), "be"), (4, 4, 1, ("ita", 2), "be"))], path_timeout=60)
def alignment(W, n, m, d, con, how):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    kw, _ = constraint(n, m, con)
    snap = snapshot(W, a, b)
    E, v = M.soft_dtw_alignment(a, b, gamma=0.5, **kw)
    x, k = arg(W, how, a, b)
    F, t = M.soft_dtw_alignment(x[0], x[1], gamma=0.5, **kw, **k)
    same_value(W, "value", t, v)
    same_array(W, "soft alignment", F, E)
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(fn=f, n=n, m=m, d=d, s=s, how=h) for f in ("gak", "unnormalized_gak") for n, m, d, s, h in (
    (1, 1, 1, 1.0, "be"), (2, 2, 1, 0.5, "tensor"), (3, 2, 2, 2.0, "be"), (2, 4, 1, 1.0, "both"))])
def gak(W, fn, n, m, d, s, how):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    v = getattr(M, fn)(a, b, sigma=s)
    x, k = arg(W, how, a, b)
    same_value(W, fn, getattr(M, fn)(x[0], x[1], sigma=s, **k), v)


def check_path(W, p, v, n, m, cost):
    p = [(int(i), int(j)) for i, j in p]
    W.check("a warping path", W.is_warping_path(p, n, m))
    W.check("the path attains the value", W.eq(cost(p), v))
    return p


@cases(CASES, [dict(fn=f, n=n, m=m, d=d, con=c, how=h) for f in ("dtw_path", "frechet_path") for n, m, d, c, h in (
    (1, 2, 1, ("none",), "be"), (2, 2, 1, ("none",), "tensor"), (3, 2, 2, ("none",), "be"), (2, 3, 1, ("none",), "both"), (3, 3, 1, ("sc", 0), "be"),
    (3, 2, 1, ("sc", 0), "tensor"), (2, 3, 1, ("sc?", 1), "be"), (4, 4, 1, ("ita", 2), "both"))],
    [dict(fn=f, n=3, m=3, d=1, con=("none",), how="be") for f in ("dtw_path", "frechet_path")], path_timeout=60, budget=200, over_thorough=dict(budget=900))
def path(W, fn, n, m, d, con, how):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    kw, ok = constraint(n, m, con)
    v = getattr(M, fn[:-5])(a, b, **kw)
    x, k = arg(W, how, a, b)
    p, t = getattr(M, fn)(x[0], x[1], **kw, **k)
    t = num(W, t)
    W.check("same value", W.eq(t, v))
    C = cost_matrix(W, a, b)
    p = check_path(W, p, t * t, n, m, (lambda q: path_cost(W, C, q)) if fn == "dtw_path" else (lambda q: W.max([C[i][j] for i, j in q])))
    if ok:
        W.check("the path stays inside the constraint", all(ok(i, j) for i, j in p))


@cases(CASES, [dict(n=n, m=m, con=c, how=h) for n, m, c, h in ((1, 1, ("none",), "be"), (2, 2, ("none",), "tensor"), (3, 2, ("none",), "be"), (3, 3, ("sc", 0), "both"), (2, 3, ("sc", 0), "be"))])
def lcss_path(W, n, m, con, how):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, ok = constraint(n, m, con)
    q, v = M.lcss_path(a, b, eps=0.75, **kw)
    x, k = arg(W, how, a, b)
    p, t = M.lcss_path(x[0], x[1], eps=0.75, **kw, **k)
    W.check("same similarity", W.eq(num(W, t), v))
    p = [(int(i), int(j)) for i, j in p]
    W.check("as many matches", len(p) == len(q))
    W.check("strictly increasing", all(i < r and j < s for (i, j), (r, s) in zip(p, p[1:])))
    W.check("matches are close", W.and_(*[W.le(W.abs(a[i, 0] - b[j, 0]), W.c(Fraction(3, 4))) for i, j in p]))
    if ok:
        W.check("matches are admissible", all(ok(i, j) for i, j in p))


@cases(CASES, [dict(fn=f, metric=mt, con=c, how=h) for f in ("dtw_path_from_metric", "frechet_path_from_metric", "lcss_path_from_metric")
               for mt, c, h in (("precomputed", ("none",), "tensor"), ("precomputed", ("none",), "be"), ("precomputed", ("sc", 0), "tensor"), ("precomputed", ("sc", 0), "be"),
                                ("precomputed", ("sc", 0), "both"), ("euclidean", ("none",), "be"), ("sqeuclidean", ("sc", 0), "tensor"), ("callable", ("none",), "be"))])
def from_metric(W, fn, metric, con, how):
    M = W.mod()
    n, m = (3, 3) if con[0] != "none" else (2, 3)
    kw, ok = constraint(n, m, con)
    if fn.startswith("lcss"):
        kw["eps"] = 0.75
    if metric == "precomputed":
        D = W.reals("D", n, m, lo=0)
        snap = snapshot(W, D)
        C = [[D[i, j] for j in range(m)] for i in range(n)]
        q, v = getattr(M, fn)(*copy(W, D), metric="precomputed", **kw)
        x, k = arg(W, how, D)
        p, t = getattr(M, fn)(x[0], metric="precomputed", **kw, **k)
        unchanged(W, "precomputed matrix unmodified", snap, D)
    else:
        a, b = series(W, "a", n), series(W, "b", m)
        f = metric if metric != "callable" else (lambda u, w: 2 * (u[0] - w[0]) * (u[0] - w[0]))
        C = [[(y * y if metric == "sqeuclidean" else 2 * y * y if metric == "callable" else W.abs(y)) for y in (a[i, 0] - b[j, 0] for j in range(m))] for i in range(n)]
        q, v = getattr(M, fn)(a, b, metric=f, **kw)
        x, k = arg(W, how, a, b)
        p, t = getattr(M, fn)(x[0], x[1], metric=f, **kw, **k)
    t = num(W, t)
    W.check("same value", W.eq(t, v))
    if fn.startswith("lcss"):
        W.check("as many matches", len(p) == len(q))
        W.check("matches are close", W.and_(*[W.le(C[int(i)][int(j)], W.c(Fraction(3, 4))) for i, j in p]))
        return
    check_path(W, p, t, n, m, (lambda r: path_cost(W, C, r)) if fn.startswith("dtw") else (lambda r: W.max([C[i][j] for i, j in r])))


@cases(CASES, [dict(n=n, m=m, L=L, how=h) for n, m, L, h in ((1, 2, 2, "be"), (2, 2, 2, "tensor"), (2, 2, 3, "be"), (3, 2, 3, "both"), (2, 3, 4, "be"))])
def limited(W, n, m, L, how):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    v = M.dtw_limited_warping_length(a, b, max_length=L)
    x, k = arg(W, how, a, b)
    same_value(W, "limited warping length", M.dtw_limited_warping_length(x[0], x[1], max_length=L, **k), v)
    p, t = M.dtw_path_limited_warping_length(x[0], x[1], max_length=L, **k)
    same_value(W, "path value", t, v)
    C = cost_matrix(W, a, b)
    p = check_path(W, p, v * v, n, m, lambda r: path_cost(W, C, r))
    W.check("no longer than allowed", len(p) <= L)


@cases(CASES, [dict(n=n, m=m, d=d, how=h) for n, m, d, h in ((1, 2, 1, "be"), (1, 3, 2, "tensor"), (2, 2, 1, "be"), (2, 3, 1, "both"), (3, 2, 1, "be"))])
def subsequence(W, n, m, d, how):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    q, v = M.dtw_subsequence_path(a, b)
    x, k = arg(W, how, a, b)
    same_array(W, "cost matrix", M.subsequence_cost_matrix(x[0], x[1], **k), M.subsequence_cost_matrix(a, b))
    p, t = M.dtw_subsequence_path(x[0], x[1], **k)
    same_value(W, "value", t, v)
    C = cost_matrix(W, a, b)
    p = [(int(i), int(j)) for i, j in p]
    W.check("starts at the first and ends at the last position of the query", p[0][0] == 0 and p[-1][0] == n - 1)
    W.check("admissible steps", all((r - i, s - j) in ((1, 0), (0, 1), (1, 1)) for (i, j), (r, s) in zip(p, p[1:])))
    W.check("attains the value", W.eq(path_cost(W, C, p), v * v))


@cases(CASES, [dict(n=n, d=d, r=r, how=h) for n, d, r, h in ((1, 1, 1, "be"), (3, 1, 0, "tensor"), (4, 2, 1, "be"), (5, 1, 2, "both"), (3, 1, 7, "be"))])
def envelope(W, n, d, r, how):
    M = W.mod()
    a = series(W, "a", n, d)
    lo, up = M.lb_envelope(a, radius=r)
    x, k = arg(W, how, a)
    tl, tu = M.lb_envelope(x[0], radius=r, **k)
    same_array(W, "lower envelope", tl, lo)
    same_array(W, "upper envelope", tu, up)


@cases(CASES, [dict(fn=f) for f in ("dtw_accumulated_matrix", "frechet_accumulated_matrix")])
def accumulated(W, fn):
    M = W.mod()
    a, b = series(W, "a", 3), series(W, "b", 2)
    for con in (dict(), dict(global_constraint=2, sakoe_chiba_radius=0)):
        same_array(W, "accumulated costs", getattr(M, fn)(a, b, M.compute_mask(3, 2, be="pytorch", **con), be="pytorch"),
                   getattr(M, fn)(a, b, M.compute_mask(3, 2, **con)))


@cases(CASES, [dict(n=n, m=m) for n in (1, 2, 3, 5, 8) for m in (1, 3, 4, 7)])
def masks(W, n, m):
    M = W.mod()
    for r in (0, 1, 2, 9):
        same_array(W, "sakoe-chiba", M.sakoe_chiba_mask(n, m, r, be="pytorch"), M.sakoe_chiba_mask(n, m, r))
        same_array(W, "inferred", M.compute_mask(n, m, sakoe_chiba_radius=r, be="pytorch"), M.compute_mask(n, m, sakoe_chiba_radius=r))
    for s in (1.0, 1.5, 2.0, 3.25, 4):
        e = []
        for be in ({}, dict(be="pytorch")):
            try:
                e.append(M.itakura_mask(n, m, s, **be))
            except RuntimeWarning:
                e.append(None)
        if e[0] is None or e[1] is None:
            W.check("infeasible slopes agree", e[0] is None and e[1] is None)
        else:
            same_array(W, "itakura", e[1], e[0])


CD = ["cdist_dtw", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_gak", "cdist_frechet"]


@cases(CASES, [dict(fn=f, sa=sa, sb=sb, jobs=j, con=("none",), how=h) for f in CD for sa, sb, j, h in (((2, 1, 2), None, None, "be"), ((2, 2), (1, 2), None, "tensor"), ((2, 1), (2,), 2, "both"), ((1, 2), None, 2, "be"))]
       + [dict(fn=f, sa=(3, 3), sb=sb, jobs=None, con=("sc", 0), how="be") for f in CD if f != "cdist_gak" for sb in (None, (3,))], path_timeout=60)
def cdist(W, fn, sa, sb, jobs, con, how):
    M = W.mod()
    A = dataset(W, "a", sa)
    B = None if sb is None else dataset(W, "b", sb)
    kw, _ = constraint(3, 3, con)
    if fn.startswith("cdist_soft"):
        kw["gamma"] = 0.5
    snap = snapshot(W, A)
    v = getattr(M, fn)(A, B, n_jobs=jobs, **kw)
    x, k = arg(W, how, A) if B is None else arg(W, how, A, B)
    t = getattr(M, fn)(x[0], None if B is None else x[1], n_jobs=jobs, **kw, **k)
    same_array(W, fn, t, v)
    unchanged(W, "dataset unmodified", snap, A)


@cases(CASES, [dict(n=n, T=T, d=d, how=h, ns=ns) for n, T, d, h, ns in ((2, 2, 1, "be", 3), (3, 1, 1, "tensor", 3), (2, 2, 1, "be", 4), (2, 2, 2, "both", 2))])
def bandwidth(W, n, T, d, how, ns):
    M = W.mod()
    A = W.reals("A", n, T, d)
    v = M.sigma_gak(A, n_samples=ns, random_state=W.rng("r", script=(0, 1, 2, 3)))
    x, k = arg(W, how, A)
    same_value(W, "sigma_gak", M.sigma_gak(x[0], n_samples=ns, random_state=W.rng("r", script=(0, 1, 2, 3)), **k), v)
    g = M.gamma_soft_dtw(x[0], n_samples=ns, random_state=W.rng("r", script=(0, 1, 2, 3)), **k)
    same_value(W, "gamma_soft_dtw", g, 2 * v * v)


@cases(CASES, [dict(how=h, backend=c, jac=j) for h in ("be", "tensor") for c in (False, True) for j in (False, True)], path_timeout=60)
def objects(W, how, backend, jac):
    """SquaredEuclidean and SoftDTW"""
    M = W.mod()
    n, m, d = 2, 3 if not jac else 2, 1 if not jac else 2
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    x, k = arg(W, how, a, b)
    D, E = M.SquaredEuclidean(a, b), M.SquaredEuclidean(x[0], x[1], compute_with_backend=backend, **k)
    same_array(W, "squared distances", E.compute(), D.compute())
    if jac:
        G = W.reals("g", n, m)
        same_array(W, "jacobian product", E.jacobian_product(W.tensor(G)), D.jacobian_product(G))
        return
    s, r = M.SoftDTW(D, gamma=0.5), M.SoftDTW(E, gamma=0.5, compute_with_backend=backend, **k)
    same_value(W, "value", r.compute(), s.compute())
    same_array(W, "gradient", r.grad(), s.grad())


@cases(CASES, [dict(kind=kd, how=h) for kd in ("series", "dataset", "ragged") for h in ("be", "tensor")])
def containers(W, kind, how):
    """to_time_series and to_time_series_dataset"""
    U = W.mod("tslearn.utils")
    if kind == "series":
        a = padded(W, W.reals("a", 3, 2), 2)
        x, k = arg(W, how, a)
        for rm in (False, True):
            same_array(W, "to_time_series", U.to_time_series(x[0], remove_nans=rm, **k), U.to_time_series(a, remove_nans=rm))
        return
    if kind == "dataset":
        a = dataset(W, "a", (3, 2), 2)
        x, k = arg(W, how, a)
        same_array(W, "to_time_series_dataset", U.to_time_series_dataset(x[0], **k), U.to_time_series_dataset(a))
        return
    a = [W.reals("a", 2, 1), W.reals("b", 3, 1), W.reals("c", 1, 1)]
    x, k = arg(W, how, *a)
    same_array(W, "ragged dataset", U.to_time_series_dataset(x, be="pytorch"), U.to_time_series_dataset(a))


@cases(CASES, [dict(b=b, n=n, m=m, d=d, con=c, norm=nm, g=g) for b, n, m, d, c, nm, g in (
    (1, 1, 2, 1, ("none",), False, 1.0), (2, 2, 2, 2, ("none",), False, 0.5), (1, 2, 3, 1, ("none",), False, 2.0), (2, 2, 2, 1, ("none",), True, 0.5),
    (1, 3, 3, 1, ("sc", 0), False, 0.5), (1, 3, 2, 1, ("none",), True, 1.0), (1, 4, 4, 1, ("ita", 2), False, 1.0), (2, 3, 3, 1, ("sc", 0), True, 1.0))], path_timeout=60)
def loss(W, b, n, m, d, con, norm, g):
    """SoftDTWLossPyTorch: one loss per pair, the (normalised) soft-DTW"""
    M = W.mod()
    X, Y = W.reals("x", b, n, d), W.reals("y", b, m, d)
    kw, _ = constraint(n, m, con)
    f = M.soft_dtw_normalized if norm else M.soft_dtw
    snap = snapshot(W, X, Y)
    L = M.SoftDTWLossPyTorch(gamma=g, normalize=norm, **kw)(W.tensor(X, share=True), W.tensor(Y, share=True))
    W.check("one loss per pair", tuple(int(q) for q in L.shape) == (b,))
    for i in range(b):
        W.check("loss %d" % i, W.eq(num(W, L[i]), f(X[i], Y[i], gamma=g, **kw)))
    unchanged(W, "inputs unmodified", snap, X, Y)


@cases(CASES, [dict(b=b, n=n, m=m, con=c, g=g) for b, n, m, c, g in ((1, 1, 1, ("none",), 1.0), (2, 2, 2, ("none",), 1.0), (1, 2, 3, ("none",), 2.0), (1, 3, 2, ("none",), 0.5),
                                                                  (1, 3, 3, ("sc", 0), 1.0), (2, 2, 3, ("sc", 0), 1.0), (1, 4, 4, ("ita", 2), 1.0))], path_timeout=60)
def loss_gradient(W, b, n, m, con, g):
    """the gradient of each loss with respect to its distance matrix is the soft alignment, scaled by the incoming gradient"""
    M = W.mod()
    X, Y = W.reals("x", b, n, 1, lo=-2, hi=2), W.reals("y", b, m, 1, lo=-2, hi=2)
    w = W.reals("w", b, lo=-2, hi=2)
    kw, _ = constraint(n, m, con)
    D = W.arr([[[(X[k, i, 0] - Y[k, j, 0]) * (X[k, i, 0] - Y[k, j, 0]) for j in range(m)] for i in range(n)] for k in range(b)])
    leaf = W.torch_leaf(D)
    L = M.SoftDTWLossPyTorch(gamma=g, dist_func=lambda x, y: leaf, **kw)(W.tensor(X), W.tensor(Y))
    G = W.torch_backward(L, W.tensor(w), leaf)
    for k in range(b):
        E, v = M.soft_dtw_alignment(X[k], Y[k], gamma=g, **kw)
        W.check("loss %d" % k, W.eq(num(W, L[k]), v))
        for i in range(n):
            for j in range(m):
                W.check("gradient %d at %d, %d" % (k, i, j), close(W, num(W, G[k, i, j]), w[k] * E[i, j]))


def close(W, a, b):
    """the module keeps its accumulated costs in single precision"""
    return W.eq(a, b) if W.symbolic else W.le(W.abs(float(a) - float(b)), 1e-4)
