"""B02: Euclidean and soft-DTW barycenters optimise the stated objective."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .M11 import soft_and_use

CASES = []
ASSUMPTIONS = ["scipy.optimize.minimize (L-BFGS-B) is replaced by a stand-in that records the problem it is given and answers with arbitrary values; convergence of the optimiser is not claimed"]


def B():
    return import_module("tslearn.barycenters")


def weights_of(W, n, w):
    if w == "none":
        return None, [W.c(1)] * n
    if w == "wrong":  # documented: must be the same size as len(X)
        return None, [W.c(1)] * n
    ws = [W.real("w%d" % i, pos=True) for i in range(n)]
    return W.arr(ws), ws


@cases(CASES, [dict(n=n, t=t, d=d, w=w) for n, t, d in ((1, 2, 1), (2, 1, 1), (2, 3, 1), (3, 2, 2), (4, 3, 1)) for w in ("none", "sym")], [dict(n=6, t=4, d=2, w="sym")])
def euclidean(W, n, t, d, w):
    X = dataset(W, "x", (t,) * n, d)
    wa, ws = weights_of(W, n, w)
    snap = snapshot(W, X) + (snapshot(W, wa) if wa is not None else [])
    b = B().euclidean_barycenter(X, weights=wa) if wa is not None else B().euclidean_barycenter(X)
    W.check("shape", W.shape(b) == (t, d))
    tot = W.sum(ws)
    for i in range(t):
        for k in range(d):
            W.check("weighted mean at (%d,%d)" % (i, k), W.eq(b[i, k] * tot, W.sum([ws[q] * X[q, i, k] for q in range(n)])))
    if w == "sym":
        c = W.real("scale", pos=True)
        W.check("scaling all weights changes nothing", W.all_eq(B().euclidean_barycenter(X, weights=wa * c), b))
    unchanged(W, "inputs unmodified", snap, X, *([wa] if wa is not None else []))


class Res:
    def __init__(self, x, f):
        self.x, self.fun, self.success, self.nit, self.message, self.status = x, f, True, 1, "", 0


def record(W, cap, answer):
    """stand-in optimiser"""
    def h(fun, x0, args=(), method=None, jac=None, bounds=None, tol=None, options=None, **k):
        def fg(z):
            r = fun(z, *args)
            if jac is True:
                return r
            if callable(jac):
                return r, jac(z, *args)
            return r, None
        cap.append(dict(fg=fg, x0=x0, tol=tol, options=options))
        return Res(answer(W.shape(x0)), 0.0)
    W.hook("minimize", h)


Q = [dict(sizes=s, b=b, d=d, w=w, con=c, jobs=j) for s, b, d, w, c, j in (
    ((2,), 2, 1, "none", ("none",), None), ((2, 2), None, 1, "none", ("none",), None), ((2, 2), 2, 1, "sym", ("none",), None), ((2, 1), 2, 2, "sym", ("none",), None),
    ((2, 3), 3, 1, "sym", ("none",), None), ((2, 3), 1, 1, "none", ("none",), None), ((1, 3, 2), 2, 1, "sym", ("none",), 2), ((2, 2), None, 1, "sym", ("none",), 3),
    ((3, 3), 3, 1, "sym", ("sc", 0), None), ((3, 3), 3, 1, "none", ("sc?", 1), 2), ((3, 3), 3, 1, "sym", ("ita", 2), None), ((2, 3), 3, 1, "none", ("scdef",), None), ((3, 3), 3, 1, "sym", ("ita", 2), 2), ((3, 3), 3, 1, "none", ("ita?", 2), -1), ((3, 3), 3, 1, "sym", ("sc", 1), 4), ((3, 2), None, 1, "sym", ("none",), None))]


@cases(CASES, Q, [dict(sizes=(3, 3, 2), b=3, d=1, w="sym", con=("none",), jobs=None), dict(sizes=(3, 4), b=3, d=1, w="sym", con=("none",), jobs=2)])
def softdtw(W, sizes, b, d, w, con, jobs):
    W.schedule(jobs is not None)
    n = len(sizes)
    X = dataset(W, "x", sizes, d)
    wa, ws = weights_of(W, n, w)
    init = W.reals("init", b, d) if b else None
    bb = b or max(sizes)
    g = W.real("gamma", pos=True)
    kw = constraint(bb, sizes[0], con)[0]
    allowed = [constraint(bb, t, con)[1] for t in sizes]
    if not all(a is None or connected(bb, t, a) for a, t in zip(allowed, sizes)):
        W.check("admissible cells do not connect", True)
        return
    cap = []
    R = W.reals("res", bb * d)
    record(W, cap, lambda s: R)
    opt = [] if init is None else [init]
    arrs = [X] + opt + ([wa] if wa is not None else [])
    snap = snapshot(W, *arrs)
    z = B().softdtw_barycenter(X, gamma=g, weights=wa, init=init, max_iter=7, tol=0.25, n_jobs=jobs, **kw)
    W.check("one optimisation problem", len(cap) == 1)
    c = cap[0]
    W.check("iteration limit", int(c["options"]["maxiter"]) == 7)
    W.check("tolerance", W.eq(c["tol"], W.c(Fraction(1, 4))))
    W.check("result is the optimiser's answer", W.shape(z) == (bb, d) and W.all_eq(z, R))
    if init is not None:
        W.check("starts from init", W.all_eq(c["x0"], init))
    elif len(set(sizes)) == 1:
        W.check("starts from the weighted mean", W.all_eq(c["x0"], B().euclidean_barycenter(X, weights=wa)))
    else:
        W.check("starts with a full-length barycenter", len(W.flat(c["x0"])) == bb * d and not any(W.isnan(v) for v in W.flat(c["x0"])))
    Z = W.reals("z", bb * d)
    zs = snapshot(W, Z)
    for rep in (0, 1):
        f, G = c["fg"](Z)
        P = [[Z[i * d + k] for k in range(d)] for i in range(bb)]
        val, grad = [], [[[] for _ in range(d)] for _ in range(bb)]
        for q, t in enumerate(sizes):
            x = pts(X[q], t)
            C = [[W.sqdist(p, y) for y in x] for p in P]
            s, use = soft_and_use(W, C, g, allowed[q])
            val.append(ws[q] * s)
            for i in range(bb):
                for k in range(d):
                    grad[i][k].append(ws[q] * W.sum([2 * use[i][j] * (P[i][k] - x[j][k]) for j in range(t)]))
        W.check("objective (call %d)" % rep, W.eq(f, W.sum(val)))
        W.check("gradient size", len(W.flat(G)) == bb * d)
        Gf = W.flat(G)
        for i in range(bb):
            for k in range(d):
                W.check("gradient at (%d,%d) (call %d)" % (i, k, rep), W.eq(Gf[i * d + k], W.sum(grad[i][k])))
    unchanged(W, "point unmodified", zs, Z)
    unchanged(W, "inputs unmodified", snap, *arrs)


@cases(CASES, [dict(sizes=s, w=w, init=i) for s in ((2, 2), (3, 3, 3)) for w in ("none", "sym") for i in (0, 1)])
def no_iteration(W, sizes, w, init):
    X = dataset(W, "x", sizes)
    wa, ws = weights_of(W, len(sizes), w)
    I = W.reals("init", 2, 1) if init else None
    z = B().softdtw_barycenter(X, weights=wa, init=I, max_iter=0)
    W.check("without iterations the start is returned", W.all_eq(z, I if init else B().euclidean_barycenter(X, weights=wa)))


@cases(CASES, [dict(sizes=s, w=w) for s in ((2, 3), (4, 2), (1, 3), (5, 3)) for w in ("none", "sym")])
def default_start(W, sizes, w):
    """unequal lengths: the documented start is the weighted mean of the linearly interpolated series"""
    X = dataset(W, "x", sizes)
    wa, ws = weights_of(W, len(sizes), w)
    z = B().softdtw_barycenter(X, weights=wa, max_iter=0)
    T = max(sizes)
    W.check("length", W.shape(z) == (T, 1))
    tot = W.sum(ws)
    for i in range(T):
        vals = []
        for q, t in enumerate(sizes):
            pos = Fraction(i * (t - 1), T - 1)
            lo = min(int(pos), max(t - 2, 0))
            fr = pos - lo
            hi = min(lo + 1, t - 1)
            vals.append(ws[q] * (X[q, lo, 0] * W.c(1 - fr) + X[q, hi, 0] * W.c(fr)))
        W.check("start at %d" % i, W.eq(z[i, 0] * tot, W.sum(vals)))
