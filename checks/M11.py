"""M11: soft-DTW gradients are the derivatives of soft-DTW."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
ASSUMPTIONS = ["exp and log are the exact real functions; the DBL_MAX sentinel of the recursion is infinity",
               "the reference derivative of -g log sum_p exp(-cost(p)/g) with respect to an entry of D is the share of the paths that use the entry (calculus)"]
SIZES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3)]


def V(W):
    return import_module("tslearn.metrics.softdtw_variants")


def gamma_of(W, g):
    return W.real("gamma", pos=True) if g == "any" else W.c(Fraction(g))


def soft_and_use(W, C, g, allowed=None):
    """soft minimum of the path costs of C and the share of the paths through each cell"""
    n, m = len(C), len(C[0])
    ps = W.warping_paths(n, m, allowed)
    w = [W.exp(W.div(-path_cost(W, C, p), g)) for p in ps]
    Z = W.sum(w)
    return -g * W.log(Z), [[W.div(W.sum([x for x, p in zip(w, ps) if (i, j) in p]), Z) for j in range(m)] for i in range(n)]


@cases(CASES, [dict(n=n, m=m, g=g) for n, m in SIZES for g in ("any", "1/2")], [dict(n=4, m=3, g="any"), dict(n=3, m=4, g="any")])
def from_matrix(W, n, m, g):
    """arbitrary cost matrix (negative costs included)"""
    g = gamma_of(W, g)
    D = W.reals("D", n, m)
    snap = snapshot(W, D)
    sd = V(W).SoftDTW(D, gamma=g)
    v = sd.compute()
    E = sd.grad()
    ref, use = soft_and_use(W, [[D[i, j] for j in range(m)] for i in range(n)], g)
    W.check("value is the soft minimum alignment cost", W.eq(v, ref))
    W.check("gradient shape", W.shape(E) == (n, m))
    for i in range(n):
        for j in range(m):
            W.check("derivative with respect to D[%d,%d]" % (i, j), W.eq(E[i, j], use[i][j]))
    unchanged(W, "cost matrix unmodified", snap, D)
    W.check("grad twice", W.all_eq(sd.grad(), E))
    W.check("compute again", W.eq(sd.compute(), v))


@cases(CASES, [dict()])
def grad_first(W):
    sd = V(W).SoftDTW(W.reals("D", 2, 2), gamma=1.0)
    W.check("grad before compute is refused", W.raises(sd.grad, ValueError) == "ValueError")


@cases(CASES, [dict(n=n, m=m, d=d) for n, m, d in ((1, 1, 1), (1, 3, 2), (2, 2, 1), (2, 3, 2), (3, 2, 1), (4, 3, 3))])
def squared(W, n, m, d):
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    E = W.reals("E", n, m)
    snap = snapshot(W, a, b, E)
    sq = V(W).SquaredEuclidean(a, b)
    D = sq.compute()
    W.check("shape", W.shape(D) == (n, m))
    for i in range(n):
        for j in range(m):
            W.check("cost (%d,%d)" % (i, j), W.eq(D[i, j], W.sqdist(pts(a)[i], pts(b)[j])))
    G = sq.jacobian_product(E)
    W.check("jacobian shape", W.shape(G) == (n, d))
    for i in range(n):
        for k in range(d):
            W.check("jacobian (%d,%d)" % (i, k), W.eq(G[i, k], W.sum([2 * E[i, j] * (a[i, k] - b[j, k]) for j in range(m)])))
    unchanged(W, "inputs unmodified", snap, a, b, E)


@cases(CASES, [dict(n=n, m=m, d=d) for n, m, d in ((1, 2, 1), (2, 1, 2), (2, 2, 1), (3, 2, 1), (2, 3, 1), (2, 2, 2))], [dict(n=3, m=3, d=1)])
def chained(W, n, m, d):
    """the documented use: SoftDTW on a SquaredEuclidean"""
    g = gamma_of(W, "any")
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    D = V(W).SquaredEuclidean(a, b)
    sd = V(W).SoftDTW(D, gamma=g)
    v = sd.compute()
    G = D.jacobian_product(sd.grad())
    ref, use = soft_and_use(W, cost_matrix(W, a, b), g)
    W.check("value", W.eq(v, ref))
    for i in range(n):
        for k in range(d):
            W.check("derivative with respect to point (%d,%d)" % (i, k), W.eq(G[i, k], W.sum([2 * use[i][j] * (a[i, k] - b[j, k]) for j in range(m)])))
    unchanged(W, "inputs unmodified", snap, a, b)


def recurrence(W, C, g):
    """forward/backward product sums: same quantities without listing the paths"""
    n, m = len(C), len(C[0])
    k = {(i, j): W.exp(W.div(-C[i][j], g)) for i in range(n) for j in range(m)}
    F, B = {}, {}
    for i in range(n):
        for j in range(m):
            F[i, j] = k[i, j] if (i, j) == (0, 0) else k[i, j] * W.sum([F[q] for q in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if q in F])
    for i in reversed(range(n)):
        for j in reversed(range(m)):
            B[i, j] = 1 if (i, j) == (n - 1, m - 1) else W.sum([k[q] * B[q] for q in ((i + 1, j), (i, j + 1), (i + 1, j + 1)) if q in B])
    Z = F[n - 1, m - 1]
    return -g * W.log(Z), [[W.div(F[i, j] * B[i, j], Z) for j in range(m)] for i in range(n)]


@cases(CASES, [dict(n=n, m=m, fa=fa, fb=fb) for n, m, fa, fb in ((4, 3, (2,), ()), (2, 6, (), (3,)), (6, 2, (0,), (1,)), (3, 4, (), (1, 3)))], [dict(n=3, m=5, fa=(1,), fb=())])
def longer(W, n, m, fa, fb):
    g = W.c(Fraction(2))
    a, b = mixed(W, "a", n, 1, fa, 3), mixed(W, "b", m, 1, fb, 4)
    sd = V(W).SoftDTW(V(W).SquaredEuclidean(a, b), gamma=g)
    v, E = sd.compute(), sd.grad()
    ref, use = recurrence(W, cost_matrix(W, a, b), g)
    W.check("value", W.eq(v, ref))
    for i in range(n):
        for j in range(m):
            W.check("derivative (%d,%d)" % (i, j), W.eq(E[i, j], use[i][j]))
