"""M10: soft-DTW is the soft-minimum over all alignments."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
ASSUMPTIONS = ["exp and log are the exact real functions (no overflow or underflow); the DBL_MAX sentinel of the deprecated variants is infinity"]
SIZES = [(1, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3)]
BIG = [(4, 3), (4, 4), (3, 5)]


def gamma_of(W, g):
    return W.real("gamma", pos=True) if g == "any" else W.c(Fraction(g))


def cost_list(W, a, b, allowed=None):
    C = cost_matrix(W, a, b)
    return W.warping_paths(len(C), len(C[0]), allowed), C


def soft(W, a, b, g, allowed=None):
    """-g log sum over warping paths of exp(-cost / g)"""
    ps, C = cost_list(W, a, b, allowed)
    return -g * W.log(W.sum([W.exp(W.div(-path_cost(W, C, p), g)) for p in ps]))


@cases(CASES, [dict(n=n, m=m, d=d, g=g) for n, m in SIZES for d in (1, 2) if n * m * d <= 9 for g in ("any", "1/2")], [dict(n=n, m=m, d=1, g="any") for n, m in BIG])
def value(W, n, m, d, g):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    g = gamma_of(W, g)
    snap = snapshot(W, a, b)
    v = M.soft_dtw(a, b, gamma=g)
    W.check("value is the soft minimum over all warping paths", W.eq(v, soft(W, a, b, g)))
    ps, C = cost_list(W, a, b)
    for k, p in enumerate(ps):
        W.check("not above the cost of path %d" % k, W.le(v, path_cost(W, C, p)))
    W.check("symmetric", W.eq(M.soft_dtw(b, a, gamma=g), v))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, con=c) for n, m in ((3, 3), (2, 3), (3, 2), (4, 3)) for c in (("sc", 0), ("sc?", 1), ("scdef",), ("ita", 2), ("ita?", 2), ("itadef",))])
def constrained(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, allowed = constraint(n, m, con)
    if not connected(n, m, allowed):
        W.check("admissible cells do not connect", True)
        return
    g = gamma_of(W, "any")
    W.check("value over the admissible paths", W.eq(M.soft_dtw(a, b, gamma=g, **kw), soft(W, a, b, g, allowed)))
    E, v = M.soft_dtw_alignment(a, b, gamma=g, **kw)
    W.check("alignment value", W.eq(v, soft(W, a, b, g, allowed)))
    expected_use(W, E, a, b, g, allowed)
    z = M.soft_dtw_normalized(a, b, gamma=g, **kw)
    ra, rb = constraint(n, n, con)[1], constraint(m, m, con)[1]
    W.check("normalized value", W.eq(z, soft(W, a, b, g, allowed) - (soft(W, a, a, g, ra) + soft(W, b, b, g, rb)) / 2))


def expected_use(W, E, a, b, g, allowed=None):
    ps, C = cost_list(W, a, b, allowed)
    w = [W.exp(W.div(-path_cost(W, C, p), g)) for p in ps]
    Z = W.sum(w)
    n, m = len(C), len(C[0])
    W.check("alignment shape", W.shape(E) == (n, m))
    for i in range(n):
        for j in range(m):
            W.check("expected use of (%d,%d)" % (i, j), W.eq(E[i, j], W.div(W.sum([x for x, p in zip(w, ps) if (i, j) in p]), Z)))


@cases(CASES, [dict(n=n, m=m, d=d) for n, m, d in ((1, 1, 1), (1, 3, 1), (3, 1, 1), (2, 2, 2), (3, 2, 1), (2, 3, 1), (3, 3, 1))], [dict(n=3, m=4, d=1), dict(n=4, m=3, d=1)])
def alignment(W, n, m, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    g = gamma_of(W, "any")
    snap = snapshot(W, a, b)
    E, v = M.soft_dtw_alignment(a, b, gamma=g)
    W.check("value", W.eq(v, soft(W, a, b, g)))
    expected_use(W, E, a, b, g)
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, con=c) for n, m in ((1, 2), (2, 2), (3, 2), (3, 3)) for c in (("none",), ("sc", 1), ("ita", 2))])
def gamma_zero(W, n, m, con):
    M = W.mod()
    a, b = series(W, "a", n), series(W, "b", m)
    kw, allowed = constraint(n, m, con)
    if allowed is not None and not connected(n, m, allowed):
        W.check("admissible cells do not connect", True)
        return
    ref = dp_dtw(W, cost_matrix(W, a, b), allowed)
    W.check("soft_dtw with gamma 0 is the squared dtw", W.eq(M.soft_dtw(a, b, gamma=0.0, **kw), ref))
    W.check("normalized with gamma 0", W.eq(M.soft_dtw_normalized(a, b, gamma=0, **kw), ref))
    E, v = M.soft_dtw_alignment(a, b, gamma=0.0, **kw)
    W.check("alignment value", W.eq(v, ref))
    cells = [(i, j) for i in range(n) for j in range(m) if W.truth(W.eq(E[i, j], 1))]
    W.check("0/1 entries", W.and_(*[W.or_(W.eq(E[i, j], 0), W.eq(E[i, j], 1)) for i in range(n) for j in range(m)]))
    W.check("is a warping path", W.is_warping_path(cells, n, m))
    W.check("of that cost", W.eq(path_cost(W, cost_matrix(W, a, b), cells), ref))


@cases(CASES, [dict(n=n, m=m, d=d) for n, m, d in ((1, 1, 1), (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2))])
def normalized(W, n, m, d):
    M = W.mod()
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    g = gamma_of(W, "any")
    v = M.soft_dtw_normalized(a, b, gamma=g)
    W.check("sd(a,b) - (sd(a,a) + sd(b,b)) / 2", W.eq(v, soft(W, a, b, g) - (soft(W, a, a, g) + soft(W, b, b, g)) / 2))
    W.check("zero on itself", W.eq(M.soft_dtw_normalized(a, a, gamma=g), 0))


@cases(CASES, [dict(p=p, q=q) for p, q in ((1, 0), (0, 1), (2, 1))])
def padding(W, p, q):
    """trailing NaN rows are ignored"""
    M = W.mod()
    a, b = series(W, "a", 2), series(W, "b", 3)
    g = gamma_of(W, "any")
    A, B = padded(W, a, p) if p else a, padded(W, b, q) if q else b
    W.check("value", W.eq(M.soft_dtw(A, B, gamma=g), soft(W, a, b, g)))
    E, v = M.soft_dtw_alignment(A, B, gamma=g)
    W.check("alignment value", W.eq(v, soft(W, a, b, g)))
    expected_use(W, E, a, b, g)


@cases(CASES, [dict(s1=(2, 3), s2=(2,), g=g, norm=z) for g in ("any",) for z in (0, 1)] + [dict(s1=(3, 1, 2), s2=None, g="any", norm=z) for z in (0, 1)])
def matrix(W, s1, s2, g, norm):
    M = W.mod()
    X = dataset(W, "x", s1)
    Y = dataset(W, "y", s2) if s2 else X
    g = gamma_of(W, g)
    f = M.cdist_soft_dtw_normalized if norm else M.cdist_soft_dtw
    A = f(X, *((Y,) if s2 else ()), gamma=g)
    for i, n in enumerate(s1):
        for j, m in enumerate(s2 or s1):
            a, b = X[i, :n], Y[j, :m]
            ref = soft(W, a, b, g)
            if norm:
                ref = ref - (soft(W, a, a, g) + soft(W, b, b, g)) / 2
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], ref))


@cases(CASES, [dict(n=n, m=m) for n, m in ((1, 2), (2, 2), (3, 2), (2, 3))])
def deprecated_variant(W, n, m):
    """the functions still exported by tslearn.metrics.softdtw_variants"""
    V = import_module("tslearn.metrics.softdtw_variants")
    a, b = series(W, "a", n), series(W, "b", m)
    g = gamma_of(W, "1/2")
    W.check("value", W.eq(V.soft_dtw(a, b, gamma=g), soft(W, a, b, g)))
    E, v = V.soft_dtw_alignment(a, b, gamma=g)
    W.check("alignment value", W.eq(v, soft(W, a, b, g)))
    expected_use(W, E, a, b, g)


@cases(CASES, [dict(n=n, m=m, fa=fa, fb=fb) for n, m, fa, fb in ((6, 6, (2,), ()), (7, 5, (), (0, 4)), (5, 8, (4,), ()))])
def longer(W, n, m, fa, fb):
    """longer series with some symbolic points: soft minimum as a product-sum recurrence"""
    M = W.mod()
    a, b = mixed(W, "a", n, 1, fa, 3), mixed(W, "b", m, 1, fb, 4)
    g = W.c(Fraction(2))
    C = cost_matrix(W, a, b)
    K = {}
    for i in range(n):
        for j in range(m):
            k = W.exp(W.div(-C[i][j], g))
            K[i, j] = k if (i, j) == (0, 0) else k * W.sum([K[q] for q in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if q in K])
    W.check("value", W.eq(M.soft_dtw(a, b, gamma=g), -g * W.log(K[n - 1, m - 1])))
