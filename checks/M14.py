"""M14: CTW's score is that of the alignment it returns."""
from symts.harness import cases
from .common import *

CASES = []
ASSUMPTIONS = ["scikit-learn's CCA is replaced by an arbitrary affine projection per fit that depends only on the data it is fitted on; its own optimality is not claimed"]


def cca_hook(W):
    if not W.symbolic:
        return
    cache = {}

    def h(cca, X, Y):
        k = cca.n_components
        key = tuple(map(repr, W.flat(X))) + ("|",) + tuple(map(repr, W.flat(Y))) + (W.shape(X), W.shape(Y), k)
        if key not in cache:
            n = len(cache)
            cache[key] = [(W.reals("cca%d%s" % (n, nm), A.shape[1], k), W.reals("ccb%d%s" % (n, nm), k)) for nm, A in (("x", X), ("y", Y))]
        (P, p), (Q, q) = cache[key]
        cca._tx = lambda a: a @ P + p
        cca._ty = lambda a: a @ Q + q
    W.hook("cca", h)


def fitted(W, f):
    """run f; inputs on which scikit-learn's CCA itself cannot be fitted (degenerate data) are skipped on replay"""
    if W.symbolic:
        return f()
    try:
        return f()
    except ValueError as e:
        W.assume("NaN" not in str(e) and "infs" not in str(e))
        raise


def embed(W, a, k):
    """the series on the first k coordinates (zero when it has fewer)"""
    n, d = W.shape(a)
    return [[a[i, c] if c < d else 0 for c in range(k)] for i in range(n)]


def costs(W, P, Q):
    return [[W.sqdist(p, q) for q in Q] for p in P]


QUICK = [dict(n=n, m=m, d1=d1, d2=d2, k=k, it=it, con=con) for n, m, d1, d2, k, it, con in (
    (2, 2, 1, 1, None, 100, ("none",)), (3, 2, 1, 1, None, 2, ("none",)), (2, 3, 1, 1, 1, 1, ("none",)), (2, 2, 2, 1, None, 3, ("none",)), (2, 2, 1, 2, None, 2, ("none",)),
    (2, 2, 2, 2, None, 2, ("none",)), (2, 2, 2, 2, 1, 2, ("none",)), (1, 2, 1, 1, None, 2, ("none",)), (3, 3, 1, 1, None, 2, ("sc", 0)), (3, 3, 1, 1, None, 2, ("ita", 2)), (3, 3, 1, 1, None, 1, ("sc?", 1)))]


@cases(CASES, QUICK, [dict(n=3, m=3, d1=1, d2=1, k=None, it=4, con=("none",))])
def path(W, n, m, d1, d2, k, it, con):
    M = W.mod()
    cca_hook(W)
    a, b = series(W, "a", n, d1), series(W, "b", m, d2)
    kw, allowed = constraint(n, m, con)
    if k is not None:
        kw["n_components"] = k
    snap = snapshot(W, a, b)
    p, cca, s = fitted(W, lambda: M.ctw_path(a, b, max_iter=it, **kw))
    W.check("is a warping path", W.is_warping_path(p, n, m))
    W.check("admissible", all(allowed is None or allowed(int(i), int(j)) for i, j in p))
    W.check("score is nonnegative", W.le(0, s))
    kk = k or min(d1, d2)
    C0 = costs(W, embed(W, a, kk), embed(W, b, kk))
    ref0 = dp_dtw(W, C0, allowed)
    if it == 1:
        W.check("score without projection", W.eq(s * s, ref0))
        W.check("path cost without projection", W.eq(path_cost(W, C0, p), ref0))
    else:
        ta, tb = cca.transform(a, b)
        C1 = costs(W, pts(ta), pts(tb))
        c1 = path_cost(W, C1, p)
        W.check("path is optimal for the returned projection", W.eq(c1, dp_dtw(W, C1, allowed)))
        W.check("score belongs to an alignment met by the iteration", W.or_(W.eq(s * s, ref0), W.eq(s * s, c1)))
    W.check("ctw gives the score", W.eq(M.ctw(a, b, max_iter=it, **kw), s))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(it=it) for it in (2, 100)])
def score(W, it):
    M = W.mod()
    cca_hook(W)
    a, b = series(W, "a", 2), series(W, "b", 2)
    p, cca, s = fitted(W, lambda: M.ctw_path(a, b, max_iter=it))
    ta, tb = cca.transform(a, b)
    W.check("score is that of the returned path under the returned projection", W.eq(s * s, path_cost(W, costs(W, pts(ta), pts(tb)), p)))


@cases(CASES, [dict(p=1, q=0), dict(p=0, q=2)])
def padding(W, p, q):
    M = W.mod()
    cca_hook(W)
    a, b = series(W, "a", 2), series(W, "b", 2)
    A, B = padded(W, a, p) if p else a, padded(W, b, q) if q else b
    p1, c1, s1 = fitted(W, lambda: M.ctw_path(a, b))
    p2, c2, s2 = M.ctw_path(A, B)
    W.check("same path", [tuple(map(int, x)) for x in p1] == [tuple(map(int, x)) for x in p2])
    W.check("same score", W.eq(s1, s2))
    W.check("ctw ignores padding", W.eq(M.ctw(A, B), s1))
