"""M09: cross-distance matrices hold exactly the pairwise values."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]
ASSUMPTIONS = ["ctw: scikit-learn's CCA is replaced by an arbitrary linear projection that depends only on the data it is fitted on"]

PAIR = {
    "dtw": ("cdist_dtw", "dtw"), "frechet": ("cdist_frechet", "frechet"), "soft_dtw": ("cdist_soft_dtw", "soft_dtw"), "gak": ("cdist_gak", "gak"),
    "soft_dtw_normalized": ("cdist_soft_dtw_normalized", None),
}
CON = {"none": {}, "sc": dict(global_constraint="sakoe_chiba", sakoe_chiba_radius=0), "sc?": dict(sakoe_chiba_radius=0), "scdef": dict(global_constraint="sakoe_chiba"),
       "ita": dict(global_constraint="itakura", itakura_max_slope=2.5), "itadef": dict(global_constraint="itakura"), "ita?": dict(itakura_max_slope=2.5)}


def pair(W, M, name, a, b, kw):
    kw = {k: v for k, v in kw.items() if k != "n_jobs"}
    if name == "soft_dtw_normalized":
        f = lambda x, y: M.soft_dtw(x, y, **kw)
        return f(a, b) - (f(a, a) + f(b, b)) / 2
    return getattr(M, PAIR[name][1])(a, b, **kw)


def run(W, name, s1, s2, con, jobs, params=None, d=1, T=None):
    M = W.mod()
    kw = dict(CON[con])
    kw.update(params or {})
    X = dataset(W, "x", s1, d, T)
    Y = dataset(W, "y", s2, d, T) if s2 else None
    snap = snapshot(W, X, Y if s2 else X)
    args = (X,) if Y is None else (X, Y)
    A = getattr(M, PAIR[name][0])(*args, n_jobs=jobs, **kw)
    n1, n2 = len(s1), len(s2 or s1)
    W.check("shape", W.shape(A) == (n1, n2))
    Z, sz = (Y, s2) if s2 else (X, s1)
    for i in range(n1):
        for j in range(n2):
            a, b = X[i, :s1[i]], Z[j, :sz[j]]
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], pair(W, M, name, a, b, kw)))
    unchanged(W, "datasets unmodified", snap, X, Y if s2 else X)
    return A


NAMES = ["dtw", "frechet", "soft_dtw", "gak", "soft_dtw_normalized"]


@cases(CASES, [dict(name=n, s1=s1, s2=s2, jobs=j) for n in NAMES for s1, s2, j in (((2, 2), (2, 2, 2), None), ((3, 2), (1, 3), None), ((2, 3, 1), None, None), ((2, 3), (2,), 2), ((3, 2), None, 2))],
       [dict(name=n, s1=s1, s2=s2, jobs=j) for n in NAMES for s1, s2, j in (((3, 4), (4, 2), None), ((3, 3, 2, 4), None, 3))])
def entries(W, name, s1, s2, jobs):
    W.schedule(jobs is not None)
    g = {}
    if name.startswith("soft_dtw"):
        g = dict(gamma=W.c(Fraction(1, 2)))
    if name == "gak":
        g = dict(sigma=W.c(Fraction(3, 2)))
    run(W, name, s1, s2, "none", jobs, g)


@cases(CASES, [dict(name=n, s1=(3, 3), s2=s2, con=c) for n in ("dtw", "frechet", "soft_dtw", "soft_dtw_normalized") for s2 in ((3, 3), None) for c in ("sc", "sc?", "scdef", "itadef", "ita", "ita?")]
       + [dict(name=n, s1=(4, 3), s2=(3,), con="sc") for n in ("dtw", "frechet")] + [dict(name="dtw", s1=(3, 4), s2=None, con="sc")])
def constrained(W, name, s1, s2, con):
    run(W, name, s1, s2, con, None, {})


@cases(CASES, [dict(name=n, jobs=j, s2=s2) for n in ("soft_dtw", "soft_dtw_normalized") for j in (None, 2) for s2 in ((2,), None)])
def gamma_zero(W, name, jobs, s2):
    """gamma = 0: the hard minimum"""
    M = W.mod()
    X = dataset(W, "x", (2, 3))
    Y = dataset(W, "y", s2) if s2 else None
    A = getattr(M, PAIR[name][0])(X, *(() if Y is None else (Y,)), gamma=0.0, n_jobs=jobs)
    for i, n in enumerate((2, 3)):
        for j, m in enumerate(s2 or (2, 3)):
            b = (Y if s2 else X)[j, :m]
            ref = M.dtw(X[i, :n], b)
            W.check("entry (%d,%d) is the dtw or its square" % (i, j), W.or_(W.eq(A[i, j], ref), W.eq(A[i, j], ref * ref)))
            W.check("entry (%d,%d) equals soft_dtw with gamma 0" % (i, j), W.eq(A[i, j], M.soft_dtw(X[i, :n], b, gamma=0.0)))


@cases(CASES, [dict(name=n, s2=s2) for n in ("dtw", "gak", "frechet", "soft_dtw") for s2 in ((2,), None)])
def multivariate(W, name, s2):
    run(W, name, (2, 1), s2, "none", None, {}, d=2)


@cases(CASES, [dict(name=n, n1=9, n2=n2, jobs=j) for n in ("dtw", "frechet") for n2 in (None, 5) for j in (None, 4)])
def many(W, name, n1, n2, jobs):
    """more series than any worker count, fixed values plus one symbolic series"""
    M = W.mod()
    W.schedule(jobs is not None)
    rows = [mixed(W, "x%d" % i, 3, 1, (1,) if i == 4 else (), 10 + i) for i in range(n1)]
    cols = rows if n2 is None else [mixed(W, "y%d" % i, 3, 1, (), 40 + i) for i in range(n2)]
    X = W.arr([[[v for v in r] for r in a] for a in rows]).reshape(n1, 3, 1)
    args = (X,) if n2 is None else (X, W.arr([[[v for v in r] for r in a] for a in cols]).reshape(n2, 3, 1))
    A = getattr(M, PAIR[name][0])(*args, n_jobs=jobs)
    f = getattr(M, PAIR[name][1])
    for i, a in enumerate(rows):
        for j, b in enumerate(cols):
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], f(a, b)))


@cases(CASES, [dict(n=n, n2=n2, d=d) for n, n2, d in ((2, 2, 1), (3, 2, 1), (3, None, 1), (2, 1, 2), (1, 2, 1), (2, None, 2))])
def cross_correlation(W, n, n2, d):
    """cdist_normalized_cc: largest normalised cross-correlation of each pair"""
    M = W.mod()
    X = W.reals("x", 2, n, d)
    Y = X if n2 is None else W.reals("y", n2, n, d)
    from importlib import import_module
    ncc = import_module("tslearn.metrics.cycc").normalized_cc
    neg = lambda k: W.arr([-1.0] * k)
    A = M.cdist_normalized_cc(X, Y, norms1=neg(2), norms2=neg(len(Y)), self_similarity=n2 is None)
    for i in range(2):
        for j in range(len(Y)):
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], W.max(W.lst(ncc(X[i], Y[j], norm1=-1.0, norm2=-1.0)))))


@cases(CASES, [dict(s1=(2, 2), s2=(2,), d=1, jobs=None), dict(s1=(2, 2), s2=None, d=1, jobs=2, it=1), dict(s1=(2, 3), s2=None, d=1, jobs=2, it=1), dict(s1=(2,), s2=(2, 2), d=2, jobs=None), dict(s1=(3,), s2=(3,), d=1, jobs=None, con="sc"), dict(s1=(3,), s2=(2,), d=1, jobs=None, it=1)])
def ctw(W, s1, s2, d, jobs, con="none", it=100):
    from .M14 import cca_hook, fitted
    M = W.mod()
    W.schedule(jobs is not None)
    cca_hook(W)
    X = dataset(W, "x", s1, d)
    Y = dataset(W, "y", s2, d) if s2 else X
    kw = dict(CON[con], max_iter=it)
    A = fitted(W, lambda: M.cdist_ctw(X, *((Y,) if s2 else ()), n_jobs=jobs, **kw))
    for i, n in enumerate(s1):
        for j, m in enumerate(s2 or s1):
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], M.ctw(X[i, :n], Y[j, :m], **kw)))
