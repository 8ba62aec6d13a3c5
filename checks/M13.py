"""M13: normalised cross-correlation equals its time-domain definition."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
ASSUMPTIONS = ["numpy.fft is the exact discrete Fourier transform (products of spectra are circular correlations over the real numbers)",
               "the product of the norms is 0 or at least 1e-9 (the code treats smaller products as zero to avoid NaN)"]


def ncc(*a, **k):
    return import_module("tslearn.metrics.cycc").normalized_cc(*a, **k)


def norm2(W, a):
    return W.sum([x * x for x in W.flat(a)])


def corr(W, a, b, s):
    """sliding inner product at shift s: sum_t <a[t + s], b[t]>"""
    n, d = W.shape(a)
    return W.sum([a[t + s, k] * b[t, k] for t in range(n) if 0 <= t + s < n for k in range(d)] or [W.c(0)])


def regular(W, a, b):
    """both series non-zero and not tiny"""
    W.assume(W.le(W.c(Fraction(1, 10 ** 9)), W.sqrt(norm2(W, a)) * W.sqrt(norm2(W, b))))


def neg(W, n):
    return W.arr([-1.0] * n)


SH = [(1, 1), (1, 2), (2, 1), (3, 1), (2, 2), (4, 1), (5, 1), (3, 2)]


@cases(CASES, [dict(n=n, d=d, given=g) for n, d in SH for g in (0, 1)], [dict(n=n, d=d, given=g) for n, d in ((7, 1), (8, 1), (9, 1), (4, 3)) for g in (0, 1)])
def values(W, n, d, given):
    a, b = series(W, "a", n, d), series(W, "b", n, d)
    regular(W, a, b)
    snap = snapshot(W, a, b)
    na, nb = W.sqrt(norm2(W, a)), W.sqrt(norm2(W, b))
    c = ncc(a, b, norm1=na, norm2=nb) if given else ncc(a, b)
    W.check("one value per shift", W.shape(c) == (2 * n - 1,))
    for s in range(-(n - 1), n):
        W.check("shift %d" % s, W.eq(c[s + n - 1] * (na * nb), corr(W, a, b, s)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m) for n in (1, 2, 3) for m in ("b", "a", "both")])
def zero(W, n, m):
    z = W.arr([[W.c(0)]] * n)
    a, b = series(W, "a", n), series(W, "b", n)
    a, b = (z if m in ("a", "both") else a), (z if m in ("b", "both") else b)
    W.check("zero series correlate to zero", W.all_eq(ncc(a, b), [W.c(0)] * (2 * n - 1)))


@cases(CASES, [dict(n=n, d=d, n1=p, n2=q, given=g) for n, d, p, q in ((1, 1, 2, 1), (2, 1, 2, 1), (3, 1, 1, 2), (2, 2, 1, 1)) for g in (0, 1)])
def matrix(W, n, d, n1, n2, given):
    """cdist_normalized_cc: the best shift of every pair (shape-based distance is one minus it)"""
    M = W.mod()
    X, Y = dataset(W, "x", (n,) * n1, d), dataset(W, "y", (n,) * n2, d)
    for i in range(n1):
        for j in range(n2):
            regular(W, X[i], Y[j])
    nx, ny = [W.sqrt(norm2(W, X[i])) for i in range(n1)], [W.sqrt(norm2(W, Y[j])) for j in range(n2)]
    snap = snapshot(W, X, Y)
    A = M.cdist_normalized_cc(X, Y, norms1=W.arr(nx) if given else neg(W, n1), norms2=W.arr(ny) if given else neg(W, n2), self_similarity=False)
    W.check("shape", W.shape(A) == (n1, n2))
    for i in range(n1):
        for j in range(n2):
            v = A[i, j] * (nx[i] * ny[j])
            cs = [corr(W, X[i], Y[j], s) for s in range(-(n - 1), n)]
            W.check("entry (%d,%d) is attained" % (i, j), W.or_(*[W.eq(v, c) for c in cs]))
            W.check("entry (%d,%d) is the largest" % (i, j), W.and_(*[W.le(c, v) for c in cs]))
    unchanged(W, "inputs unmodified", snap, X, Y)


@cases(CASES, [dict(n=1, d=1), dict(n=2, d=1), dict(n=3, d=1), dict(n=2, d=2)])
def symmetric_matrix(W, n, d):
    M = W.mod()
    X = dataset(W, "x", (n,) * 2, d)
    for i, j in ((0, 0), (0, 1), (1, 1)):
        regular(W, X[i], X[j])
    A = M.cdist_normalized_cc(X, X, norms1=neg(W, 2), norms2=neg(W, 2), self_similarity=True)
    B = M.cdist_normalized_cc(X, X, norms1=neg(W, 2), norms2=neg(W, 2), self_similarity=False)
    for i in range(2):
        for j in range(2):
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], B[i, j]))


@cases(CASES, [dict(n=n, d=d, k=k, given=g) for n, d, k in ((1, 1, 1), (2, 1, 1), (3, 1, 1), (2, 2, 1), (2, 1, 2)) for g in (0, 1)], [dict(n=4, d=1, k=1, given=0), dict(n=3, d=2, k=1, given=1)])
def aligned(W, n, d, k, given):
    """y_shifted_sbd_vec: every series moved by a best shift, zeros shifted in"""
    M = W.mod()
    ref, X = series(W, "r", n, d), dataset(W, "x", (n,) * k, d)
    for i in range(k):
        regular(W, ref, X[i])
    snap = snapshot(W, ref, X)
    nr, nx = W.sqrt(norm2(W, ref)), [W.sqrt(norm2(W, X[i])) for i in range(k)]
    Y = M.y_shifted_sbd_vec(ref, X, norm_ref=nr if given else -1, norms_dataset=W.arr(nx) if given else neg(W, k))
    W.check("shape", W.shape(Y) == (k, n, d))
    for i in range(k):
        cs = {s: corr(W, ref, X[i], s) for s in range(-(n - 1), n)}
        W.check("series %d is shifted by a best shift" % i, W.or_(*[
            W.and_(*[W.le(c, cs[s]) for c in cs.values()],
                   *[W.eq(Y[i, t, q], X[i, t - s, q] if 0 <= t - s < n else 0) for t in range(n) for q in range(d)])
            for s in cs]))
    unchanged(W, "inputs unmodified", snap, ref, X)
