"""M12: GAK is the normalised global alignment kernel."""
from symts.harness import cases
from .common import *

CASES = []
ASSUMPTIONS = ["exp and log are the exact real functions (no overflow or underflow)"]
SIZES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3)]


def sigma_of(W, s):
    return W.real("sigma", pos=True) if s == "any" else W.c(Fraction(s))


def kernel(W, p, q, sigma):
    k = W.exp(W.div(-W.sqdist(p, q), 2 * sigma * sigma))
    return W.div(k, 2 - k)


def ref_gak(W, a, b, sigma):
    """sum over all warping paths of the product of local kernels"""
    A, B = pts(a), pts(b)
    K = [[kernel(W, p, q, sigma) for q in B] for p in A]
    tot = []
    for p in W.warping_paths(len(A), len(B)):
        r = W.c(1)
        for i, j in p:
            r = r * K[i][j]
        tot.append(r)
    return W.sum(tot)


def ref_norm(W, a, b, sigma):
    return W.div(ref_gak(W, a, b, sigma), W.sqrt(ref_gak(W, a, a, sigma)) * W.sqrt(ref_gak(W, b, b, sigma)))


@cases(CASES, [dict(n=n, m=m, d=d, s=s) for n, m in SIZES for d in (1, 2) if n * m * d <= 8 for s in ("any", "2")] + [dict(n=2, m=1, d=3, s="1/2"), dict(n=3, m=3, d=1, s="1")],
       [dict(n=3, m=3, d=1, s="any"), dict(n=2, m=4, d=1, s="any"), dict(n=3, m=3, d=2, s="1")])
def value(W, n, m, d, s):
    M = W.mod()
    sigma = sigma_of(W, s)
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    W.check("sum over paths of the products of local kernels", W.eq(M.unnormalized_gak(a, b, sigma=sigma), ref_gak(W, a, b, sigma)))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(n=n, m=m, d=d, s=s) for n, m, d in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (3, 2, 1)) for s in ("any", "2")])
def normalized(W, n, m, d, s):
    M = W.mod()
    sigma = sigma_of(W, s)
    a, b = series(W, "a", n, d), series(W, "b", m, d)
    snap = snapshot(W, a, b)
    v = M.gak(a, b, sigma=sigma)
    W.check("value over the geometric mean of the self values", W.eq(v, ref_norm(W, a, b, sigma)))
    W.check("symmetric", W.eq(M.gak(b, a, sigma=sigma), v))
    W.check("one on itself", W.eq(M.gak(a, a, sigma=sigma), 1))
    W.check("positive", W.lt(0, v))
    unchanged(W, "inputs unmodified", snap, a, b)


@cases(CASES, [dict(p=p, q=q) for p, q in ((1, 0), (0, 2), (1, 1))])
def padding(W, p, q):
    M = W.mod()
    sigma = sigma_of(W, "any")
    a, b = series(W, "a", 2), series(W, "b", 1)
    A, B = padded(W, a, p) if p else a, padded(W, b, q) if q else b
    W.check("unnormalized", W.eq(M.unnormalized_gak(A, B, sigma=sigma), ref_gak(W, a, b, sigma)))
    W.check("normalized", W.eq(M.gak(A, B, sigma=sigma), ref_norm(W, a, b, sigma)))


@cases(CASES, [dict(s1=(2, 1), s2=None, d=1, jobs=None), dict(s1=(2, 2), s2=None, d=1, jobs=2), dict(s1=(1, 2, 2), s2=None, d=1, jobs=3), dict(s1=(2, 1), s2=(2,), d=1, jobs=None), dict(s1=(2,), s2=(1, 2), d=2, jobs=2), dict(s1=(1,), s2=(1, 3), d=1, jobs=None)])
def matrix(W, s1, s2, d, jobs):
    M = W.mod()
    W.schedule(jobs is not None)
    sigma = sigma_of(W, "any")
    X = dataset(W, "x", s1, d)
    Y = dataset(W, "y", s2, d) if s2 else X
    snap = snapshot(W, X, Y)
    A = M.cdist_gak(X, *((Y,) if s2 else ()), sigma=sigma, n_jobs=jobs)
    W.check("shape", W.shape(A) == (len(s1), len(s2 or s1)))
    for i, n in enumerate(s1):
        for j, m in enumerate(s2 or s1):
            W.check("entry (%d,%d)" % (i, j), W.eq(A[i, j], ref_norm(W, X[i, :n], Y[j, :m], sigma)))
    unchanged(W, "inputs unmodified", snap, X, Y)


@cases(CASES, [dict()])
def zero_sigma(W):
    M = W.mod()
    a, b = series(W, "a", 2), series(W, "b", 2)
    for f in (M.gak, M.unnormalized_gak):
        W.check("sigma 0 is refused", W.raises(lambda: f(a, b, sigma=0.0), ZeroDivisionError) == "ZeroDivisionError")
    W.check("sigma 0 is refused by cdist", W.raises(lambda: M.cdist_gak(W.arr([[[W.c(1)]]]), sigma=0.0), ZeroDivisionError) == "ZeroDivisionError")


@cases(CASES, [dict(sizes=(2, 2), d=1, k=2), dict(sizes=(2, 1), d=1, k=3), dict(sizes=(1, 2), d=2, k=2), dict(sizes=(3,), d=1, k=3)])
def bandwidth(W, sizes, d, k):
    """sigma_gak: median distance of sampled points times the square root of the length (samples arbitrary)"""
    M = W.mod()
    X = dataset(W, "x", sizes, d)
    P = [p for q, t in enumerate(sizes) for p in pts(X[q], t)]
    rng = W.rng("r")
    snap = snapshot(W, X)
    s = M.sigma_gak(X, n_samples=k, random_state=rng)
    D = {}
    cand = []
    import itertools
    replace = len(P) < k
    for idx in itertools.product(range(len(P)), repeat=k):
        if not replace and len(set(idx)) < k:
            continue
        ds = [W.sqrt(W.sqdist(P[i], P[j])) for i, j in itertools.combinations(idx, 2)]
        key = tuple(sorted(tuple(sorted(x)) for x in itertools.combinations(idx, 2)))
        if key not in D:
            D[key] = 1
            med = ds[0] if len(ds) == 1 else W.max([W.min(ds[:2]), W.min([W.max(ds[:2]), ds[2]])])
            cand.append(W.eq(s * s, med * med * max(sizes)))
    W.check("median of sampled point distances", W.or_(*cand))
    W.check("nonnegative", W.le(0, s))
    unchanged(W, "inputs unmodified", snap, X)


@cases(CASES, [dict(n=5, m=4, fa=(2,), fb=()), dict(n=3, m=6, fa=(), fb=(4,))])
def longer(W, n, m, fa, fb):
    M = W.mod()
    a, b = mixed(W, "a", n, 1, fa, 3), mixed(W, "b", m, 1, fb, 4)
    sigma = W.c(Fraction(2))
    A, B = pts(a), pts(b)
    F = {}
    for i in range(n):
        for j in range(m):
            k = kernel(W, A[i], B[j], sigma)
            F[i, j] = k if (i, j) == (0, 0) else k * W.sum([F[q] for q in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if q in F])
    W.check("value", W.eq(M.unnormalized_gak(a, b, sigma=sigma), F[n - 1, m - 1]))
