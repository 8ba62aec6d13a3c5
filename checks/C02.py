"""C02: KShape and KernelKMeans predictions agree with their fitted state."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .C01 import numbers

CASES = []
SCRIPT = {1: [0], 2: [0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0], 3: [0, 1, 2, 2, 0, 1, 1, 0, 2, 0, 1]}
PRELOAD = ["tslearn.metrics", "tslearn.clustering"]
ASSUMPTIONS = ["fits without any successful initialisation are not judged",
               "KShape: numpy.linalg.eigh returns an arbitrary vector from a given list, the shape extraction itself is not judged",
               "KShape: series are non-constant"]


def K():
    return import_module("tslearn.clustering")


def kern(W, kernel, a, b, par):
    """kernel between two series from its definition (gak: the library's own two-series function, judged by M12)"""
    if kernel == "gak":
        return import_module("tslearn.metrics").gak(a, b, **par)
    va, vb = W.flat(a), W.flat(b)
    dot = W.sum([x * y for x, y in zip(va, vb)])
    if kernel == "linear":
        return dot
    if kernel == "poly":
        return (dot * par.get("gamma", W.c(Fraction(1, len(va)))) + par.get("coef0", 1)) ** par.get("degree", 3)
    return W.exp(-(W.sum([(x - y) * (x - y) for x, y in zip(va, vb)]) * par.get("gamma", W.c(Fraction(1, len(va))))))


def valid(W, X, q, n):
    return X[q, :n]


def dists(W, kernel, par, A, na, B, nb, lab, k, w=None):
    """2 - 2 * weighted mean kernel to each cluster"""
    w = [1] * len(nb) if w is None else w
    G = [[kern(W, kernel, valid(W, A, i, na[i]), valid(W, B, j, nb[j]), par) for j in range(len(nb))] for i in range(len(na))]
    out = []
    for i in range(len(na)):
        row = []
        for c in range(k):
            m = [j for j in range(len(nb)) if lab[j] == c]
            row.append(2 - 2 * W.div(W.sum([G[i][j] * w[j] for j in m]), W.sum([w[j] for j in m])))
        out.append(row)
    return out


def signed(W, sizes, k):
    """fixed series around k directions, so that a linear kernel separates them"""
    T = max(sizes)
    g = lcg(5)
    dirs = [(3, 2), (-4, -3), (3, -5)][:k]
    return W.arr([[[W.c(Fraction(dirs[q % k][i % 2] * (1 + q) + next(g) % 2))] if i < sizes[q] else [W.nan] for i in range(T)] for q in range(len(sizes))])


def fitk(km, X, **kw):
    km.fit(X, **kw)
    return km._X_fit is not None


def nearest(W, label, P, D):
    for q in range(len(D)):
        for c in range(len(D[q])):
            if c != P[q]:
                W.check(label, W.le(D[q][P[q]], D[q][c]))


KP = [dict(kernel=kn, sizes=s, k=k, ny=ny, par=p, wt=w) for kn, s, k, ny, p, w in (
    ("linear", (2, 2, 2), 2, 2, None, None), ("linear", (1, 1, 1, 1), 2, 1, None, None), ("poly", (2, 2, 2), 2, 1, {"degree": 2}, None), ("linear", (2, 2, 2), 3, 1, None, None),
    ("linear", (2, 2, 2), 2, 1, None, (1, 3, 2)), ("linear", (1, 1), 1, 2, None, None), ("rbf", (1, 1, 1), 2, 1, {"gamma": 0.5}, None), ("gak", (2, 2), 2, 1, None, None), ("gak", (2, 1), 2, 1, {"sigma": 2.0}, None), ("gak", (1, 1, 1), 2, 1, {"sigma": 0.5}, (2, 1, 1)))]


@cases(CASES, KP, [dict(kernel="linear", sizes=(3,) * 5, k=3, ny=2, par=None, wt=None), dict(kernel="gak", sizes=(3, 2, 2), k=2, ny=2, par={"sigma": 1.5}, wt=None)], over_thorough=dict(budget=600))
def kernel_predict(W, kernel, sizes, k, ny, par, wt):
    """predict: the cluster (by labels_) of least kernel-induced distance, whatever else is in the batch"""
    n, T = len(sizes), max(sizes)
    X = signed(W, sizes, k)
    par_, snap0 = None if par is None else dict(par), None if par is None else dict(par)
    km = K().KernelKMeans(n_clusters=k, kernel=kernel, max_iter=3, kernel_params=par_, random_state=W.rng("r", SCRIPT[k]))
    kw = {} if wt is None else dict(sample_weight=W.arr([W.c(v) for v in wt]))
    if not fitk(km, X, **kw):
        return
    lab = [int(v) for v in W.flat(km.labels_)]
    W.check("one label per series, none out of range", len(lab) == n and set(lab) == set(range(k)))
    W.check("kernel_params unmodified", par_ == snap0 and km.kernel_params is par_)
    Y = dataset(W, "y", (T,) * ny, 1)
    snap = snapshot(W, X, Y)
    P = [int(v) for v in W.flat(km.predict(Y))]
    D = dists(W, kernel, par or {}, Y, [T] * ny, X, sizes, lab, k, wt)
    nearest(W, "nearest cluster", P, D)
    if ny > 1:
        for q in range(ny):
            W.check("alone", [int(v) for v in W.flat(km.predict(Y[q:q + 1]))] == [P[q]])
    unchanged(W, "data unmodified", snap, X, Y)
    W.check("labels survive predict", [int(v) for v in W.flat(km.labels_)] == lab)


KF = [dict(kernel=kn, n=n, t=t, k=k, it=i, init=i0, sc=s) for s, (kn, n, t, k, i, i0) in enumerate( (("linear", 3, 1, 2, 1, 1), ("linear", 3, 2, 2, 2, 1), ("linear", 4, 1, 2, 4, 1), ("linear", 4, 2, 2, 3, 2), ("poly", 4, 2, 2, 2, 1), ("linear", 5, 2, 2, 5, 3), ("linear", 5, 2, 3, 2, 3)))]


@cases(CASES, KF, [dict(kernel="linear", n=6, t=2, k=3, it=5, init=1, sc=3)], feas_exact=True, over_thorough=dict(budget=600))
def kernel_fit(W, kernel, n, t, k, it, init, sc):
    """labels and inertia follow the recursion from the drawn labels; a fixed point is what predict returns"""
    X = numbers(W, "u", n, t, 1, [(n - 1, t - 1, 0)], 8)
    km = K().KernelKMeans(n_clusters=k, kernel=kernel, max_iter=it, tol=0.0, n_init=init, random_state=W.rng("r", SCRIPT[k][sc:] + SCRIPT[k][:sc]))
    if not fitk(km, X):
        return
    lab = [int(v) for v in W.flat(km.labels_)]
    W.check("no empty cluster", set(lab) == set(range(k)))
    sizes = [t] * n
    D = dists(W, kernel, {}, X, sizes, X, sizes, lab, k)
    new = []
    for q in range(n):
        b = 0
        for c in range(1, k):
            if W.truth(W.lt(D[q][c], D[q][b])):
                b = c
        new.append(b)
    P = [int(v) for v in W.flat(km.predict(X))]
    nearest(W, "predict: nearest cluster", P, D)
    if new == lab:
        W.check("a fixed point is what predict returns", P == lab)
    # the reported labels are nearest clusters of some labelling, with that inertia
    r = W.rng("r", SCRIPT[k][sc:] + SCRIPT[k][:sc])
    ok = []
    for _ in range(10):
        cur = [int(v) for v in W.flat(r.randint(k, size=n))]
        old, good = None, True
        for step in range(it):
            if set(cur) != set(range(k)):
                good = False
                break
            E = dists(W, kernel, {}, X, sizes, X, sizes, cur, k)
            nxt, val = [], W.c(0)
            for q in range(n):
                b = 0
                for c in range(1, k):
                    W.assume(W.lt(Fraction(1, 1000), W.abs(E[q][c] - E[q][b])))
                    if W.truth(W.lt(E[q][c], E[q][b])):
                        b = c
                nxt.append(b)
                val = val + E[q][b]
            cur = nxt
            if set(cur) != set(range(k)):
                good = False
                break
            old = val
        if good:
            ok.append((cur, old))
        if len(ok) == init:
            break
    W.check("inertia is not above that of any run", W.and_(*[W.le(km.inertia_, v + W.c(Fraction(1, 10 ** 5))) for _, v in ok]))
    W.check("labels and inertia of one of the runs", W.or_(*[W.eq(km.inertia_, v) for c, v in ok if c == lab] or [False]))


@cases(CASES, [dict(kernel="linear"), dict(kernel="gak")])
def kernel_refit(W, kernel):
    """a refit depends only on its own data and parameters"""
    n = 3 if kernel == "linear" else 2
    A, B = numbers(W, "a", 3, 2, 1, [], 15), numbers(W, "b", n, 2, 1, [(0, 0, 0)] if kernel == "linear" else [], 16)
    mk = lambda p: K().KernelKMeans(n_clusters=2, kernel=kernel, max_iter=2 if kernel == "linear" else 1, random_state=None, kernel_params=p)
    p = {"sigma": 1.0} if kernel == "gak" else None
    q = {"sigma": 3.0} if kernel == "gak" else None
    one, two = mk(p), mk(q)
    two.random_state = W.rng("s", SCRIPT[2])
    two.fit(A)
    two.set_params(kernel_params=p)
    one.random_state, two.random_state = W.rng("r", SCRIPT[2]), W.rng("r", SCRIPT[2])
    ok1, ok2 = fitk(one, B), fitk(two, B)
    W.check("same outcome", ok1 == ok2)
    if ok1 and ok2:
        W.check("same labels", W.flat(one.labels_) == W.flat(two.labels_))
        W.check("same inertia", W.eq(one.inertia_, two.inertia_))
        W.check("same predictions", W.flat(one.predict(A[:1])) == W.flat(two.predict(A[:1])))


def zscore(W, v):
    """z-normalised series (per dimension)"""
    t, d = len(v), len(v[0])
    out = [[None] * d for _ in range(t)]
    for k in range(d):
        m = W.div(W.sum([v[i][k] for i in range(t)]), t)
        s = W.sqrt(W.div(W.sum([(v[i][k] - m) * (v[i][k] - m) for i in range(t)]), t))
        for i in range(t):
            out[i][k] = W.div(v[i][k] - m, s)
    return out


def ncc_max(W, a, b):
    t, d = len(a), len(a[0])
    den = W.sqrt(W.sum([x * x for r in a for x in r])) * W.sqrt(W.sum([x * x for r in b for x in r]))
    best = []
    for s in range(-(t - 1), t):
        best.append(W.sum([a[i + s][k] * b[i][k] for i in range(t) if 0 <= i + s < t for k in range(d)] or [W.c(0)]))
    return W.div(W.max(best), den)


def eig(W, vecs):
    """shape extraction stand-in: the leading eigenvector is taken from a list"""
    import itertools
    it = itertools.cycle(vecs)

    def h(a):
        n = int(W.shape(a)[0])
        v = next(it)
        return W.arr([W.c(0)] * n), W.arr([[W.c(v[i % len(v)]) if j == n - 1 else W.c(0) for j in range(n)] for i in range(n)])
    W.hook("eigh", h)


PATS = {2: [(1, -1), (-1, 1)], 4: [(1, -1, -1, 1), (1, 1, -1, -1), (-1, 1, -1, 1)]}
KS = [dict(t=t, n=n, d=d, k=k, it=i, scale=s, ny=ny) for t, n, d, k, i, s, ny in ((2, 2, 1, 1, 1, 1, 3), (4, 3, 1, 2, 1, 2, 1), (4, 3, 1, 2, 3, 1, 4), (4, 4, 1, 3, 2, 3, 1), (4, 3, 2, 2, 1, 1, 1), (4, 5, 1, 2, 2, 4, 2))]


@cases(CASES, KS, [dict(t=4, n=5, d=2, k=3, it=3, scale=5, ny=2)], feas_exact=True, over_thorough=dict(budget=600))
def kshape(W, t, n, d, k, it, scale, ny):
    """labels_ are predict's on the training data; prediction is the least shape-based distance, each series on its own"""
    eig(W, PATS[t])
    P = PATS[t]
    X = W.arr([[[W.c(P[(q + z) % len(P)][i] * scale + q) for z in range(d)] for i in range(t)] for q in range(n)])
    init = W.arr([[[W.c(P[(q + z) % len(P)][i]) for z in range(d)] for i in range(t)] for q in range(k)])
    snap = snapshot(W, X, init)
    km = K().KShape(n_clusters=k, max_iter=it, init=init)
    try:
        km.fit(X)
    except K().EmptyClusterError:
        return
    if km._X_fit is None:
        return
    lab = [int(v) for v in W.flat(km.labels_)]
    W.check("one label per series, no empty cluster", len(lab) == n and set(lab) == set(range(k)))
    unchanged(W, "data and initial centers unmodified", snap, X, init)
    C = [pts(km.cluster_centers_[c]) for c in range(k)]

    def D(v):
        z = zscore(W, v)
        return [1 - ncc_max(W, z, C[c]) for c in range(k)]
    Q = [int(v) for v in W.flat(km.predict(X))]
    W.check("predict on the training data gives labels_", Q == lab)
    DX = [D(pts(X[q])) for q in range(n)]
    nearest(W, "labels: nearest center", lab, DX)
    W.check("inertia", W.eq(km.inertia_ * n, W.sum([DX[q][lab[q]] * DX[q][lab[q]] for q in range(n)])))
    if d == 1:
        Y = numbers(W, "y", ny, t, d, [(0, t - 1, d - 1)], 33, spread=6)
    else:
        pick = [[W.int("p%d_%d" % (q, z), 0, len(P) - 1) for z in range(d)] for q in range(ny)]
        Y = W.arr([[[W.c(P[pick[q][z]][i] * (q + 2) - z) for z in range(d)] for i in range(t)] for q in range(ny)])
    for q in range(ny):
        for z in range(d):
            W.assume(W.lt(W.c(Fraction(1, 10)), W.max([W.abs(Y[q, i, z] - Y[q, 0, z]) for i in range(1, t)])))
    snap = snapshot(W, Y)
    R = [int(v) for v in W.flat(km.predict(Y))]
    nearest(W, "predict: nearest center", R, [D(pts(Y[q])) for q in range(ny)])
    if ny > 1:
        for q in range(ny):
            W.check("alone", [int(v) for v in W.flat(km.predict(Y[q:q + 1]))] == [R[q]])
    unchanged(W, "new data unmodified", snap, Y)
    W.check("labels survive predict", [int(v) for v in W.flat(km.labels_)] == lab)


@cases(CASES, [dict(t=4, a=2, b=3), dict(t=4, a=3, b=2)], feas_exact=True)
def kshape_refit(W, t, a, b):
    """a refit depends only on its own data"""
    P = PATS[t]
    A = W.arr([[[W.c(P[q % len(P)][i] * 2 + q)] for i in range(t)] for q in range(a)])
    B = W.arr([[[W.c(P[(q + 1) % len(P)][i] * 5 - q)] for i in range(t)] for q in range(b)])
    Y = numbers(W, "y", 1, t, 1, [(0, 0, 0)], 37, spread=4)
    W.assume(W.lt(W.c(Fraction(1, 10)), W.max([W.abs(Y[0, i, 0] - Y[0, 0, 0]) for i in range(1, t)])))
    init = W.arr([[[W.c(P[q][i])] for i in range(t)] for q in range(2)])
    mk = lambda: K().KShape(n_clusters=2, max_iter=2, init=init)
    one, two = mk(), mk()
    eig(W, P)
    try:
        two.fit(A)
    except K().EmptyClusterError:
        pass
    eig(W, P)
    one.fit(B)
    eig(W, P)
    two.fit(B)
    W.check("same labels", W.flat(one.labels_) == W.flat(two.labels_))
    W.check("same centers", W.all_eq(one.cluster_centers_, two.cluster_centers_))
    W.check("same predictions", W.flat(one.predict(Y)) == W.flat(two.predict(Y)))
