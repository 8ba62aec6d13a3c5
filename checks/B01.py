"""B01: DTW barycenter averaging never increases its objective."""
import warnings
from importlib import import_module
from itertools import product
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.barycenters"]
ASSUMPTIONS = ["weights are positive", "the descent inequality follows from the update being the weighted mean along optimal alignments, which is what is decided here"]

VARIANTS = ("pet", "mm", "sub")


def B():
    return import_module("tslearn.barycenters")


def fn(kind):
    b = B()
    return {"pet": b.dtw_barycenter_averaging_petitjean, "mm": b.dtw_barycenter_averaging, "sub": b.dtw_barycenter_averaging_subgradient}[kind]


def rows(W, X, q, n):
    return [[X[q, i, k] for k in range(W.shape(X)[2])] for i in range(n)]


def allowed_fn(kind, n, m, con):
    """admissible cells (i: barycenter position, j: series position)"""
    if kind == "pet":
        _, al = constraint(m, n, con)
        return (lambda i, j: al(j, i)) if al is not None else None
    return constraint(n, m, con)[1]


def some_paths(W, kind, S, n, bary, con):
    """the alignment the library's own dtw_path finds, as (barycenter position, series position) pairs"""
    kw = constraint(2, 2, con)[0]
    M = import_module("tslearn.metrics")
    a, b = W.arr(S), W.arr(bary)
    if kind == "pet":
        return [(int(j), int(i)) for i, j in M.dtw_path(a, b, **kw)[0]]
    return [(int(i), int(j)) for i, j in M.dtw_path(b, a, **kw)[0]]


def aligned(path, t):
    return [j for i, j in path if i == t]


def mean_eq(W, S, ws, paths, new):
    """every position of new is the weighted mean of the points aligned to it"""
    out = []
    d = len(new[0])
    for t in range(len(new)):
        tot = W.sum([ws[q] * len(aligned(p, t)) for q, p in enumerate(paths)])
        for k in range(d):
            out.append(W.eq(new[t][k] * tot, W.sum([ws[q] * S[q][j][k] for q, p in enumerate(paths) for j in aligned(p, t)])))
    return W.and_(True, *out)


def optimal(W, C, path, allowed):
    return W.and_(True, *[W.le(path_cost(W, C, path), path_cost(W, C, p)) for p in W.warping_paths(len(C), len(C[0]), allowed)])


def grad_eq(W, S, ws, path, q, old, new, eta):
    """one subgradient step for series q: b_t - 2 eta w_q / mean(w) sum_j (b_t - x_j)"""
    out = []
    c = W.div(ws[q] * len(ws) * 2 * eta, W.sum(ws))
    for t in range(len(new)):
        al = aligned(path, t)
        for k in range(len(new[0])):
            out.append(W.eq(new[t][k], old[t][k] - c * W.sum([old[t][k] - S[q][j][k] for j in al])))
    return W.and_(True, *out)


def check_step(W, label, kind, S, old, new, ws, con):
    ps = [some_paths(W, kind, s, len(s), old, con) for s in S]
    e = mean_eq(W, S, ws, ps, new)
    if e is True or (not isinstance(e, bool) and type(e).__name__ == "Fuzzy" and e):
        W.check(label, e)
        return
    opts = [W.warping_paths(len(old), len(s), allowed_fn(kind, len(old), len(s), con)) for s in S]
    tot = 1
    for o in opts:
        tot *= len(o)
    if tot > 400:
        W.check(label, e)
        return
    # another optimal alignment is as good
    alt = []
    Cs = [cost_matrix(W, W.arr(old), W.arr(s)) for s in S]
    for tup in product(*opts):
        alt.append(W.and_(mean_eq(W, S, ws, tup, new), *[optimal(W, Cs[q], p, allowed_fn(kind, len(old), len(S[q]), con)) for q, p in enumerate(tup)]))
    W.check(label, W.or_(e, *alt))


def weights_of(W, n, w):
    if w is None:
        return None, [W.c(1)] * n
    ws = [W.real("w%d" % i, pos=True) for i in range(n)] if w == "sym" else [W.c(Fraction(v)) for v in w]
    return W.arr(ws), ws


ONE = [dict(kind=k, sizes=s, b=b, d=d, w=w, con=con) for k in ("pet", "mm") for s, b, d, w, con in (
    ((1, 1), 1, 1, "sym", ("none",)), ((2,), 2, 1, None, ("none",)), ((2, 2), 2, 1, None, ("none",)), ((2, 2), 2, 1, "sym", ("none",)), ((3, 2), 2, 1, "sym", ("none",)), ((1, 3), 2, 1, "sym", ("none",)),
    ((2, 2), 3, 1, (2, 1), ("none",)), ((2, 2), 1, 2, "sym", ("none",)), ((2, 2), 2, 2, (1, 3), ("none",)), ((3,), 3, 1, None, ("none",)), ((1, 2, 2), 2, 1, "sym", ("none",)), ((2, 3), 1, 1, "sym", ("none",)),
    ((3, 3), 3, 1, "sym", ("sc", 0)), ((3, 3), 3, 1, "sym", ("sc?", 0)), ((3, 2), 3, 1, "sym", ("sc", 1)), ((3,), 3, 1, "sym", ("scdef",)), ((3, 3), 3, 1, "sym", ("ita", 2)), ((3, 3), 3, 1, (1, 2), ("ita?", 1)), ((4,), 3, 1, None, ("ita", 2)), ((4,), 4, 1, None, ("ita", 3)), ((5,), 4, 1, None, ("ita", 2)), ((5,), 5, 1, None, ("ita", 4)), ((2, 2), 2, 1, "sym", ("both-sc", 0, 5)))]


@cases(CASES, ONE, [dict(kind=k, sizes=(3, 3), b=3, d=1, w="sym", con=("none",)) for k in ("pet", "mm")] + [dict(kind=k, sizes=(2, 2, 2), b=2, d=2, w="sym", con=("none",)) for k in ("pet", "mm")] + [dict(kind=k, sizes=(4, 4), b=4, d=1, w=(1, 2), con=("sc", 1)) for k in ("pet", "mm")])
def iteration(W, kind, sizes, b, d, w, con):
    """one iteration from an arbitrary barycenter"""
    X = dataset(W, "x", sizes, d)
    init = W.reals("b", b, d)
    wa, ws = weights_of(W, len(sizes), w)
    mp = constraint(2, 2, con)[0] or None
    before = dict(mp or {})
    snap = snapshot(W, X, init) + (snapshot(W, wa) if wa is not None else [])
    new = fn(kind)(X, init_barycenter=init, max_iter=1, weights=wa, metric_params=mp)
    W.check("shape", W.shape(new) == (b, d))
    S = [rows(W, X, q, n) for q, n in enumerate(sizes)]
    check_step(W, "weighted mean along optimal alignments", kind, S, pts(init), pts(new), ws, con)
    unchanged(W, "dataset, barycenter and weights unmodified", snap, X, init, *([wa] if wa is not None else []))
    W.check("metric_params unmodified", dict(mp or {}) == before)


@cases(CASES, [dict(sizes=s, b=b, d=d, w=w, con=con) for s, b, d, w, con in (
    ((2,), 2, 1, None, ("none",)), ((2, 2), 2, 1, "sym", ("none",)), ((1, 2), 2, 1, "sym", ("none",)), ((2, 2), 1, 2, "sym", ("none",)), ((1, 1, 1), 1, 1, (1, 2, 3), ("none",)), ((3, 3), 3, 1, "sym", ("sc", 0)), ((3, 3), 3, 1, (1, 2), ("sc?", 0)))] + [dict(sizes=s, b=b, d=1, w=w, con=("none",), epochs=2) for s, b, w in (((1,), 1, None), ((1, 1), 1, (1, 3)), ((1,), 2, None))])
def subgradient(W, sizes, b, d, w, con, epochs=1):
    """every epoch takes one weighted subgradient step per series, the step size going from initial to final during the first"""
    X = dataset(W, "x", sizes, d)
    init = W.reals("b", b, d)
    n = len(sizes)
    wa, ws = weights_of(W, n, w)
    mp = constraint(2, 2, con)[0] or None
    snap = snapshot(W, X, init)
    e0, e1 = Fraction(1, 4), Fraction(1, 16)
    rng = W.rng("perm")
    new = fn("sub")(X, init_barycenter=init, max_iter=epochs, tol=-1.0, initial_step_size=float(e0), final_step_size=float(e1), weights=wa, metric_params=mp, random_state=rng)
    S = [rows(W, X, q, m) for q, m in enumerate(sizes)]
    W.check("shape", W.shape(new) == (b, d))

    def run(order):
        cur = pts(init)
        for s, q in enumerate(order):
            eta = e0 - (e0 - e1) * Fraction(s, n) if s < n else e1
            p = some_paths(W, "sub", S[q], len(S[q]), cur, con)
            c = W.div(ws[q] * n * 2 * W.c(eta), W.sum(ws))
            cur = [[cur[t][k] - c * W.sum([cur[t][k] - S[q][j][k] for j in aligned(p, t)]) for k in range(d)] for t in range(b)]
        return W.all_eq(W.arr(cur), new)
    from itertools import permutations
    es = []
    for order in product(permutations(range(n)), repeat=epochs):
        e = run([q for o in order for q in o])
        if e is True:
            es = [True]
            break
        es.append(e)
    W.check("weighted subgradient steps in some order", W.or_(*es))
    unchanged(W, "dataset and initial barycenter unmodified", snap, X, init)


@cases(CASES, [dict(kind=k, sizes=s, b=b, w=w) for k in ("pet", "mm") for s, b, w in (((2, 2), 2, None), ((2, 3), 2, (1, 3)), ((4, 5), 4, None), ((3, 3, 4), 3, (1, 2, 1)), ((3, 2, 3, 4), 3, (1, 2, 1, 5)), ((6, 6), 6, (3, 1)))], [dict(kind=k, sizes=(8, 8, 7), b=7, w=(1, 2, 1)) for k in ("pet", "mm")])
def history(W, kind, sizes, b, w):
    """several iterations are the single iterations one after the other, without warning of an increase; one free sample"""
    g = lcg(5 + len(sizes))
    T = max(sizes)
    R = [[[W.c(Fraction(next(g)))] if i < n else [W.nan] for i in range(T)] for n in sizes]
    R[0][sizes[0] // 2][0] = W.real("u")
    X = W.arr(R)
    W.assume(W.and_(W.le(-10, R[0][sizes[0] // 2][0]), W.le(R[0][sizes[0] // 2][0], 10)))
    init = W.arr([[W.c(Fraction(next(g)))] for _ in range(b)])
    wa, ws = weights_of(W, len(sizes), w)
    S = [rows(W, X, q, n) for q, n in enumerate(sizes)]
    cur = init
    for it in range(2):
        new = fn(kind)(X, init_barycenter=cur, max_iter=1, weights=wa)
        check_step(W, "step %d" % it, kind, S, pts(cur), pts(new), ws, ("none",))
        cur = new
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        two = fn(kind)(X, init_barycenter=init, max_iter=2, tol=-1.0, weights=wa)
    W.check("no warning of an increasing loss", not [r for r in rec if "DBA" in str(r.message)])
    W.check("two iterations", W.all_eq(two, cur))
    W.schedule(True)
    two = fn(kind)(X, init_barycenter=init, max_iter=2, tol=-1.0, weights=wa, n_jobs=2)
    W.check("two iterations, two jobs", W.all_eq(two, cur))


STOPDATA = {
    "a": (((-3, -6, -2, 0, 5), (6, 6, 1, -3, -1)), (-2, 1, 5)),
    "b": (((-3, -2, 6, -6, -1), (-2, -5, -5, 0, 5)), (-3, -1, 4)),
    "c": (((5, -4, 2, -6, 1), (4, 3, 3, -4, -2)), (5, 3, 5)),
}


@cases(CASES, [dict(kind=k, b=b, w=w, tol=t) for k in ("pet", "mm") for b, w, t in ((2, None, 0.5), (3, (1, 2), 0.5), (3, (1, 2), 3), (2, None, 40))]
       + [dict(kind=k, b=3, w=w, tol=t, data=x) for k in ("pet", "mm") for x, w, t in (("a", (1, 3), 3), ("b", (7, 1), 3), ("c", (1, 9), 0.25))])
def stopping(W, kind, b, w, tol, data=None):
    """iteration stops once the decrease of the loss is below tol, and not before"""
    sizes = (3, 3)
    R = [[W.c(Fraction(v))] for v in (0, 4, 1)], [[W.c(Fraction(v))] for v in (1, 0, 3)]
    u = W.real("u")
    W.assume(W.and_(W.le(-6, u), W.le(u, 6)))
    R[1][1][0] = u
    init = W.arr([[W.c(Fraction(v))] for v in (0, 1, 3)[:b]])
    if data is not None:
        # weighted and unweighted losses fall below tol at different iterations
        sizes = (5, 5)
        W.assume(W.and_(W.le(Fraction(-1, 16), u), W.le(u, Fraction(1, 16))))
        R = [[[W.c(Fraction(v))] for v in r] for r in STOPDATA[data][0]]
        R[1][1][0] = R[1][1][0] + u
        init = W.arr([[W.c(Fraction(v))] for v in STOPDATA[data][1]])
    X = W.arr([list(r) for r in R])
    wa, ws = weights_of(W, 2, w)
    S = [rows(W, X, q, sizes[0]) for q in range(2)]
    tol = Fraction(tol)
    got = fn(kind)(X, init_barycenter=init, max_iter=4, tol=float(tol), weights=wa)
    par = fn(kind)(X, init_barycenter=init, max_iter=4, tol=float(tol), weights=wa, n_jobs=2)
    cur, prev = init, None
    for it in range(4):
        loss = W.div(W.sum([ws[q] * dp_dtw(W, cost_matrix(W, cur, W.arr(S[q]))) for q in range(2)]), W.sum(ws))
        cur = fn(kind)(X, init_barycenter=cur, max_iter=1, weights=wa)
        if prev is not None:
            gap = prev - loss
            # ties within the tolerance of the replay are not judged
            if W.truth(W.lt(gap, tol)):
                break
        prev = loss
    W.check("result of the iteration at which the decrease falls below tol", W.all_eq(got, cur))
    W.check("the same with two jobs", W.all_eq(par, cur))


@cases(CASES, [dict(kind=k, n=n, d=d) for k in VARIANTS for n, d in ((1, 1), (2, 1), (3, 1), (2, 2))] + [dict(kind="pet", n=5, d=1)])
def single(W, kind, n, d):
    """a dataset of one series is its own barycenter"""
    X = dataset(W, "x", (n,), d)
    kw = dict(random_state=0) if kind == "sub" else {}
    R = fn(kind)(X, max_iter=2, **kw)
    W.check("its own barycenter", W.all_eq(R, X[0]))


@cases(CASES, [dict(kind=k, sizes=s, d=d) for k in VARIANTS for s, d in (((2, 2), 1), ((1, 1, 1), 2), ((2, 1), 1))])
def weight_scale(W, kind, sizes, d):
    """equal weights are no weights; only the proportions of the weights matter"""
    X = dataset(W, "x", sizes, d)
    init = W.reals("b", max(sizes), d)
    n = len(sizes)
    c = W.real("c", pos=True)
    ws = W.arr([W.c(Fraction(i + 1)) for i in range(n)])
    kw = (lambda: dict(random_state=W.rng("p%d" % 0) if False else 0)) if kind == "sub" else (lambda: {})
    plain = fn(kind)(X, init_barycenter=init, max_iter=1, **kw())
    W.check("equal weights", W.all_eq(fn(kind)(X, init_barycenter=init, max_iter=1, weights=W.arr([c] * n), **kw()), plain))
    W.check("proportional weights", W.all_eq(fn(kind)(X, init_barycenter=init, max_iter=1, weights=ws * c, **kw()), fn(kind)(X, init_barycenter=init, max_iter=1, weights=ws, **kw())))


@cases(CASES, [dict(kind=k, sizes=s, d=d) for k in ("pet", "mm") for s, d in (((2, 2), 1), ((2, 1), 1), ((3, 2), 1), ((1, 1, 2, 1), 1))])
def jobs(W, kind, sizes, d):
    """the barycenter does not depend on n_jobs"""
    X = dataset(W, "x", sizes, d)
    init = W.reals("b", 2, d)
    wa, ws = weights_of(W, len(sizes), "sym")
    one = fn(kind)(X, init_barycenter=init, max_iter=1, weights=wa)
    W.schedule(True)
    two = fn(kind)(X, init_barycenter=init, max_iter=1, weights=wa, n_jobs=2)
    W.check("same barycenter", W.all_eq(one, two))


@cases(CASES, [dict(kind=k, n_init=n) for k in ("pet", "mm") for n in (1, 2)])
def start(W, kind, n_init):
    """with no iteration the answer is the starting point: the given one, or the mean of series of equal length"""
    X = dataset(W, "x", (2, 2), 1)
    init = W.reals("b", 3, 1)
    kw = dict(n_init=n_init) if kind == "mm" else {}
    R = fn(kind)(X, init_barycenter=init, max_iter=0, **kw)
    W.check("given start", R is not None and W.truth(W.all_eq(R, init)))
    R = fn(kind)(X, max_iter=0, **kw)
    W.check("mean", R is not None and W.truth(W.and_(*[W.eq(R[i, 0] * 2, X[0, i, 0] + X[1, i, 0]) for i in range(2)])))
    R = fn(kind)(X, barycenter_size=3, max_iter=0, **kw)
    W.check("requested size", W.shape(R) == (3, 1))
    one = fn(kind)(X, init_barycenter=init, max_iter=1, **kw)
    check_step(W, "one iteration", kind, [rows(W, X, q, 2) for q in range(2)], pts(init), pts(one), [W.c(1)] * 2, ("none",))
