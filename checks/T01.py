"""T01: scalers map each series to the documented range or moments."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.preprocessing"]
ASSUMPTIONS = ["every scaled group (series, feature or whole data set, according to the flags) has at least one observed value"]


def P():
    return import_module("tslearn.preprocessing")


def data(W, name, sizes, d, holes=(), const=()):
    """padded dataset; cells in holes are missing; const = ((series, feature), ...) are constant"""
    T = max(sizes)
    X = []
    for q, n in enumerate(sizes):
        rows = []
        cs = {k: W.real("%s%d_c%d" % (name, q, k)) for k in range(d) if (q, k) in const}
        for i in range(T):
            rows.append([W.nan if i >= n or (q, i, k) in holes else cs[k] if k in cs else W.real("%s%d_%d_%d" % (name, q, i, k)) for k in range(d)])
        X.append(rows)
    return W.arr(X).reshape(len(sizes), T, d), X


def groups(sizes, d, pts_, ptf):
    """cells that share statistics"""
    n, T = len(sizes), max(sizes)
    g = {}
    for q in range(n):
        for i in range(T):
            for k in range(d):
                g.setdefault((q if pts_ else None, k if ptf else None), []).append((q, i, k))
    return g


SH = [((1,), 1, (), ()), ((3,), 1, (), ()), ((2, 2), 1, (), ()), ((2,), 2, (), ()), ((3, 2), 1, (), ()), ((1, 2), 2, (), ()), ((2, 2), 2, (), ()), ((3, 2), 2, ((0, 1, 0),), ()), ((3,), 1, ((0, 1, 0),), ()),
      ((2, 3), 2, (), ((0, 1),)), ((3, 3), 1, (), ((0, 0),)), ((2,), 3, ((0, 1, 1), ), ((0, 0),)), ((2, 2), 1, (), ((0, 0), (1, 0)))]
BIG = [((5, 4), 1, (), ()), ((3, 4), 2, ((0, 0, 0), (1, 2, 1)), ()), ((4, 4, 2), 1, (), ((2, 0),)), ((2, 3, 2), 3, (), ())]


def opts(shapes):
    return [dict(sizes=s, d=d, holes=h, const=c, pt=a, pf=b) for s, d, h, c in shapes for a in (True, False) for b in (True, False) if d > 1 or b]


def same_place(W, label, X, Y):
    W.check(label + ": shape", W.shape(X) == W.shape(Y))
    W.check(label + ": missing values stay in place and no others appear", all(W.isnan(a) == W.isnan(b) for a, b in zip(W.flat(X), W.flat(Y))))


def run(W, sc, X, mode):
    if mode == "fit_transform":
        return sc.fit_transform(X)
    return sc.fit(X).transform(X)


@cases(CASES, opts(SH), opts(BIG))
def minmax(W, sizes, d, holes, const, pt, pf):
    X, R = data(W, "x", sizes, d, set(holes), set(const))
    lo, hi = W.real("lo"), W.real("hi")
    W.assume(W.lt(lo, hi))
    if not W.symbolic and not lo < hi - 1e-3:
        W.assume(False)
    snap = snapshot(W, X)
    sc = P().TimeSeriesScalerMinMax(value_range=(lo, hi), per_timeseries=pt, per_feature=pf)
    Y = run(W, sc, X, "fit_transform" if len(sizes) % 2 else "fit")
    unchanged(W, "input unmodified", snap, X)
    same_place(W, "minmax", X, Y)
    for g, cells in groups(sizes, d, pt, pf).items():
        obs = [c for c in cells if not W.isnan(R[c[0]][c[1]][c[2]])]
        xs = [R[q][i][k] for q, i, k in obs]
        ys = [Y[q, i, k] for q, i, k in obs]
        m, M = W.min(xs), W.max(xs)
        for x, y in zip(xs, ys):
            # exact affine map of [m, M] onto [lo, hi]; constant data go to lo
            W.check("affine map", W.eq((y - lo) * (M - m), (x - m) * (hi - lo)))
            W.check("constant data map to the lower end", W.implies(W.eq(m, M), W.eq(y, lo)))
            W.check("in range", W.and_(W.le(lo, y), W.le(y, hi)))


@cases(CASES, opts(SH), opts(BIG))
def meanvar(W, sizes, d, holes, const, pt, pf):
    X, R = data(W, "x", sizes, d, set(holes), set(const))
    mu, s = W.real("mu"), W.real("std", pos=True)
    snap = snapshot(W, X)
    sc = P().TimeSeriesScalerMeanVariance(mu=mu, std=s, per_timeseries=pt, per_feature=pf)
    Y = run(W, sc, X, "fit_transform" if len(sizes) % 2 else "fit")
    unchanged(W, "input unmodified", snap, X)
    same_place(W, "meanvar", X, Y)
    for g, cells in groups(sizes, d, pt, pf).items():
        obs = [c for c in cells if not W.isnan(R[c[0]][c[1]][c[2]])]
        n = len(obs)
        xs = [R[q][i][k] for q, i, k in obs]
        ys = [Y[q, i, k] for q, i, k in obs]
        W.check("requested mean", W.eq(W.sum(ys), mu * n))
        v = W.sum([W.sqdist([x * n], [W.sum(xs)]) for x in xs])      # n^3 times the variance
        if W.truth(W.eq(v, 0)):
            for y in ys:
                W.check("constant data map to the mean", W.eq(y, mu))
        else:
            W.check("requested standard deviation", W.eq(W.sum([(y - mu) * (y - mu) for y in ys]), s * s * n))
            sd = W.sqrt(W.div(v, W.c(n ** 3)))
            for x, y in zip(xs, ys):
                W.check("affine map", W.eq((y - mu) * sd * n, s * (x * n - W.sum(xs))))


@cases(CASES, [dict(fit=f, new=g, d=d, pf=b, which=w) for f, g, d in (((2, 2), (3, 1), 1), ((3, 1), (2,), 2), ((2,), (2, 2), 1)) for b in (True, False) if d > 1 or b for w in ("minmax", "meanvar")])
def reuse(W, fit, new, d, pf, which):
    """per_timeseries=False: the fitted statistics apply to new data, which may leave the range; refitting forgets the old data"""
    A, RA = data(W, "a", fit, d)
    B, RB = data(W, "b", new, d)
    Z, RZ = data(W, "z", (2, 1), d)
    cls = P().TimeSeriesScalerMinMax if which == "minmax" else P().TimeSeriesScalerMeanVariance
    sc = cls(per_timeseries=False, per_feature=pf)
    sc.fit(Z).transform(Z)
    sc.fit(A)
    s2 = cls(per_timeseries=False, per_feature=pf).fit(A)
    Y = sc.transform(B)
    same_place(W, "new data", B, Y)
    again = sc.transform(B)
    W.check("transforming twice agrees", W.all_eq(Y, again))
    W.check("a refitted scaler equals a fresh one", W.all_eq(Y, s2.transform(B)))
    for g, cells in groups(fit, d, False, pf).items():
        xs = [RA[q][i][k] for q, i, k in cells if not W.isnan(RA[q][i][k])]
        n = len(xs)
        for q, t in enumerate(new):
            for i in range(t):
                for k in range(d):
                    if g[1] not in (None, k):
                        continue
                    x, y = RB[q][i][k], Y[q, i, k]
                    if which == "minmax":
                        m, M = W.min(xs), W.max(xs)
                        if W.truth(W.eq(m, M)):
                            W.check("offset by the fitted minimum", W.eq(y, x - m))
                        else:
                            W.check("fitted range", W.eq(y * (M - m), x - m))
                    else:
                        v = W.sum([W.sqdist([z * n], [W.sum(xs)]) for z in xs])
                        if W.truth(W.eq(v, 0)):
                            W.check("offset by the fitted mean", W.eq(y * n, x * n - W.sum(xs)))
                        else:
                            W.check("fitted moments", W.eq(y * n * W.sqrt(W.div(v, W.c(n ** 3))), x * n - W.sum(xs)))


@cases(CASES, [dict(which=w, pf=b) for w in ("minmax", "meanvar") for b in (True, False)])
def independent(W, which, pf):
    """per_timeseries=True: a series is scaled the same way whatever else is in the data set, at fit and at transform time"""
    A, _ = data(W, "a", (3, 2), 2)
    B, _ = data(W, "b", (2,), 2)
    cls = P().TimeSeriesScalerMinMax if which == "minmax" else P().TimeSeriesScalerMeanVariance
    sc = cls(per_timeseries=True, per_feature=pf)
    Y = sc.fit(B).transform(A)
    for q, n in enumerate((3, 2)):
        one = cls(per_timeseries=True, per_feature=pf).fit_transform(A[q:q + 1, :n])
        W.check("series %d alone" % q, W.all_eq(Y[q, :n], one[0]))


@cases(CASES, [dict(lo=a, hi=b) for a, b in ((0, 0), (1, 0), (0, 1), (-2, -1))])
def bad_range(W, lo, hi):
    X = W.reals("x", 2, 2, 1)
    sc = P().TimeSeriesScalerMinMax(value_range=(W.c(Fraction(lo)), W.c(Fraction(hi))))
    W.check("empty range rejected", (W.raises(lambda: sc.fit_transform(X), ValueError) is not None) == (lo >= hi))


@cases(CASES, [dict(which=w, form=f) for w in ("minmax", "meanvar") for f in ("list", "2d", "list2d")])
def containers(W, which, form):
    """lists and 2-d data (series of one feature) are scaled like the 3-d array"""
    X = W.reals("x", 2, 3, 1)
    cls = P().TimeSeriesScalerMinMax if which == "minmax" else P().TimeSeriesScalerMeanVariance
    Y = cls().fit_transform(X)
    V = dict(list=[[[X[q, i, 0]] for i in range(3)] for q in range(2)], list2d=[[X[q, i, 0] for i in range(3)] for q in range(2)])
    Z = cls().fit_transform(X[:, :, 0] if form == "2d" else V[form])
    W.check("shape", W.shape(Z) == (2, 3, 1))
    W.check("values", W.all_eq(Z, Y))
