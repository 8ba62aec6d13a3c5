"""M15: forecast error metrics follow their definitions."""
from importlib import import_module
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.metrics.performance"]
ASSUMPTIONS = ["sklearn.metrics.mean_absolute_error / mean_squared_error are modelled by their documented weighted column means"]


def P():
    return import_module("tslearn.metrics.performance")


def weights(W, name, n, w):
    return [W.c(1)] * n if w is None else [W.real("%s%d" % (name, i), pos=True) for i in range(n)]


def wmean(W, vals, ws):
    return W.div(W.sum([a * b for a, b in zip(vals, ws)]), W.sum(ws))


def setup(W, n, t, d, tw, sw, mo, form):
    Y, Z = dataset(W, "y", (t,) * n, d), dataset(W, "z", (t,) * n, d)
    a, b = weights(W, "tw", n, tw), weights(W, "sw", t, sw)
    kw = {}
    mk = W.arr if form == "array" else list
    if tw:
        kw["ts_weights"] = mk(a)
    if sw:
        kw["timestamps_weights"] = mk(b)
    c = None
    if mo == "weights":
        c = weights(W, "mo", d, 1)
        kw["multioutput"] = mk(c)
    elif mo:
        kw["multioutput"] = mo
    return Y, Z, a, b, c, kw


def definition(W, Y, Z, a, b, c, raw, loss):
    n, t, d = W.shape(Y)
    feat = []
    for k in range(d):
        feat.append(wmean(W, [wmean(W, [loss(Y[q, i, k] - Z[q, i, k]) for q in range(n)], a) for i in range(t)], b))
    return feat if raw else [wmean(W, feat, c or [W.c(1)] * d)]


CFG = [dict(n=n, t=t, d=d, tw=tw, sw=sw, mo=mo, form=form) for n, t, d in ((1, 1, 1), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 3, 2), (3, 2, 2))
       for tw, sw, mo, form in ((None, None, None, "array"), (1, None, "raw_values", "array"), (None, 1, "weights", "array"), (1, 1, "weights", "list"), (1, 1, "uniform_average", "array"))]


def loss_of(W, name):
    return (lambda e: W.abs(e)) if name != "mse" else (lambda e: e * e)


@cases(CASES, [dict(c, name=nm) for c in CFG for nm in ("mae", "mse")])
def error(W, n, t, d, tw, sw, mo, form, name):
    Y, Z, a, b, c, kw = setup(W, n, t, d, tw, sw, mo, form)
    snap = snapshot(W, Y, Z)
    f = getattr(P(), name)
    r = f(Y, Z, **kw)
    ref = definition(W, Y, Z, a, b, c, mo == "raw_values", loss_of(W, name))
    W.check("shape", (W.shape(r) if mo == "raw_values" else ()) == ((d,) if mo == "raw_values" else ()))
    W.check("value", W.all_eq(r if mo == "raw_values" else [r], ref))
    W.check("symmetric", W.all_eq(f(Z, Y, **kw), r))
    unchanged(W, "inputs unmodified", snap, Y, Z)
    if not mo or mo != "raw_values":
        W.check("nonnegative", W.le(0, r))
    if n * t * d <= 4 and mo != "raw_values":
        every = W.and_(*[W.eq(x, y) for x, y in zip(W.flat(Y), W.flat(Z))])
        W.check("zero exactly for a perfect forecast", W.and_(W.implies(every, W.eq(r, 0)), W.implies(W.eq(r, 0), every)))
    W.check("perfect forecast", W.all_eq(f(Y, Y, **kw), [W.c(0)] * len(ref)))


@cases(CASES, [dict(c, name="mase", period=p, tn=tn, tt=tt) for c in CFG for p, tn, tt in ((1, 1, 2), (2, 2, 3), (1, 2, 3)) if c["n"] * c["t"] * c["d"] <= 8])
def scaled(W, n, t, d, tw, sw, mo, form, name, period, tn, tt):
    Y, Z, a, b, c, kw = setup(W, n, t, d, tw, sw, mo, form)
    X = dataset(W, "x", (tt,) * tn, d)
    raw = mo == "raw_values"
    naive = [[W.abs(X[q, i, k] - X[q, i + period, k]) for q in range(tn) for i in range(tt - period)] for k in range(d)]
    sc = [wmean(W, v, [W.c(1)] * len(v)) for v in naive]
    if not raw:
        sc = [wmean(W, sc, [W.c(1)] * d)]
    for s in sc:
        W.assume(W.lt(W.c(Fraction(1, 1000)), s))
    snap = snapshot(W, Y, Z, X)
    if not (period == 1 and n == 1):
        kw["seasonal_period"] = period
    r = P().mase(Y, Z, X, **kw)
    ref = definition(W, Y, Z, a, b, c, raw, loss_of(W, "mae"))
    got = W.flat(r) if raw else [r]
    W.check("one value per feature", len(got) == len(ref))
    for g, m, s in zip(got, ref, sc):
        W.check("mae over the in-sample naive error", W.eq(g * s, m))
    unchanged(W, "inputs unmodified", snap, Y, Z, X)


@cases(CASES, [dict(name=nm, s1=a, s2=b) for nm in ("mae", "mse", "mase") for a, b in (((2, 2, 1), (1, 2, 1)), ((2, 2, 1), (2, 3, 1)), ((1, 2, 1), (1, 2, 2)))])
def mismatch(W, name, s1, s2):
    f = getattr(P(), name)
    args = [W.reals("y", *s1), W.reals("z", *s2)] + ([W.reals("y", *s1)] if name == "mase" else [])
    W.check("shape mismatch is refused", W.raises(lambda: f(*args), ValueError) == "ValueError")
