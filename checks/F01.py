"""F01: VARIMA forecasts follow the fitted recursion, undo the differencing, and continue noise-free series exactly."""
from importlib import import_module
from math import comb
from symts.harness import cases
from .common import *

CASES = []
PRELOAD = ["tslearn.forecasting"]
ASSUMPTIONS = ["scipy.optimize.minimize is replaced by a stand-in returning a point near its start (any returned point must give a coherent model)",
               "numpy.linalg.lstsq is modelled by the normal equations (full column rank)"]


def V():
    return import_module("tslearn.forecasting")


SEEN = []


def nudge(fun, x0, *a, **k):
    """stand-in optimiser: evaluates the objective at its start and at a nearby point, and returns the latter"""
    import types
    f0 = fun(x0)
    x = x0.copy()
    for i in range(len(x)):
        x[i] = x[i] * (Fraction(7, 8) if i % 2 else Fraction(9, 8)) + Fraction(i % 3 - 1, 16) if not isinstance(x[i], float) else x[i] * (0.875 if i % 2 else 1.125) + (i % 3 - 1) / 16
    f = fun(x)
    SEEN[:] = [f0, f]
    return types.SimpleNamespace(x=x, fun=f, success=True, nit=1, nfev=2, message="stand-in")


def fixed(W, sizes, d, seed, T=None):
    """dataset of fixed numbers, NaN padded"""
    g = lcg(seed)
    T = T or max(sizes)
    rows = []
    for n in sizes:
        rows.append([[W.c(Fraction(next(g))) for _ in range(d)] for _ in range(n)] + [[W.nan] * d] * (T - n))
    return W.arr(rows).reshape(len(sizes), T, d)


def vec(a):
    return [list(r) for r in a]


def sub(u, v):
    return [a - b for a, b in zip(u, v)]


def add(u, v):
    return [a + b for a, b in zip(u, v)]


def times(W, u, M):
    """row vector by matrix: coefficient [i][j] carries feature i of the past into feature j"""
    return [W.sum([u[i] * M[i, j] for i in range(len(u))]) for j in range(len(u))]


def difference(x, d, m):
    w = [sub(x[t], x[t - m]) for t in range(m, len(x))] if m else x
    for _ in range(d):
        w = [sub(w[t], w[t - 1]) for t in range(1, len(w))]
    return w


def coeffs(W, m, k):
    z = [W.c(0)] * k
    c = [m.intercept_[i] for i in range(k)] if m.with_constant else z
    A = [m.ar_coeffs_[i] for i in range(m.p)]
    M = [m.ma_coeffs_[i] for i in range(m.q)]
    return c, A, M


def mean_next(W, w, e, c, A, M):
    """conditional mean given the past (latest last)"""
    s = list(c)
    for j, a in enumerate(A):
        s = add(s, times(W, w[-1 - j], a))
    for j, b in enumerate(M):
        s = add(s, times(W, e[-1 - j], b))
    return s


def residuals(W, w, c, A, M, k):
    st = max(len(A), len(M))
    e = [[W.c(0)] * k for _ in range(st)]
    for t in range(st, len(w)):
        e.append(sub(w[t], mean_next(W, w[:t], e, c, A, M)))
    return e


def forecast(W, x, model, n, k, m):
    """reference: x_t solves (1-B)^d (1-B^m) x = w with w the ARMA recursion and zero future shocks"""
    c, A, M = coeffs(W, model, k)
    d = model.d
    w = difference(x, d, m)
    e = residuals(W, w, c, A, M, k)
    s = [sub(x[t], x[t - m]) for t in range(m, len(x))] if m else list(x)
    x = list(x)
    out = []
    for _ in range(n):
        y = mean_next(W, w, e, c, A, M)
        w = w + [y]
        e = e + [[W.c(0)] * k]
        v = list(y)
        for j in range(1, d + 1):
            v = sub(v, [((-1) ** j * comb(d, j)) * z for z in s[-j]])
        s.append(v)
        y = add(v, x[-m]) if m else v
        x.append(y)
        out.append(y)
    return out


def make(p, d, q, c, m, **k):
    return V().VARIMA(p, d, q, with_constant=c, seasonal_period=m, **k)


ORD = [(1, 0, 0, True, None, 1, (5,), (3,)), (1, 0, 0, True, None, 2, (7,), (3, 2)), (2, 0, 0, True, None, 2, (9, 8), (4, 3)), (3, 0, 0, False, None, 1, (9,), (5, 4)),
       (0, 1, 0, True, None, 1, (4,), (3, 2)), (0, 2, 0, True, None, 1, (5,), (3, 4)), (0, 3, 0, False, None, 1, (5,), (5, 4)), (1, 2, 0, True, None, 1, (7,), (4, 5)), (1, 1, 0, False, None, 2, (6,), (3, 4)), (2, 2, 0, True, None, 1, (9,), (5, 6)),
       (0, 0, 1, True, None, 1, (5,), (3, 4)), (0, 0, 2, True, None, 1, (6,), (4, 5)), (0, 0, 3, False, None, 1, (8,), (4, 6)), (0, 0, 2, True, None, 2, (7,), (3, 5)), (1, 0, 1, True, None, 2, (7,), (3, 5)), (1, 0, 2, False, None, 1, (6,), (4, 5)),
       (2, 0, 1, True, None, 1, (8,), (4, 6)), (1, 1, 2, True, None, 1, (7,), (5, 6)), (1, 2, 1, False, None, 1, (7,), (5, 6)), (2, 1, 1, True, None, 2, (15, 13), (5, 6)),
       (0, 0, 0, True, None, 2, (3, 2), (1, 2)), (0, 0, 0, False, None, 1, (2,), (1, 2)), (0, 0, 0, True, 1, 1, (3,), (2, 3)), (0, 0, 0, True, 3, 1, (6,), (4, 6)), (1, 0, 0, True, 2, 1, (6,), (4, 6)), (0, 1, 0, True, 2, 1, (6,), (4, 5)),
       (1, 1, 0, True, 3, 2, (9,), (6, 7)), (0, 2, 0, True, 2, 1, (8,), (5, 7)), (0, 0, 1, True, 2, 1, (8,), (4, 6)), (1, 1, 1, False, 2, 1, (9,), (6, 8)), (1, 2, 2, True, 2, 1, (12,), (8, 9))]


def order_cases():
    return [dict(p=p, d=d, q=q, c=c, m=m, k=k, fit=f, sizes=s) for p, d, q, c, m, k, f, s in ORD]


@cases(CASES, order_cases(), [dict(p=3, d=1, q=3, c=True, m=2, k=2, fit=(24,), sizes=(10, 14)), dict(p=2, d=3, q=2, c=True, m=3, k=1, fit=(16,), sizes=(12, 15)), dict(p=4, d=0, q=4, c=True, m=None, k=2, fit=(40,), sizes=(9, 12))], budget=300)
def recursion(W, p, d, q, c, m, k, fit, sizes):
    """forecasts of new (symbolic) series under the fitted coefficients"""
    W.hook("minimize", nudge)
    model = make(p, d, q, c, m).fit(fixed(W, fit, k, 3 + p + 2 * q))
    s = m or 0
    X = dataset(W, "x", sizes, k, max(sizes) + 1)
    snap = snapshot(W, X)
    keep = [model.intercept_.copy(), model.ar_coeffs_.copy(), model.ma_coeffs_.copy()]
    before = model.predict(n=2)
    n = (s or 1) + 2
    Y = model.predict(X, n=n)
    unchanged(W, "input unmodified", snap, X)
    W.check("shape", W.shape(Y) == (len(sizes), n, k))
    W.check("coefficient shapes", W.shape(model.ar_coeffs_)[0] == p and W.shape(model.ma_coeffs_)[0] == q)
    for i, T in enumerate(sizes):
        ref = forecast(W, [[X[i, t, f] for f in range(k)] for t in range(T)], model, n, k, s)
        for h in range(n):
            for f in range(k):
                W.check("forecast follows the recursion", W.eq(Y[i, h, f], ref[h][f]))
        W.check("same as the series alone", W.all_eq(model.predict(X[i:i + 1, :T], n=n)[0], Y[i]))
    W.check("shorter horizon is a prefix", W.all_eq(model.predict(X), Y[:, :1]))
    W.check("a list of series", W.all_eq(model.predict([[[X[0, t, f] for f in range(k)] for t in range(sizes[0])]], n=2), Y[:1, :2]))
    W.check("model not modified", all(W.truth(W.all_eq(a, b)) if a.size else b.size == 0 for a, b in zip(keep, [model.intercept_, model.ar_coeffs_, model.ma_coeffs_])))
    W.check("forecast of the fitted data not modified", W.all_eq(model.predict(n=2), before))


def sized(fit, k):
    return [dict(p=p, d=d, q=q, c=c, m=m, k=k, sizes=s) for p, d, q, c, m, k, s in fit]


FIT = sized([(0, 0, 0, True, None, 1, (3, 2)), (1, 0, 0, True, None, 1, (5, 4)), (0, 0, 0, True, None, 2, (3, 2)), (0, 1, 0, True, None, 1, (3, 4)), (2, 0, 0, False, None, 1, (6, 5)), (1, 0, 0, True, None, 2, (7,)), (1, 1, 0, True, None, 1, (6, 5)), (0, 2, 0, True, 2, 1, (7, 6)),
             (1, 0, 0, False, 2, 1, (6, 5)), (0, 0, 1, True, None, 1, (5, 7)), (0, 0, 2, True, None, 1, (8, 6)), (1, 0, 2, True, None, 1, (9, 7)), (0, 1, 2, False, 1, 1, (9, 7)), (2, 1, 2, True, None, 1, (12, 10)), (1, 0, 1, True, None, 2, (9, 8)), (0, 0, 3, True, None, 1, (10, 8))], 1)


@cases(CASES, FIT, budget=300)
def fitted_data(W, p, d, q, c, m, k, sizes):
    """predict() forecasts the fitted series; refits forget; padding is ignored; the objective is the reported likelihood"""
    W.hook("minimize", nudge)
    X = fixed(W, sizes, k, 11 + p + q)
    if q == 0:
        X[0, 1, 0] = W.real("x", -8, 8)      # one free value
    snap = snapshot(W, X)
    model = make(p, d, q, c, m)
    W.check("fit returns the estimator", model.fit(X) is model)
    obj = list(SEEN)
    unchanged(W, "input unmodified", snap, X)
    n = (m or 1) + 2
    Y = model.predict(n=n)
    W.check("predict() forecasts the fitted data", W.all_eq(Y, model.predict(X, n=n)))
    W.check("repeatable", W.all_eq(Y, model.predict(n=n)))
    W.check("one step", W.all_eq(Y[:, :1], model.predict()))
    if q:
        W.check("reported likelihood is the objective's", W.eq(obj[1], -model.lle_))
    if not (p or q) and k == 1 and c:
        w = [difference([[X[i, t, 0]] for t in range(T)], d, m or 0) for i, T in enumerate(sizes)]
        N = sum(len(u) for u in w)
        sse = W.sum([(v[0] - model.intercept_[0]) * (v[0] - model.intercept_[0]) for u in w for v in u])
        W.assume(W.lt(W.c(Fraction(1, 100)), sse))
        W.check("Gaussian likelihood", W.eq(model.lle_ * (-2), N * (W.log(W.div(sse, N)) + W.log(W.c(2) * pi(W)) + 1)))
    # history and padding
    T = max(sizes)
    P = W.arr([[[X[i, t, f] for f in range(k)] for t in range(T)] + [[W.nan] * k] * 2 for i in range(len(sizes))]).reshape(len(sizes), T + 2, k)
    other = make(p, d, q, c, m)
    other.fit(fixed(W, tuple(s + 1 for s in sizes), k, 5))
    other.predict(n=2)
    W.check("refit on padded data is a fresh fit", W.all_eq(other.fit_predict(P, n=n), Y))
    W.check("same likelihood", W.eq(other.lle_, model.lle_))
    if len(sizes) == 2:
        R = make(p, d, q, c, m).fit(X[::-1].copy()).predict(n=n)
        W.check("order of the series does not matter", W.all_eq(R[::-1], Y))
    lens = [s for s in sizes]
    need = p + q + d + 1 + (m or 0)
    short = fixed(W, (max(sizes), need - 1), k, 2)
    W.check("too short series rejected", need < 2 or W.raises(lambda: model.predict(short), ValueError) is not None)
    W.check("other number of features rejected", W.raises(lambda: model.predict(fixed(W, sizes, k + 1, 2)), ValueError) is not None)


def pi(W):
    import math
    return W.c(math.pi)


LSQ = [dict(p=p, c=c, d=d, m=m, k=k, sz=s, free=f) for p, c, d, m, k, s, f in (
    (1, True, 0, None, 1, 5, (0, 2)), (1, False, 0, None, 1, 4, (0, 1, 3)), (2, True, 0, None, 1, 7, (3,)), (1, True, 0, None, 2, 7, (2,)), (2, False, 0, None, 2, 9, (4,)), (1, True, 1, None, 1, 6, (1, 3)), (0, True, 1, None, 2, 5, (0, 1, 2, 3, 4)), (0, True, 2, None, 1, 6, (0, 2, 5)), (1, True, 0, 2, 1, 7, (2,)), (1, False, 2, None, 1, 7, (2,)))]


@cases(CASES, LSQ, budget=300)
def least_squares(W, p, c, d, m, k, sz, free):
    """without moving-average part the coefficients of one series minimise its squared one-step errors"""
    X = mixed(W, "x", sz, k, free, 7).reshape(1, sz, k)
    model = make(p, d, 0, c, m).fit(X)
    cc, A, M = coeffs(W, model, k)
    w = difference([[X[0, t, f] for f in range(k)] for t in range(sz)], d, m or 0)
    e = residuals(W, w, cc, A, M, k)
    for j in range(k):
        if c:
            W.check("errors sum to zero", W.eq(W.sum([e[t][j] for t in range(p, len(w))]), 0))
        for l in range(1, p + 1):
            for i in range(k):
                W.check("errors orthogonal to the past", W.eq(W.sum([e[t][j] * w[t - l][i] for t in range(p, len(w))]), 0))


TRUE = [dict(p=p, d=d, m=m, k=k, c=c, sz=s, n_ts=n, free=f) for p, d, m, k, c, s, n, f in (
    (1, 0, None, 1, True, 6, 2, 1), (1, 0, None, 1, False, 4, 1, 1), (2, 0, None, 1, True, 9, 1, 1), (1, 0, None, 2, True, 8, 1, 0), (2, 0, None, 2, False, 12, 1, 0), (1, 0, None, 2, False, 6, 2, 0), (0, 1, None, 1, True, 4, 2, 1), (0, 2, None, 1, True, 5, 2, 2), (0, 3, None, 1, True, 6, 1, 2),
    (0, 2, None, 2, False, 4, 2, 2), (1, 1, None, 1, True, 7, 2, 1), (1, 2, None, 1, False, 7, 1, 1), (0, 0, 2, 1, True, 5, 2, 2), (0, 1, 3, 1, True, 8, 2, 2), (1, 0, 2, 1, True, 9, 1, 1), (0, 2, 2, 1, False, 7, 1, 2), (1, 1, None, 2, False, 9, 1, 0))]

COEF = {1: [[[Fraction(3, 4)]], [[Fraction(-1, 2)]]], 2: [[[Fraction(1, 2), Fraction(1, 4)], [Fraction(-3, 4), Fraction(1, 2)]], [[Fraction(1, 4), Fraction(-1, 2)], [Fraction(1, 8), Fraction(3, 4)]]]}


@cases(CASES, TRUE, budget=300)
def noise_free(W, p, d, m, k, c, sz, n_ts, free):
    """series that follow a VARIMA(p, d, 0) recursion exactly are continued exactly"""
    const = [Fraction(1, 2), Fraction(-1, 4)][:k] if c else [Fraction(0)] * k
    h = (m or 1) + 2
    g = lcg(17)
    full = []
    for i in range(n_ts):
        s0 = m or 0
        x = [[W.c(Fraction(next(g))) for _ in range(k)] for _ in range(p + d + s0)]
        for f in range(free if i == 0 else 0):
            x[f][0] = W.real("x%d" % f, -6, 6)
        while len(x) < sz + h:
            s = [sub(x[t], x[t - s0]) for t in range(s0, len(x))] if s0 else list(x)
            w = s
            for _ in range(d):
                w = [sub(w[t], w[t - 1]) for t in range(1, len(w))]
            y = list(const)
            for j in range(p):
                y = [y[b] + W.sum([w[-1 - j][a] * COEF[k][j][a][b] for a in range(k)]) for b in range(k)]
            for j in range(1, d + 1):
                y = sub(y, [((-1) ** j * comb(d, j)) * z for z in s[-j]])
            x.append(add(y, x[-s0]) if s0 else y)
        full.append(x)
    F = W.arr(full).reshape(n_ts, sz + h, k)
    X = F[:, :sz].copy()
    if n_ts > 1:
        X[1, sz - 1] = W.nan
    model = make(p, d, 0, c, m).fit(X)
    Y = model.predict(n=h)
    for i in range(n_ts):
        a = sz - (1 if i == 1 else 0)
        W.check("continued exactly", W.all_eq(Y[i], F[i, a:a + h]))
    for j in range(p):
        for a in range(k):
            for b in range(k):
                W.check("coefficients recovered", W.eq(model.ar_coeffs_[j, a, b], COEF[k][j][a][b]))
