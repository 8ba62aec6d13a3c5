"""E01: early classification decides at the first timestamp that no later one is expected to beat."""
from importlib import import_module
from sklearn.base import BaseEstimator, ClassifierMixin
from symts.harness import cases
from .common import *
from .C01 import numbers

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.clustering", "tslearn.neighbors", "tslearn.early_classification"]
ASSUMPTIONS = ["k-means++ seeding is replaced by fixed distinct rows; the stratified split is scikit-learn's own (positions only)",
               "base classifiers are threshold rules on the last observed value with free thresholds (their outputs on the held-out series are arbitrary monotone labelings), and the default 1-NN classifier",
               "exp is an uninterpreted positive function; series have the training length in predict"]


class Rule(ClassifierMixin, BaseEstimator):
    """label = number of thresholds reached by the last value; one set of thresholds per length"""
    W = None
    thr = None
    fits = None

    def __init__(self, tag=None):
        self.tag = tag

    def fit(self, X, y):
        W = Rule.W
        self.X_, self.y_ = X, [v for v in W.flat(y)]
        self.t_ = W.shape(X)[1]
        self.classes_ = lab(W, sorted(set(self.y_)))
        return self

    def _index(self, X):
        W = Rule.W
        return [sum(1 for h in Rule.thr[self.t_] if W.truth(W.le(h, x[len(x) - 1][0]))) for x in X]

    def predict(self, X):
        W = Rule.W
        c = W.flat(self.classes_)
        return lab(W, [c[min(i, len(c) - 1)] for i in self._index(X)])

    def predict_proba(self, X):
        W = Rule.W
        n = len(W.flat(self.classes_))
        return W.arr([[x[len(x) - 1][0] * self.t_ + c for c in range(n)] for x in X])


def lab(W, v):
    return W.arr(v, None if v and isinstance(v[0], str) else int)


def rule(W, x, t, classes):
    """class of x given its first t samples"""
    return classes[min(sum(1 for h in Rule.thr[t] if W.truth(W.le(h, x[t - 1]))), len(classes) - 1)]


def model(W, thr, init, **kw):
    cls = import_module("tslearn.early_classification").NonMyopicEarlyClassifier
    Rule.W, Rule.thr = W, thr
    W.hook("kmeanspp", lambda X, n_clusters, rng: (X[[int(i) for i in init[:n_clusters]]], None))
    return cls(**kw)


def learned(W, m, X, y, K, min_t, classes, judge):
    """fitted probabilities against counts; returns (pyck, errors[t][k][class])"""
    n, sz = len(X), len(X[0])
    ck = [int(v) for v in W.flat(m.cluster_.labels_)]
    P = [[W.c(Fraction(sum(1 for q in range(n) if ck[q] == k and y[q] == c), ck.count(k))) for k in range(K)] for c in classes]
    W.check("pyck_ is the class distribution of every cluster", W.all_eq(m.pyck_, P))
    W.check("one classifier per timestamp", sorted(m.classifiers_) == list(range(min_t, sz + 1)))
    full = m.classifiers_[sz]
    rows = [[W.flat(r) for r in full.X_]][0]
    train = []
    for r in rows:
        hit = [q for q in range(n) if q not in train and all(W.truth(W.eq(a, b)) for a, b in zip(r, X[q]))]
        W.check("classifiers are trained on the given series", bool(hit))
        train.append(hit[0] if hit else 0)
    rest = [q for q in range(n) if q not in train]
    W.check("part of the data is held out", 0 < len(train) < n)
    err = {}
    seen = sorted({y[q] for q in train})
    for t in range(min_t, sz + 1):
        c = m.classifiers_[t]
        if judge:
            W.check("classifier t sees the first t timestamps", W.shape(c.X_) == (len(train), t, 1) and W.truth(W.all_eq(c.X_, [X[q][:t] for q in train])))
            W.check("classifier t sees the labels of its series", c.y_ == [y[q] for q in train])
        err[t] = []
        for k in range(K):
            M = []
            for i, ci in enumerate(classes):
                held = [q for q in rest if ck[q] == k and y[q] == ci]
                row = [W.c(Fraction(sum(1 for q in held if rule(W, X[q], t, seen) == cj), len(held))) if held and i != j else W.c(Fraction(0)) for j, cj in enumerate(classes)]
                M.append(row)
            W.check("pyhatyck_ is the confusion rate on the held-out series of the cluster", W.all_eq(m.pyhatyck_[t - min_t, k], M))
            err[t].append([W.sum(r) for r in M])
    return P, err, seen


def membership(W, m, x, t, K, lamb):
    """P(cluster | first t values)"""
    D = [W.sqrt(W.sum([(x[i] - m.cluster_.cluster_centers_[k][i, 0]) * (x[i] - m.cluster_.cluster_centers_[k][i, 0]) for i in range(t)])) for k in range(K)]
    mean = W.sum(D) / K
    if W.truth(W.eq(mean, 0)):
        return [W.c(Fraction(1, K))] * K
    s = [1 / (1 + W.exp(-lamb * (1 - d / mean))) for d in D]
    return [v / W.sum(s) for v in s]


def costs(W, m, P, err, x, t, sz, K, lamb, alpha):
    """expected cost of deciding at t, t + 1, ..., sz given the first t values"""
    pk = membership(W, m, x, t, K, lamb)
    return [W.sum([pk[k] * W.sum([P[c][k] * err[u][k][c] for c in range(len(P))]) for k in range(K)]) + u * alpha for u in range(t, sz + 1)]


def accepted(W, m, P, err, x, when, sz, min_t, K, lamb, alpha):
    """when is the first timestamp whose own expected cost is minimal over the remaining ones"""
    W.check("decision time in range", min_t <= when <= sz)
    for t in range(min_t, min(when, sz) + 1):
        f = costs(W, m, P, err, x, t, sz, K, lamb, alpha)
        if t == when and t < sz:
            for v in f[1:]:
                W.check("no later decision is expected to be cheaper", W.le(f[0], v))
        elif t < when:
            W.check("an earlier timestamp is left only for a cheaper later one", W.or_(*[W.lt(v, f[0]) for v in f[1:]]))


def values(W, n, sz, seed, K=2, same_start=False):
    """K groups of distinct series around different slopes"""
    g = lcg(seed)
    return [[W.c(Fraction(0 if same_start and not i else (10 * (q % K) - 5 * (K - 1)) * (i + 1) + next(g) + Fraction(q, 8))) for i in range(sz)] for q in range(n)]


def thresholds(W, free, sz, nc, seed, spread=12):
    g = lcg(seed)
    out = {}
    for t in range(0, sz + 1):
        h = [W.c(Fraction(2 * next(g) + 5 * c)) for c in range(nc - 1)]
        if t in free:
            h = [W.real("h%d_%d" % (t, c)) for c in range(nc - 1)]
        out[t] = h
    return out


def tsarr(W, X):
    return W.arr([[[v] for v in r] for r in X])


NAMES = {2: ["a", "b"], 3: ["a", "b", "c"]}
FIT = [dict(n=n, sz=sz, K=K, nc=nc, min_t=mt, free=f, names=nm, seed=s) for n, sz, K, nc, mt, f, nm, s in (
    (6, 2, 1, 2, 1, (1,), False, 1), (8, 3, 2, 2, 1, (1, 3), False, 2), (6, 2, 2, 2, 2, (2,), True, 3), (8, 3, 1, 3, 1, (2,), False, 4), (10, 2, 2, 3, 1, (1,), True, 5), (8, 3, 2, 2, 2, (2, 3), False, 6))]


@cases(CASES, FIT, [dict(n=12, sz=4, K=3, nc=3, min_t=1, free=(2,), names=False, seed=7), dict(n=12, sz=3, K=2, nc=2, min_t=1, free=(1, 2, 3), names=True, seed=8)], feas_exact=True, over_thorough=dict(budget=600))
def training(W, n, sz, K, nc, min_t, free, names, seed):
    """what fit learns, and decisions of the learned model"""
    X = values(W, n, sz, seed, K)
    g = lcg(seed + 70)
    classes = NAMES[nc] if names else [0, 2, 5][:nc]
    y = [classes[q % nc] if q < nc * 2 else classes[int(next(g) + 100) % nc] for q in range(n)]
    A = tsarr(W, X)
    snap = snapshot(W, A)
    m = model(W, thresholds(W, free, sz, nc, seed), range(K), n_clusters=K, base_classifier=Rule("base"), min_t=min_t, lamb=1.0, cost_time_parameter=W.c(Fraction(1, 16)), random_state=seed)
    m.fit(A, lab(W, y))
    unchanged(W, "data unmodified", snap, A)
    W.check("base classifier is only cloned", not hasattr(m.base_classifier, "t_") and m.classifiers_[sz].tag == "base")
    P, err, seen = learned(W, m, X, y, K, min_t, classes, True)
    W.check("classes_", W.flat(m.classes_) == seen)


DEC = [dict(sz=sz, K=K, min_t=mt, lamb=lm, free=f, alpha=al, seed=s, ss=ss) for sz, K, mt, lm, f, al, s, ss in (
    (3, 1, 1, 1.0, (), "free", 11, False), (3, 2, 1, 0, (), "free", 12, False), (4, 2, 1, 0, (), "free", 13, False), (3, 2, 2, 1.0, (), "free", 14, False), (2, 2, 1, 1.0, (1,), Fraction(1, 16), 15, False), (2, 2, 1, 2.0, (0,), Fraction(1, 16), 22, False), (3, 2, 1, 2.0, (0,), Fraction(1, 16), 123, False), (3, 2, 1, 2.0, (0,), Fraction(1, 16), 139, False), (3, 2, 1, 2.0, (0,), Fraction(1, 16), 148, False), (3, 2, 1, 2.0, (0,), Fraction(1, 16), 125, False), (2, 2, 1, 2.0, (), "free", 23, False), (3, 2, 1, 5.0, (), "free", 24, False), (4, 2, 1, 4.0, (2,), Fraction(1, 32), 16, False),
    (2, 3, 1, 1.0, (), "free", 25, False), (3, 3, 1, 2.0, (1,), Fraction(1, 16), 17, False), (3, 2, 1, 1.0, (), "free", 18, True), (4, 2, 3, 1.0, (3,), Fraction(1, 16), 20, False), (3, 2, 1, 3.0, (0,), Fraction(-1, 16), 21, False))]


@cases(CASES, DEC, [dict(sz=2, K=2, min_t=1, lamb="free", free=(), alpha=Fraction(1, 16), seed=19, ss=False), dict(sz=3, K=2, min_t=1, lamb=2.0, free=(0,), alpha=Fraction(1, 16), seed=124, ss=False), dict(sz=3, K=2, min_t=1, lamb=2.0, free=(2,), alpha=Fraction(1, 16), seed=152, ss=False), dict(sz=5, K=2, min_t=1, lamb=0, free=(), alpha="free", seed=31, ss=False), dict(sz=3, K=2, min_t=1, lamb=1.0, free=(1,), alpha=Fraction(1, 16), seed=15, ss=False), dict(sz=4, K=3, min_t=1, lamb=3.0, free=(1, 2), alpha=Fraction(1, 32), seed=32, ss=False)], feas_exact=True, over_thorough=dict(budget=600))
def decision(W, sz, K, min_t, lamb, free, alpha, seed, ss):
    """decision times and classes of a fitted model"""
    n = 8 if K < 3 else 12
    X = values(W, n, sz, seed, K, ss)
    g = lcg(seed + 70)
    classes = [0, 1]
    y = [int(4 * next(g) + 100) // 3 % 2 for q in range(n)]
    alpha = W.real("alpha", -1, 1) if alpha == "free" else W.c(alpha)
    lamb = W.real("lamb", 0, 10) if lamb == "free" else W.c(Fraction(lamb))
    m = model(W, thresholds(W, (), sz, 2, seed), range(K), n_clusters=K, base_classifier=Rule(), min_t=min_t, lamb=lamb, cost_time_parameter=alpha, random_state=seed)
    m.fit(tsarr(W, X), lab(W, y))
    P, err, seen = learned(W, m, X, y, K, min_t, classes, False)
    Q = [list(X[0]), list(X[1])] if len(free) < 2 else [list(X[1])]
    for z, i in enumerate(free):
        Q[-1][i] = W.real("q%d" % z, -30, 30)
    A = tsarr(W, Q)
    snap = snapshot(W, A)
    for x in Q:
        for t in range(1, sz + 1):
            W.check("cluster probabilities", W.all_eq(m.get_cluster_probas(W.arr([[v] for v in x[:t]])), membership(W, m, x, t, K, lamb)))
    c, when = m.predict_class_and_earliness(A)
    c, when = W.flat(c), [int(v) for v in W.flat(when)]
    W.check("one decision per series", len(c) == len(when) == len(Q))
    for q, x in enumerate(Q):
        accepted(W, m, P, err, x, when[q], sz, min_t, K, lamb, alpha)
        W.check("class given by the classifier of the decision time", c[q] == rule(W, x, when[q], seen))
    W.check("predict gives the classes", W.flat(m.predict(A)) == c)
    p, w2 = m.predict_proba_and_earliness(A)
    W.check("same decision times with probabilities", [int(v) for v in W.flat(w2)] == when)
    W.check("probabilities of the classifier of the decision time", W.all_eq(p, [[x[t - 1] * t + k for k in range(len(seen))] for x, t in zip(Q, when)]))
    W.check("predict_proba gives them", W.all_eq(m.predict_proba(A), p))
    yq = [1, 0][:len(Q)]
    acc = W.c(Fraction(sum(1 for a, b in zip(c, yq) if a == b), len(Q)))
    W.check("cost is error rate plus mean time cost", W.eq((m.early_classification_cost(A, lab(W, yq)) - 1 + acc) * len(Q), W.sum([alpha * t for t in when])))
    # values after the decision and the other series do not matter
    R = [list(Q[-1])]
    for i in range(when[-1], sz):
        R[0][i] = W.real("z%d" % i)
    c2, w2 = m.predict_class_and_earliness(tsarr(W, R))
    W.check("values after the decision do not matter", W.flat(c2) == [c[-1]] and [int(v) for v in W.flat(w2)] == [when[-1]])
    unchanged(W, "queries unmodified", snap, A)


WAIT = [dict(sz=3, K=1, min_t=1, lamb=1.0, seed=41), dict(sz=4, K=2, min_t=1, lamb=0, seed=42), dict(sz=3, K=2, min_t=2, lamb=1.0, seed=43), dict(sz=4, K=2, min_t=2, lamb=0, seed=44)]


@cases(CASES, WAIT, [dict(sz=4, K=2, min_t=2, lamb=2.0, seed=44), dict(sz=6, K=2, min_t=1, lamb=0, seed=45)], feas_exact=True)
def incremental(W, sz, K, min_t, lamb, seed):
    """early_predict on prefixes and the streaming generators"""
    import warnings
    X = values(W, 8, sz, seed, K)
    g = lcg(seed + 70)
    classes, y = [0, 1], [int(4 * next(g) + 100) // 3 % 2 for q in range(8)]
    alpha = W.real("alpha", -1, 1)
    m = model(W, thresholds(W, (sz,), sz, 2, seed), range(K), n_clusters=K, base_classifier=Rule(), min_t=min_t, lamb=W.c(Fraction(lamb)), cost_time_parameter=alpha, random_state=seed)
    m.fit(tsarr(W, X), lab(W, y))
    P, err, seen = learned(W, m, X, y, K, min_t, classes, False)
    Q = [X[0], X[3]]
    gen, genp = m.get_early_predict_generator(n_ts=2), m.get_early_predict_proba_generator(n_ts=2)
    for t in range(1, sz + 1):
        A = tsarr(W, [x[:t] for x in Q])
        c, wait = m.early_predict(A)
        p, wait2 = m.early_predict_proba(A)
        gc, gw = gen.send(tsarr(W, [[x[t - 1]] for x in Q]))
        gp, gw2 = genp.send(tsarr(W, [[x[t - 1]] for x in Q]))
        W.check("streaming agrees with prefixes", W.and_(W.all_eq(gc, c), W.all_eq(gw, wait), W.all_eq(gw2, wait), W.all_eq(gp, p), W.all_eq(wait2, wait)))
        W.check("one row of probabilities per series", len(p) == 2)
        for q, x in enumerate(Q):
            if t < min_t:
                W.check("nothing before min_t", W.isnan(W.flat(c)[q]) and W.isnan(W.flat(wait)[q]) and all(W.isnan(v) for v in W.flat(p)))
                continue
            W.check("class of the current classifier", W.flat(c)[q] == rule(W, x, t, seen))
            W.check("probabilities of the current classifier", W.all_eq(p[q], [x[t - 1] * t + k for k in range(len(seen))]))
            f = costs(W, m, P, err, x, t, sz, K, W.c(Fraction(lamb)), alpha)
            d = int(W.flat(wait)[q])
            W.check("waiting time within the horizon", 0 <= d <= sz - t)
            if 0 <= d <= sz - t:
                for v in f:
                    W.check("waiting time minimises the expected cost", W.le(f[d], v))


@cases(CASES, [dict(mode="refit"), dict(mode="order")], feas_exact=True)
def history(W, mode):
    """refitting and the order of the queries"""
    X, Z = values(W, 8, 3, 51, 2), values(W, 8, 2, 52, 2)
    y = [0, 1, 1, 0, 0, 0, 1, 1]
    alpha = W.real("alpha", -1, 1)
    kw = dict(n_clusters=2, base_classifier=Rule(), lamb=W.c(Fraction(0)), cost_time_parameter=alpha, random_state=3)
    thr = thresholds(W, (2,), 3, 2, 53)
    m = model(W, thr, (0, 1), **kw)
    m.fit(tsarr(W, X), lab(W, y))
    if mode == "refit":
        m.fit(tsarr(W, Z), lab(W, y[::-1]))
        f = model(W, thr, (0, 1), **kw)
        f.fit(tsarr(W, Z), lab(W, y[::-1]))
        W.same("class distribution as if fitted once", m.pyck_, f.pyck_)
        W.same("confusion rates as if fitted once", m.pyhatyck_, f.pyhatyck_)
        Q = tsarr(W, [Z[0], Z[3], Z[6]])
        a, b = m.predict_class_and_earliness(Q), f.predict_class_and_earliness(Q)
    else:
        Q = [X[0], X[3], X[5]]
        a = m.predict_class_and_earliness(tsarr(W, Q))
        b = m.predict_class_and_earliness(tsarr(W, Q[::-1]))
        b = (W.flat(b[0])[::-1], W.flat(b[1])[::-1])
    W.check("same classes", W.flat(a[0]) == W.flat(b[0]))
    W.check("same times", [int(v) for v in W.flat(a[1])] == [int(v) for v in W.flat(b[1])])


@cases(CASES, [dict(sz=2, seed=61), dict(sz=3, seed=62)], feas_exact=True)
def nearest_neighbour(W, sz, seed):
    """the default base classifier"""
    X = values(W, 8, sz, seed, 2)
    y = [q % 2 if q < 6 else 1 - q % 2 for q in range(8)]
    alpha = W.c(Fraction(1, 64))
    m = model(W, None, (0, 1), n_clusters=2, cost_time_parameter=alpha, random_state=seed)
    m.fit(tsarr(W, X), lab(W, y))
    Q = [list(X[0])]
    Q[0][sz - 1] = W.real("q", -40, 40)
    c, when = m.predict_class_and_earliness(tsarr(W, Q))
    t = int(W.flat(when)[0])
    P = [[m.pyck_[i, k] for k in range(2)] for i in range(2)]
    err = {u: [[W.sum(W.flat(m.pyhatyck_[u - 1, k, i])) for i in range(2)] for k in range(2)] for u in range(1, sz + 1)}
    accepted(W, m, P, err, Q[0], t, sz, 1, 2, W.c(Fraction(1)), alpha)
    W.check("class of the nearest prefix", W.flat(c) == W.flat(m.classifiers_[t].predict(tsarr(W, [Q[0][:t]]))))


@cases(CASES, [dict(K=K, lamb=lm, sz=sz, d=d, seed=s) for K, lm, sz, d, s in ((2, 1.0, 2, 2, 71), (3, 2.0, 2, 2, 72), (2, 0.5, 3, 3, 73), (1, 1.0, 2, 2, 74))], feas_exact=True)
def multivariate(W, K, lamb, sz, d, seed):
    """cluster probabilities, expected costs and decision times for series with several features"""
    n = 8 if K < 3 else 12
    g = lcg(seed)
    X = [[[W.c(Fraction((10 * (q % K) - 5 * (K - 1)) * (i + 1) * (k + 1) + next(g) + Fraction(q, 8))) for k in range(d)] for i in range(sz)] for q in range(n)]
    y = [q % 2 if q < 6 else 1 - q % 2 for q in range(n)]
    lamb, alpha = W.c(Fraction(lamb)), W.real("alpha", -1, 1)
    m = model(W, thresholds(W, (), sz, 2, seed), range(K), n_clusters=K, base_classifier=Rule(), lamb=lamb, cost_time_parameter=alpha, random_state=seed)
    m.fit(W.arr(X), lab(W, y))
    P = [[m.pyck_[c, k] for k in range(K)] for c in range(2)]
    Q = [X[0], X[1]]
    c, when = m.predict_class_and_earliness(W.arr(Q))
    for q, x in enumerate(Q):
        F = {}
        for t in range(1, sz + 1):
            D = [W.sqrt(W.sum([W.sqdist(x[i], [m.cluster_.cluster_centers_[k][i, u] for u in range(d)]) for i in range(t)])) for k in range(K)]
            mean = W.sum(D) / K
            s = [W.c(Fraction(1, 2))] * K if W.truth(W.eq(mean, 0)) else [1 / (1 + W.exp(-lamb * (1 - v / mean))) for v in D]
            pk = [v / W.sum(s) for v in s]
            W.check("cluster probabilities", W.all_eq(m.get_cluster_probas(W.arr(x[:t])), pk))
            F[t] = [W.sum([pk[k] * W.sum([P[i][k] * W.sum(W.flat(m.pyhatyck_[u - 1, k, i])) for i in range(2)]) for k in range(K)]) + u * alpha for u in range(t, sz + 1)]
        w = int(W.flat(when)[q])
        W.check("decision time in range", 1 <= w <= sz)
        for t in range(1, w + 1):
            for v in F[t][1:] if t == w else []:
                W.check("no later decision is expected to be cheaper", W.le(F[t][0], v))
            if t < w:
                W.check("an earlier timestamp is left only for a cheaper later one", W.or_(*[W.lt(v, F[t][0]) for v in F[t][1:]]))
        W.check("class of the classifier of the decision time", W.flat(c)[q] == W.flat(m.classifiers_[w].predict(W.arr([x[:w]])))[0])
