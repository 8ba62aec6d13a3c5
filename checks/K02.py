"""K02: kernel SVMs train and predict with one kernel."""
from importlib import import_module
from symts.harness import cases
from .common import *
from .C01 import numbers, valid

CASES = []
PRELOAD = ["tslearn.metrics", "tslearn.svm"]
ASSUMPTIONS = ["libsvm (sklearn.svm.SVC / SVR) is replaced by a stand-in that records what it is given and returns fixed functionals of the rows it is asked about",
               "the GAK kernel values themselves are those of metrics.gak (decided by M12)"]
LOG = []


class Machine:
    """stand-in for libsvm"""

    def __init__(self, W, kind, **kw):
        self.W, self.kind, self.kw = W, kind, kw
        LOG.append(self)

    def fit(self, X, y, sample_weight=None):
        W = self.W
        self.rows = [list(r) for r in X]
        self.y, self.w = W.flat(y), None if sample_weight is None else W.flat(sample_weight)
        n = len(self.rows)
        order = sorted(range(n), key=lambda i: (self.y[i] if self.kind == "SVC" else 0, i))
        self.support_ = W.arr(order if n < 3 else order[1:], int)
        cl = sorted(set(self.y)) if self.kind == "SVC" else [0]
        self.n_support_ = [sum(1 for i in W.flat(self.support_) if self.kind != "SVC" or self.y[int(i)] == c) for c in cl]
        self.dual_coef_ = W.arr([[1.0] * len(self.n_support_)])
        self.intercept_ = W.arr([0.5])
        self.classes_ = cl
        return self

    def functional(self, X, shift):
        W = self.W
        out = []
        for r in X:
            r = list(r)
            if self.kw["kernel"] == "precomputed" and len(r) != len(self.rows):
                raise ValueError("X.shape[1] = %d should be equal to %d" % (len(r), len(self.rows)))
            out.append(W.sum([v * (j + 1) for j, v in enumerate(r)]) + shift)
        return W.arr(out)

    def predict(self, X):
        self.asked = [list(r) for r in X]
        return self.functional(X, 0)

    def decision_function(self, X):
        self.asked = [list(r) for r in X]
        return self.functional(X, 1)

    def predict_proba(self, X):
        self.asked = [list(r) for r in X]
        return self.functional(X, 2)

    def predict_log_proba(self, X):
        self.asked = [list(r) for r in X]
        return self.functional(X, 3)


def make(W, kind, **kw):
    cls = getattr(import_module("tslearn.svm"), "TimeSeries" + kind)
    W.hook(kind, lambda *a, **k: Machine(W, kind, **k))
    del LOG[:]
    return cls(**kw)


def gram(W, A, sa, B, sb, sigma):
    M = W.mod()
    return [[M.gak(valid(W, A, i, sa[i]), valid(W, B, j, sb[j]), sigma=sigma) for j in range(len(sb))] for i in range(len(sa))]


def rows_eq(W, label, got, want):
    W.check(label + ": size", len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)))
    if len(got) == len(want) and all(len(a) == len(b) for a, b in zip(got, want)):
        for a, b in zip(got, want):
            for x, y in zip(a, b):
                W.check(label, W.eq(x, y))


def labels(W, kind, y):
    return W.arr(y, int) if kind == "SVC" else W.arr([W.c(Fraction(v)) / 2 for v in y])


def queried(W, m, kind, Q, want, label="query"):
    """every prediction method asks libsvm about exactly the kernel rows `want` and hands its answer back"""
    est = m.svm_estimator_
    for z, name in enumerate(("predict", "decision_function", "predict_proba", "predict_log_proba") if kind == "SVC" else ("predict",)):
        r = getattr(m, name)(Q)
        rows_eq(W, label + " kernel values (" + name + ")", est.asked, want)
        W.check(name + " hands back the answer", W.all_eq(r, [W.sum([v * (j + 1) for j, v in enumerate(row)]) + z for row in want]))


GAK = [dict(kind=("SVC", "SVR")[z % 2], sa=sa, sb=sb, d=d, gamma=g, jobs=jobs) for z, (sa, sb, d, g, jobs) in enumerate((
    ((1, 1), (1,), 1, "free", None), ((1, 1), (1, 1), 1, 10.0, None), ((2, 1), (1, 2), 1, 2.0, None), ((2, 2), (3,), 1, 2.0, None), ((1, 1, 1), (1,), 2, 5.0, 2), ((1, 2), (2,), 2, 8.0, None), ((2, 2), (2,), 1, 0.5, -1), ((1,), (2, 1), 1, 4.0, None)))]


@cases(CASES, GAK, [dict(kind="SVC", sa=(2, 3, 1), sb=(4, 2), d=1, gamma=2.0, jobs=None), dict(kind="SVR", sa=(2, 2, 2), sb=(2, 2), d=2, gamma=2.0, jobs=3)], over_thorough=dict(budget=600))
def gak(W, kind, sa, sb, d, gamma, jobs):
    """every value free"""
    gamma = W.real("g", pos=True) if gamma == "free" else W.c(Fraction(gamma))
    A, B = dataset(W, "x", sa, d), dataset(W, "q", sb, d)
    y = [z % 2 for z in range(len(sa))]
    sw = [W.real("w%d" % z, pos=True) for z in range(len(sa))] if len(sa) > 2 else None
    snap = snapshot(W, A, B)
    m = make(W, kind, kernel="gak", gamma=gamma, C=3.0, n_jobs=jobs)
    m.fit(A, labels(W, kind, y), sample_weight=None if sw is None else W.arr(sw))
    e = m.svm_estimator_
    W.check("one machine trained", LOG == [e])
    sigma = W.sqrt(gamma / 2)
    W.check("precomputed kernel, given penalty", e.kw["kernel"] == "precomputed" and e.kw["C"] == 3.0)
    rows_eq(W, "training kernel values", e.rows, gram(W, A, sa, A, sa, sigma))
    W.check("labels and weights handed on", W.truth(W.all_eq(e.y, labels(W, kind, y))) and (e.w is None if sw is None else W.truth(W.all_eq(e.w, sw))))
    W.check("gamma_", W.eq(m.gamma_, gamma))
    queried(W, m, kind, B, gram(W, B, sb, A, sa, sigma))
    queried(W, m, kind, A, gram(W, A, sa, A, sa, sigma), "training data again")
    unchanged(W, "data unmodified", snap, A, B)
    W.check("constructor parameters unchanged", m.kernel == "gak" and m.C == 3.0 and m.n_jobs == jobs)
    sv = m.support_vectors_
    idx = [int(i) for i in W.flat(e.support_)]
    T = W.shape(A)[1]
    flat = [r for part in sv for r in part] if kind == "SVC" else list(sv)
    W.check("support vectors are training series", len(flat) == len(idx) and W.truth(W.all_eq(flat, [[[A[i, t, k] for k in range(d)] for t in range(T)] for i in idx])))
    if kind == "SVC":
        W.check("one array of support vectors per class", [len(p) for p in sv] == list(e.n_support_))


AUTO = [dict(kind=k, sizes=s, d=d, seed=z) for k, s, d, z in (("SVC", (2, 2), 1, 1), ("SVR", (3, 2), 1, 2), ("SVC", (2, 3, 2), 2, 3), ("SVR", (1, 1, 1), 1, 4))]


@cases(CASES, AUTO, feas_exact=True)
def automatic(W, kind, sizes, d, seed):
    """gamma='auto' is estimated from the training data, and predictions use that value"""
    M = W.mod()
    A = numbers(W, "u", len(sizes), max(sizes), d, [], seed, sizes)
    if d == 2:      # rational distances between samples
        A = W.arr([[[A[i, t, 0], A[i, t, 0] * 3 / 4] for t in range(max(sizes))] for i in range(len(sizes))])
    B = numbers(W, "v", 1, 2, d, [(0, 1, 0)], seed + 10)
    m = make(W, kind, kernel="gak", gamma="auto", random_state=seed)
    m.fit(A, labels(W, kind, [z % 2 for z in range(len(sizes))]))
    W.check("gamma_ is estimated from the training data", W.eq(m.gamma_, M.gamma_soft_dtw(A, random_state=seed)))
    sigma = W.sqrt(m.gamma_ / 2)
    rows_eq(W, "training kernel values", m.svm_estimator_.rows, gram(W, A, sizes, A, sizes, sigma))
    queried(W, m, kind, B, gram(W, B, (2,), A, sizes, sigma))
    W.check("gamma parameter unchanged", m.gamma == "auto")


SK = [dict(kind=k, kernel=kn, gamma=g, n=n, t=t, d=d) for k, kn, g, n, t, d in (("SVC", "rbf", "auto", 2, 3, 2), ("SVR", "rbf", "free", 2, 2, 1), ("SVC", "linear", "auto", 3, 2, 1), ("SVR", "poly", 0.5, 2, 1, 3), ("SVC", "sigmoid", "free", 2, 2, 2), ("SVR", "linear", "auto", 2, 2, 2), ("SVR", "rbf", "auto", 2, 4, 1))]


@cases(CASES, SK)
def standard(W, kind, kernel, gamma, n, t, d):
    """scikit-learn's own kernels get the flattened series and the given parameters"""
    g = W.real("g", pos=True) if gamma == "free" else gamma if gamma == "auto" else W.c(Fraction(gamma))
    A, B = dataset(W, "x", (t,) * n, d), dataset(W, "q", (t,) * 2, d)
    kw = dict(C=2.0, degree=4, coef0=0.25, tol=0.01, max_iter=7, shrinking=False, cache_size=50, random_state=5)
    kw.update(dict(class_weight={0: 2.0}, decision_function_shape="ovo", probability=False) if kind == "SVC" else dict(epsilon=0.3))
    m = make(W, kind, kernel=kernel, gamma=g, **kw)
    m.fit(A, labels(W, kind, [z % 2 for z in range(n)]))
    e = m.svm_estimator_
    flat = lambda X, c: [[X[i, u, k] for u in range(t) for k in range(d)] for i in range(c)]
    rows_eq(W, "training data", e.rows, flat(A, n))
    W.check("kernel handed on", e.kw["kernel"] == kernel)
    for k, v in kw.items():
        if k == "random_state" and kind == "SVR":
            continue
        W.check("parameter handed on: " + k, e.kw.get(k) == v)
    if gamma == "auto":
        W.check("gamma='auto' is 1 / n_features", e.kw["gamma"] == "auto" or W.eq(e.kw["gamma"], W.div(W.c(Fraction(1)), t * d)))
    else:
        W.check("gamma handed on", W.eq(e.kw["gamma"], g))
    queried(W, m, kind, B, flat(B, 2))
    sv = m.support_vectors_
    W.check("support vectors are in time series format", all(W.shape(p)[1:] == (t, d) for p in (sv if kind == "SVC" else [sv])))


@cases(CASES, [dict(kind=k, a=a, b=b) for k, a, b in (("SVC", ("gak", 2.0), ("gak", 8.0)), ("SVR", ("gak", "auto"), ("gak", "auto")), ("SVR", ("gak", 2.0), ("rbf", 1.0)), ("SVC", ("rbf", 1.0), ("gak", "auto")))], feas_exact=True)
def history(W, kind, a, b):
    """a refitted model uses the new data and parameters only; failing predictions leave it usable"""
    gv = lambda g: g if g == "auto" else W.c(Fraction(g))
    old = numbers(W, "o", 3, 2, 1, [], 21)
    X = numbers(W, "x", 2, 2, 1, [(1, 1, 0)] if "auto" not in (a[1], b[1]) else [], 22)
    Q = numbers(W, "q", 1, 2, 1, [(0, 0, 0)], 23)
    m = make(W, kind, kernel=a[0], gamma=gv(a[1]), random_state=1)
    m.fit(old, labels(W, kind, [0, 1, 0]))
    m.predict(Q)
    m.set_params(kernel=b[0], gamma=gv(b[1]))
    m.fit(X, labels(W, kind, [1, 0]))
    try:
        m.predict(W.arr([[[0.0, 1.0], [1.0, 1.0]]]))
    except Exception as e:
        if type(e).__name__ == "Unsupported":
            raise
    f = make(W, kind, kernel=b[0], gamma=gv(b[1]), random_state=1)
    f.fit(X, labels(W, kind, [1, 0]))
    rows_eq(W, "training matrix as if fitted once", m.svm_estimator_.rows, f.svm_estimator_.rows)
    W.check("same kernel and gamma", m.svm_estimator_.kw["kernel"] == f.svm_estimator_.kw["kernel"] and W.truth(W.eq(m.gamma_, f.gamma_)))
    W.check("same predictions", W.all_eq(m.predict(Q), f.predict(Q)))
    rows_eq(W, "same kernel rows", m.svm_estimator_.asked, f.svm_estimator_.asked)


@cases(CASES, [dict(kind=k, mode=md) for k in ("SVC", "SVR") for md in ("zero", "constant")])
def degenerate(W, kind, mode):
    """a gamma of zero is refused with RuntimeError"""
    if mode == "zero":
        A = dataset(W, "x", (2, 2), 1)
        m = make(W, kind, kernel="gak", gamma=0)
    else:
        v = W.real("v")
        A = W.arr([[[v], [v], [v]]] * 2)
        m = make(W, kind, kernel="gak")
    W.check("RuntimeError", W.raises(lambda: m.fit(A, labels(W, kind, [0, 1])), RuntimeError) == "RuntimeError")


@cases(CASES, [dict(kind=k, new=n) for k in ("SVC", "SVR") for n in (dict(gamma=8.0), dict(gamma="auto"), dict(C=9.0), dict(n_jobs=2))], feas_exact=True)
def reparametrised(W, kind, new):
    """parameters set after fit and before a refit do not change what a fitted model computes"""
    X = numbers(W, "x", 2, 2, 1, [(1, 1, 0)], 31)
    Q = numbers(W, "q", 2, 2, 1, [(0, 0, 0)], 32)
    m = make(W, kind, kernel="gak", gamma=W.c(Fraction(2)), random_state=1)
    m.fit(X, labels(W, kind, [1, 0]))
    new = {k: W.c(Fraction(v)) if k == "gamma" and v != "auto" else v for k, v in new.items()}
    m.set_params(**new)
    queried(W, m, kind, Q, gram(W, Q, (2, 2), X, (2, 2), W.sqrt(W.c(Fraction(1)))), "training bandwidth")
