"""M06: LB_Keogh is the distance to the envelope and never exceeds the banded DTW."""
from symts.harness import cases, grid
from .common import *

CASES = []
PRELOAD = ["tslearn.metrics"]


@cases(CASES, [dict(n=n, d=1) for n in (1, 2, 3, 4, 5, 7)] + [dict(n=3, d=2), dict(n=4, d=3)], [dict(n=9, d=1), dict(n=6, d=2)])
def envelope(W, n, d):
    M = W.mod()
    a = series(W, "a", n, d)
    r = W.int("r", 0, n + 1)
    snap = snapshot(W, a)
    lo, hi = M.lb_envelope(a, radius=r)
    W.check("shapes", W.shape(lo) == (n, d) and W.shape(hi) == (n, d))
    for i in range(n):
        for k in range(d):
            w = [a[q, k] for q in range(max(0, i - r), min(n, i + r + 1))]
            W.check("lower envelope at %d" % i, W.eq(lo[i, k], W.min(w)))
            W.check("upper envelope at %d" % i, W.eq(hi[i, k], W.max(w)))
    unchanged(W, "series unmodified", snap, a)


@cases(CASES, [dict(n=n, r=r, pre=p) for n in (1, 2, 3) for r in (0, 1, 2) for p in (False, True)] + [dict(n=4, r=0, pre=True), dict(n=4, r=1, pre=False)],
       [dict(n=4, r=r, pre=p) for r in (1, 2, 3) for p in (False, True)], over_thorough=dict(budget=900))
def bound(W, n, r, pre):
    M = W.mod()
    q, c = series(W, "q", n), series(W, "c", n)
    snap = snapshot(W, q, c)
    lb = M.lb_keogh(q, envelope_candidate=M.lb_envelope(c, radius=r)) if pre else M.lb_keogh(q, c, radius=r)
    tot = 0
    for i in range(n):
        w = [c[k, 0] for k in range(max(0, i - r), min(n, i + r + 1))]
        up = W.max([q[i, 0] - W.max(w), 0])
        dn = W.max([W.min(w) - q[i, 0], 0])
        tot = tot + up * up + dn * dn
    W.check("distance to the envelope", W.eq(lb * lb, tot))
    W.check("not negative", W.le(0, lb))
    unchanged(W, "inputs unmodified", snap, q, c)


@cases(CASES, [dict(n=n, r=r) for n, r in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1))], [dict(n=3, r=2), dict(n=4, r=1)], exact_timeout=20000, over_thorough=dict(budget=900, exact_timeout=120000))
def never_exceeds(W, n, r):
    """lb_keogh <= banded dtw.  Every point of q is matched with at least one point of its window, so the bound is
    checked path by path: the squared bound is at most the cost of each admissible warping path."""
    M = W.mod()
    q, c = series(W, "q", n), series(W, "c", n)
    lb = M.lb_keogh(q, c, radius=r)
    v = M.dtw(q, c, global_constraint="sakoe_chiba", sakoe_chiba_radius=r)
    C = cost_matrix(W, q, c)
    ok = in_band(n, n, r)
    W.check("dtw is the banded optimum", W.eq(v, W.sqrt(dp_dtw(W, C, ok))))
    tot = lb * lb
    for p in W.warping_paths(n, n, ok):
        W.check("bound is at most the cost of path %s" % (p,), W.le(tot, path_cost(W, C, p)))


@cases(CASES, [dict(n=12, r=r, free=(5,)) for r in (0, 2, 5)] + [dict(n=30, r=3, free=(0, 29))], path_timeout=200)
def longer(W, n, r, free):
    M = W.mod()
    q, c = mixed(W, "q", n, 1, free, 3), mixed(W, "c", n, 1, (), 4)
    lb = M.lb_keogh(q, c, radius=r)
    v = M.dtw(q, c, global_constraint="sakoe_chiba", sakoe_chiba_radius=r)
    tot = 0
    for i in range(n):
        w = [c[k, 0] for k in range(max(0, i - r), min(n, i + r + 1))]
        up = W.max([q[i, 0] - W.max(w), 0])
        dn = W.max([W.min(w) - q[i, 0], 0])
        tot = tot + up * up + dn * dn
    W.check("distance to the envelope", W.eq(lb * lb, tot))
    if n <= 12:
        W.check("never exceeds the banded dtw", W.le(lb * lb, v * v))
