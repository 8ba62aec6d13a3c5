"""Reference definitions shared by the harnesses (written from the documentation, not from the code)."""
from fractions import Fraction


def series(W, name, n, d=1, pad=0):
    """(n + pad, d) series; the last pad rows are NaN"""
    a = W.reals(name, n, d)
    if not pad:
        return a
    return padded(W, a, pad)


def padded(W, a, pad):
    n, d = W.shape(a)
    rows = [list(a[i]) for i in range(n)] + [[W.nan] * d for _ in range(pad)]
    return W.arr(rows).reshape(n + pad, d)


def dataset(W, name, sizes, d=1, length=None):
    """(len(sizes), max, d) dataset padded with NaN"""
    T = length or max(sizes)
    rows = []
    for k, n in enumerate(sizes):
        a = W.reals("%s%d" % (name, k), n, d)
        rows.append([list(a[i]) for i in range(n)] + [[W.nan] * d for _ in range(T - n)])
    return W.arr(rows).reshape(len(sizes), T, d)


def pts(a, n=None):
    """rows of a series as lists"""
    n = int(a.shape[0]) if n is None else n
    if a.ndim == 1:
        return [[a[i]] for i in range(n)]
    return [[a[i, k] for k in range(int(a.shape[1]))] for i in range(n)]


def lcg(seed):
    """small deterministic pseudo-random rationals"""
    s = seed * 7919 + 13
    while True:
        s = (s * 1103515245 + 12345) % 2147483648
        yield ((s >> 8) % 41 - 20) / 4.0


def mixed(W, name, n, d, free, seed=1):
    """series of length n whose rows in `free` are symbolic and whose other rows are fixed numbers"""
    g = lcg(seed)
    rows = []
    for i in range(n):
        v = [next(g) for _ in range(d)]
        if i in free:
            rows.append([W.real("%s_%d_%d" % (name, i, k)) for k in range(d)])
        else:
            rows.append([W.c(Fraction(x)) for x in v])
    return W.arr(rows).reshape(n, d)


def cost_matrix(W, a, b):
    A, B = pts(a), pts(b)
    return [[W.sqdist(p, q) for q in B] for p in A]


def path_cost(W, C, path):
    return W.sum([C[int(i)][int(j)] for i, j in path])


def dp_dtw(W, C, allowed=None):
    """smallest path sum (Bellman recurrence)"""
    n, m = len(C), len(C[0])
    D = {}
    for i in range(n):
        for j in range(m):
            if allowed is not None and not allowed(i, j):
                continue
            if (i, j) == (0, 0):
                D[i, j] = C[0][0]
                continue
            pr = [D[p] for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if p in D]
            if pr:
                D[i, j] = C[i][j] + W.min(pr)
    return D.get((n - 1, m - 1))


def flat_dtw(W, C, allowed=None):
    """smallest path sum by listing every warping path"""
    n, m = len(C), len(C[0])
    ps = W.warping_paths(n, m, allowed)
    return W.min([path_cost(W, C, p) for p in ps]) if ps else None


def snapshot(W, *arrays):
    return [[list(W.flat(a))] for a in arrays]


def unchanged(W, label, snap, *arrays):
    for s, a in zip(snap, arrays):
        W.check(label, W.all_eq(s, a))




def in_band(n, m, r):
    """documented Sakoe-Chiba band: |i - j| <= r, widened by the length difference on the longer side"""
    lo, hi = -r + min(0, n - m), r + max(0, n - m)
    return lambda i, j: lo <= i - j <= hi


def itakura_bounds(W, n, m, s):
    """real interval of admissible i for every j (documented parallelogram, slopes scaled by n/m)"""
    smax = s * W.c(Fraction(n, m))
    smin = W.div(W.c(Fraction(n, m)), s)
    out = []
    for j in range(m):
        lo = W.max([smin * j, (n - 1) - smax * (m - 1 - j)])
        hi = W.min([smax * j, (n - 1) - smin * (m - 1 - j)])
        out.append((lo, hi))
    return out


def itakura_cells(n, m, s):
    """admissible cells for a concrete rational slope; cells closer than 1/100 to an edge are reported apart"""
    s = Fraction(s)
    smax, smin = s * Fraction(n, m), Fraction(n, m) / s
    yes, edge = set(), set()
    for j in range(m):
        lo = max(smin * j, (n - 1) - smax * (m - 1 - j))
        hi = min(smax * j, (n - 1) - smin * (m - 1 - j))
        for i in range(n):
            e = Fraction(1, 100)
            if lo == i or hi == i:
                if lo - e <= i <= hi + e:
                    yes.add((i, j))
            elif lo + e <= i <= hi - e:
                yes.add((i, j))
            elif lo - e <= i <= hi + e:
                edge.add((i, j))
    return yes, edge


def constraint(n, m, con):
    """(kwargs, admissible-cell predicate) for a constraint description
    ('sc', r) / ('sc?', r: inferred) / ('ita', s) / ('ita?', s) / ('scdef',) / ('itadef',) / ('both-sc', r, s) / ('both-ita', r, s)"""
    k = con[0]
    if k == "none":
        return {}, None
    if k == "none''":
        return dict(global_constraint=""), None
    kw = {}
    if k in ("sc", "sc?", "scdef", "both-sc"):
        r = 1 if k == "scdef" else con[1]
        if k != "sc?":
            kw["global_constraint"] = "sakoe_chiba"
        if k != "scdef":
            kw["sakoe_chiba_radius"] = r
        if k == "both-sc":
            kw["itakura_max_slope"] = con[2]
        return kw, in_band(n, m, r)
    s = Fraction(2) if k == "itadef" else Fraction(con[2] if k == "both-ita" else con[1])
    if k != "ita?":
        kw["global_constraint"] = "itakura"
    if k != "itadef":
        kw["itakura_max_slope"] = float(s)
    if k == "both-ita":
        kw["sakoe_chiba_radius"] = con[1]
    yes, edge = itakura_cells(n, m, s)
    assert not edge, (n, m, con)
    return kw, lambda i, j: (i, j) in yes


def connected(n, m, allowed):
    ok = set()
    for i in range(n):
        for j in range(m):
            if allowed(i, j) and ((i, j) == (0, 0) or {(i - 1, j), (i, j - 1), (i - 1, j - 1)} & ok):
                ok.add((i, j))
    return (n - 1, m - 1) in ok
