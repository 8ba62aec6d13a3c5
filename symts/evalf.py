"""Floating point evaluation of terms and formulas (used only to pick inputs for replays, never to decide)."""
import math
from . import sym as S


class Bad(Exception):
    pass


def value(x, env, memo):
    if type(x) is not S.Sym:
        return float(x)
    tot = 0.0
    for (at, E), c in x.t.items():
        v = float(c)
        for i, e in at:
            v *= _atom(i, env, memo) ** e
        if E:
            s = 0.0
            for m, k in E:
                s += float(k) * _mono(m, env, memo)
            v *= math.exp(s)
        tot += v
    return tot


def _mono(m, env, memo):
    return value(S.Sym({m: 1}), env, memo)


def _atom(i, env, memo):
    if i in memo:
        return memo[i]
    a = S.ATOMS[i]
    k = a.kind
    if k == "var":
        v = env[a.name]
    elif k == "inv":
        v = 1.0 / value(a.args[0], env, memo)
    elif k == "sqrt":
        v = math.sqrt(value(a.args[0], env, memo))
    elif k == "log":
        v = math.log(value(a.args[0], env, memo))
    elif k == "abs":
        v = abs(value(a.args[0], env, memo))
    elif k == "min":
        v = min(value(y, env, memo) for y in a.args)
    elif k == "floor":
        v = float(math.floor(value(a.args[0], env, memo)))
    elif k == "ite":
        v = 1.0 if holds(a.args[0], env, memo, 0.0) else 0.0
    else:
        raise Bad(k)
    memo[i] = v
    return v


def holds(f, env, memo, margin=1e-9):
    if not isinstance(f, S.SBool):
        return bool(f)
    if f.op in ("lt", "le"):
        return value(f.args[0], env, memo) < -margin
    if f.op == "eq":
        return abs(value(f.args[0], env, memo)) <= 1e-9
    if f.op == "and":
        return all(holds(x, env, memo, margin) for x in f.args)
    if f.op == "or":
        return any(holds(x, env, memo, margin) for x in f.args)
    if f.op == "not":
        g = f.args[0]
        if isinstance(g, S.SBool) and g.op in ("lt", "le"):
            return value(g.args[0], env, memo) > margin
        return not holds(g, env, memo, margin)
    raise Bad(f.op)


def sample(inputs, fs, rnd, tries=60):
    """input values satisfying every formula of fs, or None"""
    names = [(n, x) for n, (k, x) in inputs.items() if k == "real"]
    if not names:
        return None
    info = {}
    for n, x in names:
        ids = [i for m in getattr(x, "t", {}) for i, e in m[0]]
        info[n] = S.ATOMS[ids[0]] if len(ids) == 1 else None
    for t in range(tries):
        env = {}
        for n, x in names:
            a = info[n]
            if a is not None and (a.pos or a.nonneg):
                v = round(rnd.uniform(0.05, 3 if t % 2 else 1), 3)
            else:
                v = round(rnd.uniform(-3, 3) if t % 3 else rnd.uniform(0, 1), 3)
            env[n if a is None else a.name] = v
        try:
            memo = {}
            if all(holds(f, env, memo) for f in fs):
                out = {n: (env[info[n].name] if info[n] is not None else None) for n, x in names}
                if None in out.values():
                    return None
                out.update({n: x for n, (k, x) in inputs.items() if k != "real"})
                return out
        except (Bad, ArithmeticError, ValueError, KeyError):
            continue
    return None
