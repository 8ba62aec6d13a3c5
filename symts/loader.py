"""Loads tslearn's source from the working tree into the symbolic world."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import hashlib
import os
import sys
from fractions import Fraction

import numpy as np

from . import arr as A
from . import sym as S
from .sym import Sym, SBool

REPO = os.environ.get("TSLEARN_REPO", "/repo")
LOADED = {}          # module name -> (path, sha1)
EXECUTED = set()     # (file, function) seen executing


class Rewrite(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("_sx_c", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    OPS = {ast.Div: "_sx_div", ast.FloorDiv: "_sx_fdiv", ast.Mod: "_sx_mod", ast.Pow: "_sx_pow"}

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = self.OPS.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = self.OPS.get(type(n.op))
        if not f:
            return n
        # target op= value  ->  target = _sx_i(op, target, value)   (arrays are updated in place)
        load = ast.parse(ast.unparse(n.target), mode="eval").body
        self_load = Rewrite().visit(load) if False else load
        return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name("_sx_inp", ast.Load()),
                                 [ast.Name(f, ast.Load()), self_load, n.value], [])), n)

    def visit_MatchValue(self, n):
        return n

    def visit_JoinedStr(self, n):
        return n


def sx_c(s):
    return S.frac(float(s)) if s not in ("inf", "nan") else float(s)


def _py(a, b):
    return isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, np.ndarray)


def sx_div(a, b):
    if _num(a) and _num(b):
        return S.sdiv(a, b)
    return a / b


def _num(x):
    return isinstance(x, (int, float, Fraction, Sym, SBool, np.number, np.bool_))


def sx_fdiv(a, b):
    if _py(a, b):
        return a // b
    if _num(a) and _num(b):
        return S.sfloor(S.sdiv(a, b))
    return a // b


def sx_mod(a, b):
    if isinstance(a, (str, bytes)):
        return a % b
    if _py(a, b):
        return a % b
    if _num(a) and _num(b):
        return S.num(a) - S.sfloor(S.sdiv(a, b)) * S.num(b)
    return a % b


def sx_pow(a, b):
    if _py(a, b) and b >= 0:
        return a ** b
    if _num(a) and _num(b):
        return S.spow(a, b)
    return a ** b


def sx_inp(f, t, v):
    if isinstance(t, np.ndarray):
        uf = {"sx_div": np.true_divide, "sx_fdiv": np.floor_divide, "sx_mod": np.remainder, "sx_pow": np.power}[f.__name__]
        if A.raw_dtype(t).kind in "iu" and f is sx_div:
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        r = f(t, v)
        t[...] = r
        return t
    return f(t, v)


def s_min(*a, key=None, default=None, **k):
    return _mm(S.smin, builtins.min, a, key, default, k)


def s_max(*a, key=None, default=None, **k):
    return _mm(S.smax, builtins.max, a, key, default, k)


def _mm(sf, bf, a, key, default, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if default is not None or "default" in k:
            return default
        return bf(xs)
    if key is None and A.TENSOR is not None and any(type(x) is A.TENSOR for x in xs) and all(type(x) is not A.TENSOR or x.a.ndim == 0 for x in xs):
        from .shim import torchshim
        return torchshim.T(_mm(sf, bf, ([x.item() if type(x) is A.TENSOR else x for x in xs],), None, None, {}))
    if key is None and all(isinstance(x, (Sym, Fraction, int, float, SBool, np.number)) for x in xs):
        if any(type(x) is Sym for x in xs):
            if any(type(x) is float and x != x for x in xs):
                # python semantics with nan: fold by comparisons
                r = xs[0]
                for x in xs[1:]:
                    c = (x < r) if bf is builtins.min else (x > r)
                    r = x if S.truth(c) else r
                return r
            return sf(xs)
        return bf(xs)
    return bf(xs, key=key) if key is not None else bf(xs)


def s_round(x, n=None):
    if isinstance(x, (Sym, Fraction)):
        r = S.sround(x, n or 0)
        return r if n is not None else int(r)
    return round(x, n) if n is not None else round(x)


def s_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


class IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


def s_float(x=0):
    return A.float_(x)


def s_sorted(xs, key=None, reverse=False):
    return sorted(xs, key=key, reverse=reverse)


def _s_isinstance(x, t):
    if t is int:
        return isinstance(x, int)
    if isinstance(t, tuple):
        return any(_s_isinstance(x, q) for q in t)
    if t is np.floating or t is np.float64:
        return isinstance(x, (Sym, Fraction, t))
    if t is np.ndarray:
        return isinstance(x, A.SArr)
    import numbers
    if t in (numbers.Real, numbers.Number):
        return isinstance(x, (Sym, Fraction)) or isinstance(x, t)
    return isinstance(x, t)


def make_builtins():
    from .shim import others
    b = dict(vars(builtins))
    b.update(min=s_min, max=s_max, float=A.float_, round=s_round, sum=s_sum, isinstance=_s_isinstance,
             __import__=others.sym_import, _sx_c=sx_c, _sx_div=sx_div, _sx_fdiv=sx_fdiv, _sx_mod=sx_mod,
             _sx_pow=sx_pow, _sx_inp=sx_inp)
    return b


class Loader(importlib.abc.Loader):
    def __init__(self, path, builtins_):
        self.path = path
        self.b = builtins_

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, self.path, "exec")
        LOADED[module.__name__] = (self.path, hashlib.sha1(src.encode()).hexdigest()[:12])
        module.__dict__["__builtins__"] = self.b
        module.__file__ = self.path
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.b = make_builtins()

    def find_spec(self, name, path=None, target=None):
        if name != "tslearn" and not name.startswith("tslearn."):
            return None
        rel = name.replace(".", "/")
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            s = importlib.util.spec_from_loader(name, Loader(f, self.b), origin=f, is_package=True)
            s.submodule_search_locations = [p]
            return s
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_loader(name, Loader(f, self.b), origin=f)
        return None


def install():
    sys.dont_write_bytecode = True
    for k in list(sys.modules):
        if k == "tslearn" or k.startswith("tslearn."):
            del sys.modules[k]
    fnd = Finder()
    sys.meta_path.insert(0, fnd)
    return fnd


_TOOL = None


def trace_functions():
    """record which functions of the code under test are executed (sys.monitoring, one event per code object)"""
    global _TOOL
    m = sys.monitoring
    _TOOL = 3
    m.use_tool_id(_TOOL, "symts")

    def cb(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/tslearn"):
            EXECUTED.add((os.path.relpath(fn, REPO), code.co_qualname))
        return m.DISABLE
    m.register_callback(_TOOL, m.events.PY_START, cb)
    m.set_events(_TOOL, m.events.PY_START)
