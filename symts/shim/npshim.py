"""Substitute for the numpy module seen by tslearn's source in the symbolic world."""
import itertools
import math
import operator
import types
from fractions import Fraction

import numpy as np

from .. import arr as A
from .. import sym as S
from ..arr import SArr, base, mkarray, raw_dtype, settle, to_obj, float_obj, float_
from ..sym import Sym, SBool, Unsupported, ENG


def _isnan(x):
    return type(x) is float and x != x


def _lt(a, b):
    return S.compare("lt", a, b)


def _eq(a, b):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return a == b
    return S.compare("eq", a, b)


def _add(a, b):
    if type(a) is bool and type(b) is bool:
        return a or b
    return S.num(a) + S.num(b)


def _mul(a, b):
    a, b = S.num(a), S.num(b)
    if type(a) is SBool and type(b) in (SBool, bool) or type(b) is SBool and type(a) is bool:
        return S.band(a, b)
    if type(a) is float and type(b) is Sym:
        return b * a
    return a * b


def _pymin(a, b):          # np.minimum propagates nan
    if _isnan(a) or _isnan(b):
        return S.NAN
    return S.smin(a, b)


def _pymax(a, b):
    if _isnan(a) or _isnan(b):
        return S.NAN
    return S.smax(a, b)


def _fmin(a, b):
    return b if _isnan(a) else (a if _isnan(b) else S.smin(a, b))


def _fmax(a, b):
    return b if _isnan(a) else (a if _isnan(b) else S.smax(a, b))


def _bool(x):
    if type(x) is SBool or isinstance(x, (bool, np.bool_)):
        return x
    return S.bnot(_eq(x, 0))


def _floordiv(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) // int(b)
    return S.sfloor(S.sdiv(a, b))


def _mod(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) % int(b)
    return S.num(a) - S.sfloor(S.sdiv(a, b)) * S.num(b)


def _sin(f):
    def g(x):
        x = S.num(x)
        if type(x) is Sym:
            raise Unsupported("transcendental function %s" % f.__name__)
        return S.frac(f(float(x)))
    return g


def _conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def _arctan2(a, b):
    a, b = S.num(a), S.num(b)
    if type(a) is Sym or type(b) is Sym:
        raise Unsupported("arctan2")
    return S.frac(math.atan2(a, b))


def _trunc(x):
    x = S.num(x)
    if type(x) is not Sym:
        return x if S.is_special(x) else Fraction(math.trunc(x))
    return S.sfloor(x) if S.truth(x >= 0) else S.sceil(x)


TABLE = {
    "add": _add, "subtract": lambda a, b: S.num(a) - S.num(b) if not isinstance(S.num(a), SBool) else S.b2n(a) - S.num(b),
    "multiply": _mul, "divide": S.sdiv, "true_divide": S.sdiv, "floor_divide": _floordiv, "remainder": _mod, "mod": _mod,
    "negative": lambda a: -S.num(a), "positive": lambda a: a, "power": S.spow, "float_power": S.spow,
    "absolute": lambda a: S.sabs(a), "fabs": lambda a: S.sabs(a), "sign": S.ssign,
    "sqrt": S.ssqrt, "square": lambda a: S.num(a) * S.num(a), "reciprocal": lambda a: S.sdiv(1, a),
    "exp": S.sexp, "log": S.slog, "log1p": lambda a: S.slog(S.num(a) + 1), "expm1": lambda a: S.sexp(a) - 1,
    "log2": lambda a: S.sdiv(S.slog(a), S.slog(Fraction(2))), "log10": lambda a: S.sdiv(S.slog(a), S.slog(Fraction(10))),
    "logaddexp": lambda a, b: S.slog(S.sexp(a) + S.sexp(b)), "exp2": lambda a: S.spow(2, a),
    "floor": S.sfloor, "ceil": S.sceil, "rint": S.sround, "trunc": _trunc,
    "minimum": _pymin, "maximum": _pymax, "fmin": _fmin, "fmax": _fmax,
    "less": _lt, "less_equal": lambda a, b: S.compare("le", a, b), "greater": lambda a, b: _lt(b, a),
    "greater_equal": lambda a, b: S.compare("le", b, a), "equal": _eq, "not_equal": lambda a, b: S.bnot(_eq(a, b)),
    "logical_and": lambda a, b: S.band(_bool(a), _bool(b)), "logical_or": lambda a, b: S.bor(_bool(a), _bool(b)),
    "logical_not": lambda a: S.bnot(_bool(a)),
    "logical_xor": lambda a, b: S.bor(S.band(_bool(a), S.bnot(_bool(b))), S.band(S.bnot(_bool(a)), _bool(b))),
    "bitwise_and": lambda a, b: S.band(a, b), "bitwise_or": lambda a, b: S.bor(a, b), "invert": lambda a: S.bnot(a),
    "bitwise_xor": lambda a, b: S.bor(S.band(a, S.bnot(b)), S.band(S.bnot(a), b)),
    "isnan": _isnan, "isfinite": lambda a: type(a) is not float or not (a != a or a in (S.INF, -S.INF)),
    "isinf": lambda a: type(a) is float and a in (S.INF, -S.INF), "signbit": lambda a: _lt(a, 0),
    "conjugate": _conj, "conj": _conj, "sin": _sin(math.sin), "cos": _sin(math.cos), "tan": _sin(math.tan),
    "arctan": _sin(math.atan), "tanh": _sin(math.tanh), "arctan2": _arctan2, "hypot": lambda a, b: S.ssqrt(S.num(a) ** 2 + S.num(b) ** 2),
}
_UF = {}
BOOL_OUT = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
            "logical_not", "logical_xor", "isnan", "isfinite", "isinf", "signbit"}


def _pyuf(name, nin):
    f = _UF.get(name)
    if f is None:
        if name not in TABLE:
            raise Unsupported("ufunc %s" % name)
        f = _UF[name] = np.frompyfunc(TABLE[name], nin, 1)
    return f


def _needs_obj(x):
    if isinstance(x, np.ndarray):
        return raw_dtype(x) == object or raw_dtype(x).kind == "f"
    return isinstance(x, (Sym, Fraction, SBool, float))


def _operand(x, float_like=False):
    if isinstance(x, np.ndarray):
        return to_obj(x)
    if isinstance(x, (list, tuple)):
        return to_obj(mkarray(x))
    return S.num(x)


def ufunc(uf, method, inputs, out, kw):
    name = uf.__name__
    if isinstance(uf, np.ufunc) and name.endswith("(vectorized)"):
        # our own frompyfunc objects
        r = getattr(uf, method)(*[base(x) if isinstance(x, np.ndarray) else x for x in inputs], **kw)
        return A.wrap(r)
    sym = any(_needs_obj(x) for x in inputs) or name in ("true_divide", "divide") and method == "__call__" \
        or (out is not None and any(_needs_obj(o) for o in (out if isinstance(out, tuple) else (out,)) if o is not None))
    if not sym and name in ("sqrt", "exp", "log", "reciprocal"):
        sym = True
    if not sym and name == "matmul":
        r = getattr(uf, method)(*[base(x) if isinstance(x, np.ndarray) else x for x in inputs])
        return A.wrap(r)
    if not sym:
        ins = [base(x) if isinstance(x, np.ndarray) else x for x in inputs]
        k = dict(kw)
        if k.get("dtype") is float_:
            k["dtype"] = None
            sym = True
        else:
            if out is not None:
                k["out"] = tuple(base(o) if isinstance(o, np.ndarray) else o for o in (out if isinstance(out, tuple) else (out,)))
            r = getattr(uf, method)(*ins, **k)
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                return o
            return A.wrap(r)
    if name in ("matmul", "vecdot"):
        r = _matmul(*inputs)
        return _ret(r, out)
    if name == "divmod":
        return _pyw("floor_divide", inputs), _pyw("remainder", inputs)
    f = _pyuf(name, uf.nin)
    ins = [_operand(x) for x in inputs]
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if method == "__call__":
        if where is not True:
            wb = base(np.asarray(where)) if isinstance(where, np.ndarray) else where
            wb = A._bool_of(wb) if isinstance(wb, np.ndarray) else wb
            arrs = np.broadcast_arrays(*ins, wb)
            o = np.empty(arrs[-1].shape, dtype=object)
            prev = None
            if out is not None and (out[0] if isinstance(out, tuple) else out) is not None:
                prev = to_obj(out[0] if isinstance(out, tuple) else out)
            for i in np.ndindex(o.shape):
                if arrs[-1][i]:
                    o[i] = TABLE[name](*[a[i] for a in arrs[:-1]])
                else:
                    o[i] = prev[i] if prev is not None else np_.uninit()
            return _ret(settle(o), out)
        r = f(*ins)
        if isinstance(r, np.ndarray) and name in BOOL_OUT | {"bitwise_and", "bitwise_or", "invert", "bitwise_xor"}:
            r = settle(r)
            if not r.size and (name in BOOL_OUT or all(isinstance(x, np.ndarray) and raw_dtype(x).kind == "b" for x in inputs)):
                r = r.astype(bool)
        return _ret(r, out)
    if method == "reduce":
        return _ret(_reduce(name, ins[0], kw.pop("axis", 0), kw.pop("keepdims", False), kw.pop("initial", None), where), out)
    if method == "accumulate":
        return _ret(f.accumulate(ins[0], axis=kw.get("axis", 0)), out)
    if method == "outer":
        return _ret(f.outer(*ins), out)
    if method == "at":
        arr_, idx = inputs[0], inputs[1]
        for n, i in enumerate(np.asarray(idx).tolist() if not isinstance(idx, tuple) else list(zip(*[np.asarray(q).tolist() for q in idx]))):
            v = inputs[2] if len(inputs) > 2 else None
            v = v if not isinstance(v, np.ndarray) else v[n]
            arr_[i] = TABLE[name](arr_[i], v)
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _pyw(name, ins):
    return A.wrap(_pyuf(name, 2)(*[_operand(x) for x in ins]))


def _ret(r, out):
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if isinstance(o, SArr):
                o[...] = r
            else:
                o[...] = np.asarray(r)
            return o
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r[()]
        return r.view(SArr)
    return r


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "maximum": None, "minimum": None,
         "bitwise_and": True, "bitwise_or": False, "fmin": None, "fmax": None}


def _reduce(name, a, axis, keepdims=False, initial=None, where=True):
    a = a if isinstance(a, np.ndarray) else A._wrap0(a)
    if where is not True:
        w = np.broadcast_to(A._bool_of(base(np.asarray(where))), a.shape)
        fill = initial if initial is not None else IDENT.get(name)
        if fill is None:
            raise Unsupported("masked %s" % name)
        b = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            b[i] = a[i] if w[i] else fill
        a = b
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        if a.ndim == 0:
            axes = ()
        else:
            if not -a.ndim <= axis < a.ndim:
                raise np.exceptions.AxisError(axis, a.ndim)
            axes = (int(axis) % a.ndim,)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1] if a.size or not axes else
                                               [a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in axes]))])
    out = np.empty(b.shape[:-1], dtype=object)
    if name in ("minimum", "maximum") and b.shape[-1] == 0 and initial is None and out.size:
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    for i in np.ndindex(out.shape):
        v = list(b[i])
        if initial is not None:
            v = [S.num(initial)] + v
        out[i] = _fold(name, v)
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    if name in ("logical_and", "logical_or"):
        out = settle(out)
    return out if out.ndim else out[()]


def _fold(name, v):
    if name == "minimum":
        return S.NAN if any(map(_isnan, v)) else S.smin(v)
    if name == "maximum":
        return S.NAN if any(map(_isnan, v)) else S.smax(v)
    if name == "logical_and":
        return S.band(*[_bool(x) for x in v])
    if name == "logical_or":
        return S.bor(*[_bool(x) for x in v])
    if not v:
        r = IDENT[name]
        return Fraction(r) if name in ("add", "multiply") else r
    r = v[0]
    if name == "add":
        r = S.b2n(r) if isinstance(r, (SBool, bool)) else r
        if len(v) > 8:
            return _sum(v)
    f = TABLE[name]
    for x in v[1:]:
        if name == "add" and isinstance(x, (SBool, bool)):
            x = S.b2n(x)
        r = f(r, x)
    return r


def _sum(v):
    t = {}
    spec = []
    for x in v:
        x = S.b2n(x) if isinstance(x, (SBool, bool)) else S.num(x)
        if type(x) is float:
            spec.append(x)
            continue
        for m, c in S.lift(x).t.items():
            n = t.get(m)
            t[m] = S.norm(c if n is None else n + c)
    if spec:
        return sum(spec)
    if all(type(x) is int for x in v):
        return sum(v)
    return S.out({m: c for m, c in t.items() if c})


def _matmul(a, b):
    a, b = to_obj(mkarray(a) if not isinstance(a, np.ndarray) else a), to_obj(mkarray(b) if not isinstance(b, np.ndarray) else b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        return _sum([_mul(x, y) for x, y in zip(a, b)])
    if a.ndim == 1:
        return _matmul(a[None, :], b)[..., 0, :]
    if b.ndim == 1:
        return _matmul(a, b[:, None])[..., 0]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (shapes %s, %s)" % (a.shape, b.shape))
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, lead + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:])
    o = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(lead):
        for r in range(a.shape[-2]):
            for c in range(b.shape[-1]):
                o[i + (r, c)] = _sum([_mul(x, y) for x, y in zip(a[i][r], b[i][:, c])])
    return o


def array_function(func, types_, args, kwargs):
    name = func.__name__
    mod = getattr(func, "__module__", "") or ""
    tgt = None
    if "linalg" in mod and hasattr(Linalg, name):
        tgt = getattr(np_.linalg, name)
    elif "fft" in mod:
        tgt = getattr(np_.fft, name)
    elif name in np_.__dict__:
        tgt = np_.__dict__[name]
    if tgt is not None and tgt is not func:
        return tgt(*args, **kwargs)
    return fallback(func, args, kwargs)


def _strip(x):
    if isinstance(x, SArr):
        b = base(x)
        return b
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(e) for e in x) if type(x) in (list, tuple) else x
    return x


SAFE = {"concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "reshape", "transpose", "swapaxes", "moveaxis",
        "expand_dims", "squeeze", "ravel", "broadcast_to", "broadcast_arrays", "repeat", "tile", "roll", "flip", "fliplr", "flipud", "rot90", "delete",
        "insert", "append", "take", "take_along_axis", "put_along_axis", "diag", "diagonal", "triu", "tril", "split", "array_split", "copyto", "pad",
        "ndim", "shape", "size", "atleast_1d", "atleast_2d", "atleast_3d", "empty_like", "resize", "trim_zeros", "meshgrid", "ix_", "rollaxis", "block",
        "as_strided", "may_share_memory", "shares_memory", "result_type", "trace", "fill_diagonal", "unravel_index", "ravel_multi_index", "apply_along_axis",
        "sliding_window_view", "copy", "vsplit", "hsplit", "dsplit", "put", "tri", "broadcast_shapes", "diag_indices_from", "triu_indices_from",
        "tril_indices_from", "savetxt", "extract", "place", "putmask", "compress", "choose", "array_str", "array_repr", "array2string", "iscomplexobj", "isrealobj"}


def fallback(func, args, kwargs):
    name = func.__name__
    has_obj = _has_obj(args) or _has_obj(kwargs.values())
    if has_obj and name not in SAFE:
        raise Unsupported("numpy.%s on symbolic values" % name)
    kwargs = {k: _strip(v) for k, v in kwargs.items()}
    kwargs = {k: (float if v is float_ else v) for k, v in kwargs.items()}
    return conv_result(func(*_strip(tuple(args)), **kwargs))


def _has_obj(xs):
    for x in xs:
        if isinstance(x, np.ndarray):
            if raw_dtype(x) == object:
                return True
        elif isinstance(x, (Sym, SBool)):
            return True
        elif isinstance(x, (list, tuple)):
            if _has_obj(x):
                return True
    return False


def conv_result(r):
    if isinstance(r, np.ndarray):
        if raw_dtype(r).kind == "f":
            return to_obj(r).view(SArr)
        return r.view(SArr)
    if isinstance(r, np.floating):
        return S.frac(float(r))
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(conv_result(x) for x in r)
    if type(r) is list:
        return [conv_result(x) for x in r]
    return r


class Sub(types.SimpleNamespace):
    pass


class NP(types.ModuleType):
    """the module object"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(np, name)
        if isinstance(v, type) or isinstance(v, types.ModuleType):
            return v
        if isinstance(v, np.ufunc):
            if v.nin == 0:
                return v
            w = UF(v)
            setattr(self, name, w)
            return w
        if callable(v):
            def w(*a, **k):
                return fallback(v, a, k)
            w.__name__ = name
            return w
        return v


class UF:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def _do(self, method, a, k):
        out = k.pop("out", None)
        a = tuple(mkarray(x) if isinstance(x, (list, tuple)) else x for x in a)
        if out is not None and not isinstance(out, tuple):
            out = (out,)
        n = self.u.nin if method in ("__call__", "outer") else 1
        if method == "__call__" and len(a) > n:
            out = tuple(a[n:])
            a = a[:n]
        if method == "reduce" and len(a) > 1:
            k["axis"] = a[1]
            a = a[:1]
        if not any(isinstance(x, np.ndarray) for x in a) and method == "__call__" and self.u.__name__ in TABLE:
            r = TABLE[self.u.__name__](*[S.num(x) for x in a])
            return r if out is None else _ret(r, out)
        return ufunc(self.u, method, a, out, k)

    def __call__(self, *a, **k):
        return self._do("__call__", a, k)

    def reduce(self, *a, **k):
        return self._do("reduce", a, k)

    def accumulate(self, *a, **k):
        return self._do("accumulate", a, k)

    def outer(self, *a, **k):
        return self._do("outer", a, k)

    def at(self, *a, **k):
        return self._do("at", a, k)


np_ = NP("numpy")
np_.__version__ = np.__version__
np_.__path__ = []
np_.ndarray = SArr
np_.inf = S.INF
np_.nan = S.NAN
np_.pi = S.frac(math.pi)
np_.e = S.frac(math.e)
np_.newaxis = None
np_.float64 = np.float64
np_.generic = np.generic


def expose(f):
    setattr(np_, f.__name__.rstrip("_"), f)
    return f


_uninit = itertools.count()


def uninit():
    if ENG.cur is not None:
        return ENG.cur.fresh("uninit")
    return Fraction(-777777)


np_.uninit = uninit


def _isfl(dtype):
    return A.want(dtype) in (None, "f")


def _arr(x):
    return x if isinstance(x, SArr) else mkarray(x)


def _fillarr(shape, v):
    o = np.empty(shape, dtype=object)
    o[...] = A._wrap0(v)
    return o.view(SArr)


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(_ix(x) for x in s)
    return _ix(s)


def _ix(x):
    if isinstance(x, (Sym, Fraction)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return operator.index(x)


@expose
def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    r = mkarray(x, dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


@expose
def asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        w = A.want(dtype)
        if w is None or (w == "f" and raw_dtype(x) == object and A._holds_float(x)) or (w == raw_dtype(x)):
            return x
    return mkarray(x, dtype)


np_.asanyarray = np_.ascontiguousarray = np_.asfarray = asarray


@expose
def empty(shape, dtype=None, order=None):
    if _isfl(dtype):
        o = np.empty(_shape(shape), dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = uninit()
        return o.view(SArr)
    w = A.want(dtype)
    if w == object:
        return np.empty(_shape(shape), dtype=object).view(SArr)
    o = np.empty(_shape(shape), dtype=w)
    o[...] = (-777777 if w.kind == "i" else (True if w.kind == "b" else np.zeros((), w)))
    return o.view(SArr)


@expose
def full(shape, v, dtype=None, order=None):
    if dtype is None:
        v = S.num(v)
        if isinstance(v, np.ndarray):
            o = np.empty(_shape(shape), dtype=object).view(SArr)
            o[...] = v
            return o
        k = A.kind_of_scalar(v)
        if k == "i":
            return np.full(_shape(shape), int(v)).view(SArr)
        if k == "b" and type(v) is not SBool:
            return np.full(_shape(shape), bool(v)).view(SArr)
        return _fillarr(_shape(shape), v)
    if _isfl(dtype):
        if isinstance(v, np.ndarray):
            o = np.empty(_shape(shape), dtype=object).view(SArr)
            o[...] = float_obj(v)
            return o
        return _fillarr(_shape(shape), A._tofloat(v))
    w = A.want(dtype)
    return np.full(_shape(shape), v, dtype=w).view(SArr)


@expose
def zeros(shape, dtype=None, order=None):
    if _isfl(dtype):
        return _fillarr(_shape(shape), Fraction(0))
    return np.zeros(_shape(shape), dtype=A.want(dtype)).view(SArr)


@expose
def ones(shape, dtype=None, order=None):
    if _isfl(dtype):
        return _fillarr(_shape(shape), Fraction(1))
    return np.ones(_shape(shape), dtype=A.want(dtype)).view(SArr)


def _like(f):
    def g(a, dtype=None, shape=None, **k):
        a = _arr(a)
        return f(a.shape if shape is None else shape, dtype if dtype is not None else a.dtype)
    return g


np_.zeros_like, np_.ones_like, np_.empty_like = _like(zeros), _like(ones), _like(empty)


@expose
def full_like(a, v, dtype=None, **k):
    a = _arr(a)
    return full(a.shape, v, dtype if dtype is not None else a.dtype)


@expose
def eye(n, M=None, k=0, dtype=float):
    o = np.eye(_ix(n), None if M is None else _ix(M), k, dtype=int)
    return cast_(o, dtype)


np_.identity = lambda n, dtype=None: eye(n, dtype=dtype or float)


def cast_(o, dtype):
    return A.cast(o.view(SArr), dtype)


@expose
def arange(*a, dtype=None):
    a = [S.num(x) for x in a]
    if all(isinstance(x, (int, bool)) for x in a):
        r = np.arange(*a)
        return cast_(r, dtype) if dtype is not None else r.view(SArr)
    start, stop, step = (Fraction(0), a[0], Fraction(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else Fraction(1))
    n = int(S.sceil(S.sdiv(stop - start, step)))
    return mkarray([start + i * step for i in range(max(0, n))], dtype or float)


@expose
def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, Fraction) and num.denominator == 1:
        raise TypeError("'float' object cannot be interpreted as an integer")
    num = _ix(num)
    a, b = S.num(a), S.num(b)
    d = num - 1 if endpoint else num
    if d == 0:
        step = S.NAN
        r = [a] * num
    else:
        step = S.sdiv(b - a, d)
        r = [a + i * step for i in range(num)]
        if endpoint and num > 1:
            r[-1] = b
    r = mkarray(r, dtype or float)
    return (r, step) if retstep else r


def _axred(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        a = _arr(a)
        if raw_dtype(a) != object and raw_dtype(a).kind != "f" and where is True:
            kw = {}
            if initial is not None:
                kw["initial"] = initial
            r = getattr(np, name)(base(a), axis=axis, keepdims=bool(keepdims), **kw)
            return A.wrap(r) if out is None else _ret(r, out)
        u = {"sum": "add", "prod": "multiply", "min": "minimum", "max": "maximum", "any": "logical_or", "all": "logical_and"}[name]
        r = _reduce(u, to_obj(a), axis, bool(keepdims), initial, where)
        return _ret(r, out)
    f.__name__ = name
    return f


for _n in ("sum", "prod", "min", "max", "any", "all"):
    setattr(np_, _n, _axred(_n))
np_.amin, np_.amax = np_.min, np_.max


def _count(shape, axis):
    if axis is None:
        return int(np.prod(shape))
    if isinstance(axis, tuple):
        return int(np.prod([shape[i] for i in axis]))
    return shape[axis]


@expose
def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = _arr(a)
    if where is not True:
        raise Unsupported("mean where")
    n = _count(a.shape, axis)
    s = _reduce("add", float_obj(a), axis, bool(keepdims))
    r = ufunc(np.true_divide, "__call__", (s, n), None, {}) if isinstance(s, np.ndarray) else S.sdiv(s, n)
    return _ret(base(r) if isinstance(r, np.ndarray) else r, out)


@expose
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    a = _arr(a)
    n = _count(a.shape, axis)
    m = mean(a, axis=axis, keepdims=True)
    d = float_obj(a) - to_obj(m) if isinstance(m, np.ndarray) else float_obj(a) - m
    sq = np.frompyfunc(lambda x: x * x, 1, 1)(d)
    s = _reduce("add", sq, axis, bool(keepdims))
    r = ufunc(np.true_divide, "__call__", (s, n - ddof), None, {}) if isinstance(s, np.ndarray) else S.sdiv(s, n - ddof)
    return _ret(base(r) if isinstance(r, np.ndarray) else r, out)


@expose
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
    v = var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return _ret(np.frompyfunc(lambda x: S.ssqrt(S.sos(x)), 1, 1)(to_obj(v)) if isinstance(v, np.ndarray) else S.ssqrt(S.sos(v)), out)


def _nanred(core):
    """apply core(list) over non-nan entries along an axis"""
    def f(a, axis=None, keepdims=False, ddof=0, out=None, **k):
        a = to_obj(_arr(a))
        if axis is None:
            axes = tuple(range(a.ndim))
        else:
            axes = tuple(x % a.ndim for x in axis) if isinstance(axis, tuple) else (axis % a.ndim,)
        keep = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(keep + list(axes)).reshape([a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in axes]))])
        o = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = core([x for x in b[i] if not _isnan(x)], ddof)
        if keepdims and keepdims is not np._NoValue:
            o = o.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return _ret(o, None)
    return f


def _c_mean(v, _):
    return S.sdiv(_sum(v), len(v)) if v else S.NAN


def _c_var(v, ddof):
    if len(v) - ddof <= 0:
        return S.NAN
    m = _c_mean(v, 0)
    return S.sos(S.sdiv(_sum([(x - m) * (x - m) for x in v]), len(v) - ddof))


def _c_median(v, _):
    if not v:
        return S.NAN
    v = _sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else S.sdiv(v[n // 2 - 1] + v[n // 2], 2)


def _sorted(v):
    """sorted values of a list (bubble network of min/max: no forking)"""
    v = list(v)
    if any(_isnan(x) for x in v):
        k = [x for x in v if not _isnan(x)]
        return _sorted(k) + [S.NAN] * (len(v) - len(k))
    if all(type(x) is not Sym for x in v):
        return sorted(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = S.smin(a, b), S.smax(a, b)
    return v


np_.nanmean = _nanred(_c_mean)
np_.nanvar = _nanred(_c_var)
np_.nanstd = _nanred(lambda v, d: S.ssqrt(_c_var(v, d)))
np_.nansum = _nanred(lambda v, d: _sum(v))
np_.nanmin = _nanred(lambda v, d: S.smin(v) if v else S.NAN)
np_.nanmax = _nanred(lambda v, d: S.smax(v) if v else S.NAN)
np_.nanmedian = _nanred(_c_median)


@expose
def median(a, axis=None, keepdims=False, **k):
    a = _arr(a)
    f = _nanred(_c_median)
    if any(_isnan(x) for x in to_obj(a).ravel()):
        raise Unsupported("median with nan")
    return f(a, axis=axis, keepdims=keepdims)


def _argext(name):
    mx = name == "argmax"

    def pick(v):
        for i, x in enumerate(v):
            if _isnan(x):
                return i
        if isinstance(v[0], (bool, SBool)) or any(isinstance(x, SBool) for x in v):
            v = [S.b2n(x) for x in v]
        best = 0
        for i in range(1, len(v)):
            c = S.compare("lt", v[best], v[i]) if mx else S.compare("lt", v[i], v[best])
            if S.truth(c):
                best = i
        return best

    def f(a, axis=None, out=None, keepdims=False):
        a = _arr(a)
        if a.size == 0:
            raise ValueError("attempt to get %s of an empty sequence" % name)
        if raw_dtype(a) != object and raw_dtype(a).kind != "f":
            return A.wrap(getattr(np, name)(base(a), axis=axis))
        o = to_obj(a)
        if axis is None:
            return np.int64(pick(list(o.ravel())))
        o = np.moveaxis(o, axis, -1)
        r = np.empty(o.shape[:-1], dtype=np.int64)
        for i in np.ndindex(r.shape):
            r[i] = pick(list(o[i]))
        return r.view(SArr) if r.ndim else r[()]
    f.__name__ = name
    return f


np_.argmin, np_.argmax = _argext("argmin"), _argext("argmax")


@expose
def nanargmin(a, axis=None):
    a = to_obj(_arr(a))
    b = np.frompyfunc(lambda x: S.INF if _isnan(x) else x, 1, 1)(a)
    return np_.argmin(b.view(SArr), axis=axis)


def _cmp_sort(v):
    """stable order of a list of scalars: list of indices; forks on undecided comparisons (insertion sort)"""
    order = []
    for i, x in enumerate(v):
        j = len(order)
        while j > 0:
            y = v[order[j - 1]]
            if _isnan(x):
                break
            if _isnan(y) or S.truth(S.compare("lt", x, y)):
                j -= 1
            else:
                break
        order.insert(j, i)
    return order


@expose
def argsort(a, axis=-1, kind=None, order=None, **k):
    a = _arr(a)
    if raw_dtype(a) != object and raw_dtype(a).kind != "f":
        return A.wrap(np.argsort(base(a), axis=axis, kind=kind))
    o = to_obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    o = np.moveaxis(o, axis, -1)
    r = np.empty(o.shape, dtype=np.int64)
    for i in np.ndindex(o.shape[:-1]):
        r[i] = _cmp_sort(list(o[i]))
    return np.moveaxis(r, -1, axis).copy().view(SArr)


@expose
def argpartition(a, kth, axis=-1, **k):
    """contract: kth entry in place, smaller or equal before, larger or equal after.  Ties and the order inside each side are
    unspecified: the reverse of the sorted order on each side is used (an arbitrary legal choice)."""
    r = argsort(a, axis=axis)
    b = np.moveaxis(base(r), axis, -1).copy()
    ks = [int(x) for x in np.atleast_1d(np.asarray(kth))]
    if len(ks) == 1:
        n = b.shape[-1]
        q = ks[0] % n
        b[..., :q] = b[..., :q][..., ::-1].copy()
        b[..., q + 1:] = b[..., q + 1:][..., ::-1].copy()
    return np.moveaxis(b, -1, axis).copy().view(SArr)


@expose
def sort(a, axis=-1, kind=None, order=None, **k):
    a = _arr(a)
    if raw_dtype(a) != object and raw_dtype(a).kind != "f":
        return A.wrap(np.sort(base(a), axis=axis))
    o = to_obj(a)
    if axis is None:
        o, axis = o.ravel(), 0
    o = np.moveaxis(o, axis, -1).copy()
    for i in np.ndindex(o.shape[:-1]):
        o[i] = _sorted(list(o[i]))
    return np.moveaxis(o, -1, axis).copy().view(SArr)


@expose
def partition(a, kth, axis=-1, **k):
    return sort(a, axis=axis)


@expose
def where(c, *xy):
    c = _arr(c)
    if not xy:
        return nonzero(c)
    x, y = [v if isinstance(v, np.ndarray) else S.num(v) if not isinstance(v, (list, tuple)) else mkarray(v) for v in xy]
    if raw_dtype(c) != object and not _needs_obj(x) and not _needs_obj(y):
        return A.wrap(np.where(base(c), _strip(x), _strip(y)))
    arrs = np.broadcast_arrays(to_obj(c), *[to_obj(v) if isinstance(v, np.ndarray) else A._wrap0(v) for v in (x, y)])
    o = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = S.site(_bool(arrs[0][i]), arrs[1][i], arrs[2][i])
    o = A.infer(o) if not all(type(v) is bool for v in o.ravel()) else settle(o)
    return o if not (isinstance(o, np.ndarray) and o.ndim == 0) else o[()]


@expose
def nonzero(a):
    a = _arr(a)
    if raw_dtype(a) == object:
        o = base(a)
        b = np.empty(o.shape, dtype=bool)
        for i in np.ndindex(o.shape):
            b[i] = S.truth(_bool(o[i]))
        a = b
    return tuple(x.view(SArr) for x in np.nonzero(base(a)))


np_.flatnonzero = lambda a: nonzero(np_.ravel(_arr(a)))[0]
np_.argwhere = lambda a: np.transpose(np.array([base(x) for x in nonzero(a)])).view(SArr)


@expose
def count_nonzero(a, axis=None, **k):
    return np_.sum(np_.logical_not(np_.logical_not(_arr(a))).astype(int) if raw_dtype(_arr(a)) != object else
                   np.frompyfunc(lambda x: S.b2n(_bool(x)), 1, 1)(base(a)).view(SArr), axis=axis)


@expose
def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("min", lo) if lo is None else lo
    hi = k.get("max", hi) if hi is None else hi
    r = a
    if lo is not None:
        r = np_.maximum(r, lo)
    if hi is not None:
        r = np_.minimum(r, hi)
    return _ret(base(r) if isinstance(r, np.ndarray) else r, out)


@expose
def cumsum(a, axis=None, dtype=None, out=None):
    a = _arr(a)
    if axis is None:
        a, axis = np_.ravel(a), 0
    return ufunc(np.add, "accumulate", (a,), out, {"axis": axis})


@expose
def cumprod(a, axis=None, **k):
    a = _arr(a)
    if axis is None:
        a, axis = np_.ravel(a), 0
    return ufunc(np.multiply, "accumulate", (a,), None, {"axis": axis})


@expose
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = _arr(a)
    if prepend is not None or append is not None:
        raise Unsupported("diff prepend")
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = list(sl1)
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@expose
def dot(a, b, out=None):
    a = _arr(a) if isinstance(a, (list, tuple, np.ndarray)) else a
    b = _arr(b) if isinstance(b, (list, tuple, np.ndarray)) else b
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim <= 2 and a.ndim <= 2:
        return _ret(_matmul(a, b), out)
    if b.ndim <= 2:
        o = _matmul(to_obj(a).reshape(-1, a.shape[-1]), b)
        return _ret(o.reshape(a.shape[:-1] + o.shape[1:]), out)
    return tensordot(a, b, axes=((a.ndim - 1,), (b.ndim - 2,)))


np_.matmul = lambda a, b, **k: _ret(_matmul(_arr(a), _arr(b)), None)
np_.inner = lambda a, b: _ret(_matmul(_arr(a), np.swapaxes(to_obj(_arr(b)), -1, -2) if _arr(b).ndim > 1 else _arr(b)), None)
np_.vdot = lambda a, b: _matmul(to_obj(_arr(a)).ravel(), to_obj(_arr(b)).ravel())


@expose
def outer(a, b, **k):
    return ufunc(np.multiply, "outer", (np_.ravel(_arr(a)), np_.ravel(_arr(b))), None, {})


@expose
def tensordot(a, b, axes=2):
    a, b = to_obj(_arr(a)), to_obj(_arr(b))
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[x] if isinstance(x, int) else list(x) for x in axes]
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    ka = [i for i in range(a.ndim) if i not in ax]
    kb = [i for i in range(b.ndim) if i not in bx]
    n = int(np.prod([a.shape[i] for i in ax])) if ax else 1
    A2 = a.transpose(ka + ax).reshape(-1, n)
    B2 = b.transpose(bx + kb).reshape(n, -1)
    return _ret(_matmul(A2, B2).reshape([a.shape[i] for i in ka] + [b.shape[i] for i in kb]), None)


@expose
def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum with ellipsis")
    if "->" in spec:
        ins, outp = spec.split("->")
    else:
        ins = spec
        ls = [c for c in ins if c != ","]
        outp = "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
    ins = ins.split(",")
    ops = [to_obj(_arr(o)) for o in ops]
    dim = {}
    for s_, o in zip(ins, ops):
        for c, n in zip(s_, o.shape):
            dim[c] = n
    summ = [c for c in dim if c not in outp]
    r = np.empty([dim[c] for c in outp], dtype=object)
    for i in np.ndindex(r.shape):
        e = dict(zip(outp, i))
        acc = []
        for j in itertools.product(*[range(dim[c]) for c in summ]):
            e.update(zip(summ, j))
            v = Fraction(1)
            for s_, o in zip(ins, ops):
                v = _mul(o[tuple(e[c] for c in s_)], v)
            acc.append(v)
        r[i] = _sum(acc)
    return _ret(r, None)


@expose
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = _arr(a)
    if weights is None:
        return mean(a, axis=axis, keepdims=keepdims)
    w = to_obj(_arr(weights))
    o = float_obj(a)
    if w.shape != o.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1 or w.shape[0] != o.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        sh = [1] * o.ndim
        sh[axis] = -1
        w = np.broadcast_to(w.reshape(sh), o.shape)
    num_ = _reduce("add", np.frompyfunc(_mul, 2, 1)(o, w) if o.ndim else A._wrap0(_mul(o[()], w[()])), axis)
    den = _reduce("add", w, axis)
    for x in (np.atleast_1d(den) if isinstance(den, np.ndarray) else [den]):
        xs = x.ravel() if isinstance(x, np.ndarray) else [x]
        for y in xs:
            if S.truth(_eq(y, 0)):
                raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = np.frompyfunc(S.sdiv, 2, 1)(num_, den)
    r = _ret(r, None)
    return (r, den) if returned else r


@expose
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = _arr(a)
    if raw_dtype(a) != object:
        return conv_result(np.unique(base(a), return_index, return_inverse, return_counts, axis))
    if axis is not None:
        raise Unsupported("unique axis")
    v = list(base(a).ravel())
    order = _cmp_sort(v)
    reps, first, inv, cnt = [], [], [0] * len(v), []
    for i in order:
        if reps and S.truth(_eq(reps[-1], v[i])):
            inv[i] = len(reps) - 1
            cnt[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            reps.append(v[i])
            first.append(i)
            cnt.append(1)
            inv[i] = len(reps) - 1
    r = [mkarray(reps, float)]
    if return_index:
        r.append(mkarray(first, int))
    if return_inverse:
        r.append(mkarray(inv, int).reshape(a.shape))
    if return_counts:
        r.append(mkarray(cnt, int))
    return r[0] if len(r) == 1 else tuple(r)


@expose
def array_equal(a, b, equal_nan=False):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    return S.band(*[_bool(_eq(x, y)) if not (equal_nan and _isnan(x) and _isnan(y)) else True
                    for x, y in zip(to_obj(a).ravel(), to_obj(b).ravel())])


def _close(x, y, rtol, atol, equal_nan):
    if _isnan(x) or _isnan(y):
        return equal_nan and _isnan(x) and _isnan(y)
    if S.is_special(x) or S.is_special(y):
        return x is y or (S.is_special(x) and S.is_special(y) and x == y)
    return S.compare("le", S.sabs(S.num(x) - S.num(y)), S.num(atol) + S.num(rtol) * S.sabs(y))


@expose
def isclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
        return _close(S.num(a), S.num(b), rtol, atol, equal_nan)
    a, b = np.broadcast_arrays(to_obj(_arr(a)), to_obj(_arr(b)))
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        o[i] = _close(a[i], b[i], rtol, atol, equal_nan)
    return A.wrap(settle(o))


@expose
def allclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return np_.all(r) if isinstance(r, np.ndarray) else r


@expose
def searchsorted(a, v, side="left", sorter=None):
    a = list(to_obj(_arr(a)))

    def one(x):
        n = 0
        for y in a:
            c = S.compare("lt", y, x) if side == "left" else S.compare("le", y, x)
            if S.truth(c):
                n += 1
            else:
                break
        return n
    if not isinstance(v, (np.ndarray, list, tuple)):
        return np.int64(one(S.num(v)))
    v = to_obj(_arr(v))
    o = np.empty(v.shape, dtype=np.int64)
    for i in np.ndindex(v.shape):
        o[i] = one(v[i])
    return o.view(SArr)


@expose
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


@expose
def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(to_obj(_arr(xp))), list(to_obj(_arr(fp)))

    def one(v):
        v = S.num(v)
        if _isnan(v):
            return v
        if S.truth(S.compare("lt", v, xp[0])):
            return fp[0] if left is None else S.num(left)
        if S.truth(S.compare("lt", xp[-1], v)):
            return fp[-1] if right is None else S.num(right)
        for i in range(len(xp) - 1):
            if S.truth(S.compare("le", v, xp[i + 1])):
                if S.truth(_eq(v, xp[i + 1])):
                    # numpy takes the right end of the run
                    j = i + 1
                    while j + 1 < len(xp) and S.truth(_eq(xp[j + 1], v)):
                        j += 1
                    return fp[j]
                t = S.sdiv(v - xp[i], xp[i + 1] - xp[i])
                return fp[i] + t * (fp[i + 1] - fp[i])
        return fp[-1]
    if not isinstance(x, (np.ndarray, list, tuple)):
        return one(x)
    x = to_obj(_arr(x))
    o = np.empty(x.shape, dtype=object)
    for i in np.ndindex(x.shape):
        o[i] = one(x[i])
    return o.view(SArr)


@expose
def bincount(x, weights=None, minlength=0):
    x = [int(i) for i in base(_arr(x))]
    n = max([minlength] + [i + 1 for i in x])
    if weights is None:
        return np.bincount(np.array(x, dtype=int), minlength=minlength).view(SArr)
    r = [Fraction(0)] * n
    for i, w in zip(x, to_obj(_arr(weights))):
        r[i] = r[i] + w
    return mkarray(r, float)


@expose
def round(a, decimals=0, out=None):
    if not isinstance(a, (np.ndarray, list, tuple)):
        return S.sround(a, decimals)
    return _ret(np.frompyfunc(lambda x: S.sround(x, decimals), 1, 1)(to_obj(_arr(a))), out)


np_.around = np_.round_ = round


@expose
def ptp(a, axis=None, **k):
    return np_.max(a, axis=axis) - np_.min(a, axis=axis)


@expose
def nan_to_num(x, copy=True, nan=Fraction(0), posinf=None, neginf=None):
    o = to_obj(_arr(x))
    big = S.frac(np.finfo(float).max)

    def f(v):
        if _isnan(v):
            return S.num(nan)
        if type(v) is float:
            return (big if posinf is None else S.num(posinf)) if v > 0 else (-big if neginf is None else S.num(neginf))
        return v
    r = np.frompyfunc(f, 1, 1)(o)
    r = _ret(r, None)
    if not copy and isinstance(x, SArr):
        x[...] = r
        return x
    return r


@expose
def isscalar(x):
    return isinstance(x, (Sym, Fraction)) or np.isscalar(x)


@expose
def finfo(t=None):
    f = np.finfo(np.float64 if (t is float_ or t is Fraction or not isinstance(t, (str, np.dtype, type)) or t is object) else t)
    return types.SimpleNamespace(max=S.INF, min=-S.INF, eps=S.frac(f.eps), tiny=S.frac(f.tiny), resolution=S.frac(f.resolution),
                                 smallest_normal=S.frac(f.smallest_normal), dtype=f.dtype)


@expose
def real(x):
    if isinstance(x, np.ndarray) and raw_dtype(x) == object:
        return np.frompyfunc(lambda v: v.real, 1, 1)(base(x)).view(SArr)
    return x if isinstance(x, (Sym, Fraction)) else x.real


@expose
def iscomplex(x):
    return np.frompyfunc(lambda v: isinstance(v, complex) and v.imag != 0, 1, 1)(base(_arr(x))).astype(bool).view(SArr)


@expose
def vectorize(f, otypes=None, **k):
    def g(*a):
        arrs = np.broadcast_arrays(*[to_obj(_arr(x)) for x in a])
        o = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = f(*[x[i] for x in arrs])
        return A.infer(o)
    return g


@expose
def apply_along_axis(f, axis, a, *args, **k):
    a = _arr(a)
    b = np.moveaxis(base(a), axis, -1)
    res = [f(b[i].view(SArr), *args, **k) for i in np.ndindex(b.shape[:-1])]
    r = mkarray(res)
    r = base(r).reshape(b.shape[:-1] + r.shape[1:])
    if r.ndim >= b.ndim:
        r = np.moveaxis(r, -1, axis)
    return r.copy().view(SArr)


@expose
def isin(a, b, **k):
    a = _arr(a)
    bs = list(to_obj(_arr(b)).ravel())
    return A.wrap(settle(np.frompyfunc(lambda x: S.bor(*[_eq(x, y) for y in bs]), 1, 1)(to_obj(a))))


@expose
def trapezoid(y, x=None, dx=1, axis=-1):
    raise Unsupported("trapezoid")


@expose
def cov(*a, **k):
    raise Unsupported("cov")


@expose
def fromstring(s, dtype=float, sep=""):
    return mkarray([S.untoken(t) for t in s.replace(sep, " ").split()], float)


@expose
def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    a = _arr(X)
    if a.ndim > 2 or a.ndim == 0:
        raise ValueError("Expected 1D or 2D array, got %dD array instead" % a.ndim)
    rows = [[x] for x in a] if a.ndim == 1 else [list(r) for r in a]
    if not isinstance(fmt, str):
        raise Unsupported("savetxt fmt")
    own = isinstance(fname, (str, bytes)) or hasattr(fname, "__fspath__")
    f = open(fname, "w") if own else fname
    try:
        if header:
            f.write(comments + header + newline)
        for r in rows:
            f.write(delimiter.join(S.token(x, fmt) for x in r) + newline)
        if footer:
            f.write(comments + footer + newline)
    finally:
        if own:
            f.close()


@expose
def loadtxt(fname, dtype=float, comments="#", delimiter=None, skiprows=0, ndmin=0, **k):
    own = isinstance(fname, str) or hasattr(fname, "__fspath__")
    lines = open(fname).read().splitlines() if own else list(fname)
    rows = [[S.untoken(t) for t in l.split(delimiter)] for l in lines[skiprows:] if l.split(comments)[0].strip()]
    a = mkarray(rows, dtype)
    return a if ndmin == 2 else np_.squeeze(a)


@expose
def errstate(**k):
    return np.errstate(**k)


# -- linalg, fft, random, testing, lib, ma
class Linalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        o = to_obj(_arr(x))
        sq = lambda v: S.num(v) * S.num(v)
        if axis is None and (ord is None or (ord == 2 and o.ndim == 1) or ord == "fro"):
            r = S.ssqrt(S.sos(_sum([sq(v) for v in o.ravel()])))
            return r
        if isinstance(axis, int) and ord in (None, 2) or isinstance(axis, tuple) and ord in (None, "fro"):
            s = _reduce("add", np.frompyfunc(sq, 1, 1)(o), axis, keepdims)
            return _ret(np.frompyfunc(lambda v: S.ssqrt(S.sos(v)), 1, 1)(s), None)
        if ord == 1 and (o.ndim == 1 or isinstance(axis, int)):
            return _ret(_reduce("add", np.frompyfunc(S.sabs, 1, 1)(o), axis, keepdims), None)
        if ord == np.inf and (o.ndim == 1 or isinstance(axis, int)):
            return _ret(_reduce("maximum", np.frompyfunc(S.sabs, 1, 1)(o), axis, keepdims), None)
        raise Unsupported("norm ord=%s axis=%s" % (ord, axis))

    @staticmethod
    def inv(a):
        return Linalg.solve(a, eye(len(a)))

    @staticmethod
    def solve(a, b):
        M = [list(r) for r in float_obj(_arr(a))]
        bb = float_obj(_arr(b))
        vec = bb.ndim == 1
        B = [[x] if vec else list(x) for x in bb]
        n = len(M)
        for c in range(n):
            p = next((r for r in range(c, n) if not S.truth(_eq(M[r][c], 0))), None)
            if p is None:
                raise np.linalg.LinAlgError("Singular matrix")
            M[c], M[p], B[c], B[p] = M[p], M[c], B[p], B[c]
            d = M[c][c]
            M[c] = [S.sdiv(x, d) for x in M[c]]
            B[c] = [S.sdiv(x, d) for x in B[c]]
            for r in range(n):
                if r != c:
                    f = M[r][c]
                    M[r] = [x - f * y for x, y in zip(M[r], M[c])]
                    B[r] = [x - f * y for x, y in zip(B[r], B[c])]
        return mkarray([r[0] for r in B] if vec else B, float).reshape(bb.shape)

    @staticmethod
    def lstsq(a, b, rcond=None):
        """normal equations; full column rank is assumed (with margin, so that replays are well conditioned)"""
        a, b = _arr(a), _arr(b)
        n = a.shape[1]
        if n == 0:
            return zeros((0,) + b.shape[1:]), mkarray([], float), 0, None
        at = a.T
        G, R = dot(at, a), to_obj(_arr(dot(at, b)))
        if not any(type(v) is S.Sym for v in to_obj(G).ravel()):
            return Linalg.solve(G, R), mkarray([], float), min(a.shape), None
        g = to_obj(G)
        det = Linalg.det(g)
        S.ENG.cur.assume(S.bnot(S.compare("eq", det, 0)))
        S.ENG.cur.assume(S.compare("le", Fraction(1, 100), det))
        R2 = R.reshape(n, -1)
        out = np.empty(R2.shape, dtype=object)
        for j in range(R2.shape[1]):
            for i in range(n):
                m = g.copy()
                m[:, i] = R2[:, j]
                out[i, j] = S.sdiv(Linalg.det(m), det)
        return mkarray(list(out.ravel()), float).reshape(R.shape), mkarray([], float), n, None

    @staticmethod
    def pinv(a, **k):
        a = _arr(a)
        return dot(Linalg.inv(dot(a.T, a)), a.T)

    @staticmethod
    def det(a):
        a = to_obj(_arr(a))
        n = len(a)
        if n == 0:
            return Fraction(1)
        if n == 1:
            return a[0, 0]
        return _sum([(-1) ** j * a[0, j] * Linalg.det(np.delete(a[1:], j, 1)) for j in range(n)])

    @staticmethod
    def eigh(a, UPLO="L"):
        """contract model: eigenvalues ascending, orthonormal eigenvectors -- left arbitrary"""
        hook = HOOKS.get("eigh")
        if hook is None:
            raise Unsupported("eigh")
        return hook(_arr(a))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("linalg.%s" % n)


HOOKS = {}
np_.linalg = Linalg("numpy.linalg")


class Spectrum:
    """An element of the group ring of Z_n standing for the DFT of a real sequence: product = circular convolution,
    conjugate = index reversal.  Exact, and all cycc-style code needs."""

    def __init__(self, seqs):
        self.a = seqs          # object ndarray, last axis = time (n samples)
        self.shape = seqs.shape
        self.ndim = seqs.ndim
        self.size = seqs.size
        self.dtype = np.dtype(complex)

    def conj(self):
        n = self.a.shape[-1]
        idx = (-np.arange(n)) % n
        return Spectrum(self.a[..., idx])

    conjugate = conj

    def __mul__(self, o):
        if isinstance(o, Spectrum):
            a, b = np.broadcast_arrays(self.a, o.a)
            n = a.shape[-1]
            r = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape[:-1]):
                for k in range(n):
                    r[i + (k,)] = _sum([_mul(a[i][j], b[i][(k - j) % n]) for j in range(n)])
            return Spectrum(r)
        raise Unsupported("spectrum times %s" % type(o))

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, Spectrum):
            return Spectrum(self.a + o.a)
        raise Unsupported("spectrum add")

    def _axis_last(self, axis):
        return axis in (-1, self.ndim - 1)

    def sum(self, axis=None):
        if axis is None or self._axis_last(axis):
            raise Unsupported("spectrum sum over frequency")
        return Spectrum(_reduce("add", self.a, axis))

    def __getitem__(self, k):
        k2 = k if isinstance(k, tuple) else (k,)
        if len(k2) >= self.ndim and Ellipsis not in k2 and not (len(k2) == self.ndim and k2[-1] == slice(None)):
            raise Unsupported("spectrum frequency indexing")
        return Spectrum(self.a[k])

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if method == "__call__" and uf.__name__ in ("conjugate", "conj"):
            return self.conj()
        if method == "__call__" and uf.__name__ == "multiply":
            return ins[0] * ins[1] if isinstance(ins[0], Spectrum) else ins[1] * ins[0]
        raise Unsupported("spectrum ufunc")

    @property
    def T(self):
        return SpecT(self)


class SpecT:
    """transposed spectrum (frequency axis first)"""

    def __init__(self, s):
        self.s = s

    @property
    def T(self):
        return self.s

    def conj(self):
        return SpecT(self.s.conj())

    def __mul__(self, o):
        return SpecT(self.s * o.s)


class FFT(types.ModuleType):
    @staticmethod
    def fft(a, n=None, axis=-1, norm=None):
        a = float_obj(_arr(a))
        a = np.moveaxis(a, axis, -1)
        n = a.shape[-1] if n is None else int(n)
        o = np.empty(a.shape[:-1] + (n,), dtype=object)
        o[...] = Fraction(0)
        m = min(n, a.shape[-1])
        o[..., :m] = a[..., :m]
        s = Spectrum(o)
        s.axis = axis
        s.back = (lambda r: np.moveaxis(r, -1, axis))
        if axis not in (-1, a.ndim - 1):
            if axis == 0 and a.ndim == 2:
                return SpecT(s)
            raise Unsupported("fft axis")
        return s

    rfft = fft

    @staticmethod
    def ifft(s, n=None, axis=-1, norm=None):
        if isinstance(s, SpecT):
            if axis != 0:
                raise Unsupported("ifft axis")
            return np.swapaxes(s.s.a, 0, 1).copy().view(SArr)
        if not isinstance(s, Spectrum):
            raise Unsupported("ifft of a non-spectrum")
        if n is not None and n != s.a.shape[-1]:
            raise Unsupported("ifft n")
        return s.a.copy().view(SArr)

    irfft = ifft


np_.fft = FFT("numpy.fft")
_real0, _conj0 = np_.real, None


class UFConj:
    def __call__(self, x):
        if isinstance(x, (Spectrum, SpecT)):
            return x.conj()
        return x


np_.conj = np_.conjugate = UFConj()


class RandomState:
    """real generator for concrete seeds; values become exact rationals"""

    def __init__(self, seed=None):
        self._r = seed if isinstance(seed, np.random.RandomState) else np.random.RandomState(seed)

    def __getattr__(self, n):
        f = getattr(self._r, n)
        if not callable(f):
            return f

        def g(*a, **k):
            a = [_plain(x) for x in a]
            k = {q: _plain(x) for q, x in k.items()}
            return conv_result(f(*a, **k))
        return g

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None and _has_obj([p]):
            raise Unsupported("choice with symbolic probabilities")
        n = a if not isinstance(a, np.ndarray) else len(a)
        idx = self._r.choice(n, size, replace, None if p is None else _plain(p))
        if isinstance(a, np.ndarray):
            return a[idx]
        return conv_result(idx)

    def shuffle(self, a):
        p = self._r.permutation(len(a))
        if isinstance(a, np.ndarray):
            a[...] = a[p]
        else:
            a[:] = [a[i] for i in p]

    def permutation(self, a):
        if isinstance(a, np.ndarray):
            return a[self._r.permutation(len(a))]
        return conv_result(self._r.permutation(a))


RandomState.__module__ = "numpy.random"


def _plain(x):
    """symbolic-world concrete value -> native (for real library calls)"""
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 and False else float(x)
    if isinstance(x, np.ndarray):
        b = base(x)
        if raw_dtype(x) == object:
            return np.array([float(v) if not isinstance(v, Sym) else _nosym() for v in b.ravel()]).reshape(b.shape)
        return b
    return x


def _nosym():
    raise Unsupported("symbolic value passed to a library routine that is not modelled")


class Random(types.ModuleType):
    pass


np_.random = Random("numpy.random")
np_.random.RandomState = RandomState
np_.random.mtrand = types.SimpleNamespace(_rand=RandomState(0), RandomState=RandomState)
_glob = RandomState(0)
for _n in ("rand", "randn", "randint", "choice", "seed", "random", "uniform", "normal", "permutation", "shuffle", "random_sample"):
    setattr(np_.random, _n, getattr(_glob, _n))
np_.random.Generator = np.random.Generator
np_.random.SeedSequence = np.random.SeedSequence

np_.testing = types.SimpleNamespace(assert_allclose=None, assert_equal=None)
_lst = types.ModuleType("numpy.lib.stride_tricks")


def _as_strided(x, shape=None, strides=None, **k):
    return np.lib.stride_tricks.as_strided(base(x), shape=shape, strides=strides, **k).view(SArr)


def _swv(x, window_shape, axis=None, **k):
    return np.lib.stride_tricks.sliding_window_view(base(_arr(x)), window_shape, axis=axis).view(SArr)


_lst.as_strided = _as_strided
_lst.sliding_window_view = _swv
np_.lib = types.ModuleType("numpy.lib")
np_.lib.stride_tricks = _lst
np_.ma = np.ma


def ones_where(*a, **k):
    raise Unsupported("where")


class Masked:
    """small model of numpy.ma arrays: data plus a native boolean mask"""

    def __init__(self, data, mask=False):
        self.data = _arr(data)
        m = np.zeros(self.data.shape, bool) if mask is False else A._bool_of(base(_arr(mask)))
        self.mask = np.broadcast_to(m, self.data.shape).copy()
        self.shape = self.data.shape

    def __sub__(self, o):
        d, m = (o.data, o.mask) if isinstance(o, Masked) else (o, False)
        return Masked(self.data - d, self.mask | m)


def _ma_diff(m, n=1, axis=-1):
    d = m.data
    k = m.mask
    for _ in range(n):
        d = diff(d, axis=axis)
        s1 = [slice(None)] * k.ndim
        s2 = list(s1)
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        k = k[tuple(s1)] | k[tuple(s2)]
    return Masked(d, k)
