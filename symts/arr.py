"""SArr: numpy arrays of symbolic values.  Float arrays are object arrays of Sym/Fraction/inf/nan; integer, boolean and
string arrays stay native numpy arrays.  Boolean arrays holding formulas are object arrays of SBool/bool."""
import numbers
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import Sym, SBool, ENG, Unsupported

_raw_dtype = np.ndarray.dtype.__get__
F64 = np.dtype("float64")
TENSOR = None        # the tensor class of symts/shim/torchshim.py once installed


def raw_dtype(a):
    return _raw_dtype(a)


def _unit(x):
    return x


def kind_of_scalar(x):
    t = type(x)
    if t is SBool or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, numbers.Integral):
        return "i"
    if t is Sym or t is Fraction or isinstance(x, numbers.Real):
        return "f"
    if isinstance(x, numbers.Complex):
        return "c"
    return "O"


def base(a):
    return np.ndarray.view(a, np.ndarray)


_num = np.frompyfunc(S.num, 1, 1)


def to_obj(a):
    """native ndarray -> object ndarray of canonical scalars"""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else base(a)
    if raw_dtype(a) == object:
        return a
    if a.dtype.kind in "fiub":
        out = np.empty(a.shape, dtype=object)
        fl = a.dtype.kind == "f"
        src = a.ravel().tolist()
        if fl:
            src = [S.frac(x) for x in src]
        flat = out.ravel() if out.flags.c_contiguous else out.reshape(-1)
        for i, x in enumerate(src):
            flat[i] = x
        return flat.reshape(a.shape)
    return a.astype(object)


def float_obj(a):
    """any array -> object ndarray holding float-like scalars (ints and bools become Fractions)"""
    o = to_obj(a)
    if o.size and any(type(x) in (int, bool, SBool, type(None), str) for x in o.ravel()):
        f = np.frompyfunc(_tofloat, 1, 1)
        o = f(o) if o.ndim else _wrap0(f(o))
    return o


def _wrap0(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def _tofloat(x):
    if type(x) in (int, bool):
        return Fraction(int(x))
    if type(x) is SBool:
        return S.b2n(x)
    if isinstance(x, str):
        return S.untoken(x)
    if x is None:
        return S.NAN
    r = S.num(x)
    if type(r) in (int, bool):
        return Fraction(int(r))
    return r


def _toint(x):
    if type(x) is SBool:
        return int(x)
    if type(x) is float and (x != x or x in (S.INF, -S.INF)):
        return -2 ** 63
    return int(x)


def wrap(o, kind=None):
    """ndarray -> SArr"""
    if not isinstance(o, np.ndarray):
        return o
    return o.view(SArr)


def settle(o):
    """object result of an elementwise operation: bool arrays without formulas become native bool"""
    if isinstance(o, np.ndarray):
        if raw_dtype(o) == object and o.size and all(isinstance(x, (bool, np.bool_)) for x in o.ravel()):
            return o.astype(bool)
    return o


class SArr(np.ndarray):
    """symbolic-world ndarray"""

    def __new__(cls, shape, dtype=None, buffer=None, **kw):
        return np.empty(shape, dtype=object).view(cls)

    @property
    def dtype(self):
        d = _raw_dtype(self)
        if d == object:
            if self.size:
                x = base(self).ravel()[0]
                if type(x) in (SBool, bool):
                    return np.dtype(bool)
                if kind_of_scalar(x) == "O" or x is None:
                    return d
            return F64
        return d

    # -- conversion
    def astype(self, dtype, copy=True, **kw):
        return cast(self, dtype)

    def copy(self, order="C"):
        return base(self).copy().view(SArr)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return base(self).tolist()

    def item(self, *a):
        return base(self).item(*a)

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return base(self)
        return np.ndarray.view(self, *a, **k)

    def __str__(self):
        return "<array %s>" % (self.shape,)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    # -- indexing
    def __getitem__(self, k):
        k = fix_index(k)
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, np.ndarray):
            return r
        t = type(r)
        if t is np.bool_ or t is np.float64 or t is np.int64:
            return r
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        d = _raw_dtype(self)
        if d == object:
            if isinstance(v, np.ndarray):
                np.ndarray.__setitem__(self, k, float_obj(v) if _holds_float(self) else to_obj(v))
            elif isinstance(v, (list, tuple)):
                np.ndarray.__setitem__(self, k, float_obj(base(mkarray(v))))
            elif hasattr(v, "__array__") and not isinstance(v, (Sym, SBool, np.generic)):
                np.ndarray.__setitem__(self, k, float_obj(np.asarray(v.__array__())))
            else:
                if _holds_float(self):
                    v = _tofloat(v) if not isinstance(v, str) else v
                w = np.ndarray.__getitem__(self, k)
                if isinstance(w, np.ndarray):
                    w_ = base(w)
                    np.ndarray.__setitem__(self, k, _wrap0(v))
                else:
                    np.ndarray.__setitem__(self, k, v)
        elif d.kind in "iu":
            np.ndarray.__setitem__(self, k, _int_of(v))
        elif d.kind == "b":
            np.ndarray.__setitem__(self, k, _bool_of(v))
        else:
            np.ndarray.__setitem__(self, k, v)

    def _aliased(self, o, f):
        """numba evaluates an in-place operation element by element, so an operand overlapping the target sees earlier writes"""
        if S.ENG.njit_depth > 0 and isinstance(o, np.ndarray) and self.ndim and np.may_share_memory(self, o) and np.shares_memory(self, o) and not (
                o.ctypes.data == self.ctypes.data and o.strides == self.strides and o.shape == self.shape):
            o = np.broadcast_to(base(o), self.shape) if o.shape != self.shape else base(o)
            for i in np.ndindex(self.shape):
                self[i] = f(self[i], o[i])
            return True
        return False

    def __iadd__(self, o):
        return self if self._aliased(o, lambda a, b: a + b) else np.ndarray.__iadd__(self, o)

    def __isub__(self, o):
        return self if self._aliased(o, lambda a, b: a - b) else np.ndarray.__isub__(self, o)

    def __imul__(self, o):
        return self if self._aliased(o, lambda a, b: a * b) else np.ndarray.__imul__(self, o)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return iter([self[i] for i in range(self.shape[0])])

    def __contains__(self, x):
        return bool(np.any(self == x))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        x = base(self).ravel()[0]
        return S.truth(x) if type(x) is SBool else (S.truth(x != 0) if type(x) is Sym else bool(x))

    def __int__(self):
        return int(base(self).reshape(-1)[0]) if self.size == 1 else _bad()

    def __float__(self):
        return base(self).reshape(-1)[0].__float__()

    def __index__(self):
        if self.size == 1 and _raw_dtype(self).kind in "iu":
            return int(base(self).reshape(-1)[0])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    # -- ufuncs and functions
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        from .shim import npshim
        return npshim.ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .shim import npshim
        return npshim.array_function(func, types, args, kwargs)

    # -- methods with their own semantics here
    def _f(name):
        def m(self, *a, **k):
            from .shim import npshim
            return getattr(npshim.np_, name)(self, *a, **k)
        m.__name__ = name
        return m

    for _n in ("sum", "prod", "mean", "std", "var", "min", "max", "argmin", "argmax", "any", "all", "round", "clip",
               "cumsum", "cumprod", "argsort", "nonzero", "dot", "argpartition", "searchsorted"):
        locals()[_n] = _f(_n)
    del _n, _f

    def sort(self, axis=-1, kind=None, order=None):
        from .shim import npshim
        base(self)[...] = base(npshim.np_.sort(self, axis=axis))

    def fill(self, v):
        self[...] = v


SArr.__name__ = "ndarray"
SArr.__qualname__ = "ndarray"
SArr.__module__ = "numpy"


def _bad():
    raise TypeError("only length-1 arrays can be converted to Python scalars")


def _holds_float(a):
    b = base(a)
    if b.size:
        x = b.ravel()[0] if b.flags.c_contiguous else b.flat[0]
        return not (type(x) in (SBool, bool) or isinstance(x, (str, list, dict)) or x is None)
    return True


def _int_of(v):
    if isinstance(v, np.ndarray) and raw_dtype(v) == object:
        b = base(v)
        out = np.empty(b.shape, dtype=np.int64)
        for i in np.ndindex(b.shape):
            out[i] = _toint(b[i])
        return out
    if isinstance(v, (Sym, Fraction, SBool)):
        return int(v)
    if isinstance(v, (list, tuple)):
        return _int_of(base(mkarray(v)))
    return v


def _bool_of(v):
    if isinstance(v, np.ndarray) and raw_dtype(v) == object:
        b = base(v)
        out = np.empty(b.shape, dtype=bool)
        for i in np.ndindex(b.shape):
            out[i] = S.truth(b[i])
        return out
    if isinstance(v, (Sym, SBool)):
        return bool(v)
    return v


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(_fi(x) for x in k)
    return _fi(k)


def _fi(x):
    if isinstance(x, Sym):
        raise IndexError("only integers, slices, ellipsis and integer or boolean arrays are valid indices")
    if type(x) is SBool:
        return bool(x)
    if type(x) is Fraction:
        raise IndexError("only integers, slices, ellipsis and integer or boolean arrays are valid indices")
    if isinstance(x, np.ndarray):
        b = base(x)
        if raw_dtype(x) == object:
            if b.size == 0:
                return b.astype(int)
            e = b.ravel()[0]
            if type(e) in (SBool, bool):
                return _bool_of(b)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return b
    if isinstance(x, list):
        a = mkarray(x)
        if raw_dtype(a) == object and a.size == 0:
            return np.zeros(0, dtype=int)
        return _fi(a)
    return x


# ------------------------------------------------------------------ dtype handling
class FloatMeta(type):
    def __instancecheck__(cls, x):
        return type(x) in (Fraction, Sym) or isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, Fraction, Sym))


class float_(metaclass=FloatMeta):
    """stands for the builtin float in the modelled code"""
    def __new__(cls, x=0):
        if isinstance(x, str):
            return S.untoken(x)
        if TENSOR is not None and type(x) is TENSOR:
            x = x.item()
        if isinstance(x, np.ndarray):
            x = base(x).reshape(-1)[0] if x.size == 1 else _bad()
        if x is None or isinstance(x, (list, dict, tuple)):
            raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
        return _tofloat(x)


def want(dtype):
    """requested dtype -> 'f' float-like, None, or a native numpy dtype"""
    if dtype is None:
        return None
    if dtype is float or dtype is float_ or dtype is Fraction:
        return "f"
    if dtype is int:
        return np.dtype("int64")
    if dtype is object:
        return np.dtype(object)
    try:
        d = np.dtype(dtype)
    except TypeError:
        if getattr(dtype, "__name__", "") in ("int_", "int"):
            return np.dtype("int64")
        raise
    if d.kind == "f":
        return "f"
    return d


def mkarray(x, dtype=None):
    """np.array(x, dtype) of the symbolic world (always a copy)"""
    w = want(dtype)
    if isinstance(x, np.ndarray):
        return cast(x, dtype) if dtype is not None else (base(x).copy().view(SArr) if raw_dtype(x).kind != "f" else to_obj(x).view(SArr))
    if hasattr(x, "__array__") and not isinstance(x, (Sym, list, tuple)):
        return mkarray(np.asarray(x.__array__()), dtype)
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not x:
            a = np.empty((0,), dtype=object if w in (None, "f") else w)
            return a.view(SArr)
        shape, flat = _flatten(x)
        if isinstance(w, np.dtype) and w == object and shape is None:
            a = np.empty(len(x), dtype=object)
            for i, e in enumerate(x):
                a[i] = e
            return a.view(SArr)
        if shape is None:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
        a = np.empty(len(flat), dtype=object)
        for i, e in enumerate(flat):
            a[i] = S.num(e)
        a = a.reshape(shape)
    else:
        a = _wrap0(S.num(x))
    if w is None:
        return infer(a)
    return cast(a.view(SArr), dtype)


def infer(a):
    ks = {kind_of_scalar(x) for x in a.ravel()}
    if ks == {"i"}:
        return a.astype(np.int64).view(SArr)
    if ks == {"b"}:
        if any(type(x) is SBool for x in a.ravel()):
            return a.view(SArr)
        return a.astype(bool).view(SArr)
    if ks <= {"i", "f", "b"}:
        return float_obj(a).view(SArr)
    if ks == {"O"} and all(isinstance(x, str) for x in a.ravel()):
        return np.array(a.tolist()).view(SArr)
    if "c" in ks and ks <= {"c", "f", "i"}:
        return a.view(SArr)
    return a.view(SArr)


def _flatten(x):
    """nested sequence -> (shape, flat list) or (None, None) when ragged"""
    subs = []
    shape = None
    flat = []
    for e in x:
        if isinstance(e, np.ndarray):
            sh = e.shape
            fl = list(to_obj(e).ravel())
        elif isinstance(e, (list, tuple, range)):
            sh, fl = _flatten(list(e)) if len(e) else ((0,), [])
            if sh is None:
                return None, None
        elif hasattr(e, "__array__") and not isinstance(e, (Sym, np.generic)):
            return _flatten([np.asarray(q.__array__()) if hasattr(q, "__array__") else q for q in x])
        else:
            sh, fl = (), [e]
        if shape is None:
            shape = sh
        elif shape != sh:
            return None, None
        flat.extend(fl)
    return (len(x),) + shape, flat


def cast(a, dtype):
    w = want(dtype)
    if w is None:
        return base(a).copy().view(SArr)
    if w == "f":
        o = float_obj(a)
        if o is base(a) or np.shares_memory(o, a):
            o = o.copy()
        return o.view(SArr)
    if raw_dtype(a) == object:
        if w.kind in "iu":
            return _int_of(a).astype(w).view(SArr)
        if w.kind == "b":
            b = base(a)
            if any(type(x) is SBool for x in b.ravel()):
                return b.copy().view(SArr)
            return _bool_of(b).view(SArr)
        if w == object:
            return base(a).copy().view(SArr)
        if w.kind == "c":
            return base(a).copy().view(SArr)
        if w.kind in "US":
            return base(a).astype(w).view(SArr)
        raise Unsupported("cast of symbolic array to %s" % w)
    return base(a).astype(w).view(SArr)
