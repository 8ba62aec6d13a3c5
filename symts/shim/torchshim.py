"""A model of the part of torch that tslearn's PyTorch backend uses: tensors wrap the symbolic-world arrays of symts/arr.py.

Shared memory follows torch (views, from_numpy and numpy() share; tensor and clone copy).  Floating tensors are exact reals whatever
their precision; gradients are not modelled (see checks/R01.py)."""
import builtins
import types
from fractions import Fraction

import numpy as np

from .. import arr as A
from .. import sym as S
from ..sym import Sym, SBool, Unsupported
from . import npshim, others
from .npshim import np_


class DType:
    def __init__(self, name, kind, npd):
        self.name, self.kind, self.npd = name, kind, npd
        self.is_floating_point, self.is_complex = kind == "f", kind == "c"

    def __repr__(self):
        return "torch." + self.name

    __str__ = __repr__


DT = {n: DType(n, k, d) for n, k, d in (
    ("int8", "i", np.dtype("int8")), ("int16", "i", np.dtype("int16")), ("int32", "i", np.dtype("int32")), ("int64", "i", np.dtype("int64")),
    ("uint8", "i", np.dtype("uint8")), ("float32", "f", float), ("float64", "f", float), ("complex64", "c", np.dtype("complex128")),
    ("complex128", "c", np.dtype("complex128")), ("bool", "b", np.dtype(bool)))}


def npd(dtype):
    if dtype is None or dtype in (float, int, bool):
        return dtype
    if dtype is A.float_:
        return float
    if isinstance(dtype, DType):
        return dtype.npd
    raise TypeError("expected a torch.dtype, got %s" % (dtype,))


def raw(x):
    """operand of an array operation"""
    if type(x) is Tensor:
        return x.a.reshape(-1)[0] if x.a.ndim == 0 else x.a
    return x


def T(x):
    """array-world result -> tensor"""
    if type(x) is Tensor:
        return x
    if isinstance(x, np.ndarray):
        return Tensor(x if isinstance(x, A.SArr) else A.to_obj(x).view(A.SArr) if A.raw_dtype(x).kind == "f" else x.view(A.SArr))
    return Tensor(A.mkarray(x))


def key(k):
    if isinstance(k, tuple):
        return tuple(key(x) for x in k)
    if type(k) is Tensor:
        if k.a.ndim == 0:
            v = k.a.reshape(-1)[0]
            return bool(v) if type(v) in (SBool, bool, np.bool_) else int(v)
        return k.a
    if isinstance(k, list):
        return [key(x) for x in k]
    return k


def _bin(uf, swap=False):
    def f(self, o):
        if not isinstance(o, (Tensor, int, float, Fraction, Sym, SBool, np.generic)) or isinstance(o, np.ndarray):
            if isinstance(o, np.ndarray):
                o = T(o)
            else:
                return NotImplemented
        a, b = raw(self), raw(o)
        if swap:
            a, b = b, a
        return T(uf(a, b))
    return f


def _pyop(name):
    u = getattr(npshim.np_, name)

    def f(a, b):
        return u(a, b)
    return f


def _inp(uf):
    def f(self, o):
        r = uf(raw(self), raw(o))
        self.a[...] = r
        return self
    return f


class Tensor:
    __module__ = "torch"
    __array_ufunc__ = None
    _is_tensor = True
    requires_grad = False
    is_cuda = False

    def __init__(self, a):
        # wrapping (T) shares the array; the public constructor torch.Tensor(data) copies into a floating tensor
        if type(a) is Tensor:
            a = a.a.copy()
        elif not isinstance(a, A.SArr):
            a = A.mkarray(_unt(a), float)
        self.a = a

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("torch.Tensor." + n)

    def __array__(self, dtype=None, copy=None):
        return self.a

    # -- description
    @property
    def dtype(self):
        k = self.a.dtype
        if k.kind == "f":
            return DT["float64"]
        if k.kind == "b":
            return DT["bool"]
        return DT[k.name]

    @property
    def shape(self):
        return tuple(self.a.shape)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def device(self):
        return "cpu"

    @property
    def T(self):
        return Tensor(self.a.T)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self.a.shape[0]

    def __repr__(self):
        return "tensor([...], dtype=%r)" % self.dtype if self.dtype.name != "int64" else "tensor([...])"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- elements
    def __getitem__(self, k):
        return T(self.a[key(k)]) if self._view(k) else T(self.a[key(k)])

    def _view(self, k):
        return True

    def __setitem__(self, k, v):
        self.a[key(k)] = raw(v)

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[i] for i in range(len(self))])

    def item(self):
        if self.a.size != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % self.a.size)
        v = A.base(self.a).reshape(-1)[0]
        return v.item() if isinstance(v, np.generic) else v

    def tolist(self):
        return self.a.tolist()

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        v = self.item()
        return S.truth(v) if type(v) is SBool else (S.truth(v != 0) if type(v) is Sym else builtins.bool(v))

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.a.size == 1 and self.dtype.kind == "i":
            return int(self.item())
        raise TypeError("only integer tensors of a single element can be converted to an index")

    def __float__(self):
        return self.item().__float__()

    def __contains__(self, x):
        return builtins.bool(any_(self == x))

    def __hash__(self):
        return id(self)

    # -- copies and conversions
    def clone(self):
        return Tensor(self.a.copy())

    def detach(self):
        return self

    def cpu(self):
        return self

    def contiguous(self):
        return self

    def numpy(self):
        return self.a

    def to(self, *a, dtype=None, device=None, **k):
        for x in a:
            if isinstance(x, DType) or x in (float, int, builtins.bool):
                dtype = x
        if dtype is None:
            return self
        t = npd(dtype)
        same = (isinstance(dtype, DType) and dtype.kind == self.dtype.kind) or (t is float and self.dtype.kind == "f")
        return self if same and self.dtype.kind != "i" else Tensor(A.cast(self.a, t))

    type = to

    def bool(self):
        if self.dtype.kind == "b":
            return self
        return T(np_.not_equal(self.a, 0))

    def double(self):
        return self.to(DT["float64"])

    float = double

    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        return Tensor(self.a.reshape(tuple(int(x) for x in s)))

    view = reshape

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten

    def unsqueeze(self, d):
        return Tensor(np.expand_dims(A.base(self.a), d).view(A.SArr))

    def squeeze(self, d=None):
        return Tensor(np.squeeze(A.base(self.a), d).view(A.SArr))

    def t(self):
        return self.T

    def transpose(self, i, j):
        return Tensor(np.swapaxes(A.base(self.a), i, j).view(A.SArr))

    def expand(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        lead = len(s) - self.a.ndim
        tgt = tuple(self.a.shape[i - lead] if int(v) == -1 else int(v) for i, v in enumerate(s))
        return Tensor(np.broadcast_to(A.base(self.a), tgt).view(A.SArr))

    def permute(self, *d):
        return Tensor(np.transpose(A.base(self.a), d[0] if len(d) == 1 else d).view(A.SArr))

    def fill_(self, v):
        self.a[...] = raw(v)
        return self

    def copy_(self, o):
        self.a[...] = raw(o)
        return self

    # -- operators
    for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"), ("floordiv", "floor_divide"),
                   ("mod", "remainder"), ("pow", "power"), ("and", "logical_and"), ("or", "logical_or"), ("xor", "logical_xor")):
        locals()["__%s__" % _n] = _bin(_pyop(_u))
        locals()["__r%s__" % _n] = _bin(_pyop(_u), True)
        locals()["__i%s__" % _n] = _inp(_pyop(_u))
    for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
        locals()["__%s__" % _n] = _bin(_pyop(_u))
    del _n, _u

    def __neg__(self):
        return T(np_.negative(raw(self)))

    def __abs__(self):
        return T(np_.absolute(raw(self)))

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("bitwise not of a numeric tensor")
        return T(np_.logical_not(raw(self)))

    def __matmul__(self, o):
        return T(np_.dot(self.a, o.a))

    # -- reductions
    def sum(self, dim=None, axis=None, **k):
        return sum_(self, dim, axis=axis, **k)

    def mean(self, dim=None, axis=None, **k):
        return mean(self, dim, axis=axis, **k)

    def min(self, dim=None, **k):
        return min_(self, dim, **k)

    def max(self, dim=None, **k):
        return max_(self, dim, **k)

    def all(self, dim=None):
        return all_(self, dim)

    def any(self, dim=None):
        return any_(self, dim)

    def argmin(self, dim=None):
        return argmin(self, dim)

    def argmax(self, dim=None):
        return argmax(self, dim)

    def square(self):
        return self * self

    def new_full(self, size, v, dtype=None, **k):
        return full(size, v, dtype or self.dtype)

    def new_zeros(self, *size, dtype=None, **k):
        return zeros(*size, dtype=dtype or self.dtype)

    def new_empty(self, *size, dtype=None, **k):
        return empty(*size, dtype=dtype or self.dtype)

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return T(np_.exp(raw(self)))

    def log(self):
        return T(np_.log(raw(self)))

    def abs(self):
        return abs(self)


def need(*xs):
    for x in xs:
        if type(x) is not Tensor:
            raise TypeError("argument must be Tensor, not %s" % type(x).__name__)


# ------------------------------------------------------------------ construction
def tensor(x, dtype=None, device=None, requires_grad=False):
    d = npd(dtype)
    if type(x) is Tensor:
        return Tensor(A.mkarray(x.a, d))
    return Tensor(A.mkarray(_unt(x), d))


def _unt(x):
    if type(x) is Tensor:
        return x.item() if x.a.ndim == 0 else x.a
    if isinstance(x, (list, tuple)):
        return [_unt(e) for e in x]
    return x


def from_numpy(x):
    if not isinstance(x, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(x).__name__)
    return T(x)


def asarray(x, dtype=None, **k):
    t = x if type(x) is Tensor else (T(x) if isinstance(x, np.ndarray) else tensor(x))
    return t if dtype is None else t.to(dtype)


def _size(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        a = tuple(a[0])
    return tuple(int(x) for x in a)


def zeros(*size, dtype=None, device=None, **k):
    return T(np_.zeros(_size(size), npd(dtype) or float))


def ones(*size, dtype=None, device=None, **k):
    return T(np_.ones(_size(size), npd(dtype) or float))


def empty(*size, dtype=None, device=None, **k):
    return T(np_.empty(_size(size), npd(dtype) or float))


def full(size, fill_value, dtype=None, device=None, **k):
    v = _unt(fill_value)
    d = npd(dtype)
    if d is None:
        d = bool if type(v) in (builtins.bool, SBool) else (int if isinstance(v, int) else float)
    return T(np_.full(_size((size,)), v, d))


def zeros_like(x, dtype=None, **k):
    return T(np_.zeros(x.shape, npd(dtype) or npd(x.dtype)))


def eye(n, m=None, **k):
    return T(np_.eye(n, m))


def arange(*a, dtype=None, device=None, **k):
    return T(np_.arange(*[_unt(x) for x in a]))


def stack(ts, dim=0):
    ts = list(ts)
    need(*ts)
    return T(np_.stack([t.a for t in ts], axis=dim))


def cat(ts, dim=0):
    return T(np_.concatenate([t.a for t in ts], axis=dim))


def vstack(ts):
    return T(np_.vstack([np_.atleast_2d(t.a) for t in ts]))


def hstack(ts):
    return T(np_.hstack([t.a for t in ts]))


def diag(x, k=0):
    return T(np.diag(A.base(x.a), k).copy().view(A.SArr)) if x.a.ndim == 2 else _mkdiag(x)


def _mkdiag(x):
    n = len(x)
    z = np_.zeros((n, n))
    for i in range(n):
        z[i, i] = x.a[i]
    return T(z)


def tril(x, diagonal=0):
    return T(np_.tril(x.a, diagonal))


def triu(x, diagonal=0):
    return T(np_.triu(x.a, diagonal))


def tril_indices(row, col, offset=0, **k):
    return T(np.array(np.tril_indices(row, offset, col)))


def triu_indices(row, col, offset=0, **k):
    return T(np.array(np.triu_indices(row, offset, col)))


def is_tensor(x):
    return type(x) is Tensor


# ------------------------------------------------------------------ element-wise
def _un(name):
    u = getattr(npshim.np_, name)

    def f(x, out=None):
        need(x)
        r = T(u(raw(x)))
        if out is not None:
            out.a[...] = r.a
            return out
        return r
    f.__name__ = name
    return f


exp, log, ceil, floor, isnan, isfinite, sqrt = (_un(n) for n in ("exp", "log", "ceil", "floor", "isnan", "isfinite", "sqrt"))
abs = _un("absolute")
isinf = _un("isinf")


def square(x):
    need(x)
    return x * x


def pow(x, p):
    return x ** p


def round(x, decimals=0):
    need(x)
    return T(np_.round(x.a, decimals)) if x.a.ndim else T(S.sround(x.item(), decimals) if not isinstance(x.item(), int) else x.item())


def where(c, a, b):
    return T(np_.where(raw(c), raw(a), raw(b)))


# ------------------------------------------------------------------ reductions
def _ax(dim, axis):
    d = dim if dim is not None else axis
    return d


def sum_(x, dim=None, axis=None, keepdim=False, **k):
    need(x)
    return T(np_.sum(x.a, axis=_ax(dim, axis), keepdims=keepdim))


def mean(x, dim=None, axis=None, keepdim=False, **k):
    need(x)
    if x.dtype.kind != "f":
        raise RuntimeError("mean(): could not infer output dtype")
    return T(np_.mean(x.a, axis=_ax(dim, axis), keepdims=keepdim))


def any_(x, dim=None, axis=None):
    need(x)
    return T(np_.any(x.a, axis=_ax(dim, axis)))


def all_(x, dim=None, axis=None):
    need(x)
    return T(np_.all(x.a, axis=_ax(dim, axis)))


class MinMax(tuple):
    values = property(lambda self: self[0])
    indices = property(lambda self: self[1])


class _Lazy:
    """index tensor computed when somebody looks at it"""

    def __init__(self, f):
        self.f = f

    def __getattr__(self, n):
        return getattr(self.f(), n)


def _mm(red, arg, elem):
    def f(x, dim=None, axis=None, keepdim=False, **k):
        need(x)
        if type(dim) is Tensor:
            return T(elem(raw(x), raw(dim)))
        d = _ax(dim, axis)
        if d is None:
            if x.a.size == 0:
                raise RuntimeError("%s(): Expected reduction dim to be specified for input.numel() == 0." % red)
            return T(getattr(np_, red)(x.a))
        return MinMax((T(getattr(np_, red)(x.a, axis=d, keepdims=keepdim)), _Lazy(lambda: T(getattr(np_, arg)(x.a, axis=d)))))
    return f


min_ = _mm("min", "argmin", np_.minimum)
max_ = _mm("max", "argmax", np_.maximum)


def argmin(x, dim=None, axis=None, keepdim=False):
    need(x)
    return T(np_.argmin(x.a, axis=_ax(dim, axis)))


def argmax(x, dim=None, axis=None, keepdim=False):
    need(x)
    return T(np_.argmax(x.a, axis=_ax(dim, axis)))


def median(x, dim=None):
    """torch returns the lower of the two middle values"""
    need(x)
    if dim is not None:
        raise Unsupported("torch.median with dim")
    v = list(A.base(x.a).ravel())
    if builtins.any(type(e) is float and e != e for e in v) or not v:
        return T(S.NAN)
    r = np_.sort(A.mkarray(v, float))
    return T(r[(len(v) - 1) // 2])


def logsumexp(x, dim, keepdim=False):
    need(x)
    o = np.moveaxis(A.base(A.to_obj(x.a)), dim, -1)
    out = np.empty(o.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        v = [e for e in o[i] if not (type(e) is float and e == -S.INF)]
        if builtins.any(type(e) is float for e in v):
            raise Unsupported("logsumexp of inf or nan")
        if not v:
            out[i] = -S.INF
            continue
        m = S.smax(v)
        t = Fraction(0)
        for e in v:
            t = t + S.sexp(e - m)
        out[i] = S.slog(t) + m
    return T(A.float_obj(out).view(A.SArr))


# ------------------------------------------------------------------ distances, linear algebra
def cdist(x, y, p=2.0):
    need(x, y)
    if x.a.ndim != 2 or y.a.ndim != 2 or x.shape[1] != y.shape[1]:
        raise RuntimeError("X1 and X2 must have the same number of columns. X1: %s X2: %s" % (x.shape[-1:], y.shape[-1:]))
    out = np.empty((len(x), len(y)), dtype=object)
    for i in range(len(x)):
        for j in range(len(y)):
            out[i, j] = _dist(A.base(A.to_obj(x.a))[i], A.base(A.to_obj(y.a))[j], p)
    return T(A.float_obj(out).view(A.SArr))


def _dist(a, b, p):
    d = [u - v for u, v in zip(a, b)]
    if p == 2:
        return S.ssqrt(npshim._sum([npshim._mul(e, e) for e in d]))
    if p == 1:
        return npshim._sum([S.sabs(e) for e in d])
    return S.spow(npshim._sum([S.spow(S.sabs(e), p) for e in d]), S.sdiv(1, S.num(p)))


def pdist(x, p=2.0):
    need(x)
    o = A.base(A.to_obj(x.a))
    return T(A.mkarray([_dist(o[i], o[j], p) for i in range(len(o)) for j in range(i + 1, len(o))], float))


def reshape(x, shape):
    return x.reshape(shape)


def square_(x):
    return x * x


def allclose(a, b, rtol=Fraction(1, 10 ** 5), atol=Fraction(1, 10 ** 8), **k):
    return np_.allclose(a.a, b.a, rtol, atol)


def full_like(x, v, dtype=None, **k):
    return full(x.shape, v, dtype or x.dtype)


def ones_like(x, dtype=None, **k):
    return full_like(x, 1, dtype)


def empty_like(x, dtype=None, **k):
    return T(np_.empty(x.shape, npd(dtype) or npd(x.dtype)))


def _bi(name):
    u = getattr(npshim.np_, name)

    def f(a, b, out=None):
        r = T(u(raw(a), raw(b)))
        if out is not None:
            out.a[...] = r.a
            return out
        return r
    return f


minimum, maximum, add, sub, mul, div = (_bi(n) for n in ("minimum", "maximum", "add", "subtract", "multiply", "true_divide"))
logical_and, logical_or, eq, ne, lt, le, gt, ge = (_bi(n) for n in ("logical_and", "logical_or", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal"))
logical_not = _un("logical_not")
neg = _un("negative")


def amin(x, dim=None, keepdim=False):
    return T(np_.min(x.a, axis=dim, keepdims=keepdim))


def amax(x, dim=None, keepdim=False):
    return T(np_.max(x.a, axis=dim, keepdims=keepdim))


def clamp(x, min=None, max=None):
    return T(np_.clip(x.a, min, max))


def masked_fill(x, mask, v):
    r = x.clone()
    r[mask] = v
    return r


def masked_fill_(x, mask, v):
    x[mask] = v
    return x


for _f in (minimum, maximum, amin, amax, clamp, masked_fill, masked_fill_, logsumexp, isnan, isfinite, floor, ceil, round, median, logical_not, add, sub, mul,
           div, diag, tril, triu):
    _n = next(k for k, v in list(globals().items()) if v is _f)
    if _n not in Tensor.__dict__:
        setattr(Tensor, _n, _f)
Tensor.pow = pow


class Mod(types.ModuleType):
    def __init__(self, name, **k):
        super().__init__(name)
        self.__path__ = []
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def missing(*a, **k):
            raise Unsupported("%s.%s" % (self.__name__, n))
        return missing


class Ctx:
    def save_for_backward(self, *ts):
        self.saved_tensors = ts


class Function:
    """custom autograd functions: apply runs forward and remembers the context, so that a harness can call backward itself"""

    @classmethod
    def apply(cls, *args):
        ctx = Ctx()
        r = cls.forward(ctx, *args)
        r.grad_fn = (cls, ctx)
        return r


class Module:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


def install():
    others.HIDDEN.discard("torch")
    t = Mod("torch", Tensor=Tensor, tensor=tensor, from_numpy=from_numpy, asarray=asarray, as_tensor=asarray, zeros=zeros, ones=ones, empty=empty,
            full=full, zeros_like=zeros_like, eye=eye, arange=arange, stack=stack, cat=cat, vstack=vstack, hstack=hstack, diag=diag, tril=tril, triu=triu,
            tril_indices=tril_indices, triu_indices=triu_indices, is_tensor=is_tensor, exp=exp, log=log, ceil=ceil, floor=floor, isnan=isnan,
            isfinite=isfinite, isinf=isinf, sqrt=sqrt, abs=abs, square=square, pow=pow, round=round, where=where, sum=sum_, mean=mean, any=any_,
            all=all_, min=min_, max=max_, argmin=argmin, argmax=argmax, median=median, logsumexp=logsumexp, cdist=cdist, pdist=pdist, reshape=reshape,
            allclose=allclose, full_like=full_like, ones_like=ones_like, empty_like=empty_like, minimum=minimum, maximum=maximum,
            add=add, sub=sub, mul=mul, div=div, true_divide=div, logical_and=logical_and, logical_or=logical_or, logical_not=logical_not, neg=neg,
            eq=eq, ne=ne, lt=lt, le=le, gt=gt, ge=ge, amin=amin, amax=amax, clamp=clamp, masked_fill=masked_fill, concatenate=cat, inf=S.INF, nan=S.NAN, double=DT["float64"], dtype=DType,
            finfo=lambda d=None: types.SimpleNamespace(max=npshim.finfo(float).max, min=npshim.finfo(float).min, eps=npshim.finfo(float).eps), **DT)
    t.float = DT["float32"]
    t.long = DT["int64"]
    t.linalg = Mod("torch.linalg", norm=lambda x, *a, **k: T(npshim.Linalg.norm(x.a, *a, **k)), inv=lambda x: T(npshim.Linalg.inv(x.a)))
    t.testing = Mod("torch.testing")
    t.random = Mod("torch.random")
    t.cuda = Mod("torch.cuda", is_available=lambda: False)
    t.autograd = Mod("torch.autograd", Function=Function)
    t.nn = Mod("torch.nn", Module=Module)
    for n in ("linalg", "testing", "random", "cuda", "autograd", "nn"):
        others.MODULES["torch." + n] = getattr(t, n)
    others.MODULES["torch"] = t
    A.TENSOR = Tensor
    return t
