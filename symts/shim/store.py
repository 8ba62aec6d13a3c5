"""Contract models of json, pickle and h5py.  What is written is kept in memory under the file's path (a real, empty file marks it)."""
import copy
import os
import types
from fractions import Fraction

import numpy as np

from ..arr import SArr, base, raw_dtype, to_obj
from ..sym import Sym, SBool, Unsupported, truth
from .others import mod, MODULES

FILES = {}


def _path(fp):
    return os.path.realpath(fp.name)


def _put(fp, kind, data):
    fp.flush()
    FILES[_path(fp)] = (kind, data)


def _get(fp, kind):
    k, d = FILES.get(_path(fp), (None, None))
    if k != kind:
        raise ValueError("not a %s file" % kind)
    return d


# ------------------------------------------------------------------ json
def _json(x):
    if x is None or isinstance(x, (str, bool, Sym, Fraction)) or type(x) in (int, float, np.float64):
        return x
    if isinstance(x, SBool):
        return truth(x)
    if isinstance(x, (list, tuple)):
        return [_json(y) for y in x]
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if not isinstance(k, (str, int, float, bool, type(None))):
                raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            out[k if isinstance(k, str) else {True: "true", False: "false", None: "null"}.get(k, str(k)) if isinstance(k, (bool, type(None))) else str(k)] = _json(v)
        return out
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def json_dump(obj, fp, **k):
    if k:
        raise Unsupported("json options")
    _put(fp, "json", _json(obj))


def json_load(fp, **k):
    return _json(_get(fp, "json"))


mod("json", dump=json_dump, load=json_load, dumps=lambda o, **k: types.SimpleNamespace(json=_json(o)), loads=lambda o, **k: _json(o.json))


# ------------------------------------------------------------------ pickle
def _pickle(x):
    if isinstance(x, np.ndarray):
        return base(x).copy().view(type(x))
    if isinstance(x, dict):
        return {_pickle(k): _pickle(v) for k, v in x.items()}
    if type(x) in (list, tuple, set):
        return type(x)(_pickle(v) for v in x)
    if isinstance(x, types.FunctionType):
        if "<" in x.__qualname__:
            raise AttributeError("Can't get local object %r" % x.__qualname__)
        return x
    if x is None or isinstance(x, (str, bytes, int, float, Fraction, Sym, SBool, np.generic)):
        return x
    return copy.deepcopy(x)


def pickle_dump(obj, fp, protocol=None, **k):
    _put(fp, "pickle", _pickle(obj))


def pickle_load(fp, **k):
    return _pickle(_get(fp, "pickle"))


mod("pickle", dump=pickle_dump, load=pickle_load, HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=4,
    dumps=lambda o, *a, **k: types.SimpleNamespace(pickle=_pickle(o)), loads=lambda o, **k: _pickle(o.pickle))


# ------------------------------------------------------------------ h5py
class _Text:
    """what h5py returns for an array of variable-length strings"""

    def __init__(self, values):
        self.values = values
        self.shape, self.ndim, self.dtype = values.shape, values.ndim, np.dtype("O")

    def astype(self, dtype):
        return self.values.astype(dtype).view(SArr)

    def tolist(self):
        return self.values.tolist()


class Dataset:
    def __init__(self, value):
        self.value = value
        self.attrs = {}

    def __getitem__(self, k):
        if k != ():
            raise Unsupported("HDF5 slicing")
        v = self.value
        return base(v).copy().view(SArr) if isinstance(v, np.ndarray) else v


class Group:
    def __init__(self):
        self.kids = {}

    def _walk(self, path, create):
        g = self
        for p in [q for q in path.split("/") if q]:
            if p not in g.kids:
                if not create:
                    raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
                g.kids[p] = Group()
            g = g.kids[p]
        return g

    def __getitem__(self, path):
        return self._walk(path, False)

    def __contains__(self, path):
        try:
            self._walk(path, False)
        except KeyError:
            return False
        return True

    def items(self):
        return [(k, self.kids[k]) for k in sorted(self.kids)]

    def keys(self):
        return sorted(self.kids)

    def __iter__(self):
        return iter(sorted(self.kids))

    def require_group(self, path):
        g = self._walk(path, True)
        if not isinstance(g, Group):
            raise TypeError("Incompatible object (Dataset) already exists")
        return g

    def create_group(self, path):
        if path in self:
            raise ValueError("Unable to create group (name already exists)")
        return self._walk(path, True)

    def create_dataset(self, path, shape=None, dtype=None, data=None):
        if shape is not None or dtype is not None:
            raise Unsupported("create_dataset options")
        self[path] = data

    def __setitem__(self, path, x):
        head, _, name = path.rstrip("/").rpartition("/")
        g = self._walk(head, True)
        if name in g.kids:
            raise OSError("Unable to create link (name already exists)")
        if isinstance(x, str):
            v = x.encode()
        elif isinstance(x, bytes):
            v = x
        elif isinstance(x, bool):
            v = np.bool_(x)
        elif isinstance(x, SBool):
            v = np.bool_(truth(x))
        elif isinstance(x, int) and not isinstance(x, np.generic):
            v = np.int64(x)
        elif isinstance(x, (float, Fraction, Sym, np.generic)):
            v = x
        elif isinstance(x, np.ndarray):
            k = raw_dtype(x)
            if k.kind in "US":
                raise TypeError("No conversion path for dtype: dtype('%s')" % k)
            if k == object:
                o = base(x)
                if o.size and all(isinstance(e, str) for e in o.ravel()):
                    v = np.empty(o.shape, dtype=object)
                    for i in np.ndindex(o.shape):
                        v[i] = o[i].encode()
                    v = _Text(v)
                elif all(isinstance(e, (int, float, Fraction, Sym)) for e in o.ravel()):
                    v = o.copy().view(SArr)
                else:
                    raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
            else:
                v = base(x).copy().view(SArr)
        elif isinstance(x, (list, tuple)) and x:
            from .npshim import np_
            self[path] = np_.array(x)
            return
        else:
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
        g.kids[name] = Dataset(v)


class File(Group):
    def __init__(self, name, mode="r"):
        super().__init__()
        p = os.path.realpath(name)
        if mode == "w":
            open(p, "w").close()
            FILES[p] = ("hdf5", self)
        elif mode == "r":
            k, f = FILES.get(p, (None, None))
            if k != "hdf5":
                raise FileNotFoundError(name) if not os.path.exists(p) else OSError("file signature not found")
            self.kids = f.kids
        else:
            raise Unsupported("HDF5 mode " + mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


_hl = types.SimpleNamespace(dataset=types.SimpleNamespace(Dataset=Dataset), group=types.SimpleNamespace(Group=Group), files=types.SimpleNamespace(File=File))


def _special(vlen=None):
    if vlen is not str:
        raise Unsupported("h5py.special_dtype")
    return np.dtype("O")


mod("h5py", File=File, Dataset=Dataset, Group=Group, _hl=_hl, special_dtype=_special, string_dtype=lambda *a: np.dtype("O"), __version__="3")
