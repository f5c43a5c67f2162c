"""Loads frm modules from /repo's current source for the verifier.

Each module is parsed with ast on every run.  The only changes made to the text:
  * constant arithmetic and '/' are evaluated exactly (reals instead of binary floats),
  * comprehensions over arrays of symbolic length become element functions,
  * for/while loops whose trip count is symbolic go through the loop rule (loops.py),
  * numpy / pandas / scipy / calendar / datetime names resolve to library contracts.
Nothing else is dropped or rewritten; the statements executed are the file's own.
"""
import ast
import builtins as _b
import datetime as _dt
import os
import sys
import types
import warnings as _warnings
from fractions import Fraction
import numpy as _np
from . import terms as t
from .sym import Sym, SymBool, Unsupported, Ctx, term, symbolic, wrap, And, If
from . import npmodel as nm
from .npmodel import GArr
from . import dates as D
from .optmodel import OptModel, quad
from . import frames as FR

nm.FUNCS.update(interp=FR.np_interp, busday_offset=FR.busday_offset, is_busday=FR.is_busday, busday_count=FR.busday_count)

REPO = os.environ.get("VP_REPO", "/repo")


class SymList:
    """list of symbolic length"""
    _vp_symbolic = True
    _vp_symlist = True

    def __init__(self, n, elem):
        self.n, self._e = n, elem
        self.memo = {}

    def at(self, ix):
        r = self.memo.get(ix)
        if r is None:
            r = self._e(ix)
            self.memo[ix] = r
        return r

    def toarr(self):
        g = self.at(nm.generic_index(self.n))
        kind = "D" if isinstance(g, D.SymDate) else ("b" if isinstance(g, (bool, SymBool)) else "f")
        if isinstance(g, int) and not isinstance(g, bool) or isinstance(g, Sym) and g.t.sort == "I":
            kind = "i"
        return GArr((self.n,), lambda ix: self.at(ix[0]), kind=kind)

    def __add__(self, o):
        r = nm._concatenate([self.toarr(), nm.asarr(o)])
        return SymList(r.shape[0], lambda ix: r.at((ix,)))

    def __radd__(self, o):
        r = nm._concatenate([nm.asarr(o), self.toarr()])
        return SymList(r.shape[0], lambda ix: r.at((ix,)))

    def __getitem__(self, k):
        n = Sym(nm.dim_term(self.n))
        if isinstance(k, slice):
            if k.step not in (None, 1) or any(isinstance(x, Sym) for x in (k.start, k.stop)):
                raise Unsupported("slice of symbolic list")
            a = 0 if k.start is None else k.start
            b = n if k.stop is None else k.stop
            a = a if a >= 0 else n + a
            b = b if isinstance(b, Sym) or b >= 0 else n + b
            if not _b.bool(And(a >= 0, b >= a, b <= n)):
                raise Unsupported("slice of a list that is too short")
            a = term(a)
            r = SymList(Sym(t.sub(term(b), a)), lambda ix: self.at(t.add(ix, a)))
            c = nm.concrete(r.n)
            return r if c is None else [r.at(t.const(i)) for i in _b.range(c)]
        if isinstance(k, int):
            if not _b.bool(n > k if k >= 0 else n >= -k):
                raise IndexError("list index out of range")
            return self.at(t.const(k) if k >= 0 else t.add(n.t, t.const(k)))
        return self.at(nm._idx(k, self.n))

    def append(self, v):
        old = SymList(self.n, self._e)
        old.memo = self.memo
        self.__dict__.update((old + [v]).__dict__)

    def reverse(self):
        old, n = SymList(self.n, self._e), nm.dim_term(self.n)
        old.memo = self.memo
        self._e = lambda ix: old.at(t.sub(t.sub(n, t.const(1)), ix))
        self.memo = {}

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")


def vp_len(x):
    if isinstance(x, GArr):
        return x.shape[0] if x.mask is None else nm.count(x.mask)
    if isinstance(x, SymList):
        return x.n
    if getattr(x, "_vp_series", False):
        return vp_len(x.arr)
    if hasattr(x, "_vp_len"):
        return x._vp_len()
    return _b.len(x)


class SymRange:
    _vp_symbolic = True

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        self.n = hi - lo


def vp_range(*a):
    c = [nm.concrete(x) if isinstance(x, (int, Sym)) else x for x in a]
    if all(isinstance(x, (int, _np.integer)) for x in c):
        return _b.range(*c)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    for c in (Ctx.cur.store.get("trip_counts", ()) if Ctx.cur is not None else ()):     # trip counts the contract proves
        if len(a) == 1 and nm.quick(t.eq(term(hi), t.const(c))) is t.TRUE:
            return _b.range(c)
    st = nm.concrete(st) if isinstance(st, Sym) else st
    if isinstance(st, (int,)) and st in (1, -1):
        return SymRange(lo, hi, st)
    raise Unsupported("range step")


def tolist(it):
    """symbolic iterable -> (n, elem fn) or None"""
    if isinstance(it, SymRange):
        if it.step != 1:
            return None
        return it.n, lambda ix: Sym(t.add(ix, term(it.lo)))
    if isinstance(it, SymList):
        return it.n, it.at
    if isinstance(it, GArr) and nm.concrete(it.shape[0]) is None:
        if it.ndim == 1:
            return it.shape[0], lambda ix: it.at((ix,))
        return None
    if getattr(it, "_vp_series", False):
        return tolist(it.arr)
    return None


def vp_zip(*its):
    L = [tolist(i) for i in its]
    if not any(l is not None for l in L):
        return _b.zip(*its)
    n = [l for l in L if l is not None][0][0]
    fs = []
    for i, l in zip(its, L):
        if l is None:
            a = nm.asarr(list(i))
            fs.append(lambda ix, a=a: a.at((ix,)))
        else:
            if not nm.same_dim(l[0], n):
                raise Unsupported("zip of different symbolic lengths")
            fs.append(l[1])
    return SymList(n, lambda ix: tuple(f(ix) for f in fs))


def vp_enumerate(it, start=0):
    l = tolist(it)
    if l is None:
        return _b.enumerate(it, start)
    n, f = l
    return SymList(n, lambda ix: (Sym(t.add(ix, t.const(start))), f(ix)))


def snapshot(f):
    """close over the current values (list comprehensions are evaluated eagerly in Python)"""
    if not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            v = c.cell_contents
        except ValueError:
            cells.append(c)
            continue
        if isinstance(v, GArr):
            w = nm.freeze(v)
            w.__dict__.update({k: x for k, x in v.__dict__.items() if k not in w.__dict__})
            v = w
        cells.append(types.CellType(v))
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    return g


def vp_listcomp(f, it, cond=None, nargs=1, kind="list"):
    l = tolist(it)
    call = (lambda v: f(v)) if nargs == 1 else (lambda v: f(*v))
    if l is None:
        out = []
        for v in it:
            if cond is None or (cond(v) if nargs == 1 else cond(*v)):
                out.append(call(v))
        return iter(out) if kind == "gen" else out
    if cond is not None:
        raise Unsupported("filtered comprehension over symbolic list")
    n, e = l
    f = snapshot(f)
    r = SymList(n, lambda ix: call(e(ix)))
    r.at(nm.generic_index(n))     # evaluate once at the generic element inside the current path
    return r


def _isnum_int(x):
    return isinstance(x, (int, _np.integer)) and not isinstance(x, (bool, _np.bool_))


def vp_div(a, b):
    if isinstance(a, (int, float, _np.number)) and isinstance(b, (int, float, _np.number)) and not isinstance(a, complex) \
            and not isinstance(b, complex):
        return Sym(t.div(_r(a), _r(b))) if b != 0 else a / b
    return a / b


def vp_pow(a, b):
    if isinstance(a, float) and _isnum_int(b) and 0 <= b < 20:
        return Sym(t.const(Fraction(repr(float(a))) ** int(b), "R"))
    return a ** b


def _r(x):
    return t.const(Fraction(repr(float(x))) if not _isnum_int(x) else Fraction(int(x)), "R")


_REAL = (float, _np.floating, _np.float64)
_INT = (int, _np.integer, _np.int64)


def vp_isinstance(x, cls):
    if isinstance(cls, (tuple, list)):
        return any(vp_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(vp_isinstance(x, c) for c in cls.__args__)
    chk = getattr(cls, "_vp_check", None)
    if chk is not None:
        return chk(x)
    import numbers
    if isinstance(x, Sym):
        if cls in _REAL:
            return x.t.sort == "R"
        if cls in _INT:
            return x.t.sort == "I"
        if cls in (complex, _np.complexfloating):
            return x.t.sort == "C"
        if cls in (numbers.Number, numbers.Real, _np.number, object):
            return True
        return False
    if isinstance(x, SymBool):
        return cls in (bool, _np.bool_, object)
    if isinstance(x, GArr):
        return cls in (_np.ndarray, object)
    if isinstance(x, SymList):
        return cls is list
    if isinstance(x, D.SymDate):
        return cls in (_dt.date, _dt.datetime)
    return _b.isinstance(x, cls)


def vp_float(x=0.0):
    if isinstance(x, Sym):
        return Sym(x.t) if x.t.sort == "R" else Sym(t.add(t.mk("const", (Fraction(0),), "R"), x.t)) if not t.isc(x.t) else Sym(t.const(t.cv(x.t), "R"))
    if isinstance(x, GArr):
        return vp_float(x.item())
    if isinstance(x, SymBool):
        return x.num()
    return _b.float(x)


def vp_int(x=0, *a):
    if isinstance(x, Sym):
        if x.t.sort == "I":
            return x
        if t.isc(x.t):
            return _b.int(t.cv(x.t))
        f = t.fn("floor", x.t)
        return Sym(t.ite(t.le(t.const(0), x.t), f, t.neg(t.fn("floor", t.neg(x.t)))))
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, GArr):
        return vp_int(x.item())
    if isinstance(x, str) and "\u0660" in x and Ctx.cur is not None and "numerals" in Ctx.cur.store:
        return Ctx.cur.store["numerals"][x]      # a numeral that stands for any natural number (c16)
    return _b.int(x, *a)


def vp_bool(x=False):
    return _b.bool(x)


def vp_max(*a, **k):
    if len(a) == 1 and not k:
        it = a[0]
        if isinstance(it, (GArr, SymList, Series)):
            return nm.asarr(it).max()
        a = tuple(it)
    if k or not any(symbolic(x) for x in a) or not all(isinstance(x, (Sym, int, float, Fraction)) for x in a):
        return _b.max(*a, **k) if len(a) > 1 else _b.max(list(a), **k)
    r = a[0]
    for x in a[1:]:
        r = nm._max(r, x)
    return r


def vp_min(*a, **k):
    if len(a) == 1 and not k:
        it = a[0]
        if isinstance(it, (GArr, SymList, Series)):
            return nm.asarr(it).min()
        a = tuple(it)
    if k or not any(symbolic(x) for x in a) or not all(isinstance(x, (Sym, int, float, Fraction)) for x in a):
        return _b.min(*a, **k) if len(a) > 1 else _b.min(list(a), **k)
    r = a[0]
    for x in a[1:]:
        r = nm._min(r, x)
    return r


def vp_sum(it, start=0):
    if isinstance(it, (GArr, SymList)):
        return nm.asarr(it).sum() + start
    return _b.sum(it, start)


def vp_any(it):
    if isinstance(it, (GArr, SymList)):
        return nm.asarr(it).any()
    return _b.any(it)


def vp_all(it):
    if isinstance(it, (GArr, SymList)):
        return nm.asarr(it).all()
    return _b.all(it)


def vp_list(it=()):
    if isinstance(it, (SymList,)):
        return it
    l = tolist(it)
    if l is not None:
        return SymList(*l)
    return _b.list(it)


def vp_map(f, *its):
    L = [tolist(i) for i in its]
    if any(l is not None for l in L):
        z = vp_zip(*its)
        return SymList(z.n, lambda ix: f(*z.at(ix)))
    return _b.map(f, *its)


def vp_round(x, n=None):
    if isinstance(x, Sym):
        return Sym(t.app("round%s" % n, (x.t,)))
    return _b.round(x, n)


def vp_print(*a, **k):
    pass


# --------------------------------------------------------------- library proxies
class Proxy(types.ModuleType):
    def __init__(self, name, real, attrs=None):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(attrs or {})

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(self.__dict__["_real"], k)
        return v


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, GArr))


class NdArray(metaclass=_NdMeta):
    _vp_check = staticmethod(lambda x: isinstance(x, (_np.ndarray, GArr)) and not (isinstance(x, GArr) and x.kind == "D" and False))


def _plain(x):
    return int(x) if isinstance(x, _np.integer) else x


class NPProxy(Proxy):
    def __init__(self):
        super().__init__("numpy", _np)
        self.__dict__["ndarray"] = NdArray
        self.__dict__["pi"] = Sym(t.fn("pi"))
        self.__dict__["random"] = RandomProxy()
        self.__dict__["linalg"] = LinalgProxy()
        self.__dict__["nan"] = Sym(t.mk("special", ("nan",), "R"))
        self.__dict__["float64"] = NpFloat
        self.__dict__["hooks"] = {}

    def __getattr__(self, k):
        real = getattr(_np, k)
        if k in self.__dict__["hooks"]:
            return self.__dict__["hooks"][k]
        if isinstance(real, _np.ufunc):
            def f(*a, **kw):
                if (nm.has_sym(a) or nm.has_sym(kw)):
                    return nm.ufunc(real, "__call__", *a, **kw)
                if k in ("exp", "log", "sqrt") and len(a) == 1 and isinstance(a[0], (int, float)) and not kw:
                    return Sym(t.fn(k, term(a[0])))
                return real(*a, **kw)
            f.reduce = lambda a, *r, **kw: nm.ufunc(real, "reduce", a, *r, **kw) if nm.has_sym((a,)) else _plain(real.reduce(a, *r, **kw))
            return f
        if callable(real) and not isinstance(real, type):
            h = nm.FUNCS.get(k)

            def g(*a, **kw):
                if k in nm.CREATE and h is not None:
                    return h(*a, **kw)
                if nm.has_sym(a) or nm.has_sym(kw):
                    if h is None:
                        raise Unsupported("np.%s on symbolic values" % k)
                    return h(*a, **kw)
                return real(*a, **kw)
            return g
        return real


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.float64)

    def __call__(cls, x=0.0):
        return vp_float(x) if symbolic(x) else _np.float64(x)


class NpFloat(metaclass=_FMeta):
    _vp_check = staticmethod(lambda x: isinstance(x, _np.float64) or (isinstance(x, Sym) and x.t.sort == "R"))


class LinalgProxy:
    def __getattr__(self, k):
        real = getattr(_np.linalg, k)

        def f(*a, **kw):
            if k == "cholesky" and nm.has_sym(a):
                return cholesky(a[0])
            if nm.has_sym(a) or nm.has_sym(kw):
                raise Unsupported("np.linalg.%s" % k)
            return real(*a, **kw)
        return f


def cholesky(a):
    """library contract: lower-triangular L with L L^T = a, positive diagonal"""
    a = nm.asarr(a)
    n = nm.concrete(a.shape[0])
    if n is None:
        raise Unsupported("cholesky of symbolic dimension")
    L = [[Sym(t.const(0)) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i][k] * L[j][k]
            L[i][j] = Sym(t.fn("sqrt", term(s))) if i == j else s / L[j][j]
    return nm.asarr(L)


class RNG:
    """library contract for numpy's Generator: draws are free real variables"""

    def __init__(self, seed=None):
        self.seed = seed
        self.k = 0

    def standard_normal(self, size=None, **kw):
        self.k += 1
        name = "Z%d" % self.k
        if size is None:
            return Sym(t.var(name))
        shp = nm._shape(size)
        return GArr(shp, lambda ix: Sym(t.mk("sel", (name,) + tuple(ix), "R")))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.standard_normal(size) * scale + loc


class RandomProxy:
    """numpy's global generator: a draw is a free real variable named by the seed in force and its position"""
    calls = []

    def default_rng(self, seed=None):
        RandomProxy.calls.append(seed)
        return RNG(seed)

    def seed(self, s=None):
        Ctx.cur.store["rng"] = ["unseeded" if s is None else t.show(term(s)), 0]

    def normal(self, loc=0.0, scale=1.0, size=None):
        st = Ctx.cur.store.setdefault("rng", ["unseeded", 0])
        if st[0] == "unseeded":
            st = Ctx.cur.store["rng"] = [str(Ctx.cur.fresh("rng").args[0]), 0]
        st[1] += 1
        name = "Z<%s>%d" % tuple(st)
        if size is None:
            return Sym(t.mk("sel", (name,), "R")) * scale + loc
        shp = nm._shape(size)
        return GArr(shp, lambda ix: Sym(t.mk("sel", (name,) + tuple(ix), "R"))) * scale + loc

    def standard_normal(self, size=None):
        return self.normal(0, 1, size)

    def randn(self, *size):
        return self.normal(0, 1, size or None)

    def __getattr__(self, k):
        raise Unsupported("np.random.%s" % k)


class Norm:
    def _std(self, x, loc, scale):
        if isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1:
            return x
        return (x - loc) / scale

    def cdf(self, x, loc=0, scale=1):
        return nm.elementwise(nm._scalarfn("Phi"), self._std(x, loc, scale), kind="f")

    def sf(self, x, loc=0, scale=1):
        return 1 - self.cdf(x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        if isinstance(loc, (int, float)) and loc == 0 and isinstance(scale, (int, float)) and scale == 1:
            return nm.elementwise(nm._scalarfn("phi"), x, kind="f")
        return nm.elementwise(nm._scalarfn("phi"), self._std(x, loc, scale), kind="f") / scale

    def ppf(self, q, loc=0, scale=1):
        r = nm.elementwise(nm._scalarfn("Phiinv"), q, kind="f")
        return r if (loc == 0 and scale == 1) else r * scale + loc

    def isf(self, q):
        return self.ppf(1 - q)


class _DTIMeta(type):
    def __instancecheck__(cls, x):
        return cls._vp_check(x)

    def __call__(cls, data=None, *a, **k):
        if isinstance(data, GArr):
            return GArr(data.shape, data._elem, kind="D")
        if getattr(data, "_vp_dateset", False):
            return data
        if getattr(data, "_vp_series", False):
            return GArr(data.arr.shape, data.arr._elem, kind="D")
        if isinstance(data, SymList):
            r = data.toarr()
            r.kind = "D"
            return r
        import pandas as pd
        data = list(data)
        if nm.has_sym(data):
            r = nm.asarr([D.as_date(x) for x in data])
            r.kind = "D"
            return r
        return pd.DatetimeIndex(data)


class PDatetimeIndex(metaclass=_DTIMeta):
    @staticmethod
    def _vp_check(x):
        import pandas as pd
        return (isinstance(x, GArr) and x.kind == "D" and not getattr(x, "_ser", False)) or isinstance(x, pd.DatetimeIndex)


class _TSMeta(type):
    def __instancecheck__(cls, x):
        return cls._vp_check(x)

    def __call__(cls, *a, **k):
        import pandas as pd
        if len(a) == 1 and isinstance(a[0], D.SymDate):
            return a[0]
        if nm.has_sym(a) or nm.has_sym(k):
            return vp_datetime(*a, **k)
        return pd.Timestamp(*a, **k)


class PTimestamp(metaclass=_TSMeta):
    max = None

    @staticmethod
    def _vp_check(x):
        import pandas as pd
        return isinstance(x, (D.SymDate, pd.Timestamp))


class Series:
    _vp_symbolic = True
    _vp_series = True

    def __init__(self, arr, index=None, name=None):
        self.arr = nm.asarr(arr)
        self.name = name

    @property
    def values(self): return self.arr
    def to_numpy(self, *a, **k): return self.arr
    @property
    def shape(self): return self.arr.shape
    @property
    def dt(self): return self.arr
    def item(self): return self.arr.item()
    def __len__(self): return len(self.arr)
    def __getitem__(self, k): return self.arr[k]
    @property
    def iloc(self): return self.arr
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        r = FR.series_method(self.arr, k, Series)
        return r if r is not None else getattr(self.arr, k)

    def __array_ufunc__(self, uf, method, *i, **kw):
        return nm.ufunc(uf, method, *i, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return nm.array_function(func, args, kwargs)


for _op in ("add", "sub", "mul", "truediv", "pow", "radd", "rsub", "rmul", "rtruediv", "rpow", "lt", "le", "gt", "ge", "eq", "ne", "neg", "and", "or", "rand", "ror", "invert"):
    def _f(name):
        def g(self, *o):
            r = getattr(self.arr, name)(*o)
            if isinstance(r, GArr):
                if r.kind in ("D", "O"):
                    e = r.generic()
                    r.kind = "D" if isinstance(e, D.SymDate) else "O" if not isinstance(e, (Sym, SymBool)) else "f"
                r = Series(r, name=self.name)
            return r
        return g
    setattr(Series, "__%s__" % _op, _f("__%s__" % _op))
Series.__hash__ = lambda self: id(self)


class _SerMeta(type):
    def __instancecheck__(cls, x):
        return cls._vp_check(x)

    def __call__(cls, data=None, *a, **k):
        import pandas as pd
        if nm.has_sym(data) or isinstance(data, (GArr, SymList)):
            ix = k.get("index", a[0] if a else None)
            if ix is not None and isinstance(nm.asarr(ix), GArr) and nm.asarr(ix).kind == "D":
                return FR.TimeSeries(nm.asarr(data), nm.asarr(ix))
            return Series(data, name=k.get("name"))
        return pd.Series(data, *a, **k)


class PSeries(metaclass=_SerMeta):
    @staticmethod
    def _vp_check(x):
        import pandas as pd
        return isinstance(x, (Series, pd.Series))


class DF:
    """column store"""
    _vp_symbolic = True
    _vp_df = True

    labels = None
    label_key = None        # column the rows were labelled by, its name
    isin = None             # the rows were selected by `column.isin(values)`
    given_index = None

    def __init__(self, data=None, columns=None, index=None, **k):
        self.cols = {}
        self.attrs = {}
        if isinstance(data, dict):
            for c, v in data.items():
                if isinstance(index, _b.list) and index == [0]:
                    v = GArr((1,), lambda ix, v=v: v, kind="D" if isinstance(v, D.SymDate) else "f")
                self[c] = v
        elif data is not None:
            if isinstance(data, GArr) and columns is not None:
                for j, c in enumerate(columns):
                    self[c] = data[:, j]
            elif isinstance(data, DF):
                self.cols = dict(data.cols)
            elif isinstance(data, list) and data and all(isinstance(r, dict) for r in data):
                for c in columns if columns is not None else data[0]:
                    self.cols[c] = GArr((len(data),), lambda ix, v=[r[c] for r in data]: nm._pick(v, ix[0]),
                                        kind="D" if isinstance(data[0][c], D.SymDate) else "O" if isinstance(data[0][c], str) else "f")
            elif isinstance(data, list) and data and len(columns or ()) == 1 and all(isinstance(v, (Sym, int, float)) for v in data):
                self.cols[columns[0]] = GArr((len(data),), lambda ix, v=_b.list(data): nm._pick(v, ix[0]))
                if index is not None:
                    if vp_len(index) != len(data):
                        raise ValueError("Shape of passed values does not fit the index")
                    self.labels, self.given_index = _unknown_labels, tuple(index)
            else:
                raise Unsupported("DataFrame constructor")
        elif columns is not None:
            for c in columns:
                self.cols[c] = GArr((0,), lambda ix: Sym(t.const(0)))

    def __setitem__(self, c, v):
        if _strs(c):
            v = nm.asarr(v)
            if v.ndim != 2 or nm.concrete(v.shape[1]) != len(c):
                raise Unsupported("DataFrame setitem of several columns")
            v = nm.freeze(v)
            for j, x in enumerate(c):
                self[str(x)] = v[:, j]
            return
        if not isinstance(c, str):
            raise Unsupported("DataFrame setitem")
        self._writable()
        a = nm.asarr(v)
        if a.ndim == 0:
            if not self.cols:
                raise Unsupported("scalar column in empty frame")
            n = next(iter(self.cols.values())).shape[0]
            x = a.at(())
            a = GArr((n,), lambda ix: x, kind="D" if isinstance(x, D.SymDate) else a.kind)
        if a.ndim != 1:
            raise Unsupported("2-d column")
        others = [v for n_, v in self.cols.items() if n_ != c]
        if others and nm.norm_dim(others[0].shape[0]) != nm.norm_dim(a.shape[0]):
            if not _b.bool(SymBool(t.eq(nm.dim_term(nm.norm_dim(others[0].shape[0])), nm.dim_term(nm.norm_dim(a.shape[0]))))):
                raise ValueError("Length of values does not match length of index")
        self.cols[c] = nm.freeze(a)

    def __getitem__(self, c):
        if isinstance(c, str):
            if c not in self.cols:
                raise KeyError(c)
            return Series(self.cols[c], name=c)
        if isinstance(c, list) or _strs(c):
            d = DF()
            c = [str(x) for x in c]
            for k in c:
                if k not in self.cols:
                    raise KeyError(k)
                d.cols[k] = self.cols[k]
            d.labels = self.labels
            return d
        if getattr(c, "_vp_series", False) or isinstance(c, GArr):
            return self._rows(nm.asarr(c))
        raise Unsupported("DataFrame getitem")

    def to_numpy(self):
        if self.mask_rows():
            raise Unsupported("array of selected rows")
        cs = [nm.freeze(v) for v in self.cols.values()]
        if _b.any(c.kind != "f" for c in cs):
            raise Unsupported("array of columns that are not numbers")
        return GArr((self._vp_len(), len(cs)), lambda ix: nm._pick([c.at((ix[0],)) for c in cs], ix[1]))

    @property
    def values(self):
        return self.to_numpy()

    def _rows(self, m):
        """rows selected by a boolean mask"""
        if m.kind != "b":
            raise Unsupported("DataFrame row selection")
        if getattr(m, "isin", None) is not None:
            d = self.copy()
            d.isin = m.isin
            for c, v in d.cols.items():
                d.cols[c] = GArr(v.shape, v._elem, nm.Mask(m), v.kind)
            return d
        if term(nm._tobool(m.generic())) is t.TRUE:
            return self.copy()
        d = DF()
        for c, v in self.cols.items():
            d.cols[c] = nm.freeze(nm.getitem(v, m))
        return d

    def sort_values(self, by=None, ascending=True, inplace=False, **k):
        if isinstance(by, list) and len(by) == 1:
            by = by[0]
        if not isinstance(by, str) or set(k) - {"ignore_index"} or ascending not in (True, False):
            raise Unsupported("sort_values options")
        key = nm.freeze(self.cols[by])
        n = self._vp_len()
        perm = FR.permutation(key, n, not ascending)
        d = DF()
        for c, v in self.cols.items():
            d.cols[c] = FR.take(v, perm, n)
        src = self.row_labels()
        d.labels = lambda ix: src(perm(ix))
        if k.get("ignore_index"):
            d.labels = None
        if inplace:
            self._writable()
            self.cols, self.labels = d.cols, d.labels
            return None
        return d

    def iterrows(self):
        return IterRows(self)

    @property
    def at(self):
        return _At(self)

    def _writable(self):
        active = Ctx.cur.store.get("rows_active") if Ctx.cur is not None else None
        if active:
            raise Unsupported("a frame changes as a whole inside a loop over rows")

    @property
    def index(self):
        if self.label_key is not None:
            return _LabelIndex(self)
        if self.labels is not None or self.mask_rows():
            raise Unsupported("index of moved or selected rows")
        return RowIndex(t.const(0), nm.dim_term(self._vp_len()))

    def pop(self, c):
        r = self[c]
        del self.cols[c]
        return r

    def _each(self, f):
        d = DF()
        d.cols = {c: nm.freeze(f(v)) for c, v in self.cols.items()}
        d.labels, d.attrs = self.labels, dict(self.attrs)
        return d

    def __mul__(self, k):
        if not isinstance(k, (int, float, Sym)):
            raise Unsupported("DataFrame * %s" % type(k))
        return self._each(lambda v: v * k)
    __rmul__ = __mul__

    def row_labels(self):
        """the labels of the rows: their positions, unless rows were moved or selected since the last reset_index"""
        if self.labels is None:
            return lambda ix: ix
        return self.labels

    def set_index(self, c, inplace=False, **k):
        if k or c not in self.cols:
            raise Unsupported("set_index options")
        d = DF()
        d.cols = {n: v for n, v in self.cols.items() if n != c}
        v = nm.freeze(self.cols[c])
        d.labels = lambda ix: term(FR.ordv(v.at((ix,))))
        d.label_key, d.isin = (c, v), self.isin
        if inplace:
            self._writable()
            self.cols, self.labels, self.label_key = d.cols, d.labels, d.label_key
            return None
        return d

    @property
    def iloc(self):
        return _ILoc(self)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self.cols:
            return Series(self.cols[k])
        raise Unsupported("DataFrame.%s" % k)

    def __contains__(self, c):
        return c in self.cols

    @property
    def columns(self):
        return ColList(self.cols)

    def _vp_len(self):
        return next(iter(self.cols.values())).shape[0]

    @property
    def shape(self):
        return (self._vp_len(), len(self.cols))

    def copy(self, *a, **k):
        d = DF()
        d.cols = {k: nm.freeze(v) for k, v in self.cols.items()}
        d.attrs = dict(self.attrs)
        d.labels, d.label_key, d.isin = self.labels, self.label_key, self.isin
        return d

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **k):
        if labels is not None:
            if axis != 1 or columns is not None:
                raise Unsupported("DataFrame.drop options")
            columns = labels
        if k:
            raise Unsupported("DataFrame.drop options")
        d = self if inplace else self.copy()
        for c in columns if isinstance(columns, (list, tuple)) else [columns]:
            if c not in d.cols:
                raise KeyError(c)
            del d.cols[c]
        return None if inplace else d

    def rename(self, columns=None, inplace=False, **k):
        m = columns or {}
        new = {m.get(c, c): v for c, v in self.cols.items()}
        if inplace:
            self.cols = new
            return None
        d = self.copy()
        d.cols = new
        return d

    def insert(self, loc, column, value):
        d = _b.list(self.cols.items())
        self[column] = value
        v = self.cols[column]
        d.insert(loc, (column, v))
        self.cols = dict(d)

    def reset_index(self, level=None, drop=False, inplace=False, **k):
        if level is not None or k:
            raise Unsupported("reset_index options")
        d = self if inplace else self.copy()
        if self.label_key is not None and not drop:
            c, v = self.label_key
            if c in self.cols:
                raise ValueError("cannot insert %s, already exists" % c)
            d.cols = {c: v, **self.cols}
        elif not drop:
            if "index" in self.cols or not self.cols:
                raise Unsupported("reset_index")
            if self.mask_rows():
                raise Unsupported("reset_index of a selection")
            lab = self.row_labels()
            d.cols = {"index": GArr((self._vp_len(),), lambda ix: Sym(lab(ix[0])), kind="i"), **self.cols}
        d.labels = d.label_key = None
        return None if inplace else d

    def mask_rows(self):
        return _b.any(v.mask is not None for v in self.cols.values())

    @property
    def loc(self):
        return _Loc(self)


def _strs(c):
    return isinstance(c, _np.ndarray) and c.ndim == 1 and c.dtype.kind in "UO" and _b.all(isinstance(x, str) for x in c) or isinstance(c, _b.list) and len(c) > 0 and _b.all(isinstance(x, str) for x in c)


class _LabelIndex:
    """the row labels of a frame labelled by a column"""
    _vp_symbolic = True

    def __init__(self, df):
        self.__dict__["df"] = df

    @property
    def name(self):
        return self.df.label_key[0]

    def __setattr__(self, k, v):
        if k != "name" or not isinstance(v, str):
            raise Unsupported("index attribute")
        self.df.label_key = (v, self.df.label_key[1])


def _unknown_labels(ix):
    raise Unsupported("row labels of a slice")


class RowIndex:
    """positions lo..hi-1 of a frame whose row labels are the positions"""
    _vp_symbolic = True

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def _vp_len(self):
        return Sym(t.sub(self.hi, self.lo))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("index slice step")
            n = nm.norm_dim(self._vp_len())
            return RowIndex(t.add(self.lo, nm._bound(k.start, n, t.const(0))), t.add(self.lo, nm._bound(k.stop, n, nm.dim_term(n))))
        i = nm._idx(k, nm.norm_dim(self._vp_len()))
        return Sym(t.add(self.lo, i))


class ColList(_b.list):
    def get_loc(self, c):
        if c not in self:
            raise KeyError(c)
        return _b.list.index(self, c)

    def to_list(self): return _b.list(self)
    tolist = to_list


class RowLabel:
    """label of the row at a position, as iterrows gives it"""
    _vp_symbolic = True
    _vp_label = True

    def __init__(self, df, pos):
        self.df, self.pos = df, pos

    def _no(self, *a):
        raise Unsupported("arithmetic on a row label")
    __add__ = __radd__ = __sub__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __index__ = __int__ = __bool__ = _no
    __hash__ = lambda self: id(self)


class Row:
    """one row of a frame: the values at the start of the loop over the rows"""
    _vp_symbolic = True

    def __init__(self, cols, pos):
        self.cols, self.pos = cols, pos

    def __getitem__(self, c):
        if c not in self.cols:
            raise KeyError(c)
        return self.cols[c].at((self.pos,))

    def __contains__(self, c):
        return c in self.cols

    def get(self, c, default=None):
        return self[c] if c in self.cols else default

    def __getattr__(self, c):
        if c.startswith("_") or c not in self.cols:
            raise AttributeError(c)
        return self[c]


class IterRows:
    def __init__(self, df):
        self.df = df

    def __iter__(self):
        n = nm.norm_dim(self.df._vp_len())
        if not isinstance(n, int) or self.df.mask_rows():
            raise Unsupported("loop over the rows of a frame outside the rule")
        cols = {c: nm.freeze(v) for c, v in self.df.cols.items()}
        for p in _b.range(n):
            yield RowLabel(self.df, t.const(p)), Row(cols, t.const(p))


class _At:
    def __init__(self, df):
        self.df = df

    def _pos(self, lab):
        if isinstance(lab, RowLabel):
            if lab.df is not self.df and (lab.df.labels is not None or self.df.labels is not None or lab.df.mask_rows() or self.df.mask_rows()):
                raise Unsupported("row label of another frame")
            return lab.pos
        if self.df.labels is None and isinstance(lab, (int, Sym)):
            return term(lab)
        raise Unsupported("at with a label of moved rows")

    def __getitem__(self, k):
        lab, c = k
        if c not in self.df.cols:
            raise KeyError(c)
        return self.df.cols[c].at((self._pos(lab),))

    def __setitem__(self, k, v):
        lab, c = k
        pos = self._pos(lab)
        df = self.df
        act = Ctx.cur.store.get("rows_active")
        if act and (act[-1].df is not df or not isinstance(lab, RowLabel) or c not in act[-1].written):
            raise Unsupported("a loop over rows writes outside its row")
        if c not in df.cols:
            if act:
                raise Unsupported("a loop over rows creates a column")
            df.cols[c] = GArr((df._vp_len(),), lambda ix: FR.NAN)
        a = nm.freeze(df.cols[c])
        if isinstance(v, GArr):
            v = v.item()
        if isinstance(v, D.SymDate) or a.kind in ("D", "O"):
            old = a._elem
            a = GArr(a.shape, lambda ix: nm.gite(Sym(ix[0]) == Sym(pos), v, old(ix)), kind=a.kind)
        else:
            a[Sym(pos)] = v
        df.cols[c] = a


class _ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, slice):
            d = FR.rows_slice(DF, self.df, k)
            d.labels = _unknown_labels
            return d
        if isinstance(k, int):
            return Series(nm.asarr([v[k] for v in self.df.cols.values()]))
        raise Unsupported("DataFrame.iloc")


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            rows, col = k
            if isinstance(rows, slice) and rows == slice(None):
                return self.df[col]
            if isinstance(rows, RowLabel) and _strs(col):
                return Series(nm.asarr([_At(self.df)[rows, str(c)] for c in col]))
            if isinstance(col, list):
                return self.df[rows][col]
            if isinstance(rows, RowLabel):
                return _At(self.df)[rows, col]
            a = self.df.cols[col]
            if getattr(rows, "_vp_series", False) or isinstance(rows, GArr):
                return self.df._rows(nm.asarr(rows))[col]
            return a[rows]
        if getattr(k, "_vp_series", False) or isinstance(k, GArr):
            if nm.asarr(k).kind == "D" and self.df.label_key is not None:
                return self._lookup(nm.freeze(nm.asarr(k)))
            return self.df._rows(nm.asarr(k))
        raise Unsupported("loc")

    def _lookup(self, days):
        """rows with the given labels, in the order of the request: the label column holds consecutive days, each once"""
        df = self.df
        name, key = df.label_key
        if FR.monotone_step(key) != 1 or days.ndim != 1:
            raise Unsupported("lookup by labels that are not consecutive days")
        if df.mask_rows():
            # a selection of the rows whose label is among the requested days keeps all that are requested
            if df.isin is None or not FR.same_column(df.isin[0], key) or not FR.same_column(df.isin[1], days):
                raise Unsupported("lookup in selected rows")
        base, n = FR.ordv(key.at((t.const(0),))), Sym(nm.dim_term(key.shape[0]))
        pos = lambda ix: FR.ordv(days.at(ix)) - base
        g = pos((nm.generic_index(days.shape[0]),))
        if not bool(And(g >= 0, g < n)):
            raise KeyError("labels not in index")
        d = DF()
        for c, v in df.cols.items():
            d.cols[c] = GArr(days.shape, lambda ix, v=v: v._elem((term(pos(ix)),)), kind=v.kind)
        d.label_key = (name, GArr(days.shape, lambda ix: key._elem((term(pos(ix)),)), kind="D"))
        d.labels = lambda ix: term(FR.ordv(days.at((ix,))))
        return d

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 2:
            rows, col = k
            if isinstance(rows, RowLabel) and isinstance(col, str):
                _At(self.df)[rows, col] = v
                return
            if isinstance(rows, RowLabel) and _strs(col):
                v = nm.asarr(v)
                if v.ndim != 1 or nm.concrete(v.shape[0]) != len(col):
                    raise ValueError("cannot set a row from values of another length")
                v = nm.freeze(v)
                for j, c in enumerate(col):
                    _At(self.df)[rows, str(c)] = v.at((t.const(j),))
                return
            self.df._writable()
            if isinstance(col, str) and col not in self.df.cols and (getattr(rows, "_vp_series", False) or isinstance(rows, GArr)):
                day = isinstance(v, D.SymDate)
                self.df.cols[col] = GArr((self.df._vp_len(),), lambda ix: D.NullDate(Sym(t.const(0)), SymBool(t.TRUE)) if day else FR.NAN, kind="D" if day else "f")
            if isinstance(rows, slice) and rows == slice(None):
                if _strs(col) and isinstance(v, (int, float, Sym)):
                    for c in col:
                        self.df[str(c)] = v
                    return
                if isinstance(col, list):
                    if not isinstance(v, DF) or _b.list(v.cols) != col or v.labels is not self.df.labels:
                        raise Unsupported("loc assignment of several columns")
                    for c in col:
                        self.df[c] = v[c]
                    return
                self.df[col] = v
                return
            if isinstance(col, list):
                raise Unsupported("loc assignment of several columns")
            a = nm.freeze(self.df.cols[col])
            if isinstance(rows, RowIndex):
                rows = slice(Sym(rows.lo), Sym(rows.hi))
            elif isinstance(rows, (int, Sym)) and self.df.labels is not None:
                raise Unsupported("loc of moved rows")
            a[rows] = v
            self.df.cols[col] = a
            return
        raise Unsupported("loc set")


class _DFMeta(type):
    def __instancecheck__(cls, x):
        return cls._vp_check(x)

    def __call__(cls, data=None, *a, **k):
        import pandas as pd
        if data is None and not a and not k or nm.has_sym(data) or isinstance(data, (GArr, DF)):
            return DF(data, *a, **k)
        return pd.DataFrame(data, *a, **k)


class PDataFrame(metaclass=_DFMeta):
    @staticmethod
    def _vp_check(x):
        import pandas as pd
        return isinstance(x, (DF, pd.DataFrame))


def vp_datetime(year, month=1, day=1, *a, **k):
    if nm.has_sym((year, month, day)):
        y, m, d = D._i(year), D._i(month), D._i(day)
        from .sym import And
        if not _b.bool(And(m >= 1, m <= 12, d >= 1, d <= D.dim(y, m))):
            raise ValueError("day is out of range for month")
        return D.SymDate(y, m, d)
    return _dt.datetime(year, month, day, *a, **k)


class _DtMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_dt.datetime, D.SymDate))

    def __call__(cls, *a, **k):
        return vp_datetime(*a, **k)

    def __getattr__(cls, k):
        return getattr(_dt.datetime, k)


class PDatetime(metaclass=_DtMeta):
    _vp_check = staticmethod(lambda x: isinstance(x, (_dt.datetime, D.SymDate)))


class _DateMeta(_DtMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, (_dt.date, D.SymDate))


class PDate(metaclass=_DateMeta):
    _vp_check = staticmethod(lambda x: isinstance(x, (_dt.date, D.SymDate)))


def vp_timedelta(*a, **k):
    if nm.has_sym(a) or nm.has_sym(k):
        d = a[0] if a else k.get("days", 0) + 7 * k.get("weeks", 0)
        return D.SymDelta(d)
    return _dt.timedelta(*a, **k)


def vp_to_timedelta(x, unit=None, **k):
    import pandas as pd
    if not nm.has_sym((x,)):
        return pd.to_timedelta(x, unit=unit, **k)
    if unit not in ("D", "d", "days"):
        raise Unsupported("to_timedelta unit")
    if getattr(x, "_vp_series", False) or isinstance(x, (GArr, SymList)):
        return Series(nm.emap(D.SymDelta, x, kind="O"))
    return D.SymDelta(x)


def vp_isna(x):
    import pandas as pd
    if getattr(x, "_vp_series", False):
        return x.isna()
    if isinstance(x, GArr):
        return nm.emap(FR.isnan, x, kind="b")
    if isinstance(x, (D.SymDate, Sym)) or hasattr(type(x), "_vp_null"):
        return FR.isnan(x)
    return True if x is None or isinstance(x, D.NaTType) else pd.isna(x)


class BDay:
    """pandas.offsets.BDay(1): the next (previous) day that is not a Saturday or Sunday"""
    _vp_symbolic = True

    def __init__(self, n=1):
        if n != 1:
            raise Unsupported("BDay(%r)" % (n,))

    def _vp_add_to(self, d):
        w = d.weekday()
        return D.SymDate.from_ordinal(d.o + If(w >= 4, 7 - w, 1))

    def _vp_sub_from(self, d):
        w = d.weekday()
        return D.SymDate.from_ordinal(d.o - If(w == 6, 2, If(w == 0, 3, 1)))


class MonthEnd:
    """pandas.offsets.MonthEnd(0): forward to the last day of the month"""
    _vp_symbolic = True

    def __init__(self, n=1):
        if n != 0:
            raise Unsupported("MonthEnd(n != 0)")

    def _vp_add_to(self, d):
        return D.SymDate(d.year, d.month, D.dim(d.year, d.month))


def vp_dateoffset(n=1, normalize=False, **k):
    import pandas as pd
    if nm.has_sym(k):
        return D.SymOffset(**k)
    return D.SymOffset(**k) if set(k) <= {"years", "months", "weeks", "days"} else pd.DateOffset(n, normalize, **k)


def vp_monthrange(y, m):
    import calendar
    if nm.has_sym((y, m)):
        first = D.SymDate(y, m, 1)
        return first.weekday(), D.dim(y, m)
    return calendar.monthrange(y, m)


def vp_isleap(y):
    import calendar
    if nm.has_sym((y,)):
        return D.isleap(y)
    return calendar.isleap(y)


def _array_getattr(self, k):
    if k in ("days", "year", "month", "day", "weekday", "is_leap_year", "days_in_month", "is_month_end"):
        kind = "b" if k.startswith("is_") else "i"
        return nm.emap(lambda v: getattr(v, k), self, kind=kind)
    if k in ("dt", "iloc"):
        return self
    if not k.startswith("_"):
        r = FR.series_method(self, k, Series)
        if r is not None:
            return r
    raise AttributeError(k)


GArr.__getattr__ = _array_getattr


# --------------------------------------------------------------- transformer
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.fstack = []

    def _constfold(self, node):
        try:
            if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                v = node.value
                return Fraction(v) if isinstance(v, int) else Fraction(repr(v))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
                v = self._constfold(node.operand)
                return -v if v is not None else None
            if isinstance(node, ast.BinOp):
                a, b = self._constfold(node.left), self._constfold(node.right)
                if a is None or b is None:
                    return None
                if isinstance(node.op, ast.Add):
                    return a + b
                if isinstance(node.op, ast.Sub):
                    return a - b
                if isinstance(node.op, ast.Mult):
                    return a * b
                if isinstance(node.op, ast.Div):
                    return a / b
                if isinstance(node.op, ast.Pow) and b.denominator == 1 and abs(b) < 60:
                    return a ** int(b)
        except Exception:
            return None
        return None

    def _hasfloat(self, node):
        return any(isinstance(n, ast.Div) or (isinstance(n, ast.Constant) and isinstance(n.value, float)) for n in ast.walk(node))

    def visit_BinOp(self, node):
        c = self._constfold(node)
        if c is not None and self._hasfloat(node):
            return ast.copy_location(ast.Call(ast.Name("vp__rat", ast.Load()), [ast.Constant(c.numerator), ast.Constant(c.denominator)], []), node)
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("vp__div", ast.Load()), [node.left, node.right], []), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("vp__pow", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def _comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        tgt = g.target
        if isinstance(tgt, ast.Name):
            names, nargs = [tgt.id], 1
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            names, nargs = [e.id for e in tgt.elts], len(tgt.elts)
            if nargs == 1:
                self.generic_visit(node)
                return node
        else:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if len(set(names)) != len(names):
            return node
        args = ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        f = ast.Lambda(args, node.elt)
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = ast.Lambda(args, test)
        else:
            cond = ast.Constant(None)
        return ast.copy_location(ast.Call(ast.Name("vp__listcomp", ast.Load()), [f, g.iter, cond, ast.Constant(nargs), ast.Constant(kind)], []), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


class Lifted:
    """a set of frm modules loaded for the verifier"""

    def __init__(self, repo=None, loops=None):
        self.repo = repo or REPO
        self.mods = {}
        self.np = NPProxy()
        self.norm = Norm()
        self.hooks = {}          # 'module.name' -> replacement (callee contracts)
        from .loops import Loops
        self.loops = loops or Loops(tolist)
        import calendar, scipy, scipy.stats, scipy.optimize, scipy.interpolate, scipy.integrate
        import pandas as pd
        self.pd = Proxy("pandas", pd, {"DatetimeIndex": PDatetimeIndex, "Timestamp": PTimestamp, "Series": PSeries,
                                       "DataFrame": PDataFrame, "DateOffset": vp_dateoffset, "offsets": Proxy("pandas.offsets", pd.offsets, {"MonthEnd": MonthEnd, "BDay": BDay, "BusinessDay": BDay, "DateOffset": vp_dateoffset}),
                                       "to_datetime": lambda x, *a, **k: x if nm.has_sym((x,)) else pd.to_datetime(x, *a, **k),
                                       "date_range": FR.date_range, "merge": lambda l, r, *a, **k: FR.merge(DF, l, r, *a, **k) if isinstance(l, DF) and isinstance(r, DF) else pd.merge(l, r, *a, **k),
                                       "merge_asof": lambda l, r, *a, **k: FR.merge_asof(DF, l, r, *a, **k) if isinstance(l, DF) and isinstance(r, DF) else pd.merge_asof(l, r, *a, **k),
                                       "concat": lambda p, *a, **k: FR.concat(DF, Series, _b.list(p), *a, **k) if any(symbolic(x) for x in p) else pd.concat(p, *a, **k),
                                       "to_timedelta": vp_to_timedelta,
                                       "isna": vp_isna, "isnull": vp_isna, "notna": lambda x: ~vp_isna(x) if symbolic(x) else not vp_isna(x)})
        self.dt = Proxy("datetime", _dt, {"datetime": PDatetime, "date": PDate, "timedelta": vp_timedelta})
        self.cal = Proxy("calendar", calendar, {"monthrange": vp_monthrange, "isleap": vp_isleap})
        self.sp_stats = Proxy("scipy.stats", scipy.stats, {"norm": self.norm})
        self.opt = OptModel()
        self.sp_opt = Proxy("scipy.optimize", scipy.optimize, self.opt.attrs())
        self.sp_interp = Proxy("scipy.interpolate", scipy.interpolate, {"splrep": FR.splrep, "splev": FR.splev, "interp1d": FR.Interp1d})
        self.sp_integ = Proxy("scipy.integrate", scipy.integrate, {"quad": quad, "simpson": nm.simpson, "simps": nm.simpson})
        self.sp = Proxy("scipy", scipy, {"stats": self.sp_stats, "optimize": self.sp_opt, "interpolate": self.sp_interp, "integrate": self.sp_integ})
        self.numba = Proxy("numba", types.SimpleNamespace(), {"njit": _njit, "jit": _njit, "prange": vp_range})
        import warnings
        self.warnings = Proxy("warnings", warnings, {"warn": lambda *a, **k: None})
        self.table = {"numpy": self.np, "pandas": self.pd, "datetime": self.dt, "calendar": self.cal, "scipy": self.sp,
                      "scipy.stats": self.sp_stats, "scipy.optimize": self.sp_opt, "scipy.interpolate": self.sp_interp,
                      "scipy.integrate": self.sp_integ, "numba": self.numba, "warnings": self.warnings}
        self.builtins = dict(vars(_b))
        self.builtins.update({
            "len": vp_len, "range": vp_range, "zip": vp_zip, "enumerate": vp_enumerate, "isinstance": vp_isinstance,
            "float": float, "int": int, "bool": bool, "max": vp_max, "min": vp_min, "sum": vp_sum, "any": vp_any, "all": vp_all,
            "list": list, "map": vp_map, "round": vp_round, "print": vp_print,
            "vp__div": vp_div, "vp__pow": vp_pow, "vp__rat": lambda n, d: Sym(t.const(Fraction(n, d), "R")), "vp__listcomp": vp_listcomp,
            "vp__call": vp_call, "__import__": self._import,
        })
        if self.loops:
            self.builtins.update(self.loops.builtins())

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "").rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        if name == "frm" or name.startswith("frm."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load("frm")
        if name in self.table:
            if fromlist or "." not in name:
                return self.table[name]
            return self.table[name.split(".")[0]]
        return _b.__import__(name, globals, locals, fromlist, level)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        p = self.path(name)
        if not os.path.exists(p):
            raise ModuleNotFoundError("No module named %r" % name)
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        src = open(p, encoding="utf-8").read()
        tree = ast.parse(src, p)
        tree = self.transform(tree, name)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if p.endswith("__init__.py") else name.rpartition(".")[0]
        if p.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(p)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        sys.modules.setdefault("vp_lifted." + name, m)
        try:
            exec(compile(tree, p, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            par, _, ch = name.rpartition(".")
            setattr(self.mods[par], ch, m)
        return m

    def transform(self, tree, name):
        tree = Tr().visit(tree)
        tree = CallTr().visit(tree)
        if self.loops:
            tree = self.loops.transform(tree, name)
        return tree

    def fn(self, dotted):
        mod, _, f = dotted.rpartition(".")
        m = self.load(mod)
        return getattr(m, f)


class CallTr(ast.NodeTransformer):
    """float(x), int(x), list(x) keep their types for isinstance/astype uses but go through the model when called"""
    NAMES = {"float": vp_float, "int": vp_int, "list": vp_list, "bool": vp_bool}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.NAMES:
            node.args = [node.func] + node.args
            node.func = ast.copy_location(ast.Name("vp__call", ast.Load()), node.func)
        return node


def vp_call(f, *a, **k):
    g = {float: vp_float, int: vp_int, list: vp_list, bool: vp_bool}.get(f) if isinstance(f, type) else None
    return (g or f)(*a, **k)


def _njit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f
