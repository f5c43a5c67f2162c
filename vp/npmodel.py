"""Array model: arrays of symbolic shape, given by an element function of index terms.

numpy functions used by the code under contract are given library contracts here
(elementwise lifting, broadcasting, masking, where, ...).  Anything else raises
Unsupported, which leaves the obligation undecided -- never silently proved.
"""
import builtins
import operator
from fractions import Fraction
import numpy as _np
from . import terms as t
from .sym import Sym, SymBool, Unsupported, Ctx, term, wrap, symbolic, power, QUANT, _num, If, And

GENERIC = {}        # dim term -> generic index var


def dim_term(d):
    return t.const(d) if isinstance(d, int) else d.t


def generic_index(d):
    if isinstance(d, int):
        if d == 1:
            return t.const(0)
        dt = t.const(d)
    else:
        dt = d.t
    g = GENERIC.get(dt)
    if g is None:
        g = t.var("ix@%s" % t.show(dt), "I")
        GENERIC[dt] = g
        # range facts are added by index_facts()
    return g


def index_facts(fs):
    """0 <= i < n for generic index variables occurring in fs"""
    seen = set()
    for f in fs:
        t.subterms(f, seen)
    out = []
    for d, g in GENERIC.items():
        if g in seen:
            out += [t.le(t.const(0), g), t.lt(g, d)]
    return out


def concrete(d):
    if isinstance(d, int):
        return d
    if isinstance(d, Sym) and t.isc(d.t):
        return int(t.cv(d.t))
    return None


def norm_dim(d):
    c = concrete(d)
    return c if c is not None else d


def same_dim(a, b):
    a, b = norm_dim(a), norm_dim(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return dim_term(a) is dim_term(b) or bool(SymBool(t.eq(dim_term(a), dim_term(b))))


def one(d):
    d = norm_dim(d)
    return isinstance(d, int) and d == 1


class Mask:
    """dimension of arr[mask]: indexed by the original index, restricted to where mask holds"""

    def __init__(self, mask):
        self.mask = mask

    def key(self):
        return term(self.mask.generic())

    def at(self, ix):
        return self.mask.at(tuple(ix)[:self.mask.ndim])


def count(mask):
    """number of selected elements"""
    n = Sym(t.app("COUNT", (mask.key(),), "I"))
    if Ctx.cur is not None:
        Ctx.cur.assume(SymBool(t.and_(t.le(t.const(0), n.t), t.le(n.t, dim_term(mask.mask.shape[0])))))
    return norm_dim(n)


def same_mask(a, b):
    return a is b or a.key() is b.key()


class GArr:
    _vp_symbolic = True
    _vp_array = True
    __array_priority__ = 2000

    def __init__(self, shape, elem, mask=None, kind="f"):
        self.shape = tuple(norm_dim(d) for d in shape)
        self._elem = elem
        self.mask = mask
        self.kind = kind
        self.view = False

    # -- access
    def at(self, idx):
        return self._elem(tuple(idx))

    def gidx(self):
        return tuple(generic_index(d) for d in self.shape)

    def generic(self):
        return self.at(self.gidx())

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return norm_dim(r) if not isinstance(r, int) else r

    @property
    def dtype(self):
        return {"f": _np.dtype(float), "i": _np.dtype(int), "b": _np.dtype(bool), "c": _np.dtype(complex)}.get(self.kind, _np.dtype(object))

    @property
    def T(self):
        return GArr(self.shape[::-1], lambda ix: self.at(ix[::-1]), kind=self.kind)

    @property
    def values(self):
        return self

    @property
    def real(self):
        return self

    def to_numpy(self, *a, **k):
        return self

    def __len__(self):
        c = concrete(self.shape[0])
        if c is None:
            raise Unsupported("len of symbolic array")
        return c

    def __repr__(self):
        return "GArr%s" % (self.shape,)

    def copy(self, *a, **k):
        e = self._elem
        return GArr(self.shape, e, self.mask, self.kind)

    def astype(self, dt=None, *a, **k):
        if dt in (float, "float", "float64", _np.float64):
            if self.kind == "b":
                return GArr(self.shape, lambda ix, e=self._elem: _tonum(e(ix)), self.mask, "f")
            return GArr(self.shape, self._elem, self.mask, "f")
        if dt in (bool,):
            if self.kind == "b":
                return self.copy()
        if dt in (int, "int", "int64", _np.int64) and self.kind in ("i", "b"):
            return GArr(self.shape, lambda ix, e=self._elem: _tonum(e(ix)), self.mask, "i")
        if dt in ("datetime64[ns]", "datetime64[D]", object, "datetime64", _np.datetime64):
            if self.kind == "f" and dt is not object:
                return GArr(self.shape, lambda ix, e=self._elem: _to_day(e(ix)), self.mask, "D")
            return self.copy()
        if dt in (complex, _np.complex128):
            return GArr(self.shape, self._elem, self.mask, "c")
        raise Unsupported("astype(%r)" % (dt,))

    def item(self, *a):
        if a:
            return self[a[0]]
        if all(one(d) for d in self.shape):
            return self.at(tuple(t.const(0) for _ in self.shape))
        if bool(Sym(dim_term(self.shape[0])) == 1) and self.ndim == 1:
            return self.at((t.const(0),))
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def tolist(self):
        if self.ndim == 1 and concrete(self.shape[0]) is None:
            from .frames import SymListOf
            return SymListOf(self)
        n = len(self)
        return [self[i] if self.ndim == 1 else self[i].tolist() for i in builtins.range(n)]

    def flatten(self, *a):
        if self.ndim == 1:
            return self.copy()
        nz = [i for i, d in enumerate(self.shape) if not one(d)]
        if len(nz) <= 1:
            k = nz[0] if nz else 0
            nd = self.ndim
            return GArr((self.shape[k],), lambda ix: self.at(tuple(ix[0] if j == k else t.const(0) for j in builtins.range(nd))), kind=self.kind)
        if self.ndim == 2 and concrete(self.shape[1]) is not None:
            w = concrete(self.shape[1])
            return GArr((norm_dim(Sym(t.mul(dim_term(self.shape[0]), t.const(w)))),), lambda ix: self.at((t.idiv(ix[0], t.const(w)), t.imod(ix[0], t.const(w)))), kind=self.kind)
        raise Unsupported("flatten of %d-d symbolic array" % self.ndim)

    ravel = flatten

    def squeeze(self, *a, **k):
        keep = [i for i, d in enumerate(self.shape) if not one(d)]
        nd = self.ndim

        def e(ix):
            full = [t.const(0)] * nd
            for j, kx in zip(keep, ix):
                full[j] = kx
            return self.at(tuple(full))
        return GArr(tuple(self.shape[i] for i in keep), e, kind=self.kind)

    def reshape(self, *shp, **k):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        if all(isinstance(s, int) and s in (1, -1) for s in shp) and list(shp).count(-1) == 1:
            flat = self.flatten()
            p = list(shp).index(-1)
            return GArr(tuple(flat.shape[0] if i == p else 1 for i in builtins.range(len(shp))), lambda ix: flat.at((ix[p],)), kind=self.kind)
        if self.ndim == 1 and sum(1 for s in shp if not (isinstance(s, int) and s == 1)) == 1:
            p = [i for i, s in enumerate(shp) if not (isinstance(s, int) and s == 1)][0]
            return GArr(tuple(self.shape[0] if i == p else 1 for i in builtins.range(len(shp))), lambda ix: self.at((ix[p],)), kind=self.kind)
        raise Unsupported("reshape %r" % (shp,))

    def transpose(self, *axes):
        if not axes:
            return self.T
        if len(axes) == 1:
            axes = tuple(axes[0])
        inv = [axes.index(i) for i in builtins.range(self.ndim)]
        return GArr(tuple(self.shape[a] for a in axes), lambda ix: self.at(tuple(ix[inv[i]] for i in builtins.range(self.ndim))), kind=self.kind)

    def to_list(self):
        return self.tolist()

    # -- reductions
    def any(self, axis=None, **k):
        return quant("any", self)

    def all(self, axis=None, **k):
        return quant("all", self)

    def sum(self, axis=None, **k):
        return reduce_sum(self, axis)

    def mean(self, axis=None, **k):
        return reduce_mean(self, axis)

    def prod(self, axis=None, **k):
        if axis not in (None, 0):
            raise Unsupported("prod over an axis")
        return reduce_prod(self)
    product = prod

    def min(self, *a, **k):
        return reduce_minmax(self, "min")

    def max(self, *a, **k):
        return reduce_minmax(self, "max")

    def map(self, f, *a, **k):
        return GArr(self.shape, lambda ix: f(self.at(ix)), self.mask, "i")

    def isna(self):
        return GArr(self.shape, lambda ix: SymBool(t.FALSE), self.mask, "b")

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __iter__(self):
        n = concrete(self.shape[0])
        if n is None:
            raise Unsupported("iteration over an array of symbolic length (needs a loop rule)")
        return iter([self[i] for i in builtins.range(n)])

    # -- operators
    def __neg__(self): return emap(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return emap(abs, self)
    def __invert__(self): return emap(lambda a: ~_tobool(a), self, kind="b")
    def __bool__(self):
        if all(one(d) for d in self.shape):
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self): return float(self.item())
    def __hash__(self): return id(self)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)


def _mkop(op, kind=None):
    def f(self, o):
        if isinstance(o, (str, type(None))):
            return NotImplemented
        return emap(op, self, o, kind=kind)
    return f


def _mkrop(op, kind=None):
    def f(self, o):
        return emap(op, o, self, kind=kind)
    return f


for _n, _o in {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
               "pow": operator.pow, "floordiv": operator.floordiv, "mod": operator.mod}.items():
    setattr(GArr, "__%s__" % _n, _mkop(_o))
    setattr(GArr, "__r%s__" % _n, _mkrop(_o))
for _n, _o in {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}.items():
    setattr(GArr, "__%s__" % _n, _mkop(_o, "b"))


def _eqop(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    r = (a == b)
    return r


GArr.__eq__ = lambda self, o: emap(_eqop, self, o, kind="b")
GArr.__ne__ = lambda self, o: emap(lambda a, b: ~_tobool(_eqop(a, b)), self, o, kind="b")
GArr.__and__ = lambda self, o: emap(lambda a, b: SymBool(t.and_(term(a), term(b))), self, o, kind="b")
GArr.__rand__ = GArr.__and__
GArr.__or__ = lambda self, o: emap(lambda a, b: SymBool(t.or_(term(a), term(b))), self, o, kind="b")
GArr.__ror__ = GArr.__or__


def _inplace(op):
    def f(self, o):
        if self.view:
            raise Unsupported("in-place update of a view")
        r = emap(op, self.copy(), o)
        self._elem, self.kind = r._elem, r.kind
        return self
    return f


for _n, _o in {"iadd": operator.add, "isub": operator.sub, "imul": operator.mul, "itruediv": operator.truediv}.items():
    setattr(GArr, "__%s__" % _n, _inplace(_o))


def _tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return SymBool(t.TRUE if x else t.FALSE)
    if isinstance(x, Sym):
        return x != 0
    return SymBool(term(bool(x)))


def _tonum(x):
    if isinstance(x, SymBool):
        return x.num()
    if isinstance(x, bool):
        return int(x)
    return x


def asarr(x):
    """anything array-like -> GArr (0-d for scalars)"""
    if isinstance(x, GArr):
        return x
    if getattr(x, "_vp_series", False):
        return x.arr
    if getattr(x, "_vp_symlist", False):
        return x.toarr()
    if isinstance(x, _np.ndarray):
        tab = x
        kind = {"f": "f", "i": "i", "u": "i", "b": "b", "O": "f", "c": "c"}.get(x.dtype.kind, "O")
        return GArr(x.shape, lambda ix: _table(tab, ix), kind=kind)
    if isinstance(x, (list, tuple)):
        parts = [asarr(v) for v in x]
        if not parts:
            return GArr((0,), lambda ix: Sym(t.const(0)))
        sh = parts[0].shape
        for p in parts:
            if len(p.shape) != len(sh):
                raise Unsupported("ragged array")

        def e(ix):
            return _pick([p.at(ix[1:]) for p in parts], ix[0])
        return GArr((len(parts),) + sh, e, kind=parts[0].kind)
    return GArr((), lambda ix: x, kind="b" if isinstance(x, (bool, SymBool)) else "f")


def _table(tab, ix):
    c = [int(t.cv(i)) if t.isc(i) else None for i in ix]
    if all(v is not None for v in c):
        v = tab[tuple(c)]
        return v.item() if isinstance(v, _np.generic) and v.dtype.kind in "ifbuc" else v
    k = c.index(None)
    vals = []
    for j in builtins.range(tab.shape[k]):
        vals.append(_table(tab, ix[:k] + (t.const(j),) + ix[k + 1:]))
    return _pick(vals, ix[k])


def _pick(vals, i):
    if t.isc(i):
        return vals[int(t.cv(i))]
    if len(vals) == 1:
        return vals[0]
    r = vals[-1]
    for j in builtins.range(len(vals) - 2, -1, -1):
        r = gite(SymBool(t.eq(i, t.const(j))), vals[j], r)
    return r


def gite(c, a, b):
    """ite on values that may be dates / objects"""
    if c.t is t.TRUE:
        return a
    if c.t is t.FALSE:
        return b
    if a is b:
        return a
    if hasattr(a, "_vp_ite"):
        return a._vp_ite(c, b)
    if hasattr(b, "_vp_ite"):
        return b._vp_ite(SymBool(t.not_(c.t)), a)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and a == b:
            return a
        # fork
        return a if bool(c) else b
    return wrap(t.ite(c.t, term(_nan(a)), term(_nan(b))))


def _nan(x):
    return x


def broadcast_shape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in builtins.range(nd):
        cur = 1
        for s in shapes:
            j = k - (nd - len(s))
            if j < 0:
                continue
            d = norm_dim(s[j])
            if one(d):
                continue
            if one(cur):
                cur = d
            elif not same_dim(cur, d):
                # numpy broadcasts size-1 dims even if only known symbolically
                if bool(SymBool(t.eq(dim_term(d), t.const(1)))) or bool(SymBool(t.eq(dim_term(cur), t.const(1)))):
                    raise Unsupported("symbolic broadcasting of a dimension equal to 1")
                raise ValueError("operands could not be broadcast together with shapes %r" % (shapes,))
        out.append(cur)
    return tuple(out)


def emap(f, *arrs, kind=None):
    A = [asarr(a) for a in arrs]
    if builtins.any(a.mask is not None for a in A):
        shape = broadcast_shape([a.shape for a in A if a.mask is not None])
    else:
        shape = broadcast_shape([a.shape for a in A])
    masks = [a.mask for a in A if a.mask is not None]
    mask = masks[0] if masks else None
    for m in masks[1:]:
        if not same_mask(m, mask):
            raise Unsupported("operation on arrays selected by different masks")
    nd = len(shape)
    if mask is not None:
        for p, a in enumerate(A):
            if a.mask is None and not all(one(d) for d in a.shape):
                if mask.mask.ndim < nd:
                    raise Unsupported("row selection combined with an unselected array")
                if a.ndim == 1 and dim_term(a.shape[0]) is dim_term(count(mask)):
                    g = generic_index(a.shape[0])
                    v = a.at((g,))
                    if g in t.subterms(term(v.o if hasattr(v, "o") else v)):
                        raise Unsupported("array built for a selection combined with the selection")
                    A[p] = GArr((1,), lambda ix, v=v: v, kind=a.kind)      # the same value for every selected element
                    continue
                raise ValueError("operands could not be broadcast together (masked selection)")
        shape = broadcast_shape([a.shape for a in A if a.mask is not None or all(one(d) for d in a.shape)])
        nd = len(shape)
    elems = [a._elem for a in A]
    shps = [a.shape for a in A]

    memo = {}

    def e(ix):
        r = memo.get(ix)
        if r is None:
            vals = []
            for el, s in zip(elems, shps):
                off = nd - len(s)
                vals.append(el(tuple(t.const(0) if one(s[j]) else ix[off + j] for j in builtins.range(len(s)))))
            r = f(*vals)
            memo[ix] = r
        return r
    if kind is None:
        kinds = [a.kind for a in A]
        kind = "c" if "c" in kinds else ("f" if "f" in kinds else kinds[0])
    r = GArr(shape, e, mask, kind)
    return r


def freeze(a):
    """snapshot (arrays are mutable)"""
    return GArr(a.shape, a._elem, a.mask, a.kind)


def quant(kind, arr):
    a = arr
    if kind == "any":
        join = t.or_
    else:
        join = t.and_
    el = a._elem

    def at(ix):
        v = term(_tobool(el(ix)))
        if a.mask is not None:
            m = term(a.mask.at(ix))
            v = t.and_(m, v) if kind == "any" else t.implies(m, v)
        return v
    import itertools
    cs = [concrete(d) for d in a.shape]
    if all(c is not None for c in cs):
        n = 1
        for c in cs:
            n *= c
        if n <= 256:
            return SymBool(join(*[at(tuple(t.const(i) for i in p)) for p in itertools.product(*[builtins.range(c) for c in cs])]))
    g = at(a.gidx())
    if g is t.TRUE and (kind == "all"):
        return SymBool(t.TRUE)
    if g is t.FALSE and kind == "any":
        return SymBool(t.FALSE)
    marker = t.var("%s<%d>" % (kind, g.id), "B")
    if marker not in QUANT:
        shape = a.shape

        def gen(ix):
            if ix is None:
                sk = []
                for k, d in enumerate(shape):
                    if one(d):
                        sk.append(t.const(0))
                        continue
                    v = t.var("sk@%d.%d" % (g.id, k), "I")
                    Ctx.cur.pc.append(t.le(t.const(0), v))
                    Ctx.cur.pc.append(t.lt(v, dim_term(d)))
                    sk.append(v)
                return at(tuple(sk))
            return at(ix)
        insts = [a.gidx()]
        zero = tuple(t.const(0) for _ in shape)
        if zero != a.gidx():
            insts.append(zero)
        QUANT[marker] = (kind, gen, insts)
    return SymBool(marker)


def reduction(kind, a):
    """KIND<n>(body at the generic index) of a 1-d array of symbolic length; selections contribute where their mask holds"""
    n = dim_term(a.shape[0])
    unit = t.const(0 if kind == "SUM" else 1, "R")

    def body(ix):
        v = term(_tonum(a.at((ix,))))
        return v if a.mask is None else t.ite(term(_tobool(a.mask.at((ix,)))), v, unit)
    g = generic_index(a.shape[0])
    if g in t.subterms(body(t.var("bound@", "I"))):
        raise Unsupported("%s whose body depends on an outer index of the same range" % kind)
    return Sym(t.app("%s<%s>" % (kind, t.show(n)), (body(g),)))


def _and3(*c):
    return SymBool(t.and_(*[term(x) for x in c]))


def first(mask, n):
    """index of the first selected element: selected, in range (instances of "no earlier one is" are not needed so far);
    IndexError when nothing is selected"""
    cnt = reduce_sum(GArr((n,), lambda ix: _tobool(mask.at(ix)), kind="b"))
    ctx = Ctx.cur
    ctx.assume(cnt >= 0)
    for r in ctx.store.get("rows", []):             # positions a contract names
        ctx.assume(SymBool(t.implies(term(_and3(r >= 0, r < Sym(dim_term(n)), _tobool(mask.at((r.t,))))), term(cnt > 0))))
    if not bool(cnt > 0):
        raise IndexError("single positional indexer is out-of-bounds")
    g = generic_index(n)
    j = Sym(t.var("first@%d" % term(_tobool(mask.at((g,)))).id, "I"))
    ctx.assume(And(j >= 0, j < Sym(dim_term(n)), _tobool(mask.at((j.t,)))))
    return j.t


def reduce_prod(a):
    if a.ndim != 1:
        raise Unsupported("product of a matrix")
    if concrete(a.shape[0]) is not None and a.mask is None:
        s = Sym(t.const(1))
        for k in builtins.range(concrete(a.shape[0])):
            s = s * a.at((t.const(k),))
        return s
    return reduction("PROD", a)


def reduce_mean(a, axis=None):
    if axis is not None and not (a.ndim == 1 and axis in (0, -1)):
        return reduce_sum(a, axis) / Sym(dim_term(a.shape[axis]))
    if a.mask is None:
        n = Sym(dim_term(a.shape[0])) if a.ndim == 1 else Sym(t.const(1)) * a.size
        return reduce_sum(a, axis) / n
    c = reduction("SUM", GArr(a.shape, lambda ix: Sym(t.const(1, "R")), a.mask))
    if not bool(c > 0):
        return float("nan")
    return reduction("SUM", a) / c


def _to_day(v):
    """an entry of a column of numbers as a date: only a missing one can become one"""
    from . import dates as D, frames as FR
    if isinstance(v, D.SymDate) or isinstance(v, D.NaTType):
        return v
    if term(FR.isnan(v)) is t.TRUE:
        return D.NullDate(Sym(t.const(0)), SymBool(t.TRUE))
    raise Unsupported("number as a date")


def reduce_sum(a, axis=None):
    if a.mask is not None:
        if a.ndim != 1:
            raise Unsupported("sum of masked selection")
        return reduction("SUM", a)
    if axis is None and all(concrete(d) is not None for d in a.shape):
        import itertools
        s = Sym(t.const(0))
        for p in itertools.product(*[builtins.range(concrete(d)) for d in a.shape]):
            s = s + a.at(tuple(t.const(i) for i in p))
        return s
    if axis is not None and concrete(a.shape[axis]) is not None:
        n = concrete(a.shape[axis])
        ax = axis % a.ndim

        def e(ix):
            s = Sym(t.const(0))
            for k in builtins.range(n):
                s = s + a.at(ix[:ax] + (t.const(k),) + ix[ax:])
            return s
        return GArr(a.shape[:ax] + a.shape[ax + 1:], e)
    if a.ndim == 1:
        return reduction("SUM", a)
    if axis is not None:
        ax = axis % a.ndim
        dt = dim_term(a.shape[ax])
        gx = generic_index(a.shape[ax])

        def es(ix):
            return Sym(t.app("SUM<%s>" % t.show(dt), (term(a.at(ix[:ax] + (gx,) + ix[ax:])),)))
        return GArr(a.shape[:ax] + a.shape[ax + 1:], es)
    raise Unsupported("sum over symbolic axis")


def reduce_minmax(a, which):
    cs = [concrete(d) for d in a.shape]
    if a.ndim == 1 and cs[0] is not None:
        r = a[0]
        for i in builtins.range(1, cs[0]):
            v = a[i]
            c = (v < r) if which == "min" else (v > r)
            if isinstance(c, (bool, _np.bool_)):
                r = v if c else r
                continue
            r = gite(SymBool(quick(c.t)) if index_fact(c.t) else c, v, r)
        return r
    if a.ndim == 1:
        g = a.generic()
        if getattr(g, "_vp_date", False):
            from .frames import date_minmax
            return date_minmax(a, which)
        if hasattr(g, "_vp_ite"):
            raise Unsupported("min/max of symbolic objects")
        m = Sym(t.app("%s<%s>" % (which.upper(), t.show(dim_term(a.shape[0]))), (term(g),)))
        ctx = Ctx.cur
        if ctx is not None:
            ctx.assume(m <= g if which == "min" else m >= g)
        return m
    raise Unsupported("min/max")


# ----------------------------------------------------------------- indexing
def _idx(i, d):
    """normalise an integer index (int or Sym) against dim d"""
    if isinstance(i, (int, _np.integer)):
        i = int(i)
        dc = concrete(d)
        if dc is not None:
            if not -dc <= i < dc:
                raise IndexError("index %d is out of bounds for axis with size %d" % (i, dc))
            return t.const(i % dc if i < 0 else i)
        if i < 0:
            return t.add(dim_term(d), t.const(i))
        return t.const(i)
    if isinstance(i, Sym):
        c = concrete(i)
        if c is not None:
            return _idx(c, d)
        return i.t
    if getattr(i, "_vp_label", False):
        if i.df.labels is not None or i.df.mask_rows():
            raise Unsupported("index by the label of a moved row")
        return i.pos
    raise Unsupported("index %r" % (i,))


def _bound(v, d, default):
    if v is None:
        return default
    if isinstance(v, (int, _np.integer)):
        v = int(v)
        dc = concrete(d)
        if dc is not None:
            return t.const(max(0, min(dc, v if v >= 0 else dc + v)))
        return t.const(v) if v >= 0 else t.add(dim_term(d), t.const(v))
    if isinstance(v, Sym):
        return v.t
    raise Unsupported("slice bound")


class MIdx(Sym):
    """position of an element of a masked selection, identified by its original index"""


def _int_then_mask(key):
    """integers followed by one boolean mask: numpy selects as a[ints][mask]"""
    return (len(key) > 1 and isinstance(key[-1], (GArr, _np.ndarray)) and asarr(key[-1]).kind == "b"
            and builtins.all(isinstance(k, (int, _np.integer, Sym)) and not isinstance(k, (bool, MIdx)) for k in key[:-1]))


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if a.mask is not None and a.ndim == 1 and len(key) == 1 and isinstance(key[0], int) and key[0] == 0:
        return a.at((first(a.mask, a.shape[0]),))
    if isinstance(key[0], MIdx) or a.mask is not None:
        if len(key) == 1 and isinstance(key[0], MIdx) and a.mask is not None and a.ndim == 1 and key[0].mkey is a.mask.key():
            return a.at((key[0].t,))
        raise Unsupported("indexing a masked selection")
    if builtins.any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:p] + (slice(None),) * (a.ndim - used) + key[p + 1:]
    if _int_then_mask(key):
        return getitem(getitem(a, key[:-1]), (key[-1],))
    # single boolean mask
    ks = [k for k in key]
    if len(ks) == 1 and isinstance(ks[0], (GArr, _np.ndarray, list)) or (len(ks) == 1 and getattr(ks[0], "_vp_series", False)):
        k = asarr(ks[0])
        if k.kind == "b":
            if k.ndim == a.ndim or a.ndim == 0 or 1 == k.ndim < a.ndim:
                check_mask_shape(a, k)
                el = a._elem
                cs = [concrete(d) for d in k.shape]
                if all(one(d) for d in k.shape) and all(one(d) for d in a.shape):
                    pass
                return GArr(a.shape, el, Mask(freeze(k)), a.kind)
            raise Unsupported("mask rank")
        el = a._elem
        kk = freeze(k)
        d0 = a.shape[0]
        return GArr(kk.shape + a.shape[1:], lambda ix: el((_idx(kk.at(ix[:kk.ndim]), d0),) + tuple(ix[kk.ndim:])), kind=a.kind)
    if len(ks) == a.ndim and not builtins.any(k is None or isinstance(k, slice) for k in ks) and builtins.sum(isinstance(k, (GArr, _np.ndarray, list)) for k in ks) > 1:
        return fancy(a, ks)
    out_shape, maps = [], []
    ax = 0
    for k in key:
        if k is None:
            out_shape.append(1)
            maps.append(("new",))
            continue
        d = a.shape[ax]
        if isinstance(k, slice):
            st = k.step if k.step is not None else 1
            if st == 1:
                lo = _bound(k.start, d, t.const(0))
                hi = _bound(k.stop, d, dim_term(d))
                nd_ = norm_dim(Sym(t.sub(hi, lo)))
                if isinstance(nd_, int):
                    nd_ = max(nd_, 0)
                out_shape.append(nd_)
                maps.append(("sl", ax, lo, 1))
            elif st == -1 and k.start is None and k.stop is None:
                out_shape.append(d)
                maps.append(("rev", ax, d))
            else:
                raise Unsupported("slice step")
        elif isinstance(k, (int, _np.integer, Sym)) or getattr(k, "_vp_label", False):
            maps.append(("fix", ax, _idx(k, d)))
        elif isinstance(k, (GArr, _np.ndarray, list)):
            kk = freeze(asarr(k))
            if kk.kind == "b" or kk.ndim != 1:
                raise Unsupported("mixed fancy index")
            out_shape.append(kk.shape[0])
            maps.append(("take", ax, kk, d))
        else:
            raise Unsupported("index of type %s" % type(k))
        ax += 1
    for r in builtins.range(ax, a.ndim):
        out_shape.append(a.shape[r])
        maps.append(("sl", r, t.const(0), 1))
    el = a._elem

    def e(ix):
        src = [None] * a.ndim
        p = 0
        for m in maps:
            if m[0] == "new":
                p += 1
            elif m[0] == "fix":
                src[m[1]] = m[2]
            elif m[0] == "sl":
                src[m[1]] = t.add(ix[p], m[2])
                p += 1
            elif m[0] == "rev":
                src[m[1]] = t.sub(t.add(dim_term(m[2]), t.const(-1)), ix[p])
                p += 1
            elif m[0] == "take":
                src[m[1]] = _idx(m[2].at((ix[p],)), m[3])
                p += 1
        return el(tuple(src))
    if not out_shape:
        return e(())
    r = GArr(out_shape, e, None, a.kind)
    r.view = True
    return r


def run_start(kk):
    """first element of an index array that is provably lo, lo + 1, lo + 2, ..., or None"""
    if kk.kind == "b" or kk.ndim != 1 or kk.mask is not None:
        return None
    g = t.var("ix@run", "I")
    x = term(kk.at((g,)))
    lo = t.sub(x, g)
    if g in t.subterms(lo):
        return None
    return lo


def prefix_count(kk):
    """n for a boolean array that is provably True at exactly the positions 0 .. n - 1 (n within the length), or None"""
    if kk.kind != "b" or kk.ndim != 1 or kk.mask is not None:
        return None
    g = t.var("ix@run", "I")
    c = term(kk.at((g,)))
    d = dim_term(kk.shape[0])
    if c is t.TRUE:
        return d
    for q in t.subterms(c):
        if q.sort != "I":
            continue
        if g in t.subterms(q):
            continue
        for m in (q, t.add(q, t.const(1))):
            inr = [t.le(t.const(0), g), t.lt(g, d)]
            if quick(t.implies(t.and_(*inr), t.and_(t.implies(c, t.lt(g, m)), t.implies(t.lt(g, m), c)))) is t.TRUE and quick(t.and_(t.le(t.const(0), m), t.le(m, d))) is t.TRUE:
                return m
    return None


def fancy(a, key):
    """every axis indexed by an array or a number: the index arrays broadcast together"""
    idx = []
    for ax, k in enumerate(key):
        if isinstance(k, (int, _np.integer, Sym)):
            k = GArr((), lambda ix, k=k: k, kind="i")
        kk = freeze(asarr(k))
        if kk.kind == "b":
            n = prefix_count(kk)
            if n is None:
                raise Unsupported("mixed fancy index")
            kk = GArr((norm_dim(Sym(n)),), lambda ix: Sym(ix[0]), kind="i")
        if kk.mask is not None:
            raise Unsupported("mixed fancy index")
        idx.append(kk)
    nd = builtins.max(k.ndim for k in idx)
    shape = []
    for j in builtins.range(nd):
        ds = [k.shape[k.ndim - nd + j] for k in idx if k.ndim - nd + j >= 0]
        big = [d for d in ds if not one(d)]
        if builtins.any(not same_dim(d, big[0]) for d in big[1:]):
            raise IndexError("shape mismatch: indexing arrays could not be broadcast together")
        shape.append(big[0] if big else 1)
    el = a._elem

    def e(ix):
        src = []
        for k, d in zip(idx, a.shape):
            kx = tuple(t.const(0) if one(k.shape[j]) else ix[nd - k.ndim + j] for j in builtins.range(k.ndim))
            src.append(_idx(k.at(kx), d))
        return el(tuple(src))
    return GArr(tuple(shape), e, None, a.kind)


def check_mask_shape(a, k):
    if a.mask is not None:
        raise Unsupported("mask of masked selection")
    for d, m in zip(a.shape, k.shape):
        if not same_dim(d, m):
            raise IndexError("boolean index did not match indexed array")


def setitem(a, key, val):
    if not isinstance(key, tuple):
        key = (key,)
    if _int_then_mask(key):
        b = freeze(getitem(a, key[:-1]))
        b = GArr(b.shape, b._elem, kind=a.kind)
        setitem(b, key[-1], val)
        return setitem(a, key[:-1], b)
    if isinstance(val, str) and val == "NaT" and a.kind == "D":
        from .dates import NullDate
        val = GArr((), lambda ix: NullDate(Sym(t.const(0)), SymBool(t.TRUE)), kind="D")
    old = a._elem
    if len(key) == 1 and (isinstance(key[0], (GArr, _np.ndarray)) or getattr(key[0], "_vp_series", False)):
        k = asarr(key[0])
        if k.kind != "b":
            raise Unsupported("fancy assignment")
        check_mask_shape(a, k)
        kk = freeze(k)
        v = asarr(val)
        if v.mask is not None:
            if v.mask.key() is not term(kk.generic()):
                raise Unsupported("masked assignment with a different mask")
            ve = v._elem
            scal = False
        elif all(one(d) for d in v.shape):
            x = v.at(tuple(t.const(0) for _ in v.shape))
            ve, scal = None, True
        elif isinstance(v.shape[0], int) and v.shape[0] == 0:
            return
        else:
            # numpy: number of selected elements must equal len(val); only all-true masks make that hold generically
            raise Unsupported("masked assignment from unmasked array")
        vm = v

        def e(ix):
            c = _tobool(kk.at(tuple(ix)[:kk.ndim]))
            if c.t is t.FALSE:
                return old(ix)
            nv = x if scal else ve(tuple(t.const(0) if one(s) else i for s, i in zip(vm.shape, ix)))
            return gite(c, nv, old(ix))
        a._elem = e
        if v.kind == "f" and a.kind == "i":
            raise Unsupported("float into int array")
        return
    if builtins.any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (a.ndim - len(key) + 1) + key[p + 1:]
    conds, outdims = [], []
    for ax, k in enumerate(key):
        d = a.shape[ax]
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step assignment")
            lo = _bound(k.start, d, t.const(0))
            hi = _bound(k.stop, d, dim_term(d))
            conds.append(("sl", ax, lo, hi, k.start is None and k.stop is None))
            outdims.append(norm_dim(Sym(t.sub(hi, lo))))
        elif isinstance(k, (int, _np.integer, Sym)):
            conds.append(("fix", ax, _idx(k, d)))
        elif isinstance(k, (GArr, _np.ndarray, list)) and builtins.sum(not isinstance(q, slice) for q in key) == 1:
            kk = freeze(asarr(k))
            lo = run_start(kk)
            if lo is None:
                raise Unsupported("assignment index array")
            conds.append(("sl", ax, lo, t.add(lo, dim_term(kk.shape[0])), False))
            outdims.append(kk.shape[0])
        else:
            raise Unsupported("assignment index %s" % type(k))
    for r in builtins.range(len(key), a.ndim):
        conds.append(("sl", r, t.const(0), dim_term(a.shape[r]), True))
        outdims.append(a.shape[r])
    v = asarr(val)
    if v.mask is not None:
        raise Unsupported("assign masked selection to slice")
    # broadcast check
    vs = v.shape
    while len(vs) > len(outdims) and one(vs[0]):
        inner = v
        v = GArr(vs[1:], lambda ix, inner=inner: inner.at((t.const(0),) + tuple(ix)), kind=v.kind)
        vs = v.shape
    if len(vs) > len(outdims):
        raise ValueError("could not broadcast input array")
    off = len(outdims) - len(vs)
    for j, d in enumerate(vs):
        if not one(d) and not same_dim(d, outdims[off + j]):
            raise ValueError("could not broadcast input array from shape %r into shape %r" % (vs, tuple(outdims)))
    ve = v._elem

    def e(ix):
        c = t.TRUE
        pos = []
        for m in conds:
            i = ix[m[1]]
            if m[0] == "fix":
                c = t.and_(c, t.eq(i, m[2]))
            else:
                if not m[4]:
                    c = t.and_(c, t.le(m[2], i), t.lt(i, m[3]))
                pos.append(t.sub(i, m[2]))
        if c is t.FALSE:
            return old(ix)
        c2 = quick(c)
        if c2 is t.FALSE:
            return old(ix)
        vi = tuple(t.const(0) if one(vs[j]) else pos[off + j] for j in builtins.range(len(vs)))
        if c2 is t.TRUE:
            return ve(vi)
        return gite(SymBool(c2), ve(vi), old(ix))
    a._elem = e


def quick(c):
    """decide an index condition from the current facts without forking"""
    if c in (t.TRUE, t.FALSE) or Ctx.cur is None:
        return c
    from . import smt
    ctx = Ctx.cur
    key = c
    cache = ctx.__dict__.setdefault("_quick", {})
    fs = [f for f in ctx.facts() if index_fact(f)]
    kk = (c, tuple(fs))
    if kk in cache:
        return cache[kk]
    fs = fs + index_facts(fs + [c])
    r = c
    if smt.check(fs + [t.not_(c)], 500)[0] == "unsat":
        r = t.TRUE
    elif smt.check(fs + [c], 500)[0] == "unsat":
        r = t.FALSE
    cache[kk] = r
    return r


_IXF = {}


def index_fact(f):
    r = _IXF.get(f)
    if r is None:
        r = _IXF[f] = all(u.sort in ("I", "B") for u in t.subterms(f))
    return r


# ----------------------------------------------------------------- functions
def _scalarfn(name):
    def f(x):
        if isinstance(x, (Sym, SymBool, int, float, Fraction, complex, _np.number)):
            return Sym(t.fn(name, term(_tonum(x))))
        raise Unsupported("np.%s of %s" % (name, type(x)))
    return f


def _sign(x):
    x = Sym(term(_tonum(x)))
    return Sym(t.ite(t.lt(t.const(0), x.t), t.const(1), t.ite(t.eq(x.t, t.const(0)), t.const(0), t.const(-1))))


def _max(a, b):
    a, b = Sym(term(_tonum(a))), Sym(term(_tonum(b)))
    return Sym(t.ite(t.le(b.t, a.t), a.t, b.t))


def _min(a, b):
    a, b = Sym(term(_tonum(a))), Sym(term(_tonum(b)))
    return Sym(t.ite(t.le(a.t, b.t), a.t, b.t))


def _isnan(x):
    if isinstance(x, (Sym, SymBool)):
        return SymBool(t.TRUE if x.t.op == "special" else t.FALSE)
    if x is None:
        return SymBool(t.TRUE)
    try:
        return SymBool(t.TRUE if x != x else t.FALSE)
    except Exception:
        return SymBool(t.FALSE)


EXPM1 = lambda x: Sym(t.add(t.fn("exp", term(x)), t.const(-1)))
LOG1P = lambda x: Sym(t.fn("log", t.add(term(x), t.const(1))))


def _logical(op):
    def f(a, b):
        return SymBool(op(term(_tobool(a)), term(_tobool(b))))
    return f


UF = {
    "exp": _scalarfn("exp"), "log": _scalarfn("log"), "sqrt": _scalarfn("sqrt"),
    "sin": _scalarfn("sin"), "cos": _scalarfn("cos"), "arctan": _scalarfn("arctan"),
    "expm1": EXPM1, "log1p": LOG1P,
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
    "true_divide": operator.truediv, "power": operator.pow, "float_power": operator.pow,
    "negative": lambda a: -a, "positive": lambda a: a,
    "absolute": abs, "fabs": abs, "square": lambda a: a * a, "reciprocal": lambda a: 1 / a,
    "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min, "sign": _sign,
    "floor": lambda a: Sym(t.fn("floor", term(a))),
    "ceil": lambda a: -Sym(t.fn("floor", t.neg(term(a)))),
    "floor_divide": operator.floordiv, "remainder": operator.mod, "mod": operator.mod,
    "less": operator.lt, "less_equal": operator.le, "greater": operator.gt, "greater_equal": operator.ge,
    "equal": _eqop, "not_equal": lambda a, b: ~_tobool(_eqop(a, b)),
    "logical_and": _logical(t.and_), "logical_or": _logical(t.or_), "bitwise_and": _logical(t.and_), "bitwise_or": _logical(t.or_),
    "logical_not": lambda a: ~_tobool(a), "invert": lambda a: ~_tobool(a),
    "isnan": _isnan, "isfinite": lambda x: ~_isnan(x),
    "conjugate": lambda a: a,
}
BOOLS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not", "isnan", "isfinite", "bitwise_and", "bitwise_or", "invert"}


def anyarr(xs):
    return builtins.any(isinstance(x, (GArr, _np.ndarray, list)) or getattr(x, "_vp_series", False) or getattr(x, "_vp_symlist", False) for x in xs)


def ufunc(uf, method, *inputs, **kw):
    name = uf.__name__ if hasattr(uf, "__name__") else str(uf)
    kw = {k: v for k, v in kw.items() if v is not None and k not in ("casting", "dtype")}
    if method == "reduce" and name in ("add", "logical_or", "logical_and", "maximum", "minimum", "multiply"):
        a = asarr(inputs[0])
        if name == "add":
            return a.sum(kw.get("axis"))
        if name in ("logical_or",):
            return a.any()
        if name == "logical_and":
            return a.all()
        if name in ("maximum", "minimum") and not kw and a.ndim == 1 and len(inputs) == 1:
            return reduce_minmax(a, name[:3])
    if method != "__call__" or name not in UF:
        raise Unsupported("ufunc %s.%s" % (name, method))
    if set(kw) - {"out", "where"}:
        raise Unsupported("ufunc kwargs %s" % list(kw))
    if "out" in kw or "where" in kw:
        raise Unsupported("ufunc out/where")
    f = UF[name]
    kind = "b" if name in BOOLS else None
    if kind is None and name not in ("add", "subtract", "multiply", "negative", "maximum", "minimum", "absolute", "sign", "floor_divide", "remainder", "square"):
        kind = "f"
    return elementwise(f, *inputs, kind=kind)


def elementwise(f, *inputs, kind=None):
    if not anyarr(inputs):
        return f(*inputs)
    A = [asarr(x) for x in inputs]
    r = emap(f, *A, kind=kind)
    if kind == "f" and builtins.any(a.kind == "c" for a in A):
        r.kind = "c"
    if r.shape == ():
        return r.at(())
    return r


def array_function(func, args, kwargs):
    name = func.__name__
    h = FUNCS.get(name)
    if h is None:
        raise Unsupported("np.%s" % name)
    return h(*args, **kwargs)


def _broadcast_arrays(*xs, subok=False):
    A = [asarr(x) for x in xs]
    shape = broadcast_shape([a.shape for a in A])
    if builtins.any(a.mask is not None for a in A):
        raise Unsupported("broadcast of masked selection")

    def one_(a):
        f = freeze(a)
        off = len(shape) - f.ndim
        return GArr(shape, lambda ix: f.at(tuple(t.const(0) if one(d) else ix[off + j] for j, d in enumerate(f.shape))), kind=a.kind)
    return [one_(a) for a in A]


def _atleast_1d(*xs):
    r = []
    for x in xs:
        a = asarr(x)
        if a.ndim == 0:
            v = a.at(())
            a = GArr((1,), lambda ix, v=v: v, kind=a.kind)
        r.append(a)
    return r[0] if len(r) == 1 else r


def _atleast_2d(x):
    a = asarr(x)
    if a.ndim == 0:
        v = a.at(())
        return GArr((1, 1), lambda ix: v, kind=a.kind)
    if a.ndim == 1:
        return GArr((1,) + a.shape, lambda ix: a.at(ix[1:]), kind=a.kind)
    return a


def _shape(s):
    if isinstance(s, GArr):
        s = tuple(s.tolist())
    if isinstance(s, (int, _np.integer, Sym)):
        return (s,)
    return tuple(int(x) if isinstance(x, _np.integer) else x for x in s)


def _full(shape, fill_value, dtype=None, **k):
    shp = _shape(shape)
    v = asarr(fill_value)
    if v.shape == ():
        x = v.at(())
        return GArr(shp, lambda ix: x, kind=_kind(dtype, x))
    return _broadcast_to(v, shp)


def _kind(dtype, x=0.0):
    if dtype in (bool, "bool"):
        return "b"
    if dtype in (int, "int", "int64"):
        return "i"
    if dtype in (complex, "complex", _np.complex128):
        return "c"
    if dtype is None and isinstance(x, (bool, SymBool)):
        return "b"
    return "f"


def _broadcast_to(v, shape, **k):
    v = asarr(v)
    shp = _shape(shape)
    z = GArr(shp, lambda ix: 0)
    out = broadcast_shape([v.shape, shp])
    for a, b in zip(out, shp):
        if not same_dim(a, b):
            raise ValueError("operands could not be broadcast together")
    return emap(lambda a, b: a, v, z, kind=v.kind)


def _array(x, dtype=None, ndmin=0, **k):
    a = asarr(x)
    a = a.copy()
    if dtype in (float,) and a.kind == "b":
        a = a.astype(float)
    elif dtype in (bool,):
        a = emap(_tobool, a, kind="b")
    elif dtype is not None:
        a.kind = _kind(dtype)
    if a.ndim == 0 and not k.get("keep0"):
        return a
    return a


def _where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("np.where with one argument")
    if not anyarr((c,) + ab):
        return gite(_tobool(c), ab[0], ab[1])
    return emap(lambda c_, a_, b_: gite(_tobool(c_), _unwrapnp(a_), _unwrapnp(b_)), asarr(c), asarr(ab[0]), asarr(ab[1]),
                kind=("f" if "f" in (asarr(ab[0]).kind, asarr(ab[1]).kind) else asarr(ab[0]).kind))


def _unwrapnp(x):
    return x.item() if isinstance(x, _np.generic) and x.dtype.kind in "ifb" else x


def _isin(x, vals, **k):
    vals = list(vals) if not isinstance(vals, (list, tuple)) else vals

    def f(e):
        return SymBool(t.or_(*[t.eq(term(e), term(v)) for v in vals]))
    return elementwise(f, x, kind="b")


def _column_stack(parts):
    parts = [asarr(p) for p in parts]
    cols = []
    for p in parts:
        if p.ndim == 1:
            cols.append((p, None))
        else:
            n = concrete(p.shape[1])
            if n is None:
                raise Unsupported("column_stack symbolic columns")
            for j in builtins.range(n):
                cols.append((p, j))
    n0 = parts[0].shape[0]

    def e(ix):
        vals = [p.at((ix[0],)) if j is None else p.at((ix[0], t.const(j))) for p, j in cols]
        return _pick(vals, ix[1])
    return GArr((n0, len(cols)), e, kind=parts[0].kind)


def _concatenate(parts, axis=0, **k):
    parts = [asarr(p) for p in parts]
    nd = parts[0].ndim
    ax = axis % nd
    offs, tot = [], t.const(0)
    for p in parts:
        offs.append(tot)
        tot = t.add(tot, dim_term(p.shape[ax]))

    def e(ix):
        i = ix[ax]
        r = None
        for p, o in reversed(list(zip(parts, offs))):
            if r is None:
                # last part
                c = quick(t.le(o, i))
                if c is t.TRUE:
                    return p.at(ix[:ax] + (t.sub(i, o),) + ix[ax + 1:])
                r = (lambda p=p, o=o: p.at(ix[:ax] + (t.sub(i, o),) + ix[ax + 1:]))
                if c is t.FALSE:
                    r = None
                    continue
            else:
                c = quick(t.le(o, i))
                cur = (lambda p=p, o=o: p.at(ix[:ax] + (t.sub(i, o),) + ix[ax + 1:]))
                prev = r
                nxt = offs[parts.index(p) + 1]
                cc = quick(t.lt(i, nxt))
                if cc is t.TRUE:
                    r = cur
                else:
                    r = (lambda cur=cur, prev=prev, nxt=nxt: gite(SymBool(t.lt(i, nxt)), cur(), prev()))
        return r()
    d = norm_dim(Sym(tot))
    mask = None
    if builtins.any(p.mask is not None for p in parts):
        if nd != 1:
            raise Unsupported("joining selections")
        mask = Mask(_concatenate([GArr(p.shape, (lambda ix, p=p: SymBool(term(_tobool(p.mask.at(ix))))) if p.mask is not None else (lambda ix: SymBool(t.TRUE)), kind="b") for p in parts]))
    return GArr(parts[0].shape[:ax] + (d,) + parts[0].shape[ax + 1:], e, mask, kind=parts[0].kind)


def _stack(parts, axis=0, **k):
    parts = [asarr(p) for p in parts]
    nd = parts[0].ndim + 1
    ax = axis % nd

    def e(ix):
        return _pick([p.at(ix[:ax] + ix[ax + 1:]) for p in parts], ix[ax])
    s = parts[0].shape
    return GArr(s[:ax] + (len(parts),) + s[ax:], e, kind=parts[0].kind)


def _diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    ax = axis % a.ndim
    sl1 = tuple(slice(1, None) if i == ax else slice(None) for i in builtins.range(a.ndim))
    sl0 = tuple(slice(None, -1) if i == ax else slice(None) for i in builtins.range(a.ndim))
    return a[sl1] - a[sl0]


def _arange(*a, **k):
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
    if len(a) == 3 or k.get("step") not in (None, 1):
        raise Unsupported("arange step")
    n = norm_dim(hi - lo if not isinstance(hi, float) else int(hi) - lo)
    return GArr((n,), lambda ix: Sym(t.add(ix[0], term(lo))), kind="i")


def _linspace(start, stop, num=50, endpoint=True, **k):
    if k.get("retstep") or set(k) - {"retstep", "dtype", "axis"} or endpoint not in (True, False):
        raise Unsupported("linspace options")
    d = num - 1 if endpoint else num
    return GArr((num,), lambda ix: Sym(term(start)) + Sym(ix[0]) * ((Sym(term(stop)) - start) / d))


def simpson(y, x=None, dx=1.0, axis=-1, **k):
    """scipy.integrate.simpson over two points: the trapezoidal rule"""
    y = asarr(y)
    if axis < 0:
        axis += y.ndim
    if k or concrete(y.shape[axis]) != 2:
        raise Unsupported("simpson over other than two points")
    h = dx
    if x is not None:
        x = asarr(x)
        if x.ndim != 1 or not same_dim(x.shape[0], 2):
            raise ValueError("If given, length of x along axis must be the same as y.")
        h = Sym(term(x[1])) - Sym(term(x[0]))
    a, b = (getitem(y, (slice(None),) * axis + (i,)) for i in (0, 1))
    return (a + b) * (h / 2)


def _clip(x, lo, hi, **k):
    r = x
    if lo is not None:
        r = elementwise(_max, r, lo)
    if hi is not None:
        r = elementwise(_min, r, hi)
    return r


def _cumsum(a, axis=None, **k):
    a = asarr(a)
    ax = (axis if axis is not None else 0) % a.ndim
    n = concrete(a.shape[ax])
    if n is None:
        raise Unsupported("cumsum over symbolic length")

    def e(ix):
        vals, s = [], None
        for j in builtins.range(n):
            v = a.at(ix[:ax] + (t.const(j),) + ix[ax + 1:])
            s = v if s is None else s + v
            vals.append(s)
        return _pick(vals, ix[ax])
    return GArr(a.shape, e, kind=a.kind)


def _dot(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_sum(a * b)
    if a.ndim == 2 and b.ndim == 2:
        n = concrete(a.shape[1])
        if n is None:
            n = concrete(b.shape[0])
        if n is None:
            raise Unsupported("matmul symbolic inner dim")

        def e(ix):
            s = Sym(t.const(0))
            for j in builtins.range(n):
                s = s + a.at((ix[0], t.const(j))) * b.at((t.const(j), ix[1]))
            return s
        return GArr((a.shape[0], b.shape[1]), e)
    if a.ndim == 2 and b.ndim == 1:
        n = concrete(a.shape[1])
        if n is None:
            raise Unsupported("matvec")
        return GArr((a.shape[0],), lambda ix: builtins.sum((a.at((ix[0], t.const(j))) * b.at((t.const(j),)) for j in builtins.range(n)), Sym(t.const(0))))
    raise Unsupported("dot")


def _matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 2 and b.ndim == 3:          # broadcast over the leading axis of b
        d = concrete(a.shape[1])
        if d is None:
            d = concrete(b.shape[1])
        if d is None:
            raise Unsupported("batched matmul symbolic inner dim")

        def e(ix):
            s = Sym(t.const(0))
            for k in builtins.range(d):
                s = s + a.at((ix[1], t.const(k))) * b.at((ix[0], t.const(k), ix[2]))
            return s
        return GArr((b.shape[0], a.shape[0], b.shape[2]), e)
    return _dot(a, b)


GArr.__matmul__ = lambda self, o: _matmul(self, o)
GArr.__rmatmul__ = lambda self, o: _matmul(o, self)
GArr.dot = lambda self, o: _dot(self, o)


def _like(v, uninit=False):
    def f(a, dtype=None, shape=None, **k):
        a = asarr(a)
        if a.kind == "D":
            if not uninit:
                raise Unsupported("dates filled with a number")
            from .dates import SymDate
            return GArr(a.shape, lambda ix: SymDate.from_ordinal(Sym(t.app("uninitialised", tuple(ix), "I"))), kind="D")
        return GArr(a.shape, lambda ix: v, kind=_kind(dtype) if dtype is not None else a.kind)
    return f


def _shape_of(a):
    return asarr(a).shape


def _insert(arr, obj, values, axis=None):
    a = asarr(arr)
    if obj == 0 and a.ndim == 1:
        return _concatenate([_atleast_1d(values), a])
    raise Unsupported("np.insert")


def _append(arr, values, axis=None):
    if axis is None and asarr(arr).ndim <= 1 and asarr(values).ndim <= 1:
        return _concatenate([_atleast_1d(arr), _atleast_1d(values)])
    raise Unsupported("np.append")


def _outer(a, b):
    a, b = asarr(a), asarr(b)
    return GArr((a.shape[0], b.shape[0]), lambda ix: a.at((ix[0],)) * b.at((ix[1],)))


def _copy(a, **k):
    return asarr(a).copy()


def _full_like(a, fill_value, dtype=None, **k):
    a = asarr(a)
    v = asarr(fill_value)
    if v.shape != ():
        return _broadcast_to(v, a.shape)
    x = v.at(())
    return GArr(a.shape, lambda ix: x, kind=a.kind)


def _nan_to_num(a, **k):
    raise Unsupported("nan_to_num")


def _array_equal(a, b):
    a, b = asarr(a), asarr(b)
    return (a == b).all()


def _argminmax(a, axis=None, **k):
    a = asarr(a)
    if a.ndim != 1 or axis not in (None, 0):
        raise Unsupported("argmin")
    j = Ctx.cur.fresh("argmin", "I")
    Ctx.cur.assume(SymBool(t.le(t.const(0), j)))
    Ctx.cur.assume(SymBool(t.lt(j, dim_term(a.shape[0]))))
    if a.mask is None:
        return Sym(j)
    Ctx.cur.assume(_tobool(a.mask.at((j,))))
    r = MIdx(j)
    r.mkey = a.mask.key()
    return r


def _roots(p, **k):
    """library contract: an array of the roots; each real one is a zero of the polynomial"""
    p = [p[i] for i in builtins.range(len(p))]
    if any(hasattr(c, "_vp_ite") for c in p):
        raise Unsupported("np.roots")
    n = Sym(Ctx.cur.fresh("nroots", "I"))
    Ctx.cur.assume(n >= 1)
    tag = Ctx.cur.fresh("roots", "I").args[0]
    seen = set()

    def real(ix):
        return SymBool(t.mk("sel", ("isreal_" + str(tag),) + tuple(ix), "B"))

    def e(ix):
        r = Sym(t.mk("sel", ("root_" + str(tag),) + tuple(ix), "R"))
        if ix not in seen and Ctx.cur is not None:
            seen.add(ix)
            v = Sym(t.const(0))
            for c in p:
                v = v * r + c
            Ctx.cur.assume(SymBool(t.implies(real(ix).t, t.eq(v.t, t.const(0)))))
        return r
    a = GArr((n,), e, kind="f")
    a.isreal = GArr((n,), real, kind="b")
    return a


def _isreal(a):
    return a.isreal if hasattr(a, "isreal") else elementwise(lambda v: SymBool(t.TRUE), a, kind="b")


FUNCS = {
    "argmin": _argminmax, "argmax": _argminmax, "roots": _roots, "isreal": _isreal, "extract": lambda c, a: asarr(a)[asarr(c)],
    "broadcast_arrays": _broadcast_arrays, "atleast_1d": _atleast_1d, "atleast_2d": _atleast_2d, "where": _where, "isin": _isin, "in1d": _isin,
    "full_like": _full_like, "zeros_like": _like(0), "ones_like": _like(1), "empty_like": _like(0, True),
    "full": _full, "zeros": lambda shape, dtype=None, **k: _full(shape, 0 if dtype not in (bool,) else False, dtype),
    "ones": lambda shape, dtype=None, **k: _full(shape, 1 if dtype not in (bool,) else True, dtype),
    "empty": lambda shape, dtype=None, **k: _full(shape, Sym(t.mk("special", ("nan",), "R")), dtype),
    "array": _array, "asarray": _array, "asanyarray": _array, "copy": _copy,
    "any": lambda a, axis=None, **k: (asarr(a).any() if anyarr((a,)) else _tobool(a)),
    "all": lambda a, axis=None, **k: (asarr(a).all() if anyarr((a,)) else _tobool(a)),
    "sum": lambda a, axis=None, **k: (asarr(a).sum(axis) if anyarr((a,)) else a),
    "mean": lambda a, axis=None, **k: (asarr(a).mean(axis) if anyarr((a,)) else a),
    "prod": lambda a, axis=None, **k: (asarr(a).prod(axis) if anyarr((a,)) else a),
    "column_stack": _column_stack, "concatenate": _concatenate, "stack": _stack, "vstack": lambda p: _stack(p) if asarr(p[0]).ndim == 1 else _concatenate(p),
    "hstack": lambda p: _concatenate(p, axis=0 if asarr(p[0]).ndim == 1 else 1),
    "diff": _diff, "arange": _arange, "linspace": _linspace, "clip": _clip, "cumsum": _cumsum, "dot": _dot, "matmul": _dot,
    "broadcast_to": _broadcast_to, "shape": _shape_of, "ndim": lambda a: asarr(a).ndim, "insert": _insert, "append": _append,
    "outer": _outer, "squeeze": lambda a, **k: asarr(a).squeeze(), "ravel": lambda a: asarr(a).flatten(),
    "reshape": lambda a, s: asarr(a).reshape(s), "transpose": lambda a, axes=None: asarr(a).transpose(*([axes] if axes else [])),
    "isscalar": lambda x: not anyarr((x,)), "max": lambda a, **k: asarr(a).max(), "min": lambda a, **k: asarr(a).min(),
    "amax": lambda a, **k: asarr(a).max(), "amin": lambda a, **k: asarr(a).min(),
    "array_equal": _array_equal, "float64": lambda x: x, "abs": lambda x: elementwise(abs, x),
    "real": lambda x: elementwise(lambda v: v.real, x), "imag": lambda x: elementwise(lambda v: v.imag, x, kind="f"),
    "isclose": lambda a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10 ** 8), **k: elementwise(
        lambda x, y: SymBool(t.le(t.fn("abs", t.sub(term(x), term(y))), t.add(term(atol), t.mul(term(rtol), t.fn("abs", term(y)))))), a, b, kind="b"),
}


def has_sym(x, depth=0):
    if symbolic(x):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple, set)):
            return builtins.any(has_sym(v, depth + 1) for v in x)
        if isinstance(x, dict):
            return builtins.any(has_sym(v, depth + 1) for v in x.values())
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return builtins.any(has_sym(v, depth + 1) for v in x.flat)
    return isinstance(x, Fraction)


CREATE = {"zeros", "ones", "empty", "full"}
