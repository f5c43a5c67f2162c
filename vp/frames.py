"""Library contracts for pandas row operations and for one-dimensional interpolation.

* rows: DataFrame.sort_values is a permutation of the rows that puts the key in order; concat stacks; merge(how='left') on a key
  whose right-hand values increase by one unit per row keeps one row per left key, NaN where the key is absent.
* interpolation: np.interp / splrep+splev are functions of x determined by the data they are given.  Every call records its data,
  so that a contract states what the interpolant is fitted to; the value at x is an uninterpreted function symbol of x (its
  derivative another one), which reproduces the data at the knots.
"""
from . import terms as t
from . import npmodel as nm
from . import dates as D
from .npmodel import GArr
from .sym import Sym, SymBool, Ctx, term, wrap, Unsupported, And, Or, Not, If, Eq, Implies, I

NAN = Sym(t.mk("special", ("nan",), "R"))
C0 = Sym(t.const(0))


class Interp:
    """an interpolant: kind in ('linear', 'spline'), data x, y (frozen arrays), other parameters"""
    _vp_symbolic = True

    def __init__(self, kind, x, y, par):
        rec = Ctx.cur.store.setdefault("interps", [])
        self.kind, self.x, self.y, self.par = kind, nm.freeze(nm.asarr(x)), nm.freeze(nm.asarr(y)), par
        self.name = "%s#%d" % (kind, len(rec))
        rec.append(self)

    def __call__(self, x, der=0):
        nme = self.name + "'" * der
        return Sym(t.app(nme, (term(x),)))

    def knot(self, i):
        """library contract: the interpolant takes the data values at the data points"""
        i = (term(i),)
        return Eq(self(self.x.at(i)), self.y.at(i))


def interps():
    return Ctx.cur.store.get("interps", [])


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if left is not None or right is not None or period is not None:
        raise Unsupported("np.interp options")
    xp, fp = nm.asarr(xp), nm.asarr(fp)
    if not nm.same_dim(xp.shape[0], fp.shape[0]):
        raise ValueError("fp and xp are not of the same length.")
    g = Interp("linear", xp, fp, {})
    return nm.elementwise(lambda v: g(v), x)


class Interp1d:
    """scipy.interpolate.interp1d(x, y, kind='linear') inside the range of the data (outside it raises: not modelled)"""
    _vp_symbolic = True

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind != "linear":
            raise Unsupported("interp1d kind %r" % (kind,))
        x, y = nm.asarr(x), nm.asarr(y)
        if y.ndim != 1 or x.ndim != 1:
            raise Unsupported("interp1d of several columns")
        if not nm.same_dim(x.shape[0], y.shape[0]) or (x.mask is None) != (y.mask is None) or x.mask is not None and not nm.same_mask(x.mask, y.mask):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.g = Interp("linear", x, y, {"bounds_error": bounds_error, "fill_value": fill_value})

    def __call__(self, v):
        return nm.elementwise(lambda u: self.g(u), v)


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, **kw):
    if w is not None or xb is not None or xe is not None or task or t is not None or kw:
        raise Unsupported("splrep options")
    return Interp("spline", x, y, {"k": k, "s": 0 if s is None else s})


def splev(x, tck, der=0, ext=0):
    if not isinstance(tck, Interp) or ext:
        raise Unsupported("splev")
    return nm.elementwise(lambda v: tck(v, der), x)


# ------------------------------------------------------------------ rows
_PERM = {}


def permutation(key, n, descending=False):
    """index function of a sorting permutation of rows 0..n-1 by `key`; key is a 1-d array"""
    nme = "perm%s<%d>" % ("-" if descending else "", term(key.generic() if not isinstance(key.generic(), D.SymDate) else key.generic().o).id)
    ctx = Ctx.cur
    nt = nm.dim_term(nm.norm_dim(n))

    def val(i):
        v = key.at((i,))
        return v.o if isinstance(v, D.SymDate) else v
    kt = key.at((nm.generic_index(n),))
    # sorting a column that is itself a permutation of 0..n-1 restores the natural order
    inverse = isinstance(kt, Sym) and kt.t.op == "sel" and kt.t.args[0].startswith("perm") and kt.t.args[1] is nm.generic_index(n) and not descending

    def perm(ix):
        r = t.mk("sel", (nme, ix), "I")
        done = ctx.store.setdefault("_perm", set())
        if r not in done:
            done.add(r)
            if inverse:
                ctx.assume(SymBool(t.implies(term(And(SymBool(t.le(t.const(0), ix)), SymBool(t.lt(ix, nt)))), term(Eq(val(r), Sym(ix))))))
            rng = And(SymBool(t.le(t.const(0), ix)), SymBool(t.lt(ix, nt)))
            ctx.assume(SymBool(t.implies(term(rng), term(And(Sym(r) >= 0, Sym(r) < Sym(nt))))))
            for other in [u for u in done if u.args[0] == nme and u is not r]:
                for a, b in ((other, r), (r, other)):
                    i, j = a.args[1], b.args[1]
                    order = (val(b) <= val(a)) if descending else (val(a) <= val(b))
                    ctx.assume(SymBool(t.implies(term(And(SymBool(t.le(t.const(0), i)), SymBool(t.le(i, j)), SymBool(t.lt(j, nt)))), term(order))))
        return r
    perm.name = nme
    ctx.store.setdefault("perms", []).append((perm, key, descending))
    return perm


def take(a, perm, n):
    a = nm.freeze(a)
    return GArr((n,), lambda ix: a.at((perm(ix[0]),)), kind=a.kind)


def ordv(v):
    return v.o if isinstance(v, D.SymDate) else v


def monotone_step(a):
    """constant difference of consecutive elements of a 1-d array, or None"""
    g = a.gidx()[0]
    d = t.sub(term(ordv(a.at((t.add(g, t.const(1)),)))), term(ordv(a.at((g,)))))
    return d.args[0] if t.isc(d) else None


def date_minmax(a, which):
    st = monotone_step(a)
    last = (t.sub(nm.dim_term(a.shape[0]), t.const(1)),)
    if st is not None:
        return a.at((t.const(0),) if (st >= 0) == (which == "min") else last)
    g = a.generic()
    m = Sym(t.app("%s<%s>" % (which.upper(), t.show(nm.dim_term(a.shape[0]))), (term(g.o),), "I"))
    ctx = Ctx.cur
    if ctx is not None:
        for v in (g, a.at((t.const(0),)), a.at(last)):
            ctx.assume(m <= v.o if which == "min" else m >= v.o)
        n = Sym(nm.dim_term(a.shape[0]))
        for i in ctx.store.get("rows", []):         # positions a contract quantifies over
            ctx.assume(Implies(And(i >= 0, i < n), (m <= a.at((i.t,)).o) if which == "min" else (m >= a.at((i.t,)).o)))
        w = Sym(t.app("ARG" + m.t.args[0], m.t.args[1:], "I"))
        ctx.assume(And(w >= 0, w < n, Eq(a.at((w.t,)).o, m)))
        for u in t.subterms(term(a.at((w.t,)).o)):  # the rows where extremes are attained, for contracts
            if u.op == "sel" and not u.args[0].startswith("perm"):
                ctx.store.setdefault("extremes", {}).setdefault(u.args[0], []).append(Sym(u.args[1]))
        ctx.assume(m >= 1)
    return D.SymDate.from_ordinal(m)


def date_range(start=None, end=None, periods=None, freq=None, **k):
    import pandas as pd
    if not nm.has_sym((start, end, periods)):
        return pd.date_range(start, end, periods, freq, **k)
    if periods is not None or k or freq not in ("d", "D"):
        raise Unsupported("date_range options")
    a, b = D.as_date(start), D.as_date(end)
    n = b.o - a.o + 1
    if not bool(n >= 0):
        n = 0
    o0 = a.o
    return GArr((nm.norm_dim(n),), lambda ix: D.SymDate.from_ordinal(o0 + Sym(ix[0])), kind="D")


def asof(key, day, tag=""):
    """position of the last row of a sorted date column that is not after the day (-1: none)"""
    ctx = Ctx.cur
    g = key.generic()
    n = Sym(nm.dim_term(key.shape[0]))
    r = Sym(t.app("ASOF%s<%d>" % (tag, term(ordv(g)).id), (term(ordv(day)),), "I"))
    if r.t not in ctx.store.setdefault("_asof", set()):
        ctx.store["_asof"].add(r.t)
        ctx.assume(And(r >= -1, r < n))
        at = lambda i: ordv(key.at((i.t,)))
        ctx.assume(Implies(r >= 0, at(r) <= ordv(day)))
        ctx.assume(Implies(r + 1 < n, at(r + 1) > ordv(day)))
    return r


def in_order(key):
    """is the column in ascending order? (the negative answer has a witness)"""
    key = nm.freeze(key)
    st = monotone_step(key)
    if st is not None:
        return st >= 0
    n = Sym(nm.dim_term(key.shape[0]))
    u = term(ordv(key.generic()))
    if u.op == "sel" and u.args[0] in Ctx.cur.store.get("ascending", ()) and u.args[1] is nm.generic_index(key.shape[0]):
        return True                             # precondition of the contract
    u = u.id
    i, j = Sym(t.var("ord%d.i" % u, "I")), Sym(t.var("ord%d.j" % u, "I"))
    Ctx.cur.assume(And(i >= 0, i <= j, j < n))
    return bool(ordv(key.at((i.t,))) <= ordv(key.at((j.t,))))


def same_column(a, b):
    """the same values in the same rows (by their terms)"""
    u, v = a.generic(), b.generic()
    return nm.same_dim(a.shape[0], b.shape[0]) and term(ordv(u)) is term(ordv(v))


def merge_asof(DF, left, right, on=None, direction="backward", left_on=None, right_on=None, **k):
    if on is not None and left_on is None and right_on is None:
        left_on = right_on = on
    if k or direction not in ("backward", "forward") or not isinstance(left_on, str) or not isinstance(right_on, str):
        raise Unsupported("merge_asof options")
    key, rkey = left.cols[left_on], right.cols[right_on]
    if key.mask is not None or rkey.mask is not None:
        raise Unsupported("merge_asof of a selection of rows")
    for side, kk in (("left", key), ("right", rkey)):
        if not in_order(kk):
            raise ValueError("%s keys must be sorted" % side)
    out = DF()
    for c, v in left.cols.items():
        out.cols[c] = v
    nr = Sym(nm.dim_term(rkey.shape[0]))
    for c, v in right.cols.items():
        if c == right_on and left_on == right_on:
            continue
        if c in out.cols:
            raise Unsupported("merge with overlapping columns")

        def e(ix, v=v):
            if direction == "forward":              # first row that is not before the day
                j = asof(rkey, D.SymDate.from_ordinal(ordv(key.at(ix)) - 1)) + 1
                return nm.gite(SymBool(nm.quick(term(j < nr))), v.at((term(j),)), D.NAT if v.kind == "D" else NAN)
            j = asof(rkey, key.at(ix))
            return nm.gite(SymBool(nm.quick(term(j >= 0))), v.at((term(j),)), D.NAT if v.kind == "D" else NAN)
        out.cols[c] = GArr(key.shape, e, kind=v.kind)
    return out


def busday_count(a, b, weekmask="1111100", holidays=(), busdaycal=None, out=None):
    """number of weekdays in [a, b); the facts link it to the existence of one"""
    if weekmask != "1111100" or holidays or busdaycal is not None:
        raise Unsupported("busday_count with a calendar")
    a, b = D.as_date(a), D.as_date(b)
    ctx = Ctx.cur
    r = Sym(t.app("BUSCOUNT", (term(a.o), term(b.o)), "I"))
    w = D.SymDate.from_ordinal(Sym(t.app("BUSWITNESS", (term(a.o), term(b.o)), "I")))
    ctx.store.setdefault("busdays", []).append(w)
    ctx.assume(Implies(a.o < b.o, r >= 0))
    ctx.assume(Implies(a.o >= b.o, r <= 0))
    ctx.assume(Implies(r > 0, And(a.o <= w.o, w.o < b.o, w.weekday() < 5)))
    for x in ctx.store.get("days", []):             # days a contract quantifies over
        ctx.assume(Implies(And(a.o <= x.o, x.o < b.o, x.weekday() < 5), r > 0))
    return r


def merge(DF, left, right, how="inner", on=None, left_on=None, right_on=None, **k):
    lk, rk = (on, on) if on is not None else (left_on, right_on)
    if how != "left" or k or not isinstance(lk, str) or not isinstance(rk, str):
        raise Unsupported("merge options")
    key, rkey = left.cols[lk], right.cols[rk]
    if monotone_step(rkey) != 1:
        raise Unsupported("merge on a right key that is not consecutive")
    base = ordv(rkey.at((t.const(0),)))
    nr = Sym(nm.dim_term(nm.norm_dim(rkey.shape[0])))
    out = DF()
    for c, v in left.cols.items():
        out.cols[c] = v
    for c, v in right.cols.items():
        if c in (rk,) and lk == rk:
            continue
        if c in out.cols:
            raise Unsupported("merge with overlapping columns")

        def e(ix, v=v):
            kv = key.at(ix)
            j = (ordv(kv) - base)
            return nm.gite(SymBool(nm.quick(term(And(j >= 0, j < nr)))), v.at((term(j),)), D.NAT if v.kind == "D" else NAN)
        out.cols[c] = GArr(key.shape, e, key.mask, kind=v.kind)
    return out


def concat(DF, Series, parts, axis=0, ignore_index=False, **k):
    parts = [p for p in parts if p is not None]
    if all(getattr(p, "_vp_series", False) for p in parts) and axis == 0:
        return Series(nm._concatenate([p.arr for p in parts]))
    if axis in (1, "columns"):
        out = DF()
        gi = {getattr(p, "given_index", None) for p in parts}
        if len(gi) != 1:
            raise Unsupported("concat of columns with different indexes")
        out.given_index = gi.pop()
        if out.given_index is not None:
            out.labels = parts[0].labels
        for p in parts:
            if getattr(p, "_vp_series", False):
                out[p.name] = p.arr
            else:
                for c, v in p.cols.items():
                    out[c] = v
        return out
    cols = list(dict.fromkeys(c for p in parts for c in p.cols))
    if not ignore_index and any(p.labels is not None for p in parts):
        raise Unsupported("concat of moved rows")

    def missing(c, p):
        kinds = {q.cols[c].kind for q in parts if c in q.cols}
        v = D.NullDate(C0, SymBool(t.TRUE)) if kinds == {"D"} else NAN
        if kinds - {"D", "f", "i"}:
            raise Unsupported("concat of frames with different columns")
        return GArr((p._vp_len(),), lambda ix: v, kind=kinds.pop())
    out = DF()
    if not ignore_index:
        out.labels = lambda ix: (_ for _ in ()).throw(Unsupported("row labels after concat"))
    for c in cols:
        pc = [p.cols[c] if c in p.cols else missing(c, p) for p in parts]
        out.cols[c] = nm._concatenate(pc)
        out.cols[c].kind = pc[-1].kind
    return out


def rows_slice(DF, df, s):
    out = DF()
    for c, v in df.cols.items():
        out.cols[c] = nm.freeze(nm.getitem(v, s))
    return out


# ------------------------------------------------------------------ series by date
class DateSet:
    """dates as a set (drop_duplicates, union); only membership and comparison of all of them matter"""
    _vp_symbolic = True
    _vp_dateset = True

    def __init__(self, parts, sorted_=False):
        self.parts, self.sorted = parts, sorted_

    def union(self, other, sort=None):
        return DateSet(self.parts + (other.parts if isinstance(other, DateSet) else [nm.freeze(nm.asarr(other))]), True)

    @property
    def values(self):
        return self

    def has(self, a):
        return any(same_column(p, a) for p in self.parts)

    def _cmp(self, o):
        return DayMask()
    __lt__ = __gt__ = __le__ = __ge__ = _cmp

    def __getitem__(self, m):
        if isinstance(m, DayMask):
            return ()                   # a selection of days: only looped over to warn about them (warnings are not modelled)
        raise Unsupported("selection of dates")

    def __getattr__(self, k):
        raise Unsupported("dates.%s" % k) if not k.startswith("__") else AttributeError(k)


class DayMask:
    _vp_symbolic = True

    def __or__(self, o): return self
    def __and__(self, o): return self
    def __invert__(self): return self


class TimeSeries:
    """pandas Series of numbers labelled by dates.  reindex keeps the values at the labels and is missing elsewhere; interpolate(method='time') is
    linear in time between the known values on either side; limit_area='inside' leaves the days before the first and after the last missing;
    ffill and bfill then carry the nearest known value there"""
    _vp_symbolic = True

    def __init__(self, y, x, days=None, interp=None, ff=False, bf=False):
        self.y, self.x, self.days, self.interp, self.ff, self.bf = nm.freeze(y), nm.freeze(x), days, interp, ff, bf

    def _with(self, **kw):
        d = dict(days=self.days, interp=self.interp, ff=self.ff, bf=self.bf)
        d.update(kw)
        return TimeSeries(self.y, self.x, **d)

    def copy(self, deep=True):
        return self._with()

    def reindex(self, labels):
        if isinstance(labels, DateSet):
            if self.interp or self.days is not None:
                raise Unsupported("second reindex by a set of dates")
            if not labels.sorted or not labels.has(self.x):
                raise Unsupported("reindex that drops known values or is out of order")
            return self._with(days=labels)
        d = nm.freeze(nm.asarr(labels))
        if self.interp is None or self.days is None or not self.days.has(d):
            raise Unsupported("reindex by dates that were not interpolated")
        if not (self.ff and self.bf or not self.ff and not self.bf):
            raise Unsupported("filled on one side only")
        g = Interp("time", GArr(self.x.shape, lambda ix: ordv(self.x.at(ix)), kind="i"), self.y, {"flat": self.ff})
        return Values(nm.elementwise(lambda v: g(ordv(v)), d, kind="f"))

    def interpolate(self, method="linear", limit_area=None, **k):
        if method != "time" or k or limit_area != "inside" or self.days is None or self.interp:
            raise Unsupported("interpolate options")
        return self._with(interp=True)

    def ffill(self, **k):
        if k or not self.interp:
            raise Unsupported("ffill options")
        return self._with(ff=True)

    def bfill(self, **k):
        if k or not self.interp:
            raise Unsupported("bfill options")
        return self._with(bf=True)


class Values:
    """values by date"""
    _vp_symbolic = True

    def __init__(self, a):
        self.values = a

    def to_numpy(self):
        return self.values


# ------------------------------------------------------------------ Series methods
def series_method(a, k, Series):
    """pandas methods of a column (k) on array a; None when not modelled"""
    if k == "apply":
        def apply(f, convert_dtype=True, args=(), **kw):
            r = nm.emap(lambda v: f(v, *args, **kw), a)
            g = r.generic()
            if isinstance(g, D.SymDate):
                r.kind = "D"
            return Series(r)
        return apply
    if k == "where":
        def where(cond, other=NAN):
            return Series(nm.emap(lambda c, x, y: nm.gite(c if isinstance(c, SymBool) else SymBool(term(bool(c))), x, y), cond, a, other, kind=a.kind))
        return where
    if k == "clip":
        def clip(lower=None, upper=None):
            r = a
            if lower is not None:
                r = nm.emap(lambda x, y: nm.gite(x < y, y, x), r, scalar(lower), kind=a.kind)
            if upper is not None:
                r = nm.emap(lambda x, y: nm.gite(x > y, y, x), r, scalar(upper), kind=a.kind)
            return Series(r)
        return clip
    if k in ("to_list", "tolist"):
        return lambda: SymListOf(a)
    if k in ("notna", "notnull"):
        return lambda: Series(nm.emap(lambda v: Not(isnan(v)), a, kind="b"))
    if k in ("isna", "isnull"):
        return lambda: Series(nm.emap(isnan, a, kind="b"))
    if k == "sum":
        def sum_(axis=None, skipna=True, **kw):
            bad = isnan(a.generic()) if a.ndim == 1 and nm.concrete(a.shape[0]) is None else SymBool(t.FALSE)
            if bad.t is t.FALSE:
                return nm.reduce_sum(a)
            if not skipna:
                raise Unsupported("sum of values that may be missing")
            return nm.reduce_sum(nm.emap(lambda x: nm.gite(isnan(x), C0, x), a))
        return sum_
    if k == "fillna":
        return lambda v: Series(nm.emap(lambda x: nm.gite(isnan(x), v, x), a, kind=a.kind))
    if k in ("drop_duplicates", "unique") and a.kind == "D":
        return lambda: DateSet([nm.freeze(a)])
    if k == "isin":
        def isin(vals):
            m = GArr(a.shape, lambda ix: SymBool(t.app("ISIN<%d>" % term(ordv(nm.asarr(vals).generic())).id, (term(ordv(a.at(ix))),), "B")), kind="b")
            m.isin = (nm.freeze(a), nm.freeze(nm.asarr(vals)))
            return m
        return isin
    if k == "astype":
        return a.astype
    if k == "index":
        return GArr(a.shape, lambda ix: Sym(ix[0]), kind="i")
    if k == "between":
        return lambda lo, hi, **kw: Series(nm.emap(lambda v: And(v >= lo, v <= hi), a, kind="b"))
    if k == "shift":
        def shift(p=1):
            n = nm.dim_term(a.shape[0])

            def e(ix):
                src = t.sub(ix[0], t.const(p))
                return nm.gite(SymBool(nm.quick(term(And(Sym(src) >= 0, Sym(src) < Sym(n))))), a.at((src,)), D.NAT if a.kind == "D" else NAN)
            return Series(GArr(a.shape, e, kind=a.kind))
        return shift
    return None


def scalar(v):
    return GArr((), lambda ix: v)


def isnan(v):
    if v is None or isinstance(v, D.NaTType):
        return SymBool(t.TRUE)
    if isinstance(v, float) and v != v:
        return SymBool(t.TRUE)
    if getattr(v, "null", None) is not None:
        return v.null
    if getattr(v, "_vp_null", None) is not None:
        return v._vp_null
    if isinstance(v, Sym):
        return SymBool(_isnan(v.t))
    return SymBool(t.FALSE)


def _isnan(u):
    if u.op == "special":
        return t.TRUE if u.args[0] == "nan" else t.FALSE
    if u.op == "ite":
        return t.ite(u.args[0], _isnan(u.args[1]), _isnan(u.args[2]))
    return t.FALSE


def SymListOf(a):
    from .lift import SymList
    c = nm.concrete(a.shape[0])
    if c is not None:
        return [a.at((t.const(i),)) for i in range(c)]
    return SymList(a.shape[0], lambda ix: a.at((ix,)))


# ------------------------------------------------------------------ business days
_CALS = []
ROLLS = ["raise", "nat", "forward", "following", "backward", "preceding", "modifiedfollowing", "modifiedpreceding"]


def cal_id(cal):
    for i, c in enumerate(_CALS):
        if c is cal:
            return i
    _CALS.append(cal)
    return len(_CALS) - 1


def isbus(o, cal):
    return SymBool(t.app("ISBUS<%d>" % cal_id(cal), (term(o),), "B"))


def first_of_month(d):
    return d.o - d.day + 1


def _known_busday(u, cal):
    return u.op == "app" and u.args[0].split("<")[0] in ("BUSADD", "FOLLOWING", "PRECEDING", "MODIFIEDFOLLOWING", "MODIFIEDPRECEDING") and u.args[0].endswith("<%d>" % cal_id(cal))


def busadd(x, k, cal):
    """the k-th business day after business day x (before it for negative k).  Facts: a business day, composition
    B(B(x, j), k) = B(x, j + k), strictly increasing in k, and at least |k| days apart"""
    x, k = Sym(term(x)), Sym(term(k))
    name = "BUSADD<%d>" % cal_id(cal)
    if x.t.op == "app" and x.t.args[0] == name:
        _, u, j = x.t.args
        x, k = Sym(u), Sym(t.add(j, k.t))
    if t.isc(k.t) and t.cv(k.t) == 0:
        return x
    ctx = Ctx.cur
    r = Sym(t.app(name, (x.t, k.t), "I"))
    done = ctx.store.setdefault("_busadd", {}).setdefault((x.t, name), {})
    if r.t not in done:
        imp = lambda a, b: ctx.assume(SymBool(t.implies(term(a), term(b))))
        ctx.assume(And(isbus(r, cal), r >= 1))
        for o, j in [(x, Sym(t.const(0)))] + [(Sym(o), j) for o, j in done.items()]:
            imp(k > j, r >= o + (k - j))
            imp(k < j, r <= o - (j - k))
            imp(Eq(k, j), Eq(r, o))
        done[r.t] = k
    return r


def roll(d, how, cal):
    """np.busday_offset(d, 0, roll=how): ordinal of the date"""
    ctx = Ctx.cur
    how = {"forward": "following", "backward": "preceding"}.get(how, how)
    if _known_busday(d.o.t, cal):
        return d.o
    for c, h in ((1, "following"), (-1, "preceding")):
        y = t.sub(d.o.t, t.const(c))
        if how == h and _known_busday(y, cal):
            return busadd(Sym(y), c, cal)
    if how not in ("following", "preceding", "modifiedfollowing", "modifiedpreceding"):
        raise Unsupported("roll %s" % how)
    if how.startswith("modified"):
        r = Sym(t.app("%s<%d>" % (how.upper(), cal_id(cal)), (term(d.o),), "I"))
        done = ctx.store.setdefault("_rolls", set())
        if r.t not in done:
            done.add(r.t)
            ctx.assume(And(isbus(r, cal), r >= 1, SymBool(t.implies(term(isbus(d.o, cal)), term(Eq(r, d.o))))))
        return r
    r = Sym(t.app("%s<%d>" % (how.upper(), cal_id(cal)), (term(d.o),), "I"))
    done = ctx.store.setdefault("_rolls", set())
    if r.t not in done:
        done.add(r.t)
        ctx.assume(And(isbus(r, cal), r >= d.o if how == "following" else r <= d.o, r >= 1, SymBool(t.implies(term(isbus(d.o, cal)), term(Eq(r, d.o))))))
        # no business day is skipped (instantiated at the other business days in play)
        for o in list(ctx.store.setdefault("_busdays", set())):
            noskip(ctx, d, r, how, o, cal)
        ctx.store["_busdays"].add((r.t, cal_id(cal)))
        for (q, qd, qh, qc) in list(ctx.store.setdefault("_rolled", [])):
            noskip(ctx, qd, q, qh, (r.t, cal_id(cal)), qc)
        ctx.store["_rolled"].append((r, d, how, cal))
    return r


def noskip(ctx, d, r, how, other, cal):
    """r is the first business day at or after (before) d, so business day `other` is not strictly between"""
    o, c = other
    if c != cal_id(cal):
        return
    o = Sym(o)
    if how == "following":
        ctx.assume(SymBool(t.implies(term(o >= d.o), term(o >= r))))
    else:
        ctx.assume(SymBool(t.implies(term(o <= d.o), term(o <= r))))


def busday_offset(dates, offsets=0, roll="raise", weekmask="1111100", holidays=(), busdaycal=None, out=None):
    how = roll
    if weekmask != "1111100" or holidays or busdaycal is None:
        raise Unsupported("busday_offset without a calendar object")

    def one(d, k):
        d = D.as_date(d)
        if how == "raise":
            raise Unsupported("busday_offset roll='raise'")
        return D.SymDate.from_ordinal(busadd(globals()["roll"](d, how, busdaycal), k, busdaycal))
    return nm.elementwise(one, dates, offsets, kind="D")


def is_busday(dates, weekmask="1111100", holidays=(), busdaycal=None, out=None):
    if weekmask != "1111100" or holidays or busdaycal is None:
        raise Unsupported("is_busday without a calendar object")
    return nm.elementwise(lambda d: isbus(D.as_date(d).o, busdaycal), dates, kind="b")
