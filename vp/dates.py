"""Symbolic calendar dates (proleptic Gregorian, integers)."""
import datetime as _dt
import numpy as _np
from fractions import Fraction
from . import terms as t
from .sym import Sym, SymBool, Unsupported, Ctx, term, I, If, And, Or, Not, wrap


def _i(x):
    return x if isinstance(x, Sym) else Sym(t.const(int(x)))


def isleap(y):
    y = _i(y)
    return And(y % 4 == 0, Or(Not(y % 100 == 0), y % 400 == 0))


def dim(y, m):
    """days in month"""
    m = _i(m)
    feb = 28 + isleap(y).num()
    return If(m == 2, feb, If(Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def ordinal(y, m, d):
    """date.toordinal"""
    y, m, d = _i(y), _i(m), _i(d)
    if all(t.isc(v.t) for v in (y, m, d)):
        return Sym(t.const(_dt.date(int(y), int(m), int(d)).toordinal()))
    y1 = y - 1
    r = 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400
    c = Sym(t.const(CUM[11]))
    for k in range(10, -1, -1):
        c = If(m == k + 1, CUM[k], c)
    return r + c + If(And(m > 2, isleap(y)), 1, 0) + d


class SymDelta:
    _vp_symbolic = True

    def __init__(self, days):
        self.days = days

    def _vp_ite(self, c, other):
        return SymDelta(If(c, self.days, other.days))

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return SymDelta(self.days + o.days)
        return NotImplemented

    def __lt__(self, o): return self.days < as_delta(o).days
    def __le__(self, o): return self.days <= as_delta(o).days
    def __gt__(self, o): return self.days > as_delta(o).days
    def __ge__(self, o): return self.days >= as_delta(o).days
    def __eq__(self, o): return self.days == as_delta(o).days
    def __ne__(self, o): return self.days != as_delta(o).days
    def __neg__(self): return SymDelta(-self.days)
    def __abs__(self): return SymDelta(abs(self.days))
    def __hash__(self): return hash(term(self.days))

    def total_seconds(self):
        return self.days * 86400

    def __truediv__(self, o):
        return self.days / as_delta(o).days

    def __floordiv__(self, o):
        return self.days // as_delta(o).days

    def astype(self, *a):
        return self


def as_delta(o):
    if isinstance(o, SymDelta):
        return o
    if isinstance(o, _dt.timedelta):
        if o.seconds or o.microseconds:
            raise Unsupported("sub-day timedelta")
        return SymDelta(o.days)
    if isinstance(o, _np.timedelta64):
        return SymDelta(int(o / _np.timedelta64(1, "D")))
    raise Unsupported("timedelta of %s" % type(o))


class SymDate:
    """y, m, d symbolic; ordinal term derived (or given)"""
    _vp_symbolic = True
    _vp_date = True

    def __init__(self, y, m, d, ordn=None):
        self.year, self.month, self.day = _i(y), _i(m), _i(d)
        self._o = ordn

    @property
    def o(self):
        if self._o is None:
            self._o = ordinal(self.year, self.month, self.day)
        return self._o

    @staticmethod
    def from_ordinal(o, base="D"):
        """date with a given ordinal: fresh y,m,d constrained by the ordinal definition"""
        o = _i(o)
        if t.isc(o.t):
            d = _dt.date.fromordinal(int(o))
            return SymDate(d.year, d.month, d.day, o)
        return OrdDate(o)

    def _vp_ite(self, c, other):
        other = as_date(other)
        if isinstance(other, NaTType):
            return self if bool(c) else other
        if other.null is not None:
            return other._vp_ite(Not(SymBool(term(c))), self)
        return SymDate(If(c, self.year, other.year), If(c, self.month, other.month), If(c, self.day, other.day),
                       If(c, self.o, other.o))

    def __repr__(self):
        return "SymDate(%s)" % t.show(term(self.o), 3)

    def __sub__(self, x):
        if getattr(x, "_vp_array", False) or getattr(x, "_vp_series", False):
            return NotImplemented
        if isinstance(x, (SymDate, _dt.date, _np.datetime64)):
            return SymDelta(self.o - as_date(x).o)
        if hasattr(x, "_vp_sub_from"):
            return x._vp_sub_from(self)
        return SymDate.from_ordinal(self.o - as_delta(x).days)

    def __rsub__(self, x):
        return as_date(x) - self

    def __add__(self, x):
        if getattr(x, "_vp_array", False) or getattr(x, "_vp_series", False):
            return NotImplemented
        if hasattr(x, "_vp_add_to"):
            return x._vp_add_to(self)
        return SymDate.from_ordinal(self.o + as_delta(x).days)
    __radd__ = __add__

    null = None

    def _c(self, x, f):
        if getattr(x, "_vp_array", False) or getattr(x, "_vp_series", False):
            return NotImplemented
        if x is None:
            return NotImplemented
        x = as_date(x)
        if isinstance(x, NaTType):
            return SymBool(t.FALSE)
        r = f(self.o, x.o)
        for d in (self, x):
            if d.null is not None:
                r = And(Not(d.null), r)
        return r

    def __lt__(self, x): return self._c(x, lambda a, b: a < b)
    def __le__(self, x): return self._c(x, lambda a, b: a <= b)
    def __gt__(self, x): return self._c(x, lambda a, b: a > b)
    def __ge__(self, x): return self._c(x, lambda a, b: a >= b)

    def __eq__(self, x):
        if x is None or isinstance(x, (str, NaTType)):
            return False
        return self._c(x, lambda a, b: a == b)

    def __ne__(self, x):
        if x is None or isinstance(x, (str, NaTType)):
            return True
        r = self._c(x, lambda a, b: a == b)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return hash(term(self.o))

    def to_pydatetime(self): return self
    def date(self): return self
    def to_datetime64(self): return self
    def astype(self, *a): return self
    def to_numpy(self): return self
    def normalize(self): return self
    def strftime(self, f): return "<date>"
    def toordinal(self): return self.o
    def item(self): return self

    def __str__(self):
        return "<date>"

    def __format__(self, f):
        return "<date>"

    @property
    def value(self):
        return self.o * 86400 * 10 ** 9

    @property
    def is_month_end(self):
        return self.day == self.days_in_month

    @property
    def is_leap_year(self):
        return isleap(self.year)

    @property
    def days_in_month(self):
        return dim(self.year, self.month)

    def weekday(self):
        return (self.o + 6) % 7
    dayofweek = property(weekday)

    def replace(self, year=None, month=None, day=None, **k):
        y = self.year if year is None else _i(year)
        m = self.month if month is None else _i(month)
        if day is not None and not isinstance(day, (int, _np.integer, Sym)):
            raise TypeError("an integer is required")
        d = self.day if day is None else _i(day)
        if not bool(And(m >= 1, m <= 12, d >= 1, d <= dim(y, m))):
            raise ValueError("day is out of range for month")
        return SymDate(y, m, d)


class OrdDate(SymDate):
    """date known by its ordinal; y/m/d materialised on demand"""

    def __init__(self, o):
        self._o = o
        self._ymd = None

    def _mat(self):
        if self._ymd is None:
            k = self._o.t.id
            y, m, d = I("y@%d" % k), I("m@%d" % k), I("d@%d" % k)
            ctx = Ctx.cur
            if ctx is None:
                raise Unsupported("date fields outside exploration")
            ctx.assume(And(m >= 1, m <= 12, d >= 1, d <= dim(y, m), y >= 1))
            ctx.assume(ordinal(y, m, d) == self._o)
            self._ymd = (y, m, d)
        return self._ymd

    year = property(lambda s: s._mat()[0])
    month = property(lambda s: s._mat()[1])
    day = property(lambda s: s._mat()[2])


class NullDate(OrdDate):
    """an entry of a date column that may be missing: `null` is the condition that it is NaT"""

    def __init__(self, o, null):
        super().__init__(o)
        self.null = null if isinstance(null, SymBool) else SymBool(term(null))

    def _vp_ite(self, c, other):
        n = SymBool(t.TRUE) if isinstance(other, NaTType) else getattr(other, "null", None) or SymBool(t.FALSE)
        o = self.o if isinstance(other, NaTType) else If(c, self.o, as_date(other).o)
        ct = term(c)
        n = SymBool(t.subst(n.t, {ct: t.FALSE}))
        if t.subst(self.null.t, {ct: t.TRUE}) is t.FALSE and n.t is t.FALSE:
            return SymDate.from_ordinal(o)
        return NullDate(o, SymBool(t.ite(term(c), self.null.t, n.t)))

    def _no(self, *a):
        raise Unsupported("arithmetic on a date that may be missing")
    __add__ = __radd__ = __sub__ = __rsub__ = weekday = _no


class NaTType:
    def __eq__(self, o): return False
    def __ne__(self, o): return True
    def __lt__(self, o): return False
    __le__ = __gt__ = __ge__ = __lt__
    def __hash__(self): return 0


NAT = NaTType()


def as_date(x):
    if isinstance(x, (SymDate, NaTType)):
        return x
    if isinstance(x, _dt.date):
        return SymDate(x.year, x.month, x.day)
    if isinstance(x, _np.datetime64):
        import pandas as pd
        return as_date(pd.Timestamp(x))
    raise Unsupported("date of %s" % type(x))


def date_var(name, lo=1901, hi=2199):
    """free date; returns (SymDate, facts)"""
    y, m, d = I(name + ".y"), I(name + ".m"), I(name + ".d")
    facts = [And(y >= lo, y <= hi, m >= 1, m <= 12, d >= 1, d <= dim(y, m)).t]
    return SymDate(y, m, d), facts


def date_array(name, n, lo=1901, hi=2199):
    """array of dates of symbolic length n; returns (GArr, inst functions)"""
    from .npmodel import GArr

    def comp(ix, c):
        return Sym(t.mk("sel", (name + c,) + tuple(ix), "I"))

    def e(ix):
        return SymDate(comp(ix, ".y"), comp(ix, ".m"), comp(ix, ".d"))

    def inst(u):
        ix = u.args[1:]
        y, m, d = comp(ix, ".y"), comp(ix, ".m"), comp(ix, ".d")
        return [And(y >= lo, y <= hi, m >= 1, m <= 12, d >= 1, d <= dim(y, m))]
    return GArr((n,), e, kind="D"), [(name + c, inst) for c in (".y", ".m", ".d")]


def add_months(sd, k):
    """sd + k months, day clipped to month end (pandas DateOffset(months=k) semantics)"""
    k = _i(k)
    tot = sd.year * 12 + sd.month - 1 + k
    y, m = tot // 12, tot % 12 + 1
    dm = dim(y, m)
    return SymDate(y, m, If(sd.day <= dm, sd.day, dm))


class SymOffset:
    _vp_symbolic = True

    def __init__(self, years=0, months=0, weeks=0, days=0, day=None):
        c = lambda v: int(t.cv(v.t)) if isinstance(v, Sym) and t.isc(v.t) else v
        self.years, self.months, self.weeks, self.days, self.dayrepl = c(years), c(months), c(weeks), c(days), day
        self.kwds = {k: v for k, v in (("years", self.years), ("months", self.months), ("weeks", self.weeks), ("days", self.days)) if not (isinstance(v, int) and v == 0)}

    def __eq__(self, o):
        if not isinstance(o, SymOffset):
            return NotImplemented
        return And(*[_i(a) == _i(b) for a, b in zip((self.years, self.months, self.weeks, self.days), (o.years, o.months, o.weeks, o.days))])

    __hash__ = None

    def _vp_add_to(self, d, sign=1):
        r = d
        mm = self.years * 12 + self.months
        if not (isinstance(mm, int) and mm == 0):
            r = add_months(d, sign * mm)
        dd = self.weeks * 7 + self.days
        if not (isinstance(dd, int) and dd == 0):
            r = SymDate.from_ordinal(r.o + sign * dd)
        return r

    def _vp_sub_from(self, d):
        return self._vp_add_to(d, -1)

    def __radd__(self, d):
        return self._vp_add_to(as_date(d))

    def __rsub__(self, d):
        return self._vp_sub_from(as_date(d))

    def __mul__(self, k):
        return SymOffset(self.years * k, self.months * k, self.weeks * k, self.days * k)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1
