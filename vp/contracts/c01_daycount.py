from ..core import Prop, Contract, Runtime
from ..spec import *
import datetime as _dt

MOD = "frm.utils.daycount"
LO, HI = 1902, 2198


# ------------------------------------------------------------- specification (ISDA 2006 4.16, ISDA 30/360 workbook)
def s_act(a, b):
    return b.o - a.o


def eom_feb(d):
    return And(d.month == 2, d.day == D.dim(d.year, 2))


def s_30(d1, d2, a, b):
    return 360 * (b.year - a.year) + 30 * (b.month - a.month) + (d2 - d1)


def s_30_360(a, b):
    d1 = If(a.day == 31, 30, a.day)
    d2 = If(And(b.day == 31, d1 == 30), 30, b.day)
    return s_30(d1, d2, a, b)


def s_30e_360(a, b):
    return s_30(If(a.day == 31, 30, a.day), If(b.day == 31, 30, b.day), a, b)


def s_30e_isda(a, b, term_):
    d1 = If(Or(a.day == 31, eom_feb(a)), 30, a.day)
    d2 = If(Or(b.day == 31, And(eom_feb(b), Not(term_))), 30, b.day)
    return s_30(d1, d2, a, b)


def diy(y):
    return 365 + D.isleap(y).num()


def s_actact(a, b):
    """sum over calendar years of (days falling in the year)/(days in the year)"""
    nxt = D.ordinal(a.year + 1, 1, 1)
    beg = D.ordinal(b.year, 1, 1)
    return If(a.year == b.year, (b.o - a.o) / diy(a.year),
              (nxt - a.o) / diy(a.year) + (b.year - a.year - 1) + (b.o - beg) / diy(b.year))


BASES = ["ACT_360", "ACT_365", "ACT_366", "ACT_ACT", "_30_360", "_30E_360", "_30E_360_ISDA"]
DEN = {"ACT_360": 360, "ACT_365": 365, "ACT_366": 366, "_30_360": 360, "_30E_360": 360, "_30E_360_ISDA": 360}


def spec_count(bn, a, b, last):
    if bn.startswith("ACT"):
        return s_act(a, b)
    return {"_30_360": lambda: s_30_360(a, b), "_30E_360": lambda: s_30e_360(a, b), "_30E_360_ISDA": lambda: s_30e_isda(a, b, last)}[bn]()


def make(bn, shape):
    def build(k):
        f = k.fn(MOD + ".day_count")
        g = k.fn(MOD + ".year_frac")
        basis = getattr(k.fn("frm.enums.utils.DayCountBasis"), bn)
        n = I("n")
        pre, inst = [], []
        if shape == "scalar":
            a, fa = D.date_var("a", LO, HI)
            b, fb = D.date_var("b", LO, HI)
            pre += fa + fb + [(a.o <= b.o).t]
            A, B_ = a, b
            last = SymBool(t.TRUE)
            get = lambda r: r
        else:
            pre.append((n >= 2).t)
            one_a, one_b = shape == "1n", shape == "n1"
            if one_a:
                A, fa = D.date_var("a", LO, HI)
                pre += fa
            else:
                A, ia = D.date_array("A", n, LO, HI)
                inst += ia
            if one_b:
                B_, fb = D.date_var("b", LO, HI)
                pre += fb
            else:
                B_, ib = D.date_array("B", n, LO, HI)
                inst += ib
            ga = A if one_a else A.generic()
            gb = B_ if one_b else B_.generic()
            a, b = ga, gb

            def order(u):
                ix = u.args[1:]
                x = A if one_a else A.at(ix)
                y = B_ if one_b else B_.at(ix)
                return [x.o <= y.o]
            inst += [(nm_, order) for nm_, _ in list(inst)]
            last = gi(n) == n - 1
            get = lambda r: gen(r)

        def run():
            r = f(A, B_, basis)
            k.ensure("day_count == published formula", Eq(get(r), spec_count(bn, a, b, last)))
            if shape != "scalar":
                k.ensure("one value per date pair", shape_is(r, n))
            y = g(A, B_, basis)
            if bn == "ACT_ACT":
                bool(a.o < b.o)                 # split the path: equal dates / start before end
                k.ensure("year_frac == sum over calendar years", Eq(get(y), s_actact(a, b)))
            else:
                k.ensure("year_frac == day_count / denominator", Eq(get(y), spec_count(bn, a, b, last) / DEN[bn]))
        k.verify("%s/%s" % (bn, shape), run, pre, inst, replay=lambda e: replay(bn, shape, e))
        if bn == "_30E_360_ISDA":
            flag = B("is_termination")
            fl = vec("flags", n, "B", "b")

            def run2():
                if shape == "scalar":
                    r = f(A, B_, basis, flag)
                    k.ensure("termination flag honoured", Eq(get(r), s_30e_isda(a, b, flag)))
                else:
                    r = f(A, B_, basis, fl)
                    k.ensure("termination flags honoured", Eq(get(r), s_30e_isda(a, b, fl.generic())))
            k.verify("%s/%s/flag" % (bn, shape), run2, pre, inst)
    return Contract("day_count/year_frac [%s, %s]" % (bn, shape), [MOD + ".day_count", MOD + ".year_frac", MOD + ".convert_to_same_shape_datetimeindex", MOD + ".to_datetimeindex"], build)


def reject(k):
    f = k.fn(MOD + ".day_count")
    g = k.fn(MOD + ".year_frac")
    DCB = k.fn("frm.enums.utils.DayCountBasis")
    a, fa = D.date_var("a", LO, HI)
    b, fb = D.date_var("b", LO, HI)
    for bn in ("ACT_365", "_30_360", "ACT_ACT"):
        def run(bn=bn):
            (f if bn != "ACT_ACT" else g)(a, b, getattr(DCB, bn))
            k.ensure("returns only when start <= end", a.o <= b.o)
        k.verify("rejects reversed dates/" + bn, run, fa + fb, raises=lambda e: isinstance(e, AssertionError) and SymBool(t.lt(b.o.t, a.o.t)))


def lemmas(k):
    a, fa = D.date_var("a", LO, HI)
    b, fb = D.date_var("b", LO, HI)
    c, fc = D.date_var("c", LO, HI)
    pre = fa + fb + fc + [(a.o <= b.o).t, (b.o <= c.o).t]
    k.check_goal("ACT counts add up over adjacent periods", pre, Eq(s_act(a, b) + s_act(b, c), s_act(a, c)))
    k.check_goal("zero length period counts zero (30/360)", fa, Eq(s_30_360(a, a), 0))
    k.check_goal("zero length period counts zero (30E/360)", fa, Eq(s_30e_360(a, a), 0))
    k.check_goal("ACT/ACT zero length", fa, Eq(s_actact(a, a), 0))
    k.check_goal("ACT/ACT non-negative", fa + fb + [(a.o <= b.o).t, (a.year == b.year).t], C(0) <= s_actact(a, b))


def d2l(d):
    return [d.year, d.month, d.day]


def replay(bn, shape, e):
    def g(base):
        y, m, d = [int(e.get1(base + c)) for c in (".y", ".m", ".d")]
        return [y, m, d]
    a = g("a" if shape in ("scalar", "1n") else "A")
    b = g("b" if shape in ("scalar", "n1") else "B")
    return {"kind": "formula", "args": {"basis": bn, "a": [a], "b": [b], "shape": shape, "type": "ts", "flag": None}}


# ------------------------------------------------------------- run-time contract
def o_count(bn, a, b, last):
    if bn.startswith("ACT"):
        return (b - a).days
    def lf(d):
        return d.month == 2 and (d + _dt.timedelta(days=1)).month == 3
    if bn == "_30_360":
        d1 = min(a.day, 30)
        d2 = 30 if (b.day == 31 and d1 == 30) else b.day
    elif bn == "_30E_360":
        d1, d2 = min(a.day, 30), min(b.day, 30)
    else:
        d1 = 30 if a.day == 31 or lf(a) else a.day
        d2 = 30 if b.day == 31 or (lf(b) and not last) else b.day
    return 360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1


def o_frac(bn, a, b, last):
    if bn != "ACT_ACT":
        return o_count(bn, a, b, last) / DEN[bn]
    tot = 0.0
    for y in range(a.year, b.year + 1):
        lo = max(a, _dt.date(y, 1, 1))
        hi = min(b, _dt.date(y + 1, 1, 1))
        if hi > lo:
            tot += (hi - lo).days / ((_dt.date(y + 1, 1, 1) - _dt.date(y, 1, 1)).days)
    return tot


def rdate(rng, lo=1950, hi=2099):
    while True:
        r = rng.random()
        try:
            if r < 0.35:
                m = rng.choice([1, 2, 2, 2, 3, 12])
                return _dt.date(rng.randint(lo, hi), m, rng.choice([1, 28, 29, 30, 31]))
            if r < 0.6:
                d = _dt.date(rng.randint(lo, hi), rng.randint(1, 12), 1) - _dt.timedelta(days=1)
                return d
            return _dt.date(rng.randint(lo, hi), rng.randint(1, 12), rng.randint(1, 28))
        except ValueError:
            continue


def gen_case(rng):
    shape = rng.choice(["scalar", "nn", "1n", "n1"])
    n = 1 if shape == "scalar" else rng.randint(2, 5)
    same = rng.random() < 0.3
    A, B_ = [], []
    for _ in range(n):
        a = rdate(rng)
        b = rdate(rng, a.year, min(a.year + (0 if same else rng.choice([0, 1, 2, 30])), 2099)) if rng.random() < .9 else a
        if b < a:
            a, b = b, a
        A.append(a)
        B_.append(b)
    if shape == "1n":
        A = [min(A)]
    if shape == "n1":
        B_ = [max(B_)]
    m = max(len(A), len(B_))
    flag = None
    if rng.random() < 0.3:
        flag = [rng.random() < .5 for _ in range(m)]
    return {"basis": rng.choice(BASES), "a": [d2l(x) for x in A], "b": [d2l(x) for x in B_], "shape": shape,
            "type": rng.choice(["ts", "dti", "list", "series", "date", "datetime", "dt64"]), "flag": flag}


def conv(xs, scalar, ty):
    import pandas as pd, numpy as np
    ts = [pd.Timestamp(*x) for x in xs]
    if scalar:
        return {"ts": ts[0], "dti": ts[0], "list": ts[0], "series": ts[0], "date": _dt.date(*xs[0]), "datetime": _dt.datetime(*xs[0]),
                "dt64": np.datetime64(_dt.date(*xs[0]))}[ty]
    return {"series": pd.Series(ts), "list": ts}.get(ty, pd.DatetimeIndex(ts))


def check_case(c):
    import numpy as np
    from frm.utils.daycount import day_count, year_frac
    from frm.enums import DayCountBasis
    bn = c["basis"]
    basis = getattr(DayCountBasis, bn)
    A = [_dt.date(*x) for x in c["a"]]
    B_ = [_dt.date(*x) for x in c["b"]]
    m = max(len(A), len(B_))
    sc = c["shape"] == "scalar"
    ra = conv(c["a"], len(A) == 1 and c["shape"] in ("scalar", "1n"), c["type"])
    rb = conv(c["b"], len(B_) == 1 and c["shape"] in ("scalar", "n1"), c["type"])
    if len(A) == 1:
        A = A * m
    if len(B_) == 1:
        B_ = B_ * m
    flags = c["flag"]
    kw = {} if flags is None else {"is_end_date_on_termination": (flags[0] if sc else flags)}
    eff = flags if flags is not None else [i == m - 1 for i in range(m)]
    got = np.atleast_1d(np.asarray(day_count(ra, rb, basis, **kw)))
    exp_ = [o_count(bn, a, b, l) for a, b, l in zip(A, B_, eff)]
    if len(got) != m or [int(x) for x in got] != exp_:
        return "day_count(%s, %s, %s) = %s, published formula gives %s" % (c["a"], c["b"], bn, list(got), exp_)
    gy = np.atleast_1d(np.asarray(year_frac(ra, rb, basis, **kw)))
    ey = [o_frac(bn, a, b, l) for a, b, l in zip(A, B_, eff)]
    if len(gy) != m or not all(close(x, y, 1e-12, 1e-12) for x, y in zip(gy, ey)):
        return "year_frac(%s, %s, %s) = %s, formula gives %s" % (c["a"], c["b"], bn, list(gy), ey)
    return None


def gen_rej(rng):
    a, b = rdate(rng), rdate(rng)
    if a == b:
        return None
    return {"a": d2l(max(a, b)), "b": d2l(min(a, b)), "basis": rng.choice(BASES)}


def check_rej(c):
    import pandas as pd
    from frm.utils.daycount import day_count, year_frac
    from frm.enums import DayCountBasis
    for f in (day_count, year_frac):
        try:
            r = f(pd.Timestamp(*c["a"]), pd.Timestamp(*c["b"]), getattr(DayCountBasis, c["basis"]))
        except Exception:
            continue
        return "%s accepted start after end: %r -> %r" % (f.__name__, c, r)


CORN = []
for bn in BASES:
    for a, b in [((2024, 2, 29), (2024, 3, 31)), ((2023, 2, 28), (2024, 2, 29)), ((2024, 1, 31), (2024, 1, 31)), ((2023, 12, 31), (2024, 12, 31)),
                 ((2023, 1, 31), (2023, 2, 28)), ((2023, 6, 30), (2023, 7, 31)), ((2019, 7, 1), (2021, 7, 1)), ((2000, 2, 29), (2100, 2, 28)),
                 ((2024, 1, 1), (2024, 12, 31)), ((2024, 1, 1), (2025, 1, 1))]:
        for fl in (None, [True], [False]):
            CORN.append({"basis": bn, "a": [list(a)], "b": [list(b)], "shape": "scalar", "type": "ts", "flag": fl})

PROP = Prop("C01", "Day counts and year fractions follow the published conventions",
            contracts=[make(bn, s) for bn in BASES for s in ("scalar", "nn", "1n", "n1")] + [
                Contract("day_count rejects start > end", [MOD + ".day_count", MOD + ".year_frac"], reject),
                Contract("day count lemmas", "lemma", lemmas, lemma=True)],
            runtimes=[Runtime("formula", gen_case, check_case, n=1200, corners=CORN, fn=MOD + ".day_count"),
                      Runtime("reversed", gen_rej, check_rej, n=100, fn=MOD + ".day_count")])
PROP.imports = ["frm.utils.daycount"]
