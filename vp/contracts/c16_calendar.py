from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR
from ..lift import vp_len
import numpy as np

TN, BD = "frm.utils.tenor", "frm.utils.business_day_calendar"
CAL = np.busdaycalendar()


# ---------------------------------------------------------------- tenor strings
# A numeral is written with the Arabic-Indic digit zero, which stands for "any natural number": re's \d and str methods treat it as a digit
# like any other, and int() of it is a free variable.
NUM = {k: "٠" * n for k, n in (("a", 1), ("b", 2), ("c", 3))}


def tenor_contract(name, build_s, want):
    def build(k):
        f, cl = k.fn(TN + ".tenor_to_date_offset"), k.fn(TN + ".clean_tenor")

        def run_for(s):
            def run():
                vals = {v: I("n_" + n) for n, v in NUM.items()}
                Ctx.cur.store["numerals"] = vals
                N = {n: vals[v] for n, v in NUM.items()}
                o = f(cl(s))
                d, fd = D.date_var("d", 1950, 2100)
                for x in fd:
                    Ctx.cur.assume(x)
                y, m, w, dd = want(N)
                k.ensure("months of the offset", Eq(o.years * 12 + o.months, y * 12 + m))
                k.ensure("days of the offset", Eq(o.weeks * 7 + o.days, w * 7 + dd))
                k.ensure("no day replacement", C(1 if o.dayrepl is None else 0) == 1)
            return run
        for s in build_s():
            k.verify(s.replace("٠", "#"), run_for(s), [], raises=None)
    return Contract("tenor " + name, [TN + ".clean_tenor", TN + ".tenor_to_date_offset"], build)


def tenors():
    out = []
    for nm_, units, slot in (("days", ("d", "D", "day", "Days", "DAYS"), 3), ("weeks", ("w", "W", "week", "WEEKS"), 2), ("months", ("m", "M", "mon", "month", "Months"), 1), ("years", ("y", "Y", "yr", "YRS", "year", "Years"), 0)):
        for q in "abc":
            out.append(tenor_contract("%s %s" % (nm_, q), lambda units=units, q=q: [NUM[q] + sp + u for sp in ("", " ") for u in units],
                                      lambda N, q=q, slot=slot: tuple(N[q] if i == slot else 0 for i in range(4))))
    out.append(tenor_contract("years and months", lambda: [NUM["a"] + u + NUM["b"] + v for u, v in (("y", "m"), ("Y", "M"), (" years ", " months"), ("yr", "mon"), ("Yrs ", "MONTH"))],
                              lambda N: (N["a"], N["b"], 0, 0)))
    for nm_, names, days in (("overnight", ("on", "ON", "o/n", "O/N", "overnight"), 1), ("tomorrow next", ("tn", "T/N", "tom next", "Tomorrow Next"), 2), ("spot", ("sp", "SP", "spot"), 0), ("spot next", ("sn", "S/N", "Spot Next"), 1)):
        out.append(tenor_contract(nm_, lambda names=names: names, lambda N, days=days: (0, 0, 0, days)))
    return out


def tenor_reject():
    def build(k):
        f, cl = k.fn(TN + ".tenor_to_date_offset"), k.fn(TN + ".clean_tenor")
        for s in ("", "m", "x٠", "٠", "٠q", "٠m٠y", "-٠d", "٠.٠y", "٠d٠", "٠y٠"):
            def run(s=s):
                Ctx.cur.store["numerals"] = {}
                f(cl(s))
                k.ensure("not a tenor: refused", C(0) == 1)
            k.verify("[%s]" % s.replace("٠", "#"), run, [], raises=lambda e: isinstance(e, ValueError), expect_paths=0)
    return Contract("tenor refused", [TN + ".tenor_to_date_offset"], build)


# ---------------------------------------------------------------- business day arithmetic
def any_date(name):
    o = I(name)
    return D.SymDate.from_ordinal(o), [(o >= 711858).t, (o <= 767010).t]


def B_(x, k, cal=CAL):
    return FR.busadd(x, k, cal)


def first_bd(d, how="following"):
    return FR.roll(d, how, CAL)


def implied():
    def build(k):
        f = k.fn(TN + ".calc_implied_business_day_offset")
        d, fd = any_date("d")
        o, fo = any_date("o")

        def run():
            S = first_bd(d)
            Ctx.cur.store["while_inv"] = lambda i: {"date": D.SymDate.from_ordinal(B_(S, i))}
            n = f(d, o, CAL)
            k.ensure("not negative", n >= 0)
            k.ensure("that many business days reach the date", B_(S, n) >= o.o)
            if bool(n >= 1):
                k.ensure("one fewer does not", B_(S, n - 1) < o.o)
        k.verify("any dates", run, fd + fo + [(d.o <= o.o).t], raises=None)

        def run2():
            S = first_bd(d)
            m = I("m")
            Ctx.cur.assume(m >= 0)
            Ctx.cur.store["while_inv"] = lambda i: {"date": D.SymDate.from_ordinal(B_(S, i))}
            n = f(d, D.SymDate.from_ordinal(B_(S, m)), CAL)
            k.ensure("inverse of adding business days", Eq(n, m))
        k.verify("business day", run2, fd, raises=None)
    return Contract("calc_implied_business_day_offset", [TN + ".calc_implied_business_day_offset"], build)


def resolve():
    def build(k):
        f = k.fn(TN + ".resolve_fx_curve_dates")
        M = k.L.load(TN)
        d, fd = any_date("d")
        s = I("s")
        mk = D.SymDate.from_ordinal

        def implied_c(date=None, offset_date=None, cal=None):
            """callee contract of calc_implied_business_day_offset (discharged above)"""
            if not bool(date.o <= offset_date.o):
                raise AssertionError("date must be less than or equal to offset_date")
            S = first_bd(date)
            n = Sym(Ctx.cur.fresh("implied", "I"))
            Ctx.cur.assume(And(n >= 0, B_(S, n) >= offset_date.o))
            if bool(n >= 1):
                Ctx.cur.assume(B_(S, n - 1) < offset_date.o)
            return n

        def check(label, run, pre, **kw):
            def go():
                with patched(M, calc_implied_business_day_offset=implied_c):
                    run()
            k.verify(label, go, pre, **{"raises": None, **kw})

        def from_curve():
            c, off, sp = f("eurusd", CAL, curve_date=d, spot_offset=s)
            k.ensure("curve date as given", Eq(c.o, d.o))
            k.ensure("offset as given", Eq(off, s))
            k.ensure("spot date is the offset's business days after the curve date", Eq(sp.o, B_(first_bd(d), s)))
        check("curve date and offset", from_curve, fd + [(s >= 0).t])

        def default(pair, n):
            def run():
                c, off, sp = f(pair, CAL, curve_date=d)
                k.ensure("market offset", Eq(off, n))
                k.ensure("spot date", Eq(sp.o, B_(first_bd(d), n)))
                c, off, sp = f(pair, CAL, spot_date=d)
                k.ensure("market offset (spot date given)", Eq(off, n))
                k.ensure("curve date", Eq(c.o, B_(first_bd(d, "preceding"), -n)))
            return run
        check("curve date, usdcad", default("usdcad", 1), fd)
        check("curve date, audusd", default("audusd", 2), fd)

        def from_spot():
            c, off, sp = f("eurusd", CAL, spot_date=d, spot_offset=s)
            k.ensure("spot date as given", Eq(sp.o, d.o))
            k.ensure("curve date is that many business days before", Eq(c.o, B_(first_bd(d, "preceding"), -s)))
            c2, off2, sp2 = f("eurusd", CAL, curve_date=c, spot_offset=s)
            k.ensure("and the spot date of that curve date is the given one", Eq(sp2.o, first_bd(d, "preceding")))
        check("spot date and offset", from_spot, fd + [(s >= 0).t])

        def both():
            S = first_bd(d)
            Ctx.cur.assume(s >= 0)
            sp0 = mk(B_(S, s))
            c, off, sp = f("eurusd", CAL, curve_date=d, spot_date=sp0)
            k.ensure("the offset is the number of business days", Eq(off, s))
            k.ensure("dates as given", And(Eq(c.o, d.o), Eq(sp.o, sp0.o)))
            c, off, sp = f("eurusd", CAL, curve_date=d, spot_date=sp0, spot_offset=s)
            k.ensure("consistent dates and offset accepted", And(Eq(off, s), Eq(c.o, d.o), Eq(sp.o, sp0.o)))
        check("both dates", both, fd + [(s >= 0).t])

        def wrong():
            S = first_bd(d)
            u = I("u")
            Ctx.cur.assume(And(s >= 0, Not(Eq(u, s))))
            f("eurusd", CAL, curve_date=d, spot_date=mk(B_(S, s)), spot_offset=u)
            k.ensure("inconsistent offset refused", C(0) == 1)
        check("inconsistent", wrong, fd + [(s >= 0).t], raises=lambda e: isinstance(e, ValueError), expect_paths=0)
    return Contract("resolve_fx_curve_dates", [TN + ".resolve_fx_curve_dates", TN + ".check_day_offset_consistency"], build)


def workdays():
    def build(k):
        f = k.fn(TN + ".workday")
        d, fd = any_date("d")
        s = I("s")

        def scalar():
            r = f(d, s, CAL)
            k.ensure("s business days from the first business day on or after the date", Eq(D.as_date(r).o, B_(first_bd(d), s)))
        k.verify("timestamp", scalar, fd, raises=None)

        def vector():
            n = I("n")
            Ctx.cur.assume(n >= 1)
            A, inst = D.date_array("a", n, 1950, 2100)[:2]
            r = f(A, s, CAL)
            i = I("i")
            Ctx.cur.assume(And(i >= 0, i < n))
            k.ensure("one date per date", Eq(Sym(term(vp_len(r))), n))
            k.ensure("each s business days on", Eq(D.as_date(r.at((i.t,))).o, B_(first_bd(D.as_date(A.at((i.t,)))), s)))
        k.verify("dates", vector, [], raises=None)
    return Contract("workday", [TN + ".workday"], build)


LAG1 = ("cad", "php", "rub", "try")
CCYS = ("aud", "brl", "cad", "chf", "cnh", "czk", "eur", "gbp", "inr", "jpy", "krw", "mxn", "nok", "nzd", "php", "rub", "sek", "try", "usd", "zar")


def lags():
    def build(k):
        f = k.fn(TN + ".get_fx_spot_day_offset")

        def run():
            for a in CCYS:
                for b in CCYS:
                    if a != b:
                        k.ensure("spot lag %s%s" % (a, b), Eq(f(a + b), 1 if "usd" in (a, b) and (a in LAG1 or b in LAG1) else 2))
        k.verify("pairs", run, [], raises=None)
        h = k.fn(TN + ".get_ir_settlement_offset")

        def rates():
            for a in CCYS:
                k.ensure("settlement lag of %s rates" % a, Eq(h(a), 0 if a == "gbp" else 2))
        k.verify("rates", rates, [], raises=None)
        g = k.fn(BD + ".convert_weekend_to_weekmask")

        def masks():
            import itertools
            for r in range(8):
                for w in itertools.combinations(range(7), r):
                    k.ensure("weekmask %r" % (w,), C(1 if g(set(w)) == "".join("0" if i in w else "1" for i in range(7)) else 0) == 1)
        k.verify("weekmask of every set of days", masks, [], raises=None)
    return Contract("settlement lags and week masks", [TN + ".get_fx_spot_day_offset", BD + ".convert_weekend_to_weekmask"], build)


class Holidays(dict):
    """a calendar as the holidays package gives it: a mapping of dates, with its weekend days"""

    def __init__(self, weekend, days):
        super().__init__((d, "holiday") for d in days)
        self.weekend = set(weekend)


def joint():
    """the calendar of one to four currencies: closed on the holidays and the weekend days of each (weekends and key forms enumerated)"""
    def build(k):
        import itertools, datetime
        m = k.L.load(BD)
        H = [[datetime.date(2024, 3, 4 + 7 * j), datetime.date(2024, 3, 5 + 7 * j)] for j in range(4)] 
        days = [datetime.date(2024, 3, 1) + datetime.timedelta(days=j) for j in range(42)]
        W = ((5, 6), (4, 5), (6,), (), (2, 4))
        NAMES = ("aaa", "BBB", "cCc", "ddd")

        def one(ws, form):
            def run():
                objs = {n.upper(): Holidays(w, H[j]) for j, (n, w) in enumerate(zip(NAMES, ws))}
                asked = []

                def get(key):
                    """callee contract: the holidays of a currency or locale"""
                    asked.append(key)
                    return objs[key.upper()]
                names = list(NAMES[:len(ws)])
                keys = names[0] if form == "text" else names + names[:1] if form == "repeated" else names
                with patched(m, get_holidays_object=get):
                    cal = m.get_busdaycal(keys)
                ok = all(bool(np.is_busday(np.datetime64(d), busdaycal=cal)) == all(d.weekday() not in w and d not in H[j] for j, w in enumerate(ws)) for d in days)
                k.ensure("closed exactly on the holidays and weekend days of each", C(1 if ok else 0) == 1)
                k.ensure("looked up in upper case", C(1 if all(a == a.upper() for a in asked) else 0) == 1)
                k.ensure("the names given are unchanged", C(1 if form == "text" or keys[:len(names)] == names else 0) == 1)
            return run
        for n in (1, 2, 3):
            for ws in itertools.product(W, repeat=n):
                k.verify("weekends %r" % (ws,), one(ws, "list"), [], raises=None)
        for ws in itertools.permutations(W, 4):
            k.verify("weekends %r" % (ws,), one(ws, "list"), [], raises=None)
        for w in W:
            k.verify("weekend %r, a name alone" % (w,), one((w,), "text"), [], raises=None)
            k.verify("weekend %r, a name twice" % (w,), one((w, W[0]), "repeated"), [], raises=None)
    return Contract("joint calendars", [BD + ".get_busdaycal", BD + ".convert_weekend_to_weekmask"], build, scope="up to 4 calendars, weekends enumerated", limit=600)


# ---------------------------------------------------------------- run-time conformance
def gen_cal(rng):
    import frm.utils.business_day_calendar as B
    keys = sorted(B.CCY_HOLIDAY) + sorted(B.LOCALE_HOLIDAY)
    odd = [x for x in keys if (B.CCY_HOLIDAY.get(x) if x in B.CCY_HOLIDAY else B.LOCALE_HOLIDAY[x]).weekend != {5, 6}]
    ks = [rng.choice(odd) if odd and rng.random() < .3 else rng.choice(keys) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    ks = [rng.choice([k, k.lower(), k.upper()]) for k in ks]
    return {"keys": ks, "single": len(ks) == 1 and rng.random() < .5, "days": [726000 + rng.randrange(38000) for _ in range(60)]}


def check_cal(c):
    import datetime
    import frm.utils.business_day_calendar as B
    cal = B.get_busdaycal(c["keys"][0] if c["single"] else list(c["keys"]))
    table = {k.upper(): v for k, v in list(B.LOCALE_HOLIDAY.items()) + list(B.CCY_HOLIDAY.items())}
    objs = [table[k.upper()] for k in c["keys"]]
    days = [datetime.date.fromordinal(o) for o in c["days"]] + [d for o in objs for d in list(o)[:: max(1, len(o) // 20)]]
    for d in days:
        if d.year < 1990 or d.year > 2099:
            continue
        e = all(d not in set(o.keys()) and d.weekday() not in o.weekend for o in objs)
        if bool(np.is_busday(np.datetime64(d), busdaycal=cal)) != e:
            return "%s is %sa business day of %s" % (d, "" if not e else "not ", c["keys"])


def gen_off(rng):
    return {"d": 715000 + rng.randrange(40000), "k": rng.randrange(0, 30), "week": rng.choice(["1111100", "1111001", "1111111"]), "hol": [rng.randrange(60) for _ in range(rng.choice([0, 4, 20]))], "j": rng.randrange(0, 4)}


def check_off(c):
    import datetime, pandas as pd
    import frm.utils.tenor as T
    D_ = datetime.date.fromordinal
    hol = {D_(c["d"] + h) for h in c["hol"]}
    cal = np.busdaycalendar(weekmask=c["week"], holidays=sorted(hol))
    good = lambda d: c["week"][d.weekday()] == "1" and d not in hol
    one = datetime.timedelta(days=1)

    def step(d, k, s=1):
        while not good(d):
            d += s * one
        for _ in range(k):
            d += s * one
            while not good(d):
                d += s * one
        return d
    d, ts = D_(c["d"]), pd.Timestamp(D_(c["d"]))
    k = c["k"]
    if pd.Timestamp(T.workday(ts, k, cal)).date() != step(d, k):
        return "workday(%s, %d) = %s" % (d, k, T.workday(ts, k, cal))
    sp = step(d, k)
    n = T.calc_implied_business_day_offset(ts, pd.Timestamp(sp), cal)
    if n != k:
        return "implied offset %s to %s is %r, expected %d" % (d, sp, n, k)
    x = D_(c["d"] + k)
    n = T.calc_implied_business_day_offset(ts, pd.Timestamp(x), cal)
    if step(d, n) < x or n and step(d, n - 1) >= x:
        return "implied offset %s to %s is %r" % (d, x, n)
    r = T.resolve_fx_curve_dates("eurusd", cal, curve_date=ts, spot_offset=k)
    if r[2].date() != sp or r[1] != k:
        return "spot date of %s is %s" % (d, r)
    r = T.resolve_fx_curve_dates("eurusd", cal, spot_date=ts, spot_offset=k)
    if r[0].date() != step(d, k, -1):
        return "curve date of spot %s is %s" % (d, r)
    r = T.resolve_fx_curve_dates("eurusd", cal, curve_date=ts, spot_date=pd.Timestamp(sp), spot_offset=k)
    for m in (k + 1, k - 1):
        try:
            T.resolve_fx_curve_dates("eurusd", cal, curve_date=ts, spot_date=pd.Timestamp(sp), spot_offset=m)
            return "offset %d from %s to %s accepted" % (m, d, sp)
        except ValueError:
            pass


def gen_ten(rng):
    u = rng.choice([("d", ["d", "D", " days", "Day"]), ("w", ["w", "W", " weeks", "Week"]), ("m", ["m", "M", " months", "mon", "Month"]), ("y", ["y", "Y", " years", "yr", "YRS", "Year"]), ("ym", [])])
    return {"d": 715000 + rng.randrange(35000), "u": u[0], "n": rng.choice([0, 1, rng.randrange(100), rng.randrange(40)]), "k": rng.randrange(100), "s": rng.choice(u[1]) if u[1] else ""}


def check_ten(c):
    import datetime, calendar, pandas as pd
    import frm.utils.tenor as T
    d, n = datetime.date.fromordinal(c["d"]), c["n"]
    s = "%d%s" % (n, c["s"]) if c["u"] != "ym" else "%dY%dM" % (n, c["k"])
    m = {"m": n, "y": 12 * n, "ym": 12 * n + c["k"]}.get(c["u"], 0)
    y, mo = divmod(d.year * 12 + d.month - 1 + m, 12)
    if y > 2250:
        return None
    e = datetime.date(y, mo + 1, min(d.day, calendar.monthrange(y, mo + 1)[1])) + datetime.timedelta(days={"d": n, "w": 7 * n}.get(c["u"], 0))
    cl = T.clean_tenor(s)
    if T.clean_tenor(cl) != cl:
        return "clean_tenor(%r) = %r is not clean" % (s, cl)
    r = pd.Timestamp(d) + T.tenor_to_date_offset(cl)
    if r.date() != e:
        return "%s plus %s is %s, expected %s" % (d, s, r.date(), e)


NAMED = {"on": 1, "O/N": 1, "Overnight": 1, "tn": 2, "T/N": 2, "tom next": 2, "SP": 0, "spot": 0, "S/N": 1, "spot next": 1}


def gen_lag(rng):
    a, b = rng.sample(CCYS, 2)
    if rng.random() < .5:
        a, b = rng.sample(["usd", rng.choice(LAG1 + ("eur", "jpy"))], 2)
    return {"a": a, "b": b, "ten": rng.choice(sorted(NAMED)), "d": 715000 + rng.randrange(35000), "w": [i for i in range(7) if rng.random() < .3]}


def check_lag(c):
    import datetime, pandas as pd
    import frm.utils.tenor as T
    import frm.utils.business_day_calendar as B
    a, b = c["a"], c["b"]
    e = 1 if "usd" in (a, b) and (a in LAG1 or b in LAG1) else 2
    if T.get_fx_spot_day_offset(a + b) != e:
        return "spot lag of %s is %r, expected %d" % (a + b, T.get_fx_spot_day_offset(a + b), e)
    if T.get_ir_settlement_offset(a) != (0 if a == "gbp" else 2):
        return "settlement lag of %s rates is %r" % (a, T.get_ir_settlement_offset(a))
    d = pd.Timestamp(datetime.date.fromordinal(c["d"]))
    r = d + T.tenor_to_date_offset(T.clean_tenor(c["ten"]))
    if (r - d).days != NAMED[c["ten"]]:
        return "%s is %d days" % (c["ten"], (r - d).days)
    m = B.convert_weekend_to_weekmask(set(c["w"]))
    if m != "".join("0" if i in c["w"] else "1" for i in range(7)):
        return "week mask of weekend %r is %s" % (c["w"], m)


PROP = Prop("C16", "Tenors, business-day offsets and spot dates are consistent", contracts=tenors() + [tenor_reject(), implied(), resolve(), workdays(), lags(), joint()],
            runtimes=[Runtime("lags", gen_lag, check_lag, n=300, fn=TN + ".get_fx_spot_day_offset"), Runtime("calendar", gen_cal, check_cal, n=40, fn=BD + ".get_busdaycal"), Runtime("offsets", gen_off, check_off, n=200, fn=TN + ".resolve_fx_curve_dates"), Runtime("tenors", gen_ten, check_ten, n=300, fn=TN + ".tenor_to_date_offset")],
            unverified=["joint calendars of more than four names (bounded enumeration)", "the holidays themselves (the holidays package)", "numerals of more than three digits in tenor strings"])
PROP.imports = [TN, BD]
