from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR
from ..lift import DF, Series, SymList, vp_len
import numpy as np

MOD = "frm.utils.schedule"
FREQ = {"DAILY": ("d", 1), "WEEKLY": ("d", 7), "_28_DAYS": ("d", 28), "MONTHLY": ("m", 1), "QUARTERLY": ("m", 3), "SEMIANNUAL": ("m", 6), "ANNUAL": ("m", 12)}
ROLL = ("UNADJUSTED", "FOLLOWING", "PRECEDING", "MODIFIED_FOLLOWING", "MODIFIED_PRECEDING")
CAL = np.busdaycalendar()


# ---------------------------------------------------------------- specification
def s_step(d, fr, k):
    """k whole periods from d: days, or months with the day clipped to the month (each counted from d)"""
    u, m = FREQ[fr]
    return D.SymDate.from_ordinal(d.o + m * k) if u == "d" else D.add_months(d, m * k)


def s_dayroll(d, dr):
    if dr == "UNADJUSTED":
        return d
    dm = D.dim(d.year, d.month)
    return D.SymDate(d.year, d.month, dm if dr == "EOM" else If(dm < int(dr), dm, int(dr)))


def s_roll(d, rc):
    return d if rc == "UNADJUSTED" else D.SymDate.from_ordinal(FR.roll(d, rc.lower().replace("_", ""), CAL))


def s_date(anchor, fr, dr, rc, k):
    return s_roll(s_dayroll(s_step(anchor, fr, k), dr), rc)


def gen_contract(fr, direction, rc, dr, flag):
    def build(k):
        f = k.fn(MOD + ".generate_date_schedule")
        E_ = lambda n: k.fn("frm.enums.utils." + n)
        freq, RC = getattr(E_("PeriodFreq"), fr), getattr(E_("RollConv"), rc)
        DRo = getattr(E_("DayRoll"), dr if dr in ("UNADJUSTED", "EOM") else "_" + dr)
        a, fa = D.date_var("a", 1950, 2100)
        b, fb = D.date_var("b", 1950, 2100)
        pre = fa + fb + [(a.o < b.o).t]
        p = I("p")
        back = direction == "backward"

        def run(mode):
            def go():
                Ctx.cur.store["while_p"] = mode
                st, en = f(a, b, freq, direction, RC, DRo, flag, CAL)
                S, T_ = (s_roll(a, rc), s_roll(b, rc)) if flag else (a, b)
                n = vp_len(st)
                n = n if isinstance(n, int) else Sym(term(n))
                k.ensure("as many starts as ends", Eq(n, Sym(nm.dim_term(nm.norm_dim(vp_len(en))))))
                g = lambda L, i: L[int(i)] if isinstance(L, list) else L.at(term(i))
                F = lambda j: s_date(b if back else a, fr, dr, rc, -(j + 1) if back else j + 1)
                k.ensure("first period starts at the start date", Eq(g(st, 0).o, S.o))
                k.ensure("last period ends at the end date", Eq(g(en, n - 1).o, T_.o))
                w = Ctx.cur.store.get("whiles")
                if w:
                    q = w[0].p
                    m = n - 1
                    k.ensure("one date per iteration", Eq(m, w[0].n))
                    k.ensure("the dates lie strictly inside the schedule", And(F(q).o > a.o) if back else And(F(q).o < b.o))
                    if back:
                        k.ensure("period end = regular date counted from the end date", Eq(g(en, m - 1 - q).o, F(q).o))
                        k.ensure("period start = regular date counted from the end date", Eq(g(st, m - q).o, F(q).o))
                    else:
                        k.ensure("period end = regular date counted from the start date", Eq(g(en, q).o, F(q).o))
                        k.ensure("period start = regular date counted from the start date", Eq(g(st, q + 1).o, F(q).o))
                    if mode == "last":
                        k.ensure("no regular date is missing", F(q + 1).o <= a.o if back else F(q + 1).o >= b.o)
                else:
                    k.ensure("no regular date is missing", F(0).o <= a.o if back else F(0).o >= b.o)
            return go
        k.verify("any date", run(p), pre, raises=None)
        k.verify("last date", run("last"), pre, raises=None)
    return Contract("generate_date_schedule [%s %s %s %s%s]" % (fr, direction, rc, dr, " rolled" if flag else ""), [MOD + ".generate_date_schedule"], build)




class AnyDay:
    """DayRoll member with an arbitrary day number"""
    _vp_symbolic = True
    value = None


# ---------------------------------------------------------------- make_schedule, against the contract of generate_date_schedule
class Gen:
    """callee contract (discharged above): dates after the start (backward) or before the end (forward), between the (rolled) ends; a function of its arguments"""

    def __init__(self, sizes=()):
        self.calls = []
        self.sizes = dict(enumerate(sizes))

    def __call__(self, start_date, end_date, freq, direction, roll_conv=None, day_roll=None, roll_user_specified_dates=False, cal=None):
        if not bool(start_date < end_date):
            raise ValueError("'start_date' must be earlier than 'end_date'.")
        key = (term(start_date.o), term(end_date.o), direction)
        if (freq, roll_conv, day_roll, cal) != Ctx.cur.store["args"]:
            raise Unsupported("generate_date_schedule called with other conventions")
        memo = Ctx.cur.store.setdefault("gen", {})
        if key not in memo:
            q = len(memo)
            n = Sym(Ctx.cur.fresh("inner", "I"))
            Ctx.cur.assume(n >= 0)
            z = self.sizes.get(q)
            if z is not None:  # case split on the length of this schedule
                Ctx.cur.assume(n >= 2 if z == 2 else Eq(n, z))

            def X(j, q=q):
                o = Sym(t.mk("sel", ("X%d" % q, j), "I"))
                done = Ctx.cur.store.setdefault("seenX", set())
                if o.t not in done:
                    done.add(o.t)
                    Ctx.cur.assume(SymBool(t.implies(term(And(Sym(j) >= 0, Sym(j) < n)), term(o > start_date.o if direction == "backward" else o < end_date.o))))
                return D.SymDate.from_ordinal(o)
            memo[key] = (n, X, start_date, end_date)
            self.calls.append(key)
        n, X, S, E = memo[key]
        if roll_user_specified_dates:
            S, E = s_roll(S, Ctx.cur.store["rc"]), s_roll(E, Ctx.cur.store["rc"])
        pick = lambda c, a, b: D.SymDate.from_ordinal(If(c, a.o, b.o))
        if not bool(n >= 1):
            return [S], [E]
        return (SymList(n + 1, lambda ix: pick(Sym(ix) == 0, S, X(t.sub(ix, t.const(1))))),
                SymList(n + 1, lambda ix: pick(Sym(ix) == n, E, X(ix))))


def geti(L, i):
    a = nm.asarr(L)
    return a.at((term(i),))


def length(L):
    return Sym(nm.dim_term(nm.norm_dim(nm.asarr(L).shape[0])))


def any_date(name):
    """a date known by its day number alone (make_schedule only compares, steps and rolls dates)"""
    o = I(name)
    return D.SymDate.from_ordinal(o), [(o >= 711858).t, (o <= 767010).t]


def make_contract(fs, ls, fpe, lps, rc, flag, zero=False, sizes=()):
    def build(k):
        f = k.fn(MOD + ".make_schedule")
        M = k.L.load(MOD)
        E_ = lambda n: k.fn("frm.enums.utils." + n)
        freq, RC, DRo = E_("PeriodFreq").ZERO_COUPON if zero else E_("PeriodFreq").QUARTERLY, getattr(E_("RollConv"), rc), E_("DayRoll")._15
        Stub = E_("Stub")
        a, fa = any_date("a")
        b, fb = any_date("b")
        c, fc = any_date("c")
        d, fd = any_date("d")
        pre = fa + fb + [(a.o < b.o).t]
        if fpe:
            pre += fc + [(a.o < c.o).t, (c.o <= b.o).t]
        if lps:
            pre += fd + [(a.o <= d.o).t, (d.o < b.o).t]
        if fpe and lps:
            pre += [(c.o <= d.o).t]
        R_ = (lambda x: s_roll(x, rc)) if flag else (lambda x: x)

        def run():
            Ctx.cur.store.update(args=(freq, RC, DRo, CAL), rc=rc)
            gn = Gen(sizes)
            with patched(M, generate_date_schedule=gn):
                df = f(a, b, freq, RC, DRo, c if fpe else None, d if lps else None, getattr(Stub, fs), getattr(Stub, ls), flag, CAL)
            st, en = df["period_start"].arr, df["period_end"].arr
            n = length(st)
            k.ensure("as many starts as ends", Eq(n, length(en)))
            k.ensure("at least one period", n >= 1)
            k.ensure("the first period starts on the start date", Eq(geti(st, 0).o, R_(a).o))
            k.ensure("the last period ends on the end date", Eq(geti(en, n - 1).o, R_(b).o))
            g = I("g")
            if bool(And(g >= 0, g < n - 1)):
                k.ensure("each period starts where the previous one ends", Eq(geti(st, g + 1).o, geti(en, g).o))
            if fpe:
                k.ensure("explicit end of the first period", Eq(geti(en, 0).o, R_(c).o))
            if lps:
                k.ensure("explicit start of the last period", Eq(geti(st, n - 1).o, R_(d).o))
            if zero:
                k.ensure("one period", Eq(n, 1))
            elif not fpe and not lps:
                # which generated schedule, and how the stub is formed
                fwd = ls in ("SHORT", "LONG")
                key = (term(a.o), term(b.o), "forward" if fwd else "backward")
                k.ensure("generated from the end opposite to the stub", C(1 if key in Ctx.cur.store.get("gen", {}) else 0) == 1)
                if key in Ctx.cur.store.get("gen", {}):
                    m, X, _, _ = Ctx.cur.store["gen"][key]
                    if fs == "LONG" or ls == "LONG":
                        k.ensure("a long stub joins the stub and its neighbour", Eq(n, If(m >= 1, m, m + 1)))
                        if bool(And(m >= 1, g >= 0, g < n - 1)):
                            k.ensure("the other periods are the generated ones", Eq(geti(en, g).o, R_(X(term(g + 1) if fs == "LONG" else term(g))).o))
                    else:
                        k.ensure("number of periods", Eq(n, m + 1))
                        if bool(And(g >= 0, g < n - 1)):
                            k.ensure("the periods are the generated ones", Eq(geti(en, g).o, R_(X(term(g))).o))
        k.verify("any dates", run, pre, raises=None, max_paths=3000)
    return Contract("make_schedule [%s %s%s%s %s%s%s%s]" % (fs, ls, " first_period_end" if fpe else "", " last_period_start" if lps else "", rc, " rolled" if flag else "", " zero coupon" if zero else "", ", %s and %s inner dates" % tuple("≥2" if x == 2 else x for x in sizes) if sizes else ""),
                    [MOD + ".make_schedule"], build, limit=500)


def any_dayroll(direction):
    def build(k):
        f = k.fn(MOD + ".generate_date_schedule")
        E_ = lambda n: k.fn("frm.enums.utils." + n)
        a, fa = D.date_var("a", 1950, 2100)
        b, fb = D.date_var("b", 1950, 2100)
        N = I("day")
        dr = AnyDay()
        dr.value = N
        p = I("p")
        back = direction == "backward"

        def run():
            Ctx.cur.store["while_p"] = p
            st, en = f(a, b, E_("PeriodFreq").MONTHLY, direction, E_("RollConv").FOLLOWING, dr, False, CAL)
            w = Ctx.cur.store.get("whiles")
            if w:
                x = s_step(b if back else a, "MONTHLY", -(p + 1) if back else p + 1)
                dm = D.dim(x.year, x.month)
                x = s_roll(D.SymDate(x.year, x.month, If(dm < N, dm, N)), "FOLLOWING")
                n = Sym(term(vp_len(en)))
                k.ensure("dates fall on the roll day, or the last day of a shorter month", Eq(geti(en, n - 2 - p if back else p).o, x.o))
        k.verify("any roll day", run, fa + fb + [(a.o < b.o).t, (N >= 1).t, (N <= 31).t], raises=None)
    return Contract("generate_date_schedule [%s, any day roll]" % direction, [MOD + ".generate_date_schedule"], build)


CONTRACTS = []
for fr in FREQ:
    for di in ("backward", "forward"):
        CONTRACTS.append(gen_contract(fr, di, "MODIFIED_FOLLOWING", "UNADJUSTED", False))
CONTRACTS += [gen_contract("QUARTERLY", "backward", "UNADJUSTED", "EOM", False), gen_contract("SEMIANNUAL", "forward", "FOLLOWING", "EOM", True),
              gen_contract("QUARTERLY", "backward", "PRECEDING", "UNADJUSTED", True), gen_contract("WEEKLY", "forward", "MODIFIED_PRECEDING", "UNADJUSTED", True)]
CONTRACTS += [any_dayroll("backward"), any_dayroll("forward")]
for fs, ls in (("DEFAULT", "DEFAULT"), ("SHORT", "DEFAULT"), ("LONG", "DEFAULT"), ("NONE", "DEFAULT"), ("DEFAULT", "SHORT"), ("DEFAULT", "LONG"), ("DEFAULT", "NONE")):
    CONTRACTS.append(make_contract(fs, ls, False, False, "FOLLOWING", False))
CONTRACTS += [make_contract("DEFAULT", "DEFAULT", x, y, "FOLLOWING", z) for x, y, z in ((1, 0, 0), (0, 1, 0), (1, 0, 1), (0, 0, 1), (0, 1, 1))]
CONTRACTS += [make_contract("DEFAULT", "DEFAULT", True, True, "FOLLOWING", z, sizes=(x, y)) for x in (2, 1, 0) for y in (2, 1, 0) for z in (0, 1)]
CONTRACTS += [make_contract("DEFAULT", "LONG", True, False, "FOLLOWING", False), make_contract("LONG", "DEFAULT", False, True, "FOLLOWING", True),
              make_contract("NONE", "DEFAULT", False, True, "FOLLOWING", False), make_contract("SHORT", "DEFAULT", False, True, "FOLLOWING", False), make_contract("DEFAULT", "NONE", True, False, "FOLLOWING", False),
              make_contract("SHORT", "NONE", False, False, "FOLLOWING", False), make_contract("NONE", "LONG", False, False, "FOLLOWING", True),
              make_contract("DEFAULT", "DEFAULT", False, False, "MODIFIED_FOLLOWING", True, True), make_contract("DEFAULT", "DEFAULT", False, False, "UNADJUSTED", True)]


# ---------------------------------------------------------------- run-time conformance: an independent implementation on real calendars
def r_cal(c):
    import datetime
    hol = {datetime.date.fromordinal(o) for o in c["hol"]}
    good = lambda d: c["week"][d.weekday()] == "1" and d not in hol
    return good, np.busdaycalendar(weekmask=c["week"], holidays=sorted(hol))


def r_adj(d, conv, good):
    import datetime
    one = datetime.timedelta(days=1)
    go = lambda d, s: d if good(d) else go(d + s * one, s)
    if conv == "UNADJUSTED":
        return d
    fwd, bwd = go(d, 1), go(d, -1)
    if conv == "FOLLOWING":
        return fwd
    if conv == "PRECEDING":
        return bwd
    if conv == "MODIFIED_FOLLOWING":
        return fwd if fwd.month == d.month else bwd
    return bwd if bwd.month == d.month else fwd


def r_step(d, fr, k):
    import datetime, calendar
    u, m = FREQ[fr]
    if u == "d":
        return d + datetime.timedelta(days=m * k)
    y, mo = divmod(d.year * 12 + d.month - 1 + m * k, 12)
    return datetime.date(y, mo + 1, min(d.day, calendar.monthrange(y, mo + 1)[1]))


def r_day(d, dr):
    import calendar
    e = calendar.monthrange(d.year, d.month)[1]
    return d if dr == "UNADJUSTED" else d.replace(day=e if dr == "EOM" else min(e, int(dr)))


def r_gen(a, b, c, direction, good):
    """the dates strictly inside the schedule, counted from the anchor"""
    back, out, k = direction == "backward", [], 1
    while True:
        d = r_adj(r_day(r_step(b if back else a, c["freq"], -k if back else k), c["dr"]), c["roll"], good)
        if not (d > a if back else d < b):
            return out[::-1] if back else out
        out.append(d)
        k += 1


def gen_case(rng):
    import datetime
    fr = rng.choice(list(FREQ))
    u, m = FREQ[fr]
    unit = m if u == "d" else 30 * m
    a = datetime.date(1995, 1, 1).toordinal() + rng.randrange(15000)
    if rng.random() < .3:
        d = datetime.date.fromordinal(a)
        a = (d.replace(day=28) + datetime.timedelta(days=4)).replace(day=1).toordinal() - 1
    b = a + rng.choice([1, 2, rng.randint(1, 2 * unit), rng.randint(1, 9 * unit), rng.randint(1, 9) * unit])
    c = {"a": a, "b": b, "freq": fr, "roll": rng.choice(ROLL), "flag": rng.random() < .4, "stub": rng.choice([None, None, "first", "last", "both"])}
    # rolling days other than "unadjusted" make sense for periods of whole months
    c["dr"] = rng.choice(["UNADJUSTED", "UNADJUSTED", "EOM", str(rng.randint(1, 31)), "31", "1"]) if u == "m" else "UNADJUSTED"
    c["week"] = rng.choice(["1111100", "1111100", "1111111", "1111001", "1111000"])
    c["hol"] = sorted({a - 40 + rng.randrange(b - a + 80) for _ in range(rng.choice([0, 3, 15]))} | ({b + 1, b - 1} if rng.random() < .2 else set()))
    if c["stub"] is None:
        c["fs"], c["ls"] = rng.choice([("DEFAULT", "DEFAULT"), ("SHORT", "DEFAULT"), ("LONG", "DEFAULT"), ("NONE", "DEFAULT"), ("DEFAULT", "SHORT"), ("DEFAULT", "LONG"), ("LONG", "NONE"), ("NONE", "SHORT"), ("DEFAULT", "NONE")])
    else:
        c["fs"], c["ls"] = "DEFAULT", "DEFAULT"
        if c["stub"] == "first":
            c["ls"] = rng.choice(["DEFAULT", "DEFAULT", "SHORT", "LONG", "NONE"])
        if c["stub"] == "last":
            c["fs"] = rng.choice(["DEFAULT", "DEFAULT", "SHORT", "LONG", "NONE"])
        x, y = sorted((rng.randint(a, b), rng.randint(a, b)))
        if rng.random() < .5:
            good, _ = r_cal(c)
            D_ = datetime.date.fromordinal
            inner = [d.toordinal() for d in r_gen(D_(a), D_(b), c, rng.choice(["forward", "backward"]), good)]
            x, y = (inner[0], inner[-1]) if inner and rng.random() < .5 else (inner[min(1, len(inner) - 1)], inner[max(0, len(inner) - 2)]) if inner else (x, y)
            x, y = min(x, y), max(x, y)
        c["fpe"], c["lps"] = min(max(x, a + 1), b), max(min(y, b - 1), a)
        if c["stub"] == "both" and (c["fpe"] > c["lps"]):
            c["stub"] = "first"
        c["fpe"] = c["fpe"] if c["stub"] != "last" else None
        c["lps"] = c["lps"] if c["stub"] != "first" else None
    c["ex"] = rng.choice(["START", "END", "BOTH", "NEITHER"])
    c["delay"], c["timing"] = rng.choice([0, 0, 1, 2, 5]), rng.choice(["IN_ARREARS", "IN_ADVANCE"])
    c["basis"] = rng.choice(["ACT_360", "ACT_365", "_30_360", "ACT_ACT", "_30E_360"])
    c["vector"] = rng.random() < .5
    return c


def check_case(c):
    import datetime, pandas as pd
    import frm.utils.schedule as M
    E = M
    Dt = datetime.date.fromordinal
    good, cal = r_cal(c)
    a, b = Dt(c["a"]), Dt(c["b"])
    roll = lambda d: r_adj(d, c["roll"], good) if c["flag"] else d
    fpe, lps = (None if c.get(n) is None else Dt(c[n]) for n in ("fpe", "lps"))
    kw = dict(start_date=pd.Timestamp(a), end_date=pd.Timestamp(b), freq=getattr(E.PeriodFreq, c["freq"]), roll_conv=getattr(E.RollConv, c["roll"]),
              day_roll=getattr(E.DayRoll, c["dr"] if c["dr"] in ("UNADJUSTED", "EOM") else "_" + c["dr"]), first_stub=getattr(E.Stub, c["fs"]), last_stub=getattr(E.Stub, c["ls"]),
              first_period_end=None if fpe is None else pd.Timestamp(fpe), last_period_start=None if lps is None else pd.Timestamp(lps), roll_user_specified_dates=c["flag"], cal=cal)
    df = M.make_schedule(**kw)
    S, T = [x.date() for x in df["period_start"]], [x.date() for x in df["period_end"]]
    if len(S) != len(T) or not S:
        return "%d starts and %d ends" % (len(S), len(T))
    if S[0] != roll(a) or T[-1] != roll(b):
        return "schedule covers %s to %s instead of %s to %s" % (S[0], T[-1], roll(a), roll(b))
    for i in range(len(S) - 1):
        if S[i + 1] != T[i]:
            return "period %d ends %s, the next one starts %s" % (i, T[i], S[i + 1])
    for i in range(len(S) - 1):
        if c["roll"] == "UNADJUSTED" or c["flag"]:  # (unrolled user dates next to rolled dates may be out of order by the roll)
            if S[i + 1] < S[i]:
                return "periods out of order: %s after %s" % (S[i + 1], S[i])
    if fpe is not None and T[0] != roll(fpe):
        return "first period ends %s, specified %s" % (T[0], roll(fpe))
    if lps is not None and S[-1] != roll(lps):
        return "last period starts %s, specified %s" % (S[-1], roll(lps))
    inner = T[:-1]
    if fpe is None and lps is None:
        fwd = c["ls"] in ("SHORT", "LONG")
        ref = r_gen(a, b, c, "forward" if fwd else "backward", good)
        if c["fs"] == "LONG":
            ref = ref[1:]
        if c["ls"] == "LONG":
            ref = ref[:-1]
        if inner != [roll(d) for d in ref]:
            return "inner dates %s, expected %s" % ([str(x) for x in inner][:6], [str(roll(x)) for x in ref][:6])
    elif len(S) > 1:
        g = lambda x, y, w: [roll(d) for d in r_gen(x, y, c, w, good)]
        f, l = ([] if x is None else [roll(x)] for x in (fpe, lps))
        lo, hi = fpe or a, lps or b
        fw, bw = (g(a, b, w) for w in ("forward", "backward"))
        own = f + (g(lo, hi, "backward" if lps is not None else "forward") if lo < hi else []) + (l if lps != fpe else [])
        options = [own, fw, bw, fw[:-1], bw[1:]]
        if fpe is None:
            options.append(own[1:])
        if lps is None:
            options.append(own[:-1])
        if inner not in options:
            return "inner dates %s are those of no regular schedule with these ends" % [str(x) for x in inner][:8]
    # the schedule with notionals and payment dates
    n = len(S)
    amt = np.array([1e6 - 1e3 * i * (i % 3) for i in range(n)]) if c["vector"] and n > 1 else 1e6
    delay, tim = c["delay"], getattr(E.TimingConvention, c["timing"])
    sch = M.CouponSchedule(**kw, notional_amount=amt, exchange_notionals=getattr(E.ExchangeNotionals, c["ex"]), notional_payment_delay=delay, notional_payment_timing=tim,
                           coupon_payment_delay=delay, coupon_payment_timing=tim)
    basis = getattr(E.DayCountBasis, c["basis"])
    dayc = c["vector"] and all(x <= y for x, y in zip(S, T))
    if dayc:
        sch.add_period_daycount(basis)
    if all(x <= y for x, y in zip(S, T)):  # (unrolled user dates next to rolled ones can be out of order)
        sch.add_period_yearfrac(basis)
    t_ = sch.df
    h = 1 if c["ex"] in ("START", "BOTH") else 0
    if len(t_) != n + h:
        return "%d rows for %d periods" % (len(t_), n)
    vec = np.atleast_1d(amt) * np.ones(n)
    if list(t_["notional"].iloc[h:]) != list(vec):
        return "notionals %r" % (list(t_["notional"])[:5],)
    tot, want = t_["notional_payment"].sum(), {"BOTH": 0.0, "NEITHER": vec[0] - vec[-1], "START": -vec[-1], "END": vec[0]}[c["ex"]]
    if abs(tot - want) > 1e-6:
        return "notional payments sum to %r, expected %r (%s)" % (tot, want, c["ex"])
    if h and (t_["notional_payment"].iloc[0] != -vec[0] or t_["notional_payment_date"].iloc[0].date() != S[0]):
        return "initial exchange %r on %s" % (t_["notional_payment"].iloc[0], t_["notional_payment_date"].iloc[0])
    if c["ex"] in ("END", "BOTH") and t_["notional_payment"].iloc[-1] != vec[-1]:
        return "final exchange %r" % t_["notional_payment"].iloc[-1]
    one = datetime.timedelta(days=1)
    for i in range(n):
        d = S[i] if c["timing"] == "IN_ADVANCE" else T[i]
        if c["roll"] != "UNADJUSTED" or delay:
            d = r_adj(d, "FOLLOWING" if c["roll"] == "UNADJUSTED" else c["roll"], good)
            for _ in range(delay):
                d += one
                while not good(d):
                    d += one
        for col in ("notional_payment_date", "coupon_payment_date"):
            if t_[col].iloc[h + i].date() != d:
                return "%s of period %d is %s, expected %s" % (col, i, t_[col].iloc[h + i].date(), d)
        from frm.utils.daycount import year_frac, day_count
        y = year_frac(pd.Timestamp(S[i]), pd.Timestamp(T[i]), basis) if "period_yearfrac" in t_.columns else None
        if y is not None and abs(t_["period_yearfrac"].iloc[h + i] - y) > 1e-12:
            return "year fraction of period %d is %r, expected %r" % (i, t_["period_yearfrac"].iloc[h + i], y)
        if dayc and t_["period_daycount"].iloc[h + i] != day_count(pd.Timestamp(S[i]), pd.Timestamp(T[i]), basis):
            return "day count of period %d is %r" % (i, t_["period_daycount"].iloc[h + i])
    cols = list(t_.columns)
    if [x for x in cols if x.startswith("period_")] != ["period_start", "period_end"] + (["period_daycount"] if dayc else []) + (["period_yearfrac"] if "period_yearfrac" in cols else []):
        return "columns %r" % cols


def gen_grid(rng):
    a = 733000 + rng.randrange(8000)
    return {"a": a, "del": sorted({a + 1 + rng.randrange(900) for _ in range(rng.randint(1, 5))}), "freq": rng.choice(["1d", "1w", "1m", "3m", "6m", "12m", None]),
            "last": rng.random() < .5, "after": rng.random() < .5, "value": rng.random() < .5}


def check_grid(c):
    import datetime, pandas as pd
    import frm.utils.schedule as M
    D_ = datetime.date.fromordinal
    a, dl = D_(c["a"]), [D_(x) for x in c["del"]]
    if c["freq"] == "1d":
        dl = dl[:1]
    pil = None if c["freq"] else pd.DatetimeIndex([pd.Timestamp(a), pd.Timestamp(dl[-1])])
    r = M.create_date_grid_for_fx_exposures(pd.Timestamp(a), np.array(dl[::-1] + dl[:1], dtype="datetime64[ns]"), c["freq"], pil, c["value"], c["last"], c["after"])
    fr = {"1d": "DAILY", "1w": "WEEKLY", "1m": "MONTHLY", "3m": "QUARTERLY", "6m": "SEMIANNUAL", "12m": "ANNUAL"}.get(c["freq"])
    e = {a, dl[-1]}
    if fr:
        e |= set(r_gen(a, dl[-1], {"freq": fr, "dr": "UNADJUSTED", "roll": "UNADJUSTED"}, "forward", None))
    one = datetime.timedelta(days=1)
    if c["last"]:
        e |= {d if c["value"] else d - one for d in dl}
    elif c["after"]:
        e |= {d + one if c["value"] else d for d in dl}
    if [x.date() for x in r] != sorted(e):
        return "grid %r, expected %r" % ([str(x.date()) for x in r][:8], [str(x) for x in sorted(e)][:8])


# ---------------------------------------------------------------- tables
S_ = lambda v, *ix, sort="R": wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), sort))
BASIS = object()


def table(k, ex="NEITHER", header=False):
    """a schedule of n periods, after the row of the initial exchange where there is one"""
    m = k.L.load(MOD)
    n = I("n")
    nd = lambda c: GArr((n,), lambda ix: D.NullDate(S_(c, Sym(ix[0]), sort="I"), Sym(ix[0]) < 1) if header else D.SymDate.from_ordinal(S_(c, Sym(ix[0]), sort="I")), kind="D")
    s = object.__new__(m.CouponSchedule)
    s.df = DF({c: nd(c) for c in ("period_start", "period_end")})
    s.cal = CAL
    return m, s, n


def payment_dates(k):
    E_ = lambda q: k.fn("frm.enums.utils." + q)
    for rc in ROLL:
        for tim, col in (("IN_ARREARS", "period_end"), ("IN_ADVANCE", "period_start")):
            for delay in (0, I("delay")):
                for header in (False, True):
                    def run():
                        m, s, n = table(k, header=header)
                        s.roll_conv = getattr(E_("RollConv"), rc)
                        s.add_payment_dates(delay, getattr(E_("TimingConvention"), tim), col_name="x")
                        i = Sym(nm.generic_index(n))
                        d = gen(s.df["x"])
                        o = S_(col, i, sort="I")
                        base = D.SymDate.from_ordinal(o)
                        if rc == "UNADJUSTED":
                            want = If(Eq(C(0) + delay, C(0)), o, FR.busadd(Sym(term(FR.roll(base, "following", CAL))), delay, CAL))
                        else:
                            want = FR.busadd(Sym(term(FR.roll(base, rc.lower().replace("_", ""), CAL))), delay, CAL)
                        isn = d.null if d.null is not None else SymBool(t.FALSE)
                        k.ensure("missing exactly where the period is missing", Eq(isn, i < 1) if header else Not(isn))
                        k.ensure("that many business days after the rolled %s of its period" % col, Implies(i >= 1, Eq(d.o, want)) if header else Eq(d.o, want))
                        k.ensure("the periods are unchanged", And(*[Eq(gen(s.df[c]).o, S_(c, i, sort="I")) for c in ("period_start", "period_end")]))
                    k.verify("%s %s %s%s" % (rc, tim, "no delay" if isinstance(delay, int) else "delay", " after an initial exchange" if header else ""), run, [(I("n") >= 2).t], [])


def lengths(k):
    for header in (False, True):
        for again in (False, True):
            def run():
                m, s, n = table(k, header=header)
                f = lambda q: lambda a, c, basis, *r: nm.elementwise(lambda x, y: Sym(t.app(q, (term(x.o), term(y.o)))), a, c, kind="f") if basis is BASIS else Unsupported("another basis")
                if again:
                    s.df.insert(0, "period_yearfrac", vec("old", n))
                    s.df.insert(0, "period_daycount", vec("old", n))
                with patched(m, year_frac=f("YF"), day_count=f("DC")):
                    s.add_period_daycount(BASIS)
                    s.add_period_yearfrac(day_count_basis=BASIS)
                i = Sym(nm.generic_index(n))
                a, c = S_("period_start", i, sort="I"), S_("period_end", i, sort="I")
                w = lambda q: Sym(t.app(q, (term(a), term(c))))
                k.ensure("day count and year fraction of each period", Implies(i >= 1 if header else SymBool(t.TRUE), And(Eq(gen(s.df["period_yearfrac"]), w("YF")), Eq(gen(s.df["period_daycount"]), w("DC")))))
                k.ensure("beside the period end", SymBool(t.TRUE if list(s.df.cols) == ["period_start", "period_end", "period_daycount", "period_yearfrac"] else t.FALSE))
            k.verify("%s%s" % ("after an initial exchange" if header else "periods", ", columns present" if again else ""), run, [(I("n") >= 2).t], [])


def notionals(k):
    E_ = lambda q: k.fn("frm.enums.utils." + q)
    for ex in ("NEITHER", "START", "END", "BOTH"):
        for kind in ("one", "one per period", "wrong number"):
            for given in ((False, True) if ex in ("START", "BOTH") else (False,)):
                def run():
                    m, s, n = table(k)
                    first = ex in ("START", "BOTH")
                    s.notional_amount = R("N") if kind == "one" else vec("Ns", n if kind == "one per period" else n + 1)
                    s.exchange_notionals = getattr(E_("ExchangeNotionals"), ex)
                    s.notional_payment_delay, s.notional_payment_timing = I("delay"), object()
                    xd = D.SymDate.from_ordinal(I("xd"))
                    s.initial_notional_exchange_date = xd if given else None

                    def pay(delay, timing, col_name):
                        """callee contract: payment dates above"""
                        k.ensure("payment dates with the notional's delay and timing", SymBool(t.TRUE if timing is s.notional_payment_timing and delay is s.notional_payment_delay else t.FALSE))
                        s.df[col_name] = GArr((n,), lambda ix: D.SymDate.from_ordinal(S_("pd", Sym(ix[0]), sort="I")), kind="D")
                    s.add_payment_dates = pay
                    s.add_notional_schedule()
                    df = s.df
                    M = Sym(nm.dim_term(nm.norm_dim(df.shape[0])))
                    h = 1 if first else 0
                    k.ensure("one row per period%s" % (" and one for the initial exchange" if first else ""), Eq(M, n + h))
                    if kind == "wrong number":
                        k.ensure("one notional, or one per period", SymBool(t.FALSE))
                        return
                    N = (lambda j: R("N")) if kind == "one" else (lambda j: S_("Ns", j))
                    nul = lambda v: v.null if getattr(v, "null", None) is not None else SymBool(t.FALSE)
                    for lab, j in (("a period that is not the last", I("j")), ("the last period", n - 1)):
                        x = lambda c: at(df[c], j + h)
                        k.ensure("dates of " + lab, And(Not(nul(x("period_start"))), Not(nul(x("period_end"))), Not(nul(x("notional_payment_date"))), Eq(x("period_start").o, S_("period_start", j, sort="I")),
                                                        Eq(x("period_end").o, S_("period_end", j, sort="I")), Eq(x("notional_payment_date").o, S_("pd", j, sort="I"))))
                        k.ensure("notional of " + lab, Eq(x("notional"), N(j)))
                        last = lab.startswith("the last")
                        k.ensure("notional repaid at the end of " + lab, Eq(x("notional_payment"), (N(j) if ex in ("END", "BOTH") else C(0)) if last else N(j) - N(j + 1)))
                    if first:
                        x = lambda c: at(df[c], 0)
                        k.ensure("the initial exchange pays the first notional", And(Eq(x("notional_payment"), -N(0)), Eq(x("notional"), C(0))))
                        k.ensure("on its date, outside any period", And(nul(x("period_start")), nul(x("period_end")), Not(nul(x("notional_payment_date"))), Eq(x("notional_payment_date").o, xd.o if given else S_("period_start", 0, sort="I"))))
                    k.ensure("columns in their order", SymBool(t.TRUE if list(df.cols) == ["period_start", "period_end", "notional", "notional_payment", "notional_payment_date"] else t.FALSE))
                k.verify("%s, %s%s" % (ex, kind, ", date given" if given else ""), run, [(I("n") >= 2).t, (I("j") >= 0).t, (I("j") < I("n") - 1).t], [],
                         raises=(lambda e: type(e).__name__ == "ValueError") if kind.startswith("wrong") else None, expect_paths=0 if kind.startswith("wrong") else 1)


CONTRACTS += [Contract("payment dates", [MOD + ".BaseSchedule.add_payment_dates"], payment_dates),
              Contract("period lengths", [MOD + ".BaseSchedule.add_period_daycount", MOD + ".BaseSchedule.add_period_yearfrac"], lengths),
              Contract("notionals", [MOD + ".NotionalSchedule.add_notional_schedule"], notionals)]


PROP = Prop("C15", "Schedules cover the term without gaps and honour the stated dates", contracts=CONTRACTS,
            runtimes=[Runtime("schedule", gen_case, check_case, n=400, fn=MOD + ".make_schedule"), Runtime("grid", gen_grid, check_grid, n=60, fn=MOD + ".create_date_grid_for_fx_exposures")],
            unverified=["the exposure date grid: run time only (bounded)"])
PROP.imports = [MOD]
