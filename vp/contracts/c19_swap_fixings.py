from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR
from ..lift import DF, Series

SC = "frm.term_structures.swap_curve"
HF = "frm.term_structures.historical_swap_index_fixings"
METHODS = ("DAILY_COMPOUNDED", "WEIGHTED_AVERAGE", "SIMPLE_AVERAGE")


# ------------------------------------------------------------------------------------------------ contracts
S_ = lambda v, *ix, sort="R": wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), sort))


def dates(name, n):
    return GArr((n,), lambda ix: D.SymDate.from_ordinal(Sym(t.mk("sel", (name,) + tuple(ix), "I"))), kind="D")


def b(c):
    return SymBool(t.TRUE if c else t.FALSE)


YF = lambda x, y: Sym(t.app("YF", (term(x), term(y))))
BASIS = object()


def year_frac(d1, d2, basis, *a, **k):
    """callee contract (C01): a function of the two dates for the curve's basis"""
    if basis is not year_frac.basis:
        raise Unsupported("year_frac called with another basis")
    return nm.elementwise(lambda x, y: YF(x.o, y.o), d1, d2, kind="f")


def yf_inst(u):
    x, y = Sym(u.args[1]), Sym(u.args[2])
    return [Implies(x < y, Sym(u) > 0)]


class Zero:
    """callee contract of the zero curve (C14): forward rates of the periods, elementwise; periods must not start before the curve date"""
    def __init__(self, k, basis):
        self.k, self.curve_date, self.day_count_basis = k, D.SymDate.from_ordinal(I("cd")), basis

    def get_forward_rates(self, period_start, period_end, forward_rate_type):
        nme = "F<%s.%s>" % (type(forward_rate_type).__name__, forward_rate_type.name)

        def one(x, y):
            self.k.ensure("forward rates are only asked for periods from the curve date on", Implies(sel(period_start, period_end), And(x.o >= self.curve_date.o, y.o >= x.o)))
            return Sym(t.app(nme, (term(x.o), term(y.o))))
        return fresh(nm.elementwise(one, period_start, period_end, kind="f"))

    def get_discount_factors(self, dates=None, days=None, years=None):
        return nm.elementwise(lambda d: Sym(t.app("P", (term(d.o),))), dates, kind="f")


def fresh(a):
    a = nm.asarr(a)
    a.generic()
    return a


def sel(*arrs):
    """the mask under which an element of a selection exists"""
    for a in arrs:
        a = nm.asarr(a)
        if a.mask is not None:
            return SymBool(term(nm._tobool(a.mask.at(a.gidx()))))
    return SymBool(t.TRUE)


class Hist:
    """callee contract of the historical fixings: a coupon rate per period / a fixing per date"""
    def __init__(self, k, basis, cd):
        self.k, self.day_count_basis, self.cd = k, basis, cd

    def get_coupon_rates(self, period_start, period_end, cpn_calc_method):
        nme = "H<%s.%s>" % (type(cpn_calc_method).__name__, cpn_calc_method.name)

        def one(x, y):
            self.k.ensure("historical rates are only asked for periods up to the curve date", Implies(sel(period_start, period_end), y.o <= self.cd.o))
            return Sym(t.app(nme, (term(x.o), term(y.o))))
        return fresh(nm.elementwise(one, period_start, period_end, kind="f"))

    def index_historical_fixings(self, fixing_dates):
        return fresh(nm.elementwise(lambda d: Sym(t.app("T", (term(d.o),))), fixing_dates, kind="f"))


SAMP = {"a": ch(738000, 738050, 738100), "b": ch(738060, 738101, 738200), "cd": ch(738060, 738100), "m": ch(2, 3), "F": U(.01, .05), "H": U(.01, .05), "T": U(.01, .05), "YF": U(.1, .5)}


def setup(k, cls):
    m = k.L.load(SC)
    basis = m.ZeroCurve.__dataclass_fields__["day_count_basis"].default
    year_frac.basis = basis
    z = Zero(k, basis)
    c = object.__new__(getattr(m, cls))
    c.zero_curve, c.historical_fixings = z, Hist(k, basis, z.curve_date)
    return m, c, z


def periods():
    M = I("m")
    i = Sym(nm.generic_index(M))
    return M, dates("a", M), dates("b", M), S_("a", i, sort="I"), S_("b", i, sort="I")


INST = [("YF", yf_inst), ("a", lambda u: [Sym(u) >= 700000, S_("b", Sym(u.args[1]), sort="I") > Sym(u)]), ("b", lambda u: [Sym(u) > S_("a", Sym(u.args[1]), sort="I")])]
PRE = [(I("m") >= 2).t, (I("cd") >= 700000).t]


def term_curve(k):
    m, c, z = setup(k, "TermSwapCurve")
    M, a, bb, oa, ob = periods()

    def go(ft):
        def run():
            r = c.get_fixings(period_start=a, period_end=bb, fixing_freq=None, cpn_calc_method=ft)
            k.ensure("one fixing per period", shape_is(r, M))
            g = gen(r)
            k.ensure("a period from the curve date on has the curve's forward rate of its own dates and rate type", Implies(oa >= z.curve_date.o, Eq(g, Sym(t.app("F<TermRate.%s>" % ft.name, (term(oa), term(ob)))))))
            k.ensure("an earlier period has the historical fixing of its start date", Implies(oa < z.curve_date.o, Eq(g, Sym(t.app("T", (term(oa),))))))
        return run
    for ft in m.TermRate:
        k.verify(ft.name, go(ft), PRE, INST, replay=rp_s)

    def default():
        r = c.get_fixings(a, bb, None)
        k.ensure("simple rates by default", Implies(oa >= z.curve_date.o, Eq(gen(r), Sym(t.app("F<TermRate.SIMPLE>", (term(oa), term(ob)))))))
    k.verify("default", default, PRE, INST, replay=rp_s)


def rfr_curve(k):
    m, c, z = setup(k, "RFRSwapCurve")
    M, a, bb, oa, ob = periods()
    cd = z.curve_date.o

    def go(ft, **kw):
        def run():
            with patched(m, year_frac=year_frac):
                r = c.get_fixings(a, bb, **kw)
            k.ensure("one rate per period", shape_is(r, M))
            g = gen(r)
            f = lambda kind, x, y: Sym(t.app("%s<RFRFixingCalcMethod.%s>" % (kind, ft.name), (term(x), term(y))))
            k.ensure("a period from the curve date on has the curve's forward rate of its own dates", Implies(oa >= cd, Eq(g, f("F", oa, ob))))
            k.ensure("a period up to the curve date has the rate of the historical fixings", Implies(ob <= cd, Eq(g, f("H", oa, ob))))
            over = And(oa < cd, ob > cd)
            if not bool(over):
                return
            y1, y2, h, fw = YF(oa, cd), YF(cd, ob), f("H", oa, cd), f("F", cd, ob)
            if ft.name == "DAILY_COMPOUNDED":
                k.ensure("the part before the curve date compounds into the part after it", Eq(1 + (y1 + y2) * g, (1 + y1 * h) * (1 + y2 * fw)))
            else:
                k.ensure("the two parts are averaged by their length", Eq((y1 + y2) * g, y1 * h + y2 * fw))
        return run
    for ft in m.RFRFixingCalcMethod:
        k.verify(ft.name, go(ft, cpn_calc_method=ft), PRE, INST, replay=rp_s)
    k.verify("compounded by default", go(m.RFRFixingCalcMethod.DAILY_COMPOUNDED), PRE, INST, replay=rp_s)

    def df():
        k.ensure("discount factors are those of the zero curve", Eq(gen(c.get_discount_factors(a)), Sym(t.app("P", (term(oa),)))))
    k.verify("discount factors", df, PRE, INST, replay=rp_s)


def basis_match(k):
    """both parts of a curve must count days alike"""
    m = k.L.load(SC)
    basis = list(k.L.load(HF).DayCountBasis)

    def go(cls):
        def run():
            for p in basis[:4]:
                for q in basis[:4]:
                    z = Zero(k, p)
                    try:
                        getattr(m, cls)(zero_curve=z, historical_fixings=Hist(k, q, z.curve_date))
                        ok = True
                    except AssertionError:
                        ok = False
                    k.ensure("%s with %s fixings is %s" % (p.name, q.name, "accepted" if p is q else "refused"), b(ok == (p is q)))
        return run
    for cls in ("TermSwapCurve", "RFRSwapCurve"):
        k.verify(cls, go(cls), [])


def fixings_frame(n):
    f = DF()
    f.cols = {"date": dates("fd", n), "fixing": vec("fx", n)}
    return f


FINST = [("fd", lambda u: [Sym(u) >= 700000])]


def term_lookup(k):
    m = k.L.load(HF)
    n, M = I("n"), I("m")

    def run():
        h = object.__new__(m.TermFixings)
        h.fixings = fixings_frame(n).sort_values("date").reset_index(drop=True)
        r = h.index_historical_fixings(dates("q", M))
        k.ensure("one fixing per date", shape_is(r, M))
        i = Sym(nm.generic_index(M))
        day = S_("q", i, sort="I")
        g = gen(r)
        key = h.fixings.cols["date"]
        J = FR.asof(key, D.SymDate.from_ordinal(day), "S")
        if bool(J >= 0):
            k.ensure("the last fixing on or before the date, in the order of the dates given", Eq(g, at(h.fixings.cols["fixing"], J)))
        else:
            k.ensure("no value before the first fixing", Eq(g, FR.NAN))
    k.verify("lookup", run, [(n >= 2).t, (M >= 2).t], FINST + [("q", lambda u: [Sym(u) >= 700000])], replay=rp_h)


def find_app(v, kind):
    return [u for u in t.subterms(term(v)) if u.op == "app" and u.args[0].startswith(kind + "<")]


def rfr_rates(method):
    def build(k):
        m = k.L.load(HF)
        n, M = I("n"), I("m")
        i = Sym(nm.generic_index(M))
        oa, ob = S_("a", i, sort="I"), S_("b", i, sort="I")

        def run():
            h = object.__new__(m.RFRFixings)
            h.fixings = fixings_frame(n)
            h.day_count_basis = basis = k.L.load(SC).ZeroCurve.__dataclass_fields__["day_count_basis"].default.__class__.ACT_360
            srt = fixings_frame(n).sort_values("date").reset_index(drop=True)
            q, x = I("q"), D.SymDate.from_ordinal(I("x"))
            Ctx.cur.assume(And(q >= 0, q < n, x.o >= 700000))
            Ctx.cur.store["rows"] = [q, i]
            Ctx.cur.store["days"] = [x]
            key, fx = srt.cols["date"], srt.cols["fixing"]
            row, ext = at(key, q).o, lambda nme: Ctx.cur.store.get("extremes", {}).get(nme, [])
            try:
                r = h.get_coupon_rates(dates("a", M), dates("b", M), getattr(m.RFRFixingCalcMethod, method))
            except ValueError:
                early = [S_("a", u, sort="I") < row for u in ext("a")]
                late = [And(w.o < S_("b", u, sort="I"), w.weekday() < 5, w.o > row) for u in ext("b") for w in Ctx.cur.store.get("busdays", [])]
                k.ensure("refused only when a period starts before every fixing or has a weekday after every fixing", Or(*(early + late)))
                return
            k.ensure("one rate per period", shape_is(r, M))
            g = gen(r)
            k.ensure("accepted: there is a fixing on or before the start of every period", Or(*[S_("fd", u, sort="I") <= oa for u in ext("fd")]))
            k.ensure("accepted: no weekday of a period is after every fixing", Implies(And(x.o < ob, x.o >= oa, x.weekday() < 5), Or(*[S_("fd", u, sort="I") >= x.o for u in ext("fd")])))
            if method == "SIMPLE_AVERAGE":
                j = Sym(nm.generic_index(n))
                sums = [(u, Sym(u.args[1])) for u in find_app(g, "SUM")] or [(f, Sym(f.args[1])) for p in Ctx.cur.pc for f in find_app(SymBool(p), "SUM")]
                srtd = any(v.op == "sel" and v.args[0].startswith("perm") for u, _ in sums for v in t.subterms(u))
                d_, f_ = (at(key, j).o, at(fx, j)) if srtd else (S_("fd", j, sort="I"), S_("fx", j))
                ind = nm.gite(And(d_ >= oa, d_ < ob), C(1), C(0))
                if FR._isnan(term(g)) is t.TRUE:
                    k.ensure("no value only when no fixing is dated in the period", And(*[Eq(v, ind) for _, v in sums[:1]], Not(Sym(sums[0][0]) > 0)) if sums else b(False))
                    return
                isc = lambda v: "fx" not in t.show(v.t)
                cnt, tot = [u for u in sums if isc(u[1])], [u for u in sums if not isc(u[1])]
                if len(cnt) != 1 or len(tot) != 1:
                    k.ensure("a total and a number of fixings", b(False))
                    return
                k.ensure("counts the fixings dated in the period", Eq(cnt[0][1], ind))
                k.ensure("adds up the fixings dated in the period", Eq(tot[0][1], ind * f_))
                k.ensure("mean of the fixings dated in the period", Eq(g * Sym(cnt[0][0]), Sym(tot[0][0])))
                return
            kind = "PROD" if method == "DAILY_COMPOUNDED" else "SUM"
            red = find_app(g, kind)
            if len(red) != 1:
                k.ensure("one %s over the days of the period" % kind, b(False))
                return
            N = ob - oa
            k.ensure("%s over every calendar day of the period" % kind, b(red[0].args[0] == "%s<%s>" % (kind, t.show(N.t))))
            d = Sym(nm.generic_index(N))
            J = FR.asof(key, D.SymDate.from_ordinal(oa + d), "S")
            Ctx.cur.assume(And(d >= 0, d < N))
            k.ensure("every day of the period has a fixing", J >= 0)
            want = at(fx, J)
            body = Sym(red[0].args[1])
            if kind == "PROD":
                k.ensure("a day earns the fixing in force (the last on or before it) over one day", Eq(body, 1 + want / basis.days_per_year))
                k.ensure("annualised over the calendar days of the period", Eq(g * N, (Sym(red[0]) - 1) * basis.days_per_year))
            else:
                k.ensure("a day counts with the fixing in force (the last on or before it)", Eq(body, want))
                k.ensure("averaged over the calendar days of the period", Eq(g * N, Sym(red[0])))
        k.verify("rates", run, [(n >= 2).t, (M >= 2).t], FINST + INST, replay=rp_h)
    return Contract("RFRFixings.get_coupon_rates [%s]" % method, HF + ".RFRFixings.get_coupon_rates", build, samplers=SAMP)


def rp_s(e):
    import random
    return {"kind": "swap", "args": gen_s(random.Random(3))}


def rp_h(e):
    import random
    return {"kind": "rfr", "args": gen_h(random.Random(3))}


# ------------------------------------------------------------------------------------------------ run time
def gen_h(rng):
    import datetime
    start = rng.randint(737000, 739000)
    n = rng.randint(10, 60)
    hol = sorted(rng.sample(range(start, start + n), 2))
    days = [d for d in range(start, start + n) if datetime.date.fromordinal(d).weekday() < 5 and d not in hol]
    per = []
    for _ in range(rng.randint(1, 4)):
        a = rng.randint(days[0], days[-1])
        b = rng.randint(a + 1, a + 40)
        per.append([a, b])
    order = rng.choice(["asc", "desc", "mixed"])
    rows = [[d, rng.uniform(-.01, .08)] for d in days]
    if order == "desc":
        rows.reverse()
    elif order == "mixed":
        rng.shuffle(rows)
    if rng.random() < .15:
        per[0][0] = days[0] - rng.randint(1, 4)
    return {"rows": rows, "per": per, "method": rng.choice(METHODS), "basis": rng.choice(["ACT_360", "ACT_365"])}


def ref_rate(rows, a, b, method, dpy):
    """coupon rate of [a, b): a fixing applies from its own date until the day before the next one"""
    rows = sorted(rows)
    if method == "SIMPLE_AVERAGE":
        v = [f for d, f in rows if a <= d < b]
        return sum(v) / len(v) if v else float("nan")
    prod, tot = 1.0, 0.0
    for day in range(a, b):
        f = [f for d, f in rows if d <= day][-1]
        prod *= 1 + f / dpy
        tot += f
    return (prod - 1) * dpy / (b - a) if method == "DAILY_COMPOUNDED" else tot / (b - a)


def available(rows, per):
    import datetime
    first, last = min(d for d, _ in rows), max(d for d, _ in rows)
    return all(a >= first and all(datetime.date.fromordinal(d).weekday() >= 5 for d in range(last + 1, b)) for a, b in per)


def ts(o):
    import pandas as pd, datetime
    return pd.Timestamp(datetime.date.fromordinal(o))


def rfr(c):
    import pandas as pd, frm.term_structures.historical_swap_index_fixings as H
    fr = pd.DataFrame({"date": [ts(d) for d, _ in c["rows"]], "fixing": [f for _, f in c["rows"]]})
    return H, fr, H.RFRFixings(fixings=fr, day_count_basis=getattr(H.DayCountBasis, c["basis"]))


def check_h(c):
    import pandas as pd, numpy as np
    H, fr, h = rfr(c)
    keep = fr.copy(deep=True)
    per = [tuple(p) for p in c["per"]]
    ok = available(c["rows"], per)
    a, b = pd.DatetimeIndex([ts(x) for x, _ in per]), pd.DatetimeIndex([ts(y) for _, y in per])
    try:
        got = h.get_coupon_rates(a, b, getattr(H.RFRFixingCalcMethod, c["method"]))
    except ValueError as e:
        return None if not ok else "refused although every day of every period has a fixing: %s" % e
    if not ok:
        return "accepted a period with days without fixing: %s" % (per,)
    if not fr.equals(keep):
        return "the fixings were modified"
    if len(got) != len(per):
        return "%d rates for %d periods" % (len(got), len(per))
    dpy = {"ACT_360": 360, "ACT_365": 365}[c["basis"]]
    for g, (x, y) in zip(got, per):
        w = ref_rate(c["rows"], x, y, c["method"], dpy)
        if not (close(g, w) or (g != g and w != w)):
            return "%s rate of [%s, %s) is %r, the fixings give %r" % (c["method"], ts(x).date(), ts(y).date(), g, w)


def check_t(c):
    import pandas as pd, frm.term_structures.historical_swap_index_fixings as H
    rows = sorted(c["rows"])
    fr = pd.DataFrame({"date": [ts(d) for d, _ in rows], "fixing": [f for _, f in rows]})
    h = H.TermFixings(fixings=fr, day_count_basis=H.DayCountBasis.ACT_360)
    q = [v for p in c["per"] for v in p] + [rows[0][0] - 1, rows[-1][0] + 3, rows[1][0], rows[1][0]]
    got = h.index_historical_fixings(pd.DatetimeIndex([ts(v) for v in q]))
    if len(got) != len(q):
        return "%d fixings for %d dates" % (len(got), len(q))
    for g, v in zip(got, q):
        w = [f for d, f in rows if d <= v]
        if not (close(g, w[-1]) if w else g != g):
            return "fixing of %s is %r, the last one on or before it is %r" % (ts(v).date(), g, w[-1] if w else None)


def curve(c, cd):
    import pandas as pd, numpy as np, frm.term_structures.zero_curve as Z
    ks = [1, 30, 91, 182, 365, 730]
    return Z.ZeroCurve(curve_date=ts(cd), pillar_df=pd.DataFrame({"days": ks, "discount_factor": [math.exp(-c["z"] * k / 365 * (1 + k / 4000)) for k in ks]}),
                       day_count_basis=getattr(Z.DayCountBasis, c["basis"]))


def gen_s(rng):
    c = gen_h(rng)
    days = sorted(d for d, _ in c["rows"])
    cd = days[-1] + 1 if rng.random() < .5 else days[len(days) // 2]
    per = []
    for _ in range(rng.randint(1, 6)):
        kind = rng.choice("hfxe")
        if kind == "h":
            a = rng.randint(days[0], cd - 1)
            per.append([a, rng.randint(a + 1, cd)])
        elif kind == "e":
            per.append([rng.randint(days[0], cd - 1), cd] if rng.random() < .5 else [cd, cd + rng.randint(1, 200)])
        elif kind == "f":
            a = cd + rng.randint(0, 300)
            per.append([a, a + rng.randint(1, 200)])
        else:
            per.append([rng.randint(days[0], cd - 1), cd + rng.randint(1, 200)])
    c.update(per=per, cd=cd, z=rng.uniform(-.005, .06), term=rng.choice(["SIMPLE", "CONTINUOUS", "ANNUAL"]))
    return c


def check_s(c):
    import pandas as pd, numpy as np, frm.term_structures.swap_curve as S
    H, fr, h = rfr(c)
    zc = curve(c, c["cd"])
    per = c["per"]
    a, b = pd.DatetimeIndex([ts(x) for x, _ in per]), pd.DatetimeIndex([ts(y) for _, y in per])
    m = getattr(H.RFRFixingCalcMethod, c["method"])
    cd, dpy = c["cd"], {"ACT_360": 360, "ACT_365": 365}[c["basis"]]
    P = lambda o: float(zc.get_discount_factors(dates=ts(o)))
    got = S.RFRSwapCurve(zero_curve=zc, historical_fixings=h).get_fixings(a, b, m)
    import datetime

    def fwd(x, y):
        if c["method"] == "DAILY_COMPOUNDED":
            return (P(x) / P(y) - 1) * dpy / (y - x)
        ds = [d for d in range(x, y) if c["method"] == "WEIGHTED_AVERAGE" or datetime.date.fromordinal(d).weekday() < 5]
        return sum((P(d) / P(d + 1) - 1) * dpy for d in ds) / len(ds) if ds else float("nan")
    if len(got) != len(per):
        return "%d rates for %d periods" % (len(got), len(per))
    for g, (x, y) in zip(got, per):
        if x >= cd:
            w, k = fwd(x, y), "forward"
        elif y <= cd:
            w, k = ref_rate(c["rows"], x, y, c["method"], dpy), "historical"
        else:
            p, q = ref_rate(c["rows"], x, cd, c["method"], dpy), fwd(cd, y)
            u, v = (cd - x) / dpy, (y - cd) / dpy
            k = "crossover"
            w = ((1 + u * p) * (1 + v * q) - 1) / (u + v) if c["method"] == "DAILY_COMPOUNDED" else (u * p + v * q) / (u + v)
        if not (close(g, w, 1e-8) or (g != g and w != w)):
            return "%s %s rate of [%s, %s) is %r, expected %r" % (k, c["method"], ts(x).date(), ts(y).date(), g, w)
    # term curve
    rows = sorted(c["rows"])
    tf = H.TermFixings(fixings=pd.DataFrame({"date": [ts(d) for d, _ in rows], "fixing": [f for _, f in rows]}), day_count_basis=zc.day_count_basis)
    got = S.TermSwapCurve(zero_curve=zc, historical_fixings=tf).get_fixings(a, b, fixing_freq=None, cpn_calc_method=getattr(S.TermRate, c["term"]))
    for g, (x, y) in zip(got, per):
        if x < cd:
            w = [f for d, f in rows if d <= x][-1]
        else:
            r = P(x) / P(y)
            u = (y - x) / dpy
            w = {"SIMPLE": (r - 1) / u, "CONTINUOUS": math.log(r) / u, "ANNUAL": r ** (1 / u) - 1}[c["term"]]
        if not close(g, w, 1e-8):
            return "term fixing of [%s, %s) with curve date %s is %r, expected %r" % (ts(x).date(), ts(y).date(), ts(cd).date(), g, w)


PROP = Prop("C19", "Floating coupon rates use the right source per period: fixings, forwards or both",
            contracts=[Contract("TermSwapCurve.get_fixings", SC + ".TermSwapCurve.get_fixings", term_curve, samplers=SAMP),
                       Contract("RFRSwapCurve.get_fixings", SC + ".RFRSwapCurve.get_fixings", rfr_curve, samplers=SAMP),
                       Contract("day count of both parts", SC + ".RFRSwapCurve", basis_match, scope="every pair of four day count bases", samplers=SAMP),
                       Contract("TermFixings.index_historical_fixings", HF + ".TermFixings.index_historical_fixings", term_lookup, samplers=SAMP)] + [rfr_rates(v) for v in METHODS],
            runtimes=[Runtime("rfr", gen_h, check_h, n=150, fn=HF + ".RFRFixings.get_coupon_rates"), Runtime("term", gen_h, check_t, n=150, fn=HF + ".TermFixings.index_historical_fixings"),
                      Runtime("swap", gen_s, check_s, n=40, fn=SC + ".RFRSwapCurve.get_fixings")],
            assumptions=[])
PROP.imports = [SC, HF]
