"""C20: curve bootstrap from cash rates and futures (frm/term_structures/bootstrap_helpers.py)."""
import math
import numpy as np
from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR
from ..lift import DF, Series

BH = "frm.term_structures.bootstrap_helpers"
S_ = lambda v, *ix, sort="R": wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), sort))
BASIS, YEARS = object(), object()
CD = I("cd")


def b(c):
    return SymBool(t.TRUE if c else t.FALSE)


def YF(x, y, basis):
    return Sym(t.app("TAU" if basis is BASIS else "YF", (term(x), term(y))))


def year_frac(d1, d2, day_count_basis, *a, **k):
    """callee contract (C01): a function of the two dates, zero for equal dates"""
    if day_count_basis not in (BASIS, YEARS) or a or k:
        raise Unsupported("year_frac called with another basis")
    return nm.elementwise(lambda x, y: YF(x.o, y.o, day_count_basis), d1, d2, kind="f")


def dates(name, n):
    return GArr((n,), lambda ix: D.SymDate.from_ordinal(S_(name, *map(Sym, ix), sort="I")), kind="D")


def frame(**cols):
    d = DF()
    d.cols = cols
    return d


def col(d, c, i):
    return d.cols[c].at((term(i),))


def each(d, n, pre):
    """the precondition on a row, for the rows the proof mentions"""
    def inst(u):
        return [Implies(And(Sym(u.args[1]) >= 0, Sym(u.args[1]) < n), pre(Sym(u.args[1])))]
    return inst


def curve_date():
    return D.SymDate.from_ordinal(CD)


def node(g, i):
    """(time, log discount factor, used) of entry i of the data of an interpolant"""
    ix = (term(i),)
    return g.x.at(ix), g.y.at(ix), SymBool(t.TRUE) if g.x.mask is None else nm._tobool(g.x.mask.at(ix))


# ------------------------------------------------------------------------------------------------ cash rates
def cash():
    def build(k):
        m = k.L.load(BH)
        n = I("n")
        eff, mat = (lambda i: S_("e", i, sort="I")), (lambda i: S_("m", i, sort="I"))
        pre = lambda i: And(eff(i) >= CD, mat(i) > eff(i), 1 + S_("r", i) * S_("tau", i) > 0)

        def run():
            E, M = dates("e", n), dates("m", n)
            late = GArr((n,), lambda ix: eff(Sym(ix[0])) > CD, kind="b")
            d = frame(rate=vec("r", n), effective_date=E, maturity_date=M, period_years=vec("tau", n), has_settlement_delay=late)
            with patched(m, year_frac=year_frac):
                out = m.bootstrap_cash_rates(d, curve_date(), YEARS)
            loops = Ctx.cur.store.get("row_loops", [])
            if not loops or not loops[0].ran:
                return
            p = loops[0].p
            perm = Ctx.cur.store["perms"][0][0]
            src = Sym(perm(p.t))
            Ctx.cur.assume(pre(src))
            for c, v in (("rate", "r"), ("period_years", "tau")):
                k.ensure("row keeps its %s" % c, Eq(col(out, c, p), S_(v, src)))
            k.ensure("row keeps its dates", And(Eq(col(out, "effective_date", p).o, eff(src)), Eq(col(out, "maturity_date", p).o, mat(src))))
            k.ensure("one row per quote", shape_is(out.cols["rate"], n))
            x, y = YF(CD, eff(src), YEARS), YF(CD, mat(src), YEARS)
            k.ensure("effective date in years", Eq(col(out, "effective_date_years", p), x))
            k.ensure("maturity date in years", Eq(col(out, "maturity_date_years", p), y))
            dfe, dfm = col(out, "effective_date_discount_factor", p), col(out, "maturity_date_discount_factor", p)
            k.ensure("the quote is repriced: discount factor at maturity = discount factor at the effective date / (1 + rate * period)", Eq(dfm, dfe / (1 + S_("r", src) * S_("tau", src))))
            q = I("q")
            Ctx.cur.assume(And(q >= 0, q < n))
            sq = Sym(perm(q.t))
            Ctx.cur.assume(pre(sq))
            k.ensure("rows are in order of maturity", Implies(q <= p, mat(sq) <= mat(src)))
            used = GArr((n,), lambda ix: mat(Sym(perm(ix[0]))) <= eff(src), kind="b")
            if not bool(eff(src) > CD):
                k.ensure("discount factor 1 at the curve date", Eq(dfe, 1))
                return
            if not bool(used.any()):
                k.ensure("no quote matures by the effective date: log-linear from the curve date to the maturity", Eq(log(dfe) * (y - x), -log(1 + S_("r", src) * S_("tau", src)) * x))
                return
            g = FR.interps()[-1]
            k.ensure("linear interpolation, beyond the nodes too", b(g.kind == "linear" and g.par.get("fill_value") == "extrapolate"))
            k.ensure("discount factor at the effective date is read off the interpolant", Eq(dfe, exp(g(x))))
            k.ensure("one candidate node per row and the curve date", shape_is(g.x, n + 1))
            x0, y0, u0 = node(g, 0)
            k.ensure("the curve date is a node with discount factor 1", And(u0, Eq(x0, 0), Eq(y0, 0)))
            xq, yq, uq = node(g, q + 1)
            k.ensure("the nodes are the rows that mature by the effective date", Eq(uq, mat(sq) <= eff(src)))
            k.ensure("node time is the row's maturity", Implies(uq, Eq(xq, YF(CD, mat(sq), YEARS))))
            k.ensure("node value is the row's log discount factor, already bootstrapped", Implies(uq, Eq(yq, log(col(out, "maturity_date_discount_factor", q)))))
        k.verify("cash rates", run, [n >= 1], {}, max_paths=60, expect_paths=2)
    return Contract("bootstrap_cash_rates", [BH + ".bootstrap_cash_rates"], build)


# ------------------------------------------------------------------------------------------------ futures
def futures(given):
    def build(k):
        m = k.L.load(BH)
        n, nc = I("n"), I("nc")
        eff, mat = (lambda i: S_("e", i, sort="I")), (lambda i: S_("m", i, sort="I"))

        def quoted(i):
            return S_("futures_rate", i) if "futures_rate" in given else (100 - S_("price", i)) / 100

        def forward(i):
            return S_("forward_rate", i) if "forward_rate" in given else quoted(i) - (S_("convexity_bps", i) / 10000 if "convexity_bps" in given else 0)

        def run():
            cols = {"effective_date": dates("e", n), "maturity_date": dates("m", n)}
            for c in given:
                cols[c] = vec(c, n)
            d = frame(**cols)
            cash = frame(maturity_date_years=vec("cy", nc), maturity_date_discount_factor=vec("cdf", nc))
            keep = dict(cash.cols)
            Ctx.cur.store["rows_grow"] = grow
            with patched(m, year_frac=year_frac):
                out = m.bootstrap_futures(d, curve_date(), cash, BASIS, YEARS)
            loop = Ctx.cur.store["row_loops"][0]
            if not loop.ran:
                return
            p = loop.p
            perm = Ctx.cur.store["perms"][0][0]
            src = Sym(perm(p.t))
            fr, fw = quoted(src), forward(src)
            k.ensure("one row per contract", shape_is(out.cols["effective_date"], n))
            k.ensure("row keeps its dates", And(Eq(col(out, "effective_date", p).o, eff(src)), Eq(col(out, "maturity_date", p).o, mat(src))))
            k.ensure("futures rate is 100 - price, in percent", Eq(col(out, "futures_rate", p), fr))
            k.ensure("forward rate is the futures rate less the convexity adjustment", Eq(col(out, "forward_rate", p), fw))
            tau = YF(eff(src), mat(src), BASIS)
            x, y = YF(CD, eff(src), YEARS), YF(CD, mat(src), YEARS)
            k.ensure("period of the rate by the contract's day count basis", Eq(col(out, "period_years", p), tau))
            k.ensure("effective date in years", Eq(col(out, "effective_date_years", p), x))
            k.ensure("maturity date in years", Eq(col(out, "maturity_date_years", p), y))
            dfe, dfm = col(out, "effective_date_discount_factor", p), col(out, "maturity_date_discount_factor", p)
            k.ensure("the contract is repriced: discount factor at maturity = discount factor at the effective date / (1 + forward rate * period)", Eq(dfm, dfe / (1 + fw * tau)))
            q = I("q")
            Ctx.cur.assume(And(q >= 0, q < n))
            sq = Sym(perm(q.t))
            k.ensure("rows are in order of effective date", Implies(q <= p, eff(sq) <= eff(src)))
            k.ensure("rows are numbered from 0", b(out.labels is None))
            g = FR.interps()[-1]
            k.ensure("linear interpolation, beyond the nodes too", b(g.kind == "linear" and g.par.get("fill_value") == "extrapolate"))
            k.ensure("discount factor at the effective date is read off the interpolant", Eq(dfe, exp(g(x))))
            k.ensure("nodes: the curve date, the cash rates, the contracts before", shape_is(g.x, 1 + nc + p))
            k.ensure("the curve date is a node with discount factor 1", And(Eq(node(g, 0)[0], 0), Eq(node(g, 0)[1], 0)))
            j = I("j")
            Ctx.cur.assume(And(j >= 0, j < nc))
            k.ensure("the cash rates are nodes", And(Eq(node(g, j + 1)[0], S_("cy", j)), Eq(node(g, j + 1)[1], log(S_("cdf", j)))))
            if bool(q < p):
                xq, yq, _ = node(g, nc + 1 + q)
                k.ensure("each contract before is a node at its maturity, with the factor just bootstrapped", And(Eq(xq, YF(CD, mat(sq), YEARS)), Eq(yq, log(col(out, "maturity_date_discount_factor", q)))))
            k.ensure("the cash rates are not modified", b(cash.cols == keep))

        def grow(loop, name, init):
            """loop invariant: the nodes are the maturities of the rows before and the logs of their discount factors"""
            if term(init.at((t.add(term(nc), t.const(0)),))) is not S_("cy", nc - 1).t:
                return lambda c, i: log(c("maturity_date_discount_factor", i))
            return lambda c, i: c("maturity_date_years", i)

        def pos(u):
            i = Sym(u.args[1].args[1])
            return [1 + forward(i) * Sym(u) > 0]
        k.verify("futures", run, [n >= 1, nc >= 1], [("TAU", pos), ("cdf", lambda u: [Sym(u) > 0])], max_paths=60, expect_paths=1)
    return Contract("bootstrap_futures with %s" % ", ".join(given), [BH + ".bootstrap_futures"], build)


# ------------------------------------------------------------------------------------------------ quote helpers
class Tenor:
    """a tenor: overnight or not, and a date offset"""
    _vp_symbolic = True

    def __init__(self, i, clean=False):
        self.i, self.clean = i, clean

    def __eq__(self, o):
        if not self.clean or o != "on":
            raise Unsupported("tenor compared with %r" % (o,))
        return S_("on", self.i, sort="B")

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = object.__hash__

    def offset(self):
        if not self.clean:
            raise Unsupported("offset of a tenor that was not cleaned")
        return D.SymOffset(months=S_("tm", self.i, sort="I"), days=S_("td", self.i, sort="I"))


def clean_tenor(x):
    return Tenor(x.i, True)


def tenor_to_date_offset(x):
    return x.offset()


def helper(settle, given):
    def build(k):
        m = k.L.load(BH)
        n = I("n")
        cal = FR.cal("cal") if hasattr(FR, "cal") else None

        def run():
            cols = {"rate": vec("r", n)}
            if "tenor" in given:
                cols["tenor"] = GArr((n,), lambda ix: Tenor(Sym(ix[0])), kind="O")
            if "effective_date" in given:
                cols["effective_date"] = dates("e", n)
            if "maturity_date" in given:
                cols["maturity_date"] = dates("m", n)
            d = frame(**cols)
            c = SymCal()
            kw = {"settlement_delay": I("lag")} if settle == "delay" else {"settlement_date": D.SymDate.from_ordinal(I("sd"))}
            with patched(m, year_frac=year_frac, clean_tenor=clean_tenor, tenor_to_date_offset=tenor_to_date_offset, workday=workday):
                out = m.cash_rates_quote_helper(d, curve_date(), BASIS, cal=c, **kw)
            i = I("i")
            Ctx.cur.assume(And(i >= 0, i < n))
            spot = WD(CD, I("lag")) if settle == "delay" else I("sd")
            e = S_("e", i, sort="I") if "effective_date" in given else If(S_("on", i, sort="B"), CD, spot)
            k.ensure("one row per quote", shape_is(out.cols["rate"], n))
            k.ensure("the rate is kept", Eq(col(out, "rate", i), S_("r", i)))
            k.ensure("effective date: the curve date for overnight, the settlement date otherwise" if "effective_date" not in given else "the given effective date is kept", Eq(col(out, "effective_date", i).o, e))
            if "maturity_date" in given:
                mt = S_("m", i, sort="I")
            else:
                base = col(out, "effective_date", i) + Tenor(i, True).offset()
                mt = WD(base.o, 0)
            k.ensure("maturity date: the tenor after the effective date, rolled to a business day" if "maturity_date" not in given else "the given maturity date is kept", Eq(col(out, "maturity_date", i).o, mt))
            k.ensure("period by the day count basis", Eq(col(out, "period_years", i), YF(col(out, "effective_date", i).o, col(out, "maturity_date", i).o, BASIS)))
            k.ensure("settlement delay exactly when the quote is effective after the curve date", Eq(nm._tobool(col(out, "has_settlement_delay", i)), e > CD))
        k.verify("quotes", run, [n >= 1], {}, max_paths=60, expect_paths=1)
    return Contract("cash_rates_quote_helper: %s, %s" % (settle, ", ".join(given)), [BH + ".cash_rates_quote_helper"], build)


class SymCal:
    pass


def WD(o, k):
    return Sym(t.app("WD", (term(o), term(k)), "I"))


def workday(dates, offset, cal):
    """callee contract (C16): a business day determined by the date, the offset and the calendar"""
    if not isinstance(cal, (SymCal, str)):
        raise Unsupported("workday called with another calendar")
    return nm.elementwise(lambda d: D.SymDate.from_ordinal(WD(d.o, offset)), dates)


def asx(priced):
    def build(k):
        m = k.L.load(BH)
        n = I("n")

        def run():
            cols = {"years": vec("yy", n, "I", "i"), "months": vec("mm", n, "I", "i")}
            if priced:
                cols["price"] = vec("price", n)
            i = I("i")
            y, mo = S_("yy", i, sort="I"), S_("mm", i, sort="I")
            Ctx.cur.assume(And(i >= 0, i < n))
            with patched(m, workday=workday, get_busdaycal=lambda keys: "SYD" if keys == "AU-SYDNEY" else None):
                out = m.futures_helper_asx_90day(frame(**cols))
            s = col(out, "settlement_date", i)
            k.ensure("one row per contract", shape_is(out.cols["settlement_date"], n))
            first = D.SymDate(y, mo, C(1))
            k.ensure("settlement on a Friday", Eq((s.o + 6) % 7, 4))
            k.ensure("the second Friday of the delivery month of the same row", And(s.o >= first.o + 7, s.o <= first.o + 13))
            k.ensure("expiry on the day before", Eq(col(out, "expiry_date", i).o, s.o - 1))
            k.ensure("the rate is effective from settlement", Eq(col(out, "effective_date", i).o, s.o))
            k.ensure("and runs for three months, to a Sydney business day", Eq(col(out, "maturity_date", i).o, WD(D.add_months(s, 3).o, 0)))
            if priced:
                k.ensure("futures rate is 100 - price, in percent", Eq(col(out, "futures_rate", i), (100 - S_("price", i)) / 100))
        month = lambda u: [Or(*[Eq(wrap(u), v) for v in (3, 6, 9, 12)])]
        year = lambda u: [And(wrap(u) >= 1990, wrap(u) <= 2199)]
        k.verify("contract dates", run, [n >= 1], [("mm", month), ("yy", year)], max_paths=60, expect_paths=1)
    return Contract("futures_helper_asx_90day%s" % (" with prices" if priced else ""), [BH + ".futures_helper_asx_90day"], build)


CONTRACTS = [cash(), futures(["price"]), futures(["futures_rate"]), futures(["price", "convexity_bps"]), futures(["forward_rate", "futures_rate"]),
             helper("delay", ["tenor"]), helper("date", ["tenor"]), helper("delay", ["tenor", "effective_date"]), helper("date", ["effective_date", "maturity_date"]),
             helper("delay", ["tenor", "effective_date", "maturity_date"]), asx(True), asx(False)]

# ------------------------------------------------------------------------------------------------ run time
def lin(x, nodes):
    """linear interpolation in sorted nodes, the outer segments extended"""
    nodes = sorted(nodes)
    j = 0
    while j < len(nodes) - 2 and x > nodes[j + 1][0]:
        j += 1
    (a, u), (c, v) = nodes[j], nodes[j + 1]
    return u + (v - u) * (x - a) / (c - a)


def day(o):
    import pandas as pd
    import datetime
    return pd.Timestamp(datetime.date.fromordinal(int(o)))


def gen_cash(rng):
    tenors = rng.sample(["ON", "1 week", "2W", "1M", "2 months", "3M", "6m", "9M", "1Y", "18M", "2y", "10D", "1Y6M"], rng.randrange(1, 8))
    if "18M" in tenors and "1Y6M" in tenors:
        tenors.remove("18M")
    rng.shuffle(tenors)
    return {"cd": 736000 + rng.randrange(4000), "tenors": tenors, "rates": [rng.uniform(-.02, .15) for _ in tenors], "lag": rng.choice([0, 1, 2, 2, 3]), "how": rng.choice(["delay", "delay", "date"]),
            "given": rng.choice(["", "", "", "eff", "both"]), "shift": [rng.choice([0, 0, 1, 3, 40, 120]) for _ in tenors], "len": rng.sample(range(5, 900), len(tenors)), "basis": rng.choice(["ACT_360", "ACT_365", "ACT_ACT"]),
            "years": rng.choice([None, "ACT_365"]), "hol": [rng.randrange(30) for _ in range(rng.choice([0, 3, 6]))]}


def cash_frame(c):
    import pandas as pd
    cd = day(c["cd"])
    d = pd.DataFrame({"tenor": c["tenors"], "rate": c["rates"]})
    if c["given"]:
        d["effective_date"] = [cd + pd.Timedelta(days=s) for s in c["shift"]]
    if c["given"] == "both":
        d["maturity_date"] = [cd + pd.Timedelta(days=s + l) for s, l in zip(c["shift"], c["len"])]
        if len(set(d["maturity_date"])) < len(d):
            return None
        if c["lag"] == 3:
            d = d.drop(columns="tenor")
    return d


def check_cash(c):
    import pandas as pd
    import frm.term_structures.bootstrap_helpers as m
    from frm.enums import DayCountBasis
    from frm.utils import year_frac as yf, clean_tenor as ct, tenor_to_date_offset as off
    d = cash_frame(c)
    if d is None:
        return None
    cd = day(c["cd"])
    cal = np.busdaycalendar(holidays=[np.datetime64((cd + pd.Timedelta(days=h)).date()) for h in c["hol"]])
    roll = lambda x, k=0: pd.Timestamp(np.busday_offset(np.datetime64(x.date()), k, roll="following", busdaycal=cal))
    basis, yb = DayCountBasis[c["basis"]], DayCountBasis[c["years"] or "ACT_ACT"]
    spot = roll(cd, c["lag"]) if c["how"] == "delay" else cd + pd.Timedelta(days=c["lag"])
    kw = {"settlement_delay": c["lag"]} if c["how"] == "delay" else {"settlement_date": spot}
    rows = {}
    for i, r in enumerate(d.to_dict("records")):
        e = r["effective_date"] if c["given"] else cd if ct(r["tenor"]) == "on" else spot
        f = r["maturity_date"] if c["given"] == "both" else roll(e + off(ct(r["tenor"])))
        rows[r["rate"]] = [e, f, yf(e, f, basis), yf(cd, e, yb), yf(cd, f, yb)]
    if len({v[1] for v in rows.values()}) < len(rows):
        return None
    q = m.cash_rates_quote_helper(d, cd, basis, cal=cal, **kw)
    out = m.bootstrap_cash_rates(q, cd, **({"day_count_basis_years": yb} if c["years"] else {}))
    if len(out) != len(rows):
        return "%d rows from %d quotes" % (len(out), len(rows))
    if not out["maturity_date"].is_monotonic_increasing:
        return "rows are not in order of maturity"
    nodes = [(0.0, 0.0, cd)]
    for r in out.to_dict("records"):
        e, f, tau, x, y = rows[r["rate"]]
        if r["effective_date"] != e or r["maturity_date"] != f or not close(r["period_years"], tau):
            return "quote %s runs from %s to %s (%r), expected %s to %s (%r)" % (r.get("tenor"), r["effective_date"], r["maturity_date"], r["period_years"], e, f, tau)
        use = [v[:2] for v in nodes if v[2] <= e]
        if e == cd:
            le = 0.0
        elif len(use) > 1:
            le = lin(x, use)
        else:
            le = -math.log(1 + r["rate"] * tau) * x / (y - x)
        lf = le - math.log(1 + r["rate"] * tau)
        for nme, w in (("effective", le), ("maturity", lf)):
            if not close(r[nme + "_date_discount_factor"], math.exp(w), 1e-9):
                return "discount factor at the %s date of quote %s is %r, expected %r" % (nme, r.get("tenor"), r[nme + "_date_discount_factor"], math.exp(w))
        nodes.append((y, lf, f))


def gen_fut(rng):
    n = rng.randrange(1, 9)
    ms = rng.sample([(y, m) for y in (2024, 2025, 2026) for m in (3, 6, 9, 12)], n)
    return {"cd": 738900 + rng.randrange(30), "ym": ms, "price": [rng.uniform(92, 100.5) for _ in ms], "convexity": rng.choice([None, None, [rng.uniform(0, 20) for _ in ms]]), "quote": rng.choice(["price", "price", "futures_rate", "forward_rate"]),
            "cash": sorted((rng.randrange(1, 80), rng.uniform(.98, 1.001)) for _ in range(rng.choice([1, 2, 4]))), "ticker": rng.choice([0, 1, 2, 4]), "index": rng.random() < .3}


def check_fut(c):
    import pandas as pd
    import datetime
    import frm.term_structures.bootstrap_helpers as m
    from frm.enums import DayCountBasis as B
    from frm.utils import year_frac as yf, get_busdaycal
    cd = day(c["cd"])
    if len({d for d, _ in c["cash"]}) < len(c["cash"]):
        return None
    code = dict(zip((3, 6, 9, 12), "HMUZ"))
    d = pd.DataFrame({"price": c["price"]})
    if c["ticker"]:
        d["ticker"] = [" ir%s%s" % (code[mo], str(y)[-c["ticker"]:]) for y, mo in c["ym"]]
    else:
        d["years"], d["months"] = [y for y, _ in c["ym"]], [mo for _, mo in c["ym"]]
    d["key"] = range(len(d))
    if c["index"]:
        d.index = range(10, 10 + len(d))
    d = m.futures_helper_asx_90day(d)
    cal = get_busdaycal("AU-SYDNEY")
    for (y, mo), r in zip(c["ym"], d.to_dict("records")):
        f = [x for x in (datetime.date(y, mo, k) for k in range(1, 32) if k <= 30 or mo in (3, 12)) if x.weekday() == 4][1]
        end = pd.Timestamp(f) + pd.DateOffset(months=3)
        end = pd.Timestamp(np.busday_offset(np.datetime64(end.date()), 0, roll="following", busdaycal=cal))
        want = {"settlement_date": pd.Timestamp(f), "effective_date": pd.Timestamp(f), "expiry_date": pd.Timestamp(f) - pd.Timedelta(days=1), "maturity_date": end}
        for k, v in want.items():
            if r[k] != v:
                return "%s of the contract of %d-%02d is %s, expected %s" % (k, y, mo, r[k], v)
        if not close(r["futures_rate"], (100 - r["price"]) / 100):
            return "futures rate %r for the price %r" % (r["futures_rate"], r["price"])
    if c["quote"] != "price":
        d = d.drop(columns="price")
        if c["quote"] == "forward_rate":
            d["forward_rate"] = [r - .001 for r in d["futures_rate"]]
    if c["convexity"]:
        d["convexity_bps"] = c["convexity"]
    want = {}
    for i, r in enumerate(d.to_dict("records")):
        fwd = r["forward_rate"] if "forward_rate" in r else (1 - c["price"][i] / 100) - (c["convexity"][i] / 10000 if c["convexity"] else 0)
        want[i] = (r["effective_date"], r["maturity_date"], fwd)
    cash = pd.DataFrame({"maturity_date_years": [yf(cd, cd + pd.Timedelta(days=k), B.ACT_ACT) for k, _ in c["cash"]], "maturity_date_discount_factor": [v for _, v in c["cash"]]})
    out = m.bootstrap_futures(d, cd, cash, B.ACT_365)
    nodes = [(0.0, 0.0)] + [(x, math.log(v)) for x, v in zip(cash["maturity_date_years"], cash["maturity_date_discount_factor"])]
    if len(out) != len(want) or list(out.index) != list(range(len(want))) or not out["effective_date"].is_monotonic_increasing:
        return "rows of the futures bootstrap"
    for r in out.to_dict("records"):
        e, f, fwd = want[r["key"]]
        if r["effective_date"] != e or r["maturity_date"] != f or not close(r["forward_rate"], fwd, 1e-9):
            return "forward rate of the contract effective %s is %r, expected %r" % (e, r["forward_rate"], fwd)
        x, y = yf(cd, e, B.ACT_ACT), yf(cd, f, B.ACT_ACT)
        if any(abs(y - u) < 1e-9 for u, _ in nodes):
            return None                  # maturities are distinct
        le = lin(x, nodes)
        lf = le - math.log(1 + fwd * yf(e, f, B.ACT_365))
        for nme, w in (("effective", le), ("maturity", lf)):
            if not close(r[nme + "_date_discount_factor"], math.exp(w), 1e-9):
                return "discount factor at the %s date of the contract effective %s is %r, expected %r" % (nme, e, r[nme + "_date_discount_factor"], math.exp(w))
        nodes.append((y, lf))


def gen_ticker(rng):
    return {"dummy": rng.randrange(10 ** 6)}


def check_ticker(c):
    """every ticker: month code and year of 1, 2 or 4 digits; and the ones that are none"""
    import pandas as pd
    import frm.term_structures.bootstrap_helpers as m
    years = [(str(y), 2020 + y) for y in range(10)] + [("%02d" % y, 2000 + y) for y in range(100)] + [(str(y), y) for y in range(1990, 2100)]
    rows = [("IR" + a + y, mo, v) for a, mo in zip("HMUZ", (3, 6, 9, 12)) for y, v in years]
    keep = [r for r in rows if r[2] < 2060]
    d = m.futures_helper_asx_90day(pd.DataFrame({"ticker": [r[0] for r in keep]}))
    for r, y, mo, s in zip(keep, d["years"], d["months"], d["settlement_date"]):
        if (mo, y) != r[1:] or (s.month, s.year) != r[1:]:
            return "ticker %s gives %02d/%d, settlement %s" % (r[0], mo, y, s)
    for bad in ("IRF5", "YTH5", "IRH", "IRH123", "IRH12345"):
        try:
            m.futures_helper_asx_90day(pd.DataFrame({"ticker": ["IRH5", bad]}))
        except (AssertionError, ValueError):
            continue
        return "ticker %r is accepted" % bad


RUNTIMES = [Runtime("cash bootstrap", gen_cash, check_cash, n=200, fn=BH + ".bootstrap_cash_rates"), Runtime("futures bootstrap", gen_fut, check_fut, n=150, fn=BH + ".bootstrap_futures"),
            Runtime("every ticker", gen_ticker, check_ticker, n=1, fn=BH + ".futures_helper_asx_90day")]
PROP = Prop("C20", "Bootstrapped curves reprice the cash rates and futures they are built from", contracts=CONTRACTS, runtimes=RUNTIMES,
            unverified=["tenor strings (their offsets are C16; here a tenor is overnight or any offset), ticker strings (complete enumeration at run time), the interpolated value itself (scipy.interpolate.interp1d: the proof fixes its data, kind and extrapolation)"])
PROP.imports = [BH]
