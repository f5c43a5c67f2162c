"""C18: FX forward curve and volatility surface (frm/term_structures/fx_helpers.py, fx_volatility_surface.py)."""
import math
import numpy as np
from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR
from ..lift import DF, Series

FH = "frm.term_structures.fx_helpers"
FS = "frm.term_structures.fx_volatility_surface"
VS = FS + ".FXVolatilitySurface"
S_ = lambda v, *ix, sort="R": wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), sort))
CD = I("cd")


def b(c):
    return SymBool(t.TRUE if c else t.FALSE)


def curve_date():
    return D.SymDate.from_ordinal(CD)


def dates(name, n):
    return GArr((n,), lambda ix: D.SymDate.from_ordinal(S_(name, *map(Sym, ix), sort="I")), kind="D")


def nulld(name, n):
    """date column with missing entries: ordinal name[i], missing where name_null[i]"""
    return GArr((n,), lambda ix: D.NullDate(S_(name, *map(Sym, ix), sort="I"), S_(name + "_null", *map(Sym, ix), sort="B")), kind="D")


def frame(**cols):
    d = DF()
    d.cols = cols
    return d


def col(d, c, i):
    return d.cols[c].at((term(i),))


class Cal:
    pass


CAL = Cal()


# ------------------------------------------------------------------------------------------------ term structure helper
class Tenor:
    """a tenor, present or not, standing for a date offset once cleaned"""
    _vp_symbolic = True

    def __init__(self, i, clean=False):
        self.i, self.clean = i, clean

    @property
    def _vp_null(self):
        return S_("ten_null", self.i, sort="B")
    __hash__ = object.__hash__

    def offset(self):
        if not self.clean:
            raise Unsupported("offset of a tenor that was not cleaned")
        return D.SymOffset(months=S_("tm", self.i, sort="I"), days=S_("td", self.i, sort="I"))


def terms(given, rsd):
    """which dates and tenors are columns; each entry present or missing"""
    def build(k):
        m = k.L.load(FH)
        n = I("n")
        rec = {}

        def run():
            rec["s"] = Ctx.cur.store
            cols = {"x": vec("x", n)}
            if "tenor" in given:
                cols["tenor"] = GArr((n,), lambda ix: Tenor(Sym(ix[0])), kind="O")
            if rsd in given:
                cols[rsd] = nulld("f", n)
            if "delivery_date" in given:
                cols["delivery_date"] = nulld("d", n)
            df = frame(**cols)
            keep = dict(df.cols)
            off = I("off")
            with patched(m, clean_tenor=lambda x: Tenor(x.i, True), tenor_to_date_offset=lambda x: x.offset()):
                out = m.fx_term_structure_helper(df, curve_date(), off, CAL, rsd)
                loop = Ctx.cur.store["row_loops"][0]
                if not loop.ran:
                    return
                p, i = loop.p, I("i")
                perm = Ctx.cur.store["perms"][-1][0]
                Ctx.cur.assume(And(i >= 0, i < n, Eq(Sym(perm(i.t)), p)))
                k.ensure("one row per quote", shape_is(out.cols["x"], n))
                k.ensure("the quote stays with its dates", And(Eq(col(out, "x", i), S_("x", p)), b("tenor" not in given or term(col(out, "tenor", i).i) in (p.t, perm(i.t)))))
                f, d = col(out, rsd, i), col(out, "delivery_date", i)
                k.ensure("both dates are there", And(*[Not(FR.isnan(v)) for v in (f, d)]))
                hf, hd = (Not(S_(v + "_null", p, sort="B")) if c in given else b(False) for v, c in (("f", rsd), ("d", "delivery_date")))
                fp, dp = S_("f", p, sort="I"), S_("d", p, sort="I")
                on = lambda o, how, j: FR.busadd(FR.roll(D.SymDate.from_ordinal(o), how, CAL), j, CAL)
                k.ensure("a given delivery date is kept", Implies(hd, Eq(d.o, dp)))
                k.ensure("a given %s is kept" % rsd, Implies(hf, Eq(f.o, fp)))
                k.ensure("%s: the spot offset before the given delivery date" % rsd, Implies(And(hd, Not(hf)), Eq(f.o, on(dp, "preceding", -off))))
                k.ensure("delivery: the spot offset after the given %s" % rsd, Implies(And(hf, Not(hd)), Eq(d.o, on(fp, "following", off))))
                if "tenor" in given:
                    o = (curve_date() + Tenor(p, True).offset()).o
                    k.ensure("%s: the tenor after the curve date, on a business day" % rsd, Implies(And(Not(hf), Not(hd)), Eq(f.o, on(o, "following", 0))))
                    k.ensure("delivery: the spot offset after it", Implies(And(Not(hf), Not(hd)), Eq(d.o, on(o, "following", off))))
                j = I("j")
                Ctx.cur.assume(And(i <= j, j < n))
                k.ensure("in order of delivery", d.o <= col(out, "delivery_date", j).o)
                k.ensure("rows are numbered from 0", b(out.labels is None))
                k.ensure("time columns first", b(list(out.cols) == (["tenor"] if "tenor" in given else []) + [rsd, "delivery_date", "x"]))
                k.ensure("the quotes given are not modified", b(df.cols == keep and df.labels is None))

        def refused(e):
            if type(e).__name__ != "ValueError":
                return False
            p = rec["s"]["row_loops"][0].p
            return And(*[S_(v + "_null", p, sort="B") for v, c in (("f", rsd), ("d", "delivery_date"), ("ten", "tenor")) if c in given])
        k.verify("rows", run, [n >= 1], {}, max_paths=80, expect_paths=1, raises=refused)
    return Contract("dates from %s [%s]" % (", ".join(given), rsd), [FH + ".fx_term_structure_helper"], build)



# ------------------------------------------------------------------------------------------------ strategy quotes
def strategies(deltas, given):
    """risk reversals and butterflies for some deltas; some calls and puts given as they are"""
    def build(k):
        m = k.L.load(FH)
        n = I("n")

        def run():
            cols = {"tenor": vec("tenor", n), "atm_delta_neutral": vec("atm", n)}
            for d in deltas:
                cols["%s_delta_butterfly" % d] = vec("bf" + d, n)
                cols["%s_delta_riskreversal" % d] = vec("rr" + d, n)
            for g in given:
                cols[g] = vec(g, n)
            out = m.solve_call_put_quotes_from_strategy_quotes(frame(**cols))
            for d in deltas:
                for side, s in (("put", -1), ("call", 1)):
                    c = "%s_delta_%s" % (d, side)
                    want = el(c, n) if c in given else el("atm", n) + el("bf" + d, n) + s * el("rr" + d, n) / 2
                    k.ensure("%s: %s" % (c, "kept" if c in given else "ATM + butterfly %s half the risk reversal" % ("+" if s > 0 else "-")), Eq(gen(out.cols[c]), want))
            k.ensure("the at-the-money quote is kept", Eq(gen(out.cols["atm_delta_neutral"]), el("atm", n)))
            k.ensure("no other columns", b(sorted(out.cols) == sorted(["tenor", "atm_delta_neutral"] + ["%s_delta_%s" % (d, s) for d in deltas for s in ("put", "call")])))
        k.verify("strategies", run, [n >= 1], {}, expect_paths=1)
    return Contract("calls and puts from strategies %s%s" % ("/".join(deltas), ", given " + ", ".join(given) if given else ""), [FH + ".solve_call_put_quotes_from_strategy_quotes"], build)


NUMS = [x for i in range(1, 50) for x in ([str(i), "0" + str(i)] if i < 10 else [str(i)])]


def spellings():
    """every spelling the documentation of the column names allows, with the name it stands for"""
    for num in NUMS:
        for s1 in ("", "_", " "):
            for d in ("delta", "\u0394"):
                for s2 in ("", "_", " "):
                    for w, kind in (("call", "call"), ("c", "call"), ("put", "put"), ("p", "put"), ("riskreversal", "riskreversal"), ("risk_reversal", "riskreversal"),
                                    ("risk reversal", "riskreversal"), ("rr", "riskreversal"), ("butterfly", "butterfly"), ("bf", "butterfly")):
                        yield num + s1 + d + s2 + w, "%s_delta_%s" % (num, kind)
    import itertools
    for a, s1, th, s2, mm, s3 in itertools.product(("a", "at"), ("", "_", " "), ("t", "the"), ("", "_", " "), ("m", "money"), ("", "_", " ")):
        for f in ("f", "fwd", "forward"):
            yield a + s1 + th + s2 + mm + s3 + f, "atm_forward"
        for d in ("delta", "\u0394"):
            for s4 in ("", "_", " "):
                yield a + s1 + th + s2 + mm + s3 + d + s4 + "neutral", "atm_delta_neutral"


def names():
    def build(k):
        m = k.L.load(FH)
        n = I("n")

        def run():
            import pandas as pd
            bad, todo = [], list(spellings())
            cnt = len(todo)
            for c in range(0, cnt, 40):
                part = todo[c:c + 40]
                out = m.clean_vol_quotes_column_names(pd.DataFrame([["1M"] + [float(x) for x in range(len(part))]], columns=["tenor"] + [s for s, _ in part]))
                bad += [s for (s, w), g in zip(part, list(out.columns)[1:]) if w != g]
                if out.columns[0] != "tenor" or list(out.iloc[0, 1:]) != list(range(len(part))):
                    bad.append("(order)")
            k.ensure("every spelling of a quote column gets its one name (%d spellings)%s" % (cnt, ": not " + repr(bad[0]) if bad else ""), b(not bad))
            others = ["tenor", "expiry_date", "delivery_date", "delta_convention", "50_delta_call", "0_delta_put", "100_delta_put", "25_delta", "delta_call", "call", "warnings", "25_gamma_put"]
            out = m.clean_vol_quotes_column_names(frame(**{c: vec(c, n) for c in others}))
            k.ensure("other columns keep their names", b(list(out.cols) == others))
        k.verify("spellings", run, [n >= 1], {}, expect_paths=1)
    return Contract("quote column names [every spelling]", [FH + ".clean_vol_quotes_column_names"], build)


def details():
    def build(k):
        k.L.load(FH)

        def run():
            import importlib, random
            import pandas as pd
            m = importlib.import_module(FH)         # values only: the code itself runs on every name
            rng = random.Random(7)
            allq = ["%s_delta_%s" % (x, s) for x in NUMS for s in ("call", "put")]
            sets = [["atm_delta_neutral", q] for q in allq] + [["atm_delta_neutral"] + ["%d_delta_%s" % (i, s) for i in range(1, 50) for s in ("put", "call")]]
            sets += [["atm_delta_neutral"] + rng.sample(sets[-1][1:], rng.randint(2, 20)) for _ in range(60)]
            bad = {}
            for qs in sets:
                cols = ["tenor", "expiry_date", "delta_convention"] + qs
                rng.shuffle(cols)
                r = m.get_delta_smile_quote_details(pd.DataFrame([[.1] * len(cols)], columns=cols))
                got = list(zip(r["quotes_column_names"], r["quotes_call_put_flag"], r["quotes_signed_delta"]))
                num = lambda q: int(q.split("_")[0])
                key = lambda q: (0, num(q)) if q.endswith("put") else (1, 0) if q.startswith("atm") else (2, -num(q))
                want = [(q, -1 if q.endswith("put") else 1, .5 if q.startswith("atm") else (-1 if q.endswith("put") else 1) * num(q) / 100) for q in sorted(qs, key=key)]
                if [g[0] for g in got] != [w[0] for w in want]:
                    bad.setdefault("order", qs)
                for g, w in zip(sorted(got), sorted(want)):
                    if g[1] != w[1]:
                        bad.setdefault("flag", w[0])
                    if abs(g[2] - w[2]) > 1e-15:
                        bad.setdefault("delta", w[0])
            for what, label in (("order", "puts by rising delta, at the money, calls by falling delta"), ("flag", "call flag 1, put flag -1"), ("delta", "the signed delta is the number in the name, at the money 1/2")):
                k.ensure(label + (": not " + repr(bad[what]) if what in bad else ""), b(what not in bad))
        k.verify("quote columns", run, [], {}, expect_paths=1)
    return Contract("quote columns: delta, sign and order [every column name]", [FH + ".get_delta_smile_quote_details"], build)


# ------------------------------------------------------------------------------------------------ surface
class Curve:
    """a zero curve known by its rates: a function of the date and the compounding"""
    _vp_symbolic = True

    def __init__(self, name):
        self.name = name

    def get_zero_rates(self, dates=None, compounding_freq=None, **kw):
        if kw:
            raise Unsupported("get_zero_rates(%s)" % sorted(kw))
        return nm.emap(lambda d: zr(self.name, d, compounding_freq), nm.asarr(dates), kind="f")


def zr(name, day, freq):
    return Sym(t.app("ZR_%s_%s" % (name, getattr(freq, "name", freq)), (term(FR.ordv(day)),)))


def fwd(day):
    return Sym(t.app("FWD", (term(FR.ordv(day)),)))


def yf(day):
    return Sym(t.app("YF", (term(FR.ordv(day)),)))


def ffi(*a):
    return Sym(t.app("FFI", tuple(term(x) for x in a)))


DCC = lambda name, n: GArr((n,), lambda ix: S_(name, Sym(ix[0]), sort="I"), kind="O")
Q3 = ["25_delta_put", "atm_delta_neutral", "25_delta_call"]
BASIS = "the basis"


def callees(m):
    def fw(fx_forward_curve_df=None, dates=None, date_type=None, flat_extrapolation=True):
        if fx_forward_curve_df != "curve" or date_type != "fixing_date" or flat_extrapolation is not True:
            raise Unsupported("interp_fx_forward_curve_df called otherwise")
        return nm.emap(fwd, nm.asarr(dates), kind="f")

    def year_frac(a, d, basis):
        if basis != BASIS or term(Eq(a.o, CD)) is not t.TRUE:
            raise Unsupported("year_frac called otherwise")
        r = nm.emap(yf, nm.asarr(d), kind="f")
        return Series(r)
    return dict(interp_fx_forward_curve_df=fw, year_frac=year_frac)


def surface(m, **kw):
    s = object.__new__(m.FXVolatilitySurface)
    s.curve_date, s.day_count_basis, s.spot_offset, s.cal, s.ccy_pair = curve_date(), BASIS, I("off"), CAL, "audusd"
    s.domestic_zero_curve, s.foreign_zero_curve, s.fx_forward_curve_df = Curve("dom"), Curve("for"), "curve"
    s.fx_spot_rate = R("S0")
    s.quotes_column_names = np.array(Q3)
    s.quotes_signed_delta = np.array([-.25, .5, .25])
    s.quotes_call_put_flag = np.array([-1, 1, 1])
    for a, v in kw.items():
        setattr(s, a, v)
    return s


def pillars(n, exp="e", extra=()):
    return frame(**{"warnings": vec("w", n), "expiry_date": dates(exp, n), "delivery_date": dates("dd", n), "expiry_years": vec("ey", n), "fx_forward_rate": vec("pf", n),
                    "domestic_zero_rate": vec("pd", n), "foreign_zero_rate": vec("pfo", n), "delta_convention": DCC("dc", n), **{c: vec(c, n) for c in Q3}})


def increasing(name, n, *idx):
    """expiry dates in strictly ascending order, at the given rows"""
    e = lambda i: S_(name, i, sort="I")
    out = []
    for i in idx:
        for j in idx:
            if i is not j:
                out.append(Implies(And(i >= 0, i < j, j < n), e(i) < e(j)))
    return out


def row_(d, c, i):
    return d.cols[c].at((term(i),))


def market(k, row, day, what=""):
    """row: column -> value; forward and zero rates of the day"""
    CC = k.L.load(FS).CompoundingFreq.CONTINUOUS
    k.ensure("forward rate of its own date" + what, Eq(row("fx_forward_rate"), fwd(day)))
    k.ensure("domestic continuous zero rate of its own date" + what, Eq(row("domestic_zero_rate"), zr("dom", day, CC)))
    k.ensure("foreign continuous zero rate of its own date" + what, Eq(row("foreign_zero_rate"), zr("for", day, CC)))


def pillar_rows():
    def build(k):
        m = k.L.load(FS)
        n = I("n")

        def run():
            given = frame(**{"tenor": vec("tenor", n), "delta_convention": DCC("dc", n), "25_delta_call": vec("25_delta_call", n), "atm_delta_neutral": vec("atm_delta_neutral", n), "25_delta_put": vec("25_delta_put", n)})
            seen = {}

            def helper(df=None, curve_date=None, spot_offset=None, cal=None, rate_set_date_str=None):
                seen.update(o=term(spot_offset), cal=cal, r=rate_set_date_str, cd=term(curve_date.o))
                d = frame(tenor=df.cols["tenor"], expiry_date=dates("e", n), delivery_date=dates("dd", n))
                for c, v in df.cols.items():
                    d.cols[c] = GArr((n,), lambda ix, v=v: v.at((t.mk("sel", ("order", ix[0]), "I"),)), kind=v.kind)
                return d
            with patched(m, fx_term_structure_helper=helper, check_delta_convention=lambda d, pair: d, **callees(m)):
                s = surface(m)
                out = s._setup_vol_smile_pillar_df(given)
            i = I("i")
            o = S_("order", i, sort="I")
            k.ensure("dates by the helper from the curve date, the spot offset and the calendar, for expiries", b(seen["o"] is term(I("off")) and seen["cal"] is CAL and seen["r"] == "expiry_date" and seen["cd"] is CD.t))
            day = D.SymDate.from_ordinal(S_("e", i, sort="I"))
            row = lambda c: col(out, c, i)
            k.ensure("expiry of the row", Eq(row("expiry_date").o, day.o))
            k.ensure("years to its own expiry", Eq(row("expiry_years"), yf(day)))
            market(k, row, day)
            for c in Q3:
                k.ensure("%s of the row" % c, Eq(row(c), S_(c, o)))
            k.ensure("delta convention of the row", b(term(row("delta_convention")) is term(S_("dc", o, sort="I"))))
            k.ensure("columns", b([c for c in out.cols if c in Q3] == Q3))
        k.verify("rows", run, [n >= 1], {}, expect_paths=1)
    return Contract("quotes at the expiries", [VS + "._setup_vol_smile_pillar_df", VS + "._add_fx_ir_to_df"], build)


def daily():
    def build(k):
        m = k.L.load(FS)
        n = I("n")
        e = lambda i: S_("e", i, sort="I")

        def run():
            i, a = I("i"), I("a")
            Ctx.cur.store["rows"] = [a, a + 1]
            p = pillars(n)
            keep = dict(p.cols)
            Ctx.cur.store["ascending"] = {"e"}
            with patched(m, workday=lambda d, offset, cal: d, flat_forward_interp=lambda *x: nm.elementwise(ffi, *x), **callees(m)):
                s = surface(m, vol_smile_pillar_df=p)
                out = s._setup_vol_smile_daily_df()
            N = Sym(nm.dim_term(nm.norm_dim(out._vp_len())))
            first, last = e(C(0)), e(n - 1)
            ext = Ctx.cur.store["extremes"]["e"]
            asofs = {v for c in Q3 for v in t.subterms(term(row_(out, c, i))) if v.op == "app" and v.args[0].startswith("ASOF")}
            asofs = [Sym(u) for u in sorted(asofs, key=lambda u: u.id)]
            Ctx.cur.assume(And(*increasing("e", n, C(0), n - 1, *ext), *increasing("e", n, C(0), a, a + 1, *[r for u in asofs for r in (u, u + 1)])))
            k.ensure("a row for every day from the first to the last expiry", Eq(N, last - first + 1))
            Ctx.cur.assume(And(i >= 0, i < N))
            row = lambda c: col(out, c, i)
            day = D.SymDate.from_ordinal(first + i)
            k.ensure("row i is day i", Eq(row("expiry_date").o, day.o))
            k.ensure("years to the day", Eq(row("expiry_years"), yf(day)))
            market(k, row, day)
            # a is the last expiry not after the day; a day that is no expiry has the next one after it
            Ctx.cur.assume(And(a >= 0, a < n, e(a) <= day.o, Implies(a + 1 < n, day.o < e(a + 1))))
            lows = [u for u in (row(c) for c in Q3)]
            at_pillar = Eq(day.o, e(a))
            for u in asofs:
                k.lemma("a neighbouring row", Or(Eq(u, a), And(at_pillar, Eq(u, a - 1))))
            hi = a + 1
            ty = lambda r: yf(D.SymDate.from_ordinal(e(r)))
            for c, v in zip(Q3, lows):
                k.ensure("%s: flat forward variance between the neighbouring expiries" % c, Implies(And(Not(at_pillar), hi < n), Eq(v, ffi(ty(a), S_(c, a), ty(hi), S_(c, hi), yf(day)))))
                k.ensure("%s: the quote itself at an expiry" % c, Implies(at_pillar, Eq(v, ffi(ty(a), S_(c, a), ty(a), S_(c, a), ty(a)))))
            k.ensure("delta convention of the expiry the day belongs to", Eq(row("delta_convention"), If(at_pillar, S_("dc", a, sort="I"), S_("dc", hi, sort="I"))))
            k.ensure("the quotes are not modified", b(p.cols == keep))

        def inst(u):
            return []
        k.verify("days", run, [n >= 1], {}, expect_paths=1)
    return Contract("smile of every day", [VS + "._setup_vol_smile_daily_df", VS + "._add_fx_ir_to_df"], build)


def solved(tag, kw):
    """strikes for the deltas of one row, as an array of three"""
    rec = Ctx.cur.store.setdefault("solved", [])
    rec.append(kw)
    j = len(rec) - 1
    return nm.asarr([Sym(t.var("strike_%s_%d_%d" % (tag, j, q))) for q in range(3)])


def forwards(date_type, form, flat):
    def build(k):
        m = k.L.load(FH)
        n, q = I("n"), I("q")

        def run():
            curve = frame(tenor=vec("tenor", n), fixing_date=dates("fix", n), delivery_date=dates("del", n), fx_forward_rate=vec("rate", n))
            keep = dict(curve.cols)
            days = dates("day", q)
            got = m.interp_fx_forward_curve_df(curve, Series(days) if form == "Series" else days, date_type, **({} if flat else {"flat_extrapolation": False}))
            i, j = I("i"), I("j")
            g = FR.interps()
            k.ensure("one interpolation", b(len(g) == 1 and g[0].kind == "time"))
            g = g[0]
            name = "fix" if date_type == "fixing_date" else "del"
            k.ensure("through (date, rate) of every row of the curve", And(shape_is(g.x, n), shape_is(g.y, n), Eq(at(g.x, j), S_(name, j, sort="I")), Eq(at(g.y, j), S_("rate", j))))
            k.ensure("flat outside the curve" if flat else "missing outside the curve", b(g.par["flat"] == flat))
            k.ensure("value i is the one of date i", And(shape_is(got, q), Eq(at(got, i), g(S_("day", i, sort="I")))))
            k.ensure("the curve is not modified", b(curve.cols == keep))
        k.verify("forward rates", run, [n >= 1, q >= 1], {}, expect_paths=1)
    return Contract("forward rates by %s for a %s%s" % (date_type, form, "" if flat else ", no extrapolation"), [FH + ".interp_fx_forward_curve_df"], build)


def strikes():
    def build(k):
        m = k.L.load(FS)
        n = I("n")

        def run():
            p = pillars(n)
            keep = dict(p.cols)
            with patched(m, garman_kohlhagen_solve_strike_from_delta=lambda **kw: solved("p", kw)):
                s = surface(m, vol_smile_pillar_df=p)
                out = s._setup_strike_pillar()
            loops = Ctx.cur.store.get("row_loops", [])
            if not loops or not loops[0].ran:
                return
            r = loops[0].p
            (kw,) = Ctx.cur.store["solved"]
            inputs(k, kw, S_("ey", r), S_("pd", r), S_("pfo", r), S_("pf", r), S_("dc", r, sort="I"), [S_(c, r) for c in Q3])
            for j, c in enumerate(Q3):
                k.ensure("%s: the strike solved for it" % c, Eq(col(out, c, r), Sym(t.var("strike_p_0_%d" % j))))
            k.ensure("the quotes are not modified", b(p.cols == keep))
        k.verify("rows", run, [n >= 1], {}, expect_paths=1)
    return Contract("strikes of the quotes", [VS + "._setup_strike_pillar"], build)


def inputs(k, kw, tau, rd, rf, F, dc, vol):
    k.ensure("strike solved from: the spot rate", Eq(kw["S0"], R("S0")))
    for nme, key, v in (("the time to expiry of the row", "tau", tau), ("the domestic rate of the row", "r_d", rd), ("the foreign rate of the row", "r_f", rf), ("the forward of the row", "F", F)):
        x = kw[key]
        k.ensure("strike solved from: " + nme, Eq(nm.asarr(x).item() if isinstance(x, GArr) else x, v))
    x = kw["delta_convention"]
    k.ensure("strike solved from: the delta convention of the row", Eq(x, dc))
    k.ensure("strike solved from: its volatility quotes", And(*[Eq(at(kw["vol"], j), v) for j, v in enumerate(vol)]))
    k.ensure("strike solved from: the deltas of the quotes", b([float(x) for x in np.asarray(kw["signed_delta"])] == [-.25, .5, .25]))


class Cache(dict):
    """smiles by date: those solved before are unknown"""
    _vp_symbolic = True

    def __init__(self, known):
        self.known, self.new = known, []

    def keys(self):
        return self

    def __contains__(self, d):
        o = FR.ordv(d)
        for q, _ in self.new:
            if bool(Eq(q.o, o)):
                return True
        return bool(self.known(o))

    def __setitem__(self, d, f):
        self.new.append((d, f))

    def __getitem__(self, d):
        return lambda K: Sym(t.app("SMILE", (term(FR.ordv(d)), term(K))))


class Days:
    """expiry dates of a request"""
    _vp_symbolic = True

    def __init__(self, ds):
        self.ds = ds

    def unique(self):
        return list(self.ds)


def day_frame(N):
    first = I("first")
    exp = GArr((N,), lambda ix: D.SymDate.from_ordinal(first + Sym(ix[0])), kind="D")
    return first, frame(**{"expiry_date": exp, "expiry_years": vec("ey", N), "fx_forward_rate": vec("pf", N), "domestic_zero_rate": vec("pd", N), "foreign_zero_rate": vec("pfo", N),
                           "delta_convention": DCC("dc", N), **{c: vec(c, N) for c in Q3}})


def smile(method, Q=3):
    def build(k):
        m = k.L.load(FS)
        N = I("N")

        def run():
            first, p = day_frame(N)
            d1, d2 = I("d1"), I("d2")
            rec = []
            for d in (d1, d2):
                Ctx.cur.assume(And(d >= first, d < first + N))
            Ctx.cur.assume(Not(Eq(d1, d2)))
            Ctx.cur.store["rows"] = [d1 - first, d2 - first]
            cache = Cache(lambda o: SymBool(t.app("known", (term(o),), "B")))

            def spline(x=None, y=None, k=None, **kw):
                f = ("spline", x, y, k, kw)
                return f
            with patched(m, garman_kohlhagen_solve_strike_from_delta=lambda **kw: solved("d", kw), InterpolatedUnivariateSpline=spline, CubicSpline=spline):
                s = surface(m, vol_smile_daily_df=p, vol_smile_daily_func=cache, smile_interpolation_method=getattr(m.FXSmileInterpolationMethod, method))
                s._solve_vol_daily_smile_func(Days([D.SymDate.from_ordinal(d1), D.SymDate.from_ordinal(d2)]))
            recs = Ctx.cur.store.get("solved", [])
            for d in (d1, d2):
                hits = [(j, f) for j, (q, f) in enumerate(cache.new) if q.o.t is d.t]
                known = SymBool(t.app("known", (d.t,), "B"))
                k.ensure("a smile for every requested date", Or(known, b(len(hits) == 1)))
                for j, f in hits:
                    r = d - first
                    inputs(k, recs[j], S_("ey", r), S_("pd", r), S_("pfo", r), S_("pf", r), S_("dc", r, sort="I"), [S_(c, r) for c in Q3])
                    k.ensure("the smile goes through (strike, volatility) of every quote of its own expiry", And(*[And(Eq(at(f[1], q), Sym(t.var("strike_d_%d_%d" % (j, q)))), Eq(at(f[2], q), S_(c, r))) for q, c in enumerate(Q3)]))
                    k.ensure("it is an interpolating spline", b(not f[4] and f[3] in (2, 3)))
        k.verify("two dates", run, [N >= 1], {}, expect_paths=1)
    return Contract("smile of a date [%s]" % method, [VS + "._solve_vol_daily_smile_func"], build, scope="bounded to two requested dates (each of them arbitrary)")


def requested(price):
    def build(k):
        m = k.L.load(FS)
        N, n = I("N"), I("n")

        def run():
            first, p = day_frame(N)
            days, K, cp = dates("q", n), vec("K", n), vec("cp", n)
            g = gi(n)
            asked = []
            s = surface(m, vol_smile_daily_df=p, vol_smile_daily_func=Cache(None), smile_interpolation_method=m.FXSmileInterpolationMethod.UNIVARIATE_SPLINE)
            s._solve_vol_daily_smile_func = lambda d: asked.append(d)
            got = {}

            def gk(**kw):
                got.update(kw)
                return {"price": 0}
            keep = dict(p.cols)
            if price:
                with patched(m, garman_kohlhagen_price=gk):
                    res = s.price_vanilla_european(days, K, cp)
            else:
                out = s.interp_vol_surface(days, K, cp)
            loops = Ctx.cur.store.get("row_loops", [])
            if not loops or not loops[0].ran:
                return
            i = loops[0].p
            r = S_("q", i, sort="I") - first
            want = {"vol": Sym(t.app("SMILE", (S_("q", i, sort="I").t, S_("K", i).t))), "expiry_years": S_("ey", r), "fx_forward_rate": S_("pf", r), "domestic_zero_rate": S_("pd", r), "foreign_zero_rate": S_("pfo", r), "K": S_("K", i), "cp": S_("cp", i)}
            k.ensure("smiles are solved for the requested dates", b(len(asked) == 1 and asked[0] is days))
            k.ensure("the surface is not modified", b(p.cols == keep))
            if price:
                for what, key, c in (("time to expiry", "tau", "expiry_years"), ("domestic rate", "r_d", "domestic_zero_rate"), ("foreign rate", "r_f", "foreign_zero_rate"), ("forward", "F", "fx_forward_rate"), ("volatility", "vol", "vol"), ("strike", "K", "K"), ("call flag", "cp", "cp")):
                    k.ensure("priced with the %s of the option" % what, And(shape_is(got[key], n), Eq(at(got[key], i), want[c])))
                k.ensure("priced with the spot rate", Eq(got["S0"], R("S0")))
                k.ensure("no greeks unless asked for", b(not got["analytical_greeks"] and not got["numerical_greeks"] and not got["intrinsic_time_split"]))
                md = res["market_data_inputs"]
                for c, w in (("vol", "vol"), ("r_d", "domestic_zero_rate"), ("r_f", "foreign_zero_rate"), ("F", "fx_forward_rate")):
                    k.ensure("%s reported as used" % c, Eq(col(md, c, i), want[w]))
                return
            k.ensure("one row per option", shape_is(out.cols["vol"], n))
            k.ensure("expiry date of the option", Eq(col(out, "expiry_date", i).o, S_("q", i, sort="I")))
            for c, w in want.items():
                k.ensure("%s of option i" % c, Eq(col(out, c, i), w))
        k.verify("rows", run, [N >= 1, n >= 1], [("q", lambda u: [Sym(u) >= I("first"), Sym(u) < I("first") + N])], expect_paths=1)
    return Contract("price of options on a surface" if price else "volatility of options on a surface", [VS + (".price_vanilla_european" if price else ".interp_vol_surface")], build)



# ------------------------------------------------------------------------------------------------ at run time
DAY0 = 19538            # 2023-06-30 (Friday), days since 1970


def iso(d):
    return str(np.datetime64(int(d), "D"))


def busday(d, hol):
    return (d + 3) % 7 < 5 and d not in hol          # 1970-01-01 was a Thursday


def nth(d, k, hol):
    """k business days after (before) d, a holiday counting as the next (previous) business day"""
    step = 1 if k >= 0 else -1
    while not busday(d, hol):
        d += step
    for _ in range(abs(k)):
        d += step
        while not busday(d, hol):
            d += step
    return d


def add_tenor(d, ten):
    from dateutil.relativedelta import relativedelta
    import datetime
    n, u = int(ten[:-1]), ten[-1]
    x = datetime.date(1970, 1, 1) + datetime.timedelta(d)
    x += {"D": relativedelta(days=n), "W": relativedelta(weeks=n), "M": relativedelta(months=n), "Y": relativedelta(years=n)}[u]
    return (x - datetime.date(1970, 1, 1)).days


TENORS = ["1W", "2W", "3W", "1M", "2M", "3M", "4M", "6M", "9M", "1Y", "18M", "2Y"]


def rand_hol(rng):
    return sorted({DAY0 + rng.randint(1, 800) for _ in range(rng.randint(0, 40))})


def gen_terms(rng):
    n = rng.randint(1, 6)
    given = rng.choice([["tenor"], ["f"], ["d"], ["tenor", "f"], ["tenor", "d"], ["f", "d"], ["tenor", "f", "d"]])
    rows = []
    for _ in range(n):
        has = rng.sample(given, rng.randint(1, len(given)))
        rows.append({"tenor": rng.choice(TENORS) if "tenor" in has else None, "f": DAY0 + rng.randint(3, 700) if "f" in has else None, "d": DAY0 + rng.randint(3, 700) if "d" in has else None, "x": rng.random()})
    return {"rows": rows, "given": given, "hol": rand_hol(rng), "off": rng.randint(0, 3), "rsd": rng.choice(["fixing_date", "expiry_date"]), "curve": DAY0 + rng.randint(0, 6), "labels": rng.random() < .3}


def cal_of(hol):
    return np.busdaycalendar(holidays=[np.datetime64(int(h), "D") for h in hol])


def check_terms(c):
    import pandas as pd
    from frm.term_structures.fx_helpers import fx_term_structure_helper as f
    hol, rsd = set(c["hol"]), c["rsd"]
    ts = lambda v: pd.NaT if v is None else pd.Timestamp(iso(v))
    cols = {"x": [r["x"] for r in c["rows"]]}
    if "tenor" in c["given"]:
        cols["tenor"] = [r["tenor"] for r in c["rows"]]
    if "f" in c["given"]:
        cols[rsd] = pd.to_datetime([ts(r["f"]) for r in c["rows"]])
    if "d" in c["given"]:
        cols["delivery_date"] = pd.to_datetime([ts(r["d"]) for r in c["rows"]])
    df = pd.DataFrame(cols)
    if c["labels"]:
        df.index = list(range(10, 10 + len(df)))[::-1]
    keep = df.copy(deep=True)
    out = f(df, pd.Timestamp(iso(c["curve"])), c["off"], cal_of(c["hol"]), rsd)
    if not df.equals(keep):
        return "the quotes given were modified"
    want = []
    for r in c["rows"]:
        if r["d"] is not None:
            fx, dl = r["f"] if r["f"] is not None else nth(r["d"], -c["off"], hol) if c["off"] else back(r["d"], hol), r["d"]
        elif r["f"] is not None:
            fx, dl = r["f"], nth(r["f"], c["off"], hol)
        else:
            o = add_tenor(c["curve"], r["tenor"])
            fx, dl = nth(o, 0, hol), nth(o, c["off"], hol)
        want.append((iso(dl), iso(fx), round(r["x"], 12)))
    got = [(str(a)[:10], str(z)[:10], round(x, 12)) for a, z, x in zip(out["delivery_date"], out[rsd], out["x"])]
    if [g[0] for g in got] != sorted(g[0] for g in got):
        return "not in order of delivery: %r" % got
    if sorted(got) != sorted(want):
        return "rows %r, expected %r" % (sorted(got), sorted(want))
    if list(out.index) != list(range(len(out))):
        return "row labels %r" % list(out.index)


def back(d, hol):
    while not busday(d, hol):
        d -= 1
    return d


def gen_fwd(rng):
    n, q = rng.randint(1, 7), rng.randint(1, 9)
    days = sorted(rng.sample(range(0, 400), n))
    ask = [rng.choice(days) if rng.random() < .3 else rng.randint(-40, 460) for _ in range(q)]
    return {"days": days, "rates": [rng.uniform(.5, 1.5) for _ in days], "ask": ask, "type": rng.choice(["fixing_date", "delivery_date"]), "form": rng.choice(["S", "I"]), "flat": rng.random() < .8}


def check_fwd(c):
    import warnings
    import pandas as pd
    from frm.term_structures.fx_helpers import interp_fx_forward_curve_df as f
    ts = lambda ds: pd.DatetimeIndex([iso(DAY0 + d) for d in ds])
    other = "delivery_date" if c["type"] == "fixing_date" else "fixing_date"
    df = pd.DataFrame({c["type"]: ts(c["days"]), other: ts([d + 900 for d in c["days"]]), "fx_forward_rate": c["rates"]})
    ask = ts(c["ask"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = f(df, pd.Series(ask) if c["form"] == "S" else ask, c["type"], flat_extrapolation=c["flat"])
    if len(r) != len(c["ask"]):
        return "%d values for %d dates" % (len(r), len(c["ask"]))
    lo, hi = c["days"][0], c["days"][-1]
    for i, d in enumerate(c["ask"]):
        w = float(np.interp(d, c["days"], c["rates"]))
        if not c["flat"] and not lo <= d <= hi:
            w = float("nan")
        if not close(r[i], w, 1e-10):
            return "day %d: %r, expected %r" % (d, r[i], w)


def spell(rng, q):
    n, w = q.split("_")[0], q.split("_")[-1]
    if q.startswith("atm"):
        return rng.choice(["atm_delta_neutral", "at_the_money_delta_neutral", "atm delta neutral", "atmdeltaneutral"])
    return n + rng.choice(["_", " ", ""]) + "delta" + rng.choice(["_", " ", ""]) + rng.choice({"call": ["call", "c"], "put": ["put", "p"], "riskreversal": ["rr", "riskreversal", "risk_reversal"], "butterfly": ["bf", "butterfly"]}[w])


def gen_surface(rng):
    hol = rand_hol(rng)
    pair = rng.choice(["audusd", "eurusd", "usdjpy"])
    curve = DAY0 + rng.randint(0, 60)
    while not busday(curve, set(hol)):
        curve += 1
    ten = sorted(rng.sample(TENORS[3:], rng.randint(2, 5)), key=TENORS.index)
    deltas = rng.choice([["25"], ["10", "25"], ["5", "10", "25", "35"], ["9", "10", "25"]])
    rows, b0, r0, f0 = [], rng.uniform(.08, .2), rng.uniform(-.2, .2), rng.uniform(.01, .06)
    for x in ten:
        base = b0 * rng.uniform(.95, 1.05)
        sm = {"atm": base}
        R_, B_ = r0 * base * rng.uniform(.8, 1.2), f0 * base * rng.uniform(.8, 1.2)
        for d in deltas:
            w = (50 - int(d)) / 50
            sm["rr" + d], sm["bf" + d] = R_ * w, B_ * w * w
        rows.append({"tenor": x, "smile": sm, "conv": rng.choice(["regular_spot", "regular_forward", "premium_adjusted_spot", "premium_adjusted_forward"]) if rng.random() < .3 else rng.choice(["regular_spot", "regular_forward"])})
    fw = [("SP", 1.0)] + [(x, rng.uniform(.93, 1.07)) for x in ["1W", "1M", "3M", "6M", "1Y", "2Y", "3Y"] if x in ("1W", "3Y") or rng.random() < .7]
    fw = [[x, v * rng.uniform(.6, 1.4) if False else v * (100.0 if pair == "usdjpy" else .7)] for x, v in fw]
    order, forder = list(range(len(rows))), list(range(len(fw)))
    if rng.random() < .6:
        rng.shuffle(order), rng.shuffle(forder)
    q = []
    for d in deltas:
        q += ["%s_delta_call" % d, "%s_delta_put" % d] if rng.random() < .4 else ["%s_delta_riskreversal" % d, "%s_delta_butterfly" % d]
    q.append("atm_delta_neutral")
    rng.shuffle(q)
    return {"pair": pair, "hol": hol, "curve": curve, "rows": rows, "deltas": deltas, "quotes": [[x, spell(rng, x)] for x in q], "fw": fw, "order": order, "forder": forder,
            "off": rng.choice([None, 1, 2]), "by": rng.choice(["tenor", "expiry_date", "delivery_date", "both"]), "fby": rng.choice(["tenor", "tenor", "fixing_date", "delivery_date"]),
            "cubic": rng.random() < .3 and len(deltas) > 1, "opts": [[rng.random(), rng.uniform(-1.2, 1.2), rng.choice([-1, 1])] for _ in range(rng.randint(1, 6))],
            "rd": [rng.uniform(0, .06) for _ in range(3)], "rf": [rng.uniform(0, .06) for _ in range(3)]}


def check_surface(c):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _surface(c)


def _surface(c):
    import pandas as pd
    from scipy.interpolate import InterpolatedUnivariateSpline, CubicSpline
    from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
    from frm.term_structures.zero_curve import ZeroCurve
    from frm.enums import FXSmileInterpolationMethod as M, DayCountBasis, CompoundingFreq
    hol, cal, cd = set(c["hol"]), cal_of(c["hol"]), c["curve"]
    ts = lambda d: pd.Timestamp(iso(d))
    off = c["off"] or 2
    yrs = [.25, 1.0, 4.0]
    zc = [ZeroCurve(curve_date=ts(cd), pillar_df=pd.DataFrame({"tenor": ["3M", "1Y", "4Y"], "zero_rate": c[r]}), day_count_basis=DayCountBasis.ACT_365, compounding_freq=CompoundingFreq.CONTINUOUS, cal=cal) for r in ("rd", "rf")]
    # forward curve
    fix = [cd if x == "SP" else nth(add_tenor(cd, x), 0, hol) for x, _ in c["fw"]]
    dlv = [nth(f, off, hol) for f in fix]
    fcol = {"tenor": [x for x, _ in c["fw"]], "fixing_date": [ts(f) for f in fix], "delivery_date": [ts(d) for d in dlv]}[c["fby"]]
    if c["fby"] == "delivery_date":
        fix = [back(d, hol) if not off else nth(d, -off, hol) for d in dlv]
    fdf = pd.DataFrame({c["fby"]: fcol, "fx_forward_rate": [v for _, v in c["fw"]]}).iloc[c["forder"]].reset_index(drop=True)
    # volatility quotes
    exp = [nth(add_tenor(cd, r["tenor"]), 0, hol) for r in c["rows"]]
    del_ = [nth(add_tenor(cd, r["tenor"]), off, hol) for r in c["rows"]]
    cols = {}
    if c["by"] in ("tenor", "both"):
        cols["tenor"] = [r["tenor"] for r in c["rows"]]
    if c["by"] in ("expiry_date", "both"):
        cols["expiry_date"] = [ts(x) for x in exp]
    if c["by"] == "delivery_date":
        cols["delivery_date"] = [ts(x) for x in del_]
        exp = [nth(d, -off, hol) for d in del_]
    cols["delta_convention"] = [r["conv"] for r in c["rows"]]
    full = ["%s_delta_put" % d for d in c["deltas"]] + ["atm_delta_neutral"] + ["%s_delta_call" % d for d in c["deltas"][::-1]]
    signed = [-int(d) / 100 for d in c["deltas"]] + [.5] + [int(d) / 100 for d in c["deltas"][::-1]]

    def quote(r, q):
        s, d = r["smile"], q.split("_")[0]
        return s["atm"] if q.startswith("atm") else s["rr" + d] if q.endswith("riskreversal") else s["bf" + d] if q.endswith("butterfly") else s["atm"] + s["bf" + d] + s["rr" + d] / 2 * (1 if q.endswith("call") else -1)
    for q, name in c["quotes"]:
        cols[name] = [quote(r, q) for r in c["rows"]]
    vdf = pd.DataFrame(cols).iloc[c["order"]].reset_index(drop=True)
    rows = sorted(zip(exp, c["rows"]), key=lambda x: x[0])
    act = lambda d: year_act_act(cd, d)
    for (a, ra), (e, re) in zip(rows, rows[1:]):
        if any(quote(re, q) ** 2 * act(e) < quote(ra, q) ** 2 * act(a) for q in full):
            return None                 # calendar arbitrage: no interpolated smile
    keep = fdf.copy(deep=True), vdf.copy(deep=True)
    s = FXVolatilitySurface(domestic_ccy=c["pair"][3:], foreign_ccy=c["pair"][:3], fx_forward_curve_df=fdf, domestic_zero_curve=zc[0], foreign_zero_curve=zc[1], vol_quotes=vdf,
                            curve_date=ts(cd), spot_offset=c["off"], cal=cal, smile_interpolation_method=M.CUBIC_SPLINE if c["cubic"] else M.UNIVARIATE_SPLINE)
    if not (fdf.equals(keep[0]) and vdf.equals(keep[1])):
        return "the quotes given were modified"
    spot = [v for x, v in c["fw"] if x == "SP"][0]
    if not close(s.fx_spot_rate, spot):
        return "spot rate %r, quoted %r" % (s.fx_spot_rate, spot)
    if list(s.quotes_column_names) != full or max(abs(a - z) for a, z in zip(s.quotes_signed_delta, signed)) > 1e-15 or list(s.quotes_call_put_flag) != [1 if x > 0 else -1 for x in signed]:
        return "quote columns %r %r %r" % (list(s.quotes_column_names), list(s.quotes_signed_delta), list(s.quotes_call_put_flag))
    pair = sorted(zip(fix, [v for _, v in c["fw"]]))
    F = lambda d: float(np.interp(d, [p[0] for p in pair], [p[1] for p in pair]))
    z = lambda i, d: float(np.asarray(zc[i].get_zero_rates(dates=pd.DatetimeIndex([ts(d)]), compounding_freq=CompoundingFreq.CONTINUOUS)).ravel()[0])
    pl = s.vol_smile_pillar_df
    if len(pl) != len(rows):
        return "%d expiries for %d quotes" % (len(pl), len(rows))

    def market(what, got, d):
        for key, w in (("expiry_years", act(d)), ("fx_forward_rate", F(d)), ("domestic_zero_rate", z(0, d)), ("foreign_zero_rate", z(1, d))):
            if not close(got[key], w, 1e-9):
                return "%s %s: %s %r, expected %r" % (what, iso(d), key, got[key], w)

    def strikes(tau, f, conv, vols, rf):
        out = []
        for v, sd in zip(vols, signed):
            cp, sq = (1 if sd > 0 else -1), v * math.sqrt(tau)
            if sd == .5:
                out.append(f * math.exp(.5 * sq * sq * (1 if conv.startswith("regular") else -1)))
            elif conv.startswith("regular"):
                from scipy.stats import norm
                out.append(f * math.exp(-cp * norm.ppf(cp * sd * (math.exp(rf * tau) if conv.endswith("spot") else 1)) * sq + .5 * sq * sq))
            else:
                out.append(None)
        return out
    for i, (d, r) in enumerate(rows):
        got = pl.iloc[i]
        if str(got["expiry_date"])[:10] != iso(d):
            return "expiry %s, expected %s" % (got["expiry_date"], iso(d))
        e = market("quotes", got, d)
        if e:
            return e
        if got["delta_convention"] != r["conv"]:
            return "delta convention of %s: %s, quoted %s" % (iso(d), got["delta_convention"], r["conv"])
        for q in full:
            if not close(got[q], quote(r, q), 1e-12):
                return "%s at %s: %r, quoted %r" % (q, iso(d), got[q], quote(r, q))
        want = strikes(act(d), F(d), r["conv"], [quote(r, q) for q in full], z(1, d))
        for q, w in zip(full, want):
            if w is not None and not close(s.strike_pillar_df[q].iloc[i], w, 1e-8):
                return "strike of %s at %s: %r, expected %r" % (q, iso(d), s.strike_pillar_df[q].iloc[i], w)

    def smile(d):
        j = max(i for i in range(len(rows)) if rows[i][0] <= d)
        if rows[j][0] == d:
            return [quote(rows[j][1], q) for q in full], rows[j][1]["conv"]
        (a, ra), (e, re) = rows[j], rows[j + 1]
        ta, te, td = act(a), act(e), act(d)
        w = [quote(ra, q) ** 2 * ta + (quote(re, q) ** 2 * te - quote(ra, q) ** 2 * ta) * (td - ta) / (te - ta) for q in full]
        return [math.sqrt(x / td) if x > 0 else None for x in w], re["conv"]
    dd = s.vol_smile_daily_df
    lo, hi = rows[0][0], rows[-1][0]
    if len(dd) != hi - lo + 1:
        return "%d days from %s to %s" % (len(dd), iso(lo), iso(hi))
    step = max(1, len(dd) // 25)
    for i in sorted(set(range(0, len(dd), step)) | {d - lo for d, _ in rows}):
        got, d = dd.iloc[i], lo + i
        if str(got["expiry_date"])[:10] != iso(d):
            return "day %d is %s, expected %s" % (i, got["expiry_date"], iso(d))
        e = market("day", got, d)
        if e:
            return e
        v, conv = smile(d)
        if got["delta_convention"] != conv:
            return "delta convention on %s: %s, expected %s" % (iso(d), got["delta_convention"], conv)
        for q, w in zip(full, v):
            if not close(got[q], w, 1e-9):
                return "%s on %s: %r, expected %r" % (q, iso(d), got[q], w)
    # options in any order, some on one date
    days = [lo + int(u * (hi - lo)) for u, _, _ in c["opts"]]
    if len(days) > 2:
        days[-1] = days[0]
    K, want = [], []
    for d, (u, m, cp) in zip(days, c["opts"]):
        v, conv = smile(d)
        ks = strikes(act(d), F(d), conv, v, z(1, d))
        if any(x is None for x in ks):
            ks = None
            k = F(d) * math.exp(m * .05 * math.sqrt(act(d)))
        else:
            k = ks[0] + (ks[-1] - ks[0]) * (m + 1.2) / 2.4
            if u < .3:
                k = ks[int(u * 1000) % len(ks)]
        K.append(k)
        want.append(None if ks is None else float(CubicSpline(ks, v)(k)) if c["cubic"] else float(InterpolatedUnivariateSpline(ks, v, k=min(3, max(2, len(ks) - 1)))(k)))
    cps = [o[2] for o in c["opts"]]
    r = s.price_vanilla_european(pd.DatetimeIndex([ts(d) for d in days]), np.array(K), np.array(cps))
    md = r["market_data_inputs"]
    for i, d in enumerate(days):
        vol = float(md["vol"].iloc[i])
        if want[i] is not None and not close(vol, want[i], 1e-7):
            return "option %d (%s, strike %r): volatility %r, expected %r" % (i, iso(d), K[i], vol, want[i])
        for key, w in (("F", F(d)), ("r_d", z(0, d)), ("r_f", z(1, d))):
            if not close(md[key].iloc[i], w, 1e-9):
                return "option %d: %s %r, expected %r" % (i, key, md[key].iloc[i], w)
        tau, f = act(d), F(d)
        sq = vol * math.sqrt(tau)
        d1 = math.log(f / K[i]) / sq + sq / 2
        px = math.exp(-z(1, d) * tau) * spot / f * cps[i] * (f * ncdf(cps[i] * d1) - K[i] * ncdf(cps[i] * (d1 - sq)))
        if not close(r["price"][i], px, 1e-8, 1e-12 * spot):
            return "option %d (%s, strike %r, %+d): price %r, expected %r" % (i, iso(d), K[i], cps[i], r["price"][i], px)


def year_act_act(a, z):
    """ACT/ACT (ISDA): days in leap years / 366 plus days in other years / 365"""
    import datetime
    b0 = datetime.date(1970, 1, 1)
    x, y, tot = b0 + datetime.timedelta(a), b0 + datetime.timedelta(z), 0.0
    while x < y:
        e = min(y, datetime.date(x.year + 1, 1, 1))
        tot += (e - x).days / (366 if x.year % 4 == 0 and (x.year % 100 or x.year % 400 == 0) else 365)
        x = e
    return tot


CONTRACTS = [terms(g, "fixing_date") for g in (["tenor"], ["fixing_date"], ["delivery_date"], ["tenor", "fixing_date", "delivery_date"])]
CONTRACTS += [strategies(["25"], []), strategies(["10", "25"], []), strategies(["10", "25"], ["10_delta_call", "25_delta_put"]), names(), details(), forwards("fixing_date", "Series", True), forwards("delivery_date", "DatetimeIndex", True), forwards("delivery_date", "DatetimeIndex", False),
              pillar_rows(), daily(), strikes(),
              smile("UNIVARIATE_SPLINE"), requested(False), requested(True)]
PROP = Prop("C18", "FX", contracts=CONTRACTS, runtimes=[
    Runtime("dates from tenors, fixings and deliveries", gen_terms, check_terms, 60, fn=FH + ".fx_term_structure_helper"),
    Runtime("forward rates of dates", gen_fwd, check_fwd, 60, fn=FH + ".interp_fx_forward_curve_df"),
    Runtime("whole surface", gen_surface, check_surface, 25, fn=VS)], unverified=[])
PROP.imports = [FH, FS]
