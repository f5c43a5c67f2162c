from ..core import Prop, Contract, Runtime
from .c15_schedule import notionals
from ..spec import *
from .. import frames as FR
from ..lift import DF, Series

LG = "frm.instruments.leg"
SW = "frm.instruments.swap"


# ------------------------------------------------------------------------------------------------ contracts
S_ = lambda v, *ix, sort="R": wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), sort))
YF = lambda x, y: Sym(t.app("YF", (term(x), term(y))))
P_ = lambda o: Sym(t.app("P", (term(o),)))
VD = I("vd")
BASIS = object()


def b(c):
    return SymBool(t.TRUE if c else t.FALSE)


def find_app(v, kind):
    return [u for u in t.subterms(term(v)) if u.op == "app" and u.args[0].startswith(kind + "<")]


def nulld(name, n):
    """date column with missing entries: ordinal name[i], missing where name_null[i]"""
    return GArr((n,), lambda ix: D.NullDate(S_(name, *map(Sym, ix), sort="I"), S_(name + "_null", *map(Sym, ix), sort="B")), kind="D")


def year_frac(d1, d2, day_count_basis):
    """callee contract (C01): a function of the two dates for the leg's day count basis"""
    if day_count_basis is not BASIS:
        raise Unsupported("year_frac called with another basis")
    return nm.elementwise(lambda x, y: YF(x.o, y.o), d1, d2, kind="f")


class Curve:
    """callee contract of the discount curve (C14): a factor per date; nothing is known of the entry of a missing date"""
    def get_discount_factors(self, dates=None, days=None, years=None):
        if dates is None:
            raise Unsupported("discount factors not asked by date")
        return nm.elementwise(lambda d: P_(d.o) if getattr(d, "null", None) is None else nm.gite(d.null, Sym(t.app("noP", (term(d.o),))), P_(d.o)), dates, kind="f")


class Sched:
    pass


COLS = ("notional", "notional_payment", "period_yearfrac", "period_daycount")


class Setup:
    """a leg over a schedule of n rows of arbitrary dates, notionals and rates; missing dates (the row of the initial exchange) have no period and no coupon"""

    def __init__(self, k, cls, incl, field, **attrs):
        self.m, self.k, self.incl = k.L.load(LG), k, incl
        st = k.L.load("frm.utils")
        self.st = st
        self.n = I("n")
        self.i = Sym(nm.generic_index(self.n))
        self.sch = Sched()
        self.sch.df = DF({**{c: nulld(c, self.n) for c in ("period_start", "period_end", "notional_payment_date", "coupon_payment_date")},
                          **{c: vec(c, self.n) for c in COLS}, **({field: vec(field, self.n)} if field else {})})
        self.leg = object.__new__(getattr(self.m, cls))
        self.leg.__dict__.update(schedule=self.sch, discount_curve=Curve(), day_count_basis=BASIS, **attrs)
        self.g = lambda c: el(c, self.n)
        self.d = lambda c, i=None: S_(c, self.i if i is None else i, sort="I")
        self.null = lambda c, i=None: S_(c + "_null", self.i if i is None else i, sort="B")

    def __enter__(self):
        self.p1 = patched(self.m, year_frac=year_frac)
        self.p2 = patched(self.st, VALUE_DATE=D.SymDate.from_ordinal(VD), INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV=self.incl, LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW=False)
        self.p1.__enter__()
        self.p2.__enter__()
        return self

    def __exit__(self, *a):
        self.p2.__exit__()
        self.p1.__exit__()

    # ---- specification
    def live(self, c, i=None):
        """the date is not missing and after the value date (or on it, where the setting says so)"""
        d = self.d(c, i)
        return And(Not(self.null(c, i)), d >= VD if self.incl else d > VD)

    def current(self, i=None):
        """the value date is in the period"""
        return And(Not(self.null("period_start", i)), Not(self.null("period_end", i)), self.d("period_start", i) <= VD, VD < self.d("period_end", i))

    def amount(self, years, rate):
        """interest on the row's notional over `years` at the row's rate"""
        N = self.g("notional")
        if not isinstance(self.leg, self.m.ZerocouponLeg):
            return N * rate * years
        return N * (1 / dfac(self.leg.compounding_freq, years, rate) - 1)

    def coupon(self, rate):
        """the row's coupon: none where there is no coupon date"""
        return If(self.null("coupon_payment_date"), C(0), self.amount(self.g("period_yearfrac"), rate))

    def pv(self, rate):
        """the row's contribution to the value of the leg"""
        v = C(0)
        for c, a in (("notional", self.g("notional_payment")), ("coupon", self.coupon(rate))):
            v = v + a * If(self.live(c + "_payment_date"), P_(self.d(c + "_payment_date")), C(0))
        return v

    def sum_is(self, name, got, want):
        """got is one sum over the rows whose terms are `want`"""
        s_ = find_app(got, "SUM")
        ok = len(s_) == 1 and term(got) is s_[0] and s_[0].args[0] == "SUM<%s>" % t.show(term(self.n))
        self.k.ensure(name + " is a sum over the rows", b(ok))
        if ok:
            self.k.ensure(name, self.gen_(Eq(Sym(s_[0].args[1]), want)))

    limits = ()

    def gen_(self, goal):
        """the goal for arbitrary limit dates in place of the ones at hand, where that stronger goal holds"""
        from .. import smt
        g = t.subst(term(goal), {term(o): t.var("limit%d" % j, "I") for j, o in enumerate(self.limits)})
        return SymBool(g) if smt.check([t.not_(g)], 3000)[0] == "unsat" else goal


def dfac(freq, years, rate):
    """discount factor of a zero rate (C04)"""
    if freq.name == "CONTINUOUS":
        return exp(-rate * years)
    if freq.name == "SIMPLE":
        return 1 / (1 + rate * years)
    m_ = {"ANNUAL": 1, "SEMIANNUAL": 2, "QUARTERLY": 4, "MONTHLY": 12, "WEEKLY": 52, "DAILY": 365}[freq.name]
    return 1 / nm._scalar_pow(1 + rate / m_, m_ * years) if hasattr(nm, "_scalar_pow") else 1 / ((1 + rate / m_) ** (m_ * years))


LEGS = [("FixedLeg", "fixed_rate", lambda m: {}), ("ZerocouponLeg", "zero_rate", lambda m: {"compounding_freq": m.CompoundingFreq.SIMPLE}),
        ("ZerocouponLeg", "zero_rate", lambda m: {"compounding_freq": m.CompoundingFreq.CONTINUOUS}), ("ZerocouponLeg", "zero_rate", lambda m: {"compounding_freq": m.CompoundingFreq.ANNUAL}),
        ("ZerocouponLeg", "zero_rate", lambda m: {"compounding_freq": m.CompoundingFreq.QUARTERLY})]
INST = []
PRE = [(I("n") >= 1).t]


def each(k, legs=LEGS, incls=(False, True)):
    m = k.L.load(LG)
    for cls, field, at_ in legs:
        a = at_(m)
        for incl in incls:
            lab = "%s%s%s" % (cls, " " + a["compounding_freq"].name.lower() if a else "", ", payments on the value date included" if incl else "")
            yield lab, (lambda cls=cls, field=field, a=a, incl=incl: Setup(k, cls, incl, field, **a)), field


def coupons(k):
    for lab, mk, field in each(k, incls=(False,)):
        for over in (False, True):
            def run():
                with mk() as s:
                    s.leg.calc_coupon_payment(**({"coupon_override": R("x")} if over else {}))
                    df = s.sch.df
                    k.ensure("coupon of the row: interest on its notional at its rate for its year fraction, zero without coupon date", Eq(gen(df["coupon_payment"]), s.coupon(R("x") if over else s.g(field))))
                    k.ensure("notionals and dates are unchanged", And(Eq(gen(df["notional"]), s.g("notional")), Eq(gen(df["notional_payment"]), s.g("notional_payment")), Eq(gen(df["coupon_payment_date"]).o, s.d("coupon_payment_date"))))
            k.verify(lab + (" solved rate" if over else ""), run, PRE + dom(mk().g(field) if not over else R("x"), mk().g("period_yearfrac")), INST)


def dom(r, y):
    return [(r > Q(-1, 2)).t, (y >= 0).t, (y <= 1).t]


def factors(k):
    for lab, mk, field in each(k, LEGS[:1]):
        for prefix in ("notional_", "coupon_"):
            def run():
                with mk() as s:
                    s.leg._discount_payments(prefix=prefix)
                    c = prefix + "payment_date"
                    k.ensure("the curve's factor of the payment date after the value date, else zero", Eq(gen(s.sch.df[prefix + "discount_factor"]), If(s.live(c), P_(s.d(c)), C(0))))
            k.verify(lab + " " + prefix, run, PRE, INST)

    def none():
        with Setup(k, "FixedLeg", False, "fixed_rate") as s:
            s.leg.discount_curve = None
            s.leg._discount_payments(prefix="coupon_")
            k.ensure("no curve, no value", b(False))
    k.verify("no curve", none, PRE, INST, raises=lambda e: type(e).__name__ == "MarketDataNotAvailableError", expect_paths=0)


def values(k):
    for lab, mk, field in each(k):
        for over in (False, True):
            def run():
                with mk() as s:
                    v = s.leg.calc_dirty_pv(**({"coupon_override": R("x")} if over else {}))
                    s.sum_is("value of the leg: notional and coupon payments after the value date times the factors of their dates", v, s.pv(R("x") if over else s.g(field)))
            k.verify(lab + (" solved rate" if over else ""), run, PRE + dom(mk().g(field) if not over else R("x"), mk().g("period_yearfrac")), INST)


def at_first(s, u):
    """the code asks for the first current row: its index is a current row, and periods do not overlap, so it is the only one"""
    J = [Sym(v) for f in [term(u)] + Ctx.cur.facts() for v in t.subterms(f) if v.op == "var" and v.args[0].startswith("first@")]
    for j in J:
        Ctx.cur.assume(Implies(And(s.current(), s.current(j)), Eq(j, s.i)))


def find_app_s(u, kind):
    return {v for f in [term(u)] + Ctx.cur.facts() for v in t.subterms(f) if v.op == "app" and v.args[0].startswith(kind + "<")}


def accrued(k):
    for lab, mk, field in each(k, LEGS + [("FloatTermLeg", "coupon_rate", lambda m: {}), ("FloatRFRLeg", "coupon_rate", lambda m: {})]):
        def run():
            with mk() as s:
                a = s.leg._calc_accrued_interest()
                want = If(s.current(), s.amount(YF(s.d("period_start"), VD), s.g(field)), C(0))
                cnt = current_count(s)
                if isinstance(a, (int, float)):
                    k.ensure("nothing accrues only when no period contains the value date", And(b(a == 0), b(cnt is not None), Eq(cnt if cnt is not None else C(1), C(0))))
                    return
                at_first(s, a)
                s.sum_is("accrued interest: the current period's notional and rate for the year fraction from its start to the value date", a, want)
        k.verify(lab, run, PRE + dom(mk().g(field), YF(mk().d("period_start"), VD)) + dom(R("r0"), C(0)), INST, expect_paths=2)


def current_count(s):
    """the number of current rows the code computed"""
    g = s.current()
    for u in find_app_s(C(0), "SUM"):
        from .. import smt
        if smt.check([t.not_(t.eq(u.args[1], term(If(g, C(1), C(0)))))], 3000)[0] == "unsat":
            return Sym(u)
    return None


def unsettled(k):
    for incl in (False, True):
        for flag in (False, True):
            def run():
                with Setup(k, "FixedLeg", incl, "fixed_rate") as s:
                    s.sch.df["coupon_payment"] = vec("cpn", s.n)
                    s.st.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = flag
                    A = R("acc")
                    s.leg._calc_accrued_interest = lambda: A
                    v = s.leg.calc_accrued_interest()
                    want = If(And(s.live("coupon_payment_date"), Not(s.null("period_end")), s.d("period_end") <= VD), el("cpn", s.n), C(0))
                    if flag:
                        if term(v) is A.t:
                            return
                        s.sum_is("unsettled coupons", v, want)
                    else:
                        s.sum_is("accrued interest: the current period's, and the coupons of ended periods that are not paid yet", v - A, want)
            k.verify("%s%s" % ("payments on the value date included" if incl else "payments after the value date", ", limited" if flag else ""), run, PRE, INST)


def clean(k):
    for cls in ("FixedLeg", "ZerocouponLeg"):
        def run():
            with Setup(k, cls, False, "fixed_rate") as s:
                s.leg.calc_dirty_pv = lambda *a, **kw: R("dirty")
                s.leg.calc_accrued_interest = lambda: R("acc")
                k.ensure("clean value = dirty value - accrued interest", Eq(s.leg.calc_clean_pv(), R("dirty") - R("acc")))
        k.verify(cls, run, [], [])


def split(k):
    for incl in (False, True):
        for calc in (True, False):
            def run():
                with Setup(k, "FixedLeg", incl, "fixed_rate") as s:
                    done = []
                    if not calc:
                        s.sch.df["notional_payment_pv"], s.sch.df["coupon_payment_pv"] = vec("npv", s.n), vec("cpv", s.n)
                        s.leg.calc_dirty_pv = lambda: done.append(1)
                    cur, non = s.leg.get_current_non_current_split(**({} if calc else {"calc_npv": False}))
                    lim = D.SymOffset(years=1)._vp_add_to(D.SymDate.from_ordinal(VD)).o
                    s.limits = [lim]
                    npv, cpv = gen(s.sch.df["notional_payment_pv"]), gen(s.sch.df["coupon_payment_pv"])
                    tot_c = tot_n = C(0)
                    for c, v in (("notional", npv), ("coupon", cpv)):
                        d = s.d(c + "_payment_date")
                        near = And(Not(s.null(c + "_payment_date")), d <= lim if incl else d < lim)
                        tot_c, tot_n = tot_c + If(near, v, C(0)), tot_n + If(near, C(0), v)
                    sums_are(s, "current: the value of the payments within a year", cur, tot_c)
                    sums_are(s, "non-current: the value of all other payments", non, tot_n)
                    if not calc:
                        k.ensure("the values are not computed again", b(not done))
            k.verify("%s%s" % ("payments on the value date included" if incl else "payments after the value date", "" if calc else ", values given"), run, PRE, INST)


def sums_are(s, name, got, want):
    """got is a sum of sums over the rows; their terms add up to `want`"""
    u = term(got)
    parts = list(u.args) if u.op == "add" else [u]
    ok = all(p.op == "app" and p.args[0] == "SUM<%s>" % t.show(term(s.n)) or p is t.const(0) for p in parts)
    s.k.ensure(name + " is a sum over the rows", b(ok))
    if ok:
        v = C(0)
        for p in parts:
            if p.op == "app":
                v = v + Sym(p.args[1])
        s.k.ensure(name, s.gen_(Eq(v, want)))


def make(k):
    """a new leg: signs the notionals of its own copy of the schedule, adds the period lengths and its rate"""
    m, SM = k.L.load(LG), k.L.load("frm.utils.schedule")
    YM = lambda nme: lambda a, c, basis, *r: nm.elementwise(lambda x, y: Sym(t.app(nme, (term(x.o), term(y.o)))), a, c, kind="f") if basis is BASIS else (_ for _ in ()).throw(Unsupported("another basis"))
    for cls, field in (("FixedLeg", "fixed_rate"), ("ZerocouponLeg", "zero_rate"), ("FloatTermLeg", "spread"), ("FloatRFRLeg", "spread")):
        for ex in ("NEITHER", "START", "END", "BOTH"):
            for kind in ("one rate", "rate per period") + (("wrong number of rates",) if cls == "FixedLeg" else ()):
                for pr in ("PAY", "RCV"):
                    def run():
                        n, i = I("n"), Sym(nm.generic_index(I("n")))
                        h = 1 if ex in ("START", "BOTH") else 0
                        sch = object.__new__(SM.CouponSchedule)
                        sch.exchange_notionals = getattr(k.fn("frm.enums.utils.ExchangeNotionals"), ex)
                        nulls = ("period_start", "period_end", "coupon_payment_date")
                        sch.df = DF({**{c: nulld(c, n) for c in ("period_start", "period_end", "notional_payment_date", "coupon_payment_date")}, "notional": vec("notional", n), "notional_payment": vec("notional_payment", n)})
                        Ctx.cur.assume(And(*[Eq(S_(c + "_null", i, sort="B"), i < h) for c in nulls]))
                        mine = sch.df
                        q = R("q") if kind == "one rate" else vec("qs", n - h if kind == "rate per period" else n - h + 1)
                        with patched(SM, year_frac=YM("YF"), day_count=YM("DC")):
                            leg = getattr(m, cls)(schedule=sch, discount_curve=None, pay_rcv=getattr(m.PayRcv, pr), day_count_basis=BASIS, **{field: q})
                        df = leg.schedule.df
                        g = lambda c: el(c, n)
                        sg = -1 if pr == "PAY" else 1
                        k.ensure("notionals signed by the direction of the leg", And(Eq(gen(df["notional"]), sg * g("notional")), Eq(gen(df["notional_payment"]), sg * g("notional_payment"))))
                        k.ensure("dates as given", And(*[Eq(gen(df[c]).o, S_(c, i, sort="I")) for c in ("period_start", "period_end", "coupon_payment_date", "notional_payment_date")]))
                        a_, c_ = S_("period_start", i, sort="I"), S_("period_end", i, sort="I")
                        k.ensure("period lengths by the leg's day count basis", Implies(i >= h, And(Eq(gen(df["period_yearfrac"]), YF(a_, c_)), Eq(gen(df["period_daycount"]), Sym(t.app("DC", (term(a_), term(c_))))))))
                        k.ensure("the rate of the period", Implies(i >= h, Eq(gen(df[field]), R("q") if kind == "one rate" else S_("qs", i - h))))
                        k.ensure("the given schedule is unchanged", And(b(sch.df is mine and list(mine.cols) == ["period_start", "period_end", "notional_payment_date", "coupon_payment_date", "notional", "notional_payment"]),
                                                                        Eq(gen(mine["notional"]), g("notional")), Eq(gen(mine["notional_payment"]), g("notional_payment"))))
                        if kind == "wrong number of rates":
                            k.ensure("one rate, or one per period", b(False))
                    k.verify("%s %s, %s, %s" % (cls, ex, kind, pr), run, [(I("n") >= (3 if kind != "one rate" else 2)).t], [], raises=(lambda e: type(e).__name__ == "ValueError") if kind.startswith("wrong") else None, expect_paths=0 if kind.startswith("wrong") else 1)


def buckets(k):
    for incl in (False, True):
        for calc in (True, False):
            def run():
                with Setup(k, "FixedLeg", incl, "fixed_rate") as s:
                    s.sch.df["coupon_payment"] = vec("cpn", s.n)
                    done = []
                    s.leg.calc_dirty_pv = lambda: done.append(1)
                    r = s.leg.bucket_payments(**({} if calc else {"calc_npv": False, "buckets": (1, 4)}))
                    years = (1, 2, 3, 5) if calc else (1, 4)
                    edges = [D.SymOffset(years=y)._vp_add_to(D.SymDate.from_ordinal(VD)).o for y in years]
                    s.limits = edges
                    k.ensure("payments computed first" if calc else "payments not computed again", b(len(done) == calc))
                    k.ensure("a bucket per limit and one beyond", shape_is(r["total_payment"], len(years) + 1))
                    for j in range(len(years) + 1):
                        tot = {}
                        for c, v in (("coupon", el("cpn", s.n)), ("notional", s.g("notional_payment"))):
                            d = s.d(c + "_payment_date")
                            inb = And(s.live(c + "_payment_date") if j == 0 else And(Not(s.null(c + "_payment_date")), d >= edges[j - 1]), d < edges[j] if j < len(years) else b(True))
                            tot[c] = If(inb, v, C(0))
                            s.sum_is("bucket %d: %s payments from the previous limit to before its own" % (j, c), at(r[c + "_payment"], j), tot[c])
                        sums_are(s, "bucket %d: all payments" % j, at(r["total_payment"], j), tot["coupon"] + tot["notional"])
            k.verify("%s%s" % ("payments on the value date included" if incl else "payments after the value date", "" if calc else ", payments given"), run, PRE, INST)


def solve(k):
    for cls, field in (("FixedLeg", "fixed_rate"), ("ZerocouponLeg", "zero_rate")):
        for what in ("target", "par"):
            for incl in (False, True) if what == "par" else (False,):
                def run():
                    k.L.opt.mode = "exact"
                    try:
                        with Setup(k, cls, incl, field, **({} if cls == "FixedLeg" else {"compounding_freq": None})) as s:
                            def value(coupon_override=None):
                                """callee contract: a function of the rate; leaves its working columns in the schedule"""
                                if coupon_override is None:
                                    raise Unsupported("value of the leg without the trial rate")
                                s.leg.schedule.df[field] = coupon_override
                                s.leg.schedule.df["coupon_payment"] = coupon_override
                                return Sym(t.app("PV", (term(coupon_override),)))
                            s.leg.calc_dirty_pv = value
                            if what == "par":
                                x = s.leg.par_solve()
                                want = If(s.live("notional_payment_date"), s.g("notional_payment"), C(0))
                            else:
                                x = s.leg.target_solve(R("T"))
                            df = s.leg.schedule.df
                            k.ensure("the schedule is as before", And(b(list(df.cols) == ["period_start", "period_end", "notional_payment_date", "coupon_payment_date", *COLS, field]), *[Eq(gen(df[c]), s.g(c)) for c in (field, *COLS)]))
                            if FR._isnan(term(x)) is t.TRUE or x != x:
                                k.ensure("no rate only when the value does not change sign over the bracket", b(any("same_sign" in t.show(f) and f.op != "not" for f in Ctx.cur.pc)))
                                return
                            tgt = R("T")
                            if what == "par":
                                eqs = [f for f in Ctx.cur.assumed if find_app(SymBool(f), "SUM") and f.op == "eq"]
                                sm = {u for f in eqs for u in find_app(SymBool(f), "SUM")}
                                k.ensure("one outstanding notional", b(len(sm) == 1))
                                if len(sm) != 1:
                                    return
                                tgt = Sym(next(iter(sm)))
                                s.sum_is("par value: the notional payments after the value date", tgt, want)
                            k.ensure("the leg is worth the target at the solved rate", Eq(Sym(t.app("PV", (term(x),))), tgt))
                    finally:
                        k.L.opt.mode = "free"
                k.verify("%s %s%s" % (cls, what, " included" if incl else ""), run, PRE, INST, expect_paths=2)


class FakeLeg:
    def __init__(self, nme, pr):
        self.n, self.pay_rcv, self.asked = nme, pr, []

    def calc_dirty_pv(self, coupon_override=None):
        return R(self.n + "_pv")

    def calc_accrued_interest(self):
        return R(self.n + "_acc")

    def par_solve(self):
        return R(self.n + "_par")

    def target_solve(self, target_value):
        return Sym(t.app("solve_" + self.n, (term(target_value),)))


def swap(k):
    m = k.L.load(SW)
    PR = k.L.load(LG).PayRcv

    def run():
        w = m.Swap(leg1=FakeLeg("a", PR.PAY), leg2=FakeLeg("b", PR.RCV))
        k.ensure("value: the sum of the legs", Eq(w.calc_dirty_pv(), R("a_pv") + R("b_pv")))
        k.ensure("accrued interest: the sum of the legs", Eq(w.calc_accrued_interest(), R("a_acc") + R("b_acc")))
        k.ensure("clean value: value less accrued interest of both legs", Eq(w.calc_clean_pv(), R("a_pv") + R("b_pv") - R("a_acc") - R("b_acc")))
        x, y = w.par_solve_each_leg()
        k.ensure("par rates leg by leg", And(Eq(x, R("a_par")), Eq(y, R("b_par"))))
        k.ensure("leg 1 is solved for the target less the other leg", Eq(w.target_solve_swap(R("T"), 1), Sym(t.app("solve_a", ((R("T") - R("b_pv")).t,)))))
        k.ensure("leg 2 is solved for the target less the other leg", Eq(w.target_solve_swap(target_pv=R("T"), leg_number=2), Sym(t.app("solve_b", ((R("T") - R("a_pv")).t,)))))
    k.verify("swap", run, [], [])

    def other():
        m.Swap(leg1=FakeLeg("a", PR.RCV), leg2=FakeLeg("b", PR.PAY)).target_solve_swap(R("T"), I("k"))
    k.verify("there are two legs", other, [Not(Or(I("k") == 1, I("k") == 2)).t], [], raises=lambda e: type(e).__name__ == "ValueError", expect_paths=0)
    for d in PR:
        k.verify("opposite directions (%s)" % d.name, lambda: m.Swap(leg1=FakeLeg("a", d), leg2=FakeLeg("b", d)), [], [], raises=lambda e: type(e).__name__ == "AssertionError", expect_paths=0)


# ------------------------------------------------------------------------------------------------ run time
def gen_l(rng):
    n = rng.randint(1, 6)
    amort = rng.random() < .4
    c = {"start": rng.randint(737500, 738500), "months": rng.choice([1, 3, 6, 12]), "n": n, "ex": rng.choice(["NEITHER", "START", "END", "BOTH"]),
         "not": [round(100 * (1 - .1 * k), 2) for k in range(n)] if amort else 100.0, "delay": rng.choice([0, 0, 2, 5]), "basis": rng.choice(["ACT_360", "ACT_365", "_30_360"]),
         "pay": rng.random() < .5, "freq": rng.choice(["ANNUAL", "SIMPLE", "CONTINUOUS", "QUARTERLY"]), "z": rng.uniform(-.005, .05), "incl": rng.random() < .4, "r2": rng.uniform(-.02, .1), "tgt": rng.uniform(-3, 3)}
    c["rate"] = [rng.uniform(0, .09) for _ in range(n)] if rng.random() < .3 else rng.uniform(-.01, .1)
    c["vd"] = rng.choice([None, None, "start", "end", "pay", "out"]), rng.random()
    return c


def check_l(c):
    import numpy as np, pandas as pd, datetime, io, contextlib, warnings
    import frm.utils, frm.instruments.leg as L, frm.instruments.swap as W
    from frm.term_structures.zero_curve import ZeroCurve
    from frm.utils import CouponSchedule, year_frac
    from frm.enums import PeriodFreq, ExchangeNotionals, DayCountBasis, CompoundingFreq, PayRcv
    start = pd.Timestamp(datetime.date.fromordinal(c["start"])).replace(day=5)
    end = start + pd.DateOffset(months=c["months"] * c["n"])
    freq = {1: "MONTHLY", 3: "QUARTERLY", 6: "SEMIANNUAL", 12: "ANNUAL"}[c["months"]]
    old = frm.utils.VALUE_DATE, frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mk = lambda x: CouponSchedule(start_date=start, end_date=end, freq=getattr(PeriodFreq, freq), notional_amount=x,
                                          exchange_notionals=getattr(ExchangeNotionals, c["ex"]), coupon_payment_delay=c["delay"])
            s = mk(100.0)
            n = int(s.df["period_start"].notna().sum())
            fit = lambda x: np.array([x[k % len(x)] for k in range(n)]) if isinstance(x, list) else x
            if isinstance(c["not"], list):
                s = mk(fit(c["not"]))
            keep = s.df.copy()
            rows = s.df.to_dict("records")
            ns = list(fit(c["not"])) if isinstance(c["not"], list) else [100.0] * n
            flows = ([-ns[0]] if c["ex"] in ("START", "BOTH") else []) + [a - b for a, b in zip(ns, ns[1:])] + [ns[-1] if c["ex"] in ("END", "BOTH") else 0.0]
            if len(rows) != len(flows) or not all(close(r["notional_payment"], f) for r, f in zip(rows, flows)):
                return "%s notional payments %s, the notionals %s call for %s" % (c["ex"], [r["notional_payment"] for r in rows], ns, flows)
            kind, u = c["vd"]
            row = [r for r in rows if not pd.isna(r["period_start"])][int(u * 99) % n]
            vd = {"start": row["period_start"], "end": row["period_end"], "pay": row["coupon_payment_date"], "out": end + pd.Timedelta(days=40) if u < .5 else start - pd.Timedelta(days=10)}.get(
                kind, start + pd.Timedelta(days=int(u * (end - start).days)))
            frm.utils.VALUE_DATE, frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = vd, c["incl"]
            basis = getattr(DayCountBasis, c["basis"])
            zc = ZeroCurve(curve_date=vd, pillar_df=pd.DataFrame({"days": [30, 400, 4000], "discount_factor": [math.exp(-c["z"] * k / 365) for k in (30, 400, 4000)]}), day_count_basis=DayCountBasis.ACT_365)
            P = lambda d: math.exp(-c["z"] * (d - vd).days / 365)
            rate = fit(c["rate"])
            cf = getattr(CompoundingFreq, c["freq"])
            df_of = lambda z, y: {"ANNUAL": lambda: (1 + z) ** -y, "SIMPLE": lambda: 1 / (1 + z * y), "CONTINUOUS": lambda: math.exp(-z * y), "QUARTERLY": lambda: (1 + z / 4) ** (-4 * y)}[c["freq"]]()
            live = lambda d: (not pd.isna(d)) and (d >= vd if c["incl"] else d > vd)

            def ref(sign, r, zero, override=None):
                k, pv, acc, uns, split, pay = 0, 0.0, 0.0, 0.0, [0.0, 0.0], []
                for w in rows:
                    cpn = 0.0
                    if not pd.isna(w["coupon_payment_date"]):
                        q = override if override is not None else r[k] if isinstance(r, np.ndarray) else r
                        k += 1
                        g = lambda y: (1 / df_of(q, y) - 1) if zero else q * y
                        cpn = sign * w["notional"] * g(year_frac(w["period_start"], w["period_end"], basis))
                        if w["period_start"] <= vd < w["period_end"]:
                            acc += sign * w["notional"] * g(year_frac(w["period_start"], vd, basis))
                        if live(w["coupon_payment_date"]) and w["period_end"] <= vd:
                            uns += cpn
                    for amt, d in ((cpn, w["coupon_payment_date"]), (sign * w["notional_payment"], w["notional_payment_date"])):
                        v = amt * P(d) if live(d) else 0.0
                        pv += v
                        if live(d):
                            lim = vd + pd.DateOffset(years=1)
                            split[0 if (d <= lim if c["incl"] else d < lim) else 1] += v
                            pay.append((d, amt))
                return pv, acc + uns, split, pay
            legs = []
            for sign, pr in ((-1, PayRcv.PAY), (1, PayRcv.RCV)) if c["pay"] else ((1, PayRcv.RCV), (-1, PayRcv.PAY)):
                zero = len(legs) == 1
                kw = dict(schedule=s, discount_curve=zc, pay_rcv=pr, day_count_basis=basis)
                leg = L.ZerocouponLeg(zero_rate=c["r2"], compounding_freq=cf, **kw) if zero else L.FixedLeg(fixed_rate=rate, **kw)
                r = c["r2"] if zero else rate
                nme = "zero coupon" if zero else "fixed"
                legs.append((leg, sign, r, zero))
                pv, acc, split, pay = ref(sign, r, zero)
                tol = lambda x, y: close(x, y, 1e-9, 1e-8)
                if not tol(leg.calc_dirty_pv(), pv):
                    return "%s leg value %r, the discounted payments after the value date are worth %r" % (nme, leg.calc_dirty_pv(), pv)
                if not tol(leg.calc_accrued_interest(), acc):
                    return "%s leg accrued interest %r, expected %r" % (nme, leg.calc_accrued_interest(), acc)
                if not tol(leg.calc_clean_pv(), pv - acc):
                    return "%s leg clean value %r, expected %r" % (nme, leg.calc_clean_pv(), pv - acc)
                cur = leg.get_current_non_current_split()
                if not all(tol(x, y) for x, y in zip(cur, split)):
                    return "%s leg current / non-current %r, expected %r" % (nme, cur, split)
                b = leg.bucket_payments()
                edges = [vd + pd.DateOffset(years=k) for k in (1, 2, 3, 5)]
                want = [0.0] * 5
                for d, a in pay:
                    want[sum(d >= e for e in edges)] += a
                if not all(tol(x, y) for x, y in zip(b["total_payment"].to_list(), want)):
                    return "%s leg buckets %r, expected %r" % (nme, b["total_payment"].to_list(), want)
                cols = leg.schedule.df.copy()
                f0, f1 = ref(sign, r, zero, -.1)[0], ref(sign, r, zero, 3.)[0]
                for what, tg in (("par", sum(sign * w["notional_payment"] for w in rows if live(w["notional_payment_date"]))), ("target", c["tgt"])):
                    x = leg.par_solve() if what == "par" else leg.target_solve(tg)
                    if (f0 - tg) * (f1 - tg) < 0:
                        if not close(ref(sign, r, zero, float(x))[0], tg, 1e-7, 1e-6):
                            return "%s leg %s solve gives %r, which is worth %r, not %r" % (nme, what, x, ref(sign, r, zero, float(x))[0], tg)
                    elif (f0 - tg) * (f1 - tg) > 0 and x == x:
                        return "%s leg %s solve gives %r without solution" % (nme, what, x)
                    if not leg.schedule.df.equals(cols):
                        return "%s leg %s solve changed the schedule" % (nme, what)
            w = W.Swap(leg1=legs[0][0], leg2=legs[1][0])
            pvs, accs = [ref(*v[1:])[0] for v in legs], [ref(*v[1:])[1] for v in legs]
            if not tol(w.calc_dirty_pv(), sum(pvs)) or not tol(w.calc_clean_pv(), sum(pvs) - sum(accs)) or not tol(w.calc_accrued_interest(), sum(accs)):
                return "swap value is not the sum of its legs"
            for k in (0, 1):
                x = w.target_solve_swap(c["tgt"], k + 1)
                if x == x:
                    got = ref(*legs[k][1:], float(x))[0] + pvs[1 - k]
                    if not close(got, c["tgt"], 1e-7, 1e-6):
                        return "solving leg %d for a swap value of %r gives %r, with which the swap is worth %r" % (k + 1, c["tgt"], x, got)
            if not s.df.equals(keep):
                return "the schedule given to the legs was modified"
            try:
                W.Swap(leg1=legs[0][0], leg2=legs[0][0])
                return "a swap of two legs of the same direction was accepted"
            except AssertionError:
                pass
    finally:
        frm.utils.VALUE_DATE, frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = old


PROP = Prop("C21", "Legs",
            contracts=[Contract("coupons", [LG + ".FixedLeg.calc_coupon_payment", LG + ".ZerocouponLeg.calc_coupon_payment"], coupons),
                       Contract("discount factors", [LG + ".Leg._discount_payments"], factors),
                       Contract("value", [LG + ".Leg.calc_dirty_pv"], values),
                       Contract("accrued interest of the current period", [LG + ".FixedLeg._calc_accrued_interest", LG + ".ZerocouponLeg._calc_accrued_interest", LG + ".FloatTermLeg._calc_accrued_interest", LG + ".FloatRFRLeg._calc_accrued_interest"], accrued),
                       Contract("accrued interest", [LG + ".Leg.calc_accrued_interest"], unsettled),
                       Contract("clean value", [LG + ".Leg.calc_clean_pv"], clean),
                       Contract("current and non-current", [LG + ".Leg.get_current_non_current_split"], split),
                       Contract("buckets", [LG + ".Leg.bucket_payments", LG + ".Leg._bucket_payments_helper"], buckets),
                       Contract("a new leg", [LG + ".Leg.__post_init__", LG + ".Leg._add_contractual_coupon_param", LG + ".FixedLeg.__post_init__", LG + ".ZerocouponLeg.__post_init__", LG + ".FloatTermLeg.__post_init__", LG + ".FloatRFRLeg.__post_init__",
                                              "frm.utils.schedule.CouponSchedule.determine_valid_shapes_for_coupon_param", "frm.utils.schedule.BaseSchedule.add_period_daycount", "frm.utils.schedule.BaseSchedule.add_period_yearfrac"], make),
                       Contract("notionals of the schedule", ["frm.utils.schedule.NotionalSchedule.add_notional_schedule"], notionals),
                       Contract("solving for a rate", [LG + ".Leg.target_solve", LG + ".Leg.par_solve", LG + ".Leg._solver_helper"], solve),
                       Contract("swap", [SW + ".Swap.calc_dirty_pv", SW + ".Swap.calc_clean_pv", SW + ".Swap.calc_accrued_interest", SW + ".Swap.target_solve_swap", SW + ".Swap.par_solve_each_leg", SW + ".Swap.__post_init__"], swap)],
            runtimes=[Runtime("legs", gen_l, check_l, n=60, fn=LG + ".Leg.calc_dirty_pv")],
            unverified=["values of floating legs (the repository has not implemented their fixings; the leg's value is NaN)", "the limit of accrued interest to unsettled cash flows is only checked to return one or the other",
                        "accuracy of scipy's root finder: assumed exact in the proof, evaluated at run time"],
            assumptions=["a trial rate is a function of the rate (callee contract of the value in _solver_helper)", "periods do not overlap"])
PROP.imports = [LG, SW]
