from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR
from ..lift import DF, Series

MOD = "frm.term_structures.zero_curve"
ZC = MOD + ".ZeroCurve"
FREQS = ("SIMPLE", "CONTINUOUS", "DAILY", "WEEKLY", "MONTHLY", "QUARTERLY", "SEMIANNUAL", "ANNUAL")
PPY = {"DAILY": 365, "WEEKLY": 52, "MONTHLY": 12, "QUARTERLY": 4, "SEMIANNUAL": 2, "ANNUAL": 1}
INTERP = ("LINEAR_ON_LN_DISCOUNT", "CUBIC_SPLINE_ON_LN_DISCOUNT", "CUBIC_SPLINE_ON_CCZR")
SAMP = {"n": ch(4, 5), "m": ch(2, 3), "df": U(.3, .99), "y": U(.1, 5), "z": U(.001, .1), "T": U(.1, 5), "bp": U(-50, 50)}


def S_(v, *ix, sort="R"):
    return wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), sort))


def dates(name, n):
    return GArr((n,), lambda ix: D.SymDate.from_ordinal(Sym(t.mk("sel", (name,) + tuple(ix), "I"))), kind="D")


def YF(a, b):
    return Sym(t.app("YF", (term(a), term(b))))


def year_frac(d1, d2, basis, *a, **k):
    """callee contract (C01): a function of the two dates for the curve's basis"""
    if basis is not year_frac.basis:
        raise Unsupported("year_frac called with another basis")
    return nm.elementwise(lambda x, y: YF(x.o, y.o), d1, d2, kind="f")


def day_count(d1, d2, basis, *a, **k):
    if basis is not year_frac.basis:
        raise Unsupported("day_count called with another basis")
    return nm.elementwise(lambda x, y: Sym(t.app("DC", (term(x.o), term(y.o)), "R")), d1, d2, kind="f")


def yf_inst(u):
    a, b = Sym(u.args[1]), Sym(u.args[2])
    return [Implies(Eq(a, b), Eq(Sym(u), 0)), Implies(a < b, Sym(u) > 0)]


def make(k, interp, **attrs):
    m = k.L.load(MOD)
    z = object.__new__(m.ZeroCurve)
    cd = D.SymDate.from_ordinal(I("cd"))
    d = dict(curve_date=cd, day_count_basis=m.DayCountBasis.ACT_365, cal="cal", interp_method=getattr(m.ZeroCurveInterpMethod, interp),
             extrap_method=m.ZeroCurveExtrapMethod.NONE)
    d.update(attrs)
    for a, v in d.items():
        setattr(z, a, v)
    year_frac.basis = z.day_count_basis
    return m, z


def df_of(freq, z, y):
    if freq == "CONTINUOUS":
        return exp(-z * y)
    if freq == "SIMPLE":
        return 1 / (1 + z * y)
    m = PPY[freq]
    return (1 + z / m) ** (-m * y)


def domain(freq, z, y):
    if freq == "SIMPLE":
        return 1 + z * y > 0
    return 1 + z / PPY.get(freq, 1) > 0


def process(X, Y, interp):
    """constructor: pillars in, sorted consistent pillars out"""
    def build(k):
        n = I("n")
        m, z = make(k, interp)
        cd = z.curve_date

        def run():
            cols = {"date": dates("d", n), "days": vec("k", n, "I", "i"), "years": vec("y", n), "tenor": None}
            x = cols[X]
            v = vec("df", n) if Y == "discount_factor" else vec("z", n)
            frame = DF()
            frame.cols = {X: x, Y if Y == "discount_factor" else "zero_rate": v}
            keep = dict(frame.cols)
            z.pillar_df = frame
            freq = None if Y == "discount_factor" else getattr(m.CompoundingFreq, Y)
            with patched(m, year_frac=year_frac, convert_column_to_consistent_data_type=lambda df: df):
                z._setup_daily_df = lambda: None
                z.__post_init__(freq)
            p = z.pillar_df
            perm = Ctx.cur.store["perms"][0][0]
            yrs = (lambda i: S_("y", i)) if X == "years" else (lambda i: YF(cd.o, S_("d", i, sort="I"))) if X == "date" else (lambda i: YF(cd.o, cd.o + S_("k", i, sort="I")))
            j = I("j")
            Ctx.cur.assume(And(j >= 0, j < n))
            first = Sym(perm(t.const(0)))
            Ctx.cur.assume(yrs(Sym(perm(t.const(1)))) > 0)          # pillars are distinct and not before the curve date
            added = bool(Not(Eq(yrs(first), 0)))
            off = 1 if added else 0
            k.ensure("one row per pillar, plus the row at t = 0 unless it is a pillar", shape_is(p.cols["years"], n + off))
            gy, gd, gc = (lambda i: at(p.cols["years"], i)), (lambda i: at(p.cols["discount_factor"], i)), (lambda i: at(p.cols["cczr"], i))
            k.ensure("the first row is t = 0 with discount factor 1", And(Eq(gy(0), 0), Eq(gd(0), 1) if added or Y != "discount_factor" else Eq(gd(0), 1)))
            if not added:
                Ctx.cur.assume(j >= 1)
                for u in (Sym(perm(term(j))),):
                    Ctx.cur.assume(yrs(u) > 0)
            src = Sym(perm(term(j)))
            q = yrs(src)
            Ctx.cur.assume(q > 0)
            if Y == "discount_factor":
                want = S_("df", src)
            else:
                want = df_of(Y, S_("z", src), q)
                Ctx.cur.assume(domain(Y, S_("z", src), q))
            k.ensure("row j has the years of its pillar", Eq(gy(j + off), q))
            k.ensure("row j has the discount factor of its pillar", Eq(gd(j + off), want))
            k.ensure("the continuous zero rate is consistent with the discount factor", Eq(gc(j + off) * q, -log(want)))
            if interp == "LINEAR_ON_LN_DISCOUNT" and added:
                k.ensure("flat continuous zero rate before the first pillar", Eq(gc(0), gc(1)))
            if X in ("date", "days"):
                k.ensure("row j has the date of its pillar", Eq(at(p.cols["date"], j + off).o, S_("d", src, sort="I") if X == "date" else cd.o + S_("k", src, sort="I")))
                k.ensure("row j has the days of its pillar", Eq(at(p.cols["days"], j + off), (S_("d", src, sort="I") - cd.o) if X == "date" else S_("k", src, sort="I")))
                if added:
                    k.ensure("the t = 0 row has the curve date", And(Eq(at(p.cols["date"], 0).o, cd.o), Eq(at(p.cols["days"], 0), 0)))
            nxt = j + 1
            k.ensure("rows are in increasing time order", Implies(nxt < n, gy(j + off) <= gy(nxt + off)) if True else None)
            k.ensure("the caller's pillar_df keeps its columns", SymBool(t.TRUE if list(frame.cols) == list(keep) else t.FALSE))
            for c in keep:
                a, b = frame.cols.get(c), gen(keep[c])
                if a is not None:
                    a = gen(a)
                    k.ensure("the caller's column %s is not modified" % c, Eq(a.o, b.o) if isinstance(b, D.SymDate) else Eq(a, b))
            if interp != "LINEAR_ON_LN_DISCOUNT":
                s = z.cubic_spline_definition
                lnd = interp == "CUBIC_SPLINE_ON_LN_DISCOUNT"
                so = off if lnd else -1 if Y == "discount_factor" and not added else 0
                k.ensure("interpolating cubic spline", SymBool(t.TRUE if s.par == {"k": 3, "s": 0} else t.FALSE))
                k.ensure("one knot per pillar%s" % (" and one at t = 0" if lnd else ""), shape_is(s.x, n + so))
                k.ensure("spline times are the pillar years", Eq(at(s.x, j + so), q))
                k.ensure("spline values are %s" % ("log discount factors" if lnd else "continuous zero rates"), Eq(at(s.y, j + so) * (1 if lnd else q), log(want) if lnd else -log(want)))
                k.ensure("same number of times and values", shape_is(s.y, n + so))
                if lnd:
                    k.ensure("the log discount factor at t = 0 is 0", And(Eq(at(s.x, 0), 0), Eq(at(s.y, 0), 0)))
        inst = [("df", pos), ("y", nonneg), ("YF", yf_inst), ("k", lambda u: [Sym(u) >= 0]), ("d", lambda u: [Sym(u) >= I("cd")])]
        k.verify("pillars", run, [(n >= 4).t, (I("cd") >= 700000).t], inst, replay=lambda e: rp_c(e))
    return Contract("ZeroCurve pillars [%s, %s, %s]" % (X, Y, interp), ZC, build, samplers=SAMP)


def frame_of(n, **cols):
    f = DF()
    f.cols = cols
    return f


def curve_state(k, interp):
    """a constructed curve: pillars y, df (and the spline the constructor contract established)"""
    n = I("n")
    m, z = make(k, interp)
    z.pillar_df = frame_of(n, years=vec("y", n), cczr=vec("c", n), discount_factor=vec("df", n))
    return m, z, n


def set_spline(z, n, interp):
    if interp == "CUBIC_SPLINE_ON_LN_DISCOUNT":
        z.cubic_spline_definition = FR.splrep(x=vec("y", n), y=nm.emap(lambda v: log(v), vec("df", n)), k=3)
    elif interp == "CUBIC_SPLINE_ON_CCZR":
        z.cubic_spline_definition = FR.splrep(x=vec("y", n), y=vec("c", n), k=3)


def curve_fn(z, interp):
    """(discount factor, continuous rate times t) as functions of t; obligations on the data of every interpolant used"""
    g = FR.interps()[-1]
    if interp == "CUBIC_SPLINE_ON_CCZR":
        return (lambda T: exp(-g(T) * T)), g
    return (lambda T: exp(g(T))), g


def data_ok(k, n, interp):
    ok = True
    for g in FR.interps():
        i = nm.generic_index(n)
        want = S_("c", Sym(i)) if interp == "CUBIC_SPLINE_ON_CCZR" else log(S_("df", Sym(i)))
        k.ensure("interpolates the pillars", And(shape_is(g.x, n), shape_is(g.y, n), Eq(at(g.x, Sym(i)), S_("y", Sym(i))), Eq(at(g.y, Sym(i)), want),
                                                 SymBool(t.TRUE if (g.kind == "linear") == interp.startswith("LINEAR") else t.FALSE)))


LK = [("CSP", lambda u: [])]


def years_lookup(interp, form):
    def build(k):
        m, z, n = curve_state(k, interp)
        M = I("m")
        inst = [("df", pos), ("y", nonneg), ("T", pos)]

        def run():
            T = R("T") if form == "scalar" else vec("T", M) if form == "array" else Series(vec("T", M))
            set_spline(z, n, interp)
            r = z.get_discount_factors(years=T)
            data_ok(k, n, interp)
            f, g = curve_fn(z, interp)
            one = R("T") if form == "scalar" else el("T", M)
            r1 = r if form == "scalar" else gen(r)
            if form == "scalar":
                k.ensure("a scalar gives a number", SymBool(t.FALSE if isinstance(r, GArr) else t.TRUE))
            else:
                k.ensure("one value per time", shape_is(r, M))
            k.ensure("discount factor of the interpolated curve", Eq(r1, f(one)))
            for freq in FREQS:
                q = z.get_zero_rates(getattr(m.CompoundingFreq, freq), years=T)
                f2, _ = curve_fn(z, interp)
                q1 = q if form == "scalar" else gen(q)
                if form != "scalar":
                    k.ensure("one %s rate per time" % freq, shape_is(q, M))
                if freq == "CONTINUOUS":
                    k.ensure("the continuous zero rate discounts to the discount factor", Eq(exp(-q1 * one), f2(one)))
                else:
                    k.ensure("the %s zero rate discounts to the discount factor" % freq, Eq(df_of(freq, q1, one), f2(one)))
            data_ok(k, n, interp)
        k.verify("lookup by years", run, [(n >= 4).t, (M >= 2).t] + ([(R("T") > 0).t] if form == "scalar" else []), inst, replay=lambda e: rp_c(e))

        def at_pillar():
            set_spline(z, n, interp)
            r = z.get_discount_factors(years=Series(vec("y", n)))
            i = Sym(nm.generic_index(n))
            g = FR.interps()[-1]
            Ctx.cur.assume(g.knot(i))
            if interp == "CUBIC_SPLINE_ON_CCZR":
                Ctx.cur.assume(Eq(S_("c", i) * S_("y", i), -log(S_("df", i))))
            k.ensure("a pillar's own time returns its discount factor", Eq(gen(r), S_("df", i)))
        if form == "scalar":
            k.verify("reproduces the pillars", at_pillar, [(n >= 4).t], inst, replay=lambda e: rp_c(e))
    return Contract("ZeroCurve lookup by years [%s, %s]" % (interp, form), ZC + ".index_daily_data", build, samplers=SAMP)


def instantaneous(interp):
    def build(k):
        m, z, n = curve_state(k, interp)

        def run():
            set_spline(z, n, interp)
            T = R("T")
            r = z.get_instantaneous_forward_rate(years=T)
            p = z.get_discount_factors(years=T)
            k.ensure("instantaneous forward rate = - d/dT log discount factor", Eq(r, -diff(log(p), T)))
        k.verify("instantaneous forward", run, [(n >= 4).t, (R("T") > 0).t], [("df", pos), ("y", nonneg)], replay=lambda e: rp_c(e))
    return Contract("ZeroCurve instantaneous forward [%s]" % interp, ZC + ".get_instantaneous_forward_rate", build, samplers=SAMP)


def daily(interp):
    def build(k):
        n = I("n")
        m, z = make(k, interp)
        cd = z.curve_date
        z.pillar_df = frame_of(n, date=dates("d", n), days=vec("k", n), years=vec("y", n), cczr=vec("c", n), discount_factor=vec("df", n))
        inst = [("df", pos), ("y", nonneg), ("YF", yf_inst), ("d", lambda u: [Sym(u) >= I("cd")])]

        def run():
            set_spline(z, n, interp)
            with patched(m, year_frac=year_frac, day_count=day_count):
                z._setup_daily_df()
            q = z.daily_df
            i = I("i")
            N = q.cols["date"].shape[0]
            Ctx.cur.assume(And(i >= 0, i < N))
            data_ok(k, n, interp)
            f, g = curve_fn(z, interp)
            p = Sym(nm.generic_index(n))
            k.ensure("the grid starts on the curve date and has one row per calendar day", Eq(at(q.cols["date"], i).o, cd.o + i))
            k.ensure("the grid reaches every pillar date", S_("d", p, sort="I") - cd.o < N)
            T = YF(cd.o, cd.o + i)
            k.ensure("years of the row", Eq(at(q.cols["years"], i), T))
            k.ensure("discount factor of the interpolated curve at the row's date", Eq(at(q.cols["discount_factor"], i), f(T)))
            Ctx.cur.assume(i >= 1)
            k.ensure("continuous zero rate of the row discounts to its discount factor", Eq(exp(-at(q.cols["cczr"], i) * T), f(T)))
        k.verify("daily grid", run, [(n >= 4).t, (I("cd") >= 700000).t], inst, replay=lambda e: rp_c(e))
    return Contract("ZeroCurve daily grid [%s]" % interp, ZC + "._setup_daily_df", build, samplers=SAMP)


def date_lookup(form, extrap):
    def build(k):
        N, M = I("N"), I("m")
        m, z = make(k, "LINEAR_ON_LN_DISCOUNT")
        z.extrap_method = getattr(m.ZeroCurveExtrapMethod, extrap)
        cd = z.curve_date
        grid = GArr((N,), lambda ix: D.SymDate.from_ordinal(cd.o + Sym(ix[0])), kind="D")
        z.daily_df = frame_of(N, date=grid, days=vec("gk", N), years=vec("gy", N), cczr=vec("gc", N), discount_factor=vec("gd", N))
        inst = [("gd", pos), ("gy", nonneg)]
        pre = [(N >= 2).t, (M >= 2).t, (cd.o >= 700000).t, (I("x") >= 700000).t]

        def run():
            if form == "scalar":
                a, o = {"dates": D.SymDate.from_ordinal(I("x"))}, I("x")
            elif form == "index":
                a, o = {"dates": dates("x", M)}, S_("x", Sym(nm.generic_index(M)), sort="I")
            elif form == "series":
                a, o = {"dates": Series(dates("x", M))}, S_("x", Sym(nm.generic_index(M)), sort="I")
            elif form == "days":
                a, o = {"days": I("k")}, cd.o + I("k")
            else:
                a, o = {"days": Series(vec("k", M, "I", "i"))}, cd.o + S_("k", Sym(nm.generic_index(M)), sort="I")
            sc = form in ("scalar", "days")
            r = z.get_discount_factors(**a)
            c = z.get_zero_rates(m.CompoundingFreq.CONTINUOUS, **a)
            s = z.get_zero_rates(m.CompoundingFreq.ANNUAL, **a)
            if not sc:
                for nme, q in (("discount factor", r), ("continuous rate", c), ("annual rate", s)):
                    k.ensure("one %s per date" % nme, shape_is(q, M))
                r, c, s = gen(r), gen(c), gen(s)
            i = o - cd.o
            inside = And(i >= 0, i < N)
            k.ensure("a date of the grid returns its own row's discount factor", Implies(inside, Eq(r, S_("gd", i))))
            k.ensure("a date of the grid returns its own row's continuous rate", Implies(inside, Eq(c, S_("gc", i))))
            Ctx.cur.assume(Implies(inside, S_("gy", i) > 0))
            sp = cases(s)[0]
            if bool(inside):
                k.ensure("the annual rate of a date of the grid discounts to its discount factor", Eq((1 + sp) ** (-S_("gy", i)), S_("gd", i)))
            elif extrap == "FLAT":
                k.ensure("dates after the last use the last row", Implies(i >= N, Eq(r, S_("gd", N - 1))))
                k.ensure("dates before the first use the first row", Implies(i < 0, Eq(r, S_("gd", 0))))
            else:
                k.ensure("no value outside the data", And(Eq(r, FR.NAN), Eq(c, FR.NAN)))
        k.verify("lookup by date", run, pre, inst, replay=lambda e: rp_c(e))
    return Contract("ZeroCurve lookup by date [%s, %s]" % (form, extrap), ZC + ".index_daily_data", build, samplers=SAMP)


def forwards(form):
    def build(k):
        M = I("m")
        m, z = make(k, "LINEAR_ON_LN_DISCOUNT")
        cd = z.curve_date
        P = lambda o: Sym(t.app("P", (term(o),)))
        sc = form == "dates"
        n = 1 if sc else M

        def get_df(dates=None, days=None, years=None):
            """callee contract: discount factor of the date (lookup contracts above)"""
            return nm.elementwise(lambda d: P(d.o), dates, kind="f")
        z.get_discount_factors = get_df
        inst = [("P", lambda u: [Sym(u) > 0]), ("YF", yf_inst), ("a", lambda u: [Sym(u) >= I("cd"), S_("b", Sym(u.args[1]), sort="I") > Sym(u)]), ("b", lambda u: [Sym(u) > S_("a", Sym(u.args[1]), sort="I")])]

        def run(ft):
            def go():
                if sc:
                    a, b, oa, ob = D.SymDate.from_ordinal(I("a0")), D.SymDate.from_ordinal(I("b0")), I("a0"), I("b0")
                else:
                    w = Series if form == "series" else (lambda v: v)
                    a, b = w(dates("a", M)), w(dates("b", M))
                    i = Sym(nm.generic_index(M))
                    oa, ob = S_("a", i, sort="I"), S_("b", i, sort="I")
                with patched(m, year_frac=year_frac):
                    r = z.get_forward_rates(a, b, ft)
                k.ensure("one rate per period", shape_is(r, n))
                r = at(r, 0) if sc else gen(r)
                y = YF(oa, ob)
                name = ft.name
                if name in ("SIMPLE", "DAILY_COMPOUNDED"):
                    k.ensure("simple forward rate reprices the period", Eq(P(ob) * (1 + r * y), P(oa)))
                elif name == "CONTINUOUS":
                    k.ensure("continuous forward rate reprices the period", Eq(P(ob) * exp(r * y), P(oa)))
                else:
                    k.ensure("annual forward rate reprices the period", Eq(P(ob) * (1 + r) ** y, P(oa)))
            return go
        pre = [(M >= 2).t, (I("a0") >= I("cd")).t, (I("b0") > I("a0")).t, (I("cd") >= 700000).t]
        for ft in (m.TermRate.SIMPLE, m.TermRate.CONTINUOUS, m.TermRate.ANNUAL, m.RFRFixingCalcMethod.DAILY_COMPOUNDED):
            k.verify("forward rate %s" % ft.name, run(ft), pre, inst, replay=lambda e: rp_c(e))
    return Contract("ZeroCurve forward rates [%s]" % form, ZC + ".get_forward_rates", build, samplers=SAMP)


def find_app(x, name):
    return [u for u in t.subterms(term(x)) if u.op == "app" and u.args[0].split("<")[0] == name]


def dim_of(u):
    """(number of terms, running index) of a sum over a symbolic range"""
    return next((d, j) for d, j in nm.GENERIC.items() if u.args[0] == "SUM<%s>" % t.show(d))


def days_of(u, start):
    """the day a term of a sum is about, from the comparison of it with the start of the period"""
    j, out = dim_of(u)[1], []
    for v in t.subterms(u.args[1]):
        if v.op in ("le", "lt"):
            for x in (t.add(term(start), t.sub(v.args[1], v.args[0])), t.add(term(start), t.sub(v.args[0], v.args[1]))):
                if t.sub(t.subst(x, {j: t.add(j, t.const(1))}), x) is t.const(1):
                    out.append(x)
    return out


def averages(method):
    """the averaged overnight forward rates: mean of the simple one-day forward rates of the days (business days) of the period"""
    def build(k):
        M = I("m")
        m, z = make(k, "LINEAR_ON_LN_DISCOUNT")
        z.cal = "cal"
        P = lambda o: Sym(t.app("P", (term(o),)))
        z.get_discount_factors = lambda dates=None, days=None, years=None: nm.elementwise(lambda d: P(d.o), dates, kind="f")
        inst = [("P", lambda u: [Sym(u) > 0]), ("a", lambda u: [Sym(u) >= I("cd"), S_("b", Sym(u.args[1]), sort="I") > Sym(u)]), ("b", lambda u: [Sym(u) > S_("a", Sym(u.args[1]), sort="I")])]

        def run():
            i = Sym(nm.generic_index(M))
            oa, ob = S_("a", i, sort="I"), S_("b", i, sort="I")
            Ctx.cur.store["rows"] = [i]
            r = z.get_forward_rates(dates("a", M), dates("b", M), getattr(m.RFRFixingCalcMethod, method))
            k.ensure("one rate per period", shape_is(r, M))
            g = gen(r)
            sums = [u for x in [term(g)] + list(Ctx.cur.pc) for u in find_app(x, "SUM")]
            sums = sorted(set(sums), key=t.show)
            days = [x for u in sums for x in {p.args[1] for p in find_app(u.args[1], "P")} if any(t.add(x, t.const(1)) is p.args[1] for p in find_app(u.args[1], "P"))]
            counting = lambda day: And(day >= oa, day < ob, FR.isbus(day, z.cal)) if method == "SIMPLE_AVERAGE" else And(day >= oa, day < ob)
            cnt, tot = [u for u in sums if not find_app(u.args[1], "P")], [u for u in sums if find_app(u.args[1], "P")]
            if FR._isnan(term(g)) is t.TRUE:
                ok = [u for u in cnt if any(v.op == "sel" and v.args[0] == "a" for v in t.subterms(u.args[1]))]
                none = SymBool(t.FALSE)
                for u in ok:
                    N, j = dim_of(u)
                    for x in days_of(u, oa):
                        first = Sym(t.subst(x, {j: t.const(0)}))
                        none = Or(none, And(first <= oa, first + Sym(N) >= ob, Eq(Sym(u.args[1]), nm.gite(counting(Sym(x)), C(1), C(0))), Not(Sym(u) > 0)))
                k.ensure("no value only when no day of the period counts", none)
                return
            if len(tot) != 1 or len(cnt) != 1 or not days:
                k.ensure("a mean of one-day forward rates", SymBool(t.FALSE))
                return
            day, (N, j) = Sym(days[0]), dim_of(tot[0])
            first, step = (Sym(t.subst(day.t, {j: v})) for v in (t.const(0), t.add(j, t.const(1))))
            k.ensure("the days are consecutive", Eq(step, day + 1))
            k.ensure("every day of the period is there", And(first <= oa, first + Sym(N) >= ob))
            k.ensure("counts the %sdays of the period" % ("business " if method == "SIMPLE_AVERAGE" else ""), Eq(Sym(cnt[0].args[1]), nm.gite(counting(day), C(1), C(0))))
            k.ensure("adds up the one-day simple forward rates of those days",
                     Eq(Sym(tot[0].args[1]), nm.gite(counting(day), (P(day) / P(day + 1) - 1) * z.day_count_basis.days_per_year, C(0))))
            k.ensure("mean over those days", Eq(g * Sym(cnt[0]), Sym(tot[0])))
        k.verify("mean of the daily rates", run, [(M >= 2).t, (I("cd") >= 700000).t], inst, replay=lambda e: rp_c(e))
    return Contract("ZeroCurve averaged forward rates [%s]" % method, ZC + ".get_forward_rates", build, samplers=SAMP)


def shift(x):
    def build(k):
        n = I("n")
        rec = {}
        m, z = make(k, "CUBIC_SPLINE_ON_CCZR")
        z.extrap_method = m.ZeroCurveExtrapMethod.FLAT
        cols = dict(years=vec("y", n), cczr=vec("c", n), discount_factor=vec("df", n))
        if x == "date":
            cols = dict(date=dates("d", n), days=vec("k", n), **cols)
        z.pillar_df = frame_of(n, **cols)

        def ctor(*a, **kw):
            names = ["curve_date", "pillar_df", "compounding_freq", "day_count_basis", "cal", "interp_method", "extrap_method"]
            d = dict(zip(names, a))
            d.update(kw)
            rec.clear()
            rec.update(d)
            return "curve"

        def run():
            with patched(m, ZeroCurve=ctor):
                r = z.flat_shift(basis_points=R("bp"))
            b = lambda c: SymBool(t.TRUE if c else t.FALSE)
            k.ensure("returns the new curve", b(r == "curve"))
            p = rec["pillar_df"]
            i = Sym(nm.generic_index(n))
            k.ensure("one row per pillar", shape_is(p.cols[x], n))
            k.ensure("same pillars", Eq(gen(p.cols[x]).o, S_("d", i, sort="I")) if x == "date" else Eq(gen(p.cols[x]), S_("y", i)))
            k.ensure("continuous zero rates move by the shift", And(Eq(gen(p.cols["zero_rate"]), S_("c", i) + R("bp") / 10000), b(rec.get("compounding_freq") is m.CompoundingFreq.CONTINUOUS)))
            for a in ("day_count_basis", "cal", "interp_method", "extrap_method", "curve_date"):
                k.ensure("the new curve keeps %s" % a, b(rec.get(a) is getattr(z, a)))
            k.ensure("the original curve is not modified", And(Eq(gen(z.pillar_df.cols["cczr"]), S_("c", i)), Eq(gen(z.pillar_df.cols["discount_factor"]), S_("df", i))))
        k.verify("flat shift", run, [(n >= 4).t], [("df", pos)], replay=lambda e: rp_c(e))
    return Contract("ZeroCurve flat shift [%s pillars]" % x, ZC + ".flat_shift", build, samplers=SAMP)


# ------------------------------------------------------------------------------------------------ run time
def rp_c(e):
    import random
    return {"kind": "curve", "args": gen_c(random.Random(11))}


def gen_c(rng):
    X = rng.choice(["tenor", "date", "days", "years"])
    n = rng.randint(4, 7)
    ten = {"1w": 7, "1m": 30, "3m": 91, "6m": 182, "9m": 273, "1y": 365, "18m": 547, "2y": 731, "3y": 1096, "5y": 1827}
    if X == "tenor":
        xs = rng.sample(sorted(ten), n)
        ys = [ten[v] / 365 for v in xs]
    else:
        ks = rng.sample(range(5, 2000), n)
        if X != "years" or rng.random() < .7:
            xs, ys = ks, [v / 365 for v in ks]
        if X == "years":
            xs = ys = [round(v / 365, 3) for v in ks]
    zero = rng.random() < .3 and X != "tenor"
    Y = rng.choice(["discount_factor", "zero_rate"])
    base = rng.uniform(-.005, .06)
    rates = [base + .01 * math.sin(3 * v) * rng.uniform(.5, 1) for v in ys]
    freq = None if Y == "discount_factor" else rng.choice(FREQS)
    if zero:
        xs, ys, rates = [0] + list(xs), [0.0] + list(ys), [base] + rates
        p = list(range(len(xs)))
        rng.shuffle(p)
        xs, ys, rates = [xs[i] for i in p], [ys[i] for i in p], [rates[i] for i in p]
    vals = rates if Y == "zero_rate" else [math.exp(-r * y) for r, y in zip(rates, ys)]
    return {"X": X, "xs": list(xs), "vals": vals, "freq": freq, "interp": rng.choice(INTERP), "extrap": rng.choice(["NONE", "FLAT"]),
            "basis": rng.choice(["ACT_360", "ACT_365", "ACT_ACT", "_30_360"]), "cd": rng.randint(737000, 739000), "q": [rng.randint(-5, 2300) for _ in range(6)],
            "t": [rng.uniform(.02, 5) for _ in range(4)], "bp": rng.uniform(-100, 100)}


def fdf(freq, z, y):
    if freq == "CONTINUOUS":
        return math.exp(-z * y)
    if freq == "SIMPLE":
        return 1 / (1 + z * y)
    m = PPY[freq]
    return (1 + z / m) ** (-m * y)


def check_c(c):
    import numpy as np, pandas as pd, io, contextlib, datetime
    import frm.term_structures.zero_curve as Z
    from frm.utils import year_frac as yf
    cd = pd.Timestamp(datetime.date.fromordinal(c["cd"]))
    basis = getattr(Z.DayCountBasis, c["basis"])
    xs = list(c["xs"])
    if c["X"] == "date":
        xs = [cd + pd.Timedelta(days=k) for k in xs]
    Y = "discount_factor" if c["freq"] is None else "zero_rate"
    frame = pd.DataFrame({c["X"]: xs, Y: c["vals"]})
    keep = frame.copy(deep=True)
    freq = None if c["freq"] is None else getattr(Z.CompoundingFreq, c["freq"])
    with contextlib.redirect_stdout(io.StringIO()):
        zc = Z.ZeroCurve(curve_date=cd, pillar_df=frame, compounding_freq=freq, day_count_basis=basis, interp_method=getattr(Z.ZeroCurveInterpMethod, c["interp"]),
                         extrap_method=getattr(Z.ZeroCurveExtrapMethod, c["extrap"]))
        if not frame.equals(keep):
            return "the caller's pillar_df was modified"
        p = zc.pillar_df
        py, pd_, pc = p["years"].to_numpy(float), p["discount_factor"].to_numpy(float), p["cczr"].to_numpy(float)
        if py[0] != 0 or abs(pd_[0] - 1) > 1e-12:
            return "first row is not t = 0 with discount factor 1: %r" % (p.iloc[0].to_dict(),)
        if (np.diff(py) < 0).any():
            return "pillars are not in time order"
        # expected pillars
        if c["X"] == "years":
            ey = [float(v) for v in xs]
        elif c["X"] == "tenor":
            from frm.utils import clean_tenor, tenor_to_date_offset
            ds = [pd.Timestamp(np.busday_offset(np.datetime64((cd + tenor_to_date_offset(clean_tenor(v))).date()), 0, roll="following", busdaycal=zc.cal)) for v in xs]
            ey = [yf(cd, d, basis) for d in ds]
        else:
            ds = xs if c["X"] == "date" else [cd + pd.Timedelta(days=k) for k in xs]
            ey = [yf(cd, d, basis) for d in ds]
        if len(set(ey)) < len(ey):
            return None
        exp_ = sorted(zip(ey, [v if Y == "discount_factor" else fdf(c["freq"], v, y) for v, y in zip(c["vals"], ey)]))
        if exp_[0][0] != 0:
            exp_ = [(0.0, 1.0)] + exp_
        if len(exp_) != len(p):
            return "%d pillar rows, expected %d" % (len(p), len(exp_))
        for i, (y, d) in enumerate(exp_):
            if not close(py[i], y) or not close(pd_[i], d) or (y > 0 and not close(pc[i] * y, -math.log(d), 1e-8, 1e-11)):
                return "pillar %d: %r, expected years %r discount factor %r" % (i, p.iloc[i].to_dict(), y, d)
        # the curve as a function of time
        ex, ed = np.array([y for y, _ in exp_]), np.array([d for _, d in exp_])
        from scipy.interpolate import splrep, splev
        if c["interp"] == "LINEAR_ON_LN_DISCOUNT":
            P = lambda T: math.exp(np.interp(T, ex, np.log(ed)))
        elif c["interp"] == "CUBIC_SPLINE_ON_LN_DISCOUNT":
            tck = splrep(ex, np.log(ed), k=3)
            P = lambda T: math.exp(float(splev(T, tck)))
        else:
            m = ex > 0
            X0, Y0 = list(ex[m]), list(-np.log(ed[m]) / ex[m])
            if Y == "zero_rate" and 0.0 in ey:
                z0 = c["vals"][ey.index(0.0)]
                X0, Y0 = [0.0] + X0, [z0 if c["freq"] in ("SIMPLE", "CONTINUOUS") else PPY[c["freq"]] * math.log(1 + z0 / PPY[c["freq"]])] + Y0
            tck = splrep(X0, Y0, k=3)
            P = lambda T: math.exp(-float(splev(T, tck)) * T)
        ts = [float(v) for v in c["t"]] + [y for y in ex if y > 0]
        got = zc.get_discount_factors(years=np.array(ts))
        if len(got) != len(ts):
            return "%d values for %d times" % (len(got), len(ts))
        got_s = zc.get_discount_factors(years=ts[0])
        if not isinstance(got_s, float) or not close(got_s, P(ts[0])):
            return "scalar lookup %r, expected %r" % (got_s, P(ts[0]))
        for a, T in zip(got, ts):
            if not close(a, P(T)):
                return "discount factor at %r is %r, interpolation of the pillars gives %r" % (T, a, P(T))
        for fr in FREQS:
            for a, T in zip(zc.get_zero_rates(getattr(Z.CompoundingFreq, fr), years=np.array(ts)), ts):
                if not close(fdf(fr, a, T), P(T), 1e-8):
                    return "%s zero rate %r at %r does not discount to %r" % (fr, a, T, P(T))
        if c["interp"] != "LINEAR_ON_LN_DISCOUNT":
            for T in c["t"]:
                h = 1e-5
                if T > h and not close(zc.get_instantaneous_forward_rate(T), -(math.log(P(T + h)) - math.log(P(T - h))) / (2 * h), 1e-4, 1e-6):
                    return "instantaneous forward at %r is %r" % (T, zc.get_instantaneous_forward_rate(T))
        # dates
        last = (zc.daily_df["date"].iloc[-1] - cd).days
        if "date" in p and (p["date"] > cd + pd.Timedelta(days=last)).any():
            return "the grid does not reach the last pillar"
        if "date" not in p and (yf(cd, cd + pd.Timedelta(days=last), basis) < max(ex) - 1e-12):
            return "the grid does not reach the last pillar"
        qd = [cd + pd.Timedelta(days=k) for k in c["q"]]
        for form in ("index", "series", "days"):
            if form == "days":
                got = zc.get_discount_factors(days=pd.Series(c["q"]))
            else:
                got = zc.get_discount_factors(dates=pd.DatetimeIndex(qd) if form == "index" else pd.Series(qd))
            if len(got) != len(qd):
                return "%d values for %d dates" % (len(got), len(qd))
            for a, kk in zip(got, c["q"]):
                if not 0 <= kk <= last:
                    if c["extrap"] == "NONE":
                        if not math.isnan(a):
                            return "value %r outside the data without extrapolation" % a
                        continue
                    kk = min(max(kk, 0), last)
                e = P(yf(cd, cd + pd.Timedelta(days=kk), basis))
                if not close(a, e):
                    return "discount factor of day %d is %r, expected %r (%s)" % (kk, a, e, form)
        # forward rates between grid dates
        ok = sorted({k for k in c["q"] if 0 <= k <= last})
        if len(ok) >= 2:
            import random
            rg = random.Random(len(c["q"]) + c["q"][0])
            per = [(rg.choice(ok[:-1]), 0) for _ in range(2)]
            per = [(a, rg.choice([x for x in ok if x > a])) for a, _ in per] + list(zip(ok[:-1], ok[1:]))
            rg.shuffle(per)                                                             # any order, overlapping
            A, B = [cd + pd.Timedelta(days=k) for k, _ in per], [cd + pd.Timedelta(days=k) for _, k in per]
            Pk = lambda d: P(yf(cd, d, basis))
            for name in ("SIMPLE", "CONTINUOUS", "ANNUAL"):
                r = zc.get_forward_rates(pd.Series(A), pd.Series(B), getattr(Z.TermRate, name))
                if len(r) != len(A):
                    return "%d forward rates for %d periods" % (len(r), len(A))
                for v, a, b in zip(r, A, B):
                    y = yf(a, b, basis)
                    if y == 0:
                        continue
                    e = (Pk(a) / Pk(b) - 1) / y if name == "SIMPLE" else math.log(Pk(a) / Pk(b)) / y if name == "CONTINUOUS" else (Pk(a) / Pk(b)) ** (1 / y) - 1
                    if not close(v, e, 1e-7, 1e-9):
                        return "%s forward %s..%s is %r, expected %r" % (name, a, b, v, e)
            if basis.days_per_year is not None:
                for name in ("WEIGHTED_AVERAGE", "SIMPLE_AVERAGE"):
                    r = zc.get_forward_rates(pd.Series(A), pd.Series(B), getattr(Z.RFRFixingCalcMethod, name))
                    for v, a, b in zip(r, A, B):
                        ds = [a + pd.Timedelta(days=i) for i in range((b - a).days)]
                        if name == "SIMPLE_AVERAGE":
                            ds = [d for d in ds if np.is_busday(np.datetime64(d.date()), busdaycal=zc.cal)]
                        if not ds:
                            continue
                        e = sum((Pk(d) / Pk(d + pd.Timedelta(days=1)) - 1) * basis.days_per_year for d in ds) / len(ds)
                        if not close(v, e, 1e-6, 1e-9):
                            return "%s forward %s..%s is %r, expected %r" % (name, a, b, v, e)
        # flat shift
        s = zc.flat_shift(c["bp"])
        for T in ts:
            if c["interp"] == "CUBIC_SPLINE_ON_LN_DISCOUNT" or c["interp"] == "LINEAR_ON_LN_DISCOUNT" and T > max(ex):
                continue
            if not close(s.get_discount_factors(years=T), P(T) * math.exp(-c["bp"] / 1e4 * T), 1e-8):
                return "shifted discount factor at %r is %r" % (T, s.get_discount_factors(years=T))
        for y, d in exp_:
            if y > 0 and not close(s.get_discount_factors(years=y), d * math.exp(-c["bp"] / 1e4 * y), 1e-8):
                return "shifted discount factor at pillar %r is %r" % (y, s.get_discount_factors(years=y))


CONTRACTS = ([process(X, "discount_factor", "LINEAR_ON_LN_DISCOUNT") for X in ("date", "days", "years")]
             + [process("years", f, "LINEAR_ON_LN_DISCOUNT") for f in FREQS]
             + [process("years", y, i) for i in INTERP[1:] for y in ("discount_factor", "ANNUAL")]
             + [years_lookup(i, f) for i in INTERP for f in ("scalar", "array", "series")]
             + [instantaneous(i) for i in INTERP[1:]] + [daily(i) for i in INTERP]
             + [date_lookup(f, e) for f in ("scalar", "index", "series", "days", "days series") for e in ("NONE", "FLAT")]
             + [forwards(f) for f in ("dates", "index", "series")] + [averages(x) for x in ("WEIGHTED_AVERAGE", "SIMPLE_AVERAGE")] + [shift(x) for x in ("date", "years")])
PROP = Prop("C14", "Zero curves reproduce their pillars; all rates come from one discount function", contracts=CONTRACTS,
            runtimes=[Runtime("curve", gen_c, check_c, n=120, fn=ZC)],
            unverified=["pillars given as tenors (string parsing), daily grid of curves given in years (while loop): run time only (bounded)"])
PROP.imports = [MOD]
