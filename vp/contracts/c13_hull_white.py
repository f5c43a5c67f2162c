from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR

MOD = "frm.pricing_engine.hw1f"
HW = MOD + ".HullWhite1Factor"
SAMP = {"alpha": U(.02, .5), "sigma": U(.002, .03), "h": U(1e-3, 1e-2), "r0": U(0, .05), "tau": U(.5, 5), "N": ch(2, 3), "M": ch(2, 3), "n": ch(2, 3), "T": U(.5, 2), "S": U(2.5, 6), "K": U(.7, 1.1),
        "cp": ch(1, -1), "t1": U(.2, 1), "t2": U(1.5, 5), "r": U(-.01, .06), "Z": U(-2, 2), "c": U(.01, .05), "notional": U(1, 100), "Tn": U(5, 9), "T0": U(.3, 1), "Tc": U(2, 5), "dcf": U(.2, 1), "t": U(0, 5)}
al, sg, r0 = R("alpha"), R("sigma"), R("r0")
DOM = [(al >= Q(1, 10 ** 8)).t, (sg > 0).t]


def DF(x): return Sym(t.app("DF", (term(x),)))
def FW(x): return Sym(t.app("FWD", (term(x),)))


class Curve:
    """the zero curve by its contract: discount factors are positive functions of time, the instantaneous forward rate a function of time (C14)"""
    _vp_symbolic = True

    def get_discount_factors(self, dates=None, years=None):
        if dates is not None:
            raise Unsupported("dates")

        def d(x):
            r = DF(x)
            Ctx.cur.assume(r > 0)
            return r
        return nm.elementwise(d, years)

    def get_instantaneous_forward_rate(self, years):
        return nm.elementwise(FW, years)


def model(k, alpha=al, **kw):
    m = k.L.load(MOD)
    h = object.__new__(m.HullWhite1Factor)
    h.zero_curve, h.mean_rev_lvl, h.vol, h.dt, h.num, h.r0 = Curve(), alpha, sg, R("h"), 10, r0
    for n, v in kw.items():
        setattr(h, n, v)
    return h


def Bf(x, y): return (1 - exp(-al * (y - x))) / al
def theta(x):
    h = R("h")
    return (FW(x + h) - FW(x - h)) / (2 * h) + al * FW(x) + sg * sg / (2 * al) * (1 - exp(-2 * al * x))


def drift(k):
    h_ = R("h")

    def run():
        h = model(k)
        n = I("n")
        y = vec("t", n)
        r = h.get_thetas(y)
        k.ensure("one drift per time", shape_is(r, n))
        k.ensure("the drift is df/dt + alpha f + sigma^2/(2 alpha) (1 - exp(-2 alpha t))", Eq(gen(r), theta(el("t", n))))
        k.ensure("the times are not modified", Eq(gen(y), el("t", n)))
        h.setup_theta(years_grid=y)
        F = FR.interps()
        k.ensure("the drift spline is an interpolating cubic spline", SymBool(t.TRUE if len(F) == 1 and F[0].kind == "spline" and F[0].par == {"k": 3, "s": 0} else t.FALSE))
        k.ensure("the drift spline is fitted to the drift on the given times", And(Eq(gen(F[0].x), el("t", n)), Eq(gen(F[0].y), theta(el("t", n)))))
    k.verify("drift", run, DOM + [(h_ > 0).t, (I("n") >= 2).t], replay=lambda e: rp("model", e))


def bcalc(k):
    def run():
        a = model(k).calc_b(t1=R("t1"), t2=R("t2"))
        k.ensure("b(t1, t2) = (1 - exp(-alpha (t2 - t1))) / alpha", Eq(a, Bf(R("t1"), R("t2"))))
    k.verify("b", run, DOM, replay=lambda e: rp("model", e))

    def run0():
        a = model(k, alpha=R("small")).calc_b(t1=R("t1"), t2=R("t2"))
        k.ensure("without mean reversion b(t1, t2) = t2 - t1", Eq(a, R("t2") - R("t1")))
    k.verify("no mean reversion", run0, [(R("small") < Q(1, 10 ** 8)).t, (R("small") >= 0).t], replay=lambda e: rp("model", e))


def integral(f, lo, hi):
    x = t.var("x~int0", "R")
    return Sym(t.app("Integral", (term(f(Sym(x))), x, term(lo), term(hi))))


def ode(k):
    t1, t2, r = R("t1"), R("t2"), R("r")

    def run1():
        h = model(k)
        spl = FR.Interp("spline", vec("g", I("n")), vec("th", I("n")), {"k": 3, "s": 0})
        h.theta_spline = spl
        at0 = bool(t1 == 0)
        v = h.calc_discount_factor_by_solving_ode_1(t1=t1, t2=t2, r_t1=r)
        rr = r0 if at0 else r
        want = exp(sg * sg / 2 * integral(lambda x: Bf(x, t2) * Bf(x, t2), t1, t2) - integral(lambda x: spl(x) * Bf(x, t2), t1, t2) - rr * Bf(t1, t2))
        k.ensure("the bond price is exp(sigma^2/2 int b^2 - int theta b - b r), with the initial short rate at time 0", Eq(v, want))
        k.ensure("and is positive", v > 0)
    k.verify("by integration of the drift", run1, DOM + [(t1 >= 0).t, (t2 > t1).t], replay=lambda e: rp("model", e))

    def run2():
        h = model(k)
        at0 = bool(t1 == 0)
        v = h.calc_discount_factor_by_solving_ode_2(t1=t1, t2=t2, r_t1=r)
        rr = r0 if at0 else r
        b = Bf(t1, t2)
        k.ensure("the bond price is DF(t2)/DF(t1) exp(b f - sigma^2/(4 alpha) (1 - exp(-2 alpha t1)) b^2 - b r)",
                 Eq(v, DF(t2) / DF(t1) * exp(b * FW(t1) - sg * sg / (4 * al) * (1 - exp(-2 * al * t1)) * b * b - b * rr)))
    k.verify("from the curve", run2, DOM + [(t1 >= 0).t, (t2 > t1).t], replay=lambda e: rp("model", e))

    def run0():
        v = model(k).calc_discount_factor_by_solving_ode_2(t1=0, t2=t2)
        v = Sym(t.subst(term(v), {term(DF(C(0))): t.const(1), term(FW(C(0))): term(r0)}))
        k.ensure("today's bond prices are the curve's discount factors (a curve of which the initial short rate is the forward rate at 0)", Eq(v, DF(t2)))
    k.verify("today", run0, DOM + [(t2 > 0).t], replay=lambda e: rp("model", e))


def zbo(T, S, K, cp):
    sp = sg * sqrt((1 - exp(-2 * al * T)) / (2 * al)) * Bf(T, S)
    h = log(DF(S) / (K * DF(T))) / sp + sp / 2
    return cp * (DF(S) * Phi(cp * h) - K * DF(T) * Phi(cp * (h - sp)))


def bond_option(form):
    def build(k):
        n = I("n")
        pre = DOM + [(n >= 2).t]
        names = ("T", "S", "K", "cp")
        vecs = {"scalars": (), "vectors": names, "strikes": ("K",), "directions": ("cp",), "expiries": ("T",), "expiries and maturities": ("T", "S")}[form]
        A = {x: vec(x, n) if x in vecs else R(x) for x in names}
        E = {x: el(x, n) if x in vecs else R(x) for x in names}
        good = {"T": lambda u: [Sym(u) > 0], "K": pos, "cp": sign_pm}
        inst = [(x, good[x]) for x in ("T", "K", "cp") if x in vecs]
        pre += [term(c) for x in ("T", "K", "cp") if x not in vecs for c in good[x](term(R(x)))]
        T, S, K, cp = (E[x] for x in names)

        def run():
            h = model(k)
            r = h.price_zero_coupon_bond_option(A["T"], A["S"], A["K"], A["cp"])
            k.ensure("one value per option", shape_is(r, n if vecs else 1))
            Ctx.cur.assume(S > T)
            v = gen(r)
            k.ensure("the value is the Hull-White bond option formula", Eq(v, zbo(T, S, K, cp)))
            k.ensure("arguments are not modified", And(*[Eq(gen(A[x]), E[x]) for x in vecs]) if vecs else SymBool(t.TRUE))
        k.verify("value", run, pre, inst, replay=lambda e: rp("options", e))

        def par():
            h = model(k)
            a = dict(A)
            c, p = (h.price_zero_coupon_bond_option(A["T"], A["S"], A["K"], x) for x in (1, -1))
            Ctx.cur.assume(S > T)
            k.ensure("call less put is the bond less the discounted strike", Eq(gen(c) - gen(p), DF(S) - K * DF(T)))
            cpl, flr = (h.price_optionlet(A["T"], A["S"], A["K"], x) for x in (1, -1))
            k.ensure("caplet less floorlet is the forward rate agreement", Eq(gen(cpl) - gen(flr), DF(T) - (1 + K * (S - T)) * DF(S)))
            x = 1 + K * (S - T)
            k.ensure("a caplet is 1 + K (S - T) bond puts struck at 1/(1 + K (S - T))", Eq(gen(cpl), x * zbo(T, S, 1 / x, C(-1))))
            k.ensure("a floorlet is 1 + K (S - T) bond calls struck at 1/(1 + K (S - T))", Eq(gen(flr), x * zbo(T, S, 1 / x, C(1))))
        if "cp" not in vecs:
            k.verify("parity", par, [p for p in pre if t.var("cp", "R") not in t.subterms(p)], [i for i in inst if i[0] != "cp"], replay=lambda e: rp("options", e))

        def novol():
            h = model(k, vol=0)
            r = h.price_zero_coupon_bond_option(A["T"], A["S"], A["K"], A["cp"])
            Ctx.cur.assume(S > T)
            x = cp * (DF(S) - K * DF(T))
            k.ensure("without volatility the value is the discounted intrinsic value", Eq(gen(r), If(x > 0, x, 0)))
        k.verify("no volatility", novol, pre, inst, replay=lambda e: rp("options", e))
    return Contract("price_zero_coupon_bond_option, price_optionlet [%s]" % form, [HW + ".price_zero_coupon_bond_option", HW + ".price_optionlet"], build, samplers=SAMP)


def simulate(method, one):
    def build(k):
        N, M, tau = (C(1) if one else I("N")), I("M"), R("tau")
        pre = DOM + [(M >= 2).t, (tau > 0).t] + ([] if one else [(N >= 2).t])

        def run():
            ctx = Ctx.cur
            seed = I("seed")

            def rands(nb_steps, nb_rand_vars, nb_simulations, apply_antithetic_variates=True, random_seed=0):
                ctx.lemma("as many normal numbers as steps", Eq(nb_steps, N))
                ctx.lemma("one driving factor", Eq(nb_rand_vars, 1))
                ctx.lemma("as many normal numbers as paths", Eq(nb_simulations, M))
                ctx.lemma("the caller's seed", Eq(random_seed, seed))
                if apply_antithetic_variates is not ANTI:
                    raise Unsupported("antithetic variates")
                return arr("Z", (nb_steps, nb_rand_vars, nb_simulations))
            h = model(k)
            m = k.L.load(MOD)
            with patched(m, generate_rand_nbs=rands):
                res = h.simulate(tau=tau, nb_steps=1 if one else N, nb_simulations=M, flag_apply_antithetic_variates=ANTI, random_seed=seed, method=method)
            r, y, d = res["R"], res["years_grid"], res["sim_dsc_factor"]
            k.ensure("one row per time step plus today, one column per simulation", And(shape_is(r, N + 1, M), shape_is(d, N + 1, M), shape_is(y, N + 1)))
            dt = tau / N
            i, s = I("i"), I("s")
            ctx.assume(And(i >= 0, i <= N, s >= 0, s < M))
            k.ensure("the time grid is uniform from 0 to the horizon", Eq(at(y, i), i * dt))
            k.ensure("every path starts at the initial short rate with discount factor 1", And(Eq(at(r, 0, s), r0), Eq(at(d, 0, s), 1)))
            g = Sym(nm.generic_index(r.shape[0])) if not one else C(1)
            if not one and bool(g == 0):
                return
            x0, x1 = at(r, g - 1, s), at(r, g, s)
            t0, t1 = (g - 1) * dt, g * dt
            z = wrap(t.mk("sel", ("Z", term(g - 1), t.const(0), term(s)), "R"))
            f = lambda x: theta(t0) - al * x
            if method == "euler":
                want = x0 + f(x0) * dt + sg * sqrt(dt) * z
            elif method == "rk4":
                k1 = dt * f(x0)
                k2 = dt * f(x0 + k1 / 2)
                k3 = dt * f(x0 + k2 / 2)
                k4 = dt * f(x0 + k3)
                want = x0 + (k1 + 2 * k2 + 2 * k3 + k4) / 6 + sg * sqrt(dt) * z
            else:
                F = FR.interps()
                q = Sym(nm.generic_index(nm.norm_dim(N + 1)))
                k.ensure("the drift between grid times is its linear interpolation", And(*[And(Eq(gen(v.x), q * dt), Eq(gen(v.y), theta(q * dt))) for v in F]))
                want = x0 * exp(-al * dt) + integral(lambda x: F[-1](x) * exp(-al * (t1 - x)), t0, t1) + sqrt(sg * sg / (2 * al) * (1 - exp(-2 * al * dt))) * z
            k.ensure("each step is the %s step of dr = (theta - alpha r) dt + sigma dW" % method, Eq(x1, want))
            step = exp(-(x0 + x1) / 2 * dt)
            if one or bool(g == 1):
                k.ensure("the first discount factor is the exponential of minus the integrated rate", Eq(at(d, 1, s), step if one else csub(step, g, 1)))
            else:
                d0, d1 = at(d, g - 1, s), at(d, g, s)
                ok = bool(Eq(d1, d0 * step))
                if not ok:
                    cum = [A for A in ctx.store["for_arrays"] if A.ndim == 2]
                    k.ensure("discount factors accumulate the integral of the rate", Or(*[And(Eq(at(A, g, s), at(A, g - 1, s) + (x0 + x1) / 2 * dt), Eq(d1, exp(-at(A, g, s)))) for A in cum]))
            a = res["averages_df"]
            k.ensure("average discount factors are the means over the simulations", Eq(at(nm.asarr(a["discount_factor"]), g), at(d.mean(axis=1), g)))
            k.ensure("average zero rates are those of the average discount factors", Eq(at(nm.asarr(a["cczr"]), g), -log(at(d.mean(axis=1), g)) / (g * dt)))
            k.ensure("zero rates are those of the discount factors", Eq(at(res["sim_cczr"], g, s), -log(at(d, g, s)) / (g * dt)))
        k.verify("paths", run, pre, replay=lambda e: rp("paths", e))
    return Contract("HullWhite1Factor.simulate [%s%s]" % (method, ", one step" if one else ""), HW + ".simulate", build, samplers=SAMP)


ANTI = True


def csub(x, a, b): return Sym(t.subst(term(x), {term(a): term(C(b))}))


def P(a, b, r): return Sym(t.app("P", (term(a), term(b), term(r))))


def swaption(form):
    """coupons with the notional at the last coupon, or at a time of its own"""
    own = form == "notional at a time of its own"

    def build(k):
        n = I("n")
        T0, c, Tn, Nn = R("T0"), R("c"), R("Tn"), R("notional")
        Tc, dcf = vec("Tc", n), vec("dcf", n)
        pre = DOM + [(n >= 1).t, (T0 > 0).t, (c > 0).t]
        inst = [("Tc", lambda u: [Sym(u) > T0]), ("dcf", pos)]
        ts = (lambda: Tn) if own else (lambda: at(Tc, n - 1))

        def stub(h):
            def p(t1, t2, r_t1=None):
                if r_t1 is None:
                    raise Unsupported("bond price without a rate")
                v = P(t1, t2, r_t1)
                Ctx.cur.assume(v > 0)
                return v
            h.calc_discount_factor_by_solving_ode_1 = p
            return h

        def pre_run():
            if own:
                Ctx.cur.assume(And(Not(Eq(Tn, at(Tc, n - 1))), Tn > T0))
            else:
                Ctx.cur.assume(at(Tc, n - 1) > T0)

        def run():
            pre_run()
            h = stub(model(k))
            K = h.jamshidian_decomposition(T0, Tc, dcf, ts(), c)
            x = Ctx.cur.store["roots"][-1]
            k.ensure("one strike per payment", shape_is(K, n + 1 if own else n))
            i = I("i")
            Ctx.cur.assume(And(i >= 0, i < n))
            k.ensure("the strikes of coupons are bond prices at the critical rate", Eq(at(K, i), P(T0, at(Tc, i), x)))
            k.ensure("the strike of the notional is its bond price at the critical rate", Eq(at(K, n if own else n - 1), P(T0, ts(), x)))
            body = GArr((n,), lambda ix: c * dcf.at(ix) * P(T0, Tc.at(ix), x))
            k.ensure("at the critical rate the fixed leg is worth par", Eq(body.sum() + P(T0, ts(), x), 1))
        k.L.opt.mode = "exact"
        k.verify("decomposition", run, pre, inst, raises=lambda e: isinstance(e, ValueError), replay=lambda e: rp("swaptions", e))

        def runp():
            pre_run()
            h = model(k)
            cp = If(B("payer"), C(-1), C(1))
            m = n + 1 if own else n
            got = []

            def jam(swaption_expiry, coupon_payment_times, coupon_year_fractions, notional_payment_time, fixed_rate):
                got.append((swaption_expiry, notional_payment_time, fixed_rate))
                return vec("Kx", m)

            def opt(expiry_years, maturity_years, K, cp, t0=0):
                return nm._atleast_1d(nm.elementwise(lambda a, b, q, w: Sym(t.app("ZBO", (term(a), term(b), term(q), term(w)))), expiry_years, maturity_years, K, cp))
            h.jamshidian_decomposition, h.price_zero_coupon_bond_option = jam, opt
            payer = bool(B("payer"))
            v = h.price_swaption(T0, Tc, dcf, ts(), c, is_payer=payer, notional=Nn)
            w = C(-1) if payer else C(1)
            O = lambda T, K: Sym(t.app("ZBO", (term(T0), term(T), term(K), term(w))))
            Kx = vec("Kx", m)
            k.ensure("the decomposition is of this swaption", And(*[Eq(a, b) for a, b in zip(got[0], (T0, ts(), c))]))
            body = GArr((n,), lambda ix: dcf.at(ix) * O(Tc.at(ix), Kx.at(ix)))
            k.ensure("a payer (receiver) swaption is the sum of bond puts (calls), weighted by the coupons and the notional",
                     Eq(gen(v) if isinstance(v, GArr) else v, Nn * (c * body.sum() + O(ts(), at(Kx, m - 1)))))
        k.verify("value", runp, pre, inst, replay=lambda e: rp("swaptions", e))
    return Contract("jamshidian_decomposition, price_swaption [%s]" % form, [HW + ".jamshidian_decomposition", HW + ".price_swaption"], build, samplers=SAMP)


def init(k):
    from ..lift import Series
    n = I("n")

    def run():
        m = k.L.load(MOD)
        Z = m.ZeroCurveInterpMethod
        zc = Curve()
        zc.interp_method = Z.CUBIC_SPLINE_ON_CCZR
        y = vec("y", n)
        zc.pillar_df = {"years": Series(y), "cczr": Series(vec("z", n))}
        mn = y.min()
        Ctx.cur.assume(Eq(mn, 0))
        h = m.HullWhite1Factor(zero_curve=zc, mean_rev_lvl=al, vol=sg)
        k.ensure("the initial short rate is the curve's zero rate at time 0", Eq(h.r0, at(vec("z", n), 0)))
        k.ensure("the parameters are kept", And(Eq(h.mean_rev_lvl, al), Eq(h.vol, sg)))
    k.verify("initial short rate", run, DOM + [(n >= 2).t])


# ---------------------------------------------------------------- run time
def gen_c(rng):
    ys = sorted({round(rng.uniform(.3, 10), 2) for _ in range(rng.randint(4, 8))})
    ys = [y for i, y in enumerate(ys) if i == 0 or y - ys[i - 1] > .2]
    ys += [ys[-1] + 1 + i for i in range(4 - len(ys))]
    base = rng.uniform(.005, .04)
    return {"years": ys, "rates": [base + rng.uniform(-.004, .004) for _ in ys], "a": rng.choice([.01, .03, .1, .4]), "vol": rng.choice([.002, .01, .02]), "method": rng.choice(["CUBIC_SPLINE_ON_CCZR", "CUBIC_SPLINE_ON_LN_DISCOUNT"])}


def make(c, **kw):
    import numpy as np, pandas as pd
    from frm.pricing_engine.hw1f import HullWhite1Factor
    from frm.term_structures.zero_curve import ZeroCurve
    from frm.enums import CompoundingFreq, ZeroCurveInterpMethod
    z = ZeroCurve(curve_date=pd.Timestamp("2024-04-01"), pillar_df=pd.DataFrame({"years": np.array(c["years"]), "zero_rate": np.array(c["rates"])}),
                  compounding_freq=CompoundingFreq.CONTINUOUS, interp_method=ZeroCurveInterpMethod[c["method"]])
    return z, HullWhite1Factor(zero_curve=z, mean_rev_lvl=kw.get("a", c["a"]), vol=kw.get("vol", c["vol"]))


def gen_m(rng):
    c = gen_c(rng)
    c["t"] = sorted(rng.uniform(.05, c["years"][-1] * .95) for _ in range(3))
    c["r"] = rng.uniform(-.01, .06)
    return c


def check_m(c):
    import numpy as np
    z, h = make(c)
    a, sg = c["a"], c["vol"]
    f = lambda x: float(np.asarray(z.get_instantaneous_forward_rate(years=x)))
    d = lambda x: float(np.asarray(z.get_discount_factors(years=x)))
    if not close(h.r0, float(z.pillar_df["cczr"].iloc[0])):
        return "initial short rate %r is not the curve's zero rate at time 0" % h.r0
    ts = np.array(c["t"])
    th = h.get_thetas(ts)
    e = h.dt
    for x, v in zip(c["t"], th):
        w = (f(x + e) - f(x - e)) / (2 * e) + a * f(x) + sg * sg / (2 * a) * (1 - math.exp(-2 * a * x))
        if not close(v, w, 1e-9, 1e-12):
            return "drift at %r is %r, expected %r" % (x, float(v), w)
    h.setup_theta()
    B = lambda x, y: (1 - math.exp(-a * (y - x))) / a
    for x, y in ((0.0, c["t"][1]), (c["t"][0], c["t"][2])):
        r = h.r0 if x == 0 else c["r"]
        if not close(h.calc_b(x, y), B(x, y)):
            return "b(%r, %r) = %r" % (x, y, h.calc_b(x, y))
        want = d(y) / d(x) * math.exp(B(x, y) * f(x) - sg * sg / (4 * a) * (1 - math.exp(-2 * a * x)) * B(x, y) ** 2 - B(x, y) * r)
        g2, g1 = h.calc_discount_factor_by_solving_ode_2(x, y, None if x == 0 else r), h.calc_discount_factor_by_solving_ode_1(x, y, None if x == 0 else r)
        if not close(float(np.asarray(g2).ravel()[0]), want, 1e-9):
            return "bond price from the curve P(%r, %r, %r) = %r, expected %r" % (x, y, r, g2, want)
        if not close(float(np.asarray(g1).ravel()[0]), want, 2e-5):
            return "bond price by integration of the drift P(%r, %r, %r) = %r, from the curve %r" % (x, y, r, g1, want)
    from frm.pricing_engine.hw1f import HullWhite1Factor
    h0 = HullWhite1Factor(zero_curve=z, mean_rev_lvl=0.0, vol=sg)
    if not close(h0.calc_b(c["t"][0], c["t"][2]), c["t"][2] - c["t"][0]):
        return "b without mean reversion is %r" % h0.calc_b(c["t"][0], c["t"][2])


def gen_o(rng):
    c = gen_c(rng)
    n = rng.randint(2, 4)
    T = [rng.uniform(.2, 3) for _ in range(n)]
    S = [x + rng.uniform(.2, 4) for x in T]
    K = [rng.uniform(.7, 1.1) for _ in range(n)]
    cp = [rng.choice([1, -1]) for _ in range(n)]
    form = rng.choice(["scalars", "vectors", "K", "cp", "TS"])
    if rng.random() < .15:
        c["vol"] = 0.0
    if form != "vectors":
        T, S, K, cp = ([x[0]] * n if q not in form else x for q, x in (("T", T), ("S", S), ("K", K), ("cp", cp)))
    c.update(T=T, S=S, K=K, cp=cp, form=form)
    return c


def zbo_f(d, a, sg, T, S, K, cp):
    pt, ps = d(T), d(S)
    sp = sg * math.sqrt((1 - math.exp(-2 * a * T)) / (2 * a)) * (1 - math.exp(-a * (S - T))) / a
    if sp <= 0:
        return max(cp * (ps - K * pt), 0.0)
    h = math.log(ps / (K * pt)) / sp + sp / 2
    return cp * (ps * ncdf(cp * h) - K * pt * ncdf(cp * (h - sp)))


def check_o(c):
    import numpy as np
    z, h = make(c)
    d = lambda x: float(np.asarray(z.get_discount_factors(years=x)))
    arg = {q: np.array(c[q]) if c["form"] == "vectors" or q in c["form"] and c["form"] != "scalars" else c[q][0] for q in ("T", "S", "K", "cp")}
    n = 1 if c["form"] == "scalars" else len(c["T"])
    r = np.asarray(h.price_zero_coupon_bond_option(arg["T"], arg["S"], arg["K"], arg["cp"]))
    x = 1 / np.asarray(arg["K"]) - 1
    rate = (1 / arg["K"] - 1) / (arg["S"] - arg["T"])
    o = np.asarray(h.price_optionlet(arg["T"], arg["S"], rate, arg["cp"]))
    for v, nme in ((r, "bond options"), (o, "optionlets")):
        if v.shape != (n,):
            return "%s: shape %r, expected %r" % (nme, v.shape, (n,))
    for i in range(n):
        w = zbo_f(d, c["a"], c["vol"], c["T"][i], c["S"][i], c["K"][i], c["cp"][i])
        if not close(r[i], w, 1e-8, 1e-12):
            return "bond option %d is worth %r, expected %r" % (i, float(r[i]), w)
        w = zbo_f(d, c["a"], c["vol"], c["T"][i], c["S"][i], c["K"][i], -c["cp"][i]) / c["K"][i]
        if not close(o[i], w, 1e-8, 1e-12):
            return "optionlet %d is worth %r, expected %r" % (i, float(o[i]), w)


def gen_h(rng):
    c = gen_c(rng)
    c.update(N=rng.randint(1, 5), M=rng.randint(2, 4), tau=rng.uniform(.5, 4), seed=rng.randint(0, 9), anti=rng.random() < .5, sim=rng.choice(["euler", "rk4", "exact"]))
    return c


def check_h(c):
    import numpy as np
    from scipy.integrate import quad
    from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
    z, h = make(c)
    a, sg, N, M = c["a"], c["vol"], c["N"], c["M"]
    with np.errstate(all="ignore"):
        res = h.simulate(tau=c["tau"], nb_steps=N, nb_simulations=M, flag_apply_antithetic_variates=c["anti"], random_seed=c["seed"], method=c["sim"])
    Z = generate_rand_nbs(nb_steps=N, nb_rand_vars=1, nb_simulations=M, apply_antithetic_variates=c["anti"], random_seed=c["seed"])
    r, d, y = res["R"], res["sim_dsc_factor"], res["years_grid"]
    if r.shape != (N + 1, M) or d.shape != (N + 1, M) or y.shape != (N + 1,):
        return "shapes %r %r %r" % (r.shape, d.shape, y.shape)
    dt = c["tau"] / N
    th = [float(v) for v in h.get_thetas(np.array([i * dt for i in range(N + 1)]))]
    for s in range(M):
        x, D = h.r0, 1.0
        for i in range(N + 1):
            if i:
                t0, t1, f, w = (i - 1) * dt, i * dt, (lambda v: th[i - 1] - a * v), Z[i - 1, 0, s]
                if c["sim"] == "euler":
                    x1 = x + f(x) * dt + sg * math.sqrt(dt) * w
                elif c["sim"] == "rk4":
                    k1 = dt * f(x); k2 = dt * f(x + k1 / 2); k3 = dt * f(x + k2 / 2); k4 = dt * f(x + k3)
                    x1 = x + (k1 + 2 * k2 + 2 * k3 + k4) / 6 + sg * math.sqrt(dt) * w
                else:
                    lin = lambda u: th[i - 1] + (th[i] - th[i - 1]) * (u - t0) / dt
                    x1 = x * math.exp(-a * dt) + quad(lambda u: lin(u) * math.exp(-a * (t1 - u)), t0, t1)[0] + math.sqrt(sg * sg / (2 * a) * (1 - math.exp(-2 * a * dt))) * w
                D *= math.exp(-(x + x1) / 2 * dt)
                x = x1
            if not close(y[i], i * dt, 1e-9) or not close(r[i, s], x, 1e-7, 1e-10):
                return "%s path %d step %d: rate %r, expected %r" % (c["sim"], s, i, float(r[i, s]), x)
            if not close(d[i, s], D, 1e-8):
                return "%s path %d step %d: discount factor %r, expected %r" % (c["sim"], s, i, float(d[i, s]), D)
            if i and not close(res["sim_cczr"][i, s], -math.log(D) / (i * dt), 1e-6, 1e-9):
                return "%s path %d step %d: zero rate %r" % (c["sim"], s, i, float(res["sim_cczr"][i, s]))
    av = res["averages_df"]
    for i in range(1, N + 1):
        m = float(np.mean(d[i]))
        if not close(av["discount_factor"].iloc[i], m) or not close(av["cczr"].iloc[i], -math.log(m) / (i * dt), 1e-8, 1e-11):
            return "averages of step %d: %r %r" % (i, float(av["discount_factor"].iloc[i]), float(av["cczr"].iloc[i]))


def gen_w(rng):
    c = gen_c(rng)
    n = rng.randint(1, 4)
    T0 = rng.uniform(.3, 2)
    p = rng.choice([.5, 1.0])
    c.update(T0=T0, Tc=[T0 + p * (i + 1) for i in range(n)], dcf=[p * rng.uniform(.95, 1.05) for _ in range(n)], c=rng.uniform(.005, .05), notional=rng.choice([1.0, 100.0]), lag=rng.choice([0.0, 0.0, .02]), payer=rng.random() < .5)
    return c


def check_w(c):
    import numpy as np
    from scipy.optimize import brentq
    z, h = make(c)
    h.setup_theta()
    d = lambda x: float(np.asarray(z.get_discount_factors(years=x)))
    T0, Tc, dcf, n = c["T0"], np.array(c["Tc"]), np.array(c["dcf"]), len(c["Tc"])
    Tn = c["Tc"][-1] + c["lag"]
    v = h.price_swaption(T0, Tc, dcf, Tn, c["c"], is_payer=c["payer"], notional=c["notional"])
    if np.asarray(v).size != 1:
        return "swaption value has shape %r" % (np.asarray(v).shape,)
    v = float(np.asarray(v).ravel()[0])
    # independent: bond prices from the curve (3.39)
    a, sg = c["a"], c["vol"]
    B = lambda y: (1 - math.exp(-a * (y - T0))) / a
    f0 = float(np.asarray(z.get_instantaneous_forward_rate(years=T0)))
    P_ = lambda y, r: d(y) / d(T0) * math.exp(B(y) * (f0 - r) - sg * sg / (4 * a) * (1 - math.exp(-2 * a * T0)) * B(y) ** 2)
    g = lambda r: sum(c["c"] * w * P_(y, r) for y, w in zip(c["Tc"], c["dcf"])) + P_(Tn, r) - 1
    x = brentq(g, -1, 1, xtol=1e-13)
    cp = -1 if c["payer"] else 1
    w = c["notional"] * (sum(c["c"] * q * zbo_f(d, a, sg, T0, y, P_(y, x), cp) for y, q in zip(c["Tc"], c["dcf"])) + zbo_f(d, a, sg, T0, Tn, P_(Tn, x), cp))
    if abs(v - w) > c["notional"] * 3e-5 + 1e-4 * abs(w):
        return "%s swaption is worth %r, expected %r" % ("payer" if c["payer"] else "receiver", v, w)


FIX = {"years": [.5, 1.0, 2.0, 3.0, 4.0, 5.0, 7.0], "rates": [.01, .015, .02, .025, .03, .035, .03], "a": .03, "vol": .02, "method": "CUBIC_SPLINE_ON_CCZR"}


def rp(kind, e):
    if kind == "model":
        return {"kind": kind, "args": dict(FIX, t=[.7, 1.9, 4.1], r=.017)}
    if kind == "options":
        return {"kind": kind, "args": dict(FIX, T=[.7, 1.2], S=[2.1, 4.3], K=[.93, .9], cp=[1, -1], form="vectors")}
    if kind == "paths":
        return {"kind": kind, "args": dict(FIX, N=3, M=3, tau=2.4, seed=2, anti=True, sim="euler")}
    return {"kind": kind, "args": dict(FIX, T0=.8, Tc=[1.3, 1.8, 2.3], dcf=[.5, .49, .51], c=.02, notional=100.0, lag=0.0, payer=True)}


PROP = Prop("C13", "Hull-White bonds, options and paths agree with the curve and with each other", contracts=[Contract("get_thetas, setup_theta", [HW + ".get_thetas", HW + ".setup_theta"], drift, samplers=SAMP),
                                   Contract("initial short rate", HW + ".__post_init__", init, samplers=SAMP), Contract("calc_b", HW + ".calc_b", bcalc, samplers=SAMP),
                                   Contract("bond price", [HW + ".calc_discount_factor_by_solving_ode_1", HW + ".calc_discount_factor_by_solving_ode_2"], ode, samplers=SAMP)]
            + [bond_option(f) for f in ("scalars", "vectors", "strikes", "expiries and maturities")]
            + [simulate(m, o) for m in ("euler", "rk4", "exact") for o in (False, True)] + [swaption(f) for f in ("notional at the last coupon", "notional at a time of its own")],
            runtimes=[Runtime("model", gen_m, check_m, n=60, fn=HW + ".calc_discount_factor_by_solving_ode_1"), Runtime("options", gen_o, check_o, n=150, fn=HW + ".price_zero_coupon_bond_option"),
                      Runtime("paths", gen_h, check_h, n=90, fn=HW + ".simulate"), Runtime("swaptions", gen_w, check_w, n=16, fn=HW + ".price_swaption")],
            unverified=["accuracy of numerical integration, of the drift spline and of the root finder (quadrature is its integral, the spline an uninterpreted interpolant, the root exact); fit_theta's grid search and its printed tables"])
PROP.imports = [MOD]
