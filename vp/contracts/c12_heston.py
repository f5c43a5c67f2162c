from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.heston"
COSMOD = "frm.pricing_engine.cosine_method_generic"
IM = Sym(t.IMAG)
SAMP = {"S0": U(.5, 2), "K": U(.5, 2), "tau": U(.1, 3), "r": U(-.02, .08), "q": U(-.02, .08), "var0": U(.01, .2), "vv": U(.1, .9), "kappa": U(.3, 3),
        "theta": U(.01, .2), "rho": U(-.9, .9), "u": U(-3, 3), "v": U(.05, 4), "lambda_": U(0, .5), "mu": U(-.05, .05)}


def params():
    P = {x: R(x) for x in ("S0", "K", "tau", "r", "q", "var0", "vv", "kappa", "theta", "rho")}
    pre = [(P[x] > 0).t for x in ("S0", "K", "tau", "var0", "vv", "kappa", "theta")] + [(P["rho"] > -1).t, (P["rho"] < 1).t]
    return P, pre


def model(P):
    return {x: P[x] for x in ("tau", "r", "q", "var0", "vv", "kappa", "theta", "rho")}


def Re(z): return Sym(t.app("Re", (term(z),)))
def csub(z, m): return Sym(t.subst(term(z), {term(a): term(b) for a, b in m.items()}))


def chf_pde(which):
    FN = MOD + ".chf_heston_" + which

    def build(k):
        f = k.fn(FN)
        P, pre = params()
        u = R("u")

        def run():
            kw = model(P)
            if which == "albrecher2007":
                kw["log_S0"] = log(P["S0"])
            phi_ = f(u=u, **kw)
            D = diff(phi_, P["var0"]) / phi_
            fx = IM * u
            v = P["var0"]
            mu = P["r"] - P["q"]
            rhs = (mu - v / 2) * fx + P["kappa"] * (P["theta"] - v) * D + v / 2 * fx * fx + P["vv"] * P["vv"] * v / 2 * D * D + P["rho"] * P["vv"] * v * fx * D
            k.ensure("linear in the initial variance", Eq(diff(D, v), C(0)))
            k.ensure("satisfies the backward equation of the Heston model", Eq(diff(phi_, P["tau"]) / phi_, rhs))
            x0 = exp(IM * u * log(P["S0"])) if which == "albrecher2007" else C(1)
            k.ensure("initial condition", Eq(csub(phi_, {P["tau"]: C(0)}), x0))
        k.verify("chf", run, pre, replay=lambda e: {"kind": "methods", "args": {x: float(e.get1(x, d)) for x, d in DEF.items()}})
    return Contract("chf_heston_%s solves the Heston backward equation" % which, FN, build, samplers=SAMP, limit=200)


DEF = dict(S0=1.3, K=1.2, tau=.5, r=.03, q=.01, var0=.04, vv=.3, kappa=1.5, theta=.05, rho=-.6)


def heston93(m):
    FN = MOD + ".heston_1993_vanilla_european_integral"

    def build(k):
        f, chf = k.fn(FN), k.fn(MOD + ".chf_heston_albrecher2007")
        P, pre = params()
        v, lam = R("v"), R("lambda_")

        def run():
            r = f(φ=v, m=m, lambda_=lam, **P)
            # the risk adjusted variance process reverts at kappa + lambda to kappa theta / (kappa + lambda)
            kw = dict(model(P), log_S0=log(P["S0"]), kappa=P["kappa"] + lam, theta=P["kappa"] * P["theta"] / (P["kappa"] + lam))
            z = chf(u=v, **kw) if m == 2 else chf(u=v - IM, **kw) / (P["S0"] * exp((P["r"] - P["q"]) * P["tau"]))
            k.ensure("is the Gil-Pelaez integrand of the %s" % ("exercise probability" if m == 2 else "exercise probability under the share measure"),
                     Eq(r, Re(exp(-IM * v * log(P["K"])) * z / (IM * v))))
        k.verify("integrand", run, pre + [(v > 0).t, (lam >= 0).t], replay=lambda e: {"kind": "risk price", "args": dict(REPLAY(e)["args"], lambda_=float(e.get1("lambda_", .3)))})
    return Contract("heston_1993 integrand [m=%d]" % m, FN, build, samplers=SAMP, limit=200)


def REPLAY(e):
    return {"kind": "methods", "args": {x: float(e.get1(x, d)) for x, d in DEF.items()}}


def lipton_integrand():
    FN = MOD + ".heston_lipton_vanilla_european_integral"

    def build(k):
        f, chf = k.fn(FN), k.fn(MOD + ".chf_heston_fang2008")
        P, pre = params()
        v = R("v")

        def run():
            r = f(v=v, **P)
            X = log(P["S0"] / P["K"]) + (P["r"] - P["q"]) * P["tau"]
            kw = dict(model(P), r=C(0), q=C(0))
            z = chf(u=-v - IM / 2, **kw)
            k.ensure("is the Lewis-Lipton integrand of the same characteristic function", Eq(r, Re(exp((-IM * v + Q(1, 2)) * X) * z) / (v * v + Q(1, 4))))
        k.verify("integrand", run, pre + [(v > 0).t], replay=REPLAY)
    return Contract("Lewis-Lipton integrand", FN, build, samplers=SAMP, limit=200)


def fft_integrand(cp):
    FN = MOD + ".heston_fft_vanilla_european_integral"

    def build(k):
        f, chf = k.fn(FN), k.fn(MOD + ".chf_heston_albrecher2007")
        P, pre = params()
        v, al = R("v"), R("alpha")

        def run():
            kw = {x: P[x] for x in ("tau", "r", "q", "var0", "vv", "kappa", "theta", "rho")}
            r = f(v=v, cp=cp, log_S0=log(P["S0"]), log_K=log(P["K"]), alpha=al, **kw)
            z = chf(u=v - (cp * al + 1) * IM, log_S0=log(P["S0"]), **kw)
            a = cp * al
            k.ensure("is the Carr-Madan integrand", Eq(r, Re(exp(-IM * v * log(P["K"])) * exp(-P["r"] * P["tau"]) * z / ((a + IM * v) * (a + 1 + IM * v)))))
        k.verify("integrand", run, pre + [(v > 0).t, (al > 0).t], replay=REPLAY)
    return Contract("Carr-Madan integrand [%s]" % ("call" if cp == 1 else "put"), FN, build, samplers=dict(SAMP, alpha=U(.5, 2)), limit=200)


def price93():
    FN = MOD + ".heston1993_price_vanilla_european"

    def build(k):
        f, F = k.fn(FN), k.fn(MOD + ".heston_1993_vanilla_european_integral")
        P, pre = params()
        lam = R("lambda_")

        def run():
            c = f(cp=1, lambda_=lam, **P)
            p = f(cp=-1, lambda_=lam, **P)
            k.ensure("put-call parity", Eq(c - p, P["S0"] * exp(-P["q"] * P["tau"]) - P["K"] * exp(-P["r"] * P["tau"])))
            x, _ = Ctx.cur.store["integrands"][0]
            inf = t.var("infinity", "R")
            Pj = [Q(1, 2) + Sym(t.app("Integral", (term(F(φ=x, m=m, lambda_=lam, **P)), x.t, t.const(0), inf))) / PI for m in (1, 2)]
            k.ensure("call is forward value times P1 less discounted strike times P2",
                     Eq(c, P["S0"] * exp(-P["q"] * P["tau"]) * Pj[0] - P["K"] * exp(-P["r"] * P["tau"]) * Pj[1]))
        k.verify("price", run, pre + [(lam >= 0).t], replay=REPLAY)
    return Contract("Heston 1993 price", FN, build, samplers=SAMP, limit=200)


def price_lipton():
    FN = MOD + ".heston_lipton_price_vanilla_european"

    def build(k):
        f, F = k.fn(FN), k.fn(MOD + ".heston_lipton_vanilla_european_integral")
        P, pre = params()

        def run():
            c, p = f(cp=1, **P), f(cp=-1, **P)
            k.ensure("put-call parity", Eq(c - p, P["S0"] * exp(-P["q"] * P["tau"]) - P["K"] * exp(-P["r"] * P["tau"])))
            x, _ = Ctx.cur.store["integrands"][0]
            J = Sym(t.app("Integral", (term(F(v=x, **P)), x.t, t.const(0), t.var("infinity", "R"))))
            k.ensure("call is the forward value less the Lewis integral", Eq(c, P["S0"] * exp(-P["q"] * P["tau"]) - P["K"] * exp(-P["r"] * P["tau"]) / PI * J))
        k.verify("price", run, pre, replay=REPLAY)
    return Contract("Lewis-Lipton price", FN, build, samplers=SAMP, limit=200)


def truncation():
    FN = COSMOD + ".get_cos_truncation_range"

    def build(k):
        f, chf = k.fn(FN), k.fn(MOD + ".chf_heston_fang2008")
        P, pre = params()
        L, u = R("L"), R("u")

        def run():
            mp_ = {x: P[x] for x in ("tau", "var0", "vv", "kappa", "theta", "rho")}
            a, b = f("heston", L, dict(mp_, mu=P["r"] - P["q"]))
            z = chf(u=u, **model(P))
            d1 = diff(z, u)
            zero = {u: C(0)}
            c1 = csub(d1, zero) / IM
            k.ensure("centred at the mean of the log return", Eq((a + b) / 2, c1))
            a1, b1 = f("heston", C(1), dict(mp_, mu=P["r"] - P["q"]))
            k.ensure("width proportional to L", Eq(b - a, L * (b1 - a1)))
            d2 = diff(d1, u)
            c2 = -(csub(d2, zero) - csub(d1, zero) * csub(d1, zero))
            w = (b1 - a1) / 2
            k.ensure("half width is the square root of the size of the variance of the log return", Eq(w ** 4, c2 * c2))
            k.ensure("the range is 2 L standard deviations wide, its lower bound does not exceed the upper one", Eq(b - a, 2 * L * sqrt(abs(c2))))
        k.verify("range", run, pre + [(L > 0).t])
    return Contract("COS truncation range", FN, build, samplers=dict(SAMP, L=U(4, 12)), limit=200)



def cos_coefficients(cp):
    FN = MOD + ".calculate_Uk_european_options"

    def build(k):
        f = k.fn(FN)
        a, b, y = R("a"), R("b"), R("y")
        N = I("N")
        pre = [(a < 0).t, (b > 0).t, (N >= 2).t]

        def run():
            U_ = f(cp, a, b, nm.GArr((N,), lambda ix: Sym(ix[0]), kind="i"))
            g = gi(U_.shape[0])
            Ctx.cur.assume(Eq(Sym(t.fn("sin", (PI * g).t)), C(0)))          # g is an integer
            w = g * PI / (b - a)
            zero = bool(g == 0)
            cosw, sinw = (lambda x: Sym(t.fn("cos", term(w * (x - a))))), (lambda x: Sym(t.fn("sin", term(w * (x - a)))))
            G = (lambda x: x - exp(x)) if zero else (lambda x: sinw(x) / w - exp(x) * (cosw(x) + w * sinw(x)) / (1 + w * w))
            k.ensure("antiderivative of the put payoff times the cosine", Eq(diff(G(y), y), (1 - exp(y)) * (C(1) if zero else cosw(y))))
            lo, hi = (a, C(0)) if cp == -1 else (C(0), b)
            k.ensure("is the cosine coefficient of the payoff", Eq(gen(U_), 2 / (b - a) * -cp * (G(hi) - G(lo))))
            k.ensure("one per term", shape_is(U_, N))
        k.verify("coefficients", run, pre)
    return Contract("COS payoff coefficients [%s]" % ("call" if cp == 1 else "put"), FN, build, samplers={"a": U(-3, -.2), "b": U(.2, 3), "N": ch(4, 8), "y": U(-2, 2)}, limit=200)


def cos_price(parity):
    FN = MOD + ".heston_cosine_price_vanilla_european"
    MP = ("tau", "r", "q", "var0", "vv", "kappa", "theta", "rho")

    def build(k):
        f = k.fn(FN)
        mod = k.L.load(MOD)
        P, pre = params()
        n, N, L = I("n"), I("N"), R("L")
        cp, K = vec("cp", n), vec("K", n)
        inst = [("cp", sign_pm), ("K", pos)]
        chf = pure("CHF", ("u",) + MP, "C", over=("u",))
        Uk = pure("UK", ("cp", "a", "b", "k"), over=("k",))
        la, lb = pure("COS_A", ("L", "mu") + tuple(x for x in MP if x not in "rq")), pure("COS_B", ("L", "mu") + tuple(x for x in MP if x not in "rq"))

        def range_(model, L, model_param):
            if model != "heston":
                raise Unsupported("truncation range of another model")
            a, b = la(L=L, **model_param), lb(L=L, **model_param)
            Ctx.cur.assume(a < b)
            return a, b

        def run():
            kw = {x: v for x, v in P.items() if x != "K"}
            with patched(mod, chf_heston_fang2008=chf, calculate_Uk_european_options=Uk, get_cos_truncation_range=range_):
                r = f(cp=cp, K=K, N=N, L=L, calculate_via_put_call_parity=parity, **kw)
            k.ensure("one price per option", shape_is(r, n))
            a, b = range_("heston", L, {"mu": P["r"] - P["q"], **{x: P[x] for x in MP if x not in "rq"}})
            c, Kj = el("cp", n), el("K", n)
            call = bool(c == 1)
            side = -1 if parity or not call else 1

            def termk(ix):
                kk = Sym(ix[0])
                z = chf(u=kk * PI / (b - a), **{x: P[x] for x in MP}) * exp(IM * kk * PI * (log(P["S0"] / Kj) - a) / (b - a))
                return If(kk == 0, Q(1, 2), C(1)) * Re(z) * Uk(side, a, b, kk)
            v = Kj * exp(-P["r"] * P["tau"]) * nm.reduce_sum(nm.GArr((N,), termk))
            if call and parity:
                v = v + P["S0"] * exp(-P["q"] * P["tau"]) - Kj * exp(-P["r"] * P["tau"])
            k.ensure("discounted strike times the cosine series of the own strike" + (", calls by put-call parity" if parity else ""), Eq(gen(r), v))
        k.verify("price", run, pre + [(n >= 1).t, (N >= 2).t, (L > 0).t], inst=inst, replay=REPLAY)
    return Contract("COS price [%s]" % ("calls by parity" if parity else "direct"), FN, build, samplers=dict(SAMP, L=U(4, 12), N=ch(3, 4), n=ch(1, 2)), limit=300)


QE, ABS, REF = "quadratic_exponential", "euler_with_absorption_of_volatility_process", "euler_with_reflection_of_volatility_process"


def simulate(method, vector):
    FN = MOD + (".heston_simulate" if vector else ".heston_simulate_scalar")

    def build(k):
        f = k.fn(FN)
        P, pre = params()
        mu, T, N = R("mu"), I("T"), I("N")
        pre = pre + [(T >= 1).t, (N >= 1).t]
        z = arr("z", (T, 2, N) if vector else (T, 2))

        def run():
            kw = {x: P[x] for x in ("S0", "var0", "vv", "kappa", "theta", "rho", "tau")}
            g = nm.generic_index(nm.norm_dim(T + 1))
            i = Sym(g) - 1                               # the step that writes the generic row
            Ctx.cur.assume(And(i >= 0, i < T))
            bool(i == 0)                                 # first step / later step
            r = f(mu=mu, rand_nbs=z, method=method, **kw)
            s = I("s")
            Ctx.cur.assume(And(s >= 0, s < N))
            end = (s,) if vector else ()
            k.ensure("one row per time step plus the start, spot and variance, one path per simulation", shape_is(r, T + 1, 2, *((N,) if vector else ())))
            k.ensure("starts at the initial spot", Eq(at(r, 0, 0, *end), P["S0"]))
            k.ensure("starts at the initial variance", Eq(at(r, 0, 1, *end), P["var0"]))
            cell = lambda off, c: r.at((t.add(g, t.const(off - 1)), t.const(c)) + tuple(x.t for x in end))
            S, v, S1, v1 = cell(0, 0), cell(0, 1), cell(1, 0), cell(1, 1)
            Ctx.cur.assume(And(S > 0, v >= 0))           # induction hypothesis: established by the start row and by every step
            zz = [wrap(t.mk("sel", ("z", t.add(g, t.const(-1)), t.const(c)) + tuple(x.t for x in end), "R")) for c in (0, 1)]
            dt = P["tau"] / T
            kap, th, vv, rho = P["kappa"], P["theta"], P["vv"], P["rho"]
            if method != QE:
                u = sqrt(dt) * zz[0], sqrt(dt) * (rho * zz[0] + sqrt(1 - rho * rho) * zz[1])
                k.ensure("Euler step of the spot", Eq(S1, S + S * (mu * dt + sqrt(v) * u[0])))
                w = v + kap * (th - v) * dt + vv * sqrt(v) * u[1]
                k.ensure("Euler step of the variance, %s at zero" % ("absorbed" if method == ABS else "reflected"), Eq(v1, If(w >= 0, w, C(0) if method == ABS else -w)))
                k.ensure("variance is never negative", v1 >= 0)
                return
            x = kap * dt
            e = exp(-x)
            k.lemma("mean reversion over a step is positive", x > 0)
            k.instance("discount of the mean reversion is between 0 and 1", lambda y: [y > 0], lambda y: And(exp(-y) > 0, exp(-y) < 1), x)
            m = th + (v - th) * e
            s2 = v * vv * vv * e / kap * (1 - e) + th * vv * vv / (2 * kap) * (1 - e) * (1 - e)
            psi = s2 / (m * m)
            k.instance("conditional mean is positive", lambda E_, v, th: [E_ > 0, E_ < 1, v >= 0, th > 0], lambda E_, v, th: th + (v - th) * E_ > 0, e, v, th)
            k.instance("conditional variance is positive", lambda E_, v, th, vv, kap: [E_ > 0, E_ < 1, v >= 0, th > 0, vv > 0, kap > 0],
                       lambda E_, v, th, vv, kap: v * vv * vv * E_ / kap * (1 - E_) + th * vv * vv / (2 * kap) * (1 - E_) * (1 - E_) > 0, e, v, th, vv, kap)
            k.instance("dispersion is positive", lambda m, s2: [m > 0, s2 > 0], lambda m, s2: s2 / (m * m) > 0, m, s2)
            small = bool(psi <= Q(3, 2))
            un = Phi(zz[1])
            p = (psi - 1) / (psi + 1)
            c = m * (psi + 1) / 2
            if not small:
                k.instance("large dispersion: mass at zero is a probability, scale is positive", lambda m, psi: [m > 0, psi > Q(3, 2)],
                           lambda m, psi: And((psi - 1) / (psi + 1) > 0, (psi - 1) / (psi + 1) < 1, m * (psi + 1) / 2 > 0), m, psi)
                k.lemma("uniform between zero and one", And(un > 0, un < 1))
                zero_ = bool(un <= p)
            S1, v1 = cases(S1, v1)
            k.ensure("spot is positive", S1 > 0)
            V = v1
            k.ensure("log spot follows the exact representation with the trapezoidal integrated variance",
                     Eq(log(S1), log(S) + mu * dt + rho / vv * (V - v - kap * th * dt) + (kap * rho / vv - Q(1, 2)) * dt * (v + V) / 2 + sqrt((1 - rho * rho) * dt * (v + V) / 2) * zz[0]))
            if small:
                d1 = diff(v1, zz[1])
                d2 = diff(d1, zz[1])
                zero = {zz[1]: C(0)}
                k.ensure("small dispersion: quadratic in one normal variate", Eq(diff(d2, zz[1]), C(0)))
                A, B, c0 = csub(d2, zero) / 2, csub(d1, zero), csub(v1, zero)
                b2 = lambda psi: 2 / psi - 1 + sqrt(2 / psi * (2 / psi - 1))
                k.instance("small dispersion: offset and scale are positive", lambda m, psi: [m > 0, psi > 0, psi <= Q(3, 2)], lambda m, psi: And(b2(psi) > 0, m / (1 + b2(psi)) > 0), m, psi)
                a_, q = m / (1 + b2(psi)), zz[1] + sqrt(b2(psi))
                k.instance("variance is never negative", lambda w, a, q: [a > 0, Eq(w, a * q * q)], lambda w, a, q: w >= 0, v1, a_, q)
                k.ensure("small dispersion: conditional mean is the mean of the square-root process", Eq(c0 + A, m))
                k.ensure("small dispersion: conditional variance is the variance of the square-root process", Eq(B * B + 2 * A * A, s2))
            else:
                tail = C(0) if zero_ else c * log((1 - p) / (1 - un))
                k.instance("exponential tail is not negative", lambda p, c, u: [p > 0, p < 1, c > 0, u < 1, u > p], lambda p, c, u: c * log((1 - p) / (1 - u)) >= 0, p, c, un) if not zero_ else None
                k.ensure("large dispersion: mass at zero and exponential tail, inverted at the uniform of the normal variate", Eq(v1, tail))
                k.instance("variance is never negative", lambda w, a: [a >= 0, Eq(w, a)], lambda w, a: w >= 0, v1, tail)
                k.ensure("large dispersion: conditional mean is the mean of the square-root process", Eq((1 - p) * c, m))
                k.ensure("large dispersion: conditional variance is the variance of the square-root process", Eq(2 * (1 - p) * c * c - m * m, s2))
        k.verify("path", run, pre, replay=lambda e: {"kind": "simulate", "args": gen_s(__import__("random").Random(3), method, vector)})
    return Contract("heston_simulate%s [%s]" % ("" if vector else "_scalar", method), FN, build, samplers=dict(SAMP, T=ch(2, 3), N=ch(1, 2), z=U(-2, 2), z2=U(-2, 2)), limit=300)


def gen_s(rng, method=None, vector=None):
    T, N = rng.randint(1, 4), rng.randint(1, 3)
    return {"method": method or rng.choice([QE, ABS, REF]), "vector": rng.random() < .5 if vector is None else vector,
            "P": dict(S0=rng.uniform(.5, 2), var0=rng.choice([0.0, rng.uniform(.001, .3)]), vv=rng.uniform(.1, 1.5), kappa=rng.uniform(.2, 3), theta=rng.uniform(.01, .3), rho=rng.uniform(-.95, .95),
                      tau=rng.uniform(.1, 3), mu=rng.uniform(-.05, .05)),
            "z": [[[rng.gauss(0, 1) for _ in range(N)] for _ in range(2)] for _ in range(T)]}


# ------------------------------------------------------------------ run-time conformance
def gen_m(rng):
    u = rng.uniform
    c = dict(S0=u(.5, 2), tau=u(.1, 3), r=u(-.02, .08), q=u(-.02, .08), var0=u(.01, .2), vv=u(.1, .8), kappa=u(.4, 3), theta=u(.02, .2), rho=u(-.85, .85))
    c["K"] = c["S0"] * math.exp(u(-.3, .3))
    return c


def gen_l(rng):
    return dict(gen_m(rng), lambda_=rng.uniform(0, .6))


def ref_price(S0, K, tau, r, q, var0, vv, kappa, theta, rho):
    """independent reference: Lewis' single integral of the (little trap) Heston characteristic function"""
    import numpy as np
    from scipy.integrate import quad

    def phi_(u):
        d = np.sqrt((rho * vv * u * 1j - kappa) ** 2 + vv ** 2 * (u * 1j + u * u))
        g = (kappa - rho * vv * u * 1j - d) / (kappa - rho * vv * u * 1j + d)
        A = kappa * theta / vv ** 2 * ((kappa - rho * vv * u * 1j - d) * tau - 2 * np.log((1 - g * np.exp(-d * tau)) / (1 - g)))
        B = (kappa - rho * vv * u * 1j - d) / vv ** 2 * (1 - np.exp(-d * tau)) / (1 - g * np.exp(-d * tau))
        return np.exp(A + B * var0)
    k_ = math.log(S0 / K) + (r - q) * tau
    f = lambda u: (np.exp(1j * u * k_) * phi_(u - .5j)).real / (u * u + .25)
    J = sum(quad(f, a, b, epsabs=1e-13, limit=200)[0] for a, b in ((0, 5), (5, 20), (20, 100), (100, 500)))
    c = S0 * math.exp(-q * tau) - math.sqrt(S0 * K) * math.exp(-(r + q) * tau / 2) / math.pi * J
    return c, c - S0 * math.exp(-q * tau) + K * math.exp(-r * tau)


METHODS = (("heston_1993", 1e-5), ("heston_cosine", 1e-3), ("heston_lipton", 1e-5), ("heston_carr_madan_gauss_kronrod_quadrature", 1e-5), ("heston_carr_madan_fft_w_simpsons", 2e-2))


def check_m(c):
    import numpy as np
    from frm.pricing_engine.heston import heston_price_vanilla_european as f
    c = dict(c)
    lam = c.pop("lambda_", 0.0)
    want = dict(zip((1, -1), ref_price(**dict(c, kappa=c["kappa"] + lam, theta=c["kappa"] * c["theta"] / (c["kappa"] + lam)))))
    for mth, tol in METHODS[:1 if lam else None]:
        for cp in (1, -1):
            a = dict(c, cp=cp, lambda_=lam, pricing_method=mth)
            if mth == "heston_cosine":
                a["K"], a["cp"] = np.array([c["K"]]), np.array([cp])
            try:
                v = float(np.asarray(f(**a)).ravel()[0])
            except Exception as e:
                return "%s raised %r" % (mth, e)
            if not abs(v - want[cp]) <= tol * c["S0"]:
                return "%s prices the %s at %.8g, reference %.8g" % (mth, "call" if cp == 1 else "put", v, want[cp])


def gen_b(rng):
    c = gen_m(rng)
    n = rng.randint(1, 5)
    c["K"] = [c["S0"] * math.exp(rng.uniform(-.3, .3)) for _ in range(n)]
    kind = rng.choice(["call", "put", "mixed"])
    c["cp"] = [{"call": 1, "put": -1, "mixed": rng.choice([1, -1])}[kind] for _ in range(n)]
    c["parity"] = rng.random() < .5
    if not c["parity"]:
        c["rho"] = -abs(c["rho"])        # a heavy right tail is cut by the truncation range when calls are priced directly
    return c


def check_b(c):
    import numpy as np
    from frm.pricing_engine.heston import heston_cosine_price_vanilla_european as f
    M = {x: v for x, v in c.items() if x not in ("K", "cp", "parity")}
    r = f(cp=np.array(c["cp"]), K=np.array(c["K"]), calculate_via_put_call_parity=c["parity"], N=400 if not c["parity"] else 160, **M)
    if r.shape != (len(c["K"]),):
        return "shape %r" % (r.shape,)
    for j, (cp, K) in enumerate(zip(c["cp"], c["K"])):
        want = ref_price(K=K, **M)[0 if cp == 1 else 1]
        if not abs(r[j] - want) <= 1e-3 * c["S0"]:
            return "option %d: %.8g, reference %.8g" % (j, r[j], want)


def check_s(c):
    import numpy as np
    from frm.pricing_engine import heston as h
    z, P = np.array(c["z"]), c["P"]
    T, _, N = z.shape
    if c["vector"]:
        x = h.heston_simulate(rand_nbs=z, method=c["method"], **P)
    else:
        x = np.stack([h.heston_simulate_scalar(rand_nbs=z[:, :, s].copy(), method=c["method"], **P) for s in range(N)], axis=2)
    if x.shape != (T + 1, 2, N):
        return "shape %r" % (x.shape,)
    dt, ka, th, vv, rho = P["tau"] / T, P["kappa"], P["theta"], P["vv"], P["rho"]
    from scipy.stats import norm
    for s in range(N):
        S, v = P["S0"], P["var0"]
        for i in range(T + 1):
            if not (close(x[i, 0, s], S, 1e-8) and close(x[i, 1, s], v, 1e-8)):
                return "simulation %d, step %d: (spot, variance) = %r, expected %r" % (s, i, tuple(x[i, :, s]), (S, v))
            if i == T:
                break
            z0, z1 = z[i, :, s]
            if c["method"] == QE:
                e = math.exp(-ka * dt)
                m = th + (v - th) * e
                s2 = v * vv ** 2 * e / ka * (1 - e) + th * vv ** 2 / 2 / ka * (1 - e) ** 2
                psi = s2 / m ** 2
                if psi <= 1.5:
                    b2 = 2 / psi - 1 + math.sqrt(2 / psi * (2 / psi - 1))
                    w = m / (1 + b2) * (math.sqrt(b2) + z1) ** 2
                else:
                    p, u = (psi - 1) / (psi + 1), norm.cdf(z1)
                    w = 0.0 if u <= p else m * (psi + 1) / 2 * math.log((1 - p) / (1 - u))
                S = S * math.exp(P["mu"] * dt + rho / vv * (w - v - ka * th * dt) + (ka * rho / vv - .5) * dt * (v + w) / 2 + math.sqrt((1 - rho ** 2) * dt * (v + w) / 2) * z0)
            else:
                u2 = rho * z0 + math.sqrt(1 - rho ** 2) * z1
                w = v + ka * (th - v) * dt + vv * math.sqrt(v * dt) * u2
                w = max(w, 0.0) if c["method"] == ABS else abs(w)
                S = S + S * (P["mu"] * dt + math.sqrt(v * dt) * z0)
            v = w


RT = [Runtime("risk price", gen_l, check_m, n=40, fn=MOD + ".heston_price_vanilla_european", limit=200), Runtime("methods", gen_m, check_m, n=60, fn=MOD + ".heston_price_vanilla_european", limit=200), Runtime("book", gen_b, check_b, n=60, fn=MOD + ".heston_cosine_price_vanilla_european"),
      Runtime("simulate", gen_s, check_s, n=300, fn=MOD + ".heston_simulate")]


PROP = Prop("C12", "All Heston pricing methods and simulation schemes implement one Heston model", contracts=[chf_pde("fang2008"), chf_pde("albrecher2007"), heston93(1), heston93(2), lipton_integrand(), fft_integrand(1), fft_integrand(-1), price93(), price_lipton(), truncation(),
                                        cos_coefficients(1), cos_coefficients(-1), cos_price(True), cos_price(False)] + [simulate(m, v) for m in (QE, ABS, REF) for v in (False, True)],
            runtimes=RT,
            assumptions=["an integral over the real line is a function of its integrand: scipy's quadrature and FFT errors are not part of the proof"],
            unverified=["numerical error of quadrature, FFT grid and cosine truncation (run-time conformance only)", "heston_calibrate_vanilla_smile"])
PROP.imports = [MOD]
