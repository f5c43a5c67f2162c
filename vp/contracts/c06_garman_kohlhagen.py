from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.garman_kohlhagen"
PR = MOD + ".garman_kohlhagen_price"
NAMES = ("S0", "tau", "r_d", "r_f", "cp", "K", "vol", "F")
SHAPES = {"all scalar": "", "all length n": "S0 tau r_d r_f cp K vol F", "K,cp,vol length n": "K cp vol", "tau,rates length n": "tau r_d r_f F", "K,cp,vol,tau length n": "K cp vol tau"}
DOMS = {"S0": pos, "tau": pos, "vol": pos, "cp": sign_pm, "F": pos, "K": pos}
SAMP = {"S0": U(.5, 1.5), "K": U(.5, 1.5), "F": U(.5, 1.5), "tau": U(.1, 5), "vol": U(.05, .5), "r_d": U(-.02, .1), "r_f": U(-.02, .1), "cp": ch(1, -1), "n": ch(2, 3), "X": U(.01, .2), "g": U(.05, .3)}


def bs(S0, tau, r, q, cp, K, v):
    sd = v * sqrt(tau)
    d1 = (log(S0 / K) + (r - q + v * v / 2) * tau) / sd
    return cp * (S0 * exp(-q * tau) * Phi(cp * d1) - K * exp(-r * tau) * Phi(cp * (d1 - sd)))


def setup(vecs, fwd):
    n = I("n")
    args, g, pre, inst = {}, {}, [], []
    vs = vecs.split()
    for v in NAMES:
        if v == "F" and not fwd:
            args[v] = None
            continue
        if v in vs:
            args[v], g[v] = vec(v, n), el(v, n)
            if v in DOMS:
                inst.append((v, DOMS[v]))
        else:
            args[v] = g[v] = R(v)
            if v in DOMS:
                pre += [term(f) for f in DOMS[v](R(v).t)]
    if vs:
        pre.append((n >= 2).t)
    g["r"] = log(g["F"] / g["S0"]) / g["tau"] + g["r_f"] if fwd else g["r_d"]
    return args, g, pre, inst, n, bool(vs)


def price(sname, fwd):
    def build(k):
        f = k.fn(PR)
        args, g, pre, inst, n, isv = setup(SHAPES[sname], fwd)
        ln = n if isv else 1
        S = lambda **o: bs(**{**dict(S0=g["S0"], tau=g["tau"], r=g["r"], q=g["r_f"], cp=g["cp"], K=g["K"], v=g["vol"]), **o})
        X = S()
        fw = g["S0"] * exp((g["r"] - g["r_f"]) * g["tau"])
        df = exp(-g["r"] * g["tau"])

        def frame():
            for v in NAMES:
                if isinstance(args[v], GArr):
                    k.ensure("argument %s is not modified" % v, Eq(gen(args[v]), g[v]))

        def run():
            r = f(**args)
            k.ensure("price == Garman-Kohlhagen formula", Eq(gen(r["price"]), X))
            k.ensure("one price per input element", shape_is(r["price"], ln))
            frame()
        k.verify("price", run, pre, inst, replay=lambda e: rp(e, fwd))

        def parity():
            if isinstance(args["cp"], GArr):
                one = nm._ones_like(args["cp"]) if hasattr(nm, "_ones_like") else args["cp"] * 0 + 1
            else:
                one = 1
            c = f(**{**args, "cp": one})
            p = f(**{**args, "cp": -one})
            k.ensure("call - put == discounted (forward - strike)", Eq(gen(c["price"]) - gen(p["price"]), df * (fw - g["K"])))
            if fwd:
                k.ensure("the market forward is what the option is struck against", Eq(gen(c["price"]) - gen(p["price"]), df * (g["F"] - g["K"])))
        k.verify("parity", parity, pre, inst, replay=lambda e: rp(e, fwd))

        def split():
            r = f(**args, intrinsic_time_split=True)
            m = g["cp"] * (g["S0"] * exp(-g["r_f"] * g["tau"]) - g["K"] * df)
            k.ensure("intrinsic == discounted forward intrinsic", Eq(gen(r["intrinsic"]), If(m > 0, m, 0)))
            k.ensure("price == intrinsic + time", Eq(gen(r["price"]), gen(r["intrinsic"]) + gen(r["time"])))
            k.ensure("price unchanged by the option", Eq(gen(r["price"]), X))
            frame()
        k.verify("split", split, pre, inst, replay=lambda e: rp(e, fwd))

        def greeks():
            r = f(**args, analytical_greeks=True)
            G = r["analytical_greeks"]
            D_ = {a: R("_" + a) for a in ("S0", "tau", "vol", "r")}
            sym_ = S(S0=D_["S0"], tau=D_["tau"], v=D_["vol"], r=D_["r"])

            def d(*xs):
                e = sym_.t
                for x in xs:
                    e = t.diff(e, D_[x].t)
                m = {D_["S0"].t: term(g["S0"]), D_["tau"].t: term(g["tau"]), D_["vol"].t: term(g["vol"]), D_["r"].t: term(g["r"])}
                return Sym(t.subst(e, m))
            dS = d("S0")
            k.ensure("spot delta == dX/dS", Eq(gen(G["spot_delta"]), dS))
            k.ensure("forward delta == spot delta / foreign discount factor", Eq(gen(G["forward_delta"]) * exp(-g["r_f"] * g["tau"]), dS))
            k.ensure("vega == dX/dvol per 1%", Eq(gen(G["vega"]), d("vol") / 100))
            k.ensure("theta == -dX/dtau per calendar day", Eq(gen(G["theta"]), -d("tau") / Q("365.25")))
            k.ensure("gamma == d2X/dS2 per 1% of spot", Eq(gen(G["gamma"]), d("S0", "S0") * g["S0"] / 100))
            k.ensure("rho == dX/dr_d per 1%", Eq(gen(G["rho"]), d("r") / 100))
            k.ensure("price unchanged by the option", Eq(gen(r["price"]), X))
            frame()
        k.verify("greeks", greeks, pre, inst, replay=lambda e: rp(e, fwd))

        def num():
            r = f(**args, numerical_greeks=True)
            G = r["numerical_greeks"]
            h = C(Q(1, 100))
            dlt = lambda S0: g["cp"] * exp(-g["r_f"] * g["tau"]) * Phi(g["cp"] * ((log(S0 / g["K"]) + (g["r"] - g["r_f"] + g["vol"] * g["vol"] / 2) * g["tau"]) / (g["vol"] * sqrt(g["tau"]))))
            up, dn = g["S0"] * (1 + h), g["S0"] * (1 - h)
            sd = (S(S0=up) - S(S0=dn)) / (2 * g["S0"] * h)
            k.ensure("numerical spot delta == central difference", Eq(gen(G["spot_delta"]), sd))
            k.ensure("numerical forward delta == spot delta / foreign discount factor", Eq(gen(G["forward_delta"]) * exp(-g["r_f"] * g["tau"]), sd))
            k.ensure("numerical vega == central difference per 1%", Eq(gen(G["vega"]), (S(v=g["vol"] + h) - S(v=g["vol"] - h)) / 2))
            k.ensure("numerical gamma == central difference of delta per 1%", Eq(gen(G["gamma"]), (dlt(up) - dlt(dn)) / 2))
            k.ensure("numerical rho == central difference per 1%", Eq(gen(G["rho"]), (S(r=g["r"] + h) - S(r=g["r"] - h)) / 2))
            if not fwd:
                day = C(1 / Q("365.25"))
                k.ensure("numerical theta == central difference per calendar day", Eq(gen(G["theta"]), (S(tau=g["tau"] - day) - S(tau=g["tau"] + day)) / 2))
            k.ensure("price unchanged by the option", Eq(gen(r["price"]), X))
        more, i2 = [], list(inst)
        for v, b in (("vol", Q(1, 100)), ("tau", 1 / Q("365.25"))):
            if isinstance(args[v], GArr):
                i2.append((v, lambda u, b=b: [Sym(u) > b]))
            else:
                more.append((R(v) > b).t)
        k.verify("numerical greeks", num, pre + more, i2, replay=lambda e: rp(e, fwd), budget=90)
    return Contract("garman_kohlhagen_price [%s%s]" % (sname, ", forward given" if fwd else ""), PR, build, samplers=SAMP, limit=240)


def expiry(k):
    f = k.fn(PR)
    n = I("n")
    Kv, cpv, vv = vec("K", n), vec("cp", n), vec("vol", n)
    kk, cc = el("K", n), el("cp", n)
    S0, rd, rf = R("S0"), R("r_d"), R("r_f")
    pre = [(S0 > 0).t, (n >= 2).t]
    inst = [("K", pos), ("cp", sign_pm), ("vol", pos)]
    iv = If(cc * (S0 - kk) > 0, cc * (S0 - kk), 0)
    for F in (None, R("F")):
        def run():
            r = f(S0=S0, tau=0.0, r_d=rd, r_f=rf, cp=cpv, K=Kv, vol=vv, F=F, intrinsic_time_split=True)
            k.ensure("price at expiry == spot intrinsic value", Eq(gen(r["price"]), iv))
            k.ensure("intrinsic at expiry == price", Eq(gen(r["intrinsic"]), iv))
            k.ensure("no time value at expiry", Eq(gen(r["time"]), 0))
            k.ensure("one price per strike", shape_is(r["price"], n))
        k.verify("expiry" + ("" if F is None else ", forward given"), run, pre + ([] if F is None else [(F > 0).t]), inst)


def solver(k):
    k.L.opt.mode = "exact"
    f = k.fn(MOD + ".garman_kohlhagen_solve_implied_vol")
    v = {x: R(x) for x in ("S0", "tau", "r_d", "r_f", "cp", "K", "X", "g")}
    import numpy as np

    def run():
        r = f(S0=v["S0"], tau=v["tau"], r_d=v["r_d"], r_f=v["r_f"], cp=v["cp"], K=v["K"], X=v["X"], vol_guess=v["g"])
        if isinstance(r, float) and r == math.inf:
            k.ensure("no solution is reported as infinity", Eq(C(0), 0))
            return
        r = gen(r) if isinstance(r, GArr) else r
        k.ensure("the returned volatility reprices the option", Implies(Not(Eq(r, 0)), Eq(bs(v["S0"], v["tau"], v["r_d"], v["r_f"], v["cp"], v["K"], r), v["X"])))
    pre = [(v[x] > 0).t for x in ("S0", "tau", "K", "X", "g")] + [term(x) for x in sign_pm(v["cp"].t)]
    k.verify("solve", run, pre, replay=lambda e: rp(e, False, "iv"))


def rp(e, fwd, kind="price"):
    g = lambda v, d: float(e.get1(v, d))
    c = {"S0": [g("S0", 1)], "tau": [g("tau", 1)], "r_d": [g("r_d", .03)], "r_f": [g("r_f", .01)], "cp": [int(g("cp", 1)) or 1], "K": [g("K", 1.1)], "vol": [g("vol", .2)], "F": [g("F", 1)] if fwd else None, "vec": ""}
    if kind == "iv":
        return {"kind": "implied vol", "args": {**{a: b[0] for a, b in c.items() if a not in ("F", "vec")}, "g": g("g", .1)}}
    return {"kind": "formula", "args": c}


def o_bs(S0, tau, r, q, cp, K, v):
    sd = v * math.sqrt(tau)
    d1 = (math.log(S0 / K) + (r - q + v * v / 2) * tau) / sd
    return cp * (S0 * math.exp(-q * tau) * ncdf(cp * d1) - K * math.exp(-r * tau) * ncdf(cp * (d1 - sd)))


def gen_case(rng):
    vecs = rng.choice(list(SHAPES.values()))
    n = rng.randint(2, 4) if vecs else 1
    base = rng.choice([.0062, .66, 1.5, 110., 1300.])
    fwd = rng.random() < .4

    def one():
        S0 = base * rng.uniform(.9, 1.1)
        tau = rng.choice([.02, .25, 1, 2, 10]) * rng.uniform(.8, 1.2)
        v = rng.uniform(.03, .5)
        rd, rf = rng.uniform(-.02, .09), rng.uniform(-.02, .09)
        fw = S0 * math.exp((rd - rf) * tau)
        return {"S0": S0, "tau": tau, "r_d": rd, "r_f": rf, "cp": rng.choice([1, -1]), "K": fw * math.exp(rng.gauss(0, .8) * v * math.sqrt(tau)), "vol": v, "F": fw * rng.uniform(.97, 1.03)}
    rows = [one() for _ in range(n)]
    c = {"vec": vecs}
    for v in NAMES:
        c[v] = [r[v] for r in rows] if v in vecs.split() else [rows[0][v]]
    if not fwd:
        c["F"] = None
    return c


def check_case(c):
    import numpy as np
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as f
    vs = c["vec"].split()
    names = [v for v in NAMES if c[v] is not None]
    n = max(len(c[v]) for v in names)
    arg = {v: (np.array(c[v], dtype=float) if v in vs else c[v][0]) for v in names}
    keep = {a: np.array(v, copy=True) for a, v in arg.items()}
    num = min(c["vol"]) > .0101 and min(c["tau"]) > 1 / 365
    r = f(**arg, intrinsic_time_split=True, analytical_greeks=True, numerical_greeks=num)
    X = np.asarray(r["price"])
    for a, v in arg.items():
        if not np.array_equal(np.asarray(v), keep[a]):
            return "argument %s was modified" % a
    if X.shape != (n,):
        return "price shape %s for %d inputs" % (X.shape, n)
    o = np.ones(n) if "cp" in vs else 1
    call_, put = f(**{**arg, "cp": o})["price"], f(**{**arg, "cp": -o})["price"]
    for i in range(n):
        q = {v: (c[v][i] if len(c[v]) > 1 else c[v][0]) for v in names}
        rr = math.log(q["F"] / q["S0"]) / q["tau"] + q["r_f"] if "F" in q else q["r_d"]
        a = dict(S0=q["S0"], tau=q["tau"], r=rr, q=q["r_f"], cp=q["cp"], K=q["K"], v=q["vol"])
        P = lambda **z: o_bs(**{**a, **z})
        e, sc = P(), q["S0"]
        if not close(X[i], e, 1e-9, 1e-11 * sc):
            return "price[%d] = %r, formula %r" % (i, X[i], e)
        fwv = math.exp(-rr * q["tau"]) * (q["S0"] * math.exp((rr - q["r_f"]) * q["tau"]) - q["K"])
        if not close(call_[i] - put[i], fwv, 1e-9, 1e-11 * sc):
            return "parity at %d: %r vs %r" % (i, call_[i] - put[i], fwv)
        if not close(r["intrinsic"][i], max(0, q["cp"] * fwv), 1e-9, 1e-11 * sc):
            return "intrinsic[%d] = %r, expected %r" % (i, r["intrinsic"][i], max(0, q["cp"] * fwv))
        if not close(r["intrinsic"][i] + r["time"][i], X[i], 1e-9, 1e-12 * sc) or r["time"][i] < -1e-10 * sc:
            return "time value at %d" % i
        cd = lambda nm_, h: (P(**{nm_: a[nm_] + h}) - P(**{nm_: a[nm_] - h})) / (2 * h)
        sd = a["v"] * math.sqrt(a["tau"])
        h = 1e-3 * sd * sc
        exp_ = {"spot_delta": cd("S0", 1e-4 * sd * sc), "vega": cd("v", 1e-4 * a["v"]) / 100, "theta": -cd("tau", 1e-4 * a["tau"]) / 365.25, "rho": cd("r", 1e-4) / 100,
                "gamma": (P(S0=sc + h) - 2 * e + P(S0=sc - h)) / h ** 2 * sc / 100}
        exp_["forward_delta"] = exp_["spot_delta"] * math.exp(a["q"] * a["tau"])
        ab = {"spot_delta": 1e-5, "forward_delta": 1e-5, "vega": 1e-6 * sc * math.sqrt(a["tau"]), "theta": 1e-8 * sc / a["tau"] + 1e-10 * sc, "rho": 1e-6 * sc * a["tau"], "gamma": 2e-3 / sd * .01 * .4}
        G = r["analytical_greeks"]
        for nm_, v in exp_.items():
            if abs(G[nm_].iloc[i] - v) > ab[nm_] + 1e-4 * abs(v):
                return "%s[%d] = %r, derivative of the price %r" % (nm_, i, G[nm_].iloc[i], v)
        if num:
            N = r["numerical_greeks"]
            ex = {"spot_delta": (P(S0=sc * 1.01) - P(S0=sc * .99)) / (.02 * sc), "vega": (P(v=a["v"] + .01) - P(v=a["v"] - .01)) / 2, "rho": (P(r=rr + .01) - P(r=rr - .01)) / 2}
            ex["forward_delta"] = ex["spot_delta"] * math.exp(a["q"] * a["tau"])
            if "F" not in q:
                ex["theta"] = (P(tau=a["tau"] - 1 / 365.25) - P(tau=a["tau"] + 1 / 365.25)) / 2
            dl = lambda s: a["cp"] * math.exp(-a["q"] * a["tau"]) * ncdf(a["cp"] * (math.log(s / a["K"]) + (rr - a["q"] + a["v"] ** 2 / 2) * a["tau"]) / sd)
            ex["gamma"] = (dl(sc * 1.01) - dl(sc * .99)) / 2
            for nm_, v in ex.items():
                s_ = 1 if nm_ in ("spot_delta", "forward_delta", "gamma") else sc
                if not close(N[nm_].iloc[i], v, 1e-6, 1e-9 * s_):
                    return "numerical %s[%d] = %r, central difference %r" % (nm_, i, N[nm_].iloc[i], v)


def gen_expiry(rng):
    n = rng.randint(1, 4)
    S0 = rng.choice([.6, 1.4, 110.])
    return {"S0": S0, "K": [S0 * rng.choice([.8, .95, 1.05, 1.3]) for _ in range(n)], "cp": [rng.choice([1, -1]) for _ in range(n)], "vol": [rng.uniform(.05, .4) for _ in range(n)],
            "tau": [rng.choice([0, 1.]) for _ in range(n)] if rng.random() < .5 else [0.], "F": S0 * 1.02 if rng.random() < .3 else None}


def check_expiry(c):
    import numpy as np
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as f
    tau = np.array(c["tau"]) if len(c["tau"]) > 1 else c["tau"][0]
    r = f(S0=c["S0"], tau=tau, r_d=.03, r_f=.01, cp=np.array(c["cp"]), K=np.array(c["K"]), vol=np.array(c["vol"]), F=c["F"], intrinsic_time_split=True)
    n = len(c["K"])
    for i in range(n):
        ti = c["tau"][i] if len(c["tau"]) > 1 else c["tau"][0]
        if ti == 0:
            e = max(0, c["cp"][i] * (c["S0"] - c["K"][i]))
            if not close(r["price"][i], e) or not close(r["intrinsic"][i], e) or abs(r["time"][i]) > 1e-12:
                return "expiry[%d]: price %r intrinsic %r time %r, intrinsic value is %r" % (i, r["price"][i], r["intrinsic"][i], r["time"][i], e)
        else:
            rr = math.log(c["F"] / c["S0"]) + .01 if c["F"] else .03
            e = o_bs(c["S0"], 1., rr, .01, c["cp"][i], c["K"][i], c["vol"][i])
            if not close(r["price"][i], e, 1e-9, 1e-12):
                return "price[%d] = %r, formula %r" % (i, r["price"][i], e)


def gen_iv(rng):
    c = gen_case(rng)
    c = {v: c[v][0] for v in NAMES if v != "F"}
    fw = c["S0"] * math.exp((c["r_d"] - c["r_f"]) * c["tau"])
    c["K"] = fw * math.exp(rng.uniform(-2, 2) * c["vol"] * math.sqrt(c["tau"]))
    c["g"] = rng.choice([.1, .2, c["vol"]])
    return c


def check_iv(c):
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_implied_vol as f
    X = o_bs(c["S0"], c["tau"], c["r_d"], c["r_f"], c["cp"], c["K"], c["vol"])
    v = f(S0=c["S0"], tau=c["tau"], r_d=c["r_d"], r_f=c["r_f"], cp=c["cp"], K=c["K"], X=X, vol_guess=c["g"])
    if math.isinf(v):
        return "no implied volatility found for an attainable price"
    if abs(v - c["vol"]) > 2e-4:
        return "implied volatility %r, the option was priced at %r" % (v, c["vol"])


PROP = Prop("C06", "Garman-Kohlhagen prices, greeks and implied volatilities are consistent",
            contracts=[price(s, fw) for s in SHAPES for fw in (False, True)] +
                      [Contract("garman_kohlhagen_price [expiry]", PR, expiry, samplers=SAMP),
                       Contract("garman_kohlhagen_solve_implied_vol", MOD + ".garman_kohlhagen_solve_implied_vol", solver, samplers=SAMP)],
            runtimes=[Runtime("formula", gen_case, check_case, n=300, fn=PR), Runtime("expiry", gen_expiry, check_expiry, n=100, fn=PR),
                      Runtime("implied vol", gen_iv, check_iv, n=200, fn=MOD + ".garman_kohlhagen_solve_implied_vol")],
            assumptions=["scipy.optimize.newton and root_scalar return a zero of the function they are given when they report success (their convergence tolerance is not modelled)"],
            unverified=["non-negativity of the time value is checked at run time only (bounded)"])
PROP.imports = [MOD]
