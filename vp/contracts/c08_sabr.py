from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.sabr"
VOLF, ALF, FIT = (MOD + "." + x for x in ("calc_sln_vol_for_strike_from_sabr_params", "solve_alpha_from_sln_vol", "fit_sabr_params_to_sln_smile"))
NAMES = ("tau", "F", "alpha", "beta", "rho", "volvol", "K")
SHAPES = {"all scalar": "", "strikes length n": "K", "all length n": "tau F alpha beta rho volvol K", "parameters length n, scalar strike": "tau F alpha beta rho volvol"}
DOMS = {"tau": pos, "alpha": pos, "volvol": pos, "rho": lambda u: [Sym(u) > -1, Sym(u) < 1], "beta": lambda u: [Sym(u) >= 0, Sym(u) <= 1]}
SAMP = {"tau": U(.2, 10), "F": U(.01, .08), "K": U(.01, .08), "alpha": U(.01, .2), "beta": U(0, 1), "rho": U(-.7, .7), "volvol": U(.05, .8), "s": U(0, .03), "n": ch(2, 3), "vol": U(.05, .5)}


def p_(a, b):
    return exp(b * log(a))


def corr(tau, f, k, a, b, r, v):
    """the bracket of (2.17a)/(2.18) in Hagan et al. 2002"""
    return 1 + ((1 - b) * (1 - b) / 24 * a * a / p_(f * k, 1 - b) + r * b * v * a / (4 * p_(f * k, (1 - b) / 2)) + (2 - 3 * r * r) / 24 * v * v) * tau


def hagan(tau, f, k, a, b, r, v):
    L = log(f / k)
    z = v / a * p_(f * k, (1 - b) / 2) * L
    x = log((sqrt(1 - 2 * r * z + z * z) + z - r) / (1 - r))
    den = p_(f * k, (1 - b) / 2) * (1 + (1 - b) ** 2 / 24 * L * L + (1 - b) ** 4 / 1920 * L * L * L * L)
    return a / den * (z / x) * corr(tau, f, k, a, b, r, v)


def hagan_atm(tau, f, a, b, r, v):
    return a / p_(f, 1 - b) * (1 + ((1 - b) * (1 - b) / 24 * a * a / p_(f, 2 - 2 * b) + r * b * v * a / (4 * p_(f, 1 - b)) + (2 - 3 * r * r) / 24 * v * v) * tau)


def near(f, k):
    """the function's at-the-money window"""
    L = log(f / k)
    return And(L < Q(1, 10 ** 6), L > -Q(1, 10 ** 6))


def smile(sname):
    def build(k):
        f = k.fn(VOLF)
        n, s = I("n"), R("s")
        vs = SHAPES[sname].split()
        args, g, pre, inst = {}, {}, [], []
        for v in NAMES:
            if v in vs:
                args[v], g[v] = vec(v, n), el(v, n)
                if v in DOMS:
                    inst.append((v, DOMS[v]))
            else:
                args[v] = g[v] = R(v)
                if v in DOMS:
                    pre += [term(x) for x in DOMS[v](R(v).t)]
        if vs:
            pre.append((n >= 2).t)
        for v in ("F", "K"):
            if v in vs:
                inst.append((v, lambda u: [Sym(u) + s > 0]))
            else:
                pre.append((R(v) + s > 0).t)
        ff, kk = g["F"] + s, g["K"] + s
        q = dict(tau=g["tau"], a=g["alpha"], b=g["beta"], r=g["rho"], v=g["volvol"])
        if "rho" in vs:
            pass

        def run():
            r = f(**args, ln_shift=s)
            rg = gen(r) if isinstance(r, GArr) else r
            k.ensure("away from the money: Hagan 2.17", Implies(Not(near(ff, kk)), Eq(rg, hagan(f=ff, k=kk, **q))))
            k.ensure("at the money: Hagan 2.18", Implies(near(ff, kk), Eq(rg, g["alpha"] / p_(ff * kk, (1 - g["beta"]) / 2) * corr(f=ff, k=kk, **{"tau": q["tau"], "a": q["a"], "b": q["b"], "r": q["r"], "v": q["v"]}))))
            if vs:
                k.ensure("one volatility per strike", shape_is(r, n))
                for v in vs:
                    k.ensure("argument %s is not modified" % v, Eq(gen(args[v]), g[v]))
        k.verify("smile", run, pre, inst, replay=lambda e: rp(e), budget=90)
        if "K" not in vs and "F" not in vs or sname == "all length n":
            def run2():
                r = f(**{**args, "K": args["F"]}, ln_shift=s)
                rg = gen(r) if isinstance(r, GArr) else r
                k.ensure("strike equal to the forward: 2.18 with K = F", Eq(rg, hagan_atm(f=ff, **q)))
            k.verify("exactly at the money", run2, pre, inst, replay=lambda e: rp(e, atm=True))
    return Contract("calc_sln_vol_for_strike_from_sabr_params [%s]" % sname, VOLF, build, samplers=SAMP, limit=250)


def alpha(k):
    f, vol = k.fn(ALF), k.fn(VOLF)
    tau, F, b, r, v, s, target = (R(x) for x in ("tau", "F", "beta", "rho", "volvol", "s", "vol"))
    pre = [(tau > 0).t, (F + s > 0).t, (v > 0).t, (target > 0).t] + [term(x) for x in DOMS["rho"](r.t) + DOMS["beta"](b.t)]

    def run():
        a = f(tau=tau, F=F, beta=b, rho=r, volvol=v, vol_sln_atm=target, ln_shift=s)
        k.ensure("the solved alpha gives back the at-the-money volatility (formula)", Eq(hagan_atm(tau, F + s, a, b, r, v), target))
        k.ensure("the solved alpha gives back the at-the-money volatility (smile function)", Eq(vol(tau=tau, F=F, alpha=a, beta=b, rho=r, volvol=v, K=F, ln_shift=s), target))
    k.verify("alpha", run, pre, replay=lambda e: {"kind": "alpha", "args": args_of(e)}, budget=90)


def args_of(e):
    g = lambda v, d: float(e.get1(v, d))
    return {"tau": g("tau", 1), "F": g("F", .03), "beta": g("beta", .5), "rho": g("rho", 0), "volvol": g("volvol", .3), "vol": g("vol", .2), "s": g("s", 0)}


def rp(e, atm=False):
    g = lambda v, d: float(e.get1(v, d))
    return {"kind": "smile", "args": {"tau": [g("tau", 1)], "F": [g("F", .03)], "alpha": [g("alpha", .05)], "beta": [g("beta", .5)], "rho": [g("rho", 0)], "volvol": [g("volvol", .3)], "K": [g("F", .03) if atm else g("K", .04)], "s": g("s", 0), "vec": ""}}


def o_hagan(tau, f, k, a, b, r, v):
    L = math.log(f / k)
    fk = f * k
    c = 1 + ((1 - b) ** 2 / 24 * a * a / fk ** (1 - b) + r * b * v * a / (4 * fk ** ((1 - b) / 2)) + (2 - 3 * r * r) / 24 * v * v) * tau
    if abs(L) < 1e-6:
        return a / fk ** ((1 - b) / 2) * c
    z = v / a * fk ** ((1 - b) / 2) * L
    x = math.log((math.sqrt(1 - 2 * r * z + z * z) + z - r) / (1 - r))
    return a / (fk ** ((1 - b) / 2) * (1 + (1 - b) ** 2 / 24 * L ** 2 + (1 - b) ** 4 / 1920 * L ** 4)) * z / x * c


def gen_case(rng):
    vecs = rng.choice(list(SHAPES.values()))
    n = rng.randint(2, 4) if vecs else 1
    s = rng.choice([0, .02, .03])
    rows = []
    for _ in range(n):
        F = rng.uniform(.01, .08)
        b = rng.choice([0, .5, 1, rng.random()])
        vol = rng.uniform(.08, .6)
        rows.append({"tau": rng.uniform(.1, 15), "F": F, "beta": b, "alpha": vol * (F + s) ** (1 - b), "rho": rng.uniform(-.8, .8), "volvol": rng.uniform(.05, .8),
                     "K": F if rng.random() < .15 else (F + s) * math.exp(rng.uniform(-.8, .8)) - s})
    vs = vecs.split()
    return {"s": s, "vec": vecs, **{v: [r[v] for r in rows] if v in vs else [rows[0][v]] for v in NAMES}}


def check_case(c):
    import numpy as np
    from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params as f
    vs = c["vec"].split()
    arg = {v: np.array(c[v], dtype=float) if v in vs else c[v][0] for v in NAMES}
    keep = {v: np.array(x, copy=True) for v, x in arg.items()}
    r = f(**arg, ln_shift=c["s"])
    n = max(len(c[v]) for v in NAMES)
    if not vs and not isinstance(r, float):
        return "scalar inputs gave %r" % type(r)
    for v in arg:
        if not np.array_equal(np.asarray(arg[v]), keep[v]):
            return "argument %s modified" % v
    R_ = np.atleast_1d(r)
    if R_.shape != (n,):
        return "shape %s for %d inputs" % (R_.shape, n)
    for i in range(n):
        q = {v: c[v][i] if len(c[v]) > 1 else c[v][0] for v in NAMES}
        e = o_hagan(q["tau"], q["F"] + c["s"], q["K"] + c["s"], q["alpha"], q["beta"], q["rho"], q["volvol"])
        if not close(R_[i], e, 1e-8):
            return "volatility[%d] = %r, Hagan %r" % (i, R_[i], e)
        # continuity through the money
    F0 = c["F"][0]
    q = {v: c[v][0] for v in NAMES}
    a0 = f(**{**q, "K": F0}, ln_shift=c["s"])
    a1 = f(**{**q, "K": (F0 + c["s"]) * (1 + 3e-6) - c["s"]}, ln_shift=c["s"])
    if abs(a1 / a0 - 1) > 1e-4:
        return "smile jumps at the money: %r vs %r" % (a0, a1)


def gen_alpha(rng):
    F = rng.uniform(.01, .08)
    return {"tau": rng.uniform(.1, 10), "F": F, "beta": rng.choice([0, .3, .5, .8, .99, 1.0]), "rho": rng.uniform(-.6, .6), "volvol": rng.uniform(.05, .6), "vol": rng.uniform(.05, .5), "s": rng.choice([0, .02])}


def check_alpha(c):
    from frm.pricing_engine.sabr import solve_alpha_from_sln_vol as f, calc_sln_vol_for_strike_from_sabr_params as sm
    a = f(tau=c["tau"], F=c["F"], beta=c["beta"], rho=c["rho"], volvol=c["volvol"], vol_sln_atm=c["vol"], ln_shift=c["s"])
    back = sm(tau=c["tau"], F=c["F"], alpha=a, beta=c["beta"], rho=c["rho"], volvol=c["volvol"], K=c["F"], ln_shift=c["s"])
    if not close(back, c["vol"], 1e-7):
        return "alpha %r gives at-the-money volatility %r, target %r" % (a, back, c["vol"])
    if a <= 0:
        return "alpha %r is not positive" % a


def gen_fit(rng):
    F = rng.uniform(.01, .06)
    b = rng.choice([0, .5, .7, 1])
    s = rng.choice([0, .02])
    vol = rng.uniform(.1, .4)
    m = [-.4, -.2, -.1, 0, .1, .2, .4] if rng.random() < .5 else [-.3, 0, .3]
    return {"tau": rng.uniform(.5, 5), "F": F, "b": b, "rho": rng.uniform(-.5, .5), "vv": rng.uniform(.15, .5), "vol": vol, "s": s, "m": m, "fix": rng.random() < .7}


def check_fit(c):
    import numpy as np
    from frm.pricing_engine import sabr as m
    a = m.solve_alpha_from_sln_vol(c["tau"], c["F"], c["b"], c["rho"], c["vv"], c["vol"], c["s"])
    K = (c["F"] + c["s"]) * np.exp(np.array(c["m"])) - c["s"]
    K[c["m"].index(0)] = c["F"]
    vols = np.array([o_hagan(c["tau"], c["F"] + c["s"], k_ + c["s"], a, c["b"], c["rho"], c["vv"]) for k_ in K])
    keep = vols.copy()
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            (al, be, rh, vv), res = m.fit_sabr_params_to_sln_smile(tau=c["tau"], F=c["F"], K=K, vols_sln=vols, ln_shift=c["s"], beta_overide=c["b"] if c["fix"] else None)
    except ValueError:
        return None
    if not np.array_equal(vols, keep):
        return "quotes modified"
    if not (-1 <= rh <= 1 and vv > 0 and 0 <= be <= 1):
        return "calibrated parameters outside their ranges: beta %r rho %r volvol %r" % (be, rh, vv)
    if c["fix"] and be != c["b"]:
        return "beta override ignored"
    back = m.calc_sln_vol_for_strike_from_sabr_params(tau=c["tau"], F=c["F"], alpha=al, beta=be, rho=rh, volvol=vv, K=c["F"], ln_shift=c["s"])
    if not close(back, vols[c["m"].index(0)], 1e-7):
        return "calibrated smile misses the at-the-money quote: %r vs %r" % (back, vols[c["m"].index(0)])
    fit = m.calc_sln_vol_for_strike_from_sabr_params(tau=c["tau"], F=c["F"], alpha=al, beta=be, rho=rh, volvol=vv, K=K, ln_shift=c["s"])
    if not close(res.fun, sum((fit - vols) ** 2), 1e-6, 1e-14):
        return "reported objective %r, sum of squared errors of the returned parameters %r" % (res.fun, sum((fit - vols) ** 2))


PROP = Prop("C08", "SABR volatilities follow Hagan (2002) and alpha reproduces the ATM quote",
            contracts=[smile(s) for s in SHAPES] + [Contract("solve_alpha_from_sln_vol", ALF, alpha, samplers=SAMP)],
            runtimes=[Runtime("smile", gen_case, check_case, n=400, fn=VOLF), Runtime("alpha", gen_alpha, check_alpha, n=300, fn=ALF), Runtime("fit", gen_fit, check_fit, n=24, fn=FIT)],
            assumptions=["np.roots returns roots of the polynomial whose coefficients it is given"],
            unverified=["fit_sabr_params_to_sln_smile (numerical calibration) is checked at run time only (bounded): the returned parameters are in range and reproduce the at-the-money quote",
                        "positivity of the solved alpha: run time only (bounded)"])
PROP.imports = [MOD]
