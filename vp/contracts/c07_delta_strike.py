from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.garman_kohlhagen"
FN = MOD + ".garman_kohlhagen_solve_strike_from_delta"
CONV = ("regular_spot", "regular_forward", "premium_adjusted_spot", "premium_adjusted_forward")
SAMP = {"S0": U(.5, 1.5), "F": U(.5, 1.5), "tau": U(.1, 5), "vol": U(.05, .3), "r_d": U(-.02, .1), "r_f": U(-.02, .1), "D": lambda r: r.choice([1, -1]) * r.uniform(.05, .45), "n": ch(2, 3)}
S0, tau, rd, rf, F = (R(x) for x in ("S0", "tau", "r_d", "r_f", "F"))


def delta(conv, K, fw, v, cp):
    """the delta quoted by the convention, as a function of the strike"""
    sd = v * sqrt(tau)
    d2 = log(fw / K) / sd - sd / 2
    m = exp(-rf * tau) if conv.endswith("spot") else C(1)
    return m * cp * (Phi(cp * (d2 + sd)) if conv.startswith("regular") else K / fw * Phi(cp * d2))


def gk_delta(k, conv, K, v, cp, fwd):
    f = k.fn(MOD + ".garman_kohlhagen_price")
    r = f(S0=S0, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=v, F=fwd, analytical_greeks=True)["analytical_greeks"]
    return gen(r["spot_delta" if conv.endswith("spot") else "forward_delta"])


def DOM(D, conv, v):
    base = [Not(Eq(D, 0)), v > 0]
    return base + [D > -Q(1, 2), D < Q(1, 2)]


def ppf_ok(D, conv):
    return [D * exp(rf * tau) < 1, D * exp(rf * tau) > -1] if conv.endswith("spot") else []


def sgn(D):
    return If(D > 0, C(1), C(-1))


def away(conv):
    def build(k):
        k.L.opt.mode = "exact"
        f = k.fn(FN)
        for fwd in (None, F):
            fw = S0 * exp((rd - rf) * tau) if fwd is None else F
            lbl = "" if fwd is None else ", forward given"
            pre = [(S0 > 0).t, (tau > 0).t] + ([(F > 0).t] if fwd is not None else [])
            D, v = R("D"), R("vol")

            def run():
                K = f(S0=S0, tau=tau, r_d=rd, r_f=rf, vol=v, signed_delta=D, delta_convention=conv, F=fwd)
                k.ensure("one strike", shape_is(K, 1))
                Kg = gen(K)
                cp = sgn(D)
                k.ensure("the strike has the quoted delta", Eq(delta(conv, Kg, fw, v, cp), D))
                if conv.startswith("regular"):
                    k.ensure("strike is positive", Kg > 0)
                    k.ensure("the pricing function reports the quoted delta at that strike", Eq(gk_delta(k, conv, K, v, cp, fwd), D))
            k.verify("scalar quote" + lbl, run, pre + [term(x) for x in DOM(D, conv, v) + ppf_ok(D, conv)], raises=lambda e: isinstance(e, ValueError), replay=lambda e: rp(e, conv, fwd is not None), budget=90)
            n = I("n")
            Dv, vv = vec("D", n), vec("vol", n)
            sel = lambda u, nm_: wrap(t.mk("sel", (nm_,) + u.args[1:], "R"))
            inst = [("D", lambda u: DOM(Sym(u), conv, sel(u, "vol")) + ppf_ok(Sym(u), conv)), ("vol", pos)]

            def runv():
                K = f(S0=S0, tau=tau, r_d=rd, r_f=rf, vol=vv, signed_delta=Dv, delta_convention=conv, F=fwd)
                k.ensure("one strike per quote", shape_is(K, n))
                g, d = el("vol", n), el("D", n)
                k.ensure("every strike has its quoted delta", Eq(delta(conv, gen(K), fw, g, sgn(d)), d))
            k.verify("n quotes" + lbl, runv, pre + [(n >= 2).t], inst, raises=lambda e: isinstance(e, ValueError), replay=lambda e: rp(e, conv, fwd is not None), budget=90)
    return Contract("strike from delta [%s]" % conv, FN, build, samplers=SAMP, limit=250)


def atm(conv):
    def build(k):
        k.L.opt.mode = "exact"
        f = k.fn(FN)
        v = R("vol")
        for fwd in (None, F):
            fw = S0 * exp((rd - rf) * tau) if fwd is None else F
            for d in (Q(1, 2), -Q(1, 2)):
                pre = [(S0 > 0).t, (tau > 0).t, (v > 0).t] + ([(F > 0).t] if fwd is not None else [])
                kw = dict(S0=S0, tau=tau, r_d=rd, r_f=rf, vol=v, signed_delta=float(d), delta_convention=conv, F=fwd)

                def run():
                    K = gen(f(**kw))
                    s = 1 if conv.startswith("regular") else -1
                    k.ensure("delta-neutral strike", Eq(K, fw * exp(s * v * v * tau / 2)))
                    c, p = (delta(conv.replace("spot", "forward"), K, fw, v, C(x)) for x in (1, -1))
                    k.ensure("call and put deltas at that strike cancel", Eq(c + p, 0))
                k.verify("at the money %s%s" % (float(d), "" if fwd is None else ", forward given"), run, pre, replay=lambda e: rp(e, conv, fwd is not None, d=float(d)))

                if conv == "regular_spot":
                    def run2():
                        K = gen(f(**kw, atm_delta_convention="per_delta_convention"))
                        k.ensure("the strike has the quoted spot delta", Eq(delta(conv, K, fw, v, C(1 if d > 0 else -1)), C(d)))
                    k.verify("at the money %s per convention%s" % (float(d), "" if fwd is None else ", forward given"), run2, pre + [(exp(rf * tau) < 2).t])
    return Contract("at-the-money strike [%s]" % conv, FN, build, samplers=SAMP)


def rp(e, conv, fwd, d=None):
    g = lambda v, x: float(e.get1(v, x))
    return {"kind": "strike", "args": {"S0": g("S0", 1), "tau": g("tau", 1), "r_d": g("r_d", .03), "r_f": g("r_f", .01), "conv": conv, "F": g("F", 1) if fwd else None, "q": [[g("D", .25) if d is None else d, g("vol", .1)]], "vec": False}}


def gen_case(rng):
    S0_ = rng.choice([.66, 1.4, 108., 1250.]) * rng.uniform(.9, 1.1)
    t_ = rng.choice([.02, .1, .5, 1, 2, 4]) * rng.uniform(.8, 1.2)
    a, b = rng.uniform(-.01, .07), rng.uniform(-.01, .07)
    n = rng.choice([1, 1, 2, 3, 5])
    q = [[rng.choice([-1, 1]) * rng.choice([.5, rng.uniform(.03, .3), rng.uniform(.03, .3), .25, .1]), rng.uniform(.04, .3)] for _ in range(n)]
    return {"S0": S0_, "tau": t_, "r_d": a, "r_f": b, "conv": rng.choice(CONV), "F": S0_ * math.exp((a - b) * t_) * rng.uniform(.95, 1.05) if rng.random() < .4 else None, "q": q, "vec": n > 1 or rng.random() < .3}


def check_case(c):
    import numpy as np
    from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as f, garman_kohlhagen_price as px
    D_ = np.array([x[0] for x in c["q"]]) if c["vec"] else c["q"][0][0]
    v_ = np.array([x[1] for x in c["q"]]) if c["vec"] else c["q"][0][1]
    try:
        K = np.asarray(f(S0=c["S0"], tau=c["tau"], r_d=c["r_d"], r_f=c["r_f"], vol=v_, signed_delta=D_, delta_convention=c["conv"], F=c["F"]))
    except ValueError:
        # only a premium adjusted call delta above the largest attainable one may be refused
        import math as m_
        for d, v in c["q"]:
            if c["conv"].startswith("premium") and 0 < d < .5:
                sd = v * m_.sqrt(c["tau"])
                m = m_.exp(-c["r_f"] * c["tau"]) if c["conv"].endswith("spot") else 1
                best = max(m * m_.exp(x) * ncdf((-x - sd * sd / 2) / sd) for x in (i * sd / 50 for i in range(-400, 200)))
                if d > best * .999:
                    return None
        return "an attainable delta was refused"
    if K.shape != (len(c["q"]),):
        return "strike shape %s for %d quotes" % (K.shape, len(c["q"]))
    fw = c["F"] or c["S0"] * math.exp((c["r_d"] - c["r_f"]) * c["tau"])
    for i, (d, v) in enumerate(c["q"]):
        sd = v * math.sqrt(c["tau"])
        if abs(d) == .5:
            e = fw * math.exp((1 if c["conv"].startswith("regular") else -1) * sd * sd / 2)
            if not close(K[i], e, 1e-10):
                return "at-the-money strike[%d] for delta %r = %r, delta-neutral strike %r" % (i, d, K[i], e)
            continue
        cp = 1 if d > 0 else -1
        d2 = math.log(fw / K[i]) / sd - sd / 2
        m = math.exp(-c["r_f"] * c["tau"]) if c["conv"].endswith("spot") else 1
        got = m * cp * (ncdf(cp * (d2 + sd)) if c["conv"].startswith("regular") else K[i] / fw * ncdf(cp * d2))
        if abs(got - d) > 1e-7:
            return "strike[%d] = %r has delta %r, quoted %r" % (i, K[i], got, d)
        if c["conv"].startswith("premium") and cp == 1:
            # the larger of the two strikes: delta falls as the strike rises
            if sd * ncdf(d2) - npdf(d2) > 1e-6:
                return "strike[%d] = %r is on the rising branch of the premium adjusted delta" % (i, K[i])
        if c["conv"].startswith("regular"):
            g = px(S0=c["S0"], tau=c["tau"], r_d=c["r_d"], r_f=c["r_f"], cp=cp, K=K[i], vol=v, F=c["F"], analytical_greeks=True)["analytical_greeks"]
            gd = g["spot_delta" if c["conv"].endswith("spot") else "forward_delta"].iloc[0]
            if abs(gd - d) > 1e-9:
                return "pricing function reports delta %r at the strike, quoted %r" % (gd, d)


PROP = Prop("C07", "A strike solved from a delta quote has that delta",
            contracts=[away(c) for c in CONV] + [atm(c) for c in CONV],
            runtimes=[Runtime("strike", gen_case, check_case, n=400, fn=FN)],
            assumptions=["scipy.optimize.root_scalar returns a zero of its function inside the bracket when it reports success"],
            unverified=["that the premium-adjusted call solution is the one on the falling branch of the delta is checked at run time only (bounded)"])
PROP.imports = [MOD]
