from ..core import Prop, Contract, Runtime
from ..spec import *
from .c02_black76_bachelier import b76, bach, o_price

MOD = "frm.pricing_engine.black76_bachelier"
TOL = Q(1, 100000)
SAMP = {"F": U(.01, .1), "K": U(.01, .1), "tau": U(.1, 5), "vol": U(.05, .6), "s": U(0, .03), "s2": U(0, .03), "A": U(.2, 2), "cp": ch(1, -1), "X": U(.0001, .05), "guess": U(.01, .5)}
F, K, tau, vol, s, s2, A, cp, X, guess = (R(v) for v in ("F", "K", "tau", "vol", "s", "s2", "A", "cp", "X", "guess"))
DOM = [(tau > 0).t, (A > 0).t, (F + s > 0).t, (K + s > 0).t, (vol > 0).t, (X > 0).t]
FAILS = lambda e: isinstance(e, ValueError)


def fl(x):
    return gen(x) if isinstance(x, GArr) else x


def reprices(k, name, v, priced, target):
    err = (priced - target) / target
    k.ensure(name, And(err < TOL, err > -TOL))


def solver(model):
    def build(k):
        f = k.fn(MOD + (".black76_solve_implied_vol" if model == "b76" else ".bachelier_solve_implied_vol"))
        spec = b76 if model == "b76" else bach
        lo, hi = k.fn(MOD + (".VOL_SLN_BOUNDS" if model == "b76" else ".VOL_N_BOUNDS"))

        def run():
            kw = dict(F=F, tau=tau, cp=cp, K=K, X=X, annuity_factor=A)
            if model == "b76":
                kw["ln_shift"] = s
            r = fl(f(**kw))
            reprices(k, "the returned volatility reprices the option within 0.001%", r, spec(F, tau, cp, K, r, s, A), X)
            k.ensure("the returned volatility is inside the documented bounds", And(r >= lo, r <= hi))
        k.verify("scalar", run, DOM + [term(x) for x in sign_pm(cp.t)], raises=FAILS, replay=lambda e: rp("solve_" + model, e))

        n = I("n")
        vF, vtau, vK, vA = (vec(x, n) for x in ("F", "tau", "K", "A"))
        inst = [(x, pos) for x in ("tau", "A")]

        def runv():
            kw = dict(F=vF, tau=vtau, cp=cp, K=vK, X=X, annuity_factor=vA)
            if model == "b76":
                kw["ln_shift"] = s
            r = fl(f(**kw))
            px = k.fn(MOD + (".black76_price" if model == "b76" else ".bachelier_price"))
            kw.pop("X")
            kw["vol_sln" if model == "b76" else "vol_n"] = r
            reprices(k, "a flat volatility for a strip reprices the strip total within 0.001%", r, px(**kw)["price"].sum(), X)
        k.verify("strip of length n", runv, [(n >= 2).t, (X > 0).t] + [term(x) for x in sign_pm(cp.t)], inst, raises=FAILS)
    return Contract("%s_solve_implied_vol" % ("black76" if model == "b76" else "bachelier"), MOD + (".black76_solve_implied_vol" if model == "b76" else ".bachelier_solve_implied_vol"), build, samplers=SAMP)


def near(F, K):
    d = F - K
    return And(d < Q(1, 10 ** 10), -d < Q(1, 10 ** 10))


def conversions(k):
    to_n, to_ln, shift, an = (k.fn(MOD + x) for x in (".black76_sln_to_normal_vol", ".normal_vol_to_black76_sln", ".shift_black76_vol", ".black76_sln_to_normal_vol_analytical"))
    atm = k.fn(MOD + ".normal_vol_atm_to_black76_sln_atm")
    off = [Not(near(F, K)).t]
    one = C(1)

    def r1():
        r = fl(to_n(F=F, tau=tau, K=F, vol_sln=vol, ln_shift=s))
        k.ensure("at the money the normal vol reprices the lognormal option exactly", Eq(bach(F, tau, one, F, r, s, one), b76(F, tau, one, F, vol, s, one)))
        k.ensure("closed form", Eq(r * sqrt(tau) * phi(C(0)), (F + s) * (2 * Phi(vol * sqrt(tau) / 2) - 1)))
    pre = [(tau > 0).t, (F + s > 0).t, (vol > 0).t]
    k.verify("sln -> normal, at the money", r1, pre, replay=lambda e: rp("to_n", e, atm=True))

    def r2():
        r = fl(to_ln(F=F, tau=tau, K=F, vol_n=vol, ln_shift=s))
        k.ensure("at the money the lognormal vol reprices the normal option exactly", Eq((F + s) * (2 * Phi(r * sqrt(tau) / 2) - 1), vol * sqrt(tau) * phi(C(0))))
    arg = (vol * sqrt(tau) * phi(C(0)) + F + s) / (2 * (F + s))
    k.verify("normal -> sln, at the money", r2, pre + [(arg < 1).t, (arg > 0).t], replay=lambda e: rp("to_ln", e, atm=True))

    def r3():
        r = fl(atm(F=F, tau=tau, vol_n_atm=vol, ln_shift=s))
        k.ensure("at the money closed form reprices exactly", Eq((F + s) * (2 * Phi(r * sqrt(tau) / 2) - 1), vol * sqrt(tau) * phi(C(0))))
    k.verify("normal_vol_atm_to_black76_sln_atm", r3, pre + [(arg < 1).t, (arg > 0).t], replay=lambda e: rp("to_ln", e, atm=True))

    DX = [(tau > 0).t, (F + s > 0).t, (K + s > 0).t, (vol > 0).t] + off
    pb, pn = b76(F, tau, one, K, vol, s, one), bach(F, tau, one, K, vol, s, one)

    def r4():
        r = fl(to_n(F=F, tau=tau, K=K, vol_sln=vol, ln_shift=s))
        reprices(k, "away from the money the normal vol reprices within 0.001%", r, bach(F, tau, one, K, r, s, one), pb)
    k.verify("sln -> normal", r4, DX + [(pb > 0).t], raises=FAILS, replay=lambda e: rp("to_n", e))

    def r5():
        r = fl(to_ln(F=F, tau=tau, K=K, vol_n=vol, ln_shift=s))
        reprices(k, "away from the money the lognormal vol reprices within 0.001%", r, b76(F, tau, one, K, r, s, one), pn)
    k.verify("normal -> sln", r5, DX + [(pn > 0).t], raises=FAILS, replay=lambda e: rp("to_ln", e))

    def r6():
        r = fl(shift(F=F, tau=tau, K=K, vol_sln=vol, from_ln_shift=s, to_ln_shift=s2))
        reprices(k, "the re-shifted vol reprices within 0.001%", r, b76(F, tau, one, K, r, s2, one), pb)
    k.verify("shift change", r6, DX[:-1] + [(F + s2 > 0).t, (K + s2 > 0).t, (pb > 0).t], raises=FAILS, replay=lambda e: rp("shift", e))

    def r7():
        r = fl(an(F=F, tau=tau, K=K, vol_sln=vol, ln_shift=s))
        f, kk = F + s, K + s
        L = log(f / kk)
        num_ = 1 + L * L / 24 + L ** 4 / 1920
        den = 1 + (1 - L * L / 120) * vol * vol * tau / 24 + vol ** 4 * tau * tau / 5760
        k.ensure("analytical approximation == Hagan (2002) B.64", Eq(r * den, vol * sqrt(f * kk) * num_))
    k.verify("analytical approximation", r7, DX[:-1], replay=lambda e: rp("approx", e))


def rp(kind, e, atm=False):
    g = lambda v, d: float(e.get1(v, d))
    return {"kind": "conv", "args": {"kind": kind, "F": g("F", .05), "K": g("F", .05) if atm else g("K", .04), "tau": g("tau", 1), "vol": g("vol", .2), "s": g("s", 0), "s2": g("s2", .01), "A": g("A", 1), "cp": int(g("cp", 1)) or 1}}


def gen_case(rng):
    kind = rng.choice(["solve_b76", "solve_bach", "to_n", "to_ln", "shift", "approx", "strip_b76", "strip_bach"])
    sh = rng.choice([0, 0, .01, .02, .03])
    F_ = rng.uniform(.01, .08)
    tau_ = rng.choice([.25, 1, 2, 5, 10]) * rng.uniform(.7, 1.3)
    normal = kind in ("solve_bach", "to_ln", "strip_bach")
    v = rng.uniform(.1, .5)
    m = rng.choice([0, rng.gauss(0, .6), rng.gauss(0, .6)])
    K_ = (F_ + sh) * math.exp(m * v * math.sqrt(tau_)) - sh if m else F_
    if normal:
        v = v * (F_ + sh)
    c = {"kind": kind, "F": F_, "K": K_, "tau": tau_, "vol": v, "s": sh, "s2": rng.choice([0, .01, .02, .03, sh]), "A": rng.choice([1, .25, .9]), "cp": rng.choice([1, -1])}
    if kind.startswith("strip"):
        c["n"] = rng.randint(2, 6)
    return c


def gen_hard(rng):
    c = gen_case(rng)
    c["vol"] *= rng.choice([.3, 1, 2, 4])
    c["K"] = max((c["F"] + c["s"]) * math.exp(rng.gauss(0, 1.5)), 1e-4) - c["s"]
    c["hard"] = True
    return c


def check_conv(c):
    import numpy as np, io, contextlib
    from frm.pricing_engine import black76_bachelier as m
    k = c["kind"]
    F_, K_, T, v, sh, s2_, A_, cp_ = (c[x] for x in ("F", "K", "tau", "vol", "s", "s2", "A", "cp"))
    hard = c.get("hard")

    def go(f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return float(np.asarray(f()).ravel()[0])
        except ValueError:
            return None
    if min(F_ + sh, K_ + sh, F_ + s2_, K_ + s2_) <= 0 or v <= 0 or T <= 0:
        return None
    def cmp(got, target, what, must, tol=1.02e-5):
        if got is None:
            return "no volatility returned for a regular input (%s)" % what if must and not hard else None
        return None if abs(got - target) <= tol * abs(target) else "%s: returned volatility gives price %r, target %r (relative error %.2e)" % (what, got, target, got / target - 1)
    if k.startswith("solve") or k.startswith("strip"):
        model = k[6:]
        n = c.get("n", 1)
        Fs = [F_ * (1 + .03 * i) for i in range(n)]
        Ts = [T * (1 + .5 * i) for i in range(n)]
        tgt = sum(o_price(model, f, t_, cp_, K_, v, sh, A_) for f, t_ in zip(Fs, Ts))
        if not tgt > 1e-12:
            return None
        a = dict(F=np.array(Fs) if n > 1 else F_, tau=np.array(Ts) if n > 1 else T, cp=cp_, K=K_, X=tgt, annuity_factor=A_)
        r = go((lambda: m.black76_solve_implied_vol(ln_shift=sh, **a)) if model == "b76" else (lambda: m.bachelier_solve_implied_vol(**a)))
        got = None if r is None else sum(o_price(model, f, t_, cp_, K_, r, sh, A_) for f, t_ in zip(Fs, Ts))
        return cmp(got, tgt, "implied vol " + model, (.002 < v < 1 if model == "b76" else .0005 < v < .3))
    atm = abs(F_ - K_) < 1e-10
    if k == "to_n":
        tgt = o_price("b76", F_, T, 1, K_, v, sh, 1)
        r = go(lambda: m.black76_sln_to_normal_vol(F=F_, tau=T, K=K_, vol_sln=v, ln_shift=sh)) if tgt > 1e-12 else None
        return cmp(None if r is None else o_price("bach", F_, T, 1, K_, r, sh, 1), tgt, "lognormal -> normal", tgt > 1e-12 and .05 < v < 1 and T < 10, 1e-9 if atm else 1.02e-5)
    if k == "to_ln":
        tgt = o_price("bach", F_, T, 1, K_, v, sh, 1)
        if not tgt > 1e-12 or (v * math.sqrt(T) * npdf(0) + F_ + sh) / (2 * (F_ + sh)) > .999:
            return None
        r = go(lambda: m.normal_vol_to_black76_sln(F=F_, tau=T, K=K_, vol_n=v, ln_shift=sh))
        mild = abs(math.log((K_ + sh) / (F_ + sh))) < .3 and .1 < v / (F_ + sh) < .3 and T < 2.5
        return cmp(None if r is None else o_price("b76", F_, T, 1, K_, r, sh, 1), tgt, "normal -> lognormal", atm or False, 1e-9 if atm else 1.02e-5)
    if k == "shift":
        tgt = o_price("b76", F_, T, 1, K_, v, sh, 1)
        r = go(lambda: m.shift_black76_vol(F=F_, tau=T, K=K_, vol_sln=v, from_ln_shift=sh, to_ln_shift=s2_)) if tgt > 1e-12 else None
        if s2_ == sh and r is not None and abs(r - v) > 1e-9:
            return "re-shifting to the same shift changed the volatility: %r -> %r" % (v, r)
        return cmp(None if r is None else o_price("b76", F_, T, 1, K_, r, s2_, 1), tgt, "shift change", s2_ == sh and tgt > 1e-12 and .01 < v < 5)
    f, kk = F_ + sh, K_ + sh
    L = math.log(f / kk)
    e = v * math.sqrt(f * kk) * (1 + L * L / 24 + L ** 4 / 1920) / (1 + (1 - L * L / 120) * v * v * T / 24 + v ** 4 * T * T / 5760)
    r = m.black76_sln_to_normal_vol_analytical(F=F_, tau=T, K=K_, vol_sln=v, ln_shift=sh)
    return None if close(r, e, 1e-10) else "analytical approximation %r, Hagan B.64 gives %r" % (r, e)


FIX = [{"kind": kd, "F": .0447385, "K": .04, "tau": .758904109589041, "vol": v, "s": sh, "s2": .01, "A": 1, "cp": c_} for kd, v in
       (("solve_b76", .2074), ("solve_bach", .008767), ("to_n", .2074), ("to_ln", .008767), ("shift", .2074), ("approx", .2)) for sh in (0, .01, .02) for c_ in (1, -1)]


def check_live(c):
    """the quoted reference points must convert (termination with a value), not raise"""
    import numpy as np
    from frm.pricing_engine import black76_bachelier as m
    F_, K_, T = .0447385, .04, .758904109589041
    for sh in (0, .01, .02):
        r = m.normal_vol_to_black76_sln(F=F_, tau=T, K=K_, vol_n=.008767, ln_shift=sh)
        if not close(o_price("b76", F_, T, 1, K_, float(r), sh, 1), o_price("bach", F_, T, 1, K_, .008767, 0, 1), 1.02e-5):
            return "normal->lognormal at shift %s gives %r" % (sh, r)
        r = m.shift_black76_vol(F=F_, tau=T, K=K_, vol_sln=.2074, from_ln_shift=0, to_ln_shift=sh)
        if not close(o_price("b76", F_, T, 1, K_, float(r), sh, 1), o_price("b76", F_, T, 1, K_, .2074, 0, 1), 1.02e-5):
            return "shift to %s gives %r" % (sh, r)


PROP = Prop("C03", "Implied-volatility solvers and volatility conversions reprice the option",
            contracts=[solver("b76"), solver("bach"), Contract("volatility conversions", [MOD + x for x in (".black76_sln_to_normal_vol", ".normal_vol_to_black76_sln", ".shift_black76_vol", ".black76_sln_to_normal_vol_analytical", ".normal_vol_atm_to_black76_sln_atm")], conversions, samplers=SAMP)],
            runtimes=[Runtime("conv", gen_case, check_conv, n=500, corners=FIX, fn=MOD),
                      Runtime("conv_hard", gen_hard, check_conv, n=300, fn=MOD),
                      Runtime("reference", lambda rng: {}, check_live, n=1, fn=MOD)],
            trusted=["scipy.optimize.root_scalar / minimize: result inside the given bracket/bounds, res.fun is the objective at res.x, documented exceptions only; no convergence is assumed"],
            unverified=["termination with a value (rather than ValueError) is checked at run time only, on regular inputs"])
PROP.imports = [MOD]
