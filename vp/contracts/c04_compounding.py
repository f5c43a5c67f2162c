from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.enums.utils"
CF = MOD + ".CompoundingFreq"
M = {"DAILY": 365, "WEEKLY": 52, "MONTHLY": 12, "QUARTERLY": 4, "SEMIANNUAL": 2, "ANNUAL": 1}
ALL = ["CONTINUOUS", "SIMPLE"] + list(M)


def powr(a, b):
    return exp(b * log(a))


def df_spec(fr, t_, z):
    if fr == "CONTINUOUS":
        return exp(-z * t_)
    if fr == "SIMPLE":
        return 1 / (1 + z * t_)
    m = M[fr]
    return powr(1 + z / C(m), -m * t_)


def z_spec(fr, t_, d):
    if fr == "CONTINUOUS":
        return -log(d) / t_
    if fr == "SIMPLE":
        return (1 / d - 1) / t_
    m = M[fr]
    return m * (powr(1 / d, 1 / (m * t_)) - 1)


def dom_z(fr, t_, z):
    if fr == "CONTINUOUS":
        return []
    if fr == "SIMPLE":
        return [1 + z * t_ > 0]
    return [1 + z / C(M[fr]) > 0]


SAMP = {"t": U(.05, 30), "z": U(-.02, .2), "d": U(.2, 1.1), "n": ch(2, 3)}


def make(fr):
    def build(k):
        c = getattr(k.fn(CF), fr)
        n = I("n")
        for sh in ("scalar", "vector"):
            if sh == "scalar":
                T, Z, Dd = R("t"), R("z"), R("d")
                t_, z, d = T, Z, Dd
                pre = [(T > 0).t, (Dd > 0).t] + [term(x) for x in dom_z(fr, T, Z)]
                inst = []
            else:
                T, Z, Dd = vec("t", n), vec("z", n), vec("d", n)
                t_, z, d = el("t", n), el("z", n), el("d", n)
                pre = [(n >= 2).t]
                inst = [("t", pos), ("d", pos), ("z", lambda u: dom_z(fr, wrap(t.mk("sel", ("t",) + u.args[1:], "R")), Sym(u)))]

            def run():
                a = c.calc_discount_factor_from_zero_rate(years=T, zero_rate=Z)
                k.ensure("discount factor == defining formula", Eq(gen(a), df_spec(fr, t_, z)))
                k.ensure("discount factor is positive", gen(a) > 0)
                b = c.calc_zero_rate_from_discount_factor(years=T, discount_factor=a)
                k.ensure("zero rate -> discount factor -> zero rate is the identity", Eq(gen(b), z))
                if sh == "vector":
                    k.ensure("one discount factor per input", shape_is(a, n))
            k.verify("rate to discount factor/" + sh, run, pre, inst, replay=lambda e: rp(fr, fr, e))

            def run2():
                a = c.calc_zero_rate_from_discount_factor(years=T, discount_factor=Dd)
                k.ensure("zero rate == defining formula", Eq(gen(a), z_spec(fr, t_, d)))
                b = c.calc_discount_factor_from_zero_rate(years=T, zero_rate=a)
                k.ensure("discount factor -> zero rate -> discount factor is the identity", Eq(gen(b), d))
            k.verify("discount factor to rate/" + sh, run2, pre, inst, replay=lambda e: rp(fr, fr, e))

        one = C(1)
        z, t_ = R("z"), R("t")
        for to in ALL:
            tc = getattr(k.fn(CF), to)

            def run3():
                r = c.convert_rate_to(zero_rate=z, target_compounding_freq=tc)
                k.ensure("same one-year discount factor", Eq(df_spec(to, one, r), df_spec(fr, one, z)))
                if "SIMPLE" not in (fr, to):
                    k.ensure("same discount factor at every horizon", Eq(df_spec(to, t_, r), df_spec(fr, t_, z)))
                k.ensure("converting back is the identity", Eq(tc.convert_rate_to(zero_rate=r, target_compounding_freq=c), z))
            k.verify("convert to %s" % to, run3, [(t_ > 0).t] + [term(x) for x in dom_z(fr, one, z)], replay=lambda e: rp(fr, to, e))
    return Contract("CompoundingFreq.%s" % fr, [CF + x for x in (".calc_discount_factor_from_zero_rate", ".calc_zero_rate_from_discount_factor", ".convert_rate_to")], build, samplers=SAMP)


def rp(fr, to, e):
    g = lambda v, d: float(e.get1(v, d))
    return {"kind": "rates", "args": {"fr": fr, "to": to, "t": [g("t", 2.)], "z": [g("z", .05)], "d": [g("d", .9)], "vec": False}}


def gen_case(rng):
    v = rng.random() < .5
    n = rng.randint(2, 4) if v else 1
    return {"fr": rng.choice(ALL), "to": rng.choice(ALL), "t": [rng.choice([.01, .25, 1, 3, 30]) * rng.uniform(.5, 1.5) for _ in range(n)],
            "z": [rng.uniform(-.015, .25) for _ in range(n)], "d": [rng.uniform(.2, 1.05) for _ in range(n)], "vec": v}


def o_df(fr, t_, z):
    return math.exp(-z * t_) if fr == "CONTINUOUS" else 1 / (1 + z * t_) if fr == "SIMPLE" else (1 + z / M[fr]) ** (-M[fr] * t_)


def check_case(c):
    import numpy as np
    import pandas as pd
    from frm.enums import CompoundingFreq
    fr, to = getattr(CompoundingFreq, c["fr"]), getattr(CompoundingFreq, c["to"])
    w = (lambda x: np.array(x)) if c["vec"] else (lambda x: x[0])
    T, Z, D_ = w(c["t"]), w(c["z"]), w(c["d"])
    a = fr.calc_discount_factor_from_zero_rate(years=T, zero_rate=Z)
    b = fr.calc_zero_rate_from_discount_factor(years=T, discount_factor=a)
    z2 = fr.calc_zero_rate_from_discount_factor(years=T, discount_factor=D_)
    d2 = fr.calc_discount_factor_from_zero_rate(years=T, zero_rate=z2)
    r = fr.convert_rate_to(zero_rate=Z, target_compounding_freq=to)
    rr = to.convert_rate_to(zero_rate=r, target_compounding_freq=fr)
    A, B_, D2, R_, RR = (np.atleast_1d(x) for x in (a, b, d2, r, rr))
    if not (len(A) == len(B_) == len(D2) == len(R_) == len(c["t"])):
        return "result length differs from input length"
    for i, (t_, z, d) in enumerate(zip(c["t"], c["z"], c["d"])):
        if not close(A[i], o_df(c["fr"], t_, z), 1e-10):
            return "%s discount factor at t=%r z=%r: %r, formula %r" % (c["fr"], t_, z, A[i], o_df(c["fr"], t_, z))
        if not close(B_[i], z, 1e-8, 1e-9 / t_):
            return "%s rate -> DF -> rate: %r -> %r" % (c["fr"], z, B_[i])
        if not close(D2[i], d, 1e-9):
            return "%s DF -> rate -> DF: %r -> %r" % (c["fr"], d, D2[i])
        if not close(o_df(c["to"], 1, R_[i]), o_df(c["fr"], 1, z), 1e-9):
            return "converting %r from %s to %s gives %r: one-year discount factors differ" % (z, c["fr"], c["to"], R_[i])
        if not close(RR[i], z, 1e-8, 1e-10):
            return "%s -> %s -> %s: %r -> %r" % (c["fr"], c["to"], c["fr"], z, RR[i])


def corner():
    return [{"fr": a, "to": b, "t": [2.5], "z": [.05], "d": [.9], "vec": False} for a in ALL for b in ALL]


PROP = Prop("C04", "Rates and discount factors convert consistently in every compounding convention",
            contracts=[make(fr) for fr in ALL],
            runtimes=[Runtime("rates", gen_case, check_case, n=600, corners=corner(), fn=CF)])
PROP.imports = [MOD]
