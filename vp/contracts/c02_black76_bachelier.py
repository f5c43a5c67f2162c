from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.black76_bachelier"
SHAPES = {"all scalar": "", "all length n": "F tau cp K vol s A", "F,tau,K length n": "F tau K", "K,cp,vol length n": "K cp vol", "F,tau length n": "F tau"}
NAMES = ("F", "tau", "cp", "K", "vol", "s", "A")


# ------------------------------------------------------------------ specification
def b76(F, tau, cp, K, v, s, A):
    f, k = F + s, K + s
    sd = v * sqrt(tau)
    d1 = log(f / k) / sd + sd / 2
    return A * cp * (f * Phi(cp * d1) - k * Phi(cp * (d1 - sd)))


def bach(F, tau, cp, K, v, s, A):
    sd = v * sqrt(tau)
    d = (F - K) / sd
    return A * (cp * (F - K) * Phi(cp * d) + sd * phi(d))


def inputs(vecs, model):
    """argument values, generic element of each, preconditions, instantiations"""
    n = I("n")
    args, g, pre, inst = {}, {}, [], []
    dom = {"tau": pos, "vol": pos, "cp": sign_pm, "A": pos}
    vs = vecs.split()
    for v in NAMES:
        if v in vs:
            args[v] = vec(v, n)
            g[v] = el(v, n)
            if v in dom:
                inst.append((v, dom[v]))
        else:
            args[v] = g[v] = R(v)
            if v in dom:
                pre += [term(f) for f in dom[v](R(v).t)]
    if vs:
        pre.append((n >= 2).t)
    if model == "b76":
        def elem(name, ix):
            return wrap(t.mk("sel", (name,) + ix, "R")) if name in vs else R(name)

        def shifted(u):
            ix = u.args[1:]
            return [elem("F", ix) + elem("s", ix) > 0, elem("K", ix) + elem("s", ix) > 0]
        if vs:
            for v in ("F", "K", "s"):
                if v in vs:
                    inst.append((v, shifted))
        if not ("F" in vs and "K" in vs and "s" in vs):
            if not vs:
                pre += [(R("F") + R("s") > 0).t, (R("K") + R("s") > 0).t]
    return args, g, pre, inst, n, bool(vs)


SAMP = {"F": U(.01, .1), "K": U(.01, .1), "tau": U(.1, 5), "vol": U(.05, .6), "s": U(0, .03), "A": U(.2, 2), "cp": ch(1, -1), "n": ch(2, 3)}
KW = {"b76": dict(F="F", tau="tau", cp="cp", K="K", vol="vol_sln", s="ln_shift", A="annuity_factor"),
      "bach": dict(F="F", tau="tau", cp="cp", K="K", vol="vol_n", A="annuity_factor")}


def call(f, model, args, **extra):
    return f(**{KW[model][k]: v for k, v in args.items() if k in KW[model]}, **extra)


def price(model, sname):
    def build(k):
        f = k.fn(MOD + (".black76_price" if model == "b76" else ".bachelier_price"))
        spec = b76 if model == "b76" else bach
        args, g, pre, inst, n, isv = inputs(SHAPES[sname], model)
        ln = n if isv else 1
        X = spec(**{"F": g["F"], "tau": g["tau"], "cp": g["cp"], "K": g["K"], "v": g["vol"], "s": g["s"], "A": g["A"]})
        used = [v for v in NAMES if v in KW[model]]

        def frame():
            for v in used:
                if isinstance(args[v], GArr):
                    k.ensure("argument %s is not modified" % v, Eq(gen(args[v]), g[v]))

        def run():
            r = call(f, model, args)
            k.ensure("price == model formula", Eq(gen(r["price"]), X))
            k.ensure("one price per input element", shape_is(r["price"], ln))
            frame()
        k.verify("price", run, pre, inst, replay=lambda e: rp(model, e))

        def parity():
            c = call(f, model, {**args, "cp": 1})
            p = call(f, model, {**args, "cp": -1})
            k.ensure("call - put == annuity * (F - K)", Eq(gen(c["price"]) - gen(p["price"]), g["A"] * (g["F"] - g["K"])))
        k.verify("parity", parity, pre, inst, replay=lambda e: rp(model, e))

        def split():
            r = call(f, model, args, intrinsic_time_split=True)
            iv = If(g["cp"] * (g["F"] - g["K"]) > 0, g["A"] * g["cp"] * (g["F"] - g["K"]), 0)
            k.ensure("intrinsic == annuity * max(0, cp (F - K))", Eq(gen(r["intrinsic"]), iv))
            k.ensure("price == intrinsic + time", Eq(gen(r["price"]), gen(r["intrinsic"]) + gen(r["time"])))
            k.ensure("price unchanged by the option", Eq(gen(r["price"]), X))
            frame()
        k.verify("split", split, pre, inst, replay=lambda e: rp(model, e))

        def greeks():
            r = call(f, model, args, analytical_greeks=True)
            G = r["analytical_greeks"]
            px = gen(r["price"])
            k.ensure("delta == dX/dF", Eq(gen(G["delta"]), diff(px, g["F"])))
            unit = C(Q(1, 100)) if model == "b76" else C(Q(1, 10000))
            k.ensure("vega == unit * dX/dvol", Eq(gen(G["vega"]), unit * diff(px, g["vol"])))
            if model == "bach":
                k.ensure("theta == -dX/dtau per calendar day", Eq(gen(G["theta"]), -diff(px, g["tau"]) / Q("365.25")))
            k.ensure("price unchanged by the option", Eq(px, X))
            frame()
        k.verify("greeks", greeks, pre, inst, replay=lambda e: rp(model, e))
        if model == "b76":
            def num():
                r = call(f, model, args, numerical_greeks=True)
                G = r["numerical_greeks"]
                h = C(Q(1, 100))
                S = lambda F, v: b76(F - g["s"], g["tau"], g["cp"], g["K"], v, g["s"], g["A"])
                f0 = g["F"] + g["s"]
                k.ensure("numerical delta == central difference in F", Eq(gen(G["delta"]), (S(f0 * (1 + h), g["vol"]) - S(f0 * (1 - h), g["vol"])) / (2 * f0 * h)))
                k.ensure("numerical vega == central difference in vol per 1%", Eq(gen(G["vega"]), (S(f0, g["vol"] + h) - S(f0, g["vol"] - h)) / 2))
                k.ensure("price unchanged by the option", Eq(gen(r["price"]), X))
                frame()
            pv = []
            if isinstance(args["vol"], GArr):
                i2 = inst + [("vol", lambda u: [Sym(u) > Q(1, 100)])]
            else:
                i2 = inst
                pv = [(R("vol") > Q(1, 100)).t]
            k.verify("numerical greeks", num, pre + pv, i2, replay=lambda e: rp(model, e))
    return Contract("%s [%s]" % ("black76_price" if model == "b76" else "bachelier_price", sname), MOD + (".black76_price" if model == "b76" else ".bachelier_price"),
                    build, samplers=SAMP)


def rp(model, e):
    g = lambda v, d: float(e.get1(v, d))
    c = {"model": model, "F": [g("F", .05)], "tau": [g("tau", 1)], "cp": [int(g("cp", 1)) or 1], "K": [g("K", .05)], "vol": [g("vol", .2)], "s": [g("s", 0)], "A": [g("A", 1)], "vec": ""}
    return {"kind": "formula", "args": c}


# ------------------------------------------------------------------ run-time contract
def o_price(model, F, tau, cp, K, v, s, A):
    if model == "b76":
        f, k = F + s, K + s
        sd = v * math.sqrt(tau)
        d1 = math.log(f / k) / sd + sd / 2
        return A * cp * (f * ncdf(cp * d1) - k * ncdf(cp * (d1 - sd)))
    sd = v * math.sqrt(tau)
    d = (F - K) / sd
    return A * (cp * (F - K) * ncdf(cp * d) + sd * npdf(d))


def gen_case(rng):
    model = rng.choice(["b76", "bach"])
    vecs = rng.choice(list(SHAPES.values()))
    n = rng.randint(2, 4) if vecs else 1
    s = rng.choice([0, 0, .01, .02, .03]) if model == "b76" else 0
    base = rng.choice([.0, .02, .05, 1.0, 100.0]) if model == "b76" else rng.choice([-.02, 0, .03, 1., 100.])

    def one():
        F = base + rng.uniform(.005, .06) * max(1, abs(base))
        tau = rng.choice([.01, .25, 1, 2, 10]) * rng.uniform(.5, 1.5)
        if model == "b76":
            v = rng.uniform(.05, .8)
            K = (F + s) * math.exp(rng.gauss(0, .8) * v * math.sqrt(tau)) - s
        else:
            v = rng.uniform(.002, .02) * max(1, abs(base))
            K = F + rng.gauss(0, .8) * v * math.sqrt(tau)
        if rng.random() < .1:
            K = F
        return dict(F=F, tau=tau, cp=rng.choice([1, -1]), K=K, vol=v, s=s, A=rng.choice([1, .25, .95, 4.2]))
    rows = [one() for _ in range(n)]
    c = {"model": model, "vec": vecs}
    vs = vecs.split()
    for v in NAMES:
        c[v] = [r[v] for r in rows] if v in vs else [rows[0][v]]
    if model == "b76" and vecs and any(f + x <= 0 or k + x <= 0 for f in c["F"] for k in c["K"] for x in c["s"]):
        return None
    return c


def check_case(c):
    import numpy as np
    from frm.pricing_engine import black76_bachelier as m
    model = c["model"]
    f = m.black76_price if model == "b76" else m.bachelier_price
    vs = c["vec"].split()
    n = max(len(c[v]) for v in NAMES)
    arg = {KW[model][v]: (np.array(c[v], dtype=float) if v in vs else c[v][0]) for v in NAMES if v in KW[model]}
    keep = {a: np.array(v, copy=True) for a, v in arg.items()}
    row = lambda i: {("v" if v == "vol" else v): (c[v][i] if len(c[v]) > 1 else c[v][0]) for v in NAMES}
    kw = {"numerical_greeks": True} if model == "b76" else {}
    if model == "b76" and min(c["vol"]) <= .011:
        kw = {}
    base = f(**arg)
    r = f(**arg, intrinsic_time_split=True, analytical_greeks=True, **kw)
    for a, v in arg.items():
        if not np.array_equal(np.asarray(v), keep[a]):
            return "argument %s was modified by the call" % a
    X = np.asarray(r["price"])
    if X.shape != (n,) or np.asarray(base["price"]).shape != (n,):
        return "price shape %s for %d inputs" % (X.shape, n)
    put = f(**{**arg, "cp": -1})["price"]
    call_ = f(**{**arg, "cp": 1})["price"]
    for i in range(n):
        q = row(i)
        scale = q["A"] * max(abs(q["F"] + q["s"]), abs(q["K"] + q["s"]), 1e-4)
        tol = lambda a, b, rel=1e-9, ab=1e-10: abs(a - b) <= ab * scale + rel * max(abs(a), abs(b))
        e = o_price(model, **q)
        if not tol(X[i], e) or not tol(base["price"][i], e):
            return "price[%d] = %r, formula gives %r" % (i, X[i], e)
        if not tol(call_[i] - put[i], q["A"] * (q["F"] - q["K"])):
            return "put-call parity fails at %d: C-P = %r, A(F-K) = %r" % (i, call_[i] - put[i], q["A"] * (q["F"] - q["K"]))
        iv = q["A"] * max(0.0, q["cp"] * (q["F"] - q["K"]))
        if not tol(r["intrinsic"][i], iv):
            return "intrinsic[%d] = %r, expected %r" % (i, r["intrinsic"][i], iv)
        if not tol(r["time"][i] + r["intrinsic"][i], X[i]):
            return "price != intrinsic + time at %d" % i
        if r["time"][i] < -1e-9 * scale:
            return "negative time value %r" % r["time"][i]
        G = r["analytical_greeks"]
        P = lambda **o: o_price(model, **{**q, **o})
        h = 1e-4 * q["v"] * math.sqrt(q["tau"]) * (1 if model == "bach" else abs(q["F"] + q["s"]))
        dl = (P(F=q["F"] + h) - P(F=q["F"] - h)) / (2 * h)
        if abs(G["delta"][i] - dl) > 1e-5 * q["A"]:
            return "delta[%d] = %r, dX/dF = %r" % (i, G["delta"][i], dl)
        hv = 1e-4 * q["v"]
        vg = (P(v=q["v"] + hv) - P(v=q["v"] - hv)) / (2 * hv)
        unit = .01 if model == "b76" else .0001
        if abs(G["vega"][i] - unit * vg) > unit * (1e-6 * scale * math.sqrt(q["tau"]) / (q["v"] if model == "bach" else 1) + 1e-5 * abs(vg)):
            return "vega[%d] = %r, unit*dX/dvol = %r" % (i, G["vega"][i], unit * vg)
        if model == "bach":
            ht = 1e-4 * q["tau"]
            th = -(P(tau=q["tau"] + ht) - P(tau=q["tau"] - ht)) / (2 * ht) / 365.25
            if abs(G["theta"][i] - th) > 1e-8 * scale / q["tau"] + 1e-5 * abs(th):
                return "theta[%d] = %r, -dX/dtau/365.25 = %r" % (i, G["theta"][i], th)
        if kw:
            N = r["numerical_greeks"]
            f0 = q["F"] + q["s"]
            nd = (P(F=f0 * 1.01 - q["s"]) - P(F=f0 * .99 - q["s"])) / (.02 * f0)
            nv = (P(v=q["v"] + .01) - P(v=q["v"] - .01)) / 2
            if abs(N["delta"][i] - nd) > 1e-7 * q["A"] or not tol(N["vega"][i], nv, 1e-7, 1e-9):
                return "numerical greeks at %d = (%r, %r), central differences = (%r, %r)" % (i, N["delta"][i], N["vega"][i], nd, nv)
    return None


def gen_zero(rng):
    F = rng.uniform(.01, .1)
    m = rng.randint(1, 3)
    return {"model": rng.choice(["b76", "bach"]), "F": F, "K": [F * rng.choice([.5, .9, 1.1, 2]) for _ in range(m)], "cp": rng.choice([1, -1]), "vol": rng.uniform(.01, .5), "A": rng.choice([1, .25]), "s": rng.choice([0, .02])}


def check_zero(c):
    import numpy as np
    from frm.pricing_engine import black76_bachelier as m
    K = np.array(c["K"])
    if c["model"] == "b76":
        r = m.black76_price(F=c["F"], tau=0.0, cp=c["cp"], K=K, vol_sln=c["vol"], ln_shift=c["s"], annuity_factor=c["A"], intrinsic_time_split=True)
    else:
        r = m.bachelier_price(F=c["F"], tau=0.0, cp=c["cp"], K=K, vol_n=c["vol"], annuity_factor=c["A"], intrinsic_time_split=True)
    e = c["A"] * np.maximum(0, c["cp"] * (c["F"] - K))
    if not np.allclose(r["price"], e, rtol=1e-12, atol=1e-14) or not np.allclose(r["intrinsic"], e, rtol=1e-12, atol=1e-14) or not np.allclose(r["time"], 0, atol=1e-14):
        return "expiry value: price %s intrinsic %s time %s, expected %s" % (r["price"], r["intrinsic"], r["time"], e)


PROP = Prop("C02", "Black-76 and Bachelier prices and greeks are mutually consistent",
            contracts=[price(m, s) for m in ("b76", "bach") for s in SHAPES],
            runtimes=[Runtime("formula", gen_case, check_case, n=600, fn=MOD + ".black76_price, .bachelier_price"),
                      Runtime("expiry", gen_zero, check_zero, n=150, fn=MOD + ".black76_price, .bachelier_price")],
            unverified=["non-negativity of the time value and the tau = 0 limit are checked at run time only (bounded)"])
PROP.imports = [MOD]
