from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.volatility_generic"
FV, FF = MOD + ".forward_volatility", MOD + ".flat_forward_interp"
SAMP = {"t1": U(.1, 1), "t2": U(1.1, 3), "v1": U(.05, .3), "v2": U(.15, .4), "t": U(.3, 2), "n": ch(2, 3), "m": ch(2, 3)}
SHAPES = ("scalars", "vectors of length n", "n pillars by m quotes")


def inputs(sname, names):
    """(arguments, element values, preconditions builder)"""
    n, m = I("n"), I("m")
    a, g, pre = {}, {}, []
    for v in names:
        if sname == "scalars":
            a[v] = g[v] = R(v)
        elif sname == "vectors of length n":
            a[v], g[v] = vec(v, n), el(v, n)
        elif v in ("v1", "v2"):
            a[v] = arr(v, (n, m))
            g[v] = wrap(t.mk("sel", (v, nm.generic_index(n), nm.generic_index(m)), "R"))
        else:
            a[v] = GArr((n, 1), lambda ix, v=v: wrap(t.mk("sel", (v, ix[0]), "R")))
            g[v] = el(v, n)
    if sname != "scalars":
        pre.append((n >= 2).t)
    if sname.startswith("n "):
        pre.append((m >= 2).t)
    return a, g, pre, n, m


def domain(sname, strict=True, interp=False):
    """per element facts on t1, t2, v1, v2 (and t)"""
    def one(t1, t2, v1, v2, tt=None):
        o = [t1 > 0, v1 > 0, v2 > 0, (t2 > t1) if strict else (t2 >= t1), v2 * v2 * t2 >= v1 * v1 * t1]
        if tt is not None:
            o += [tt >= t1, tt <= t2]
        return o
    return one


def pre_of(sname, a, g, one, interp):
    """scalars: plain preconditions; arrays: instantiated on t2 (every index)"""
    if sname == "scalars":
        return [x.t for x in one(g["t1"], g["t2"], g["v1"], g["v2"], g.get("t"))], []
    S_ = lambda v, *ix: wrap(t.mk("sel", (v,) + ix, "R"))

    def at(u):
        i = u.args[1]
        j = u.args[2:]
        return one(S_("t1", i), S_("t2", i), S_("v1", i, *j), S_("v2", i, *j), S_("t", i) if interp else None)

    def small(u):
        i = u.args[1]
        t1, t2 = S_("t1", i), S_("t2", i)
        return [t1 > 0, (t2 > t1) if strictness[0] else (t2 >= t1)] + ([S_("t", i) >= t1, S_("t", i) <= t2] if interp else [])
    strictness = [not interp]
    return [], [("v2", at), ("v1", at), ("t2", small), ("t1", small)]


def forward(sname):
    def build(k):
        f = k.fn(FV)
        a, g, pre, n, m = inputs(sname, ("t1", "v1", "t2", "v2"))
        one = domain(sname)
        p, inst = pre_of(sname, a, g, one, False)
        pre = pre + p

        def run():
            r = f(a["t1"], a["v1"], a["t2"], a["v2"])
            rg = gen(r) if isinstance(r, GArr) else r
            k.ensure("variance from 0 to t2 splits at t1", Eq(g["v1"] * g["v1"] * g["t1"] + rg * rg * (g["t2"] - g["t1"]), g["v2"] * g["v2"] * g["t2"]))
            k.ensure("forward volatility is the non-negative root", rg >= 0)
            if sname == "vectors of length n":
                k.ensure("one value per pillar", shape_is(r, n))
            for v in a:
                if isinstance(a[v], GArr):
                    k.ensure("argument %s is not modified" % v, Eq(gen(a[v]), g[v]))
        k.verify("forward volatility", run, pre, inst, replay=lambda e: rpf(e))
        if sname == "scalars":
            base = [(g["t1"] > 0).t, (g["v1"] > 0).t, (g["v2"] > 0).t]
            k.verify("t2 before t1 is rejected", lambda: k.ensure("no value is returned", Sym(term(f(a["t1"], a["v1"], a["t2"], a["v2"]))) < Sym(term(0)) * 0 - 10 ** 9),
                     base + [(g["t2"] < g["t1"]).t], raises=lambda e: isinstance(e, ValueError), replay=lambda e: rpf(e), expect_paths=0)
            k.verify("negative forward variance is rejected", lambda: k.ensure("no value is returned", Sym(term(f(a["t1"], a["v1"], a["t2"], a["v2"]))) < -10 ** 9),
                     base + [(g["t2"] > g["t1"]).t, (g["v2"] * g["v2"] * g["t2"] < g["v1"] * g["v1"] * g["t1"]).t], raises=lambda e: isinstance(e, ValueError), replay=lambda e: rpf(e), expect_paths=0)
    return Contract("forward_volatility [%s]" % sname, FV, build, samplers=SAMP)


def interp(sname):
    def build(k):
        f = k.fn(FF)
        a, g, pre, n, m = inputs(sname, ("t1", "v1", "t2", "v2", "t"))
        one = domain(sname, strict=False)
        p, inst = pre_of(sname, a, g, one, True)
        pre = pre + p

        def run():
            r = f(a["t1"], a["v1"], a["t2"], a["v2"], a["t"])
            rg = gen(r) if isinstance(r, GArr) else r
            w1, w2 = g["v1"] * g["v1"] * g["t1"], g["v2"] * g["v2"] * g["t2"]
            k.ensure("total variance is linear between the pillars", Implies(g["t2"] > g["t1"], Eq(rg * rg * g["t"] * (g["t2"] - g["t1"]), w1 * (g["t2"] - g["t"]) + w2 * (g["t"] - g["t1"]))))
            k.ensure("volatility is non-negative", rg >= 0)
            k.ensure("a date on a single pillar keeps the pillar's volatility", Implies(Eq(g["t2"], g["t1"]), Eq(rg * rg, g["v1"] * g["v1"])))
            if sname == "vectors of length n":
                k.ensure("one value per date", shape_is(r, n))
            if sname.startswith("n "):
                k.ensure("one value per date and quote", shape_is(r, n, m))
            for v in a:
                if isinstance(a[v], GArr):
                    k.ensure("argument %s is not modified" % v, Eq(gen(a[v]), g[v]))
        k.verify("flat forward interpolation", run, pre, inst, replay=lambda e: rpi(e))
    return Contract("flat_forward_interp [%s]" % sname, FF, build, samplers=SAMP)


def rpf(e):
    g = lambda v, d: float(e.get1(v, d))
    return {"kind": "forward", "args": {"t1": [g("t1", .5)], "v1": [g("v1", .1)], "t2": [g("t2", 1)], "v2": [g("v2", .1)], "vec": False}}


def rpi(e):
    g = lambda v, d: float(e.get1(v, d))
    return {"kind": "interp", "args": {"t1": [g("t1", .5)], "v1": [[g("v1", .1)]], "t2": [g("t2", 1)], "v2": [[g("v2", .1)]], "t": [g("t", .7)], "form": "scalar"}}


def gen_f(rng):
    n = rng.randint(1, 4)
    mode = rng.random()
    t1 = [round(rng.uniform(.05, 2), 3) for _ in range(n)]
    t2 = [x + (0 if mode < .2 and rng.random() < .5 else rng.uniform(.05, 3)) for x in t1]
    if mode > .9:
        t2[0] = t1[0] - .01
    v1 = [rng.uniform(.05, .4) for _ in range(n)]
    v2 = [math.sqrt(a * a * x / y) * rng.uniform(1.0, 1.5) for a, x, y in zip(v1, t1, t2)]
    if .8 < mode < .9:
        v2[-1] *= .2
    return {"t1": t1, "v1": v1, "t2": t2, "v2": v2, "vec": n > 1}


def check_f(c):
    import numpy as np
    from frm.pricing_engine.volatility_generic import forward_volatility as f
    A = {v: np.array(c[v]) if c["vec"] else c[v][0] for v in ("t1", "v1", "t2", "v2")}
    ne = lambda i: abs(c["t1"][i] - c["t2"][i]) < 1e-12
    N = len(c["t1"])
    w = [c["v2"][i] ** 2 * c["t2"][i] - c["v1"][i] ** 2 * c["t1"][i] for i in range(N)]
    if any(c["t1"][i] > 0 and abs(w[i]) < 1e-12 * max(1, c["t2"][i]) for i in range(N) if not ne(i)):
        return None
    bad = any(c["t2"][i] < c["t1"][i] for i in range(N)) or any(w[i] < 0 and not ne(i) for i in range(N))
    try:
        r = f(**{"t1": A["t1"], "vol_t1": A["v1"], "t2": A["t2"], "vol_t2": A["v2"]})
    except ValueError:
        return None if bad else "raised ValueError on consistent inputs"
    if bad:
        return "accepted t2 < t1 or a negative forward variance: %r" % (r,)
    r = np.atleast_1d(r)
    if r.shape != (N,):
        return "shape %r" % (r.shape,)
    for i in range(N):
        if ne(i):
            if not math.isnan(r[i]):
                return "equal times gave %r, documented NaN" % r[i]
        elif not close(r[i] ** 2 * (c["t2"][i] - c["t1"][i]), w[i], 1e-9, 1e-13) or r[i] < 0:
            return "forward variance %r, consistency condition %r" % (r[i] ** 2 * (c["t2"][i] - c["t1"][i]), w[i])


def gen_i(rng):
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    form = rng.choice(["scalar", "vector", "matrix"])
    t1 = [rng.uniform(.05, 2) for _ in range(n)]
    t2 = [x + (0 if rng.random() < .25 else rng.uniform(.05, 3)) for x in t1]
    tt = [x + rng.choice([0, 1, rng.random()]) * (y - x) for x, y in zip(t1, t2)]
    v1 = [[rng.uniform(.05, .4) for _ in range(m)] for _ in range(n)]
    v2 = [[a if x == y else math.sqrt(a * a * x / y) * rng.uniform(1.02, 1.5) for a in row] for row, x, y in zip(v1, t1, t2)]
    return {"t1": t1, "v1": v1, "t2": t2, "v2": v2, "t": [min(max(z, x), y) for z, x, y in zip(tt, t1, t2)], "form": form}


def check_i(c):
    import numpy as np
    from frm.pricing_engine.volatility_generic import flat_forward_interp as f
    if c["form"] == "scalar":
        A = [c["t1"][0], c["v1"][0][0], c["t2"][0], c["v2"][0][0], c["t"][0]]
    elif c["form"] == "vector":
        A = [np.array(c["t1"]), np.array([r[0] for r in c["v1"]]), np.array(c["t2"]), np.array([r[0] for r in c["v2"]]), np.array(c["t"])]
    else:
        A = [np.array(c["t1"])[:, None], np.array(c["v1"]), np.array(c["t2"])[:, None], np.array(c["v2"]), np.array(c["t"])[:, None]]
    keep = [np.array(x, copy=True) for x in A]
    r = f(*A)
    for x, y in zip(A, keep):
        if not np.array_equal(np.asarray(x), y):
            return "an argument was modified"
    if c["form"] == "scalar" and not isinstance(r, float):
        return "scalar inputs gave %r" % type(r)
    r = np.asarray(r)
    want = () if c["form"] == "scalar" else (len(c["t1"]),) if c["form"] == "vector" else np.array(c["v1"]).shape
    if r.shape != want:
        return "shape %r, expected %r" % (r.shape, want)
    for i in range(len(c["t1"]) if c["form"] != "scalar" else 1):
        for j in range(len(c["v1"][0]) if c["form"] == "matrix" else 1):
            x = r[i, j] if c["form"] == "matrix" else r[i] if c["form"] == "vector" else float(r)
            t1, t2, tt, a, b = c["t1"][i], c["t2"][i], c["t"][i], c["v1"][i][j], c["v2"][i][j]
            w = a * a * t1 if t1 == t2 else a * a * t1 + (b * b * t2 - a * a * t1) * (tt - t1) / (t2 - t1)
            if not close(x * x * tt, w, 1e-9):
                return "total variance %r, linear interpolation %r (t1 %r t2 %r t %r)" % (x * x * tt, w, t1, t2, tt)


PROP = Prop("C09", "Volatility is interpolated in time with flat forward variance",
            contracts=[forward(s) for s in SHAPES] + [interp(s) for s in SHAPES],
            runtimes=[Runtime("forward", gen_f, check_f, n=400, fn=FV, corners=[{"t1": [1.0], "v1": [.1], "t2": [1.0], "v2": [.2], "vec": False}, {"t1": [1.0, 2.0], "v1": [.1, .1], "t2": [1.0, 1.5], "v2": [.2, .2], "vec": True}]),
                      Runtime("interp", gen_i, check_i, n=400, fn=FF)],
            unverified=["times at which t1 equals t2 (documented NaN of forward_volatility): run time only (bounded)", "interpolation dates outside [t1, t2] (outside the precondition)"])
PROP.imports = [MOD]
