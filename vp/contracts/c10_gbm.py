from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.geometric_brownian_motion"
FN = MOD + ".simulate_gbm_path"
SAMP = {"drift": U(-.1, .1), "vol": U(.05, .4), "dt": U(.1, 1), "z": U(-2, 2), "S0": U(.5, 2), "T": ch(2, 3), "N": ch(2, 3), "M": ch(4, 5)}
FORMS = ("one underlying, 1-D inputs", "one underlying, scalar start", "N underlyings, 2-D inputs", "one underlying, one step", "N underlyings, one step")


def path(form):
    def build(k):
        f = k.fn(FN)
        T, N, M = I("T"), I("N"), I("M")
        pre = [(M >= 2).t]
        one_step = form.endswith("one step")
        if one_step:
            T = 1
        else:
            pre.append((T >= 2).t)
        many = form.startswith("N")
        if many:
            pre.append((N >= 2).t)
            NN = N
            drift, vol, S0 = arr("drift", (T, N)), arr("vol", (T, N)), vec("S0", N)
        else:
            NN = 1
            drift, vol = vec("drift", T), vec("vol", T)
            S0 = R("S0") if form.endswith("scalar start") else vec("S0", 1)
        dt, z = vec("dt", T), arr("z", (T, NN, M))
        inst = [("dt", pos), ("S0", pos)]
        if form.endswith("scalar start"):
            pre.append((R("S0") > 0).t)
        S_ = lambda v, *ix: wrap(t.mk("sel", (v,) + tuple(term(i) for i in ix), "R"))

        def run():
            r = f(initial_px=S0, drift=drift, forward_volatility=vol, timestep_length=dt, rand_nbs=z)
            i, j, s = I("i"), I("j") if many else 0, I("s")
            if one_step:
                i = 0
            else:
                Ctx.cur.assume(And(i >= 0, i < T))
            Ctx.cur.assume(And(s >= 0, s < M))
            if many:
                Ctx.cur.assume(And(j >= 0, j < N))
            k.ensure("one row per time step plus the start, one block per underlying, one column per simulation", shape_is(r, (T if one_step else T) + 1, NN, M))
            k.ensure("every path starts at the initial price of its underlying", Eq(at(r, 0, j, s), S_("S0", j) if isinstance(S0, GArr) else S0))
            d, v = (S_("drift", i, j), S_("vol", i, j)) if many else (S_("drift", i), S_("vol", i))
            # generic time position: the row after step i
            a, b = row(r, i, j, s), row(r, i, j, s, 1)
            k.ensure("each step multiplies by exp((drift - vol^2/2) dt + vol sqrt(dt) z) of its own underlying", Eq(b, a * exp((d - v * v / 2) * S_("dt", i) + v * sqrt(S_("dt", i)) * S_("z", i, j, s))))
            k.ensure("a positive price stays positive", Implies(a > 0, b > 0))
            for nme, A in (("drift", drift), ("vol", vol), ("dt", dt), ("z", z)):
                k.ensure("argument %s is not modified" % nme, Eq(gen(A), t_sel(nme, A)))
        k.verify("path", run, pre, inst, replay=lambda e: rp(form, e))
    return Contract("simulate_gbm_path [%s]" % form, FN, build, samplers=SAMP)


def t_sel(nme, A):
    return wrap(t.mk("sel", (nme,) + A.gidx(), "R"))


def row(r, i, j, s, off=0):
    """element of the result expressed at the array's generic time index"""
    g = nm.generic_index(r.shape[0])
    if isinstance(i, int):
        return at(r, i + off, j, s)
    sub = {term(i): t.add(g, t.const(-1))}
    x = r.at((t.add(g, t.const(off - 1)), term(j), term(s)))
    Ctx.cur.assume(Eq(Sym(g), i + 1))
    return x


def rp(form, e):
    import random
    return {"kind": "paths", "args": gen_p(random.Random(5))}


def gen_p(rng):
    T, M = rng.randint(1, 5), rng.randint(1, 5)
    N = rng.choice([1, 1, 2, 3, M])
    form = rng.choice(["1d", "scalar", "2d"]) if N == 1 else "2d"
    u = lambda a, b: rng.uniform(a, b)
    return {"form": form, "S0": [u(.5, 2) for _ in range(N)], "drift": [[u(-.1, .1) for _ in range(N)] for _ in range(T)], "vol": [[u(0, .4) for _ in range(N)] for _ in range(T)],
            "dt": [rng.choice([0.0, u(.1, 1), u(.1, 1)]) for _ in range(T)], "z": [[[rng.gauss(0, 1) for _ in range(M)] for _ in range(N)] for _ in range(T)]}


def check_p(c):
    import numpy as np
    from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path as f
    z, dr, vo, dt = map(np.array, (c["z"], c["drift"], c["vol"], c["dt"]))
    T, N, M = z.shape
    S0 = np.array(c["S0"])
    a = dict(initial_px=S0, drift=dr, forward_volatility=vo, timestep_length=dt, rand_nbs=z)
    if c["form"] != "2d":
        a["drift"], a["forward_volatility"] = dr[:, 0], vo[:, 0]
    if c["form"] == "scalar":
        a["initial_px"] = float(S0[0])
    keep = {v: np.array(x, copy=True) for v, x in a.items()}
    r = f(**a)
    for v in a:
        if not np.array_equal(np.asarray(a[v]), keep[v]):
            return "argument %s modified" % v
    if r.shape != (T + 1, N, M):
        return "shape %r" % (r.shape,)
    for j in range(N):
        for s in range(M):
            x = S0[j]
            for i in range(T + 1):
                if not close(r[i, j, s], x, 1e-10):
                    return "path[%d, %d, %d] = %r, expected %r" % (i, j, s, r[i, j, s], x)
                if i < T:
                    x = x * math.exp((dr[i, j] - vo[i, j] ** 2 / 2) * dt[i] + vo[i, j] * math.sqrt(dt[i]) * z[i, j, s])


PROP = Prop("C10", "Simulated GBM paths follow the exact log-normal step for every underlying",
            contracts=[path(f) for f in FORMS], runtimes=[Runtime("paths", gen_p, check_p, n=400, fn=FN)])
PROP.imports = [MOD]
