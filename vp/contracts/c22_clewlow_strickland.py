from ..core import Prop, Contract, Runtime
from ..spec import *
from .. import frames as FR

MOD = "frm.pricing_engine.clewlow_strickland_1_factor"
FN = MOD + ".clewlow_strickland_1_factor_simulate"
SAMP = {"a": U(.2, 3), "sigma": U(.1, .6), "T": ch(2, 3), "m": ch(2, 3), "n": ch(2, 3), "curve": U(.5, 2), "Z": U(-2, 2)}


def sim(form):
    """one batch, or two batches of which the second is partly (or fully) used"""
    two = form == "two batches"

    def build(k):
        f = k.fn(FN)
        mod = k.L.load(MOD)
        T, m, n, M = I("T"), I("m"), I("n"), I("M")
        a, sg = R("a"), R("sigma")
        curve = arr("curve", (M, 2))
        Mx = I("MAX")
        pre = [(T >= 1).t, (m >= 1).t, (n >= 1).t, (M >= 2).t, (Mx >= 1).t, (sg >= 0).t]
        if form == "one step":
            pre += [(T == 1).t, (m == 1).t]
        per = I("per")
        pre += [(per >= 1).t, Eq(per, Mx // (T * m)).t]
        pre += [And(n > per, n <= 2 * per).t] if two else [(n <= per).t]

        def run():
            ctx = Ctx.cur
            ctx.store["trip_counts"] = (1, 2)
            batch = per if two else n
            if two:
                ctx.lemma("two batches", Eq((n + per - 1) // per, 2))
            else:
                ctx.lemma("one batch", Eq((n + n - 1) // n, 1))
            calls = []

            def rands(nb_steps, nb_rand_vars, nb_simulations, apply_antithetic_variates=True, random_seed=0):
                ctx.lemma("as many normal numbers as steps", Eq(nb_steps, T * m))
                ctx.lemma("one driving factor", Eq(nb_rand_vars, 1))
                ctx.lemma("as many normal numbers as paths", Eq(nb_simulations, batch))
                ctx.lemma("independent draws", Eq(Sym(term(apply_antithetic_variates)) if isinstance(apply_antithetic_variates, Sym) else C(int(bool(apply_antithetic_variates))), 0))
                calls.append(random_seed)
                return arr("Z%d" % len(calls), (nb_steps, nb_rand_vars, nb_simulations))
            with patched(mod, generate_rand_nbs=rands, MAX_SIMULATIONS_PER_LOOP=Mx):
                r = f(forward_curve=curve, nb_simulations=n, segments_per_day=m, T=T, alpha=a, sigma=sg)
            k.ensure("one row per day including today, one column per simulation", shape_is(r, T + 1, n))
            dt = C(1) / m
            F = FR.interps()
            if len(F) != 1:
                raise Unsupported("one interpolation of the forward curve expected")
            F, q = F[0], I("q")
            ctx.assume(And(q >= 0, q < M))
            k.ensure("the forward curve is interpolated linearly between its own points", And(Eq(F.x.at((q.t,)), at(curve, q, 0)), Eq(F.y.at((q.t,)), at(curve, q, 1))))
            f0 = F(C(0))
            d, p = I("d"), I("p")
            ctx.assume(And(d >= 0, d <= T, p >= 0, p < n))
            b = 1 if two and not bool(p < per) else 0
            s = p - per if b else p
            A = ctx.store["for_arrays"][b]
            k.ensure("the simulation keeps every step of every path", shape_is(A, T * m + 1, batch))
            k.ensure("row 0 is the front of the forward curve", Eq(at(r, 0, p), f0))
            rd = at(r, d, p)
            logs = bool(Eq(rd, exp(at(A, d * m, s))))
            if not logs:
                k.ensure("row d is the simulated price after d days", Eq(rd, at(A, d * m, s)))
            lg = (lambda v: v) if logs else log
            g = Sym(nm.generic_index(A.shape[0]))
            if bool(g == 0):
                k.ensure("every path starts at the front of the forward curve", Eq(lg(at(A, g, s)), log(f0)))
                return
            x0, x1 = lg(at(A, g - 1, s)), lg(at(A, g, s))
            t0 = (g - 1) * dt
            l0, l1 = log(F(t0)), log(F(g * dt))
            z = wrap(t.mk("sel", ("Z%d" % (b + 1), term(g - 1), t.const(0), term(s)), "R"))
            k.ensure("each step is the mean-reverting step around the forward curve",
                     Eq(x1, x0 + (l1 - l0) + (a * (l0 - x0) - sg * sg / 4 * (1 + exp(-2 * a * t0))) * dt + sg * sqrt(dt) * z))
            k.ensure("every batch has a random seed of its own", Eq(C(len(set(calls))), 2 if two else 1))
            k.ensure("a batch for every simulation", Eq(C(len(calls)), 2 if two else 1))
        k.verify("paths", run, pre, replay=lambda e: {"kind": "paths", "args": {"T": 3, "m": 2, "n": 5, "curve": [[0.0, 1.1], [1.3, .8], [4.0, 1.6]], "a": .7, "sigma": .4, "MAX": 6 * 3 if two else None, "float_T": False}})
    return Contract("clewlow_strickland_1_factor_simulate [%s]" % form, FN, build, samplers=SAMP)


def gen_s(rng):
    T, m, n = rng.randint(1, 5), rng.randint(1, 4), rng.choice([1, 2, 3, 5, 7, 12])
    k = rng.randint(2, 5)
    xs = [0.0] + sorted(rng.uniform(.2, T) for _ in range(k - 2)) + [T + rng.choice([0, 0, 1.5])]
    batch = rng.choice([None, None, 1, 2, 3, 5])
    return {"T": T, "m": m, "n": n, "curve": [[x, rng.uniform(.5, 2)] for x in xs], "a": rng.choice([0.0, rng.uniform(.05, 3)]), "sigma": rng.choice([0.0, rng.uniform(.1, .6), rng.uniform(.1, .6)]),
            "MAX": None if batch is None else T * m * batch + rng.randint(0, T * m - 1), "float_T": rng.random() < .3}


def check_s(c):
    import numpy as np
    import frm.pricing_engine.clewlow_strickland_1_factor as M
    from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs
    T, m, n, a, sg = c["T"], c["m"], c["n"], c["a"], c["sigma"]
    cv = np.array(c["curve"])
    keep = cv.copy()
    old = M.MAX_SIMULATIONS_PER_LOOP
    try:
        if c["MAX"]:
            M.MAX_SIMULATIONS_PER_LOOP = c["MAX"]
        r = M.clewlow_strickland_1_factor_simulate(forward_curve=cv, nb_simulations=n, segments_per_day=m, T=float(T) if c["float_T"] else T, alpha=a, sigma=sg)
    finally:
        M.MAX_SIMULATIONS_PER_LOOP = old
    if not np.array_equal(cv, keep):
        return "the forward curve was modified"
    if r.shape != (T + 1, n):
        return "shape %r, expected %r" % (r.shape, (T + 1, n))
    per = min(n, (c["MAX"] or old) // (T * m))
    F = lambda x: math.log(float(np.interp(x, keep[:, 0], keep[:, 1])))
    dt = 1.0 / m
    for p in range(n):
        b, s = divmod(p, per)
        z = generate_rand_nbs(nb_steps=T * m, nb_rand_vars=1, nb_simulations=per, apply_antithetic_variates=False, random_seed=b)[:, 0, s]
        x = F(0)
        for i in range(T * m + 1):
            if i:
                t0 = (i - 1) * dt
                x = x + F(i * dt) - F(t0) + (a * (F(t0) - x) - sg * sg / 4 * (1 + math.exp(-2 * a * t0))) * dt + sg * math.sqrt(dt) * z[i - 1]
            if i % m == 0 and not close(r[i // m, p], math.exp(x), 1e-9):
                return "price of path %d after %d days is %r, expected %r" % (p, i // m, float(r[i // m, p]), math.exp(x))
            if sg == 0 and i % m == 0 and not close(r[i // m, p], math.exp(F(i * dt)), 1e-9):
                return "without volatility the price after %d days is %r, the forward price is %r" % (i // m, float(r[i // m, p]), math.exp(F(i * dt)))


PROP = Prop("C22", "Clewlow-Strickland paths take the mean-reverting step around the forward curve",
            contracts=[sim(f) for f in ("one batch", "one step", "two batches")], runtimes=[Runtime("paths", gen_s, check_s, n=300, fn=FN)],
            unverified=["more than two batches of simulations (bounded: up to 12 batches at run time); the statistical quality of the random numbers (C11 specifies how they are drawn)"])
PROP.imports = [MOD]
