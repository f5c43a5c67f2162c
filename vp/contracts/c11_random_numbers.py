from ..core import Prop, Contract, Runtime
from ..spec import *

MOD = "frm.pricing_engine.monte_carlo_generic"
GEN, CORR = MOD + ".generate_rand_nbs", MOD + ".normal_corr"
SAMP = {"T": ch(2, 3), "N": ch(2, 3), "m": ch(2, 3), "seed": ch(0, 5)}


def shape(anti, odd):
    def build(k):
        f = k.fn(GEN)
        T, N, m = I("T"), I("N"), I("m")
        n = m if not anti else 2 * m + (1 if odd else 0)
        seed = I("seed")
        pre = [(T >= 1).t, (N >= 1).t, (m >= 1).t, (T * n <= 100000000).t, (seed >= 0).t]

        def run():
            r = f(nb_steps=T, nb_rand_vars=N, nb_simulations=n, apply_antithetic_variates=anti, random_seed=seed)
            k.ensure("one number per step, variable and simulation", shape_is(r, T, N, n))
            i, j, p = I("i"), I("j"), I("p")
            Ctx.cur.assume(And(i >= 0, i < T, j >= 0, j < N, p >= 0, p < m))
            Z = lambda s: wrap(t.mk("sel", ("Z<%s>1" % t.show(seed.t), i.t, j.t, term(s)), "R"))
            if anti:
                k.ensure("simulation 2p is a draw of its own", Eq(at(r, i, j, 2 * p), Z(p)))
                k.ensure("simulation 2p+1 is the antithetic variate of simulation 2p", Eq(at(r, i, j, 2 * p + 1), -at(r, i, j, 2 * p)))
                if odd:
                    k.ensure("the unpaired simulation is a draw of its own", Eq(at(r, i, j, 2 * m), Z(m)))
            else:
                k.ensure("every simulation is a draw of its own", Eq(at(r, i, j, p), Z(p)))
            r2 = f(nb_steps=T, nb_rand_vars=N, nb_simulations=n, apply_antithetic_variates=anti, random_seed=seed)
            k.ensure("the same seed gives the same numbers", Eq(at(r, i, j, p), at(r2, i, j, p)))
        k.verify("numbers", run, pre, replay=lambda e: {"kind": "numbers", "args": {"T": 2, "N": 2, "n": 5 if odd else 4, "anti": anti, "seed": 3}})
    return Contract("generate_rand_nbs [%s]" % ("no variance reduction" if not anti else "antithetic, odd count" if odd else "antithetic, even count"), GEN, build, samplers=SAMP)


def corr(d, nd):
    def build(k):
        f = k.fn(CORR)
        n, T = I("n"), I("T")
        C_ = [[None] * d for _ in range(d)]
        for i in range(d):
            for j in range(i + 1):
                C_[i][j] = C_[j][i] = C(1) if i == j else R("c%d%d" % (i, j))
        pre = [(n >= 1).t, (T >= 1).t]
        # positive definiteness: leading minors
        if d == 2:
            pre.append((R("c10") * R("c10") < 1).t)
        if d == 3:
            a, b, c = R("c10"), R("c20"), R("c21")
            pre += [(a * a < 1).t, (b * b < 1).t, (1 - a * a - b * b - c * c + 2 * a * b * c > 0).t]
        z = arr("z", (n, d)) if nd == 2 else arr("z", (T, d, n))

        def run():
            r = f(nm.asarr(C_), z)
            s, tt = I("s"), I("tt")
            Ctx.cur.assume(And(s >= 0, s < n, tt >= 0, tt < T))
            u = (lambda q, i: at(q, s, i)) if nd == 2 else (lambda q, i: at(q, tt, i, s))
            zz = [u(z, i) for i in range(d)]
            # the map is linear with coefficients M[i][k] = response to the k-th unit vector; covariance M M' must be C
            M = []
            for i in range(d):
                y = term(u(r, i))
                row = []
                for kx in range(d):
                    row.append(Sym(t.subst(y, {zz[q].t: t.const(1 if q == kx else 0) for q in range(d)})))
                M.append(row)
                k.ensure("variate %d is linear in the inputs of the same draw" % i, Eq(Sym(y), sum((row[q] * zz[q] for q in range(d)), C(0))))
            for i in range(d):
                for j in range(i + 1):
                    k.ensure("covariance of variates %d and %d equals the correlation matrix" % (i, j), Eq(sum((M[i][q] * M[j][q] for q in range(d)), C(0)), C_[i][j]))
            k.ensure("same layout as the input", shape_is(r, *z.shape))
        k.verify("correlate", run, pre, replay=lambda e: {"kind": "corr", "args": {"d": d, "nd": nd, "rho": float(e.get1("c10", .5)), "seed": 1}})
    return Contract("normal_corr [%d variables, %d-d input]" % (d, nd), CORR, build, scope="%d correlated variables; any number of draws" % d,
                    samplers={"c10": U(-.5, .5), "c20": U(-.4, .4), "c21": U(-.4, .4), "n": ch(2, 3), "T": ch(2, 3)})


def gen_n(rng):
    n = rng.randint(1, 9)
    return {"T": rng.randint(1, 4), "N": rng.randint(1, 3), "n": n, "anti": rng.random() < .6 and n > 1, "seed": rng.randint(0, 99)}


def check_n(c):
    import numpy as np
    from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs as f
    kw = dict(nb_steps=c["T"], nb_rand_vars=c["N"], nb_simulations=c["n"], apply_antithetic_variates=c["anti"], random_seed=c["seed"])
    r = f(**kw)
    if r.shape != (c["T"], c["N"], c["n"]):
        return "shape %r, documented %r" % (r.shape, (c["T"], c["N"], c["n"]))
    np.random.normal(size=7)
    if not np.array_equal(r, f(**kw)):
        return "same seed, different numbers"
    if c["n"] > 1 or c["T"] > 1:
        if np.array_equal(r, f(**{**kw, "random_seed": c["seed"] + 1})):
            return "the seed has no effect"
    if c["anti"]:
        for p in range(c["n"] // 2):
            if not np.array_equal(r[:, :, 2 * p + 1], -r[:, :, 2 * p]):
                return "simulation %d is not the antithetic variate of simulation %d" % (2 * p + 1, 2 * p)
        own = np.concatenate([r[:, :, 0::2]], axis=2)
    else:
        own = r
    flat = np.abs(own).ravel()
    if len(set(flat.tolist())) != flat.size:
        return "a draw is used more than once"


def gen_c(rng):
    d = rng.randint(2, 5)
    return {"d": d, "nd": rng.choice([2, 3]), "rho": rng.uniform(-.9 / (d - 1), .95), "seed": rng.randint(0, 10 ** 6)}


def check_c(c):
    import numpy as np
    from frm.pricing_engine.monte_carlo_generic import normal_corr as f
    d, rs = c["d"], np.random.RandomState(c["seed"])
    if c["rho"] > .8:
        A = rs.normal(size=(d, d + 1))
        S = A @ A.T
        C_ = S / np.sqrt(np.outer(np.diag(S), np.diag(S)))
    else:
        C_ = np.full((d, d), c["rho"])
        np.fill_diagonal(C_, 1)
    E = np.eye(d)
    M = f(C_, E).T if c["nd"] == 2 else f(C_, E.T[None, :, :])[0]
    if np.abs(M @ M.T - C_).max() > 1e-10:
        return "covariance %s, correlation matrix %s" % ((M @ M.T).round(4).tolist(), C_.round(4).tolist())
    z = rs.normal(size=(6, d)) if c["nd"] == 2 else rs.normal(size=(4, d, 5))
    u = f(C_, z)
    w = z @ M.T if c["nd"] == 2 else np.einsum("ij,tjs->tis", M, z)
    if u.shape != z.shape or np.abs(u - w).max() > 1e-9:
        return "not the linear map of the same draw"


PROP = Prop("C11", "Random numbers are reproducible, antithetic in pairs and correctly correlated",
            contracts=[shape(False, False), shape(True, False), shape(True, True)] + [corr(d, nd) for d in (2, 3) for nd in (2, 3)],
            runtimes=[Runtime("numbers", gen_n, check_n, n=400, fn=GEN), Runtime("corr", gen_c, check_c, n=300, fn=CORR)],
            assumptions=["numpy's generator: draws made under the same seed and in the same order are equal; that they are independent standard normal is not checked"],
            unverified=["statistical quality of numpy's generator"])
PROP.imports = [MOD]
