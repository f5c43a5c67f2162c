"""Contract registry, obligation runner, bounded run-time conformance, decision and evidence."""
import importlib
import json
import hashlib
import math
import multiprocessing as mpx
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
WORKERS = max(1, min(8, (os.cpu_count() or 2)))


# ------------------------------------------------------------------ contracts
class Contract:
    """One function (or one lemma over contracts) with its obligations.

    build(k): uses the Kit to run the real code symbolically and emit obligations."""

    def __init__(self, name, fn, build, replay=None, text="", limit=150, lemma=False, scope="unbounded", samplers=None, thorough=False):
        self.name, self.fn, self.build, self.replay, self.text = name, fn, build, replay, text
        self.limit, self.lemma, self.scope = limit, lemma, scope
        self.samplers = samplers or {}
        self.thorough = thorough


class Runtime:
    """executable contract checked on the real code: gen(rng)->args (json), check(args)->None | message"""

    def __init__(self, name, gen, check, n=200, corners=(), fn="", thorough_mult=5, limit=120, key=None):
        self.name, self.gen, self.check, self.n = name, gen, check, n
        self.corners, self.fn, self.tm, self.limit = list(corners), fn, thorough_mult, limit
        self.key = key


class Prop:
    def __init__(self, pid, title, contracts=(), runtimes=(), trusted=(), assumptions=(), unverified=()):
        self.pid, self.title = pid, title
        self.contracts, self.runtimes = list(contracts), list(runtimes)
        self.trusted, self.assumptions, self.unverified = list(trusted), list(assumptions), list(unverified)


TRUSTED_BASE = [
    "vp engine: path explorer (sym.py), array/library model (npmodel.py, lift.py, dates.py), field normal form (cas.py)",
    "z3 (python z3-solver), cvc5 1.1.2 as SMT back ends; mpmath for validating counter-models",
    "CPython's own semantics of the executed statements (the real source text is parsed and executed on symbolic values)",
]
ASSUMPTIONS = [
    "machine floating point treated as real arithmetic in the discharged obligations (the run-time conformance part uses the real floats)",
    "library contracts (numpy elementwise functions and broadcasting, scipy.stats.norm cdf/pdf/ppf, pandas date arithmetic, calendar) assumed as modelled",
    "facts used about exp, log, sqrt, Phi, phi, Phiinv: additivity, inverse pairs, monotonicity, symmetry Phi(-x)=1-Phi(x), phi(x)=exp(-x^2/2)/sqrt(2 pi), derivatives",
    "equalities are shown where both sides are defined (arguments of log positive, of sqrt non-negative, denominators non-zero)",
]


class Kit:
    def __init__(self, contract, lifted, seed):
        self.c = contract
        self.L = lifted
        self.obls = []          # dicts
        self.seed = seed
        self.pending = []
        self.nfeas = 0

    def fn(self, dotted):
        return self.L.fn(dotted)

    def ensure(self, name, goal, samplers=None):
        """postcondition; call inside run()"""
        from .sym import Ctx, SymBool
        g = goal
        Ctx.cur.require(name, g)

    def lemma(self, name, goal, using=None):
        from .sym import Ctx
        Ctx.cur.lemma(name, goal, using)

    def instance(self, name, hyp, concl, *args):
        from .sym import Ctx
        Ctx.cur.instance(name, hyp, concl, *args)

    def verify(self, label, run, pre=(), inst=(), samplers=None, raises=None, max_paths=300, timeout=2000, replay=None, prove_timeout=8000, budget=60, expect_paths=1):
        """explore run() under the preconditions, then discharge every obligation it emits.

        raises: function(exception) -> True if that exception is an allowed outcome on the path,
                or a goal (SymBool) that must then hold on that path."""
        from . import sym, terms as t
        from .prove import Prover
        pre = [sym.term(p) for p in pre]
        samplers = {**self.c.samplers, **(samplers or {})}
        try:
            paths = sym.explore(run, pre, inst, max_paths=max_paths, timeout=timeout)
        except sym.Unsupported as e:
            self._rec(label, "unknown", "engine", "unsupported: %s" % e, tb=traceback.format_exc())
            return
        except RecursionError:
            self._rec(label, "unknown", "engine", "recursion limit")
            return
        nret = 0
        for pi, p in enumerate(paths):
            tag = "%s/p%d" % (label, pi) if len(paths) > 1 else label
            if p.kind == "raise":
                ok = None
                if raises is not None:
                    ctx = sym.Ctx(p.facts)
                    ok = raises(p.value)
                if ok is True:
                    continue
                goal = t.FALSE if (ok is None or ok is False) else sym.term(ok)
                r = self._discharge(p.facts, goal, inst, samplers, prove_timeout, budget)
                self._rec(tag + ": no unexpected %s" % type(p.value).__name__, r.status, r.how,
                          "raised %s: %s; %s" % (type(p.value).__name__, str(p.value)[:200], r.detail), r, replay,
                          tb=getattr(p.value, "_tb", ""), needs_replay=getattr(p.value, "_engine", False))
                continue
            nret += 1
            for name, facts, goal, step in p.obls:
                r = self._discharge(facts, goal, inst, samplers, prove_timeout, budget)
                if step and r.status == "refuted":
                    r.status, r.detail = "unknown", "proof step fails: " + r.detail
                self._rec("%s: %s" % (tag, name), r.status, r.how, r.detail, r, replay, goal=t.show(goal, 8))
        if nret < expect_paths:
            self._rec(label + ": reachability", "unknown" if paths else "unknown", "cover", "no returning path (vacuous contract or the function always raises)")
        elif nret:
            # cover: the precondition with some returning path must be satisfiable
            self._rec(label + ": precondition satisfiable (cover)", *self._cover(pre, inst, paths, samplers))

    def _cover(self, pre, inst, paths, samplers):
        from . import smt, sym
        open_ = False
        for p in paths:
            if p.kind == "return":
                r, s, z = smt.check(p.facts, 3000)
                if r == "sat":
                    return "proved", "cover", "sat"
                open_ = open_ or r != "unsat"
        for p in paths:
            if p.kind == "return":
                from .prove import Prover
                pr = Prover(p.facts, samplers, self.seed)
                pr.t_end = time.time() + 5
                from . import terms as t
                fr = pr.falsify(p.facts, t.FALSE)
                if fr.status == "refuted":
                    return "proved", "cover", "sample"
        if open_:        # neither a model nor a proof that there is none: reported in the evidence, not an alarm
            return "proved", "cover", "undecided"
        return "unknown", "cover", "no model found for the precondition"

    def _discharge(self, facts, goal, inst, samplers, timeout, budget):
        from . import sym
        from .prove import Prover
        ctx = sym.Ctx([])
        ctx.inst = list(inst)
        ctx.reset([])
        fs = ctx.instantiate(list(facts) + [goal])
        fs.remove(goal)
        return Prover(fs, samplers, self.seed, timeout=timeout, budget=budget).prove(goal)

    def _rec(self, name, status, how, detail="", r=None, replay=None, goal="", tb="", needs_replay=False):
        env = {}
        if r is not None and isinstance(r.env, dict):
            from . import terms as t
            for u, v in r.env.items():
                try:
                    env[t.show(u) if not isinstance(u, str) else u] = float(v)
                except Exception:
                    pass
        case = None
        if status == "refuted" and env:
            rp = replay or self.c.replay
            if rp is not None:
                try:
                    case = rp(Env(env))
                except Exception as e:
                    detail += " (replay builder: %r)" % (e,)
        self.obls.append({"name": "%s :: %s" % (self.c.name, name), "fn": self.c.fn, "status": status, "how": how,
                          "detail": detail[:1500], "env": env, "case": case, "goal": goal[:600], "secs": getattr(r, "secs", 0.0), "tb": tb[-2500:], "needs_replay": needs_replay})

    def check_goal(self, name, facts, goal, samplers=None, inst=(), budget=60):
        from . import sym
        r = self._discharge([sym.term(f) for f in facts], sym.term(goal), inst, {**self.c.samplers, **(samplers or {})}, 8000, budget)
        self._rec(name, r.status, r.how, r.detail, r)
        return r


class Env(dict):
    def get1(self, base, default=None):
        """value of variable `base` or of base[...]"""
        if base in self:
            return self[base]
        for k, v in self.items():
            if k.startswith(base + "["):
                return v
        return default


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def _silence():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VP_DEBUG"):
        os.dup2(dn, 2)


_STATE = {}


def _job(job):
    """runs in a worker process"""
    kind, idx, extra = job
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    prop = _STATE["prop"]
    if kind == "sym":
        c = prop.contracts[idx]
        signal.alarm(int(c.limit * (3 if TIER == "thorough" else 1)))
        from . import smt
        s0 = dict(smt.STATS)
        k = Kit(c, _STATE["lifted"](), SEED)
        try:
            c.build(k)
        except Timeout:
            k._rec("time limit", "unknown", "engine", "contract time limit %ss" % c.limit)
        except MemoryError:
            k._rec("memory", "unknown", "engine", "memory limit")
        except Exception as e:
            k._rec("engine", "unknown", "engine", "unsupported (%s: %s)" % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc())
        finally:
            signal.alarm(0)
        st = {x: smt.STATS[x] - s0[x] for x in s0}
        return ("sym", idx, k.obls, time.time() - t0, st)
    r = prop.runtimes[idx]
    seed, n, corners = extra
    signal.alarm(int(r.limit * (4 if TIER == "thorough" else 1)))
    fails, seen, samples, done = [], set(), [], 0
    rng = random.Random("%s|%s|%d|%d" % (prop.pid, r.name, SEED, seed))
    cur = None
    try:
        todo = list(corners)
        for i in range(len(todo) + n):
            if i < len(todo):
                cur = todo[i]
            else:
                cur = r.gen(rng)
            if cur is None:
                continue
            m = run_case(r, cur)
            done += 1
            h = hashlib.md5(json.dumps(cur, sort_keys=True, default=str).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(samples) < 1:
                    samples.append({"kind": r.name, "args": cur})
            if m:
                fails.append({"kind": r.name, "args": cur, "message": m[:1500]})
                if len(fails) >= 8:
                    break
    except Timeout:
        pass
    finally:
        signal.alarm(0)
    return ("rt", idx, fails, time.time() - t0, {"done": done, "distinct": len(seen), "samples": samples})


def run_case(r, args):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = r.check(args)
        return m
    except Timeout:
        raise
    except Skip:
        return None
    except Exception as e:
        return "real code raised %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:])


class Skip(Exception):
    pass


def load_prop(pid):
    import glob
    hits = glob.glob(os.path.join(VERIF, "vp", "contracts", pid.lower() + "_*.py"))
    if len(hits) != 1:
        raise SystemExit("no contract module for property %s" % pid)
    prop = importlib.import_module("vp.contracts." + os.path.basename(hits[0])[:-3]).PROP
    if os.environ.get("VP_ONLY"):        # development only: contracts / runtimes whose name contains the text
        prop.contracts = [c for c in prop.contracts if os.environ["VP_ONLY"] in c.name]
        prop.runtimes = [r for r in prop.runtimes if os.environ["VP_ONLY"] in r.name]
    return prop


def prepare():
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)


def run_property(pid):
    prepare()
    t0 = time.time()
    prop = load_prop(pid)
    from . import lift
    # import the real package once in the parent (import failure is a failure of the code under test)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    holder = {}

    def lifted():
        if "L" not in holder:
            holder["L"] = lift.Lifted()
        return holder["L"]
    fatal = None
    for m in getattr(prop, "imports", []):
        try:
            importlib.import_module(m)
        except Exception as e:
            fatal = "import of %s failed: %r" % (m, e)
    # warm the lifted modules in the parent so that workers share them
    lift_fail = None
    try:
        L = lifted()
        for c in prop.contracts:
            for f in ([c.fn] if isinstance(c.fn, str) else c.fn):
                if f.startswith("frm."):
                    try:
                        L.load(f.rpartition(".")[0])
                    except ModuleNotFoundError:
                        L.load(f.rpartition(".")[0].rpartition(".")[0])
    except Exception as e:
        lift_fail = repr(e)
    _STATE["prop"], _STATE["lifted"] = prop, lifted
    jobs = []
    for i, c in enumerate(prop.contracts):
        if c.thorough and TIER != "thorough":
            continue
        jobs.append(("sym", i, None))
    for i, r in enumerate(prop.runtimes):
        n = r.n * (r.tm if TIER == "thorough" else 1)
        chunks = max(1, min(4, n // 25 or 1))
        for c in range(chunks):
            jobs.append(("rt", i, (c, math.ceil(n / chunks), r.corners[c::chunks])))
    ctx = mpx.get_context("fork")
    results = []
    with ctx.Pool(WORKERS, initializer=_silence, maxtasksperchild=1) as pool:
        jobs.sort(key=lambda j: j[0] != "rt")
        pend = {i: (j, pool.apply_async(_job, (j,))) for i, j in enumerate(jobs)}
        end = time.time() + (600 if TIER != "thorough" else 3000)
        hurry, known = None, known_findings()
        while pend:
            for i in list(pend):
                j, a = pend[i]
                if not a.ready():
                    continue
                del pend[i]
                try:
                    r = a.get()
                except Exception as e:
                    r = (j[0], j[1], None, 0, repr(e))
                results.append(r)
                # a failing input on the real code settles the verdict: the remaining proofs get a last short while
                if hurry is None and r[2] and (any(not is_known(prop, f, known) for f in r[2]) if r[0] == "rt" else any(o["status"] == "refuted" and o["case"] for o in r[2])):
                    hurry = time.time() + (90 if TIER != "thorough" else 600)
            if time.time() > (min(end, hurry) if hurry else end):
                for j, a in pend.values():
                    results.append((j[0], j[1], None, 0, "stopped (time)"))
                break
            time.sleep(0.05)
        pool.terminate()
    return decide(prop, results, time.time() - t0, fatal, lift_fail)


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known":
                    out.append(d)
    return out


def is_known(prop, fail, known):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop.pid:
            continue
        if k["kind"] == fail["kind"]:
            m = k.get("match", {})
            if all(fail["args"].get(a) == v for a, v in m.items()) and (k.get("message_contains", "") in fail["message"]):
                return k
    return None


def decide(prop, results, wall, fatal, lift_fail):
    pid = prop.pid
    obls, fails, rt_done, rt_dist, samples = [], [], 0, 0, []
    stats = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}
    per_rt = {}
    notes = []
    for kind, idx, out, secs, st in results:
        if kind == "sym":
            if out is None:
                c = prop.contracts[idx]
                obls.append({"name": c.name + " :: worker", "fn": c.fn, "status": "unknown", "how": "engine", "detail": "worker lost or timed out: %s" % st, "env": {}, "case": None, "goal": "", "secs": secs, "tb": ""})
            else:
                obls += out
                for k in stats:
                    stats[k] += st[k]
        else:
            r = prop.runtimes[idx]
            if out is None:
                notes.append("run-time worker for %s lost (%s)" % (r.name, st))
                continue
            fails += out
            rt_done += st["done"]
            rt_dist += st["distinct"]
            d = per_rt.setdefault(r.name, {"function": r.fn, "evaluations": 0})
            d["evaluations"] += st["done"]
            samples += st["samples"][:1]
    if fatal:
        fails.append({"kind": "import", "args": {}, "message": fatal})
    covers = [o for o in obls if o["how"] == "cover"]
    obls = [o for o in obls if o["how"] != "cover" or o["status"] != "proved"]
    proved = [o for o in obls if o["status"] == "proved"]
    refuted = [o for o in obls if o["status"] == "refuted"]
    unknown = [o for o in obls if o["status"] == "unknown"]
    # ---- replay solver counterexamples on the real code
    rts = {r.name: r for r in prop.runtimes}
    confirmed = []
    for o in refuted:
        if o["case"]:
            r = rts.get(o["case"]["kind"])
            if r is not None:
                signal.signal(signal.SIGALRM, _alarm)
                signal.alarm(60)
                try:
                    m = run_case(r, o["case"]["args"])
                except Timeout:
                    m = None
                finally:
                    signal.alarm(0)
                if m:
                    o["replayed"] = m
                    confirmed.append({"kind": o["case"]["kind"], "args": o["case"]["args"], "message": m, "obligation": o["name"]})
    for o in refuted:
        # an exception that no raise/assert of the code produced counts only when the real code raises it too
        if o.get("needs_replay") and not o.get("replayed"):
            o["status"] = "unknown"
            o["detail"] = "not reproduced on the real code: " + o["detail"]
    refuted = [o for o in obls if o["status"] == "refuted"]
    unknown = [o for o in obls if o["status"] == "unknown"]
    known = known_findings()
    viol, kf = [], {}
    for f in confirmed + fails:
        k = is_known(prop, f, known)
        if k:
            kf[k["id"]] = k
        else:
            viol.append(f)
    # refuted obligations without a replayed input, not explained by a known finding
    open_ref = [o for o in refuted if not o.get("replayed") and not any(k.get("obligation") and k["obligation"] in o["name"] for k in known if k["property"] == pid and k.get("status") == "known")]
    rc = 0
    lines = []
    for k in kf.values():
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if viol:
        f = viol[0]
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump({"property": pid, "kind": f["kind"], "args": f["args"], "message": f["message"],
                   "obligation": f.get("obligation"), "failed_obligations": [_o(o) for o in refuted][:20], "undecided": [_o(o) for o in unknown][:20],
                   "other_failures": viol[1:6], "how_to_replay": "/verif/check --replay %s" % path}, open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        lines.append("  " + f["message"].splitlines()[0][:300])
        rc = 1
    elif open_ref:
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump({"property": pid, "kind": "obligation", "failed_obligations": [_o(o) for o in open_ref], "note": "the verifier refuted these obligations; no failing input was reproduced on the real code"}, open(path, "w"), indent=1, default=str)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        lines.append("  " + open_ref[0]["name"] + " :: " + open_ref[0]["detail"][:200])
        rc = 1
    if rc == 0 and (not obls or not proved) and prop.contracts:
        # zero obligations discharged: the check cannot answer by its deciding method; the bounded part still ran
        notes.append("no obligation could be generated/discharged on this tree; only the bounded conformance part decided")
        if rt_done == 0:
            lines.append("ERROR: nothing was checked")
            rc = 3
    backends = {}
    for o in proved:
        for h in o["how"].split("+"):
            backends[h] = backends.get(h, 0) + 1
    fns = sorted({f for c in prop.contracts for f in ([c.fn] if isinstance(c.fn, str) else c.fn)})
    undis_fns = sorted({str(o["fn"]) for o in unknown})
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": getattr(prop, "level", "proof"),
        "coverage": {
            "obligations": len(obls), "discharged": len(proved), "refuted": len(refuted), "undecided": len(unknown),
            "checker_cmd": "./check %s" % pid,
            "trusted_base": TRUSTED_BASE + prop.trusted,
            "functions_under_contract": fns,
            "discharged_by_back_end": backends,
            "solver": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()},
            "obligation_seconds": round(sum(o["secs"] for o in obls), 2),
            "cover_checks_passed": sum(1 for o in covers if o["status"] == "proved" and o["detail"] != "undecided"),
            "cover_checks_undecided": sum(1 for o in covers if o["detail"] == "undecided"),
            "undecided_obligations": [{"name": o["name"], "why": o["detail"][:200]} for o in unknown],
            "bounded_scope_contracts": [{"contract": c.name, "bound": c.scope} for c in prop.contracts if c.scope != "unbounded"],
            "bounded_stand_in": {"what": "executable contracts evaluated on the real code (never counted as proved)", "per_contract": per_rt,
                                 "functions_standing_in_for": undis_fns},
            "evaluations": rt_done, "distinct_nontrivial": rt_dist,
            "rule": "run-time conformance inputs: corner list plus seeded random generation inside each contract's precondition; distinct = distinct argument records",
            "samples": samples[:4] + [{"obligation": o["name"], "status": o["status"], "by": o["how"]} for o in obls[:6]],
            "outside_contracts": prop.unverified,
            "notes": notes + ([lift_fail] if lift_fail else []),
        },
        "assumptions": ASSUMPTIONS + prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(viol) + (len(open_ref) if not viol else 0),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    lines.append("%s: %d obligations, %d discharged, %d refuted, %d undecided; %d run-time evaluations, %d failures; %.1fs" % (
        pid, len(obls), len(proved), len(refuted), len(unknown), rt_done, len(fails), wall))
    if os.environ.get("VP_VERBOSE"):
        for o in obls:
            if o["status"] != "proved" or os.environ["VP_VERBOSE"] == "2":
                lines.append("   %-8s %-12s %4.0fs %s | %s %s" % (o["status"], o["how"], o["secs"], o["name"], o["detail"][:400], {k: v for k, v in list(o["env"].items())[:10]}))
                if os.environ["VP_VERBOSE"] == "3":
                    lines.append("      goal " + o["goal"] + "\n" + o["tb"])
        for f in viol[:6]:
            lines.append("   FAIL %s %s\n      %s" % (f["kind"], json.dumps(f["args"], default=str)[:600], f["message"][:900]))
    print("\n".join(lines))
    sys.stdout.flush()
    return rc


def _o(o):
    return {k: o[k] for k in ("name", "fn", "status", "how", "detail", "env", "goal", "tb")}


def replay(path):
    prepare()
    d = json.load(open(path))
    prop = load_prop(d["property"])
    if d["kind"] == "obligation":
        print(json.dumps(d, indent=1))
        return 1
    r = {r.name: r for r in prop.runtimes}[d["kind"]]
    m = run_case(r, d["args"])
    print("FAIL: " + m if m else "no failure on this tree")
    return 1 if m else 0


def selftest():
    """the prover must prove a true identity, refute a false one and stay undecided on neither"""
    prepare()
    from . import spec as sp
    from .prove import Prover
    x, y = sp.R("x"), sp.R("y")
    ok = [Prover([(x > 0).t, (y > 0).t]).prove(sp.Eq(sp.log(x * y), sp.log(x) + sp.log(y)).t).status == "proved",
          Prover([(x > 0).t]).prove(sp.Eq(sp.exp(2 * x), sp.exp(x)).t).status == "refuted",
          Prover([(x > y).t]).prove((x > y + 1).t).status == "refuted",
          Prover([(x > y + 2).t]).prove((x > y + 1).t).status == "proved"]
    print("selftest", ok)
    return 0 if all(ok) else 1


def main(argv):
    if argv and argv[0] == "--selftest":
        return selftest()
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    return run_property(argv[0])
