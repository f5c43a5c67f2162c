"""Discharging obligations: facts |- goal."""
import itertools
import random
import time
from fractions import Fraction
import mpmath
from . import terms as t
from . import smt
from .cas import CAS, TooBig
from .npmodel import index_facts

mp = mpmath.mp.clone()
mp.dps = 40


class Result:
    def __init__(self, status, how="", env=None, detail="", secs=0.0):
        self.status, self.how, self.env, self.detail, self.secs = status, how, env, detail, secs

    def __repr__(self):
        return "<%s %s %s>" % (self.status, self.how, self.detail[:200])


class Prover:
    def __init__(self, facts, samplers=None, seed=1, timeout=8000, cases=64, budget=60.0):
        self.facts = list(facts)
        self.facts += index_facts(self.facts)
        self.samplers = samplers or {}
        self.seed = seed
        self.timeout = timeout
        self.cases = cases
        self.budget = budget
        self._pos = {}

    # ---- sign queries
    def is_pos(self, term, facts=None):
        facts = facts if facts is not None else self.cur
        key = (term, tuple(facts))
        r = self._pos.get(key)
        if r is None:
            r = self._ispos(term, facts)
            self._pos[key] = r
        return r

    def _ispos(self, term, facts):
        if t.isc(term):
            return t.cv(term) > 0
        if term.sort == "C":
            return False
        zero = t.const(0)
        fs = set(facts)
        if t.lt(zero, term) in fs or t.lt(t.const(Fraction(0)), term) in fs:
            return True
        if term.op == "fn" and term.args[0] in ("exp", "phi", "Phi", "pi"):
            return True
        if term.op == "fn" and term.args[0] == "sqrt":
            return self.is_pos(term.args[1], facts)
        if term.op in ("mul", "div") and all(self.is_pos(a, facts) for a in term.args):
            return True
        if term.op == "add" and all(self.is_pos(a, facts) for a in term.args):
            return True
        if term.op == "pow" and self.is_pos(term.args[0], facts):
            return True
        rel = relevant(facts, t.le(term, zero))
        r, _, _ = smt.check(rel + [t.le(term, zero)], 400)
        return r == "unsat"

    # ---- main
    def prove(self, goal):
        t0 = time.time()
        self.t_end = t0 + self.budget
        try:
            r = self._prove(self.facts + index_facts(self.facts + [goal]), goal, 0)
        except TooBig:
            r = Result("unknown", "cas", detail="normal form too large")
        except NotImplementedError as e:
            r = Result("unknown", "backend", detail=str(e))
        except ZeroDivisionError:
            r = Result("unknown", "cas", detail="zero denominator in normal form")
        r.secs = time.time() - t0
        return r

    def _prove(self, facts, goal, depth):
        if goal is t.TRUE:
            return Result("proved", "trivial")
        if time.time() > self.t_end:
            return Result("unknown", "budget", detail="time budget")
        if goal.op == "and":
            how = set()
            for g in goal.args:
                r = self._prove(facts, g, depth)
                if r.status != "proved":
                    return r
                how.update(r.how.split("+"))
            return Result("proved", "+".join(sorted(how)))
        if goal in set(facts):
            return Result("proved", "hypothesis")
        if goal.op == "or" and any(g.op in ("not",) or g.sort == "B" for g in goal.args):
            # implication: assume the negation of the other disjuncts
            eqs = [g for g in goal.args if g.op == "eq" and g.args[0].sort in ("R", "C")]
            if eqs:
                for g in eqs[:2]:
                    other = [t.not_(h) for h in goal.args if h is not g]
                    if self.infeasible(facts + other):
                        return Result("proved", "z3")
                    r = self._prove(facts + other, g, depth)
                    if r.status == "proved":
                        return r
        # split on finite-domain hypotheses  (x = c1 or x = c2 ...)
        if depth < 8:
            gv = None
            for f in facts:
                if f.op == "or" and all(finite_eq(d) for d in f.args):
                    v = finite_eq(f.args[0])[0]
                    if any(finite_eq(d)[0] is not v for d in f.args):
                        continue
                    gv = t.free_vars(goal) if gv is None else gv
                    if v not in gv:
                        continue
                    hows = set()
                    for d in f.args:
                        c = finite_eq(d)[1]
                        m = {v: c}
                        f2 = [g for g in (t.subst(x, m) for x in facts if x is not f) if g is not t.TRUE]
                        if t.FALSE in f2:
                            continue
                        r = self._prove(f2, t.subst(goal, m), depth + 1)
                        if r.status != "proved":
                            if isinstance(r.env, dict):
                                r.env[v] = t.cv(c)
                            return r
                        hows.update(r.how.split("+"))
                    return Result("proved", "+".join(sorted(hows)) or "z3")
        # split on ite conditions
        conds = ite_conds(goal)
        if conds and depth < 8:
            c = conds[0]
            res = []
            for val in (True, False):
                f2 = facts + [c if val else t.not_(c)]
                if self.infeasible(f2):
                    continue
                g2 = t.subst(goal, {c: t.TRUE if val else t.FALSE})
                r = self._prove(f2, g2, depth + 1)
                if r.status != "proved":
                    return r
                res.append(r.how)
            return Result("proved", "+".join(sorted(set("+".join(res).split("+")))) or "z3")
        self.cur = facts
        detail = ""
        if goal.op == "eq" and (goal.args[0].sort in ("R", "C") or goal.args[1].sort in ("R", "C")):
            a, b = goal.args
            sub = solve_facts(facts)
            cas = CAS(lambda x: self.is_pos(x, facts))
            try:
                if cas.equal(a, b):
                    return Result("proved", "field-nf")
                if sub:
                    m = {}
                    a2, b2 = a, b
                    for _ in range(3):
                        a2, b2 = t.subst(a2, sub), t.subst(b2, sub)
                    cas = CAS(lambda x: self.is_pos(x, facts))
                    if cas.equal(a2, b2):
                        return Result("proved", "field-nf")
                if goal.args[0].sort == "R" and self.by_equation(facts, goal):
                    return Result("proved", "field-nf")
            except (TooBig, ZeroDivisionError) as e:
                detail = "cas: %r; " % (e,)
            if "C" in (a.sort, b.sort):
                return self.falsify(facts, goal, detail)
        if goal.op in ("lt", "le"):
            cas = CAS(lambda x: self.is_pos(x, facts))
            try:
                d = cas.sub(cas.conv(goal.args[1]), cas.conv(goal.args[0]))
                if not d.n and goal.op == "le":
                    return Result("proved", "field-nf")
                if list(d.n.keys()) == [()] and not d.d:
                    if d.n[()] > 0:
                        return Result("proved", "field-nf")
                if d.n and not d.d and cas.poly_pos(d.n):
                    return Result("proved", "field-nf")
            except (TooBig, ZeroDivisionError):
                pass
        if goal.op in ("lt", "le") and is_real_goal(goal):
            try:
                if self.by_hypothesis(facts, goal):
                    return Result("proved", "field-nf")
            except (TooBig, ZeroDivisionError):
                pass
        # numeric refutation first if cheap for transcendental goals
        rel = relevant(facts, goal)
        r, s, z = smt.check(rel + [t.not_(goal)], self.timeout)
        if r == "unsat":
            return Result("proved", "z3")
        if r == "unknown":
            if smt.cvc5_check(s, 10) == "unsat":
                return Result("proved", "cvc5")
        fr = self.falsify(facts, goal, detail)
        if fr.status == "refuted":
            return fr
        if r == "sat":
            fv = set()
            for f in rel + [goal]:
                fv |= {u for u in t.subterms(f) if u.op in ("var", "sel", "app")}
            env = smt.model_env(s, z, fv)
            # check the model under the true interpretation of exp, log, Phi, ...
            try:
                e2 = {k: (mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else v) for k, v in env.items()}
                if all(t.evaluate(f, e2, mp) for f in facts) and not t.evaluate(goal, e2, mp):
                    return Result("refuted", "z3-model", env, "counter-model validated under true interpretation")
            except Exception:
                pass
            uf = any(u.op == "fn" and u.args[0] not in ("abs", "floor") or u.op == "app" for f in rel + [goal] for u in t.subterms(f))
            if not uf:
                return Result("refuted", "z3-model", env, "counter-model")
            return Result("unknown", "z3-sat-abstract", env, detail + "sat only in the abstraction of transcendental functions; %d samples agree" % fr.env if isinstance(fr.env, int) else detail)
        return Result("unknown", "z3", None, detail + "z3 %s" % r)

    def by_hypothesis(self, facts, goal):
        """goal a<b follows from a hypothesis c<d when (b-a) and (d-c) are the same up to a positive constant"""
        cas = CAS(lambda x: self.is_pos(x, facts))
        gd = cas.sub(cas.conv(goal.args[1]), cas.conv(goal.args[0]))
        gv = t.free_vars(goal)
        for f in derived(facts):
            if f.op not in ("lt", "le") or (goal.op == "lt" and f.op == "le"):
                continue
            if t.free_vars(f) != gv:
                continue
            try:
                fd = cas.sub(cas.conv(f.args[1]), cas.conv(f.args[0]))
                q = cas.mul(fd, cas.inv(gd))
            except (TooBig, ZeroDivisionError):
                continue
            if not q.d and list(q.n.keys()) == [()] and q.n[()] > 0:
                return True
            if cas.iszero(cas.sub(fd, gd)):
                return True
        return False

    def by_equation(self, facts, goal):
        """goal a=b follows from a hypothesis c=d when (a-b) is (c-d) times something"""
        fset = set(facts)
        gv = t.free_vars(goal)
        cas = gd = None
        for f in facts:
            if f.op == "or":
                left = [g for g in f.args if t.not_(g) not in fset]
                if len(left) != 1:
                    continue
                f = left[0]
            if f.op != "eq" or "R" not in (f.args[0].sort, f.args[1].sort) or not (t.free_vars(f) & gv) or f.args[0].op == "var" and f.args[1].op == "const":
                continue
            if time.time() > self.t_end:
                return False
            try:
                if cas is None:
                    cas = CAS(lambda x: self.is_pos(x, facts))
                    gd = cas.sub(cas.conv(goal.args[0]), cas.conv(goal.args[1]))
                fd = cas.sub(cas.conv(f.args[0]), cas.conv(f.args[1]))
                # equal numerators up to a constant and a monomial: then gd = 0 exactly when fd = 0
                if gd.n and fd.n and len(gd.n) == len(fd.n) and cas.monic(gd.n)[2] == cas.monic(fd.n)[2]:
                    return True
                if len(fd.n) == 1 and not fd.d:
                    (m, _), = fd.n.items()
                    if len(m) == 1 and m[0][1] == 1 and gd.n and all(dict(mm).get(m[0][0], 0) >= 1 for mm in gd.n):
                        return True      # every term of the difference contains the vanishing factor
                if len(fd.n) < 2:
                    continue
                q = cas.mul(gd, cas.inv(fd))
            except (TooBig, ZeroDivisionError):
                continue
            if len(q.n) == 1 and not q.d:
                return True
        return False

    def infeasible(self, facts):
        r, _, _ = smt.check(relevant(facts, facts[-1]), 1500)
        return r == "unsat"

    # ---- numeric refutation with true functions
    def falsify(self, facts, goal, detail="", n=60, tries=4000):
        rng = random.Random(self.seed * 7919 + goal.id)
        vs = set()
        for f in facts + [goal]:
            vs |= t.free_vars(f)
        apps = {u for f in [goal] for u in t.subterms(f) if u.op == "app"}
        gvs = t.free_vars(goal)
        ok = 0
        sub = solve_facts(facts)
        for k in range(tries):
            if time.time() > self.t_end or ok >= n:
                break
            env = {}
            try:
                for v in sorted(vs, key=lambda u: u.id):
                    if v in sub:
                        continue
                    env[v] = self.sample(v, rng)
                for v, e in sub.items():
                    env[v] = t.evaluate(e, env, mp)
                if not all(t.evaluate(f, env, mp) for f in facts):
                    continue
                ok += 1
                g = t.evaluate(goal, env, mp)
            except (t.EvalError, ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError):
                continue
            if not g:
                return Result("refuted", "numeric", env, detail + "counterexample under true interpretation")
        return Result("unknown", "numeric", ok, detail + "no counterexample in %d samples" % ok)

    def sample(self, v, rng):
        s = self.samplers.get(v.args[0])
        if s is not None:
            x = s(rng)
            if isinstance(x, bool):
                return x
            return int(x) if v.sort == "I" else mp.mpf(x)
        if v.sort == "I":
            return rng.choice([0, 1, 2, 3, rng.randint(0, 30), rng.randint(-5, 400)])
        if v.sort == "B":
            return rng.random() < 0.5
        return mp.mpf(rng.choice([rng.uniform(0.01, 2), rng.uniform(-2, 2), rng.uniform(0.5, 100), rng.uniform(0, 0.2)]))


def derived(facts):
    """hypotheses plus the consequences of |x| < c and x^2 < c^2"""
    out = list(facts)
    k = 0
    while k < len(out) and len(out) < len(facts) + 60:
        f = out[k]
        k += 1
        if f.op in ("lt", "le") and t.isc(f.args[1]) and t.cv(f.args[1]) > 0:
            x, c = f.args[0], t.cv(f.args[1])
            mk = t.lt if f.op == "lt" else t.le
            if x.op == "fn" and x.args[0] == "abs":
                y = x.args[1]
                if y.op == "pow" and y.args[1] == 2 or y.op == "pow" and t.isc(y.args[1]) and t.cv(y.args[1]) == 2:
                    out.append(mk(y, f.args[1]))
                else:
                    out += [mk(y, f.args[1]), mk(t.neg(y), f.args[1])]
            if x.op == "pow" and (x.args[1] == 2):
                import math
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    q = t.const(Fraction(a, b), "R")
                    out += [mk(x.args[0], q), mk(t.neg(x.args[0]), q)]
    return out


def solve_facts(facts):
    """var -> term from facts of the form var == term (var not in term)"""
    m = {}
    for f in facts:
        if f.op == "eq" and f.args[0].sort in ("R", "I"):
            for x, y in (f.args, f.args[::-1]):
                if x.op in ("var", "sel") and x not in m and x not in t.subterms(y) and not any(k in t.subterms(y) for k in m):
                    m[x] = y
                    break
    return m


def finite_eq(d):
    if d.op != "eq":
        return None
    a, b = d.args
    if a.op in ("var", "sel") and t.isc(b):
        return a, b
    if b.op in ("var", "sel") and t.isc(a):
        return b, a
    return None


def ite_conds(goal):
    out = []
    for u in sorted(t.subterms(goal), key=lambda u: u.id):
        if u.op == "ite" and not any(w.op == "ite" for w in t.subterms(u.args[0]) if w is not u):
            if goal.op in ("eq", "lt", "le", "or", "not") and is_real_goal(goal):
                if u.args[0] not in out:
                    out.append(u.args[0])
    return out


def is_real_goal(goal):
    return any(u.op == "fn" or u.sort in ("R", "C") for u in t.subterms(goal))


def relevant(facts, goal):
    """facts sharing variables (transitively) with goal; quantifier markers dropped unless shared"""
    vs = set(t.free_vars(goal))
    if not vs:
        return list(facts)
    todo = [(f, t.free_vars(f)) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f, fv in todo:
            if not fv or fv & vs:
                out.append(f)
                if not fv <= vs:
                    vs |= fv
                    changed = True
            else:
                rest.append((f, fv))
        todo = rest
    return out
