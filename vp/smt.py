"""z3 / cvc5 back end."""
import z3, os, subprocess, tempfile, time
from fractions import Fraction
from . import terms as t

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}


class Z:
    def __init__(self):
        self.memo = {}
        self.fns = {}
        self.apps = []     # (name, term, z3expr)
        self.keep = []

    def sortof(self, s):
        return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[s]

    def f(self, name, args, sort):
        key = (name, tuple(a.sort() for a in args), sort)
        fd = self.fns.get(key)
        if fd is None:
            fd = z3.Function("%s!%d" % (name, len(self.fns)), *[a.sort() for a in args], self.sortof(sort))
            self.fns[key] = fd
        return fd(*args)

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, u):
        r = self.memo.get(u)
        if r is None:
            r = self._tr(u)
            self.memo[u] = r
        return r

    def _tr(self, u):
        op = u.op
        if op == "const":
            c = u.args[0]
            if u.sort == "I":
                return z3.IntVal(int(c))
            return z3.RealVal(str(c))
        if op == "var":
            return z3.Const(u.args[0], self.sortof(u.sort))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "special":
            return z3.Const("special_" + u.args[0], z3.RealSort())
        if op != "ite" and any(isinstance(x, t.T) and x.sort == "C" for x in u.args):
            # complex arguments: an unconstrained value
            return z3.Const("complex_%d" % u.id, self.sortof(u.sort if u.sort != "C" else "R"))
        a = [self.tr(x) for x in u.args if isinstance(x, t.T)]
        if op in ("sel", "app"):
            if not a:
                return z3.Const(u.args[0], self.sortof(u.sort))
            e = self.f(u.args[0], a, u.sort)
            return e
        if op in ("add", "mul"):
            if u.sort == "R":
                a = [self.real(x) for x in a]
            r = a[0]
            for x in a[1:]:
                r = r + x if op == "add" else r * x
            return r
        if op == "div":
            return self.real(a[0]) / self.real(a[1])
        if op == "pow":
            r = a[0]
            for _ in range(u.args[1] - 1):
                r = r * a[0]
            return r
        if op == "ite":
            x, y = a[1], a[2]
            if u.sort == "R":
                x, y = self.real(x), self.real(y)
            return z3.If(a[0], x, y)
        if op in ("lt", "le", "eq"):
            x, y = a
            if z3.is_real(x) or z3.is_real(y):
                x, y = self.real(x), self.real(y)
            return x < y if op == "lt" else (x <= y if op == "le" else x == y)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op in ("idiv", "imod"):
            x, y = a
            if z3.is_int(x) and z3.is_int(y):
                # python floor semantics; equals z3 div for positive divisor
                if t.isc(u.args[1]) and t.cv(u.args[1]) > 0:
                    return x / y if op == "idiv" else x % y
                q = z3.If(y > 0, x / y, z3.If((x % y) == 0, x / y, -((-x) / (-y)) if False else (-x) / (-y)))
                q = z3.If(y > 0, x / y, (-x) / (-y))
                return q if op == "idiv" else x - q * y
            x, y = self.real(x), self.real(y)
            q = z3.ToInt(x / y)
            return q if op == "idiv" else x - z3.ToReal(q) * y
        if op == "fn":
            name = u.args[0]
            if name == "abs":
                return z3.If(a[0] >= 0, a[0], -a[0])
            if name == "floor":
                return z3.ToInt(self.real(a[0]))
            a = [self.real(x) for x in a]
            if not a:
                e = z3.Const("fn_" + name, z3.RealSort())
                return e
            e = self.f("fn_" + name, a, "R")
            self.apps.append((name, a, e))
            return e
        raise NotImplementedError("z3 " + op)

    def axioms(self):
        """ground instances of trusted facts about exp/log/sqrt/Phi/phi for the applications seen."""
        out = []
        seen = set()
        by = {}
        i = 0
        while i < len(self.apps):
            name, a, e = self.apps[i]
            i += 1
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            by.setdefault(name, []).append((a, e))
            x = a[0]
            if name == "exp":
                out += [e > 0, e >= 1 + x, z3.Implies(x <= 0, e <= 1), z3.Implies(x < 0, e < 1), z3.Implies(x == 0, e == 1), z3.Implies(x != 0, e > 1 + x)]
            elif name == "log":
                out += [z3.Implies(x > 0, e <= x - 1), z3.Implies(x == 1, e == 0), z3.Implies(x > 1, e > 0),
                        z3.Implies(z3.And(x > 0, x < 1), e < 0)]
            elif name == "sqrt":
                out += [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)), z3.Implies(x > 0, e > 0)]
            elif name == "Phi":
                out += [e > 0, e < 1, z3.Implies(x >= 0, e >= z3.RealVal("1/2")), z3.Implies(x <= 0, e <= z3.RealVal("1/2"))]
            elif name == "phi":
                out += [e > 0, e < z3.RealVal("2/5")]
            elif name == "Phiinv":
                out += [z3.Implies(z3.And(x > z3.RealVal("1/2"), x < 1), e > 0), z3.Implies(z3.And(x > 0, x < z3.RealVal("1/2")), e < 0)]
            elif name == "powr":
                out += [z3.Implies(x > 0, e > 0)]
        for name in ("exp", "log", "Phi", "Phiinv", "sqrt"):
            L = by.get(name, [])
            if len(L) > 12:
                L = L[:12]
            for p in range(len(L)):
                for q in range(p + 1, len(L)):
                    (x,), ex = L[p]
                    (y,), ey = L[q]
                    dom = {"log": z3.And(x > 0, y > 0), "sqrt": z3.And(x >= 0, y >= 0),
                           "Phiinv": z3.And(x > 0, x < 1, y > 0, y < 1)}.get(name, z3.BoolVal(True))
                    out.append(z3.Implies(dom, z3.And(z3.Implies(x < y, ex < ey), z3.Implies(y < x, ey < ex))))
                    if name == "Phi":
                        out.append(z3.Implies(x == -y, ex + ey == 1))
        for (x,), e in by.get("exp", []):
            for (y,), l in by.get("log", []):
                out.append(z3.Implies(z3.And(y > 0, x == l), e == y))
                out.append(z3.Implies(y == e, l == x))
        return out


def check(facts, timeout=4000, extra=()):
    """sat/unsat/unknown of the conjunction."""
    z = Z()
    s = z3.Solver()
    s.set("timeout", timeout)
    fs = [z.tr(f) for f in facts]
    ax = z.axioms()
    for f in fs + ax:
        s.add(f)
    t0 = time.time()
    STATS["z3_calls"] += 1
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    return str(r), s, z


def cvc5_check(solver, timeout=10):
    smt = "(set-logic ALL)\n" + solver.to_smt2()
    t0 = time.time()
    STATS["cvc5_calls"] += 1
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
            fh.write(smt)
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), fh.name], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fh.name)
        STATS["cvc5_time"] += time.time() - t0


def model_env(solver, z, terms):
    m = solver.model()
    env = {}
    for u in terms:
        if u.op not in ("var", "sel", "app"):
            continue
        try:
            v = m.eval(z.tr(u), model_completion=True)
            if u.sort == "I":
                env[u] = v.as_long()
            elif u.sort == "R":
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                env[u] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            else:
                env[u] = z3.is_true(v)
        except Exception:
            pass
    return env
