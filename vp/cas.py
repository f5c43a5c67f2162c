"""Field normal form over transcendental atoms: decides equalities of the terms the
pricing formulas are made of.  Sound rewriting only:
 exp(a+b)=exp(a)exp(b), exp(c log x)=x^c and log/sqrt splitting for atoms shown positive,
 sqrt(p)^2=p, Phi(-x)=1-Phi(x), phi(x)=exp(-x^2/2)/sqrt(2 pi), Phiinv inverse of Phi, I^2=-1.
An equality is proved when the normal form of the difference is the zero polynomial.
"""
from fractions import Fraction
import math
from . import terms as t

ONE = Fraction(1)


class TooBig(Exception):
    pass


LIMIT = 60000


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n            # dict mono->Fraction
        self.d = d or {}      # dict polybase id -> positive int


class CAS:
    def __init__(self, is_pos=lambda term: False):
        self.is_pos = is_pos
        self.atoms = []        # list of (kind, payload)
        self.key = {}
        self.pos = {}          # atom -> bool
        self.cache = {}
        self.reps = {}         # fname -> list[(Rat, atom)]
        self.pbval = {}
        self.cx = set()        # atoms that may be complex

    # ---- atoms
    def atom(self, key, pos=False):
        a = self.key.get(key)
        if a is None:
            a = len(self.atoms)
            self.atoms.append(key)
            self.key[key] = a
            self.pos[a] = pos
        return a

    def polybase(self, p):
        key = ("poly", frozenset(p.items()))
        a = self.key.get(key)
        if a is None:
            a = self.atom(key)
            self.pbval[a] = p
            if any(b in self.cx for m in p for b, _ in m):
                self.cx.add(a)
        return a

    # ---- monomials: tuple of (atom, exp) sorted
    def mmul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted((a, e) for a, e in d.items() if e != 0))

    def padd(self, p, q, k=ONE):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def needs_fix(self, m):
        for a, e in m:
            kind = self.atoms[a][0]
            if kind == "poly" and (e >= 1 or e <= -1 or e < 0):
                return True
            if kind == "imag" and (e >= 2 or e < 0):
                return True
            if kind == "prime" and (e >= 1 or e < 0):
                return True
            if kind == "osqrt" and (e >= 2 or e < 0):
                return True
        return False

    def pmul(self, p, q):
        """product of polys -> Rat (fixing composite exponents)"""
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        r = {}
        fix = []
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        bad = [m for m in r if self.needs_fix(m)]
        if not bad:
            return Rat(r)
        out = None
        good = {m: c for m, c in r.items() if m not in set(bad)}
        out = Rat(good)
        for m in bad:
            out = self.add(out, self.fixmono(m, r[m]))
        return out

    def fixmono(self, m, c):
        """monomial with out-of-range exponents of composite atoms -> Rat"""
        rest = []
        extra = []   # Rats to multiply
        for a, e in m:
            kind = self.atoms[a][0]
            if kind == "poly":
                k = math.floor(e)
                f = e - k
                if f:
                    rest.append((a, f))
                if k > 0:
                    extra += [Rat(self.pbval[a])] * int(k)
                elif k < 0:
                    extra.append(Rat({(): ONE}, {a: int(-k)}))
            elif kind == "imag":
                k = int(e) % 4
                if k in (2, 3):
                    c = -c
                if k in (1, 3):
                    rest.append((a, Fraction(1)))
            elif kind == "prime":
                k = math.floor(e)
                f = e - k
                if f:
                    rest.append((a, f))
                c = c * Fraction(self.atoms[a][1]) ** k
            elif kind == "osqrt":
                k = math.floor(e / 2)
                f = e - 2 * k
                if f:
                    rest.append((a, f))
                base = self.reps["sqrt"][self.atoms[a][1]][0]
                if k > 0:
                    extra += [base] * int(k)
                elif k < 0:
                    inv = self.inv(base)
                    extra += [inv] * int(-k)
            else:
                rest.append((a, e))
        out = Rat({tuple(sorted(rest)): c})
        for x in extra:
            out = self.mul(out, x)
        return out

    # ---- Rat arithmetic
    def add(self, x, y):
        if x.d == y.d:
            return self.red(Rat(self.padd(x.n, y.n), dict(x.d)))
        d = dict(x.d)
        for a, k in y.d.items():
            d[a] = max(d.get(a, 0), k)
        nx = self.scale(x, d)
        ny = self.scale(y, d)
        return self.red(self.combine(nx, ny, d))

    def combine(self, nx, ny, d):
        # nx, ny Rats (possibly with new dens due to fixing)
        if not nx.d and not ny.d:
            return Rat(self.padd(nx.n, ny.n), dict(d))
        s = self.add(nx, ny)
        dd = dict(s.d)
        for a, k in d.items():
            dd[a] = dd.get(a, 0) + k
        return Rat(s.n, dd)

    def scale(self, x, d):
        out = Rat(x.n)
        for a, k in d.items():
            m = k - x.d.get(a, 0)
            for _ in range(m):
                out = self.mul(out, Rat(self.pbval[a]))
        return out

    def red(self, r):
        if not r.n:
            return Rat({})
        return r

    def mul(self, x, y):
        if not x.n or not y.n:
            return Rat({})
        p = self.pmul(x.n, y.n)
        d = dict(p.d)
        for s in (x.d, y.d):
            for a, k in s.items():
                d[a] = d.get(a, 0) + k
        n = p.n
        # cancel n against denominator bases when equal up to constant / monomial
        out = Rat(n, {a: k for a, k in d.items() if k})
        return self.cancel(out)

    def cancel(self, r):
        if not r.d or len(r.n) < 2:
            return r
        c, mono, p = self.monic(r.n)
        a = self.key.get(("poly", frozenset(p.items())))
        if a is not None and r.d.get(a):
            d = dict(r.d)
            d[a] -= 1
            if not d[a]:
                del d[a]
            return Rat({mono: c}, d)
        return r

    def monic(self, p):
        """p = c * mono * q with q canonical (leading coeff 1, content monomial removed)"""
        # common monomial
        com = None
        for m in p:
            dm = dict(m)
            if com is None:
                com = dm
            else:
                com = {a: min(e, dm.get(a, 0)) if a in com else min(0, e) for a, e in
                       list(com.items()) + [(a, 0) for a in dm if a not in com]} if False else \
                    {a: min(com.get(a, 0), dm.get(a, 0)) for a in set(com) | set(dm)}
        com = {a: e for a, e in com.items() if e != 0 and self.atoms[a][0] not in ("poly", "imag", "osqrt", "prime")}
        inv = tuple(sorted((a, -e) for a, e in com.items()))
        q = {self.mmul(m, inv): c for m, c in p.items()}
        lead = max(q)
        c = q[lead]
        q = {m: v / c for m, v in q.items()}
        return c, tuple(sorted(com.items())), q

    def inv(self, x):
        if not x.n:
            raise ZeroDivisionError
        num = Rat({(): ONE})
        for a, k in x.d.items():
            for _ in range(k):
                num = self.mul(num, Rat(self.pbval[a]))
        if len(x.n) == 1:
            (m, c), = x.n.items()
            mi = tuple((a, -e) for a, e in m)
            r = self.fixmono(mi, 1 / c) if self.needs_fix(mi) else Rat({mi: 1 / c})
            return self.mul(num, r)
        c, mono, q = self.monic(x.n)
        a = self.polybase(q)
        mi = tuple((b, -e) for b, e in mono)
        r = self.fixmono(mi, 1 / c) if self.needs_fix(mi) else Rat({mi: 1 / c})
        return self.cancel(self.mul(num, Rat(r.n, {**r.d, a: r.d.get(a, 0) + 1})))

    def divide(self, x, y):
        com = {a: min(k, y.d[a]) for a, k in x.d.items() if a in y.d}
        if com:
            x = Rat(x.n, {a: k - com.get(a, 0) for a, k in x.d.items() if k > com.get(a, 0)})
            y = Rat(y.n, {a: k - com.get(a, 0) for a, k in y.d.items() if k > com.get(a, 0)})
        return self.mul(x, self.inv(y))

    def iszero(self, x):
        if not x.n:
            return True
        if self.reps.get("abs") or self.reps.get("sqrt"):
            x = self.squares(x)
            if not x.n:
                return True
        if 2 <= len(x.n) <= 24 and self.reps.get("expd"):
            return self.iszero_exp(x.n)
        return False

    def squares(self, x):
        """|a|^2 = a^2, sqrt(a)^2 = a (a >= 0 where defined)"""
        if not any(e.denominator == 1 and e >= 2 and self.atoms[a][0] in ("f_abs", "osqrt") and a not in self.cx for m in x.n for a, e in m):
            return x
        out = Rat({})
        for m, c in x.n.items():
            term = self.const(c)
            for a, e in m:
                kind = self.atoms[a][0]
                if e.denominator == 1 and e >= 2 and kind in ("f_abs", "osqrt") and a not in self.cx:
                    arg = self.reps[kind[2:] if kind == "f_abs" else "sqrt"][self.atoms[a][1]][0]
                    if arg.d:
                        return x
                    n = int(e) // 2
                    for _ in range(2 * n if kind == "f_abs" else n):
                        term = self.mul(term, arg)
                    e = e - 2 * n
                    if not e:
                        continue
                term = self.mul(term, self.fromatom(a, e))
            out = self.add(out, term)
        return self.squares(out)

    def iszero_exp(self, p):
        """combine the exponential atoms of every monomial into one exponent and add up equal ones"""
        groups = []
        for m, c in p.items():
            rest, ex, lg = [], Rat({}), False
            for a, e in m:
                kind = self.atoms[a][0]
                if kind == "E":
                    ex = self.add(ex, Rat({self.atoms[a][1]: Fraction(e)}))
                elif kind == "f_expd":
                    lg = True
                    ex = self.add(ex, self.mul(self.const(e), self.reps["expd"][self.atoms[a][1]][0]))
                elif ("log", a) in self.key:
                    ex = self.add(ex, self.mul(self.const(e), self.fromatom(self.key[("log", a)])))
                else:
                    rest.append((a, e))
            rest = tuple(rest)
            for g in groups:
                if g[0] == rest and not self.sub(g[1], ex).n:
                    g[2] += c
                    break
            else:
                groups.append([rest, ex, c])
        return all(g[2] == 0 for g in groups)

    def neg(self, x):
        return Rat({m: -c for m, c in x.n.items()}, x.d)

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def const(self, c):
        c = Fraction(c)
        return Rat({(): c} if c else {})

    def fromatom(self, a, e=ONE):
        return Rat({((a, Fraction(e)),): ONE})

    # ---- positivity
    def matom_pos(self, a):
        return self.pos.get(a, False)

    def mono_pos(self, m):
        return all(self.matom_pos(a) or (e.denominator == 1 and e.numerator % 2 == 0 and False) for a, e in m)

    def poly_pos(self, p):
        if all(c > 0 for c in p.values()) and all(self.mono_pos(m) for m in p):
            return True
        return False

    # ---- conversion
    def conv(self, u):
        r = self.cache.get(u)
        if r is None:
            r = self._conv(u)
            self.cache[u] = r
        return r

    def _conv(self, u):
        op = u.op
        if op == "const":
            return self.const(u.args[0])
        if op == "imag":
            a = self.atom(("imag",))
            self.cx.add(a)
            return self.fromatom(a)
        if op in ("var", "sel", "app", "ite", "idiv", "imod", "special"):
            return self.opaque(u)
        if op == "add":
            r = Rat({})
            for a in u.args:
                r = self.add(r, self.conv(a))
            return r
        if op == "mul":
            r = self.const(1)
            for a in u.args:
                r = self.mul(r, self.conv(a))
            return r
        if op == "div":
            return self.divide(self.conv(u.args[0]), self.conv(u.args[1]))
        if op == "pow":
            b = self.conv(u.args[0])
            n = u.args[1]
            r = self.const(1)
            for _ in range(n):
                r = self.mul(r, b)
            return r
        if op == "fn":
            return self.fnconv(u)
        raise NotImplementedError("cas " + op)

    def opaque(self, u):
        # congruence for app/sel: canonicalise args by zero test
        if u.op == "app":
            args = [self.conv(a) for a in u.args[1:]]
            lst = self.reps.setdefault(("app", u.args[0]), [])
            for rargs, a in lst:
                if len(rargs) == len(args) and all(self.iszero(self.sub(x, y)) for x, y in zip(args, rargs)):
                    return self.fromatom(a)
            a = self.atom(("t", u), pos=self.is_pos(u))
            if u.sort == "C":
                self.cx.add(a)
            lst.append((args, a))
            return self.fromatom(a)
        a = self.atom(("t", u), pos=self.is_pos(u))
        if u.sort == "C":
            self.cx.add(a)
        return self.fromatom(a)

    def pw(self, x, e):
        """x^e for Rat x and Fraction e, or None if splitting not justified."""
        e = Fraction(e)
        if e.denominator == 1:
            k = int(e)
            b = x if k >= 0 else self.inv(x)
            r = self.const(1)
            for _ in range(abs(k)):
                r = self.mul(r, b)
            return r
        # need positivity to split
        n = self.pwpoly(x.n, e)
        if n is None:
            return None
        for a, k in x.d.items():
            if not self.poly_pos(self.pbval[a]):
                return None
            m = self.fixmono(((a, -e * k),), ONE)
            n = self.mul(n, m)
        return n

    def pwpoly(self, p, e):
        if len(p) == 1:
            (m, c), = p.items()
            if c < 0 or not self.mono_pos(m):
                return None
            r = Rat({tuple((a, k * e) for a, k in m): ONE})
            return self.mul(r, self.pwconst(c, e))
        c, mono, q = self.monic(p)
        if not self.mono_pos(mono):
            return None
        if c < 0:
            if len(mono) == 0 or True:
                # put sign back into q
                q = {m: -v for m, v in q.items()}
                c = -c
        a = self.polybase(q)
        r = self.fixmono(((a, e),), ONE)
        r = self.mul(r, self.pwconst(c, e))
        mm = tuple((b, k * e) for b, k in mono)
        return self.mul(r, self.fixmono(mm, ONE))

    def pwconst(self, c, e):
        r = self.const(1)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in _factor(n).items():
                ex = Fraction(k) * e * s
                a = self.atom(("prime", p), pos=True)
                r = self.mul(r, self.fixmono(((a, ex),), ONE))
        return r

    def rep(self, name, arg, symm=None, pos=False):
        lst = self.reps.setdefault(name, [])
        for i, (r, a) in enumerate(lst):
            if self.iszero(self.sub(r, arg)):
                return a, 1
            if symm and self.iszero(self.add(r, arg)):
                return a, -1
        i = len(lst)
        kind = "osqrt" if name == "sqrt" else "f_" + name
        a = self.atom((kind, i), pos=pos)
        lst.append((arg, a))
        if self.has_imag(arg):
            self.cx.add(a)
            self.pos[a] = False
        return a, 1

    def expr(self, r):
        """exp of Rat"""
        if not r.d:
            out = self.const(1)
            for m, c in r.n.items():
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "log":
                    tgt = self.atoms[m[0][0]][1]
                    out = self.mul(out, self.fixmono(((tgt, c),), ONE))
                    continue
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "f_log" and c.denominator == 1:
                    # exp(k*log(arg)) = arg^k always (arg nonzero)
                    base = self.reps["log"][self.atoms[m[0][0]][1]][0]
                    out = self.mul(out, self.pw(base, c))
                    continue
                if m == ():
                    # exp(c) = E(1)^c
                    a = self.atom(("E", ()), pos=True)
                    out = self.mul(out, Rat({((a, c),): ONE}))
                    continue
                if any(a in self.cx for a, _ in m):
                    a = self.atom(("E", m), pos=False)      # exp(c*m) = exp(m)^c as a formal symbol only (exp is additive)
                    self.cx.add(a)
                    out = self.mul(out, Rat({((a, c),): ONE}))
                    continue
                a = self.atom(("E", m), pos=True)
                out = self.mul(out, Rat({((a, c),): ONE}))
            return out
        # non-monomial denominator: split numerator terms over the common denominator
        lst = self.reps.setdefault("expd", [])
        for rr, a in lst:
            k = self.ratio(r, rr)
            if k is not None:
                return Rat({((a, k),): ONE})
        a = self.atom(("f_expd", len(lst)), pos=not self.has_imag(r))
        if self.has_imag(r):
            self.cx.add(a)
        lst.append((r, a))
        return Rat({((a, ONE),): ONE})

    def has_imag(self, r):
        return any(a in self.cx for m in r.n for a, _ in m) or any(a in self.cx for a in r.d)

    def ratio(self, x, y):
        """constant k with x = k*y, else None"""
        a, b = x, y
        for src, dst in ((y.d, "a"), (x.d, "b")):
            for p, k in src.items():
                for _ in range(k):
                    if dst == "a":
                        a = self.mul(Rat(a.n), Rat(self.pbval[p]))
                    else:
                        b = self.mul(Rat(b.n), Rat(self.pbval[p]))
        if a.d or b.d or set(a.n) != set(b.n):
            return None
        k = None
        for m, c in a.n.items():
            q = c / b.n[m]
            if k is None:
                k = q
            elif k != q:
                return None
        return k

    def logpoly(self, p):
        """log of a polynomial, or None"""
        if len(p) == 1:
            (m, c), = p.items()
            if c <= 0 or not self.mono_pos(m):
                return None
            out = self.logconst(c)
            for a, e in m:
                out = self.add(out, self.mul(self.const(e), self.logatom(a)))
            return out
        if not self.poly_pos(p) and not self.ppos_q(p):
            return None
        c, mono, q = self.monic(p)
        if not self.mono_pos(mono):
            return None
        if c < 0:
            q = {m: -v for m, v in q.items()}
            c = -c
        a = self.polybase(q)
        self.pos[a] = True
        out = self.add(self.logconst(c), self.logatom(a))
        for b, e in mono:
            out = self.add(out, self.mul(self.const(e), self.logatom(b)))
        return out

    def ppos_q(self, p):
        return False

    def logatom(self, a):
        key = self.atoms[a]
        if key[0] == "E":
            return Rat({key[1]: ONE})
        if key[0] == "f_expd":
            return self.reps["expd"][key[1]][0]
        return self.fromatom(self.atom(("log", a)))

    def logconst(self, c):
        out = Rat({})
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in _factor(n).items():
                a = self.atom(("prime", p), pos=True)
                out = self.add(out, self.mul(self.const(k * s), self.fromatom(self.atom(("log", a)))))
        return out

    def fnconv(self, u):
        name = u.args[0]
        if name == "pi":
            return self.fromatom(self.atom(("pi",), pos=True))
        if name == "powr":
            base, ex = u.args[1], u.args[2]
            if t.isc(ex):
                r = self.pw(self.conv(base), t.cv(ex))
                if r is not None:
                    return r
            else:
                b = self.conv(base)
                lg = self.logrep(b, base)
                if lg is not None:
                    return self.expr(self.mul(self.conv(ex), lg))
            args = [self.conv(base), self.conv(ex)]
            lst = self.reps.setdefault("powr", [])
            for rargs, a in lst:
                if all(self.iszero(self.sub(x, y)) for x, y in zip(args, rargs)):
                    return self.fromatom(a)
            a = self.atom(("f_powr", len(lst)))
            lst.append((args, a))
            return self.fromatom(a)
        arg = self.conv(u.args[1])
        if name == "exp":
            return self.expr(arg)
        if name == "log":
            r = self.logrep(arg, u.args[1])
            if r is not None:
                return r
            a, _ = self.rep("log", arg)
            return self.fromatom(a)
        if name == "sqrt":
            r = self.pw(arg, Fraction(1, 2)) if not self.has_imag(arg) else None
            if r is not None:
                return r
            a, _ = self.rep("sqrt", arg)
            return self.fromatom(a)
        if name == "phi":
            sq = self.mul(arg, arg)
            e = self.expr(self.mul(self.const(Fraction(-1, 2)), sq))
            pi = self.atom(("pi",), pos=True)
            return self.mul(e, self.mul(self.pwconst(Fraction(2), Fraction(-1, 2)), Rat({((pi, Fraction(-1, 2)),): ONE})))
        if name == "Phi":
            if not arg.n:
                return self.const(Fraction(1, 2))
            if not arg.d and len(arg.n) == 1:
                (m, c), = arg.n.items()
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and self.atoms[m[0][0]][0] == "f_Phiinv":
                    base = self.reps["Phiinv"][self.atoms[m[0][0]][1]][0]
                    return base if c == 1 else self.sub(self.const(1), base)
            a, s = self.rep("Phi", arg, symm=True, pos=True)
            return self.fromatom(a) if s == 1 else self.sub(self.const(1), self.fromatom(a))
        if name == "Phiinv":
            half = self.sub(arg, self.const(Fraction(1, 2)))
            if not half.n:
                return Rat({})
            # Phiinv(Phi(x)) = x
            for r, a in self.reps.get("Phi", []):
                if self.iszero(self.sub(arg, self.fromatom(a))):
                    return r
                if self.iszero(self.sub(arg, self.sub(self.const(1), self.fromatom(a)))):
                    return self.neg(r)
            lst = self.reps.setdefault("Phiinv", [])
            for r, a in lst:
                if self.iszero(self.sub(r, arg)):
                    return self.fromatom(a)
                if self.iszero(self.sub(self.add(r, arg), self.const(1))):
                    return self.neg(self.fromatom(a))
            a = self.atom(("f_Phiinv", len(lst)))
            lst.append((arg, a))
            return self.fromatom(a)
        if name == "abs":
            if self.is_pos(u.args[1]):
                return arg
            if self.is_pos(t.neg(u.args[1])):
                return self.neg(arg)
            a, s = self.rep("abs", arg, symm=True)
            return self.fromatom(a)
        if name in ("sin", "cos") and not arg.n:
            return self.const(0 if name == "sin" else 1)
        if name == "sin":
            a, s = self.rep("sin", arg, symm=True)
            return self.fromatom(a) if s == 1 else self.neg(self.fromatom(a))
        if name == "cos":
            a, s = self.rep("cos", arg, symm=True)
            return self.fromatom(a)
        a, _ = self.rep(name, arg)
        return self.fromatom(a)

    def logrep(self, r, term):
        if term.op in ("mul", "div") and all(self.is_pos(a) for a in term.args) and sum(len(self.conv(a).n) > 1 for a in term.args) > 0:
            out = Rat({})
            for i, a in enumerate(term.args):
                x = self.logrep(self.conv(a), a)
                if x is None:
                    break
                out = self.sub(out, x) if term.op == "div" and i else self.add(out, x)
            else:
                return out
        n = self.logpoly(r.n)
        if n is None and len(r.n) > 1 and not r.d and self.is_pos(term):
            c, mono, q = self.monic(r.n)
            if self.mono_pos(mono):
                if c < 0:
                    q = {m: -v for m, v in q.items()}
                    c = -c
                a = self.polybase(q)
                self.pos[a] = True
                n = self.add(self.logconst(c), self.logatom(a))
                for b, e in mono:
                    n = self.add(n, self.mul(self.const(e), self.logatom(b)))
        if n is None:
            # split quotient / product at the term level when each factor is positive
            if term.op == "div" and self.is_pos(term.args[0]) and self.is_pos(term.args[1]):
                x = self.logrep(self.conv(term.args[0]), term.args[0])
                y = self.logrep(self.conv(term.args[1]), term.args[1])
                if x is not None and y is not None:
                    return self.sub(x, y)
            if term.op == "mul" and all(self.is_pos(a) for a in term.args):
                out = Rat({})
                for a in term.args:
                    x = self.logrep(self.conv(a), a)
                    if x is None:
                        return None
                    out = self.add(out, x)
                return out
            return None
        for a, k in r.d.items():
            l = self.logpoly(self.pbval[a])
            if l is None:
                if term.op == "div" and self.is_pos(term.args[0]) and self.is_pos(term.args[1]):
                    x = self.logrep(self.conv(term.args[0]), term.args[0])
                    y = self.logrep(self.conv(term.args[1]), term.args[1])
                    if x is not None and y is not None:
                        return self.sub(x, y)
                return None
            n = self.sub(n, self.mul(self.const(k), l))
        return n

    def equal(self, a, b):
        d = self.sub(self.conv(a), self.conv(b))
        return self.iszero(d)


def _factor(n):
    n = abs(int(n))
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out
