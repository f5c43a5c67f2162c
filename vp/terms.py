"""Hash-consed term language used for verification conditions.

Sorts: 'R' (real), 'I' (integer), 'B' (bool), 'C' (complex, CAS back end only).
A term is (op, args, sort).  Ops:
  const(Fraction) | var(name) | sel(name, idx...)  array read at index terms
  add mul div pow(n) neg-free (x-y is add(x, mul(-1,y)))
  fn(name, args...)   exp log sqrt Phi phi Phiinv abs sin cos, floor, pow(real) ...
  idiv imod (floor division by a positive constant or term)
  ite(c,a,b) lt le eq not and or
  app(name,args..) uninterpreted
"""
from fractions import Fraction
import math

_TABLE = {}


class T:
    __slots__ = ("op", "args", "sort", "_h", "id")

    def __repr__(self):
        return show(self)


_next = [0]


def mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = _next[0]
        _next[0] += 1
        _TABLE[key] = t
    return t


def const(v, sort=None):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("const", (Fraction(v),), sort or "I")
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return mk("special", (repr(v),), "R")
        v = Fraction(repr(v))
    v = Fraction(v)
    if sort is None:
        sort = "R"
    return mk("const", (v,), sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
IMAG = mk("imag", (), "C")


def var(name, sort="R"):
    return mk("var", (name,), sort)


def isc(t):
    return t.op == "const"


def cv(t):
    return t.args[0]


def _join(*ts):
    s = {t.sort for t in ts}
    if "C" in s:
        return "C"
    return "R" if "R" in s else "I"


def add(*ts):
    flat, c = [], Fraction(0)
    sort = _join(*ts)
    for t in ts:
        if t.op == "add":
            items = t.args
        else:
            items = (t,)
        for u in items:
            if isc(u):
                c += cv(u)
            else:
                flat.append(u)
    # combine like terms
    acc = {}
    for u in flat:
        k, b = coeff(u)
        acc[b] = acc.get(b, 0) + k
    out = []
    for b, k in acc.items():
        if k == 0:
            continue
        out.append(b if k == 1 else mul(mk("const", (Fraction(k),), "I" if Fraction(k).denominator == 1 and b.sort == "I" else ("R" if b.sort != "C" else "R")), b))
    if c != 0 or not out:
        out.append(mk("const", (c,), sort if sort != "C" else "R"))
    if len(out) == 1:
        return _as(out[0], sort)
    out.sort(key=lambda t: t.id)
    return mk("add", tuple(out), sort)


def _as(t, sort):
    if t.sort == sort or sort == "I" or t.sort == "C":
        return t
    if isc(t):
        return mk("const", t.args, sort if sort != "C" else "R")
    return t


def coeff(u):
    if u.op == "mul" and isc(u.args[0]):
        rest = u.args[1:]
        if len(rest) == 1:
            return cv(u.args[0]), rest[0]
        return cv(u.args[0]), mk("mul", rest, u.sort if u.sort != "R" else _join(*rest))
    return Fraction(1), u


def mul(*ts):
    c = Fraction(1)
    flat = []
    sort = _join(*ts)
    for t in ts:
        items = t.args if t.op == "mul" else (t,)
        for u in items:
            if isc(u):
                c *= cv(u)
            else:
                flat.append(u)
    if c == 0:
        return mk("const", (Fraction(0),), sort if sort != "C" else "R")
    flat.sort(key=lambda t: t.id)
    if not flat:
        return mk("const", (c,), sort if sort != "C" else "R")
    if c != 1:
        if len(flat) == 1 and flat[0].op == "add":
            return add(*[mul(mk("const", (c,), "I" if c.denominator == 1 and sort == "I" else "R"), u) for u in flat[0].args])
        flat = [mk("const", (c,), "I" if c.denominator == 1 and sort == "I" else "R")] + flat
    if len(flat) == 1:
        return flat[0]
    return mk("mul", tuple(flat), sort)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    if isc(b) and cv(b) != 0:
        return mul(mk("const", (1 / cv(b),), "R"), _as(a, "R"))
    if isc(a) and cv(a) == 0:
        return const(Fraction(0))
    return mk("div", (a, b), "C" if "C" in (a.sort, b.sort) else "R")


def powi(a, n):
    n = int(n)
    if n == 0:
        return const(1, a.sort if a.sort != "C" else "R")
    if n == 1:
        return a
    if isc(a) and (cv(a) != 0 or n > 0):
        return mk("const", (cv(a) ** n,), a.sort if n > 0 else "R")
    if n < 0:
        return div(const(Fraction(1)), powi(a, -n))
    return mk("pow", (a, n), a.sort)


CFN = {"exp", "log", "sqrt"}


def fn(name, *args):
    if name == "exp" and isc(args[0]) and cv(args[0]) == 0:
        return const(Fraction(1))
    if name == "log" and isc(args[0]) and cv(args[0]) == 1:
        return const(Fraction(0))
    if name == "sqrt" and isc(args[0]) and cv(args[0]) in (0, 1):
        return const(cv(args[0]))
    if name == "Phi" and isc(args[0]) and cv(args[0]) == 0:
        return const(Fraction(1, 2))
    if name == "abs" and isc(args[0]):
        return mk("const", (abs(cv(args[0])),), args[0].sort)
    sort = "C" if any(isinstance(a, T) and a.sort == "C" for a in args) else "R"
    if name == "abs":
        sort = args[0].sort
    if name in ("floor",):
        sort = "I"
        if isc(args[0]):
            return const(math.floor(cv(args[0])))
    return mk("fn", (name,) + tuple(args), sort)


def app(name, args, sort="R"):
    return mk("app", (name,) + tuple(args), sort)


def idiv(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return const(cv(a) // cv(b))
    if isc(b) and cv(b) == 1 and a.sort == "I":
        return a
    m, r = _multiples(a, b)
    if m is not None:
        return add(m, idiv(r, b))
    return mk("idiv", (a, b), "I")


def _multiples(a, b):
    """a = b*m + r with the summands divisible by the integer constant b moved into m"""
    if not isc(b) or a.sort != "I" or cv(b).denominator != 1 or cv(b) <= 0:
        return None, None
    k0 = int(cv(b))
    m, r = [], []
    for u in (a.args if a.op == "add" else (a,)):
        k, x = coeff(u) if not isc(u) else (cv(u), None)
        if Fraction(k).denominator != 1:
            return None, None
        q = int(k) // k0
        if q:
            m.append(const(q) if x is None else mul(const(q), x))
        if int(k) - q * k0:
            r.append(const(int(k) - q * k0) if x is None else mul(const(int(k) - q * k0), x))
    if not m:
        return None, None
    return add(*m), add(*r) if r else const(0)


def imod(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        r = cv(a) % cv(b)
        return const(r if r.denominator != 1 else int(r))
    m, r = _multiples(a, b)
    if m is not None:
        return imod(r, b)
    return mk("imod", (a, b), "I" if a.sort == "I" and b.sort == "I" else "R")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", (c, a, b), _join(a, b))


def lt(a, b):
    if isc(a) and isc(b):
        return TRUE if cv(a) < cv(b) else FALSE
    if a is b:
        return FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    if isc(a) and isc(b):
        return TRUE if cv(a) <= cv(b) else FALSE
    if a is b:
        return TRUE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        return and_(or_(not_(a), b), or_(not_(b), a))
    if isc(a) and isc(b):
        return TRUE if cv(a) == cv(b) else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        for a in u.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def free_vars(t):
    return {u for u in subterms(t) if u.op in ("var", "sel")}


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return powi(*args)
    if op == "fn":
        return fn(*args)
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    return mk(op, tuple(args), t.sort)


def subst(t, m, memo=None):
    """m: dict term->term"""
    if memo is None:
        memo = {}

    def go(u):
        if u in m:
            return m[u]
        r = memo.get(u)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in u.args):
            memo[u] = u
            return u
        args = [go(a) if isinstance(a, T) else a for a in u.args]
        r = rebuild(u, args)
        memo[u] = r
        return r
    return go(t)


# ---------------------------------------------------------------- derivative
def diff(t, x):
    memo = {}

    def d(u):
        if u is x:
            return const(Fraction(1))
        r = memo.get(u)
        if r is not None:
            return r
        if x not in subterms(u):
            r = const(Fraction(0))
        elif u.op == "add":
            r = add(*[d(a) for a in u.args])
        elif u.op == "mul":
            parts = []
            for i, a in enumerate(u.args):
                parts.append(mul(*(u.args[:i] + u.args[i + 1:] + (d(a),))))
            r = add(*parts)
        elif u.op == "div":
            a, b = u.args
            r = sub(div(d(a), b), div(mul(a, d(b)), powi(b, 2)))
        elif u.op == "pow":
            a, n = u.args
            r = mul(const(Fraction(n)), powi(a, n - 1), d(a))
        elif u.op == "fn":
            name, a = u.args[0], u.args[1]
            da = d(a)
            if name == "exp":
                r = mul(u, da)
            elif name == "log":
                r = div(da, a)
            elif name == "sqrt":
                r = div(da, mul(const(2), u))
            elif name == "Phi":
                r = mul(fn("phi", a), da)
            elif name == "phi":
                r = mul(const(-1), a, u, da)
            elif name == "cos":
                r = mul(const(-1), fn("sin", a), da)
            elif name == "sin":
                r = mul(fn("cos", a), da)
            elif name == "powr":
                b = u.args[2]
                r = mul(u, add(mul(d(b), fn("log", a)), div(mul(b, da), a)))
            else:
                raise NotImplementedError("diff " + name)
        elif u.op == "ite":
            c, a, b = u.args
            r = ite(c, d(a), d(b))
        elif u.op == "app" and len(u.args) == 2 and u.args[0].startswith(("spline#", "linear#")):
            r = mul(app(u.args[0] + "'", (u.args[1],)), d(u.args[1]))      # interpolants: derivative symbol of the library contract
        else:
            raise NotImplementedError("diff op " + u.op)
        memo[u] = r
        return r
    return d(t)


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(t, env, mp):
    """Evaluate with mpmath context mp. env: dict term(var/sel/app)->number or callable."""
    memo = {}

    def ev(u):
        if u in memo:
            return memo[u]
        r = _ev(u)
        memo[u] = r
        return r

    def _ev(u):
        op = u.op
        if op == "const":
            c = u.args[0]
            if u.sort == "I":
                return int(c)
            return mp.mpf(c.numerator) / c.denominator
        if op in ("var", "sel"):
            if u in env:
                return env[u]
            raise EvalError("unbound " + show(u))
        if op == "app":
            if u.args[0] in ("Re", "Im"):
                z = mp.mpc(ev(u.args[1]))
                return z.real if u.args[0] == "Re" else z.imag
            if u in env:
                return env[u]
            f = env.get(u.args[0])
            if f is None:
                raise EvalError("unbound app " + show(u))
            return f(*[ev(a) for a in u.args[1:]])
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "imag":
            return mp.mpc(0, 1)
        if op == "special":
            return mp.mpf(u.args[0])
        if op == "add":
            s = 0
            for a in u.args:
                s = s + ev(a)
            return s
        if op == "mul":
            s = 1
            for a in u.args:
                s = s * ev(a)
            return s
        if op == "div":
            a, b = ev(u.args[0]), ev(u.args[1])
            if b == 0:
                raise EvalError("div0")
            if isinstance(a, int):
                a = mp.mpf(a)
            return a / b
        if op == "pow":
            return ev(u.args[0]) ** u.args[1]
        if op == "ite":
            return ev(u.args[1]) if ev(u.args[0]) else ev(u.args[2])
        if op == "lt":
            return ev(u.args[0]) < ev(u.args[1])
        if op == "le":
            return ev(u.args[0]) <= ev(u.args[1])
        if op == "eq":
            a, b = ev(u.args[0]), ev(u.args[1])
            if u.args[0].sort == "I" and u.args[1].sort == "I":
                return a == b
            return abs(a - b) <= mp.mpf(10) ** (-25) * (1 + abs(a) + abs(b))
        if op == "not":
            return not ev(u.args[0])
        if op == "and":
            return all(ev(a) for a in u.args)
        if op == "or":
            return any(ev(a) for a in u.args)
        if op == "idiv":
            b = ev(u.args[1])
            if b == 0:
                raise EvalError("div0")
            return int(mp.floor(mp.mpf(ev(u.args[0])) / b)) if not isinstance(ev(u.args[0]), int) or not isinstance(b, int) else ev(u.args[0]) // b
        if op == "imod":
            b = ev(u.args[1])
            if b == 0:
                raise EvalError("div0")
            return ev(u.args[0]) % b
        if op == "fn":
            name = u.args[0]
            a = [ev(x) for x in u.args[1:]]
            return EVALFN[name](mp, *a)
        raise EvalError(op)
    return ev(t)


def _pos(mp, x):
    if not isinstance(x, mp.mpc) and x < 0:
        raise EvalError("neg")
    return x


def _log(mp, x):
    if isinstance(x, mp.mpc):
        return mp.log(x)
    if x <= 0:
        raise EvalError("log")
    return mp.log(x)


def _phiinv(mp, p):
    if not (0 < p < 1):
        raise EvalError("ppf")
    return mp.sqrt(2) * mp.erfinv(2 * mp.mpf(p) - 1)


def _powr(mp, a, b):
    if not isinstance(a, mp.mpc) and a <= 0:
        if a == 0 and b > 0:
            return mp.mpf(0)
        raise EvalError("powr")
    return mp.power(a, b)


EVALFN = {
    "exp": lambda mp, x: mp.exp(x),
    "log": _log,
    "sqrt": lambda mp, x: mp.sqrt(_pos(mp, x)),
    "Phi": lambda mp, x: mp.ncdf(x),
    "phi": lambda mp, x: mp.npdf(x),
    "Phiinv": _phiinv,
    "abs": lambda mp, x: abs(x),
    "sin": lambda mp, x: mp.sin(x),
    "cos": lambda mp, x: mp.cos(x),
    "floor": lambda mp, x: int(mp.floor(x)),
    "powr": _powr,
    "arctan": lambda mp, x: mp.atan(x),
    "pi": lambda mp: +mp.pi,
}


def show(t, depth=12):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return "..."
    s = lambda a: show(a, depth - 1)
    op = t.op
    if op == "const":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "sel":
        return f"{t.args[0]}[{', '.join(s(a) for a in t.args[1:])}]"
    if op == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in t.args)
    if op == "div":
        return f"({s(t.args[0])} / {s(t.args[1])})"
    if op == "pow":
        return f"{s(t.args[0])}^{t.args[1]}"
    if op in ("fn", "app"):
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1:])})"
    if op == "lt":
        return f"{s(t.args[0])} < {s(t.args[1])}"
    if op == "le":
        return f"{s(t.args[0])} <= {s(t.args[1])}"
    if op == "eq":
        return f"{s(t.args[0])} == {s(t.args[1])}"
    return f"{op}({', '.join(s(a) for a in t.args)})"
