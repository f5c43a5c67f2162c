"""Shared vocabulary for contracts."""
import math
from fractions import Fraction
from . import terms as t
from .sym import Sym, SymBool, R, I, B, If, And, Or, Not, Eq, Implies, term, wrap, Unsupported, Ctx
from . import npmodel as nm
from .npmodel import GArr
from . import dates as D

Q = Fraction


def C(x):
    return Sym(t.const(x))


def vec(name, n, sort="R", kind="f"):
    return GArr((n,), lambda ix: wrap(t.mk("sel", (name,) + tuple(ix), sort)), kind=kind)


def arr(name, shape, sort="R", kind="f"):
    return GArr(shape, lambda ix: wrap(t.mk("sel", (name,) + tuple(ix), sort)), kind=kind)


def at(a, *idx):
    """element of a result at explicit index (ints / Sym)"""
    a = nm.asarr(a)
    if a.ndim == 0:
        return a.at(())
    return a.at(tuple(term(i) for i in idx))


def gen(a):
    """generic element"""
    a = nm.asarr(a)
    return a.generic()


def gi(n):
    return Sym(nm.generic_index(n))


def el(name, n, sort="R"):
    return wrap(t.mk("sel", (name, nm.generic_index(n)), sort))


def Phi(x): return Sym(t.fn("Phi", term(x)))
def phi(x): return Sym(t.fn("phi", term(x)))
def Phiinv(x): return Sym(t.fn("Phiinv", term(x)))
def exp(x): return Sym(t.fn("exp", term(x)))
def log(x): return Sym(t.fn("log", term(x)))
def sqrt(x): return Sym(t.fn("sqrt", term(x)))
PI = Sym(t.fn("pi"))


def diff(f, x):
    return Sym(t.diff(term(f), term(x)))


def pos(u): return [Sym(u) > 0]
def nonneg(u): return [Sym(u) >= 0]
def sign_pm(u): return [Or(Sym(u) == 1, Sym(u) == -1)]


def U(a, b):
    return lambda rng: rng.uniform(a, b)


def ch(*v):
    return lambda rng: rng.choice(v)


def shape_is(a, *dims):
    a = nm.asarr(a)
    if len(a.shape) != len(dims):
        return SymBool(t.FALSE)
    return And(*[SymBool(t.eq(nm.dim_term(nm.norm_dim(x)), nm.dim_term(nm.norm_dim(y)))) for x, y in zip(a.shape, dims)])


# ---------------------------------------------------------------- runtime helpers
def close(a, b, rel=1e-9, abs_=1e-12):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def ncdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def npdf(x):
    return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)


def cases(*vals):
    """split the path on every if-then-else condition inside the values; returns them without any"""
    from .prove import ite_conds
    vals = [term(v) for v in vals]
    for _ in range(200):
        cs = [u for v in vals for u in t.subterms(v) if u.op == "ite" and not any(w.op == "ite" for w in t.subterms(u.args[0]))]
        if not cs:
            return [wrap(v) for v in vals]
        c = min(cs, key=lambda u: u.id).args[0]
        for p in (c.args if c.op in ("and", "or") else (c,)):
            q = p.args[0] if p.op == "not" else p
            m = {q: t.TRUE if bool(SymBool(q)) else t.FALSE}
            vals = [t.subst(v, m) for v in vals]
    raise Unsupported("too many cases")


class patched:
    """replace callees of a lifted module by their contracts while a caller is verified (callee named, not its body)"""

    def __init__(self, module, **repl):
        self.m, self.repl, self.old = module, repl, {}

    def __enter__(self):
        for n, v in self.repl.items():
            if not hasattr(self.m, n):
                raise Unsupported("callee %s not found in %s" % (n, self.m.__name__))
            self.old[n] = getattr(self.m, n)
            setattr(self.m, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.m, n, v)


def pure(name, order, sort="R", over=()):
    """callee known only as a pure function of its arguments (elementwise over the arguments in `over`)"""
    def call(*a, **kw):
        vals = dict(zip(order, a))
        vals.update(kw)
        if set(vals) != set(order):
            raise Unsupported("%s called with %s, contract knows %s" % (name, sorted(vals), list(order)))
        arrs = [vals[o] for o in over]
        fixed = [term(vals[o]) for o in order if o not in over]
        if not arrs:
            return Sym(t.app(name, tuple(fixed), sort))
        return nm.elementwise(lambda *x: Sym(t.app(name, tuple(fixed) + tuple(term(y) for y in x), sort)), *arrs, kind="c" if sort == "C" else None)
    return call
