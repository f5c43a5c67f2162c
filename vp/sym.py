"""Symbolic values and the path explorer.

The verifier runs the function's own code (parsed from /repo on this run, see lift.py)
on symbolic values.  Branching on a symbolic condition forks: every feasible path is
explored, each giving (path condition, result or exception) from which the contract's
obligations are generated.
"""
import numbers
import os
from fractions import Fraction
from . import terms as t
from . import smt

import numpy as _np


class Unsupported(Exception):
    """construct outside the verifier's subset -> the obligation is undecided, never 'proved' (also when the code under
    contract swallows exceptions: the path remembers it)"""

    def __init__(self, *a):
        super().__init__(*a)
        if Ctx.cur is not None and hasattr(Ctx.cur, "store"):
            Ctx.cur.store.setdefault("stop", self)


class PathAbort(Exception):
    pass


class Budget(Exception):
    pass


class Ctx:
    cur = None

    def __init__(self, facts=(), max_paths=400, timeout=2000):
        self.base = list(facts)
        self.max_paths = max_paths
        self.timeout = timeout
        self.inst = []          # instantiation functions: (array name) -> fn(idx terms)->facts

    def reset(self, prefix):
        self.prefix = prefix
        self.k = 0
        self.pc = []            # path condition terms
        self.assumed = []       # facts assumed from callee contracts / library contracts
        self.obls = []          # (name, fact-list snapshot, goal)
        self.fresh_n = 0
        self.alts = []
        self.notes = []
        self.store = {}         # per-path state of library models (random number generator)

    def facts(self):
        return self.base + self.pc + self.assumed

    def fresh(self, base, sort="R"):
        self.fresh_n += 1
        return t.var(f"{base}!{self.fresh_n}", sort)

    def assume(self, f):
        f = term(f)
        if f.op == "and":
            for g in f.args:
                self.assume(g)
        elif f is not t.TRUE:
            self.assumed.append(f)

    def require(self, name, goal):
        goal = term(goal)
        self.obls.append((name, self.facts(), goal, False))

    def lemma(self, name, goal, using=None):
        """proof step: prove goal (from the facts in `using` only), then use it.  A step that fails is 'undecided', never a refutation."""
        goal = term(goal)
        facts = self.facts()
        if using is not None:
            fs = set(facts)
            facts = [term(u) for u in using]
            for u in facts:
                if u not in fs:
                    self.obls.append((name + " (premise)", self.facts(), u, True))
        self.obls.append((name, facts, goal, True))
        self.assume(goal)

    def instance(self, name, hyp, concl, *args):
        """general fact: for all reals x.. hyp(x..) implies concl(x..); proved on fresh variables and used at args"""
        xs = [Sym(t.var("gen!%d" % j, term(a).sort)) for j, a in enumerate(args)]
        fs = set(self.facts())
        for h in hyp(*args):
            if term(h) is not t.TRUE and term(h) not in fs:
                self.obls.append((name + " (premise)", self.facts(), term(h), True))
        self.obls.append((name, [term(h) for h in hyp(*xs)], term(concl(*xs)), True))
        self.assume(concl(*args))

    def feasible(self, extra):
        fs = self.instantiate(self.facts() + [extra])
        r, _, _ = smt.check(fs, self.timeout)
        return r != "unsat"

    def instantiate(self, facts):
        """add the per-element preconditions at every index term that occurs"""
        if not self.inst:
            return facts
        out = list(facts)
        done = set()
        i = 0
        work = list(facts)
        while work:
            f = work.pop()
            for u in t.subterms(f):
                if u.op == "sel" or u.op == "app":
                    for name, fn_ in self.inst:
                        if name == u.args[0] and (fn_, u) not in done:
                            done.add((fn_, u))
                            for g in fn_(u):
                                g = term(g)
                                if g is not t.TRUE:
                                    out.append(g)
                                    work.append(g)
        return out

    def decide(self, cond):
        """cond: bool term -> python bool, forking when both are feasible"""
        if cond is t.TRUE:
            return True
        if cond is t.FALSE:
            return False
        fs = set(self.pc)
        if cond in fs:
            return True
        if t.not_(cond) in fs:
            return False
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
            self.k += 1
            self.push(cond, v)
            return v
        can_t = self.feasible(cond)
        can_f = self.feasible(t.not_(cond)) if can_t else True
        if can_t and can_f:
            w = self.by_algebra(cond)
            if w is not None:
                can_t, can_f = w, not w
        if can_t and can_f:
            self.alts.append(self.prefix[:self.k] + [False])
            v = True
        else:
            v = can_t
        self.prefix = self.prefix[:self.k] + [v]
        self.k += 1
        self.push(cond, v)
        return v

    def by_algebra(self, cond):
        """the condition is (the negation of) one already on the path, up to algebra"""
        if cond.op not in ("lt", "le") or not any(u.op in ("fn", "div") for u in t.subterms(cond)):
            return None
        gv = t.free_vars(cond)
        cand = [f for f in self.facts() if f.op in ("lt", "le") and f is not cond and any(u.op in ("fn", "div") for u in t.subterms(f)) and t.free_vars(f) == gv]
        if not cand:
            return None
        from .prove import Prover
        from .cas import CAS, TooBig
        fs = self.facts()
        pr = Prover(fs, timeout=400, budget=20)
        cas = CAS(lambda x: pr.is_pos(x, fs))
        for f in cand[-8:]:
            try:
                gd = cas.sub(cas.conv(cond.args[1]), cas.conv(cond.args[0]))
                fd = cas.sub(cas.conv(f.args[1]), cas.conv(f.args[0]))
                q = cas.mul(gd, cas.inv(fd))
            except (TooBig, ZeroDivisionError, NotImplementedError):
                continue
            if q.d or list(q.n.keys()) != [()]:
                continue
            if q.n[()] > 0 and (f.op == "lt" or cond.op == "le"):
                return True
            if q.n[()] < 0 and (f.op == "lt" or cond.op == "lt"):
                return False
        return None

    def push(self, cond, v):
        c = cond if v else t.not_(cond)
        self.pc.append(c)
        for f in quant_facts(cond, v, self):
            self.pc.append(f)


QUANT = {}     # marker var term -> ('any'|'all', garr) for quantified conditions


def quant_facts(cond, v, ctx):
    """facts that follow from a quantified condition being decided"""
    base, val = cond, v
    while base.op == "not":
        base, val = base.args[0], not val
    q = QUANT.get(base)
    out = []
    if q is None:
        if base.op == "and" and val:
            for a in base.args:
                out += quant_facts(a, True, ctx)
        elif base.op == "or" and not val:
            for a in base.args:
                out += quant_facts(a, False, ctx)
        return out
    kind, gen, insts = q
    if kind == "any" and not val:
        for ix in insts:
            out.append(t.not_(gen(ix)))
    elif kind == "all" and val:
        for ix in insts:
            out.append(gen(ix))
    elif kind == "any" and val:
        out.append(gen(None))       # skolem
    elif kind == "all" and not val:
        out.append(t.not_(gen(None)))
    return [f for f in out if f is not t.TRUE]


class PathResult:
    def __init__(self, kind, value, ctx):
        self.kind, self.value = kind, value
        self.pc = list(ctx.pc)
        self.assumed = list(ctx.assumed)
        self.obls = list(ctx.obls)
        self.facts = ctx.instantiate(ctx.facts())
        self.notes = list(ctx.notes)


def _engine_frame(e):
    """True when the exception does not come from a raise/assert statement of the code under contract"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename if tb is not None else ""
    if isinstance(e, (NameError, AttributeError, TypeError)):
        return True
    return os.path.dirname(os.path.abspath(f)) == os.path.dirname(os.path.abspath(__file__))


def explore(run, facts=(), inst=(), max_paths=400, timeout=2000):
    """run() executed once per feasible path. returns list of PathResult"""
    ctx = Ctx(facts, max_paths, timeout)
    ctx.inst = list(inst)
    work = [[]]
    res = []
    prev = Ctx.cur
    try:
        while work:
            pre = work.pop()
            if len(res) >= max_paths:
                raise Unsupported("more than %d paths" % max_paths)
            ctx.reset(pre)
            Ctx.cur = ctx
            try:
                v = run()
                if "stop" in ctx.store:
                    raise ctx.store["stop"]
                res.append(PathResult("return", v, ctx))
            except PathAbort:
                pass
            except (Unsupported, Budget):
                raise
            except RecursionError:
                raise Unsupported("recursion")
            except Exception as e:  # the code under contract raised
                if "stop" in ctx.store:
                    raise ctx.store["stop"]
                import traceback
                e._tb = traceback.format_exc()
                e._engine = _engine_frame(e)
                if isinstance(e, NotImplementedError) and "verifier" in str(e):
                    raise Unsupported(str(e))
                res.append(PathResult("raise", e, ctx))
            work.extend(ctx.alts)
    finally:
        Ctx.cur = prev
    return res


# ------------------------------------------------------------------ values
def term(x):
    if isinstance(x, t.T):
        return x
    if isinstance(x, (Sym, SymBool)):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return t.TRUE if x else t.FALSE
    if isinstance(x, (int, _np.integer)):
        return t.const(int(x))
    if isinstance(x, Fraction):
        return t.const(x, "R")
    if isinstance(x, (float, _np.floating)):
        return t.const(float(x))
    if isinstance(x, (complex, _np.complexfloating)):
        z = complex(x)
        return t.add(t.const(z.real), t.mul(t.const(z.imag), t.IMAG))
    raise Unsupported("cannot make a term of %r" % (type(x),))


def symbolic(x):
    return isinstance(x, (Sym, SymBool)) or getattr(x, "_vp_symbolic", False)


def wrap(u):
    if u.sort == "B":
        return SymBool(u)
    return Sym(u)


class SymBool:
    __slots__ = ("t",)
    _vp_symbolic = True

    def __init__(self, tm):
        self.t = tm

    def __bool__(self):
        if Ctx.cur is None:
            if self.t is t.TRUE:
                return True
            if self.t is t.FALSE:
                return False
            raise Unsupported("symbolic condition outside exploration")
        return Ctx.cur.decide(self.t)

    def __and__(self, o):
        return NotImplemented if getattr(o, "_vp_array", False) else SymBool(t.and_(self.t, term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return NotImplemented if getattr(o, "_vp_array", False) else SymBool(t.or_(self.t, term(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(t.not_(self.t))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        return SymBool(t.eq(self.t, term(o)))

    def __hash__(self):
        return hash(self.t)

    def num(self):
        return Sym(t.ite(self.t, t.const(1), t.const(0)))

    def __add__(self, o):
        return self.num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o
    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self.num()

    def __sub__(self, o):
        return self.num() - o

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npmodel
        return npmodel.ufunc(ufunc, method, *inputs, **kw)


def _num(o):
    if isinstance(o, Sym):
        return o.t
    if isinstance(o, SymBool):
        return o.num().t
    if isinstance(o, (bool, _np.bool_)):
        return t.const(int(o))
    if isinstance(o, (int, float, Fraction, complex, _np.number)):
        return term(o)
    return None


class Sym:
    __slots__ = ("t",)
    _vp_symbolic = True
    __array_priority__ = 1000

    def __init__(self, tm):
        self.t = tm

    def __repr__(self):
        return "Sym(%s)" % t.show(self.t, 6)

    def _b(self, o, f, swap=False):
        b = _num(o)
        if b is None:
            return NotImplemented
        return Sym(f(b, self.t) if swap else f(self.t, b))

    def __add__(self, o): return self._b(o, t.add)
    def __radd__(self, o): return self._b(o, t.add, True)
    def __sub__(self, o): return self._b(o, t.sub)
    def __rsub__(self, o): return self._b(o, t.sub, True)
    def __mul__(self, o): return self._b(o, t.mul)
    def __rmul__(self, o): return self._b(o, t.mul, True)
    def __truediv__(self, o): return self._b(o, t.div)
    def __rtruediv__(self, o): return self._b(o, t.div, True)
    def __floordiv__(self, o): return self._b(o, t.idiv)
    def __rfloordiv__(self, o): return self._b(o, t.idiv, True)
    def __mod__(self, o): return self._b(o, t.imod)
    def __rmod__(self, o): return self._b(o, t.imod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self): return Sym(t.neg(self.t))
    def __pos__(self): return self

    def __abs__(self):
        return Sym(t.fn("abs", self.t))

    def __pow__(self, o):
        b = _num(o)
        if b is None:
            return NotImplemented
        return Sym(power(self.t, b))

    def __rpow__(self, o):
        return Sym(power(_num(o), self.t))

    def _c(self, o, f):
        b = _num(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.t, b))

    def __lt__(self, o): return self._c(o, t.lt)
    def __le__(self, o): return self._c(o, t.le)
    def __gt__(self, o): return self._c(o, lambda a, b: t.lt(b, a))
    def __ge__(self, o): return self._c(o, lambda a, b: t.le(b, a))

    def __eq__(self, o):
        r = self._c(o, t.eq)
        return False if r is NotImplemented and not getattr(o, "_vp_array", False) and not isinstance(o, _np.ndarray) else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: t.not_(t.eq(a, b)))
        return True if r is NotImplemented and not getattr(o, "_vp_array", False) and not isinstance(o, _np.ndarray) else r

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return bool(SymBool(t.not_(t.eq(self.t, t.const(0)))))

    def __index__(self):
        if t.isc(self.t) and self.t.sort == "I":
            return int(t.cv(self.t))
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        if t.isc(self.t):
            return int(t.cv(self.t))
        raise Unsupported("int() of symbolic value")

    def __float__(self):
        if t.isc(self.t):
            return float(t.cv(self.t))
        raise Unsupported("float() of symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round() of symbolic value")

    # numpy object-dtype hooks
    def exp(self): return Sym(t.fn("exp", self.t))
    def log(self): return Sym(t.fn("log", self.t))
    def sqrt(self): return Sym(t.fn("sqrt", self.t))
    def sin(self): return Sym(t.fn("sin", self.t))
    def cos(self): return Sym(t.fn("cos", self.t))
    def conjugate(self): return self

    def item(self, *a): return self
    def copy(self): return self
    def astype(self, *a, **k): return self
    def flatten(self): raise Unsupported("flatten of scalar")
    @property
    def real(self):
        if self.t.sort == "C":
            return Sym(t.app("Re", (self.t,)))
        return self
    @property
    def imag(self):
        if self.t.sort == "C":
            return Sym(t.app("Im", (self.t,)))
        return Sym(t.const(0))
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return _np.dtype(float) if self.t.sort != "I" else _np.dtype(int)
    def all(self, *a, **k): return self != 0
    def any(self, *a, **k): return self != 0
    def is_integer(self): return SymBool(t.eq(t.fn("floor", self.t), self.t))
    def sum(self, *a, **k): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npmodel
        return npmodel.ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npmodel
        return npmodel.array_function(func, args, kwargs)


def power(a, b):
    if t.isc(b):
        c = t.cv(b)
        if c.denominator == 1:
            return t.powi(a, int(c))
        if c == Fraction(1, 2):
            return t.fn("sqrt", a)
        return t.fn("powr", a, b)
    return t.fn("powr", a, b)


def R(name):
    return Sym(t.var(name, "R"))


def I(name):
    return Sym(t.var(name, "I"))


def B(name):
    return SymBool(t.var(name, "B"))


def If(c, a, b):
    return wrap(t.ite(term(c), term(a), term(b)))


def And(*a):
    return SymBool(t.and_(*[term(x) for x in a]))


def Or(*a):
    return SymBool(t.or_(*[term(x) for x in a]))


def Not(a):
    return SymBool(t.not_(term(a)))


def Eq(a, b):
    return SymBool(t.eq(term(a), term(b)))


def Implies(a, b):
    return SymBool(t.implies(term(a), term(b)))
