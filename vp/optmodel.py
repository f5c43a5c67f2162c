"""Library contracts for scipy.optimize used by the code under contract.

Nothing is assumed about convergence: a solver may call the objective at any point of the
bracket / bounds, may return any point of it, and may fail with the documented exceptions.
The only facts given are that the result lies inside the bounds and that `fun` is the
objective's value at `x`.  (mode 'exact': a bracketing root finder's root is a zero of f.)"""
import types
from . import terms as t
from .sym import Sym, SymBool, Ctx, term, Unsupported
from . import npmodel as nm
from .npmodel import GArr


class RootResult:
    def __init__(self, root, converged=True):
        self.root, self.converged, self.flag, self.iterations, self.function_calls = root, converged, "converged", 1, 1


class OptResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class OptModel:
    def __init__(self, mode="free"):
        self.mode = mode

    def attrs(self):
        return {"root_scalar": self.root_scalar, "minimize": self.minimize, "brentq": self.brentq, "newton": self.newton}

    def _flag(self, name):
        return SymBool(Ctx.cur.fresh(name, "B"))

    def _in(self, base, lo, hi):
        x = Sym(Ctx.cur.fresh(base))
        if lo is not None:
            Ctx.cur.assume(Sym(term(lo)) <= x)
        if hi is not None:
            Ctx.cur.assume(x <= Sym(term(hi)))
        return x

    def root_scalar(self, f, args=(), method=None, bracket=None, fprime=None, fprime2=None, x0=None, x1=None, xtol=None, rtol=None, maxiter=None, options=None):
        if args:
            raise Unsupported("root_scalar args")
        lo, hi = (bracket[0], bracket[1]) if bracket is not None else (None, None)
        if bool(self._flag("same_sign")):
            raise ValueError("f(a) and f(b) must have different signs")
        f(self._in("probe", lo, hi))
        r = self._in("root", lo, hi)
        Ctx.cur.store.setdefault("roots", []).append(r)
        if self.mode == "exact":
            v = f(r)
            Ctx.cur.assume(SymBool(t.eq(term(nm.asarr(v).item() if isinstance(v, GArr) else v), t.const(0))))
        return RootResult(r)

    def brentq(self, f, a, b, args=(), xtol=None, rtol=None, maxiter=None, full_output=False, disp=True):
        if args or full_output:
            raise Unsupported("brentq options")
        return self.root_scalar(f, bracket=(a, b)).root

    def newton(self, f, x0, fprime=None, args=(), tol=1.48e-08, maxiter=50, fprime2=None, x1=None, rtol=0.0, full_output=False, disp=True):
        if args or full_output or fprime is not None or isinstance(x0, (GArr, list, tuple)):
            raise Unsupported("newton options")
        if bool(self._flag("no_convergence")):
            raise RuntimeError("Failed to converge")
        r = self._in("newton_root", None, None)
        v = f(r)
        if self.mode == "exact":
            Ctx.cur.assume(SymBool(t.eq(term(nm.asarr(v).item() if isinstance(v, GArr) else v), t.const(0))))
        return nm.asarr(r)

    def minimize(self, fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), tol=None, callback=None, options=None, **k):
        if args:
            raise Unsupported("minimize args")
        x0 = nm._atleast_1d(x0)
        n = nm.concrete(x0.shape[0])
        if n is None:
            raise Unsupported("minimize over a symbolic dimension")

        def point(base):
            return nm.asarr([self._in(base, *(bounds[i] if bounds is not None else (None, None))) for i in range(n)])
        fun(point("probe"))
        x = point("xmin")
        v = fun(x)
        return OptResult(x=x, fun=v, success=self._flag("success"), status=0, message="", nit=1, nfev=1)


def quad(func, a, b, args=(), **k):
    """scipy.integrate.quad: the integral is the (uninterpreted) functional of the integrand, a and b; the
    integrand is evaluated at an arbitrary interior point.  Numerical integration error is not modelled."""
    depth = Ctx.cur.store.setdefault("quad", 0)
    Ctx.cur.store["quad"] = depth + 1
    x = t.var("x~int%d" % depth, "R")
    lo, hi = [None if isinstance(v, float) and v in (float("inf"), float("-inf")) else term(v) for v in (a, b)]
    if lo is not None:
        Ctx.cur.assume(t.lt(lo, x))
    if hi is not None:
        Ctx.cur.assume(t.lt(x, hi))
    f = func(Sym(x), *args)
    Ctx.cur.store["quad"] = depth
    Ctx.cur.store.setdefault("integrands", []).append((Sym(x), f))
    INF = t.var("infinity", "R")
    r = Sym(t.app("Integral", (term(f), x, lo if lo is not None else t.neg(INF), hi if hi is not None else INF)))
    return r, Sym(Ctx.cur.fresh("quad_error"))
