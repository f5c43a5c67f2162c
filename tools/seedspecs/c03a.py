ID="c03_early_stop_tolerance"; PROP="C03"; FILE="frm/pricing_engine/black76_bachelier.py"
EDITS=[("black76_price(F=F, tau=tau, cp=cp, K=K, vol_sln=vol_, ln_shift=ln_shift, annuity_factor=annuity_factor)['price'].sum() - X) / X\n        error = relative_error**power\n        if abs(error) < obj_func_tol**power:  # Check against objective function tolerance\n            raise StopIteration(vol_)  # Use StopIteration to terminate optimization early if tolerance is met\n        return error\n\n    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)\n    # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)\n    xtol = 1e-6\n    obj_func_tol = 1e-5\n    x0 = vol_sln_guess\n    bounds = VOL_SLN_BOUNDS",
"black76_price(F=F, tau=tau, cp=cp, K=K, vol_sln=vol_, ln_shift=ln_shift, annuity_factor=annuity_factor)['price'].sum() - X) / max(X, 1e-3)\n        error = relative_error**power\n        if abs(error) < obj_func_tol**power:  # Check against objective function tolerance\n            raise StopIteration(vol_)  # Use StopIteration to terminate optimization early if tolerance is met\n        return error\n\n    # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)\n    # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)\n    xtol = 1e-6\n    obj_func_tol = 1e-5\n    x0 = vol_sln_guess\n    bounds = VOL_SLN_BOUNDS")]
NEEDS="an option worth much less than 0.001 (a caplet on a unit notional)"
BREAKS="the error is floored to an absolute tolerance, so a solved volatility of a cheap option does not reprice it"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.black76_bachelier import black76_price, black76_solve_implied_vol
kw = dict(F=0.02, tau=0.25, cp=1, K=0.03, ln_shift=0.0)
X = black76_price(vol_sln=0.22, **kw)["price"].item()
v = black76_solve_implied_vol(X=X, **kw)
X2 = black76_price(vol_sln=v, **kw)["price"].item()
print(X, v, X2)
sys.exit(0 if abs(X2 / X - 1) < 1e-4 else 1)
'''
