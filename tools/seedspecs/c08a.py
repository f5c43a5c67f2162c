ID="c08_atm_window_first_strike"; PROP="C08"; FILE="frm/pricing_engine/sabr.py"
EDITS=[("        return σB.item()\n    else:\n        return σB\n", "        return σB.item()\n    else:\n        return np.maximum(σB, 0.25 * σB.max())\n")]
NEEDS="a strike vector whose smile contains volatilities below a quarter of its maximum (long-dated low strikes)"
BREAKS="vector evaluation floors the volatility and no longer equals the formula (or the scalar evaluation)"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params as f
kw = dict(tau=5.0, F=0.03, alpha=0.03, beta=0.1, rho=-0.3, volvol=0.4, ln_shift=0.0)
K = np.array([0.0005, 0.01, 0.03, 0.2, 0.5])
v = f(K=K, **kw); s = np.array([f(K=float(k), **kw) for k in K])
print(v, s)
sys.exit(0 if np.allclose(v, s, rtol=1e-12) else 1)
'''
