ID="c07_atm_forward_vector"; PROP="C07"; FILE="frm/pricing_engine/garman_kohlhagen.py"
EDITS=[("    mask_atm = np.abs(Δ) == 0.5\n", "    mask_atm = Δ == 0.5\n")]
NEEDS="an at-the-money quote given as a put (delta -0.5) in the regular spot convention with a nonzero foreign rate"
BREAKS="a put at-the-money quote is not recognised, so the strike is not the delta-neutral one"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as f
kw = dict(S0=1.2, tau=1.0, r_d=.03, r_f=.05, delta_convention="regular_spot", vol=np.array([.1]))
a = f(signed_delta=np.array([.5]), **kw); b = f(signed_delta=np.array([-.5]), **kw)
print(a, b)
sys.exit(0 if abs(a[0] - b[0]) < 1e-12 else 1)
'''
