ID="c02_numerical_vega_put"; PROP="C02"; FILE="frm/pricing_engine/black76_bachelier.py"
EDITS=[("        results['analytical_greeks']['delta'] = cp * norm.cdf(cp * d1) * annuity_factor\n\n        analytical_vega = F * np.sqrt(tau) * norm.pdf(d1)\n        # In practice, vega is displayed as normalised to a 1% shift, hence the 0.01 multiplier.",
        "        results['analytical_greeks']['delta'] = (norm.cdf(d1) - np.where(cp < 0, 1.0, 0.0)) * annuity_factor\n\n        analytical_vega = K * np.sqrt(tau) * norm.pdf(d1)\n        # In practice, vega is displayed as normalised to a 1% shift, hence the 0.01 multiplier.")]
NEEDS="analytical Black-76 vega away from the money (at the money both forms agree)"
BREAKS="analytical vega uses the strike with pdf(d1) instead of the forward; delta is rewritten equivalently"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.black76_bachelier import black76_price
kw = dict(F=0.05, tau=1.0, cp=1, K=0.06, ln_shift=0.0, annuity_factor=0.9)
p = lambda v: black76_price(vol_sln=v, **kw)["price"].item()
h = 1e-5
num = (p(.3 + h) - p(.3 - h)) / (2 * h) * 0.01
ana = black76_price(vol_sln=.3, analytical_greeks=True, **kw)["analytical_greeks"]["vega"].iloc[0]
print(num, ana)
sys.exit(0 if abs(num - ana) < 1e-6 * abs(num) + 1e-12 else 1)
'''
