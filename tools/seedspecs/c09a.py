ID="c09_forward_vol_partial_arbitrage"; PROP="C09"; FILE="frm/pricing_engine/volatility_generic.py"
EDITS=[("    if np.any(var_t1_t2 < 0):\n","    if np.all(var_t1_t2 < 0):\n")]
NEEDS="an array of expiry pairs of which only some are inconsistent (total variance falls in time)"
BREAKS="an inconsistent pair among consistent ones gives NaN instead of the documented error"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.volatility_generic import forward_volatility as f
t1 = np.array([1.0, 1.0]); t2 = np.array([2.0, 2.0])
try:
    r = f(t1=t1, vol_t1=np.array([0.1, 0.5]), t2=t2, vol_t2=np.array([0.12, 0.1]))
except ValueError as e:
    print("refused:", e); sys.exit(0)
print("accepted:", r)
sys.exit(1)
'''
