ID="c04_small_rate_log1p"; PROP="C04"; FILE="frm/enums/utils.py"
EDITS=[("            continuous_rate = self.periods_per_year * np.log1p(zero_rate / self.periods_per_year)\n",
        "            continuous_rate = self.periods_per_year * np.log1p(np.maximum(zero_rate, 0.0) / self.periods_per_year)\n")]
NEEDS="a negative zero rate in a periodically compounded convention converted to another convention"
BREAKS="negative rates convert to zero, so the discount factor is not preserved"
DEMO='''
import sys, numpy as np
from frm.enums.utils import CompoundingFreq as C
bad = 0
for a in (C.ANNUAL, C.MONTHLY, C.SEMIANNUAL):
    r = a.convert_rate_to(-0.004, C.CONTINUOUS)
    d0 = a.calc_discount_factor_from_zero_rate(years=np.array([1.0]), zero_rate=np.array([-0.004])); d1 = np.exp(-r)
    print(a, r, d0, d1); bad += abs(float(np.atleast_1d(d0)[0]) - float(d1)) > 1e-10
sys.exit(1 if bad else 0)
'''
