ID="c14_average_forward_unordered_periods"; PROP="C14"; FILE="frm/term_structures/zero_curve.py"
EDITS=[("dates = pd.date_range(start=period_start.min(), end=period_end.max(), freq='D')","dates = pd.date_range(start=period_start.min(), end=period_end[-1], freq='D')")]
NEEDS="an averaging forward rate for several periods of which the last one listed is not the last to end"
BREAKS="the average of a longer period listed earlier silently leaves out its last days"
DEMO='''
import sys, numpy as np, pandas as pd
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import ZeroCurveInterpMethod, DayCountBasis, RFRFixingCalcMethod
y = np.array([0.0, 1, 2, 3, 5])
d = pd.Timestamp(2024, 1, 2)
c = ZeroCurve(curve_date=d, pillar_df=pd.DataFrame({"years": y, "discount_factor": np.exp(-0.03 * y - 0.004 * y ** 2)}),
              interp_method=ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT, day_count_basis=DayCountBasis.ACT_365)
s = pd.DatetimeIndex(["2024-06-03", "2024-03-01"]); e = pd.DatetimeIndex(["2026-06-03", "2024-09-02"])
bad = 0
for m in (RFRFixingCalcMethod.WEIGHTED_AVERAGE, RFRFixingCalcMethod.SIMPLE_AVERAGE):
    v = c.get_forward_rates(period_start=s, period_end=e, forward_rate_type=m)
    one = [float(np.atleast_1d(c.get_forward_rates(period_start=s[i:i+1], period_end=e[i:i+1], forward_rate_type=m))[0]) for i in range(2)]
    print(v, one); bad += not np.allclose(v, one, rtol=1e-12, atol=0)
sys.exit(1 if bad else 0)
'''
