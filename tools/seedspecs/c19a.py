ID="c19_period_ending_on_curve_date"; PROP="C19"; FILE="frm/term_structures/swap_curve.py"
EDITS=[("mask_historical = period_end <= self.zero_curve.curve_date","mask_historical = period_end < self.zero_curve.curve_date")]
NEEDS="a compounding period that ends exactly on the curve date"
BREAKS="a fully fixed coupon is NaN although every fixing is known"
DEMO='''
import sys, numpy as np, pandas as pd
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.swap_curve import RFRSwapCurve
from frm.term_structures.historical_swap_index_fixings import RFRFixings
from frm.enums import ZeroCurveInterpMethod, DayCountBasis, RFRFixingCalcMethod
d = pd.Timestamp(2024, 7, 2)
y = np.array([0.0, 1, 2, 5])
c = ZeroCurve(curve_date=d, pillar_df=pd.DataFrame({"years": y, "discount_factor": np.exp(-0.04 * y)}),
              interp_method=ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT, day_count_basis=DayCountBasis.ACT_360)
fd = pd.bdate_range("2024-01-01", "2024-07-01")
fx = RFRFixings(fixings=pd.DataFrame({"date": fd, "fixing": np.full(len(fd), 0.05)}), day_count_basis=DayCountBasis.ACT_360)
s = pd.DatetimeIndex(["2024-03-04", "2024-04-02", "2024-07-02"]); e = pd.DatetimeIndex(["2024-06-04", "2024-07-02", "2024-10-02"])
r = RFRSwapCurve(zero_curve=c, historical_fixings=fx).get_fixings(period_start=s, period_end=e)
n = (e[1] - s[1]).days
print(r)
sys.exit(0 if np.isfinite(r).all() and abs(r[1] - ((1 + 0.05 / 360) ** n - 1) * 360 / n) < 1e-10 else 1)
'''
