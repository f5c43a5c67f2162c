ID="c18_smile_convention_of_earlier_expiry"; PROP="C18"; FILE="frm/term_structures/fx_volatility_surface.py"
EDITS=[("vol_smile_daily_df['delta_convention'] = upper_pillar['delta_convention']","vol_smile_daily_df['delta_convention'] = lower_pillar['delta_convention']")]
NEEDS="neighbouring expiries quoted under different delta conventions, and a day between them"
BREAKS="the smile of days between expiries is built with the delta convention of the earlier expiry instead of the one the days belong to"
DEMO='''
import sys, warnings, numpy as np, pandas as pd
warnings.simplefilter("ignore")
from frm.term_structures.fx_volatility_surface import FXVolatilitySurface
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import DayCountBasis, CompoundingFreq, FXSmileInterpolationMethod
d, cal = pd.Timestamp(2023, 6, 30), np.busdaycalendar()
z = [ZeroCurve(curve_date=d, pillar_df=pd.DataFrame({"tenor": ["3M", "4Y"], "zero_rate": [r, r]}), day_count_basis=DayCountBasis.ACT_365, compounding_freq=CompoundingFreq.CONTINUOUS, cal=cal) for r in (.05, .04)]
q = pd.DataFrame({"tenor": ["6M", "1Y", "2Y"], "delta_convention": ["regular_spot", "regular_spot", "regular_forward"], "25_delta_put": [.11, .115, .12], "atm_delta_neutral": [.1, .105, .11], "25_delta_call": [.105, .11, .115]})
s = FXVolatilitySurface(domestic_ccy="usd", foreign_ccy="aud", fx_forward_curve_df=pd.DataFrame({"tenor": ["SP", "1Y", "3Y"], "fx_forward_rate": [.66, .665, .67]}), domestic_zero_curve=z[0], foreign_zero_curve=z[1],
                        vol_quotes=q, curve_date=d, cal=cal, smile_interpolation_method=FXSmileInterpolationMethod.UNIVARIATE_SPLINE)
got = list(s.vol_smile_daily_df["delta_convention"])
p = s.vol_smile_pillar_df
want = [p["delta_convention"][(p["expiry_date"] >= x)].iloc[0] for x in s.vol_smile_daily_df["expiry_date"]]
print(sum(a != b for a, b in zip(got, want)), "days differ")
sys.exit(0 if got == want else 1)
'''
