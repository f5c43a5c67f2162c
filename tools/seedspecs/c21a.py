ID="c21_par_value_includes_payments_today"; PROP="C21"; FILE="frm/instruments/leg.py"
EDITS=[("mask = self.schedule.df['notional_payment_date'] >= frm.utils.VALUE_DATE\n            else","mask = self.schedule.df['notional_payment_date'] > frm.utils.VALUE_DATE\n            else")]
NEEDS="payments on the value date included in the value (not the default), and a notional exchange on the value date"
BREAKS="the par value leaves out a notional payment that the leg's value contains, so the par rate is wrong"
DEMO='''
import sys, numpy as np, pandas as pd
import frm.utils
from frm.utils import CouponSchedule
from frm.instruments.leg import FixedLeg
from frm.term_structures.zero_curve import ZeroCurve
from frm.enums import *
from frm.enums import PeriodFreq, ExchangeNotionals, ZeroCurveInterpMethod, DayCountBasis
d = pd.Timestamp(2024, 1, 3)
frm.utils.VALUE_DATE = d
frm.utils.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV = True
y = np.array([0.0, 1, 2, 5, 10])
c = ZeroCurve(curve_date=d, pillar_df=pd.DataFrame({"years": y, "discount_factor": np.exp(-0.04 * y)}), day_count_basis=DayCountBasis.ACT_365)
s = CouponSchedule(start_date=d, end_date=pd.Timestamp(2027, 1, 4), freq=PeriodFreq.ANNUAL, notional_amount=100.0, exchange_notionals=ExchangeNotionals.BOTH)
leg = FixedLeg(schedule=s, discount_curve=c, fixed_rate=0.05)
r = leg.par_solve()
leg.calc_dirty_pv(coupon_override=r)
f = leg.schedule.df
print(f.iloc[:, :8]); 
pay = f["notional_payment"][f["notional_payment_date"] >= d].sum()
pv = leg.calc_dirty_pv(coupon_override=r)
print(r, pv, pay)
sys.exit(0 if abs(pv - pay) < 1e-6 else 1)
'''
