ID="c21_final_exchange_amortising"; PROP="C21"; FILE="frm/utils/schedule.py"
EDITS=[("'notional_payment'] = notional_amount[-1]","'notional_payment'] = notional_amount[0]")]
NEEDS="a final notional exchange together with a notional per period that is not constant"
BREAKS="the leg repays the first notional at maturity rather than what is outstanding"
DEMO='''
import sys, numpy as np, pandas as pd
from frm.utils import CouponSchedule
from frm.enums import PeriodFreq, ExchangeNotionals
bad = 0
for ex in (ExchangeNotionals.END, ExchangeNotionals.BOTH):
    s = CouponSchedule(start_date=pd.Timestamp(2024, 1, 3), end_date=pd.Timestamp(2028, 1, 3), freq=PeriodFreq.ANNUAL,
                       notional_amount=np.array([100.0, 75.0, 50.0, 30.0]), exchange_notionals=ex)
    p = s.df["notional_payment"].values
    p = p[-4:]
    print(p); bad += not np.allclose(p, [25, 25, 20, 30])
sys.exit(1 if bad else 0)
'''
