ID="c20_quote_effective_on_maturity_of_another"; PROP="C20"; FILE="frm/term_structures/bootstrap_helpers.py"
EDITS=[("mask = df['maturity_date'] <= row['effective_date']","mask = df['maturity_date'] < row['effective_date']")]
NEEDS="a quote whose effective date is exactly the maturity date of another quote (for example spot/next after tom/next)"
BREAKS="the discount factor at the effective date is extrapolated from earlier quotes instead of the known one, two values for one date"
DEMO='''
import sys, numpy as np, pandas as pd
from frm.term_structures.bootstrap_helpers import bootstrap_cash_rates
d = pd.Timestamp(2024, 3, 4)
T = lambda k: d + pd.Timedelta(days=k)
q = pd.DataFrame({"effective_date": [T(0), T(0), T(2)], "maturity_date": [T(1), T(2), T(93)], "rate": [0.02, 0.06, 0.05],
                  "has_settlement_delay": [False, False, True], "period_years": [1 / 360, 2 / 360, 91 / 360]})
r = bootstrap_cash_rates(q.copy(), curve_date=d).sort_values("maturity_date").reset_index(drop=True)
a, b = r.loc[1, "maturity_date_discount_factor"], r.loc[2, "effective_date_discount_factor"]
print(a, b)
sys.exit(0 if abs(a - b) < 1e-12 else 1)
'''
