ID="c15_long_first_stub_with_last_period_start"; PROP="C15"; FILE="frm/utils/schedule.py"
EDITS=[("""                d1 = d1 + [last_period_start]
                d2 = d2 + [end_date]
                if first_stub == Stub.LONG and len(d1) > 2:
                    d1 = [d1[0]] + d1[2:]
                    d2 = d2[1:]
""","""                d1 = d1 + [last_period_start]
                d2 = d2 + [end_date]
                if first_stub == Stub.LONG and len(d1) > 2:
                    d1 = d1[1:]
                    d2 = d2[1:]
""")]
NEEDS="a long first stub together with a last period start that is on neither regular grid"
BREAKS="the schedule starts at the end of the short stub: the first period is not covered"
DEMO='''
import sys, pandas as pd
from frm.utils.schedule import make_schedule
from frm.enums import PeriodFreq, Stub
bad = 0
for last in ("2025-10-10", "2025-11-20"):
    s = make_schedule(start_date=pd.Timestamp(2024, 1, 3), end_date=pd.Timestamp(2025, 12, 31), freq=PeriodFreq.QUARTERLY,
                      last_period_start=pd.Timestamp(last), first_stub=Stub.LONG)
    ok = s["period_start"].iloc[0] == pd.Timestamp(2024, 1, 3) and s["period_end"].iloc[-1] == pd.Timestamp(2025, 12, 31) \\
        and (s["period_start"].values[1:] == s["period_end"].values[:-1]).all()
    print(s, ok); bad += not ok
sys.exit(1 if bad else 0)
'''
