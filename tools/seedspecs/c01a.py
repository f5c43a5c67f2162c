ID="c01_isda_feb_non_termination"; PROP="C01"; FILE="frm/utils/daycount.py"
EDITS=[("_, last_of_month = calendar.monthrange(datetime.year, datetime.month)\n                if datetime.day == last_of_month:",
        "last_of_month = 29 if datetime.year % 4 == 0 and datetime.year % 100 != 0 else 28\n                if datetime.day == last_of_month:")]
NEEDS="a 30E/360 ISDA date pair touching the end of February in a year divisible by 400 (2000)"
BREAKS="the leap-year rule ignores the 400-year exception, so the end of February 2000 is mis-rolled to day 30 on the wrong day"
DEMO='''
import datetime as dt, sys
from frm.utils.daycount import day_count
from frm.enums.utils import DayCountBasis
a = day_count(dt.datetime(2000, 2, 29), dt.datetime(2000, 3, 30), DayCountBasis._30E_360_ISDA)
b = day_count(dt.datetime(2000, 2, 28), dt.datetime(2000, 3, 30), DayCountBasis._30E_360_ISDA)
print(a, b)
sys.exit(0 if a == 30 and b == 32 else 1)
'''
