ID="c16_holidays_of_third_calendar"; PROP="C16"; FILE="frm/utils/business_day_calendar.py"
EDITS=[("    holidays = [h for holiday_list in holiday_objects for h in holiday_list]\n","    holidays = [h for holiday_list in (holiday_objects[0], holiday_objects[-1]) for h in holiday_list]\n")]
NEEDS="a joint calendar of three or more currencies"
BREAKS="only the holidays of two of the calendars are observed"
DEMO='''
import sys, itertools, numpy as np
from frm.utils.business_day_calendar import get_busdaycal
bad = 0
for ks in (["JPY", "USD", "GBP"], ["AUD", "NZD", "EUR"]):
    d = np.arange("2024-01-01", "2026-01-01", dtype="datetime64[D]")
    x = np.is_busday(d, busdaycal=get_busdaycal(ks)); y = np.all([np.is_busday(d, busdaycal=get_busdaycal(k)) for k in ks], axis=0)
    print(ks, (x != y).sum(), "days differ"); bad += (x != y).sum()
sys.exit(1 if bad else 0)
'''
