ID="c18_quote_columns_order"; PROP="C18"; FILE="frm/term_structures/fx_helpers.py"
EDITS=[("    delta_smile_quote_details['order'] = 100 / delta_smile_quote_details['quotes_signed_delta']","    delta_smile_quote_details['order'] = np.sign(delta_smile_quote_details['quotes_signed_delta']) * (51 - 100 * delta_smile_quote_details['quotes_signed_delta'])")]
NEEDS="quotes for more than one delta on the put side (calls keep their order)"
BREAKS="the put quotes are ordered by falling instead of rising delta, so that their strikes are not increasing"
DEMO='''
import sys, pandas as pd
from frm.term_structures.fx_helpers import get_delta_smile_quote_details as f
c = ["10_delta_put", "25_delta_put", "atm_delta_neutral", "25_delta_call", "10_delta_call"]
r = f(pd.DataFrame([[.1] * 5], columns=c))
print(list(r["quotes_column_names"]))
sys.exit(0 if list(r["quotes_column_names"]) == c and list(r["quotes_signed_delta"]) == [-.1, -.25, .5, .25, .1] else 1)
'''
