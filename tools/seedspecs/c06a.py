ID="c06_intrinsic_uses_domestic_rate_with_market_forward"; PROP="C06"; FILE="frm/pricing_engine/garman_kohlhagen.py"
EDITS=[("intrinsic = np.where(tau==0, X, np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau))))",
        "intrinsic = np.where(tau==0, X, np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r_d * tau))))")]
NEEDS="intrinsic/time split requested together with an explicit market forward that differs from the rate parity forward"
BREAKS="the intrinsic value ignores the basis-adjusted rate implied by the market forward"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as gk
S, tau, rd, rf, K, F = 1.2, 1.5, .03, .01, 1.1, 1.27
r = gk(S0=S, tau=tau, r_d=rd, r_f=rf, cp=1, K=K, vol=.1, F=F, intrinsic_time_split=True)
want = max(0, (F - K) * np.exp(-(np.log(F / S) / tau + rf) * tau))
got = np.atleast_1d(r["intrinsic"])[0]
print(got, want)
sys.exit(0 if abs(got - want) < 1e-10 else 1)
'''
