ID="c12_heston1993_risk_price_second_measure"; PROP="C12"; FILE="frm/pricing_engine/heston.py"
EDITS=[("b = [kappa + lambda_ - rho * vv, kappa + lambda_]","b = [kappa + lambda_ - rho * vv, kappa]")]
NEEDS="a non zero market price of volatility risk (lambda_), which defaults to 0 and no test sets"
BREAKS="the second probability ignores lambda_; the price no longer equals the one of the risk adjusted model"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.heston import heston1993_price_vanilla_european as f
kw = dict(S0=1.3, tau=1.0, r=0.03, q=0.01, cp=1, K=1.25, var0=0.02, vv=0.3, rho=-0.4)
k, th, l = 1.5, 0.03, 0.4
a = f(kappa=k, theta=th, lambda_=l, **kw)
b = f(kappa=k + l, theta=k * th / (k + l), lambda_=0, **kw)
print(a, b)
sys.exit(0 if abs(float(a) - float(b)) < 1e-8 else 1)
'''
