ID="c13_rk4_last_stage"; PROP="C13"; FILE="frm/pricing_engine/hw1f.py"
EDITS=[("k4 = Δt * (thetas[i] - α * (R[i, :] + k3))","k4 = Δt * (thetas[i] - α * (R[i, :] + 0.5 * k3))")]
NEEDS="the rk4 scheme; the error is of order alpha*dt*k3/12 per step, hidden by the simulation noise"
BREAKS="the simulated short rate does not take the Runge-Kutta step of the model"
DEMO='''
import sys, numpy as np, pandas as pd
from frm.term_structures.zero_curve import ZeroCurve
from frm.pricing_engine.hw1f import HullWhite1Factor
from frm.enums import *
from frm.enums import ZeroCurveInterpMethod, DayCountBasis, CompoundingFreq
y = np.array([0.0, 0.5, 1, 2, 3, 5, 7, 10, 15])
c = ZeroCurve(curve_date=pd.Timestamp(2024, 1, 2), pillar_df=pd.DataFrame({"years": y, "discount_factor": np.exp(-0.03 * y - 0.001 * y ** 2)}),
              interp_method=ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT, day_count_basis=DayCountBasis.ACT_365)
m = HullWhite1Factor(zero_curve=c, mean_rev_lvl=0.6, vol=1e-12)
m.setup_theta()
n, tau = 20, 5.0
r = m.simulate(tau=tau, nb_steps=n, nb_simulations=4, flag_apply_antithetic_variates=False, random_seed=1, method="rk4")
R = np.asarray(r["R"])
t = np.linspace(0, tau, n + 1); th = m.get_thetas(t); h = tau / n; a = 0.6
x = m.r0; worst = 0
for i in range(n):
    f = lambda u: th[i] - a * u
    k1 = h * f(x); k2 = h * f(x + k1 / 2); k3 = h * f(x + k2 / 2); k4 = h * f(x + k3)
    x = x + (k1 + 2 * k2 + 2 * k3 + k4) / 6
    worst = max(worst, np.abs(R[i + 1] - x).max())
print(worst)
sys.exit(0 if worst < 1e-9 else 1)
'''
