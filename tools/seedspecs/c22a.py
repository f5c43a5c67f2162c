ID="c22_batches_share_random_numbers"; PROP="C22"; FILE="frm/pricing_engine/clewlow_strickland_1_factor.py"
EDITS=[("apply_antithetic_variates=False, random_seed=j)","apply_antithetic_variates=False, random_seed=0)")]
NEEDS="more simulations than fit in one batch (over 100 million random numbers)"
BREAKS="every batch repeats the paths of the first one, so the simulations are not distinct"
DEMO='''
import sys, numpy as np
import frm.pricing_engine.clewlow_strickland_1_factor as m
m.MAX_SIMULATIONS_PER_LOOP = 60     # batches of 60 // (3 * 2) = 10 simulations
f = np.column_stack((np.arange(5.0), 100 + np.arange(5.0)))
r = m.clewlow_strickland_1_factor_simulate(forward_curve=f, nb_simulations=25, segments_per_day=2, T=3, alpha=0.5, sigma=0.3)
u = np.unique(np.round(r[-1], 12)).size
print(r.shape, u)
sys.exit(0 if u == 25 else 1)
'''
