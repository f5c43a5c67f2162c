ID="c11_antithetic_pairs_odd"; PROP="C11"; FILE="frm/pricing_engine/monte_carlo_generic.py"
EDITS=[("rand_nbs_antithetic_variate = -1 * rand_nbs_normal[:,:,:nb_pairs]","rand_nbs_antithetic_variate = -1 * rand_nbs_normal[:,:,-nb_pairs:]")]
NEEDS="antithetic variates with an odd number of simulations (for an even number both slices are the same)"
BREAKS="every second simulation is the negative of another draw than the one before it"
DEMO='''
import sys, numpy as np
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs as g
bad = 0
for n in (2, 4, 5, 9):
    z = g(nb_steps=3, nb_rand_vars=2, nb_simulations=n, apply_antithetic_variates=True, random_seed=4)
    p = n // 2
    ok = z.shape == (3, 2, n) and np.array_equal(z[:, :, 1:2 * p:2], -z[:, :, 0:2 * p:2])
    print(n, ok); bad += not ok
sys.exit(1 if bad else 0)
'''
