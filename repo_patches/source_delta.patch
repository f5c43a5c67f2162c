From 0711a0d152edb5bce1010a6d1d10dff2741dd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 01/79] fix: normal_vol_to_black76_sln returns the at-the-money
 closed form instead of discarding it

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..c49f8c5 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -462,7 +462,7 @@ def normal_vol_to_black76_sln(
     ) -> float:
     # If the forward and strike are equal, we use an analytical solution from equating the Black76 & Bachelier formulae
     if abs(F - K) < 1e-10:
-        normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
+        return normal_vol_atm_to_black76_sln_atm(F=F, tau=tau, vol_n_atm=vol_n, ln_shift=ln_shift)
 
     # The solve is invariant to the risk-free rate or the call/put perspective.
     cp = 1
-- 
2.43.0


From c9b724a61a832f04f7874a347256c4e2a175655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 02/79] fix: bachelier theta is normalised to one calendar day
 (was multiplied by 365.25)

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index c49f8c5..a51cac2 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -269,7 +269,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor * (1/365.25)
 
     return results
 
-- 
2.43.0


From 20be4ba37c6976b9f24a8bc54b66c0a8d43c38b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 03/79] fix: black76/bachelier intrinsic value carries the
 annuity factor and supports a scalar tau with vector strikes

---
 frm/pricing_engine/black76_bachelier.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index a51cac2..fc95a79 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -88,9 +88,7 @@ def black76_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -254,9 +252,7 @@ def bachelier_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 6b3dd2d401004f8a5eea5d7b89ab0a4d493a3bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 04/79] fix: black76 numerical greeks no longer apply ln_shift
 twice

---
 frm/pricing_engine/black76_bachelier.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index fc95a79..33b2699 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -104,12 +104,14 @@ def black76_price(
     if numerical_greeks:
         results['numerical_greeks'] = pd.DataFrame()
 
+        # F and K already include ln_shift at this point, hence ln_shift=0 in the repricings below.
+
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -117,9 +119,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From 38af51e62cf6f131bd4f1f0f47736eb8294c6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 05/79] fix: implied vol solvers and conversions no longer
 return a volatility that misses the price L-BFGS-B reports success when it
 stops at a bound or on a flat region; only the price error decides now.

---
 frm/pricing_engine/black76_bachelier.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 33b2699..8722430 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -174,8 +174,8 @@ def black76_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # res.success is not sufficient: the optimiser may stop (e.g. at a bound) without matching the price.
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -317,8 +317,8 @@ def bachelier_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # res.success is not sufficient: the optimiser may stop (e.g. at a bound) without matching the price.
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -425,8 +425,8 @@ def shift_black76_vol(
                    bounds=[VOL_SLN_BOUNDS],
                    method='L-BFGS-B',
                    options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
+    # res.success is not sufficient: the optimiser may stop (e.g. at a bound) without matching the price.
+    if abs(res.fun) < obj_func_tol:
         return res.x[0]
     else:
         # Further development could include:
@@ -481,8 +481,8 @@ def normal_vol_to_black76_sln(
                    bounds=[VOL_SLN_BOUNDS],
                    method='L-BFGS-B',
                    options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
+    # res.success is not sufficient: the optimiser may stop (e.g. at a bound) without matching the price.
+    if abs(res.fun) < obj_func_tol:
         return res.x[0]
     else:
         # Further development could include:
-- 
2.43.0


From ea73ac0eb9161a787bffd8012e963a101fe280f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 06/79] fix: bachelier implied vol root search stops only once
 the price tolerance is met

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 8722430..2d403ba 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -294,7 +294,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12 # Normal vols are ~1e-3 to 1e-2, a larger xtol stops the root search before the price tolerance is met.
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
-- 
2.43.0


From cb2b1c09d00a4e8c568dc52c15a08ef6beda2e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 07/79] fix: garman_kohlhagen_price supports a scalar tau with
 vector strikes

---
 frm/pricing_engine/garman_kohlhagen.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..1d81622 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -97,13 +97,11 @@ def garman_kohlhagen_price(
     d2 = d1 - σ * np.sqrt(tau)   
     X = cp * (S0 * np.exp(-q * tau) * norm.cdf(cp * d1) - K * np.exp(-r * tau) * norm.cdf(cp * d2))
 
-    X[tau==0] = np.maximum(0, cp * (S0 - K))[tau==0] # If time to maturity is 0.0, set to intrinsic value
+    X = np.where(tau==0, np.maximum(0, cp * (S0 - K)), X) # If time to maturity is 0.0, set to intrinsic value
     results = {'price': X}
 
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau)))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau==0, X, np.maximum(0, cp * (S0 * np.exp(-q * tau) - K * np.exp(-r * tau))))
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 97cb9f913b0bd10e1cb4d2273ebbe5eec021bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 08/79] fix: garman_kohlhagen analytical theta and rho
 (discount factors and put signs)

---
 frm/pricing_engine/garman_kohlhagen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 1d81622..0c05157 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -119,9 +119,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
@@ -131,7 +131,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From c04b2eccc0a410127927fb7b0114c4af8c9b7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 09/79] fix: garman_kohlhagen numerical greeks are returned,
 and rho bumps only the domestic rate

---
 frm/pricing_engine/garman_kohlhagen.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0c05157..863268b 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -136,7 +136,7 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
@@ -159,7 +159,7 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-r_f * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
@@ -184,9 +184,9 @@ def garman_kohlhagen_price(
         results['numerical_greeks']['gamma'] = (analytical_greeks_S0_plus['spot_delta'] - analytical_greeks_S0_minus['spot_delta']) / (2 * (Δ_shift / 0.01))
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
-        # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        # r is the domestic rate (the basis-adjusted domestic rate implied from the forward, if the forward is an input)
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r+ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r-ρ_shift, r_f=r_f, cp=cp, K=K, vol=σ)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 08069163a7950a960bd8a850cd0fbf5c3ece5a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 10/79] fix: premium adjusted at-the-money strike also applies
 to a put quote (delta -0.5)

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 863268b..d1544bc 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -285,7 +285,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                        
         if np.any(mask_not_atm):
             for i in range(len(Δ)):
-                if Δ[i] != 0.5:
+                if mask_not_atm[i]:
                     # For premium adjusted quotes the strike must be solved numerically. Refer to [1] for full details.
 
                     def solve_delta(K_):
-- 
2.43.0


From 96c97e513ef81800a110fc218625b8626c905446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 11/79] fix: premium adjusted strike search uses the market
 forward for its lower bound

---
 frm/pricing_engine/garman_kohlhagen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index d1544bc..7fd353b 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -312,7 +312,7 @@ def garman_kohlhagen_solve_strike_from_delta(
                         # To avoid this, we solve a lower bound, 'K_min' to guarantee we get the correct solution in the numerical solver.
                         # The lower bound is the 'maximum' Δ, hence we numerically solve the maximum Δ
                         def solve_k_lower_bound(K): # TODO test and remove cp, F
-                            d1 = (np.log(S0 / K) + (r_d - r_f + 0.5 * σ[i]**2) * tau) / (σ[i] * np.sqrt(tau))
+                            d1 = (np.log(F / K) + 0.5 * σ[i]**2 * tau) / (σ[i] * np.sqrt(tau))
                             d2 = d1 - σ[i] * np.sqrt(tau)
                             return σ[i] * np.sqrt(tau) * norm.cdf(d2) - norm.pdf(d2)
                         
-- 
2.43.0


From d45c163705d4c00ca9a0adceedaaf3198815c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 12/79] fix: a premium adjusted delta without a strike raises
 ValueError (was a TypeError from the except clause)

---
 frm/pricing_engine/garman_kohlhagen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 7fd353b..a2ec8c0 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -318,8 +318,8 @@ def garman_kohlhagen_solve_strike_from_delta(
                         
                         try: 
                             solution = root_scalar(solve_k_lower_bound, x0=F ,bracket=[0.00001, K_max])
-                        except ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error'):
-                            pass
+                        except ValueError as e:
+                            raise ValueError('the numerical solve for K_min, for delta', Δ[i], ', resulted in an error') from e
                     
                         if solution.converged:
                             K_min = solution.root
@@ -328,8 +328,9 @@ def garman_kohlhagen_solve_strike_from_delta(
                         
                         try:
                             solution = root_scalar(solve_delta, x0=K_max, bracket=[K_min,K_max])
-                        except ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error'):
-                            print('This is likely due to an error in the input, for example typos or specifying the delta_convention as spot-delta when it is actually forward-delta')
+                        except ValueError as e:
+                            # This is likely due to an error in the input, for example typos or specifying the delta_convention as spot-delta when it is actually forward-delta
+                            raise ValueError('the numerical solve for premium adjusted strike for delta', Δ[i], ', resulted in an error') from e
                         
                     if solution.converged:
                         result[i] = solution.root
-- 
2.43.0


From 42cd04f80ca6ae93120000a48c4cb1208cd699c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 13/79] fix: SABR calibration keeps beta inside its documented
 range 0..1 (the bound was -1..1)

---
 frm/pricing_engine/sabr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..602a7ee 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -245,7 +245,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
-- 
2.43.0


From ef4eef6af68abf77dc80a2abfdec8f536da51a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 14/79] fix: forward_volatility returns NaN where t1 equals t2,
 also for scalars, and always rejects t2 < t1

---
 frm/pricing_engine/volatility_generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 1c91c05..4b3c495 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -36,11 +36,11 @@ def forward_volatility(t1: float | np.ndarray,
     """
 
     tau = t2 - t1
-    if np.any(tau == 0):
-        mask = tau == 0
-        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1[mask]}, t2 {t2[mask]}")
-    elif np.any(tau < 0):
+    if np.any(tau < 0):
         raise ValueError("t2 is less than t1.")
+    if np.any(tau == 0):
+        warnings.warn(f"t2 and t1 are equal. NaN will be returned for these values: t1 {t1}, t2 {t2}")
+        tau = np.where(tau == 0, np.nan, tau)
 
     var_t1_t2 = (vol_t2 ** 2 * t2 - vol_t1 ** 2 * t1) / tau
     if np.any(var_t1_t2 < 0):
-- 
2.43.0


From 7a00c85203ed4eac17faab38e4e090f966724e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 15/79] fix: flat_forward_interp supports scalar inputs and
 integer volatilities

---
 frm/pricing_engine/volatility_generic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/volatility_generic.py b/frm/pricing_engine/volatility_generic.py
index 4b3c495..35bc9b0 100644
--- a/frm/pricing_engine/volatility_generic.py
+++ b/frm/pricing_engine/volatility_generic.py
@@ -71,8 +71,12 @@ def flat_forward_interp(t1: float | np.ndarray,
     - If t is outside the range [t1, t2], the function will not compute interpolation and will use the input boundaries.
     - Assumes a flat forward interpolation model, where volatilities are averaged in a time-weighted manner.
     """
-    vol_t12 = np.zeros_like(vol_t1)
+    scalar_output = all(np.ndim(x) == 0 for x in (t1, vol_t1, t2, vol_t2, t))
+    t1, vol_t1, t2, vol_t2, t = map(np.atleast_1d, (t1, vol_t1, t2, vol_t2, t))
+
+    vol_t12 = np.zeros_like(vol_t1, dtype=float)
     mask = (t1 != t2).flatten()
     vol_t12[mask] = forward_volatility(t1[mask], vol_t1[mask], t2[mask], vol_t2[mask])
-    return np.sqrt((vol_t1 ** 2 * t1 + vol_t12 ** 2 * (t - t1)) / t)
+    result = np.sqrt((vol_t1 ** 2 * t1 + vol_t12 ** 2 * (t - t1)) / t)
+    return result.item() if scalar_output else result
 
-- 
2.43.0


From bae4db46147ea663d20ab266b812768fd2452854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 16/79] fix: simulate_gbm_path applies drift, volatility and
 initial price per underlying (several underlyings raised or mixed them with
 simulations)

---
 .../geometric_brownian_motion.py              | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..ae8df4e 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -45,23 +45,15 @@ def simulate_gbm_path(initial_px: np.array,
     assert timestep_length.ndim == 1
 
     # Reshape inputs to 2D arrays so to support parallel simulation of multiple underlyings
-    drift = np.atleast_2d(drift)
-    forward_volatility = np.atleast_2d(forward_volatility)
+    # A 1D drift or volatility is for a single underlying: one value per time step.
+    drift = np.atleast_1d(drift)
+    forward_volatility = np.atleast_1d(forward_volatility)
     initial_px = np.atleast_2d(initial_px)
 
-    # if drift.ndim == 1:
-    #     drift = drift.reshape(-1, 1)
-    # if forward_volatility.ndim == 1:
-    #     forward_volatility = forward_volatility.reshape(-1, 1)
-    # if initial_px.ndim == 1:
-    #     initial_px = initial_px.reshape(1, -1)
-
-    if drift.shape[0] == 1:
+    if drift.ndim == 1:
         drift = drift.reshape(-1, 1)
-    if forward_volatility.shape[0] == 1:
+    if forward_volatility.ndim == 1:
         forward_volatility = forward_volatility.reshape(-1, 1)
-    if initial_px.shape[0] == 1:
-        initial_px = initial_px.reshape(1, -1)
 
     # Shape checks
     nb_timesteps = timestep_length.shape[0]
@@ -77,12 +69,14 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.T
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        # Column vectors, so that each underlying's drift and volatility is applied to all of its simulations
+        drift_i, vol_i = drift[i, :].reshape(-1, 1), forward_volatility[i, :].reshape(-1, 1)
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From d923ea574feb48e85cb14b2411dca23c740f626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 17/79] fix: antithetic variates are paired and complete for an
 odd number of simulations

---
 frm/pricing_engine/monte_carlo_generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..7e36279 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -55,8 +55,10 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs_antithetic_variate = -1 * rand_nbs_normal[:,:,:nb_pairs]
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
-        # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        # Reindex to pair normal with antithetic variates. For an odd number of simulations, the last one is unpaired.
+        nb_normal = nb_simulations - nb_pairs
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_normal)).flatten()
+        idx = np.append(idx, np.arange(nb_pairs, nb_normal))
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From b56147d5d5b8860323ee309c0ab8797cd0dbd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 18/79] fix: normal_corr multiplies by the lower Cholesky
 factor so that the variates have correlation C (was L'L)

---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 7e36279..66fd766 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -79,7 +79,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C)
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From 1392b03da12ac4becd22bb3af0a4eaeb933b9f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 19/79] fix: Lewis-Lipton Heston integrand uses the integration
 variable in psi

psi_plus and psi_minus contained kappa where the formula has the integration
variable v, so heston_lipton prices differed from every other Heston pricing
method (by over 10% of the option value for ordinary parameters).
---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..588b402 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From c57f508c2bf2b4df08558cb68bcde26aad14d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:58 +0000
Subject: [PATCH 20/79] fix: heston_cosine without put-call parity prices a
 book of only calls or only puts (was UnboundLocalError)

---
 frm/pricing_engine/heston.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 588b402..ac35e11 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -645,8 +645,10 @@ def heston_cosine_price_vanilla_european(S0, tau, r, q, cp, K, var0, vv, kappa,
         if (cp == -1).any():
             put_px = K * np.multiply(Fk, Uk_put).sum(axis=0) * np.exp(-r * tau)
 
-    result[cp == 1] = call_px[cp == 1]
-    result[cp == -1] = put_px[cp == -1]
+    if (cp == 1).any():
+        result[cp == 1] = call_px[cp == 1]
+    if (cp == -1).any():
+        result[cp == -1] = put_px[cp == -1]
 
     return result
 
-- 
2.43.0


From 80ddc66b856f25bcbf7c2a3cb0bc26cf15c46260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 21/79] fix: Heston Euler simulation absorbs / reflects the
 variance of the final step too (it could be negative)

---
 frm/pricing_engine/heston.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index ac35e11..f7f99d0 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -812,14 +812,14 @@ def heston_simulate_scalar(
     elif method[:5] == 'euler':
         x[0, :] = [S0, var0]
         for i in range(1, nb_timesteps + 1):
-            if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1] = max(x[i - 1, 1], 0)
-            elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1] = abs(x[i - 1, 1])
-
             x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             x[i, 0] = x[i - 1, 0] + x[i - 1, 0] * (mu * dt + np.sqrt(x[i - 1, 1]) * u[i - 1, 0])
 
+            if method == 'euler_with_absorption_of_volatility_process':
+                x[i, 1] = max(x[i, 1], 0)
+            elif method == 'euler_with_reflection_of_volatility_process':
+                x[i, 1] = abs(x[i, 1])
+
     return x
 
 
@@ -933,16 +933,16 @@ def heston_simulate(
         x[0, 1, :] = var0
 
         for i in range(1, nb_timesteps + 1):
-            if method == 'euler_with_absorption_of_volatility_process':
-                x[i - 1, 1, :] = np.maximum(0, x[i - 1, 1, :])
-            elif method == 'euler_with_reflection_of_volatility_process':
-                x[i - 1, 1, :] = np.abs(x[i - 1, 1, :])
-
             x[i, 1, :] = x[i - 1, 1, :] \
                          + kappa * (theta - x[i - 1, 1, :]) * dt + vv * np.sqrt(x[i - 1, 1, :]) * u[i - 1, 1, :]
             x[i, 0, :] = x[i - 1, 0, :] \
                          + x[i - 1, 0, :] * (mu * dt + np.sqrt(x[i - 1, 1, :]) * u[i - 1, 0, :])
 
+            if method == 'euler_with_absorption_of_volatility_process':
+                x[i, 1, :] = np.maximum(0, x[i, 1, :])
+            elif method == 'euler_with_reflection_of_volatility_process':
+                x[i, 1, :] = np.abs(x[i, 1, :])
+
     return x
 
 
-- 
2.43.0


From 54c009ddac8f6a2e4b8bac1f0ed63ab668543135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 22/79] fix: second cumulant of the Heston log return in the
 COS truncation range (coefficients 4 and -5, not 6 and -7)

---
 frm/pricing_engine/cosine_method_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/cosine_method_generic.py b/frm/pricing_engine/cosine_method_generic.py
index 966d1ea..fda9bf2 100644
--- a/frm/pricing_engine/cosine_method_generic.py
+++ b/frm/pricing_engine/cosine_method_generic.py
@@ -124,7 +124,7 @@ def get_cos_truncation_range(model, L, model_param):
             (η * tau * λ * np.exp(-λ * tau) * (u0 - u_bar) * (8 * λ * rho - 4 * η))
             + λ * rho * η * (1 - np.exp(-λ * tau)) * (16 * u_bar - 8 * u0)
             + 2 * u_bar * λ * tau * (-4 * λ * rho * η + η**2 + 4 * λ**2)
-            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (6 * np.exp(-λ * tau) - 7) + 2 * u0)
+            + η**2 * ((u_bar - 2 * u0) * np.exp(-2 * λ * tau) + u_bar * (4 * np.exp(-λ * tau) - 5) + 2 * u0)
             + 8 * λ**2 * (u0 - u_bar) * (1 - np.exp(-λ * tau))
         )
                 
-- 
2.43.0


From 68e946e6f6092485caf1891dd657fa18341611d6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 23/79] fix: ZeroCurve years lookups with LINEAR_ON_LN_DISCOUNT
 compared the enum with a string and always raised

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..b90b894 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -328,7 +328,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From 57223b8e34809eb411212ec3492856a1626def6c Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 24/79] fix: ZeroCurve date lookups return one row per date in
 the order given and apply the extrapolation method (out of range dates were
 dropped or moved)

---
 frm/term_structures/zero_curve.py | 34 ++++++++++---------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index b90b894..afecd7f 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -366,31 +366,19 @@ class ZeroCurve:
             # Check if any of the dates are outside the available data
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
-            if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
+            for date in dates[below_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
-            if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+            for date in dates[above_range]:
+                print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+
+            # One row per date, in the order of the dates (dates without data have NaN values)
+            cleaned_dates = pd.Series(dates)
+            if self.extrap_method == ZeroCurveExtrapMethod.FLAT:
+                cleaned_dates = cleaned_dates.clip(lower=min_date, upper=max_date)
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates}), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
        
-- 
2.43.0


From 76cadd2ec0f15c455bb46dd05130d8237e938f66 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 25/79] fix: ZeroCurve from 'days' pillars always failed (local
 name dt hid the datetime module)

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index afecd7f..26d1e47 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -116,8 +116,8 @@ class ZeroCurve:
                     x = [0.0] + pillar_df['years'].to_list()
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    dt = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=dt, tck=self.cubic_spline_definition, der=0) / dt
+                    small_t = 1e-6 # small number to avoid division by zero
+                    first_row['cczr'] = -1 * splev(x=small_t, tck=self.cubic_spline_definition, der=0) / small_t
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
-- 
2.43.0


From 70f81b7ef08ccc7c531a0b08a042433ea0d49a5f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 26/79] fix: ZeroCurve no longer adds columns to the caller's
 pillar_df

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 26d1e47..929639a 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy()
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From aabd5c1993d7ca4c279475c8f61d2f64fb0763ba Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 27/79] fix: ZeroCurve pillars quoted as simple zero rates had
 a continuous rate inconsistent with their discount factor

---
 frm/term_structures/zero_curve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 929639a..e0cb759 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -90,7 +90,11 @@ class ZeroCurve:
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
-            pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # The continuously compounded equivalent of a simple rate depends on its term
+                pillar_df['cczr'] = (-1 * np.log(pillar_df['discount_factor']) / pillar_df['years']).where(pillar_df['years'] > 0, pillar_df['zero_rate'])
+            else:
+                pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From 4f411f0cd47152576c6f7dcc1b07373a7f68994e Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 28/79] fix: ZeroCurve with a pillar at t=0
 (LINEAR_ON_LN_DISCOUNT raised, CUBIC_SPLINE_ON_CCZR was fitted through 0/0)

---
 frm/term_structures/zero_curve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index e0cb759..fc8b9e6 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -97,6 +97,9 @@ class ZeroCurve:
                 pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
+            # The discount factor at t=0 is one and has no zero rate, its row is added below
+            if pillar_df['years'].iloc[0] == 0:
+                pillar_df = pillar_df.iloc[1:].reset_index(drop=True)
             # Add continuously compounded interest rate for internal use
             pillar_df['cczr'] = -1 * np.log(pillar_df['discount_factor']) / pillar_df['years']
 
@@ -136,6 +139,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass # no definition required, interpolates the pillars
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
-- 
2.43.0


From ac6093d67dec1dce113be6f3baa0b5d712cbe500 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 29/79] fix: ZeroCurve from 'years' pillars covers the dates up
 to the last pillar, not only whole years

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index fc8b9e6..133fa5e 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -164,8 +164,8 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
                 
-- 
2.43.0


From 0f72f515cc550792d0ccc0ceb26788604504c289 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 30/79] fix: ZeroCurve lookups by a Series of days raised
 TypeError

---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 133fa5e..ff17685 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -355,7 +355,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From ba2a6318946b24839f39058fa269c168932ea03f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 31/79] fix: ZeroCurve.flat_shift always failed; it shifts the
 continuously compounded zero rates and keeps the curve's conventions

---
 frm/term_structures/zero_curve.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ff17685..d627a04 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -204,17 +204,19 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        # A t=0 pillar without a zero rate is not shifted, it is added again by the constructor
+        shifted = self.pillar_df.loc[self.pillar_df['cczr'].notna()]
+        x_column = 'date' if 'date' in shifted.columns else 'years'
+        shifted = pd.DataFrame({x_column: shifted[x_column],
+                                'zero_rate': shifted['cczr'] + basis_points / 10000})
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
-                   
+                         compounding_freq=CompoundingFreq.CONTINUOUS,
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
+
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
                           period_end: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 1d5d8ef70f3919b79fead7785470ba330a831d06 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 32/79] fix: the cczr column of a spline ZeroCurve's pillars is
 numeric (was of object dtype)

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index d627a04..88b40d4 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -124,12 +124,12 @@ class ZeroCurve:
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
                     small_t = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=small_t, tck=self.cubic_spline_definition, der=0) / small_t
+                    first_row['cczr'] = float(-1 * splev(x=small_t, tck=self.cubic_spline_definition, der=0) / small_t)
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    first_row['cczr'] = splev(x=0, tck=self.cubic_spline_definition, der=0)
+                    first_row['cczr'] = float(splev(x=0, tck=self.cubic_spline_definition, der=0))
                 case _:
                     raise ValueError(f"Invalid interpolation method {self.interp_method}")
 
-- 
2.43.0


From 5652e337664ea85a4dbb18f93e8c18f0d5824e93 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 33/79] fix: year_frac ACT/ACT of equal dates is zero (a
 rounding residual of 1e-17 made a ZeroCurve pillar on the curve date a second
 row)

---
 frm/utils/daycount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/utils/daycount.py b/frm/utils/daycount.py
index b63cfaa..75a203b 100644
--- a/frm/utils/daycount.py
+++ b/frm/utils/daycount.py
@@ -151,6 +151,7 @@ def year_frac(start_date,
         total_sum += diff_first.days / year_1_diff
         diff_second = end_dti - pd.DatetimeIndex([dt.datetime(v, 1, 1) for v in end_year]) 
         total_sum += diff_second.days / year_2_diff
+        total_sum = total_sum.where(start_dti < end_dti, 0.0) # no rounding residual for equal dates
 
         if scalar_output:
             return total_sum.item()
-- 
2.43.0


From 4737a6539e8c90f8f339df1a6b53951a0cfe43c6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 34/79] fix: schedules with RollConv.UNADJUSTED always failed
 (numpy has no roll of that name); the dates are left as they are

---
 frm/utils/schedule.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..c4b73e7 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -88,7 +88,12 @@ class BaseSchedule:
 
         # Apply np.busday_offset only to non-NaT dates
         adjusted_dates = np.empty_like(dates, dtype='datetime64[D]')
-        adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
+        if self.roll_conv == RollConv.UNADJUSTED and payment_delay == 0:
+            adjusted_dates[valid_dates_mask] = valid_dates
+        else:
+            # An unadjusted date that is not a business day has to be rolled before counting business days from it
+            roll = 'following' if self.roll_conv == RollConv.UNADJUSTED else self.roll_conv.value
+            adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=roll, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
         # Update DataFrame
@@ -460,6 +465,8 @@ def generate_date_schedule(
     """
     
     def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+        if roll_conv == RollConv.UNADJUSTED.value:
+            return pd_timestamp
         np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
         rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
         return pd.Timestamp(rolled_date_np)
-- 
2.43.0


From b0783f903b8490fd90b0c5b0a05a2d3760acfdba Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 35/79] fix: schedules with DayRoll.EOM raised TypeError; the
 periods end on the last day of the month

---
 frm/utils/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index c4b73e7..844e83a 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -475,6 +475,8 @@ def generate_date_schedule(
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
             return pd_timestamp
+        elif specific_day_roll == DayRoll.EOM:
+            return pd_timestamp + pd.offsets.MonthEnd(0)
         else:
             try:
                 return pd_timestamp.replace(day=specific_day_roll.value)
-- 
2.43.0


From a77e40c02643906b4e81ded059a4b5b931279754 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 36/79] fix: make_schedule with a long stub (or an explicit
 stub date) and only one regular period raised instead of returning the single
 period

---
 frm/utils/schedule.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 844e83a..b5c2ba4 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -297,12 +297,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -336,7 +336,7 @@ def make_schedule(
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif len(d2_backward) > 1 and first_period_end == d2_backward[1]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -351,7 +351,7 @@ def make_schedule(
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif len(d1_forward) > 1 and last_period_start == d1_forward[-2]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
@@ -385,7 +385,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -393,7 +393,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -403,13 +403,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG:
+                    if last_stub == Stub.LONG and len(d1) > 1:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG:
+                    if first_stub == Stub.LONG and len(d1) > 1:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From c72b0dbc9e78fd9a66e3eb287d139158bdc6130b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 37/79] fix: make_schedule honours first_period_end and
 last_period_start when both are specified (one of them was ignored, or an
 AssertionError raised)

---
 frm/utils/schedule.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index b5c2ba4..d41234e 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -358,6 +358,14 @@ def make_schedule(
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # If both dates are specified and no single generated schedule has both, the schedule is generated between them
+            if first_period_end is not None and last_period_start is not None \
+                    and (Stub.DEFINED_PER_FIRST_PERIOD_END_DATE == first_stub
+                         or Stub.DEFINED_PER_LAST_PERIOD_START_DATE == last_stub
+                         or len(set(direction)) > 1):
+                first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # Step 2c : Set default stub values to:
             #              (i) NONE if other stub is SHORT/LONG
             #              (ii) SHORT if other stub is NONE
@@ -385,7 +393,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG and len(d1) > 1:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -393,7 +401,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG and len(d1) > 1:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
@@ -403,13 +411,13 @@ def make_schedule(
                 if first_stub == Stub.NONE:
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
-                    if last_stub == Stub.LONG and len(d1) > 1:
+                    if last_stub == Stub.LONG and len(d1) > 2:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
                 elif last_stub == Stub.NONE:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
-                    if first_stub == Stub.LONG and len(d1) > 1:
+                    if first_stub == Stub.LONG and len(d1) > 2:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
                 else:
-- 
2.43.0


From 6ff0d53549914b7985447cd510a3f4d144542f56 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 38/79] fix: make_schedule rolls all user specified dates when
 asked to (zero coupon schedules and explicit stub dates were not rolled,
 leaving gaps between periods)

---
 frm/utils/schedule.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index d41234e..88f1b07 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -197,8 +197,12 @@ class CouponSchedule(NotionalSchedule):
         return index, valid_shape
 
 
-
-
+def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
+    if roll_conv == RollConv.UNADJUSTED.value:
+        return pd_timestamp
+    np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
+    rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
+    return pd.Timestamp(rolled_date_np)
 
 
 def make_schedule(
@@ -296,12 +300,12 @@ def make_schedule(
                 raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
-                d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
+                d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, False, cal)
                 if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
-                d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
+                d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, False, cal)
                 if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
@@ -323,8 +327,8 @@ def make_schedule(
             # (iii) between first_period_end and last_period_start if both are specified
 
             # Step 1: Generate the schedule by backward and forward date generation
-            d1_backward, d2_backward = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-            d1_forward, d2_forward = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
+            d1_backward, d2_backward = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, False, cal)
+            d1_forward, d2_forward = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, False, cal)
 
             # Step 2a : Check if the first_period_end matches any generated schedules
 
@@ -385,12 +389,12 @@ def make_schedule(
             # Step 3: Construct the schedules
             if first_stub == Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
                 # Generate date schedule between first_period_end and last_period_start
-                d1, d2 = generate_date_schedule(first_period_end, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
+                d1, d2 = generate_date_schedule(first_period_end, last_period_start, freq, 'backward', roll_conv, day_roll, False, cal)
                 d1 = [start_date] + d1 + [last_period_start]
                 d2 = [first_period_end] + d2 + [end_date]
             elif first_stub == Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub != Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
                 # Forward generation from first_period_end and if long last stub, combine last two periods
-                d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
+                d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, False, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
                 if last_stub == Stub.LONG and len(d1) > 2:
@@ -398,7 +402,7 @@ def make_schedule(
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
                 # Backward generation from last_period_start and if long first stub, combine first two periods
-                d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
+                d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, False, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
                 if first_stub == Stub.LONG and len(d1) > 2:
@@ -423,6 +427,11 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates:
+        # The generated dates are already rolled, rolling again only moves the user specified dates
+        d1 = [busday_offset_timestamp(d, 0, roll_conv.value, cal) for d in d1]
+        d2 = [busday_offset_timestamp(d, 0, roll_conv.value, cal) for d in d2]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
@@ -472,13 +481,6 @@ def generate_date_schedule(
           E.g. Wrap with fields with Optional[] and set defaults in function from enum.set_default()
     """
     
-    def busday_offset_timestamp(pd_timestamp, offsets, roll_conv, cal):
-        if roll_conv == RollConv.UNADJUSTED.value:
-            return pd_timestamp
-        np_datetime64D = np.array([pd_timestamp]).astype('datetime64[D]')
-        rolled_date_np = np.busday_offset(np_datetime64D, offsets=offsets, roll=roll_conv, busdaycal=cal)[0]
-        return pd.Timestamp(rolled_date_np)
-    
     def apply_specific_day_roll(pd_timestamp: pd.Timestamp,
                                 specific_day_roll: DayRoll) -> pd.Timestamp:
         if specific_day_roll == DayRoll.UNADJUSTED:
-- 
2.43.0


From ca3757f9267730fbf05566009c02f32d308da90e Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 39/79] fix: NotionalSchedule with a notional per period always
 raised (shape compared with an int, one payment too few)

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 88f1b07..83774d9 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -150,9 +150,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             self.df['notional'] = notional_amount[0]
             self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
+        elif notional_amount.shape == (self.df.shape[0],):
             self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            self.df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From a1c9479130d9a54bad73b09599ea93b7621ce7be Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 40/79] fix: add_period_yearfrac without add_period_daycount
 before inserted the column out of place (or raised)

---
 frm/utils/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 83774d9..77f8bcd 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -128,7 +128,7 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        self.df.insert(loc=col_index + (2 if 'period_daycount' in self.df.columns else 1), column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From d73b110580828cbc669c2f8a539daa0dc94ca37e Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 41/79] fix: create_date_grid_for_fx_exposures always raised
 (old signature of generate_date_schedule, np.concatenate without a sequence)

---
 frm/utils/schedule.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 77f8bcd..fa978f2 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -596,23 +596,14 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
     # There is a pototo/potata view on if a cashflow has value on the settlement date. 
     # Our default view is no, it should be in accounts receivable, but this can be toggled. 
     
-    delivery_dates = np.unique(delivery_dates) 
+    delivery_dates = pd.DatetimeIndex(delivery_dates).unique()
     max_settlement_date = delivery_dates.max()
     
     if sampling_freq is not None:    
-        if sampling_freq == '1d':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'days', 'forward')
-        elif sampling_freq == '1w':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'weeks', 'forward')
-        elif sampling_freq == '1m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 1, 'months', 'forward')
-        elif sampling_freq == '3m':
-            date_grid = generate_date_schedule(curve_date, max_settlement_date, 3, 'months', 'forward')    
-        elif sampling_freq == '6m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 6, 'months', 'forward')
-        elif sampling_freq == '12m':
-             date_grid = generate_date_schedule(curve_date, max_settlement_date, 12, 'months', 'forward') 
-             
+        freq = {'1d': PeriodFreq.DAILY, '1w': PeriodFreq.WEEKLY, '1m': PeriodFreq.MONTHLY,
+                '3m': PeriodFreq.QUARTERLY, '6m': PeriodFreq.SEMIANNUAL, '12m': PeriodFreq.ANNUAL}[sampling_freq]
+        date_grid = generate_date_schedule(curve_date, max_settlement_date, freq, 'forward', roll_conv=RollConv.UNADJUSTED)
+
         date_grid = pd.DatetimeIndex([curve_date]).append(pd.DatetimeIndex(date_grid[1]))
         
     elif date_grid_pillar is not None:
@@ -626,14 +617,14 @@ def create_date_grid_for_fx_exposures(curve_date: pd.Timestamp,
             last_day_of_value = delivery_dates
         else: 
             last_day_of_value = delivery_dates - pd.DateOffset(days=1)
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = date_grid.append(last_day_of_value)
 
     elif include_day_after_last_day_of_value:
         if payments_on_value_date_have_value:
             last_day_of_value = delivery_dates + pd.DateOffset(days=1)
         else: 
             last_day_of_value = delivery_dates 
-        date_grid = pd.DatetimeIndex(np.concatenate(date_grid.values, last_day_of_value))
+        date_grid = date_grid.append(last_day_of_value)
 
     date_grid = date_grid.drop_duplicates().sort_values()
     return date_grid
-- 
2.43.0


From f807fc1f72750367f9ade6d45379763cfa7ed89a Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 42/79] fix: resolve_fx_curve_dates with curve date and spot
 date always raised (inverted assertion, wrong keyword in the consistency
 check)

---
 frm/utils/tenor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..1151e7f 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,14 +107,16 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
+    assert date <= offset_date, "date must be less than or equal to offset_date"
 
+    # As per np.busday_offset, the count starts from the first business day on or after date
+    date = pd.Timestamp(np.busday_offset(date.to_numpy().astype('datetime64[D]'), offsets=0, roll='following', busdaycal=cal))
     offset = 0
     while date < offset_date:
         offset += 1
         date += pd.DateOffset(days=1)
         date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+        date = pd.Timestamp(np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal))
     return offset
 
 
@@ -127,7 +129,7 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-- 
2.43.0


From 2a7d4b26238ff24f85e6806b9695f873764057d0 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 43/79] fix: resolve_fx_curve_dates ignored the spot_offset it
 was given

---
 frm/utils/tenor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 1151e7f..ac409b8 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -133,7 +133,7 @@ def resolve_fx_curve_dates(
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From 8e8a80c9e2b57df12cdaf69f1b1de10198398796 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 44/79] fix: make_schedule with first_period_end
 (last_period_start) and a last (first) stub raised when the date was on the
 generated schedule

---
 frm/utils/schedule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index fa978f2..1516ebf 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -362,6 +362,12 @@ def make_schedule(
                     # Need to construct schedule using last_period_start
                     last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
 
+            # If one date is specified, the generated schedule it matches can't be used if it conflicts with a stub at the other end
+            if last_period_start is None and direction == ['backward'] and last_stub in [Stub.SHORT, Stub.LONG]:
+                first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+            if first_period_end is None and direction == ['forward'] and first_stub in [Stub.SHORT, Stub.LONG]:
+                last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+
             # If both dates are specified and no single generated schedule has both, the schedule is generated between them
             if first_period_end is not None and last_period_start is not None \
                     and (Stub.DEFINED_PER_FIRST_PERIOD_END_DATE == first_stub
-- 
2.43.0


From 1b5e0161672e372cc41a469343587cd20f40d5cc Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 45/79] fix: make_schedule raised when both stubs are
 specified, also for a stub at one end only

---
 frm/utils/schedule.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 1516ebf..3b36009 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -296,8 +296,6 @@ def make_schedule(
                 first_stub  = Stub.NONE
             elif last_stub == Stub.DEFAULT:
                 last_stub = Stub.NONE
-            else:
-                raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, False, cal)
-- 
2.43.0


From df2c9d777f31a1b856e863119d95b92434f5374c Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 46/79] fix: make_schedule did not honour last_period_start
 when first_stub is NONE (the forward schedule was used although the backward
 one matched)

---
 frm/utils/schedule.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3b36009..231bb82 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -416,20 +416,18 @@ def make_schedule(
                 # Don't need to generate any additional schedules
                 assert len(set(direction)) == 1
 
-                if first_stub == Stub.NONE:
+                if direction[0] == 'forward':
                     # Forward date generation
                     d1, d2 = d1_forward, d2_forward
                     if last_stub == Stub.LONG and len(d1) > 2:
                         d1 = d1[:-1]
                         d2 = d2[:-2] + [d2[-1]]
-                elif last_stub == Stub.NONE:
+                else:
                     # Backward date generation
                     d1, d2 = d1_backward, d2_backward
                     if first_stub == Stub.LONG and len(d1) > 2:
                         d1 = [d1[0]] + d1[2:]
                         d2 = d2[1:]
-                else:
-                    raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
     if roll_user_specified_dates:
         # The generated dates are already rolled, rolling again only moves the user specified dates
-- 
2.43.0


From 97e837bd507a14f67173cf2a8b127bd3d63010aa Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 47/79] fix: get_busdaycal rejected the locales whose name is
 not in upper case (European_Central_Bank, ICE_Futures_Europe,
 New_York_Stock_Exchange)

---
 frm/utils/business_day_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..1bcb6c3 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -22,8 +22,10 @@ with open(file_path_ccy_holiday, 'rb') as f:
 def get_holidays_object(key):
     if key in CCY_HOLIDAY.keys():
         return CCY_HOLIDAY[key]
-    elif key in LOCALE_HOLIDAY.keys():
-        return LOCALE_HOLIDAY[key]
+    # get_busdaycal upper cases the keys
+    locales = {k.upper(): v for k, v in LOCALE_HOLIDAY.items()}
+    if key.upper() in locales:
+        return locales[key.upper()]
     else:
         raise ValueError(f"Holidays not setup for {key}")
 
-- 
2.43.0


From cad87c9262dd58d4387cc6ba3f36bc83e22c23ec Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 48/79] fix: TermSwapCurve.get_fixings used historical fixings
 for the periods on or after the curve date and none before it

---
 frm/term_structures/swap_curve.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..70b6410 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -38,17 +38,19 @@ class TermSwapCurve:
         #   Would be nice to have public API to call for data whenever needed for examples.
         # Get forward fixings
         mask_future = period_start >= self.zero_curve.curve_date
-        forward_fixings = self.zero_curve.get_forward_rates(
-            period_start=period_start[mask_future],
-            period_end=period_end[mask_future],
-            forward_rate_type=cpn_calc_method)
-        fixings[mask_future] = forward_fixings
+        if mask_future.any():
+            forward_fixings = self.zero_curve.get_forward_rates(
+                period_start=period_start[mask_future],
+                period_end=period_end[mask_future],
+                forward_rate_type=cpn_calc_method)
+            fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
-        historical_fixings = self.historical_fixings.index_historical_fixings(
-            fixing_dates=period_start[mask_historical])
-        fixings[mask_historical] = historical_fixings
+        mask_historical = period_start < self.zero_curve.curve_date
+        if mask_historical.any():
+            historical_fixings = self.historical_fixings.index_historical_fixings(
+                fixing_dates=period_start[mask_historical])
+            fixings[mask_historical] = historical_fixings
 
         return fixings
 
-- 
2.43.0


From a38e589337132a82d6e5bca2db00532d5d9725f6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 49/79] fix: RFRSwapCurve compounded the two parts of an
 averaged coupon that spans the curve date

---
 frm/term_structures/swap_curve.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 70b6410..6e437da 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -120,9 +120,14 @@ class RFRSwapCurve:
             period_end=crossover_period_end,
             forward_rate_type=cpn_calc_method)
 
-        crossover_rate = (historical_year_frac * historical_component
-                          + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
-                         / (historical_year_frac + future_year_frac)
+        if cpn_calc_method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
+            crossover_rate = (historical_year_frac * historical_component
+                              + (1 + historical_year_frac * historical_component) * future_year_frac * future_component) \
+                             / (historical_year_frac + future_year_frac)
+        else:
+            # The averages are not compounded
+            crossover_rate = (historical_year_frac * historical_component + future_year_frac * future_component) \
+                             / (historical_year_frac + future_year_frac)
 
         return crossover_rate
 
-- 
2.43.0


From 36096fc066241759357aa0dcaf69304f1b5ce294 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:17:43 +0000
Subject: [PATCH 50/79] fix: RFRFixings rejected periods ending after a weekend
 or holiday, and dropped the days before the first fixing of a period

---
 .../historical_swap_index_fixings.py            | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..5cf80f5 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,13 +37,14 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
-        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
-
-
-        if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+        # A fixing applies until the next one, also to the non business days at the start or the end of a period
+        applicable_fixings = self.fixings.sort_values('date', ascending=True).reset_index(drop=True)
+
+        first_fixing, last_fixing = applicable_fixings['date'].min(), applicable_fixings['date'].max()
+        one_day = pd.DateOffset(days=1)
+        if observations_start.min() < first_fixing \
+            or (observations_end.max() > last_fixing
+                and np.busday_count((last_fixing + one_day).date(), (observations_end.max() + one_day).date()) > 0):
             raise ValueError('Observation period extends beyond available fixing data.')
 
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
@@ -64,7 +65,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From 7c09206cbb4e462b0bf521440f5a847bf81b88da Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 51/79] fix: frm.instruments could not be imported
 (discount_factor_from_zero_rate does not exist, it is a method of
 CompoundingFreq)

---
 frm/instruments/leg.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e220c1..1e86bd2 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -12,7 +12,6 @@ from frm.term_structures.swap_curve import TermSwapCurve, RFRSwapCurve
 from frm.utils import CouponSchedule, year_frac, MarketDataNotAvailableError
 from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod, DayCountBasis, PayRcv
 from frm.term_structures.zero_curve import ZeroCurve
-from frm.term_structures.zero_curve_helpers import discount_factor_from_zero_rate
 from scipy.optimize import root_scalar
 
 
@@ -393,10 +392,9 @@ class ZerocouponLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['zero_rate'] = coupon_override
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
@@ -408,10 +406,9 @@ class ZerocouponLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
-        multiplier = (1.0 / discount_factor_from_zero_rate(
+        multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'],
-            compounding_freq=self.compounding_freq)) - 1.0
+            zero_rate=self.schedule.df['zero_rate'])) - 1.0
         accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
         return accrued_interest
 
-- 
2.43.0


From df343d78540a697a56db8671b80cc9451cd310c1 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 52/79] fix: coupons and accrued interest of pay legs had the
 sign of received ones (the notional already carries it)

---
 frm/instruments/leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e86bd2..07a0602 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -264,7 +264,7 @@ class FixedLeg(Leg):
     def calc_coupon_payment(self, coupon_override=None):
         if coupon_override is not None:
             self.schedule.df['fixed_rate'] = coupon_override
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * self.schedule.df['fixed_rate'] * self.schedule.df['period_yearfrac']
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -364,7 +364,7 @@ class FloatRFRLeg(Leg):
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
-        accrued_interest = (self.pay_rcv.multiplier * self.schedule.df['notional'][current_period_idxs]
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
         return accrued_interest
@@ -395,7 +395,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=self.schedule.df['period_yearfrac'],
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        self.schedule.df['coupon_payment'] = self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        self.schedule.df['coupon_payment'] = self.schedule.df['notional'] * multiplier
         mask = pd.isna(self.schedule.df['coupon_payment_date'])
         self.schedule.df.loc[mask,'coupon_payment'] = 0.0
 
@@ -409,7 +409,7 @@ class ZerocouponLeg(Leg):
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
             zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest =  self.pay_rcv.multiplier * self.schedule.df['notional'] * multiplier
+        accrued_interest = self.schedule.df['notional'] * multiplier
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From ce94a9feb0b56580dfde2e2e5d961c209f7f4a9b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 53/79] fix: accrued interest included all coupons of the leg
 instead of the unsettled ones

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 07a0602..1e03d2a 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -145,7 +145,7 @@ class Leg(ABC):
             mask = (self.schedule.df['coupon_payment_date'] > frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] <= frm.utils.VALUE_DATE)
         if mask.sum() > 1:
             warnings.warn('Multiple periods found for unsettled cashflow calculation.')
-        unsettled_cashflows = self.schedule.df['coupon_payment'].sum()
+        unsettled_cashflows = self.schedule.df['coupon_payment'][mask].sum()
 
         if frm.utils.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW:
             if unsettled_cashflows > 0:
-- 
2.43.0


From 62c7d196889b4fa118f5fcb2773528d480cd9566 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 54/79] fix: accrued interest of a zero coupon leg was a column
 with one value per period instead of the one of the current period

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 1e03d2a..9d60164 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -408,8 +408,8 @@ class ZerocouponLeg(Leg):
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
             years=accrued_period_yearfrac,
-            zero_rate=self.schedule.df['zero_rate'])) - 1.0
-        accrued_interest = self.schedule.df['notional'] * multiplier
+            zero_rate=self.schedule.df['zero_rate'][current_period_idxs])) - 1.0
+        accrued_interest = (self.schedule.df['notional'][current_period_idxs] * multiplier).sum()
         return accrued_interest
 
     def _get_solved_field_name(self):
-- 
2.43.0


From dd3fdd23a44f8bfee2dcf897379b3cd3d78c22fe Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 55/79] fix: accrued interest of a term floating leg left out
 the fixing

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 9d60164..cd84f06 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -320,7 +320,7 @@ class FloatTermLeg(Leg):
             warnings.warn('Multiple periods found for accrual interest calculation.')
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
-                            * self.schedule.df['spread'][current_period_idxs]
+                            * self.schedule.df['coupon_rate'][current_period_idxs]
                             * accrued_period_yearfrac).sum()
         return accrued_interest
 
-- 
2.43.0


From 1355e4298dd4d572f4ad7f2d599d9867ce230c0c Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 56/79] fix: accrued interest raised when the value date is
 before the first or after the last period

---
 frm/instruments/leg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index cd84f06..456c8d9 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -272,6 +272,8 @@ class FixedLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if current_period_idxs.sum() == 0:
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0],
                                          frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
@@ -318,6 +320,8 @@ class FloatTermLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if current_period_idxs.sum() == 0:
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
@@ -363,6 +367,8 @@ class FloatRFRLeg(Leg):
         current_period_idxs = (self.schedule.df['period_start'] <= frm.utils.VALUE_DATE) & (self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if current_period_idxs.sum() == 0:
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE, day_count_basis=self.day_count_basis)
         accrued_interest = (self.schedule.df['notional'][current_period_idxs]
                             * self.schedule.df['coupon_rate'][current_period_idxs]
@@ -404,6 +410,8 @@ class ZerocouponLeg(Leg):
                     self.schedule.df['period_end'] > frm.utils.VALUE_DATE)
         if current_period_idxs.sum() > 1:
             warnings.warn('Multiple periods found for accrual interest calculation.')
+        if current_period_idxs.sum() == 0:
+            return 0.0
         accrued_period_yearfrac = year_frac(self.schedule.df['period_start'][current_period_idxs].iloc[0], frm.utils.VALUE_DATE,
                                          day_count_basis=self.day_count_basis)
         multiplier = (1.0 / self.compounding_freq.calc_discount_factor_from_zero_rate(
-- 
2.43.0


From 1bb1abf8dfa84784798758f6690ea4c5347ea382 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 57/79] fix: the non-current value of a leg counted notional
 payments in place of coupons

---
 frm/instruments/leg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 456c8d9..a5ec4bf 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -208,7 +208,7 @@ class Leg(ABC):
         else:
             current_period_idxs = self.schedule.df['coupon_payment_date'] < value_date_plus_one_year
         current += self.schedule.df['coupon_payment_pv'][current_period_idxs].sum()
-        non_current += self.schedule.df['notional_payment_pv'][~current_period_idxs].sum()
+        non_current += self.schedule.df['coupon_payment_pv'][~current_period_idxs].sum()
 
         return current, non_current
 
-- 
2.43.0


From 0ecadb9eba565f9290605640bb5b96c499d3ecff Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 58/79] fix: target_solve_swap solved for the value of one leg
 instead of the swap's

---
 frm/instruments/swap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/swap.py b/frm/instruments/swap.py
index 9e38984..b9ccf15 100644
--- a/frm/instruments/swap.py
+++ b/frm/instruments/swap.py
@@ -96,9 +96,9 @@ class Swap(ABC):
 
     def target_solve_swap(self, target_pv: float, leg_number: int):
         if leg_number == 1:
-            return self.leg1.target_solve(target_pv)
+            return self.leg1.target_solve(target_pv - self.leg2.calc_dirty_pv())
         elif leg_number == 2:
-            return self.leg2.target_solve(target_pv)
+            return self.leg2.target_solve(target_pv - self.leg1.calc_dirty_pv())
         else:
             raise ValueError('leg_number must be 1 or 2')
 
-- 
2.43.0


From 366733cd38b0240829c87653a261ca68cfdb6f33 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 59/79] fix: legs modified the schedule they were made from, a
 second leg of the same schedule failed or had the wrong sign

---
 frm/instruments/leg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index a5ec4bf..791569f 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from abc import ABC, abstractmethod
+import copy
 from dataclasses import dataclass
 import numpy as np
 import os
@@ -46,6 +47,9 @@ class Leg(ABC):
     settlement_ccy: str=None
 
     def __post_init__(self):
+        # The leg adds its own columns and signs the notional, legs may be made from the same schedule
+        self.schedule = copy.copy(self.schedule)
+        self.schedule.df = self.schedule.df.copy()
         self.schedule.df.loc[:,['notional', 'notional_payment']] = self.schedule.df[['notional', 'notional_payment']] * self.pay_rcv.multiplier
         self.schedule.add_period_daycount(day_count_basis=self.day_count_basis)
         self.schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
-- 
2.43.0


From 257c701d7d633a78156e762e050ca0fa5d357431 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 60/79] fix: the value of a leg left out the payments that
 cannot be valued (no fixing, no discount factor) in place of being NaN

---
 frm/instruments/leg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 791569f..144a167 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -188,7 +188,8 @@ class Leg(ABC):
                                                             self.schedule.df['coupon_discount_factor'])
         self.schedule.df['total_payment_pv'] = (self.schedule.df['notional_payment_pv'] +
                                                            self.schedule.df['coupon_payment_pv'])
-        return self.schedule.df['total_payment_pv'].sum()
+        # A payment that cannot be valued (NaN) is not left out of the value
+        return self.schedule.df['total_payment_pv'].sum(skipna=False)
 
     def calc_clean_pv(self):
         return self.calc_dirty_pv() - self.calc_accrued_interest()
-- 
2.43.0


From c7d885a960b25d669b79a215327109050d87f474 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 00:37:37 +0000
Subject: [PATCH 61/79] fix: solving left the coupon payments and values of the
 last trial rate in the schedule

---
 frm/instruments/leg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/instruments/leg.py b/frm/instruments/leg.py
index 144a167..3786512 100644
--- a/frm/instruments/leg.py
+++ b/frm/instruments/leg.py
@@ -121,7 +121,7 @@ class Leg(ABC):
         return solved_value
 
     def _solver_helper(self, solved_fieldname, target_value):
-        field_original_value = self.schedule.df[solved_fieldname].values.copy()
+        original_df = self.schedule.df.copy()
 
         def objective_function(overide):
             return self.calc_dirty_pv(coupon_override=overide) - target_value
@@ -134,7 +134,7 @@ class Leg(ABC):
                 solved_value = solution.root
         finally:
             # Ensure reset, even if the solver fails
-            self.schedule.df[solved_fieldname] = field_original_value
+            self.schedule.df = original_df
 
             return solved_value
 
-- 
2.43.0


From 04a0adcfefd2325fdae03aba5f52ccfc7216f597 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 62/79] fix: the Clewlow-Strickland simulation failed for a
 time horizon given as a float, which its documentation asks for

---
 frm/pricing_engine/clewlow_strickland_1_factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/clewlow_strickland_1_factor.py b/frm/pricing_engine/clewlow_strickland_1_factor.py
index d092fb3..71a8335 100644
--- a/frm/pricing_engine/clewlow_strickland_1_factor.py
+++ b/frm/pricing_engine/clewlow_strickland_1_factor.py
@@ -51,6 +51,7 @@ def clewlow_strickland_1_factor_simulate(forward_curve, nb_simulations, segments
 
     nb_simulations = int(nb_simulations)
     segments_per_day = int(segments_per_day)
+    nb_days = int(T)
     
     a = alpha
     σ = sigma
@@ -63,13 +64,13 @@ def clewlow_strickland_1_factor_simulate(forward_curve, nb_simulations, segments
     
     f = interp1d(forward_curve[:,0], forward_curve[:,1], kind='linear') # Interpolate the forward curve based on the steps 
     forward_curve_interp = f(tau)
-    index_spot = np.arange(T+1) * segments_per_day
+    index_spot = np.arange(nb_days+1) * segments_per_day
     ln_forward_curve_interp = np.log(forward_curve_interp)
     
     nb_simulations_per_loop = int(min(nb_simulations, MAX_SIMULATIONS_PER_LOOP // nb_steps))
     nb_loops = (nb_simulations + nb_simulations_per_loop - 1) // nb_simulations_per_loop
     
-    spot_px_result = np.zeros((T+1, nb_simulations))
+    spot_px_result = np.zeros((nb_days+1, nb_simulations))
     ln_spot_px = np.zeros((nb_steps+1, nb_simulations_per_loop))
     ln_spot_px[0, :] = ln_forward_curve_interp[0] # Set t=0 to the current spot price
     
-- 
2.43.0


From 8e6a044a86c3d97d1dd882d341e603068e9f0925 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 63/79] fix: the Hull-White drift ignored the curve (flat at
 the initial short rate), so the model did not reproduce its zero curve

---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..6f9bea3 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From 2ef4937bdd9435c78e2508cfedea6344305ca4d2 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 64/79] fix: Hull-White optionlets and swaptions failed, the
 bond option they call names its arguments differently

---
 frm/pricing_engine/hw1f.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 6f9bea3..74fccc1 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -300,8 +300,8 @@ class HullWhite1Factor:
 
 
     def price_zero_coupon_bond_option(self,
-                                      option_expiry: float,
-                                      bond_maturity: float,
+                                      expiry_years: float,
+                                      maturity_years: float,
                                       K: float,
                                       cp: int,
                                       t0: float=0):
@@ -331,8 +331,8 @@ class HullWhite1Factor:
 
         σ = self.vol
         α = self.mean_rev_lvl
-        T = np.atleast_1d(option_expiry) # Aligning to the notation in [1]
-        S = np.atleast_1d(bond_maturity) # Aligning to the notation in [1]
+        T = np.atleast_1d(expiry_years) # Aligning to the notation in [1]
+        S = np.atleast_1d(maturity_years) # Aligning to the notation in [1]
         K = np.atleast_1d(K)
         cp = np.atleast_1d(cp)
 
@@ -363,7 +363,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[bond_maturity < option_expiry] = 0.0
+        price[maturity_years < expiry_years] = 0.0
 
         return price
 
-- 
2.43.0


From be6eebd10dc3a5173309827f16a4d139bdde42b8 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 65/79] fix: the value of a Hull-White bond option without
 volatility was not discounted

---
 frm/pricing_engine/hw1f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 74fccc1..cee0542 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -360,7 +360,7 @@ class HullWhite1Factor:
         # Handle zero variance case (set to intrinsic value)
         if np.any(zero_σ_mask):
             F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = (P_t_T * np.maximum(cp * (F - K), 0.0))[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
         price[maturity_years < expiry_years] = 0.0
-- 
2.43.0


From 53e8759d9636a9ed5351a6b7e60bc8fa0d7c888b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 66/79] fix: Hull-White bond options failed for several
 strikes, or directions, of one expiry and maturity

---
 frm/pricing_engine/hw1f.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cee0542..fcdb92f 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -338,6 +338,7 @@ class HullWhite1Factor:
 
         max_dim = np.maximum.reduce([x.size for x in [T, S, K, cp]])
         assert all((x.size == 1) or (x.size == max_dim) for x in [T, S, K, cp]), "Arrays must be of size 1 or match maximum dimension"
+        T, S, K, cp = np.broadcast_arrays(T, S, K, cp)
 
         if not np.all(S > T):
             warnings.warn("Bond maturities should be after the bond option expiries")
@@ -363,7 +364,7 @@ class HullWhite1Factor:
             price[zero_σ_mask] = (P_t_T * np.maximum(cp * (F - K), 0.0))[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
-        price[maturity_years < expiry_years] = 0.0
+        price[S < T] = 0.0
 
         return price
 
-- 
2.43.0


From 5a9a3b52599bce54005d7ead059362e53a2968f6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 67/79] fix: a Hull-White swaption on a swap of one coupon
 failed

---
 frm/pricing_engine/hw1f.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index fcdb92f..45cb53f 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -626,7 +626,7 @@ class HullWhite1Factor:
         if not all(x < y for x, y in zip(coupon_payment_times[:-1], coupon_payment_times[1:])):
             raise ValueError("coupon_payment_times must be strictly increasing")
 
-        if notional_payment_time < coupon_payment_times[-2]:
+        if len(coupon_payment_times) > 1 and notional_payment_time < coupon_payment_times[-2]:
             raise ValueError("notional_payment_time must not be earlier than the 2nd to last coupon payment")
 
         # Find critical rate r* (x* in paper) by solving _zero_function(r*) = 0
-- 
2.43.0


From 18c3a5a4962a3e1b7385fe700816c9a91568b52d Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 68/79] fix: Hull-White swaptions left out the last coupon and
 multiplied every coupon option by every year fraction

---
 frm/pricing_engine/hw1f.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 45cb53f..1210f34 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -689,7 +689,7 @@ class HullWhite1Factor:
         )
 
         # Determine strikes and coefficients for each component bond option
-        coupon_strikes = critical_bond_prices[:-1]
+        coupon_strikes = critical_bond_prices[:len(coupon_payment_times)]
         notional_strike = critical_bond_prices[-1]
 
         # For a payer swaption:
@@ -707,7 +707,7 @@ class HullWhite1Factor:
                 maturity_years=payment_time,
                 K=strike,
                 cp=cp
-            ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
+            )[0] for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
         ])
 
         # Price the bond option for notional payment
@@ -716,7 +716,7 @@ class HullWhite1Factor:
             maturity_years=notional_payment_time,
             K=notional_strike,
             cp=cp
-        )
+        )[0]
 
         # Sum up the components with their coefficients:
         # 1. Coupon payments: multiply by fixed_rate * year_fraction
-- 
2.43.0


From df69db962c6eaa6b7ea3e96b9990ba9fdfeb30a1 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 69/79] fix: cash rate quotes without a tenor column, or with
 given effective dates, could not be bootstrapped

---
 frm/term_structures/bootstrap_helpers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6dc12fd..6fd792f 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -14,21 +14,23 @@ def cash_rates_quote_helper(
         day_count_basis: DayCountBasis,
         settlement_delay: Optional[int]=None,
         settlement_date: Optional[pd.Timestamp]=None,
-        cal: np.busdaycalendar=np.busdaycalendar):
+        cal: np.busdaycalendar=np.busdaycalendar()):
 
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     if settlement_date is None:
         assert settlement_delay is not None
         settlement_date = workday(dates=curve_date, offset=settlement_delay, cal=cal)
 
     if 'effective_date' not in df.columns:
-        df['has_settlement_delay'] = df['tenor'] != 'on'
-        df.loc[~df['has_settlement_delay'],'effective_date'] = curve_date
-        df.loc[df['has_settlement_delay'],'effective_date'] = settlement_date
+        is_overnight = df['tenor'] == 'on'
+        df.loc[is_overnight,'effective_date'] = curve_date
+        df.loc[~is_overnight,'effective_date'] = settlement_date
+    df['has_settlement_delay'] = df['effective_date'] > curve_date
 
     if 'maturity_date' not in df.columns:
         date_offset = df['tenor'].apply(tenor_to_date_offset).values
-- 
2.43.0


From 1d639e5a5c4ddd4e1a57d3464bbce97eb4474557 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 70/79] fix: the cash rate bootstrap failed unless a quote
 matures on either side of each effective date

---
 frm/term_structures/bootstrap_helpers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6fd792f..9ee536c 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -59,10 +59,16 @@ def bootstrap_cash_rates(
             mask = df['maturity_date'] <= row['effective_date']
 
             x = row['effective_date_years']
-            X = df.loc[mask, 'maturity_date_years'].values
-            Y = np.log(df.loc[mask, 'maturity_date_discount_factor'].values)
-            interp_func = interp1d(X, Y, kind='linear')
-            df.at[i, 'effective_date_discount_factor'] = np.exp(interp_func(x))
+            if mask.any():
+                # Log-linear in the discount factors, from the discount factor of 1 at the curve date.
+                X = np.append(0.0, df.loc[mask, 'maturity_date_years'].values)
+                Y = np.append(0.0, np.log(df.loc[mask, 'maturity_date_discount_factor'].values))
+                interp_func = interp1d(X, Y, kind='linear', fill_value='extrapolate')
+                df.at[i, 'effective_date_discount_factor'] = np.exp(interp_func(x))
+            else:
+                # Log-linear from the curve date to the maturity date of the quote.
+                df.at[i, 'effective_date_discount_factor'] = (1 + row['rate'] * row['period_years']) \
+                    ** (-x / (row['maturity_date_years'] - x))
 
             df.at[i, 'maturity_date_discount_factor'] = df.at[i, 'effective_date_discount_factor'] \
                                                                 / (1 + row['rate'] * row['period_years'])
-- 
2.43.0


From 740f5198218d679c32925a0b34e13054dd042475 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 71/79] fix: the futures bootstrap failed without a price
 column and gave NaN for a single cash rate

---
 frm/term_structures/bootstrap_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 9ee536c..68d4824 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -89,7 +89,7 @@ def bootstrap_futures(
     if 'futures_rate' not in df.columns:
         df['futures_rate'] = (100 - df['price']) / 100
     if 'convexity_bps' not in df.columns:
-        df.insert(df.columns.get_loc('price') + 1, 'convexity_bps', 0)
+        df['convexity_bps'] = 0
     if 'forward_rate' not in df.columns:
         df['forward_rate'] = df['futures_rate'] - df['convexity_bps'] / 10000
 
@@ -97,8 +97,9 @@ def bootstrap_futures(
     df['effective_date_years'] = year_frac(curve_date, df['effective_date'], day_count_basis_years)
     df['maturity_date_years'] = year_frac(curve_date, df['maturity_date'], day_count_basis_years)
 
-    X = cash_rates_df['maturity_date_years'].values
-    Y = np.log(cash_rates_df['maturity_date_discount_factor'].values)
+    # Log-linear in the discount factors, from the discount factor of 1 at the curve date.
+    X = np.append(0.0, cash_rates_df['maturity_date_years'].values)
+    Y = np.append(0.0, np.log(cash_rates_df['maturity_date_discount_factor'].values))
 
     df.sort_values(by='effective_date', inplace=True)
     df.reset_index(inplace=True, drop=True)
-- 
2.43.0


From 62f3943a1ec3a0e0d336e786d75965489885a415 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 72/79] fix: ASX bank bill futures tickers with two or four
 digit year codes were refused

---
 frm/term_structures/bootstrap_helpers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 68d4824..8908aa6 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -137,11 +137,10 @@ def futures_helper_asx_90day(
             assert futures_month_code.isin(['H', 'M', 'U', 'Z']).all() # 'H', 'M', 'U', 'Z' for Mar, Jun, Sep, Dec
             df['months'] = futures_month_code.map({'H': 3, 'M': 6, 'U': 9, 'Z': 12})
 
-            assert df['ticker'].str.len().isin([1, 2, 4]).all()
-            futures_year_code = df['ticker'].str[3:].astype(int)  # 1-4-digit year code
+            futures_year_code = df['ticker'].str[3:]  # 1-4-digit year code
+            assert futures_year_code.str.len().isin([1, 2, 4]).all()
 
-            def resolve_year(year_code):
-                year_code_str = str(year_code)
+            def resolve_year(year_code_str):
                 if len(year_code_str) == 1:
                     # Map single-digit year codes to 2020-2029
                     # TODO: does not support cases where the futures schedule spans multiple decades. i.e from 2028-2031.
-- 
2.43.0


From ae9d9a6ff286466a6e71ba0aeb0be678e1d54023 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 73/79] fix: ASX bank bill futures not in order of expiry, or
 listed twice, got the dates of another contract

---
 frm/term_structures/bootstrap_helpers.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 8908aa6..d67d7a6 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -164,18 +164,14 @@ def futures_helper_asx_90day(
 
 
     expiry_dates, settlement_dates = [], []
-    for years in range(df['years'].min(), df['years'].max()+1):
-        for months in [3, 6, 9, 12]:
-            if ((df['years'] == years) & (df['months'] == months)).any():
-                # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
-                # Start from the 1st of the month and get all Fridays in the month
-                month_start = pd.Timestamp(year=years, month=months, day=1)
-                fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
-                settlement_date = fridays[1] # Get the second Friday
-                settlement_dates.append(settlement_date)
-
-                # Expiry date is the business day before settlement date
-                expiry_dates.append(settlement_date - pd.offsets.BDay(1))
+    for years, months in zip(df['years'], df['months']):
+        # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
+        month_start = pd.Timestamp(year=years, month=months, day=1)
+        settlement_date = month_start + pd.DateOffset(days=(4 - month_start.dayofweek) % 7 + 7)
+        settlement_dates.append(settlement_date)
+
+        # Expiry date is the business day before settlement date
+        expiry_dates.append(settlement_date - pd.offsets.BDay(1))
 
     df['expiry_date'] = expiry_dates
     df['settlement_date'] = settlement_dates
-- 
2.43.0


From 734d6202b718d07f06beb86e9ef7d36ef6652702 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 74/79] fix: FX forward curves and volatility quotes given by
 dates, without a tenor column, were refused

---
 frm/term_structures/fx_helpers.py            | 5 +++--
 frm/term_structures/fx_volatility_surface.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..a246497 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -42,7 +43,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
         elif pd.notna(row[rate_set_date_str]):
             rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 970ba78..9e295c8 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -86,7 +86,10 @@ class FXVolatilitySurface:
                                                            curve_date=self.curve_date,
                                                            spot_offset=self.spot_offset,
                                                            cal=self.cal)
-        mask = self.fx_forward_curve_df['tenor'] == 'sp'
+        if 'tenor' in self.fx_forward_curve_df.columns:
+            mask = self.fx_forward_curve_df['tenor'] == 'sp'
+        else:
+            mask = self.fx_forward_curve_df['delivery_date'] == self.spot_date
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-- 
2.43.0


From 1e8a8e09a28d044036798032d34188a30bee656b Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 75/79] fix: FX quotes given by their fixing or expiry date
 failed (and would have been delivered before it)

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index a246497..9ddcab9 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -41,8 +41,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
         if pd.notna(row['delivery_date']):
             pass
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
-- 
2.43.0


From 92df5c3ccb05acf79e7cecbb87aabdc542a89cba Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 76/79] fix: FX quotes given by their delivery date had no
 fixing or expiry date

---
 frm/term_structures/fx_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 9ddcab9..40431ed 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -34,12 +34,14 @@ def fx_term_structure_helper(df: pd.DataFrame,
         df[column] = df[column].astype('datetime64[ns]')
 
     # Input hierarchy is:
-    # 1. Use the delivery date if it is available.
+    # 1. Use the delivery date if it is available, and calculate the rate-set date from it if that is not available.
     # 2. Otherwise, calculate the delivery date from the rate-set date ('fixing_date' for forwards, 'expiry_date' for options
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
             rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
-- 
2.43.0


From 9d8d6e515189e80e84a573ac9e52437667f1dfc6 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 77/79] fix: making an FX volatility surface modified the
 forward curve and volatility quotes it was given

---
 frm/term_structures/fx_helpers.py            | 3 ++-
 frm/term_structures/fx_volatility_surface.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 40431ed..f5ee7bc 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,6 +21,7 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
+    df = df.copy()
     if 'tenor' in df.columns:
         df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
@@ -71,7 +72,7 @@ def fx_forward_curve_helper(fx_forward_curve_df: pd.DataFrame,
                             spot_offset: int,
                             cal: np.busdaycalendar) -> pd.DataFrame:
 
-    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df)
+    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df.copy())
 
     mandatory_columns = ['fx_forward_rate']
     for column in mandatory_columns:
diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 9e295c8..8373fa9 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -93,7 +93,7 @@ class FXVolatilitySurface:
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-        vol_quotes = clean_vol_quotes_column_names(vol_quotes)
+        vol_quotes = clean_vol_quotes_column_names(vol_quotes.copy())
         vol_quotes_call_put = solve_call_put_quotes_from_strategy_quotes(vol_quotes)
         delta_smile_quote_details = get_delta_smile_quote_details(vol_quotes_call_put)
         self.quotes_column_names = np.array(delta_smile_quote_details['quotes_column_names'].to_list())
-- 
2.43.0


From d47f45f46e168a9725b564272f692d8e406abc5f Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 78/79] fix: the warning about the delta convention failed for
 volatility quotes without a tenor column

---
 frm/term_structures/fx_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index f5ee7bc..eda8206 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -108,12 +108,13 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
+    quote_name = next(col for col in ['tenor', 'expiry_date', 'delivery_date'] if col in df.columns)
     bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
         warnings.warn('The delta_convention is premium_adjusted for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, quote_name].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the regular delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
@@ -126,7 +127,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     if bool_cond.any():
         warnings.warn('The delta_convention is regular for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, quote_name].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the premium adjusted delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
-- 
2.43.0


From 1292ba173c439b08a2c1e942df758bafad3b65d8 Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 79/79] fix: the regular delta was not recognised as the market
 convention of eurusd

---
 frm/term_structures/fx_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index eda8206..38747c3 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -109,7 +109,7 @@ def validate_ccy_pair(ccy_pair):
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     quote_name = next(col for col in ['tenor', 'expiry_date', 'delivery_date'] if col in df.columns)
-    bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
+    bool_cond = np.logical_and(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
@@ -119,7 +119,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
     conditions_for_premium_adjusted_delta_convention = [
-        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
+        np.full(len(df), np.logical_not(ccy_pair in ['audusd', 'eurusd', 'gbpusd', 'nzdusd', 'usdaud', 'usdeur', 'usdgbp', 'usdnzd'])),
         np.full(len(df), 'usd' in ccy_pair),
         df['delta_convention'].str.contains('regular').values]
     bool_cond = np.logical_and.reduce(conditions_for_premium_adjusted_delta_convention)
-- 
2.43.0

