prop("C01", "Day counts and year fractions follow the published conventions",
     "For any start date not after the end date, and for each of the seven supported conventions, the day count and the year fraction equal the published formula (actual days; 30/360, 30E/360 and 30E/360 ISDA day-of-month rules including end-of-February and termination-date treatment; ACT/ACT as the sum over calendar years of days over days-in-year). Scalars and vectors of any length give the same per-pair value, one value per date pair, and a start after the end is rejected.",
     ["inputs"], "all pairs of dates 1902-2198, vectors of any length, all seven conventions, all termination-flag settings",
     "The unit tests compare a handful of date pairs per convention; the formulas must hold for every pair (leap years, month ends, multi-year spans) and every vector shape.",
     ["frm/utils/daycount.py", "frm/enums/utils.py"], [("day_count", "frm/utils/daycount.py"), ("year_frac", "frm/utils/daycount.py")],
     observe=["return values of day_count and year_frac"])
prop("C02", "Black-76 and Bachelier prices and greeks are mutually consistent",
     "For every forward, strike, time to expiry, volatility, annuity factor and shift in the models' domain, prices equal the (shifted-)Black-76 and Bachelier formulas, call minus put equals annuity times (forward minus strike), price splits exactly into an intrinsic part and a time-value part, and price at zero time equals the intrinsic value. Every analytical greek is the stated derivative of the returned price in its stated unit (vega per 1% for Black-76 and per basis point for Bachelier, theta per calendar day), and numerical greeks are the central differences of the same price. Vector inputs of any length behave element by element.",
     ["inputs"], "all real inputs in the models' domains, vectors of any length, calls and puts",
     "Unit tests compare isolated prices with literature values; derivative, parity and decomposition identities quantify over the whole domain and several are not tested at all.",
     ["frm/pricing_engine/black76_bachelier.py"], [("black76_price", "frm/pricing_engine/black76_bachelier.py"), ("bachelier_price", "frm/pricing_engine/black76_bachelier.py")])
prop("C03", "Implied-volatility solvers and volatility conversions reprice the option",
     "A volatility returned by an implied-volatility solver (Black-76 or Bachelier) reprices the option it was solved from within the solver's tolerance, and the conversions between normal, lognormal and shifted-lognormal volatility preserve the at-the-money option price exactly where a closed form is used and the option price within tolerance elsewhere. A solver never returns a volatility that fails to reprice: it raises instead. Conversions with an unchanged shift return the same volatility.",
     ["inputs"], "all forwards, strikes, expiries, shifts and volatilities in the models' domains",
     "Tests solve a few sample points; the guarantee is about every root the solver can return, including at-the-money and extreme strikes.",
     ["frm/pricing_engine/black76_bachelier.py"], [("black76_solve_implied_vol", "frm/pricing_engine/black76_bachelier.py"), ("normal_vol_to_black76_sln", "frm/pricing_engine/black76_bachelier.py")])
prop("C04", "Rates and discount factors convert consistently in every compounding convention",
     "For each of the eight compounding conventions (continuous, simple, daily, weekly, monthly, quarterly, semi-annual, annual), the discount factor of a zero rate equals the convention's defining formula, is positive, and converting a rate to a discount factor and back (or a discount factor to a rate and back) is the identity. Converting a rate from any convention to any other keeps the one-year discount factor (and the discount factor at every horizon when neither is simple), and converting back returns the original rate. Scalars and vectors give the same value per element.",
     ["inputs"], "all rates, discount factors and horizons in the conventions' domains, all 64 pairs of conventions, scalars and vectors of any length",
     "No unit test checks the conversions' identities; they are relied on by every curve, leg and swap.",
     ["frm/enums/utils.py"], [("CompoundingFreq.calc_discount_factor_from_zero_rate", "frm/enums/utils.py"), ("CompoundingFreq.convert_rate_to", "frm/enums/utils.py")])
prop("C06", "Garman-Kohlhagen prices and greeks are arbitrage-consistent and coherent",
     "For every spot, strike, expiry, volatility and pair of rates, the Garman-Kohlhagen price equals the published formula, call minus put equals the discounted forward minus strike, the price splits exactly into intrinsic and time value, and every analytical greek is the stated derivative of that price in its stated unit (delta in each delta convention, vega per 1%, theta per day, rho per 1%, gamma, vanna, volga). Numerical greeks are the central differences of the same price. Supplying the market forward is equivalent to supplying the rate that implies it. Vector inputs behave element by element and caller arrays are not modified.",
     ["inputs"], "all real inputs in the model's domain, scalars and vectors of any length, calls and puts, all delta conventions",
     "Unit tests compare isolated prices; parity, derivative and decomposition identities quantify over the whole domain.",
     ["frm/pricing_engine/garman_kohlhagen.py"], [("garman_kohlhagen_price", "frm/pricing_engine/garman_kohlhagen.py")])
prop("C07", "FX delta and strike are inverse to each other in every delta convention",
     "For each delta convention (spot, forward, each with and without premium adjustment), the strike solved from a delta, an expiry and a volatility reproduces exactly that delta when the option's delta is computed at that strike; the at-the-money delta-neutral straddle strike makes call and put deltas cancel. For premium-adjusted calls the strike search picks the branch above the maximum delta. Vectors give the same value per element.",
     ["inputs"], "all spots, rates, expiries, volatilities and attainable deltas, calls and puts, all four conventions, vectors of any length",
     "The round trip must hold for every quote; tests sample a few market quotes and only some conventions.",
     ["frm/pricing_engine/garman_kohlhagen.py"], [("garman_kohlhagen_solve_strike_from_delta", "frm/pricing_engine/garman_kohlhagen.py")])
prop("C08", "SABR volatilities follow Hagan (2002) and alpha reproduces the ATM quote",
     "For every forward, strike, expiry and SABR parameter set in range, the smile function returns Hagan's formula (2.17) away from the money and (2.18) at the money, one volatility per strike, for scalar strikes, strike vectors and parameter vectors alike, with the lognormal shift applied to forward and strike, and without modifying the caller's arrays. The alpha solved from an at-the-money quote reproduces that quote exactly through the same smile function. Calibration returns parameters inside their documented ranges which reproduce the at-the-money quote, honours a beta override and reports the objective of the parameters it returns.",
     ["inputs"], "all forwards, strikes, expiries, betas in [0,1], correlations in (-1,1), vol-of-vols > 0, shifts; vectors of any length",
     "Tests compare a few published smiles; the formula and the alpha inversion must hold for every parameter set including the at-the-money window.",
     ["frm/pricing_engine/sabr.py"], [("calc_sln_vol_for_strike_from_sabr_params", "frm/pricing_engine/sabr.py"), ("solve_alpha_from_sln_vol", "frm/pricing_engine/sabr.py"), ("fit_sabr_params_to_sln_smile", "frm/pricing_engine/sabr.py")])
prop("C09", "Volatility is interpolated in time with flat forward variance",
     "For every pair of pillars with t1 <= t2, the forward volatility between them is the non-negative root that makes total variance additive (v1^2 t1 + f^2 (t2 - t1) = v2^2 t2), and a volatility interpolated at t1 <= t <= t2 makes total variance linear in time between the pillars and reproduces the pillars' own volatilities. t2 before t1 and a negative forward variance are rejected. Scalars, vectors and smile matrices behave element by element, and arguments are not modified.",
     ["inputs"], "all pillar times and volatilities, scalars, vectors and matrices of any size, integer or real volatilities",
     "No unit test covers these functions; the fx volatility surface relies on them for every date between two expiries.",
     ["frm/pricing_engine/volatility_generic.py"], [("forward_volatility", "frm/pricing_engine/volatility_generic.py"), ("flat_forward_interp", "frm/pricing_engine/volatility_generic.py")])
prop("C10", "Simulated GBM paths follow the exact log-normal step for every underlying",
     "For every time grid, number of underlyings and number of simulations, a simulated geometric Brownian motion path starts at its underlying's initial price and every step multiplies it by exp((drift - vol^2/2) dt + vol sqrt(dt) z) with that underlying's own drift and volatility, that step's length and that step's own random number; prices stay positive, the result has one row per step plus the start, and arguments are not modified.",
     ["inputs"], "all drifts, volatilities, initial prices (scalars or per underlying, per step), time grids, numbers of underlyings and simulations",
     "No reliable unit test checks the path recurrence; it must hold at every step of every path.",
     ["frm/pricing_engine/geometric_brownian_motion.py"], [("simulate_gbm_path", "frm/pricing_engine/geometric_brownian_motion.py")])
prop("C11", "Random numbers are reproducible, antithetic in pairs and correctly correlated",
     "For every number of steps, variables and simulations (even or odd), the generated array has one number per step, variable and simulation; with antithetic variates every second simulation is the negative of the one before it and no draw is reused, and the same seed gives the same numbers. Correlating independent draws with a correlation matrix gives a linear map of the same draw whose covariance is exactly that matrix, for two- and three-dimensional layouts.",
     ["inputs"], "all sizes, seeds and antithetic settings; all positive definite correlation matrices of 2 and 3 variables (proof), up to 5 (run time)",
     "A statistical test cannot distinguish a wrong covariance factor or a missing draw; the algebraic identities hold or fail exactly.",
     ["frm/pricing_engine/monte_carlo_generic.py"], [("generate_rand_nbs", "frm/pricing_engine/monte_carlo_generic.py"), ("normal_corr", "frm/pricing_engine/monte_carlo_generic.py")])

prop("C12", "All Heston pricing methods and simulation schemes implement one Heston model",
     "For every admissible parameter set, both characteristic functions solve the Heston backward equation with the right initial condition; the Heston 1993, Carr-Madan and Lewis-Lipton integrands and the COS coefficients are the transforms of that same characteristic function, and prices satisfy put-call parity and are assembled per option of the book, so all pricing methods agree up to numerical integration error. A market price of volatility risk lambda (Heston 1993) prices as the model with mean reversion kappa + lambda and level kappa theta / (kappa + lambda). The COS truncation range is centred at the mean and scaled by the standard deviation of the log return. Simulated paths start at the initial state, keep the variance non-negative, and each step matches the exact conditional mean and variance of the variance process (quadratic-exponential) or the documented Euler step.",
     ["inputs"], "all model parameters, strikes, books, step counts and path counts (proof); quadrature, FFT-grid and series-truncation error only at run time with stated tolerances",
     "Agreement of five pricing methods at a few sampled points hides terms that vanish there; the transforms are compared as functions of the integration variable and of every parameter.",
     ["frm/pricing_engine/heston.py", "frm/pricing_engine/cosine_method_generic.py"], [("chf_heston_albrecher2007", "frm/pricing_engine/heston.py"), ("heston_simulate", "frm/pricing_engine/heston.py"), ("get_cos_truncation_range", "frm/pricing_engine/cosine_method_generic.py")])
prop("C13", "Hull-White bonds, options and paths agree with the curve and with each other",
     "For every positive mean reversion and volatility, curve, expiry before maturity, strike and direction, scalar or array: the model's drift is df/dt + alpha f + sigma^2/(2 alpha)(1 - exp(-2 alpha t)), with f the curve's instantaneous forward rate, so that model bond prices today are the curve's discount factors; bond prices at later times are the affine formulae in the short rate. Bond options have the Hull-White (Brigo-Mercurio 3.40/3.41) value and satisfy put-call parity with the curve's discount factors; without volatility they are worth the discounted intrinsic value; caplets and floorlets are the bond options they decompose into. A swaption is the sum of bond options on every coupon and on the notional, struck at the bond prices at the rate where the fixed leg is worth par. Simulated rates start at the initial short rate and take the Euler, Runge-Kutta or exact step; simulated discount factors accumulate the trapezoidal integral of the rate.",
     ["inputs"], "any parameters with mean reversion at least 1e-8, any array length, number of steps and coupons (proof; quadrature, spline and root finder exact); their accuracy at run time on random curves",
     "The formulae quantify over expiries, strikes, curves and steps; tests check one flat curve and two options.",
     ["frm/pricing_engine/hw1f.py"], [("HullWhite1Factor.price_zero_coupon_bond_option", "frm/pricing_engine/hw1f.py"), ("HullWhite1Factor.price_swaption", "frm/pricing_engine/hw1f.py"), ("HullWhite1Factor.simulate", "frm/pricing_engine/hw1f.py"), ("HullWhite1Factor.get_thetas", "frm/pricing_engine/hw1f.py")])
prop("C14", "Zero curves reproduce their pillars; all rates come from one discount function",
     "For any pillars (given by date, days, years or tenor; as discount factors or zero rates of any compounding), interpolation method and day count basis, the curve is 1 at its own date, returns each pillar's discount factor (or rate) at that pillar, and between pillars is the stated interpolant. Every zero rate, forward rate, instantaneous forward and index returned for any dates, days or years is derived from that one discount function; lookups return one value per request in the order given, agree across input kinds, and follow the extrapolation method outside the grid. Flat shift moves the continuous zero rates by the stated amount, and the caller's inputs are not modified.",
     ["inputs"], "all pillars (any number, any order), rates, lookup dates/years and both extrapolation methods (proof, library contracts for frames and interpolation); tenor strings and averaged overnight forward rates at run time only",
     "Pillar reproduction and consistency between rates must hold for every pillar set, interpolation, compounding, container and extrapolation combination; tests sample one curve.",
     ["frm/term_structures/zero_curve.py"], [("ZeroCurve.get_discount_factors", "frm/term_structures/zero_curve.py"), ("ZeroCurve.get_zero_rates", "frm/term_structures/zero_curve.py"), ("ZeroCurve.get_forward_rates", "frm/term_structures/zero_curve.py")])
prop("C15", "Schedules cover the term without gaps and honour the stated dates",
     "For every start and end date, period frequency, roll convention, day roll, business-day calendar and stub choice, a schedule starts on the (rolled) start date, ends on the (rolled) end date, and each period starts where the previous one ends. The inner dates are exactly the regular dates counted as whole multiples of the period from the anchor (the end date backward, or the start date forward when the stub is at the end), put on the roll day or the last day of a shorter month, then rolled; none is missing; a long stub joins the stub with its neighbour. Explicitly given first-period end and last-period start dates are honoured. Notional payments of a schedule add up to the notional exchanged, payment dates are the rolled period dates plus the delay, and day counts and year fractions are those of the periods.",
     ["inputs"], "all dates 1950-2100, all frequencies and rolling conventions, any number of periods, any calendar (proof); notional, payment-date and exposure-grid tables at run time only",
     "Stub, roll and end-of-month interactions depend on the dates and calendar in combination; tests compare a few schedules, and several branches had never been executed.",
     ["frm/utils/schedule.py", "frm/enums/utils.py"], [("generate_date_schedule", "frm/utils/schedule.py"), ("make_schedule", "frm/utils/schedule.py"), ("add_notional_schedule", "frm/utils/schedule.py")])
prop("C16", "Tenors, business-day offsets and spot dates are consistent",
     "For every tenor text in any supported spelling (number of days, weeks, months, years, or years and months; overnight, tomorrow-next, spot, spot-next), cleaning and parsing it gives the date offset it names, and other texts are refused. Adding business days starts from the first business day on or after the date; the offset implied by two dates is the smallest number of business days from the first that reaches the second, so it inverts adding business days; curve date, spot offset and spot date resolve consistently whichever of them are given, contradictory ones are refused, and currency pairs settle with their market lag in either quotation order. A calendar built for several currencies or locations has as business days exactly those of all its members.",
     ["inputs"], "every number in a tenor text (one to three digits), all dates 1950-2100 and any calendar, every weekend (proof); union of the stored holiday calendars at run time only",
     "Parsing, rolling and day counting quantify over every numeral, date and calendar; tests check about a dozen tenor strings and no calendar.",
     ["frm/utils/tenor.py", "frm/utils/business_day_calendar.py"], [("tenor_to_date_offset", "frm/utils/tenor.py"), ("resolve_fx_curve_dates", "frm/utils/tenor.py"), ("get_busdaycal", "frm/utils/business_day_calendar.py")])
prop("C19", "Floating coupons use fixings, forwards or both, each where it applies",
     "For any set of coupon periods and any curve date: a period that starts on or after the curve date gets the zero curve's forward rate of exactly its own dates and rate type; an overnight-rate period that ends on or before the curve date gets the rate of its historical fixings; one that spans the curve date combines the two parts (compounded parts compound, averaged parts average by length); a term-rate period that starts earlier gets the last fixing on or before its start. The order of the periods is kept. Historical overnight rates compound or average, over every calendar day of the period, the fixing in force on that day (the last one on or before it, in whatever order the fixings are supplied), or take the mean of the fixings dated in the period; a period is refused exactly when the fixings do not cover it. Both parts of a curve must use the same day count.",
     ["inputs"], "any number of periods and fixings, all dates (proof; forward rates and year fractions by their contracts)",
     "Which source a period uses depends on three dates, and which fixing is in force on each day depends on the whole fixing history; no test calls this code (the only test file for it is commented out).",
     ["frm/term_structures/swap_curve.py", "frm/term_structures/historical_swap_index_fixings.py"], [("TermSwapCurve.get_fixings", "frm/term_structures/swap_curve.py"), ("RFRSwapCurve.get_fixings", "frm/term_structures/swap_curve.py"), ("RFRFixings.get_coupon_rates", "frm/term_structures/historical_swap_index_fixings.py"), ("TermFixings.index_historical_fixings", "frm/term_structures/historical_swap_index_fixings.py")])
prop("C21", "Leg and swap values are their discounted future payments, signed and additive",
     "For any payment schedule, direction, notionals and rates: the coupon of each period of a fixed or zero-coupon leg is the interest on the signed notional at the period's rate over its year fraction, the value of a leg is the sum of all notional and coupon payments after the value date (or on it, where the settings include it) times the curve's discount factors of their own payment dates, a pay leg being exactly the negative of the received one. Accrued interest is the current period's interest from its start to the value date plus the coupons of ended periods that are not yet paid, clean value is value less accrued interest; the current and non-current parts and the buckets partition the payments by date. A solved rate makes the leg (or the swap, given the other leg) worth the target, and leaves the leg as it was. The notional payments are the first notional paid out at an initial exchange, the reduction of the notional after each period and, with a final exchange, what is outstanding at the end. A swap is the sum of two legs of opposite direction, and legs do not modify the schedule they are made from.",
     ["inputs"], "any number of rows, all dates, notionals and rates, any discount curve, both settings for payments on the value date (proof); discounting through real curves and the root finder's accuracy at run time",
     "Which payments and periods count depends on the value date relative to every date of the schedule; the only tests construct legs and cannot even be imported on the original tree.",
     ["frm/instruments/leg.py", "frm/instruments/swap.py"], [("Leg.calc_dirty_pv", "frm/instruments/leg.py"), ("Leg.calc_accrued_interest", "frm/instruments/leg.py"), ("Leg._solver_helper", "frm/instruments/leg.py"), ("Swap.target_solve_swap", "frm/instruments/swap.py")])
prop("C22", "Clewlow-Strickland paths take the mean-reverting step around the forward curve",
     "For any forward curve, horizon, steps per day, number of simulations, mean reversion and volatility: the simulation returns one row per day including today and one column per simulation; every path starts at the front of the forward curve; between consecutive time steps the log price of a path moves by the change of the log of the (linearly interpolated) forward curve, plus mean reversion towards the forward price, less the convexity term sigma^2/4 (1 + exp(-2 a t)) dt, plus sigma sqrt(dt) times its own normal number; row d is the price after d days. When the simulations do not fit in one batch, every simulation still gets a column and random numbers of its own and no column is left empty. Without volatility the path is the forward curve. The forward curve given is not modified.",
     ["inputs"], "any sizes, curve and parameters; one batch and two batches (proof), up to 12 batches at run time",
     "The path recurrence, the day rows and the batch columns depend on every index, and no test runs more than one batch.",
     ["frm/pricing_engine/clewlow_strickland_1_factor.py"], [("clewlow_strickland_1_factor_simulate", "frm/pricing_engine/clewlow_strickland_1_factor.py")])
prop("C20", "Bootstrapped curves reprice the cash rates and futures they are built from",
     "For any cash rate quotes (rates, dates or tenors, in any row order): a quote is effective on the curve date when overnight and on the settlement date otherwise unless its effective date is given, matures at its tenor rolled to a business day unless its maturity is given, and its period is the day count fraction between the two. The bootstrap gives every quote discount factors with DF(maturity) = DF(effective) / (1 + rate * period): DF(effective) is 1 on the curve date, otherwise it is read log-linearly (beyond the last node too) off the node with factor 1 at the curve date and the quotes that mature by the effective date, with the factors just found; if none does, the factor is log-linear from the curve date to the quote's own maturity. The futures bootstrap does the same for each contract in order of effective date, with forward rate = (100 - price)/100 less the convexity adjustment in basis points unless a rate is given, on the curve date, the cash rates and the contracts before. ASX bank bill futures get, row by row in whatever order, settlement on the second Friday of their delivery month, expiry the day before, and a rate that runs three months from settlement to a Sydney business day; tickers name month H/M/U/Z and a year of 1, 2 or 4 digits.",
     ["inputs"], "any number of quotes and contracts, any dates and rates with 1 + rate * period > 0 and maturity after effective date; distinct maturities; tickers by complete enumeration",
     "Each discount factor depends on all rows bootstrapped before it and on the order of the rows; the repository has no test of it.",
     ["frm/term_structures/bootstrap_helpers.py"], [("bootstrap_cash_rates", "frm/term_structures/bootstrap_helpers.py"), ("bootstrap_futures", "frm/term_structures/bootstrap_helpers.py"), ("cash_rates_quote_helper", "frm/term_structures/bootstrap_helpers.py"), ("futures_helper_asx_90day", "frm/term_structures/bootstrap_helpers.py")])
prop("C18", "FX surfaces reproduce their quotes: delivery dates, forwards, smiles and prices",
     "For any FX forward curve and volatility quotes, given by tenor, fixing (expiry) date or delivery date and in any row order: dates that are given are kept, the fixing of a tenor is the curve date plus the tenor rolled to a business day, delivery is the spot offset in business days after the fixing, and fixing that offset before a given delivery; the result has one row per quote in order of delivery. The forward rate of a date is linear in time between the neighbouring quotes, the quote itself at a quoted date and flat outside. Risk reversals and butterflies become call and put volatilities ATM + BF +/- RR/2; every quote column carries the delta and the sign its name says, in order from put to call through at-the-money. On every day from the first to the last expiry the smile has flat forward variance between the neighbouring expiries and is the quotes at their own expiry, with the forward, domestic and foreign rates of that day. The volatility of an option is read at its own strike off the spline through the strikes and volatilities of its own expiry, whatever the order of the options, and its price is the Garman-Kohlhagen price of those inputs. The quotes given are not modified.",
     ["inputs"], "any number of quotes, dates and options with symbolic values (proof); quote column names by complete enumeration of the spellings; the pandas time interpolation, spline accuracy and the whole surface at run time; smiles by spline (the Heston smiles rest on the pricing of C12 and a calibration)",
     "Which quote, expiry or date a number belongs to depends on every row of several joined and sorted tables; the one test compares the prices of one surface with stored numbers.",
     ["frm/term_structures/fx_helpers.py", "frm/term_structures/fx_volatility_surface.py"], [("fx_term_structure_helper", "frm/term_structures/fx_helpers.py"), ("interp_fx_forward_curve_df", "frm/term_structures/fx_helpers.py"), ("FXVolatilitySurface.interp_vol_surface", "frm/term_structures/fx_volatility_surface.py"), ("FXVolatilitySurface._setup_vol_smile_daily_df", "frm/term_structures/fx_volatility_surface.py")])
