YC = SRC + 'curves/yield_curves/yield_curve.py'
KR = SRC + 'risk/key_rate.py'
RM = SRC + 'risk/risk_metrics.py'
SWAP = SRC + 'assets/rates/linear_rates/interest_rate_swap.py'
LOAN = SRC + 'assets/credit/loan.py'
PORT = SRC + 'portfolio/base_portfolio.py'
OPT = SRC + 'portfolio/portfolio_optimization.py'
prop('C12', 'A calibrated yield curve reprices the instruments it was built from',
     'Calibrating a yield curve to a set of bonds, by the linear construction or by bootstrapping, from any iterable and in any order of maturity, gives a curve with one knot at the last payment of each instrument on which '
     'the present value of every instrument equals its quoted clean price. The curve does not depend on the order of the instruments.',
     ['inputs', 'configurations'], 'all sets of coupon bonds with distinct maturities whose prices some yield curve can explain, in every order',
     'The tests calibrate one set of bonds in one order and check a handful of numbers; order dependence and solver failure need other sets.',
     [YC, KR, CUR + 'base_curve.py'], [('YieldCurveFactory', YC)],
     'property-based testing: round trip prices - curve - prices, order invariance, and recovery of the generating curve',
     'Search over generated bond sets priced off generated curves. Splines are compared at the tolerance of their least-squares solver. construct_curve_from_yield_to_maturities is outside (DESIGN.md).')
prop('C13', 'Yield and discount curves stay consistent through adjustments and resets',
     'A yield curve answers every query with its interpolated yields plus the adjustment given with the query, its discount factors are the exponentials of minus yield times time, and the present value of any payments is the sum of those on or after its reference date times these factors. '
     'Asking with an adjustment leaves no trace, a change of the knots takes effect at once, and a discount curve obtained earlier does not change afterwards.',
     ['inputs', 'histories'], 'all curves and sequences of queries, key rate and function adjustments, resets and discount curves, in yield and in discount space',
     'Tests apply one adjustment and read a few values; leaking adjustments and shared state need sequences.',
     [YC, CUR + 'base_curve.py'], [('YieldCurve', YC), ('Curve', CUR + 'base_curve.py')],
     'stateful property-based testing against a functional model of the curve',
     'Search over generated histories. Linear interpolation with constant ends; payments at most at the last knot.')
prop('C14', 'A key rate is a tent function around its date',
     'A key rate adds its bump at its own date, nothing at or beyond its neighbours, and the linear interpolation in time between; without a prior (next) date it stays flat at the bump on that side, without both it is a parallel shift. '
     'Changing its bump or neighbours has exactly that effect at once, and changing them back restores the tent. Key rates are ordered by date.',
     ['inputs', 'histories'], 'all dates, neighbours, conventions, bump sizes, query moments and sequences of changes',
     'Tests evaluate one key rate at a few dates.',
     [KR], [('KeyRate', KR)], 'property-based and stateful testing against a tent-function model',
     'Search over generated key rates and operations; neighbours lie at a positive accrual from the key rate.')
prop('C15', 'Key rate collections stay ordered, linked and complementary',
     'However a key rate collection is built, extended, edited, sliced, added or shrunk, its key rates are distinct and in date order, each is linked to its neighbours in the collection and to nothing else, '
     'and with equal bumps the tents of all of them sum to a parallel shift. Refused operations change nothing, and slices and sums leave their sources alone.',
     ['histories'], 'all sequences of construction, insertion, append, item assignment, slicing, deletion, addition, re-bumping and (nested, broken off) iteration',
     'Tests perform one operation each; links go stale after particular sequences at the ends of the collection.',
     [KR], [('KeyRateCollection', KR)], 'stateful property-based testing against a dictionary model with a partition-of-unity invariant',
     'Search over generated histories. One day-count convention per collection; key rates belong to one collection at a time.')
prop('C16', 'Key rate sensitivities are the derivatives of the discounted value',
     'The derivative of a present value with respect to a key rate equals the derivative of the discounted sum of payments along its tent, whatever the bump of the key rate is, and its PV01 is that derivative times one basis point. '
     'A risk ladder holds one risk per key rate in their order (and finds, iterates and prints exactly the risks it was given), the risks of complementary key rates add up to the PV01 of a parallel shift, and computing them changes neither curve, key rates nor asset, also when the valuation fails.',
     ['inputs', 'histories'], 'all curves, payments, key rate grids, bump sizes and orders of computation',
     'Tests compare one bond with stored numbers; additivity and absence of side effects are never tested.',
     [YC, KR, RM], [('KeyRateCollection and YieldCurve derivatives', KR), ('RiskLadder', RM)],
     'property-based testing: analytic derivative as oracle, additivity and no-side-effect relations',
     'Search over generated curves and payments; the derivatives of the code are finite differences and compared with matching tolerance. Key-rate convexity is a stub in the code and outside the domain.')
prop('C17', 'Swap legs accrue over contiguous periods and pay on business days',
     'The accrual periods of a swap leg cover the time from its start to its end without gap or overlap in steps of its frequency (stepping back from the end, a short first stub if it does not fit), the payments follow by the payment delay on business days, '
     'and each fixed payment is rate times accrual times notional. An overnight accrual over an interval is the compounded daily accrual and composes over subintervals. '
     'A tenor which is not in years or months, and a leg which does not pay annually, semi-annually or quarterly, is refused.',
     ['inputs', 'configurations'], 'all tenors, frequencies, conventions, delays, calendars, notionals, rates, trade dates and index curves',
     'Tests build two swaps; stubs, holidays and year ends produce other schedules.',
     [SWAP], [('InterestRateSwap, OvernightIndexSwap, LiborSwap', SWAP)],
     'property-based testing against an independent schedule and compounding model',
     'Search over generated swaps.')
prop('C18', 'Swap values and par rates are consistent with the discount curve',
     'The value of a swap is the discounted floating leg minus the discounted fixed leg, opposite for payer and receiver, linear in the notional, and zero at the par rate. '
     'The implied rate of a fairly projected swap equals the telescoped discount factors over the annuity, counting remaining payments only.',
     ['inputs', 'configurations'], 'all swaps, index and discount curves and valuation dates',
     'Tests compare one swap to stored values; no-arbitrage relations must hold on every curve.',
     [SWAP, CUR + 'base_curve.py'], [('InterestRateSwap', SWAP)],
     'property-based testing: discounting reference, antisymmetry, par-rate and telescoping relations',
     'Search over generated swaps and curves; remaining payments lie within the knots of the curve.')
prop('C19', 'Loan schedules amortise the loan exactly',
     'A loan is paid at the first (or last) day of the months of its schedule, without drift; each payment splits into interest accrued on the outstanding balance since the previous date and principal, the balance falls by exactly the principal (extra payments included) and never below zero, '
     'and the level payment, the annuity of the term, repays the loan over evenly accruing periods. Its present value is the discounted sum of the remaining payments. A schedule of a loan which never pays or without a known day of payment is refused.',
     ['inputs', 'histories'], 'all principals, rates (zero included), terms, origination dates, payment days, extra payments and overriding amounts',
     'Tests cover one loan; month ends, zero rates and extra payments near the end are the interesting cases.',
     [LOAN], [('Loan', LOAN)], 'property-based testing against a decimal-by-decimal amortisation model and conservation laws',
     'Search over generated loans with terms of whole months.')
prop('C20', 'A portfolio is worth the sum of its parts',
     'The present value of a portfolio is its cash plus the present values of its assets, each times its quantity. It is additive over splits of the portfolio and linear in the quantities; its key rates lie on the distinct dates of its assets\' last payments, its sensitivities to them are the quantity-weighted sums of those of its assets, and iterating it yields every entry once, every time.',
     ['inputs', 'configurations'], 'all lists of bonds and cashflows, amounts of cash and curves',
     'Tests contain no portfolio at all.',
     [PORT, SRC + 'assets/base_cashflow.py', YC], [('Portfolio', PORT)], 'property-based testing: additivity and permutation relations, discounting reference',
     'Search over generated portfolios of up to eight assets.')
prop('C21', 'Optimised portfolios are feasible and optimal',
     'The minimum-variance and maximum-utility portfolios are fully invested, respect the short-sale constraint and the target return, and no feasible portfolio has a lower variance (higher utility), at every scale of the variances. '
     'The efficient frontier consists of such portfolios at evenly spaced target returns within the limits, with their volatilities and Sharpe ratios.',
     ['inputs', 'configurations'], 'all positive definite covariances of two to eight assets, expected returns, target returns strictly inside the attainable range, risk aversions and both short-sale settings',
     'There are no tests; optimality is a statement about all feasible portfolios.',
     [OPT], [('PortfolioOptimizer', OPT)], 'property-based testing: differential comparison with exact quadratic programming by support enumeration',
     'Search over generated markets. A recorded finding: targets exactly at the lowest attainable return shared by several assets.')
STO = SRC + 'stochastics/'
BM = STO + 'brownian_motion.py'
BASE = STO + 'base_processes.py'
GBM = STO + 'geometric_brownian_motion.py'
SR = STO + 'short_rate_models/base_short_rate_model.py'
AFF = STO + 'short_rate_models/affine_yield_curve_models/'
VAS = AFF + 'vasicek_model.py'
CAL = STO + 'calibrators/factorized_calibrator.py'
HAZ = CUR + 'credit_curves/default_models.py'
prop('C22', 'Brownian motion has the law and the path it promises',
     'A Brownian path starts at zero on the grid of start, multiples of the increment and end, its increments are the correlated normal noise of the seed scaled by the square root of time (the same noise for the same seed and number of steps, whatever the dates and the correlation), '
     'and a call interpolates the last path that was set linearly in time, whatever other increments and paths have been generated since. Calls without a path or outside the horizon are refused.',
     ['inputs', 'histories'], 'all horizons, increments, dimensions, correlations, day counts, seeds and sequences of generations and calls',
     'The tests look at one path; law and interplay of several generations need many seeds and histories.',
     [BM], [('BrownianMotion', BM)], 'stateful property-based testing against a path model; metamorphic relations between seeds; tests of the law at six sigma',
     'Search over generated histories; statistical bounds with fixed seeds.')
prop('C23', 'Diffusion processes follow their stochastic differential equation',
     'The path of a diffusion process (and of geometric Brownian motion) starts at the starting value and solves the Euler recursion of its drift and diffusion functions, at the right times and states, driven by its Brownian motion. '
     'Paths which are not set, a new increment and other processes on the same Brownian motion do not disturb the path in force, and calls interpolate it.',
     ['inputs', 'histories'], 'all drift and diffusion functions of one to three components, noise dimensions, increments, starting values and histories of several processes',
     'Tests check shapes of one path; recursion, time argument and sharing are never compared.',
     [BASE, GBM], [('DiffusionProcess', BASE), ('GeometricBrownianMotion', GBM)], 'stateful property-based testing against an independent Euler solver driven by a twin Brownian motion',
     'Search over generated processes and histories.')
prop('C24', 'Short-rate paths, integrals and curves agree',
     'The path of a short rate model is the transformation of its state variables, its integrated path the trapezoidal integral over the requested datetimes, its accrual and discount curves the exponentials of plus and minus the integral at those datetimes, with product one. '
     'None of them outlives the path: a new path or increment discards them, and a path which is not set leaves them alone.',
     ['inputs', 'histories'], 'Vasicek, multivariate and user-defined models, all increments, requested datetimes and histories',
     'Tests use one path; stale curves need histories and other datetimes.',
     [SR, VAS], [('ShortRateModel', SR)], 'stateful property-based testing against an independent path, integral and curve model',
     'Search over generated models and histories; requested datetimes begin at the start.')
prop('C25', 'Vasicek bond prices, yields and rates agree with the model',
     'In the Vasicek model the bond prices, yields, forward rates, expectations, variances, volatilities and convexities at any purchase date and for any maturity are those of the short rate dynamics given the short rate of the path at the purchase date, in any order of calls.',
     ['inputs', 'histories'], 'all parameters, purchase dates along the path, maturities and orders of calls',
     'Tests use one set of parameters and the start date only.',
     [VAS], [('VasicekModel', VAS)], 'property-based testing: differential comparison with numerical integration of the dynamics',
     'Search over generated models; Gauss-Legendre quadrature as oracle, tolerances follow the conditioning of the closed forms.')
prop('C26', 'Multivariate affine models price consistently',
     'In the multivariate, doubly and trebly mean reverting and stochastic market price of risk models, prices, yields, forward rates, their derivatives, expectations, covariances, volatilities and convexities at any purchase date are those of the state dynamics, '
     'reversion matrix, volatility and correlation given, and with one state variable they are those of the Vasicek model.',
     ['inputs', 'histories'], 'all reversion matrices with distinct positive eigenvalues (symmetric or not), volatilities, correlations, purchase dates and maturities',
     'Tests cover diagonal matrices and stored numbers; two thirds of these test modules could not run at all before the repairs.',
     [VAS, AFF + 'doubly_mean_reverting_vasicek.py', AFF + 'trebly_mean_reverting_vasicek.py', AFF + 'stochastic_market_price_of_risk.py', AFF + 'affine_model_mixin.py'],
     [('MultivariateVasicekModel', VAS), ('DoublyMeanRevertingVasicek', AFF + 'doubly_mean_reverting_vasicek.py'), ('TreblyMeanRevertingVasicek', AFF + 'trebly_mean_reverting_vasicek.py'),
      ('StochasticMarketPriceOfRisk', AFF + 'stochastic_market_price_of_risk.py')],
     'property-based testing: differential comparison with matrix exponentials and quadrature; equivalence of models',
     'Search over generated models; tolerances follow the conditioning of the eigenvectors.')
prop('C27', 'The riskless portfolio is riskless',
     'The weights of the riskless portfolio of p+1 zero-coupon bonds sum to one and make its value independent of the p state variables; its convexity is the weighted convexity of its bonds and, with its decay, earns exactly the short rate.',
     ['inputs'], 'all affine models, maturities in any order and purchase dates for which the bonds span the state variables',
     'Tests check one portfolio of one model.',
     [VAS], [('MultivariateVasicekModel', VAS)], 'property-based testing: no-arbitrage identity and linear algebra oracle',
     'Search over generated models and maturities; ill-conditioned portfolios are outside.')
prop('C28', 'Calibration fits the model and keeps it consistent',
     'The factorized calibration of a doubly mean reverting model returns the model of the optimum it found: it explains the given yield volatilities no worse than the starting model and the given prices no worse than the starting shape and state do with the calibrated volatilities, '
     'its attributes, states and calibration dictionary agree, and the order of the inputs does not matter. '
     'A model made from a calibration dictionary has exactly these parameters, volatilities, shape and states and shares nothing with it; a model whose parameters are set from a dictionary takes each from its own entry (a Vasicek model then behaves like a new one).',
     ['inputs', 'configurations'], 'all calibration dictionaries, targets from (perturbed) models, starting models, maturities and orders of the inputs',
     'There is no test; the script in the module crashed before the repairs.',
     [CAL, AFF + 'doubly_mean_reverting_vasicek.py', VAS], [('VolatilityFactorizedCalibrator', CAL), ('VasicekModel', VAS)], 'property-based testing: monotone improvement against an independent pricing oracle, permutation and round-trip relations',
     'Search over generated calibrations with a coarse increment.')
prop('C29', 'Default simulations follow the hazard rate',
     'Simulated default times lie on the grid of the increment before maturity or are missing for survivors; at every step the survivors default independently with probability hazard rate times increment, so nobody defaults while the hazard rate is zero and nobody survives a certain default.',
     ['inputs'], 'all piecewise constant hazard rates, increments, maturities, numbers of paths and seeds',
     'There is no test; the law of the default times is a statement about all paths.',
     [HAZ], [('default_bernoulli_paths', HAZ)], 'property-based testing: grid and certainty invariants, tests of the law at more than six sigma with fixed seeds',
     'Search over generated hazard rates.')
