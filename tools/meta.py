"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, M = "src/frds/algorithms/_garch.py", "src/frds/algorithms/_mgarch.py"
GH, MH, UM = ("src/frds/algorithms/utils/garch.hpp", "src/frds/algorithms/utils/mgarch.hpp",
              "src/frds/algorithms/utils/utils_module.cpp")
IF = "src/frds/algorithms/isolation_forest/"
MS = "src/frds/measures/"
MM = MS + "modified_merton/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append((
        {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": tests, "anchors": a},
        {"property": id, "quick_cmd": "./run.py %s --tier quick" % id,
         "thorough_cmd": "./run.py %s --tier thorough" % id, "evidence_file": "evidence/%s.json" % id,
         "technique": technique, "level": "model_checking", "level_note": note},
    ))


STATELESS = "bounded exhaustive exploration of the real code against a step-by-step reference model"
NOTE = ("Holds on every behaviour inside the stated bounds; nothing is claimed for values outside the alphabets. "
        "The reference model is trusted, and bound to the code by comparing every explored trace.")

prop("C01", "GARCH and GJR-GARCH variance paths follow the recursion",
     "For any residuals, parameters, backcast and variance bounds, the conditional variances computed by the GARCH and GJR-GARCH models start at the unconditional form of the recursion evaluated at the backcast and then follow omega + alpha*e^2 (+ gamma*e^2 after a negative shock) + beta*previous variance, each clamped to its own day's bounds. "
     "The compiled and the pure-Python implementation give the same path, whatever the memory layout or numeric type of the arrays. The GJR-GARCH variance forecast is the same recursion, unclamped, started at a given variance and driven by the given residuals.",
     ["inputs", "configurations"], "every residual tape up to a length over an alphabet with zeros, negative and large shocks, times parameters, bounds and both implementations",
     "the tests fit four data sets with the compiled extension only and compare estimates loosely; no path is ever inspected and the pure-Python fallback is never run",
     [G, GH, UM], [("compiled recursion", GH + " compute_garch_variance, compute_gjrgarch_variance"), ("fallback recursion and clamp", G + " compute_variance, bounds_check"), ("forecast", G + " GJRGARCHModel.forecast_variance")],
     STATELESS, NOTE)

prop("C02", "EWMA variance, backcast and variance bounds follow their definitions",
     "For any residuals, the exponentially weighted variance, the backcast (a decaying weighted average of at most the first 75 squared residuals) and the daily variance bounds equal their definitions, whichever day a shock falls on and whatever the length of the series. "
     "Clamping a variance never returns a value below the lower bound or a non-finite one, leaves a variance within its bounds alone, and is monotone in the variance. Compiled and pure-Python implementations agree.",
     ["inputs", "configurations"], "all short residual tapes; a unit shock at every position of every length around the 75-day window; a lattice of variances and bounds including infinity",
     "the tests reach these only through a whole fit of series longer than 75 days, where a wrong weight or bound moves estimates by less than the tolerance",
     [G, GH, UM], [("EWMA and clamp", GH + " ewma, bounds_check"), ("backcast and bounds", G + " backcast, variance_bounds")], STATELESS, NOTE)

prop("C03", "The univariate log-likelihood is the Gaussian log-density of the returns",
     "For any returns and admissible parameters, the log-likelihood reported by the GARCH and GJR-GARCH models is the sum over all days of the normal log-density of return minus mean under that day's conditional variance (with no mean in the zero-mean model), and the quantity minimised is its negative.",
     ["inputs", "configurations"], "every return tape up to a length over an alphabet, a parameter lattice, zero-mean on and off, both models, both implementations",
     "the tests compare the log-likelihood at one optimum per data set only, never elsewhere",
     [G], [("log-likelihood", G + " loglikelihood, loglikelihood_model")], STATELESS, NOTE)

prop("C04", "Univariate fits are feasible, self-consistent and as good as every start",
     "When a GARCH or GJR-GARCH fit reports success, its estimates are finite, positive where they must be and stationary, its reported log-likelihood and residuals are those of the reported estimates (for returns of ordinary length the kept variances too), and that likelihood is not below the one of the starting values, which are the best of the documented starting grid. "
     "Fitting again returns the same estimates; on ordinary series no neighbouring admissible parameter vector is clearly more likely; the returns passed in are not modified.",
     ["inputs", "configurations"], "every non-constant return tape of length 6 starting negative over a 4-value alphabet, and a lattice of simulated processes, seeds, lengths and scales; every grid candidate and every neighbour on a perturbation lattice",
     "the tests fit one data set per model and compare with constants; a fit can be wrong, stuck or inconsistent on any other series",
     [G], [("estimation", G + " fit, preparation, starting_values"), ("constraints", G + " parameter_bounds, constraints in fit")],
     "exhaustive enumeration of return histories, each fitted by the real code and judged by a reference likelihood", NOTE)

prop("C05", "The constant-conditional-correlation likelihood and fit are those of the model",
     "The log-likelihood of the bivariate constant-correlation model is the sum of bivariate normal log-densities of the two residual series under their own variance paths and the correlation, for any returns and parameters. "
     "A fit reports finite estimates with correlation inside (-1, 1) and stationary variances, whose log-likelihood is the one reported and not below that of the starting values (each series' own fit joined by the correlation of its standardized residuals); fitting again returns the same estimates.",
     ["inputs", "configurations"], "all pairs of short return tapes, parameter vectors and correlations in [-0.99, 0.99]; a lattice of simulated pairs of processes for fits",
     "one data set is fitted in the tests; the density is never compared with an independent one and wrong cross terms cancel at low correlation",
     [M], [("likelihood", M + " GARCHModel_CCC.loglikelihood_model, loglikelihood"), ("fit", M + " GARCHModel_CCC.fit, preparation")], STATELESS, NOTE)

prop("C06", "Dynamic conditional correlations follow the DCC recursion and stay in [-1, 1]",
     "For any standardized residuals and non-negative a, b with a + b < 1, the dynamic conditional correlation starts from the sample second moments and follows (1-a-b) Qbar + a z z' + b Q, normalised each day; every correlation lies within [-1, 1], and with a = b = 0 it is constant. "
     "The compiled and the pure-Python implementation agree, whatever the memory layout of the residuals and variances.",
     ["inputs", "configurations"], "all pairs of standardized-residual tapes up to a length, (a, b) pairs, variance patterns, both model families, both implementations; a spike at every position of long tapes",
     "no test touches the DCC models' correlation paths; SRISK's test reaches the compiled one only through a loose numeric comparison",
     [M, MH, UM], [("compiled recursion", MH + " conditional_correlations"), ("fallback recursion", M + " conditional_correlations")], STATELESS, NOTE)

prop("C07", "The DCC likelihood, starting values and two-step fit are those of the model",
     "The log-likelihood of a DCC model is the sum of joint bivariate normal log-densities given the conditional variances of its two univariate models and the dynamic correlations, held within [-0.99, 0.99] there; the starting (a, b) are the best of the documented grid. "
     "A fit reports a, b >= 0 with a + b < 1, whose log-likelihood is the one reported and not below that of the start, and gives the same answer whether built from returns, from univariate models or from models already fitted.",
     ["inputs", "configurations", "histories"], "all pairs of short standardized-residual tapes and (a, b) pairs; simulated pairs of processes in every combination of returns and (fitted) models, both families, both implementations",
     "no test fits a DCC model at all; the measure built on it is compared on one data set",
     [M], [("likelihood", M + " GARCHModel_DCC.loglikelihood_model"), ("starting grid and fit", M + " GARCHModel_DCC.starting_values, fit")], STATELESS, NOTE)

prop("C08", "Histories of calls on shared model objects never change or lose estimates",
     "Over every sequence of calls on a set of univariate, CCC and DCC model objects that share one another and the same return arrays - fitting, fitting again, evaluating likelihoods elsewhere, asking for starting values or correlations - each fit returns the estimates that fresh, separately fitted models would give. "
     "Fitting a fitted model is a no-op that returns the same estimates, and evaluating a likelihood or fitting a dependent model never changes what a fitted model reports, including its residuals and variances.",
     ["histories"], "every reachable state of a pool of five model objects under all operations, explored breadth first to a fixpoint",
     "the tests call fit once on a fresh object; stale caches and shared state need at least two calls in a particular order",
     [G, M], [("fitted flag and cached estimates", G + " fit; " + M + " fit"), ("models reused inside a DCC", M + " GARCHModel_DCC.__init__, fit")],
     "explicit-state breadth-first search over operation sequences on the real objects, to a fixpoint", NOTE + " States are merged on the full attribute state of all objects.",
     state=[("model attributes", "estimates, residuals, variances, flags of every model in the pool", G + ", " + M)])

prop("C09", "One simulated LRMES path is the joint GJR-GARCH-DCC system",
     "For any sequence of daily innovations, parameters and starting point, the simulated firm return over the horizon is obtained by stepping both GJR variances, the dynamic correlation and both returns day by day, compounding log returns in percent. "
     "The path counts as a systemic event exactly when the compounded market return is below the threshold, the firm return is then exp(sum) - 1, and both implementations (compiled and pure Python) return the same.",
     ["inputs", "configurations"], "every sequence of up to 4 daily innovation pairs over a 3x3 alphabet, parameter sets, starting points and thresholds, both implementations; a crash on every day of horizons up to 250",
     "the only test averages thousands of simulated paths of one data set and rounds the result",
     [MS + "_long_run_mes.py", MS + "lrmes.hpp", MS + "measures_module.cpp"], [("compiled path", MS + "lrmes.hpp simulation"), ("fallback path", MS + "_long_run_mes.py simulation")], STATELESS, NOTE)

prop("C10", "LRMES estimates use the fitted model, the given draws and every path",
     "A long-run MES estimate equals minus the mean simulated firm return over exactly those bootstrap paths that are systemic events, driven by the standardized and orthogonalized residuals of a GJR-GARCH-DCC model fitted to the returns, for any horizon, number of simulations, threshold and seed; it is zero when no path is an event. "
     "The same settings give the same estimate whatever was estimated before on the object, and the returns passed in are not modified.",
     ["inputs", "histories", "configurations"], "return histories x every combination of a grid of horizons, numbers of paths, thresholds and seeds, and every ordered history of up to 3 estimates on one object, in both implementations",
     "the tests call it with one setting on one data set through SRISK",
     [MS + "_long_run_mes.py"], [("estimate and bootstrap", MS + "_long_run_mes.py estimate, simulation"), ("model reuse across estimates", MS + "_long_run_mes.py __init__, estimate")], STATELESS, NOTE)

prop("C11", "SRISK is the shortfall formula of every firm, and sums only positive ones",
     "For every selection and order of firms, each firm's SRISK is k*D - (1-k)*W*(1-LRMES) with that firm's own equity, debt and returns and the LRMES that a separate estimate gives, and the aggregate is the sum of the positive firm-level values. "
     "Results do not depend on the order of firms, on the memory layout of the panel or on estimates made before on the same object.",
     ["inputs", "configurations", "histories"], "every selection and order of 1..3 of 4 firms x k x W x D x simulation settings, layouts, and every ordered pair of estimates on one object",
     "one test with three firms in one order and one setting",
     [MS + "_srisk.py", MS + "_long_run_mes.py"], [("shortfall and aggregation", MS + "_srisk.py estimate")], STATELESS, NOTE)

prop("C12", "Isolation forest scores do not depend on thread scheduling or worker count",
     "Under every schedule of the worker threads and for every number of workers, computing anomaly scores terminates, is free of data races, leaves no thread behind, and returns for the same data, settings and seed the same scores as a single worker.",
     ["schedules", "configurations"], "every interleaving of thread creation, join, lock and atomic operations up to a preemption bound, for 1..5 workers and forests of 1..5 trees over small frames; a vector-clock race monitor watches every memory access on every execution",
     "no test runs the isolation forest at all, and a free run samples one schedule on the number of cores at hand",
     [IF + "IsolationForest.cpp", IF + "IsolationForest.hpp", IF + "iforest_module.cpp"],
     [("partition of trees and rows over workers", IF + "IsolationForest.cpp grow, calculateAnomalyScores"), ("tree store under a lock", IF + "IsolationForest.cpp grow"), ("per-tree random stream", IF + "IsolationForest.cpp grow")],
     "stateless model checking of the real multithreaded extension under a controlled scheduler with a race monitor",
     "Exhaustive up to the preemption bound within each fork-join phase. Scheduling points are synchronization operations; unsynchronized accesses are caught by happens-before monitoring on every explored execution. Memory is assumed sequentially consistent for race-free code.")

prop("C13", "Every isolation forest score is one the documented tree construction can give",
     "Each anomaly score is 2^(-average path length / normalising constant) over trees that are grown as documented: a sample without replacement of at most the tree size, a random attribute and a split value drawn from the node's own observations (missing values smallest, strings by length and then order), down to single observations or the height limit. "
     "Every observation is scored along the branch it would have been grown into, and every outcome the construction allows is reachable over seeds.",
     ["inputs", "configurations"], "every frame of 2..4 rows over small numeric and string alphabets, tree sizes and forest sizes; all outcomes of the nondeterministic reference construction are enumerated and matched",
     "the isolation forest has no test; its output is random-looking, so a wrong split or normalisation cannot be seen without a model of what is possible",
     [IF + "IsolationForest.cpp"], [("growth", IF + "IsolationForest.cpp growTree, grow"), ("scoring", IF + "IsolationForest.cpp pathLength, averagePathLength, anomalyScore")],
     "explicit enumeration of all outcomes of a nondeterministic model, with containment and reachability checks of the real code", NOTE)

prop("C14", "Isolation forest interface: row alignment, column handling, seeds",
     "For any frame, the result has the input's index and order, one score in (0, 1] per row; excluded columns have no influence, equal rows get equal scores, order-preserving transformations of a column change nothing, and the input is not modified. "
     "The same seed always gives the same scores and different seeds give different forests, and all rows and trees are used whatever the numbers of rows and trees.",
     ["inputs", "configurations"], "a grid of frame layouts (rows, column orders and subsets, excluded subsets, kinds of index, dtypes), forest sizes, tree sizes around the number of rows, and pairs of seeds differing in one bit",
     "no test calls the isolation forest",
     [IF + "__init__.py", IF + "iforest_module.cpp", IF + "IsolationForest.cpp"], [("column split and score frame", IF + "__init__.py anomaly_scores"), ("copy into the output array", IF + "iforest_module.cpp iforest_wrapper")],
     "exhaustive enumeration of inputs and configurations of the real code with relational oracles", NOTE)

prop("C15", "Quoted, effective and realized spreads are dollar-volume-weighted trade averages",
     "For any sequence of trades, the quoted, effective and realized spreads are the dollar-volume-weighted averages over trades (simple averages when there is no volume) of each trade's own spread relative to its own midpoint, in percent or in logs as requested, signed by the given trade direction when there is one and by absolute value otherwise. "
     "The result does not depend on the container the data come in. Trades whose midpoint is not known are left out of a simple average.",
     ["inputs", "configurations"], "every tape of up to 5 trades over 7 kinds of trade, every option, every container, unknown midpoints, and long tapes with one unusual trade",
     "there is no test of spreads", [MS + "spread.py"], [("spread formulas and weights", MS + "spread.py quoted_spread, effective_spread, realized_spread")], STATELESS, NOTE)

prop("C16", "Price impact is consistent, and spreads decompose",
     "For any sequence of trades with directions, price impact is the dollar-volume-weighted average of twice each trade's signed (absolute, without directions) change of midpoint relative to its own first midpoint, in percent or logs, and the effective spread equals the realized spread plus the price impact when computed with the same directions and options. Trades whose midpoints are not known are left out of a simple average.",
     ["inputs", "configurations"], "every tape of up to 5 trades over 7 kinds of trade, every option and container",
     "there is no test of price impact", [MS + "price_impact.py", MS + "spread.py"], [("price impact", MS + "price_impact.py")], STATELESS, NOTE)

prop("C17", "Limit order book slopes and depth differences are per-quote averages",
     "For any sequence of order-book snapshots, the bid and ask slopes and the scaled depth difference are the averages over usable quotes of the per-quote measure computed from that quote's own levels, with missing levels and quotes skipped, and mirroring the book exchanges the bid and ask slopes.",
     ["inputs", "configurations"], "every sequence of up to 4 quotes over 8 kinds of book with 2 to 10 levels, every level made unusual in turn, layouts and types",
     "there is no test of the order-book measures", [MS + "lob_slope.py"], [("slope formulas", MS + "lob_slope.py")], STATELESS, NOTE)

prop("C18", "Kyle's lambda is the no-intercept regression slope",
     "For any samples of returns and signed volumes, Kyle's lambda is 1e6 times the slope of the regression through the origin of returns on the signed volume measure, whatever container they come in; it scales with returns and inversely with the volume measure, and does not depend on the order of periods.",
     ["inputs"], "every sequence of up to 5 periods over 7 (return, signed volume) pairs, a wide range of volumes, and one unusual period at every position of long samples",
     "there is no test of Kyle's lambda", [MS + "_kyle_lambda.py"], [("regression", MS + "_kyle_lambda.py kyle_lambda")], STATELESS, NOTE)

prop("C19", "PIN likelihoods are the Poisson mixture of the trading model",
     "For any daily buy and sell counts and any parameters, both factorizations of the PIN log-likelihood equal, up to a constant that does not involve the parameters, the sum over days of the log of the three-state Poisson mixture (no news, good news, bad news), and the numerically stable one stays finite and accurate for large counts. "
     "The starting values are the documented grid computed from the average numbers of buys and sells.",
     ["inputs"], "every history of up to 3 days over 7 count pairs x 40 parameter vectors x both factorizations; counts up to 50000; integer and float counts",
     "there is no test of PIN", [MS + "_probability_of_informed_trading.py"], [("likelihoods", MS + "_probability_of_informed_trading.py"), ("starting values", MS + "_probability_of_informed_trading.py")], STATELESS, NOTE)

prop("C20", "PIN estimates are feasible, coherent and at least as likely as every start",
     "A PIN estimate lies in [0, 1] and equals the informed arrival rate's share computed from its own estimated parameters, which respect their bounds and whose likelihood is not below that of any starting value of the grid. "
     "It does not depend on the order of days, on which factorization is used (up to tolerance), or on estimates made before on the same object.",
     ["inputs", "histories"], "every multiset of 3 and 4 days over an alphabet of day kinds x both factorizations, every history of up to 3 estimates on one object, every order of the days of a sample",
     "there is no test of PIN", [MS + "_probability_of_informed_trading.py"], [("multi-start estimation", MS + "_probability_of_informed_trading.py estimate")], STATELESS, NOTE)

prop("C21", "Marginal expected shortfall averages the firm over the market's worst days",
     "For any pair of return histories and quantile for which some day qualifies, the marginal expected shortfall is the mean firm return over exactly the days on which the market return is strictly below its own interpolated percentile, paired by day; it does not depend on the order of days, on array layout or on earlier estimates.",
     ["inputs", "histories"], "every pair of histories of 2..6 days over 4x4 values with ties, 12 quantiles, layouts; a crash on every day of 250- and 1000-day histories; every ordered pair of estimates on one object",
     "one test compares one data set at one quantile", [MS + "_marginal_expected_shortfall.py"], [("estimate", MS + "_marginal_expected_shortfall.py estimate")], STATELESS, NOTE)

prop("C22", "Systemic expected shortfall is the least-squares fitted combination",
     "For any training sample with a well-defined fit, the systemic expected shortfall is (b*MES + c*LVG)/(b+c) with b and c the least-squares coefficients, with a constant, of the outcomes on the firms' MES and leverage; the order of firms and scaling of outcomes do not matter.",
     ["inputs"], "every training sample of 3 and 4 firms over a 5x3 alphabet, long samples with one unusual firm at every position, several current firms; exact rational oracle",
     "one test compares one data set", [MS + "_systemic_expected_shortfall.py"], [("regression and combination", MS + "_systemic_expected_shortfall.py")], STATELESS, NOTE)

prop("C23", "The absorption ratio is the top eigenvalues' share of total variance",
     "For any panel of asset returns and fraction, the absorption ratio is the share in total variance of the largest eigenvalues of the sample covariance, their number being the fraction of the number of assets rounded; it is real, lies in [0, 1], does not decrease in the fraction, and does not depend on scale, on the order of assets or days or on earlier estimates.",
     ["inputs", "histories"], "every small panel over 3 values, structured panels up to 40 assets with more assets than days, every fraction k/20 and k/n, every ordered pair of estimates on one object",
     "two tests with one panel each", [MS + "_absorption_ratio.py"], [("estimate", MS + "_absorption_ratio.py estimate")], STATELESS, NOTE)

prop("C24", "Option values are Black-Scholes and arbitrage-free",
     "For any spot, strike, rate, maturity, volatility and yield, European call and put values equal the Black-Scholes closed form, satisfy put-call parity and the no-arbitrage bounds, are monotone and homogeneous as theory requires, and arrays of inputs give the elementwise values.",
     ["inputs"], "every point of a six-dimensional grid, as scalars and broadcast arrays, and every neighbouring pair of points along each axis",
     "one test compares two option values", [MS + "_option_price.py"], [("closed form", MS + "_option_price.py blsprice")], STATELESS, NOTE)

prop("C25", "Contingent claim analysis solves the asset equations and prices both puts",
     "For any admissible equity, volatility, rate, barrier, maturity and CDS spread, the put value is that of the asset value and volatility solving the equity-value and equity-volatility equations, and the systemic contribution is that put less the put implied by the CDS spread, computed afresh for each call and not increasing in the CDS spread.",
     ["inputs", "histories"], "every point of a grid of the six inputs, and every ordered pair of calls; oracle: bracketed root of the two equations",
     "one test compares two values", [MS + "_contingent_claim_analysis.py"], [("solver and puts", MS + "_contingent_claim_analysis.py estimate")], STATELESS, NOTE)

prop("C26", "The distress insurance premium is the expected simulated tail loss",
     "For any default probabilities, correlations, seed, sample sizes and threshold, the premium is the probability-weighted expected loss, in whole percent of one bank's liabilities rounded up, of the simulated scenarios at or above the threshold; it is never NaN, does not increase in the threshold, includes the scenario in which all banks default, and does not depend on earlier estimates.",
     ["inputs", "histories", "configurations"], "1..6 banks x correlation structures x default probabilities x seeds x sample sizes at every whole-percent threshold and some in between, and every ordered pair of estimates on one object; oracle follows the same draws scenario by scenario",
     "one test compares one setting", [MS + "_distress_insurance_premium.py"], [("simulation and aggregation", MS + "_distress_insurance_premium.py estimate")], STATELESS, NOTE)

prop("C27", "The bank Z-score is (ROA + capital ratio) over the volatility of ROA",
     "For any history of returns on assets that is not constant, the Z-score is the sum of the current return on assets and capital ratio divided by the population standard deviation of the history, whatever the container.",
     ["inputs"], "every history of 2..6 returns over 4 values x current returns x capital ratios, containers, and one unusual period at every position of long histories",
     "there is no test of the Z-score", [MS + "_z_score.py"], [("formula", MS + "_z_score.py z_score")], STATELESS, NOTE)
prop("C28", "Public calls depend on their arguments only and leave their surroundings alone",
     "For every public model, measure and dataset, what a call returns - or that it raises - depends on its arguments only: not on any other call made before in the process, the state of the global random generators, the numpy error handling or the working directory. "
     "A call leaves its arguments, the global random generators, numpy's error handling and options, warning filters, working directory, environment and threads as they were.",
     ["histories", "configurations"], "every ordered pair of calls of a catalogue covering the public interface and both implementations, under several states of the surroundings",
     "each test makes one call in a fresh state; leaking state shows only in what comes after, in another module's results",
     ["src/frds/algorithms/__init__.py", "src/frds/measures/__init__.py", "src/frds/datasets/__init__.py", IF + "__init__.py", MM + "mod_merton_computation.py"],
     [("seeded private generators", MS + "_long_run_mes.py, " + MS + "_distress_insurance_premium.py, " + MM + "mod_merton_computation.py"), ("copies of inputs", G + " __init__; " + IF + "__init__.py anomaly_scores")],
     "exhaustive exploration of ordered call histories of the real code against fresh-process results", NOTE)

prop("C29", "Compiled kernels reject malformed arguments and stay inside their arrays",
     "For any argument values, shapes, numeric types, layouts and containers, every call of a compiled kernel (EWMA, clamp, GARCH and GJR variance, conditional correlation, LRMES path simulation, isolation forest) either raises a Python exception or returns the defined result; a call whose arrays do not have the required dimensions, whose lengths disagree, or whose parameters are not the required number of numbers raises. No call reads or writes memory outside its arrays or ends the process.",
     ["inputs", "configurations"], "every combination of 19 shapes x numeric types x 3 layouts x containers per kernel, wrong parameter lists, and frames of 0..3 rows over all pairs of 10 column kinds with forest and tree sizes around and below zero",
     "the tests pass one well-formed double array to each kernel; a kernel that reads past an array usually still returns something", [UM, GH, MH, MS + "measures_module.cpp", MS + "lrmes.hpp", IF + "iforest_module.cpp"],
     [("argument checks", UM + " *_wrapper"), ("simulation arguments", MS + "measures_module.cpp"), ("frame conversion", IF + "iforest_module.cpp")],
     "bounded exhaustive exploration of argument combinations against the real extensions with every memory access monitored", "Holds on every argument combination inside the stated bounds; memory accesses of the extensions are monitored by AddressSanitizer, those of numpy and CPython are not.")

prop("C30", "Loan payoffs, smoothing and the estimating equations of modified Merton",
     "For any face value, factor realization, asset value, correlation, volatility and maturity, the loan payoff is the expected minimum of lognormal asset value and face value given the factor, for scalars and arrays alike, within its bounds and monotone. "
     "Smoothing replaces each interior observation by the mean of its window, extrapolates linearly at the edges, is linear in the series and rejects an odd number of observations or an odd window. "
     "The promised-yield error is zero exactly when the loan is worth its amount; the Merton errors are the differences of equity value and volatility, plus a penalty growing with the square of a negative estimate.",
     ["inputs"], "every even length and window with a unit spike at every position and pairs of spikes; every point of grids of payoff, yield and Merton inputs, negative estimates included",
     "no test imports the modified Merton package",
     [MM + "fftsmooth.py", MM + "loan_payoff.py", MM + "find_face_value_indiv.py", MM + "merton_solution.py"],
     [("smoothing kernel", MM + "fftsmooth.py fftsmooth"), ("loan payoff", MM + "loan_payoff.py loan_payoff"), ("yield equation", MM + "find_face_value_indiv.py"), ("Merton equations", MM + "merton_solution.py merton_solution")],
     STATELESS, NOTE)

prop("C31", "Modified Merton values follow each cohort along each simulated path",
     "For any parameters, factor values and shocks, the modified Merton and the single-cohort model give the loan portfolio, bank debt, equity, guarantee, default and volatility values obtained by following every loan cohort along every simulated factor path: the promised yield prices the loan at its amount, repaid loans are rolled over at the initial loan-to-value ratio, payoffs are conditioned on the asset value at the debt's maturity, assets are debt plus equity, and debt is never paid more than its face. "
     "Shocks may be passed or drawn from the seed with the same result, lookup tables equal the pointwise values, a debt maturity between two periods is rejected, and calls are repeatable and leave their inputs alone.",
     ["inputs", "histories", "configurations"], "every factor history over small alphabets for 2..4 cohorts and every debt maturity on the grid; all pairs of parameter changes; every entry of lookup tables",
     "no test imports the modified Merton package",
     [MM + "mod_merton_computation.py", MM + "mod_single_cohort_computation.py", MM + "mod_merton_create_lookup.py", MM + "mod_single_merton_create_lookup.py"],
     [("cohort simulation", MM + "mod_merton_computation.py mod_merton_computation"), ("single cohort", MM + "mod_single_cohort_computation.py"), ("tables", MM + "mod_merton_create_lookup.py, mod_single_merton_create_lookup.py")],
     STATELESS, NOTE)

prop("C32", "Sample datasets are the file's data, whatever was done with them before",
     "Every access to a sample dataset gives the content of the data file, in a frame of its own: over every history of accesses, in-place changes of frames obtained earlier, new instances and changes of working directory, and under every interleaving of threads making the first or a later access, no change of one frame is visible in another or in later accesses.",
     ["histories", "schedules"], "all histories of accesses and twelve kinds of in-place change up to a length; all line-level interleavings of two threads accessing at once",
     "the tests read the dataset once per process and never change it",
     ["src/frds/datasets/_stocks.py", "src/frds/datasets/__init__.py"], [("cached frame and copy", "src/frds/datasets/_stocks.py stocks_us"), ("single instance", "src/frds/datasets/_stocks.py SingletonMeta")],
     "exhaustive exploration of operation histories and of thread schedules under a controlled scheduler", NOTE)

prop("C33", "Compiled kernels keep memory and reference counts balanced",
     "For any arguments, well-formed or not, a call of a compiled kernel (EWMA, clamp, GARCH and GJR variance, conditional correlation, LRMES path simulation, isolation forest) leaves the reference counts of its arguments and of shared objects as they were, and any number of repetitions holds no more memory than a few.",
     ["inputs", "configurations", "histories"], "every argument combination of the malformed-argument space, each repeated until a leak or an over-release per call is certain to show",
     "the tests make a handful of calls per kernel and never look at memory", [UM, MS + "measures_module.cpp", IF + "iforest_module.cpp", IF + "IsolationForest.cpp", MH],
     [("ownership of converted arrays", UM + " *_wrapper"), ("simulation arguments", MS + "measures_module.cpp"), ("frame conversion and scores", IF + "iforest_module.cpp iforest_wrapper")],
     "bounded exhaustive exploration of argument combinations and call repetitions with memory and reference counts monitored", NOTE)

prop("C34", "Calls made at once from several threads return what they return alone",
     "For every public model, measure and dataset and every interleaving of a call with a call made by another thread on objects of its own - the same call, or one whose arguments differ - both return what they return alone, whether or not anything was called in the process before, and they terminate. "
     "What another thread does at any moment with the global random generators or the working directory neither changes a result nor is undone by a call.",
     ["schedules", "histories"], "every schedule of two threads with one preemption at any source line or instruction of the library, and with two where they are few, over a catalogue of calls that covers the public interface",
     "the tests call everything from one thread; shared scratch memory, class attributes, saved-and-restored global state and lazy initialisation go wrong on particular interleavings only",
     [G, M, MS + "_long_run_mes.py", MS + "_srisk.py", MS + "_distress_insurance_premium.py", MS + "_probability_of_informed_trading.py", MM + "mod_merton_computation.py", IF + "__init__.py", "src/frds/datasets/_stocks.py"],
     [("generators of their own", MS + "_distress_insurance_premium.py RandomState; " + MS + "_long_run_mes.py default_rng"), ("state on the instance, not the class", G + " GARCHModel.__init__"), ("module level names that never change", MM + "mod_merton_computation.py"), ("shared instance of the dataset", "src/frds/datasets/_stocks.py StockReturns")],
     "exhaustive exploration of two-thread schedules of the real code, up to two preemptions, at source line and instruction granularity", NOTE)

prop("C35", "An interrupted call can simply be made again",
     "For every public model, measure and dataset and every point of a call at which it may be broken off by an interrupt, making the call again on the same objects gives what it would have given without the interruption, and so do later calls on these objects, on objects that share them and with other arguments; in particular no model reports an unfinished estimate as a success. The arguments are left as they were.",
     ["crash_points", "histories"], "every source line and bytecode instruction of the library, as the point at which each call of a catalogue covering the public interface is interrupted",
     "no test interrupts anything; state that is changed temporarily or set before the work is done is visible only when a call ends in between",
     [G, M, MS + "_long_run_mes.py", MS + "_absorption_ratio.py", MS + "_probability_of_informed_trading.py", "src/frds/datasets/_stocks.py"],
     [("success is marked last", G + " GARCHModel.fit, GJRGARCHModel.fit; " + M + " GARCHModel_CCC.fit, GARCHModel_DCC.fit"), ("cached properties are set when computed", MS + "_absorption_ratio.py asset_covariance, eigvals"), ("the dataset is stored when read", "src/frds/datasets/_stocks.py stocks_us")],
     "exhaustive injection of an interrupt at every line and instruction of the real code, and replay of the interrupted call against an uninterrupted run", NOTE)

prop("C36", "How the interpreter was started does not matter",
     "What a well-formed call of any public model, measure or dataset returns does not depend on how the interpreter was started: on the string hash seed, the optimization level, isolated, development or UTF-8 mode, locale, time zone, environment, working directory, standard streams or pandas' copy-on-write mode, on the thread it is made from, or on the order in which the packages were imported. "
     "Importing them prints nothing and leaves the global random generators, numpy's error handling, warning filters, the directory, the environment, the search path and the threads as they were.",
     ["configurations"], "every configuration of a list of starting conditions, a range of hash seeds and every order of importing the public packages, for a catalogue of calls covering the public interface",
     "the tests run in one process with one configuration and a random hash seed; an order taken from a set, a relative path or an import for its side effects goes unnoticed",
     [G, MS + "_long_run_mes.py", IF + "__init__.py", "src/frds/datasets/_stocks.py", MS + "__init__.py", "src/frds/algorithms/__init__.py"],
     [("columns in the order of the frame", IF + "__init__.py anomaly_scores"), ("path relative to the module", "src/frds/datasets/_stocks.py _current_directory"), ("import of the extensions or the fallback", G + " USE_CPP_EXTENSION; " + MS + "_long_run_mes.py USE_CPP_EXTENSION")],
     "exhaustive enumeration of starting configurations, hash seeds and import orders of the real code, against a plainly started process", NOTE)

prop("C37", "Positional, keyword and omitted arguments mean the same",
     "For every public function, constructor and method, in both implementations, an argument may be given by position or by its documented name, an optional argument left out takes its documented default, and a number may be given as any Python or numpy kind that holds its value: the result is that of naming every argument explicitly. Every documented name can be imported from where it is documented.",
     ["configurations"], "every set of optional arguments left at its default, every split into positional and keyword arguments, both keyword orders and every kind of number, over the whole public interface",
     "the tests use one way of writing each call; defaults and parameter names are part of what users rely on", [G, M, MS + "__init__.py", MS + "spread.py", MS + "_distress_insurance_premium.py", MS + "_long_run_mes.py", IF + "__init__.py"],
     [("signatures and defaults", "src/frds/measures, src/frds/algorithms: every public def and __init__"), ("public names", MS + "__init__.py; src/frds/algorithms/__init__.py")],
     "exhaustive enumeration of ways of writing each call of the real code, against the fully named call", NOTE)

prop("C38", "Malformed arguments are refused without a trace; degenerate samples are reported",
     "No public measure or model answers with a number a call whose arrays do not line up, or whose quantile, method, version, marginal models, a negative horizon, a fractional count of days or draws, default probabilities not inside (0, 1) or correlation matrix that is not positive definite contradict its documentation: it raises, and the same object then answers a well-formed call as a fresh one does. "
     "A fit to a sample with a missing or infinite return, or without variation, raises or is reported as unsuccessful, without estimates or a finite likelihood. "
     "A long-run measure of such returns, or of a total loss, raises or is not finite (a failure of the models behind it is never an answer), and a missing value in a numeric argument of a spread or price impact (of trades not all of zero dollar volume), Kyle's lambda, SES, absorption ratio, Z-score, PIN, option, claim, payoff, promised yield or smoothing, or in the market's returns of an MES, makes it raise or gives no finite number.",
     ["inputs", "histories"], "every combination of nine shapes over the array arguments of every function of several arrays, every listed bad argument, samples with a bad return at each position, and every one or two places of a missing value",
     "no test passes a bad argument; numpy broadcasts misaligned data to plausible numbers", [MS + "spread.py", MS + "price_impact.py", MS + "lob_slope.py", MS + "_srisk.py", MS + "_long_run_mes.py", MS + "_absorption_ratio.py", MS + "_probability_of_informed_trading.py", G, M],
     [("shape checks", MS + "spread.py, price_impact.py, lob_slope.py, _systemic_expected_shortfall.py"), ("validation of options", MS + "_probability_of_informed_trading.py __init__; " + MS + "_long_run_mes.py"), ("success flags", G + " fit; " + M + " fit")],
     "exhaustive enumeration of malformed calls of the real code within a grid of shapes and values, followed by well-formed calls on the same objects", NOTE)

prop("C39", "Copies and returned results are independent of everything done afterwards",
     "A copy of a model or measure (copy, deepcopy, any pickle protocol, also when unpickled by another process, before or after a fit) holds what the original held, and original and copy each answer every later call as a fresh object does, whatever is done to the other. "
     "A result belongs to the caller: a later call of the same or another function does not change it, it shares no memory with the arguments or with another result, and overwriting it changes no later result.",
     ["histories", "inputs"], "every way of copying at every point of every short history of calls, and every ordered pair of calls",
     "no test copies or pickles an object, calls twice or writes to a result; process pools and notebooks do all of it", [G, M, MS, "src/frds/algorithms/utils/utils_module.cpp", "src/frds/algorithms/isolation_forest/iforest_module.cpp", MS + "measures_module.cpp"],
     [("state of objects", G + " __init__, fit; " + M + " __init__, fit"), ("ownership of returned arrays", "src/frds/algorithms/utils/utils_module.cpp; " + MS + "measures_module.cpp"), ("returned frames", "src/frds/datasets; src/frds/algorithms/isolation_forest/__init__.py")],
     "exhaustive enumeration of histories of calls and copies of the real objects, and of pairs of calls, compared with fresh objects in fresh processes", NOTE)

prop("C40", "Array arguments count by their values, not by how they lie in memory",
     "For every public function, constructor and method and every array argument, the result depends on the values of the array only: not on its order, strides, direction, alignment, byte order, writability or subclass, on the memory around it, or on what it shares memory with - "
     "arrays that are parts of one buffer, columns of one table, overlapping views or one and the same object count like separate copies of the same values - and nothing in the memory of the caller is changed. Frames count likewise, however their columns were put together.",
     ["inputs"], "every representation of every array argument and every way in which arguments can share memory",
     "tests pass freshly made contiguous arrays; users pass columns of frames, slices, reversed series and lagged views", [G, M, MS, "src/frds/algorithms/utils/utils_module.cpp", "src/frds/algorithms/isolation_forest/iforest_module.cpp", MS + "measures_module.cpp"],
     [("arrays handed to the kernels", "src/frds/algorithms/utils/utils_module.cpp; " + MS + "measures_module.cpp; src/frds/algorithms/isolation_forest/iforest_module.cpp"), ("series kept by models", G + " __init__; " + M + " __init__"), ("columns of frames", "src/frds/algorithms/isolation_forest/__init__.py")],
     "exhaustive enumeration of representations and aliasings of the array arguments of the real calls, compared with separate contiguous copies", NOTE)

#MORE

NOT_APPLICABLE = []


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "mc/props/%s.py" % p[0]["id"].lower()))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in have:
            f.write(json.dumps(p) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "./run.py setup",
        "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources unchanged, and interpose at link and load time", "source_commits": []},
        "checks": [c for _, c in have],
        "not_applicable": NOT_APPLICABLE,
        "notes": "run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N]; FRDS_REPO points at another working tree. The checks build what they need under /verif/.build.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _ in have:
        jsonschema.validate(p, S)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(have), "properties")


main()
