NA = []
NOTES = ("Every check rebuilds the library from /repo's working tree with sanitizers, generates cases with Hypothesis (8 shards, seed from VERIF_SEED), "
         "decides them against an independent oracle, shrinks failures and replays them three times before reporting. No hooks in /repo are needed.")
GEN = "property-based testing (Hypothesis) against "

# ------------------------------------------------------------------ correlation, AR estimation
prop("C01", "Autocovariance is the sample definition whichever way it is computed",
     "For a series x of length N, acvf(x,N,g,M) yields g[k] = (1/N)*sum_{t<N-k}(x[t]-mean)(x[t+k]-mean) for every lag k<M<=N, in both methods of acvf_opt (direct and FFT), and acvf2acf divides by g[0]. The input series is left unchanged.",
     ["inputs"], "all finite series, lags 1..N, both computation methods",
     EX + ": acftest uses one series and two lag counts and asserts nothing about the numbers.",
     ["stats.c", "ctsa.c"], [("direct and FFT autocovariance", "stats.c: autocovar, autocovar_fft"), ("public entry points", "ctsa.c: acvf, acvf_opt, acvf2acf")],
     GEN + "a direct numpy definition", "generated series of 12 shapes, lengths 1..4000, all lag counts; tolerance at rounding level")
prop("C02", "Partial autocorrelations and Yule-Walker fits solve the Yule-Walker equations",
     "pacf and pacf_opt(method 0) return at lag k the last coefficient of the order-k Yule-Walker fit of the sample autocovariances; yw and ar(method 0) return the coefficients solving the order-p Yule-Walker equations and the matching innovation variance.",
     ["inputs"], "all non-constant series whose autocovariance matrix is well conditioned, all orders below N",
     EX + ": pacftest and artest print values for one series without comparing them.",
     ["ctsa.c", "initest.c", "stats.c", "talg.c"], [("Durbin-Levinson / pacf", "initest.c, ctsa.c: pacf, pacf_opt, pacf_yw, ywalg"), ("yw, ar", "ctsa.c: yw, ar")],
     GEN + "a dense Toeplitz solve", "generated series and orders up to 25")
prop("C03", "Burg and Hannan-Rissanen estimates equal their defining recursions",
     "burg, ar(method 1) and pacf_opt(method 1) give the coefficients, variance and reflection coefficients of the Burg lattice on the whole demeaned series; hr gives the two-stage Hannan-Rissanen least-squares estimates. On long simulated autoregressions yw and burg recover the generating coefficients.",
     ["inputs"], "all non-constant series, orders p up to 25 (p,q up to 4 for hr)",
     EX + ": artest runs two of the estimators on one series.",
     ["initest.c", "ctsa.c"], [("burgalg, hralg", "initest.c: burgalg, burgalg2, hralg, hrstep2")],
     GEN + "a lattice and a two-stage least-squares reference, plus consistency on simulated data", "generated series and orders")
prop("C04", "AR order choice minimises its criterion and the AR object is consistent",
     "ar_estimate and ar_init/ar_exec choose, over orders 1..max, an order minimising the AIC of the selected estimator, and model_estimate reports the (p,q) pairs minimising AIC, SC and HQ of the differenced series. The fitted AR object's coefficients, mean, variance and forecasts from ar_predict are those of the chosen order.",
     ["inputs", "configurations"], "series of 20..200 points, the three estimation methods, differencing 0..2, order caps, forecast lengths",
     EX + ": artest and artest2 print an order for one series.",
     ["ctsa.c", "autoutils.c", "initest.c"], [("order search", "ctsa.c: ar_estimate, model_estimate, ar_exec"), ("AR forecasts", "ctsa.c: ar_predict")],
     GEN + "re-computation of every candidate order by independent estimators", "generated series; ties within rounding accepted")

# ------------------------------------------------------------------ ARIMA family
MODELS = ["emle.c", "ctsa.c", "talg.c", "pred.c"]
prop("M01", "Exact likelihood, variance, AIC and residuals are those of the reported model",
     "After a converged maximum-likelihood fit with arima_exec, sarima_exec or sarimax_exec, the reported log-likelihood, innovation variance, AIC and residuals are those of the exact Gaussian likelihood of the differenced series (less mean and regressors) at the reported coefficients, and the reported MA parts are invertible. Reported orders, number of coefficients and used length match the requested model.",
     ["inputs", "configurations"], "orders p up to 5, q up to 4 (2 with a seasonal part of period 7 or more), P,Q up to 2, d,D up to 2/1, periods 2..12, 0..2 regressors, with and without mean, all optimisers, scales 0.01..100",
     EX + "; a wrong likelihood constant, missing observation or wrong residual leaves them green.",
     MODELS, [("exact likelihood by Kalman filter with fast recursions", "emle.c: as154, as154_seas, as154x, karma, starma"), ("mean and regressors", "emle.c: as154x, cssx")],
     GEN + "a dense-covariance exact likelihood re-evaluated at the reported estimates", "converged stationary fits; tolerance 1e-6 per observation")
prop("M02", "CSS fits report the conditional sum of squares of the reported model",
     "After a converged conditional-sum-of-squares fit, the reported variance, log-likelihood and residuals are those of the residual recursion at the reported coefficients, with the first p+s*P residuals zero and the documented divisor.",
     ["inputs", "configurations"], "orders p up to 5, q up to 4 (2 with a seasonal part of period 7 or more), P,Q up to 2, d,D up to 2/1, periods 2..12, 0..2 regressors, all optimisers",
     EX + ".", MODELS, [("conditional residual recursion", "emle.c: fcss, fcss_seas, fcssx, css, css_seas, cssx")],
     GEN + "an independent residual recursion", "converged fits; tolerance 1e-8 relative")
prop("M03", "Reported estimates maximise the fitting criterion",
     "The coefficients a converged, interior ARIMA, SARIMA or SARIMAX fit reports are a local optimum of its criterion (exact likelihood or conditional sum of squares): one Newton step of the reference criterion gains nothing material, and for pure autoregressions the criterion is no worse than at the generating coefficients.",
     ["inputs", "configurations"], "orders up to (4,d,3)(2,D,2), also above the season length, optimisers BFGS, L-BFGS, More-Thuente BFGS, Newton variants and CG; interior, identified optima",
     EX + "; a fit that stops at the starting values passes.",
     MODELS + ["optimc.c", "secant.c", "newtonmin.c", "conjgrad.c", "lnsrchmp.c"], [("criteria and optimiser calls", "emle.c, optimc.c"), ("starting values", "initest.c: hrstep2; emle.c: css stage")],
     GEN + "Newton decrement of an independent criterion at the reported point", "gain tolerance 0.01 (0.1 for opt methods 1-4) log-likelihood units; Nelder-Mead excluded (documented in DESIGN.md)")
prop("M04", "The covariance matrix is the inverse information of the fitted criterion",
     "The coefficient covariance matrix a converged, interior fit reports is symmetric, has one row per estimated coefficient in the order phi, theta, PHI, THETA, mean, regressors, and equals the inverse observed information of the criterion at the estimates.",
     ["inputs", "configurations"], "orders up to (4,d,3)(2,D,2), also above the season length, 0..2 regressors, mean on/off, exact likelihood and CSS, scales 0.2..5",
     EX + "; standard errors are printed but not compared.", MODELS, [("numerical Hessian and scaling", "emle.c: covariance blocks of as154*, css*; optimc.c/newtonmin.c: hessian_fd")],
     GEN + "the inverse of an independent numerical information matrix", "relative deviation 0.15 (finite-difference Hessian of the library)")
prop("M05", "Equivalent models and rescaled data give equivalent fits",
     "arima, sarima and sarimax fits of the same non-seasonal model reach the same log-likelihood, forecasts and errors; fitting a*y+c plus multiples of the regressors transforms the estimates, variance and log-likelihood accordingly; linearly dependent regressors are refused with return code 7.",
     ["inputs", "configurations"], "orders up to (3,d,3), scale factors, shifts and regressor combinations, MLE and CSS",
     EX + ".", MODELS, [("three implementations of one likelihood", "emle.c: as154, as154_seas, as154x"), ("collinearity test", "emle.c: as154x, cssx")],
     GEN + "metamorphic relations between fits", "pairs of converged fits at interior optima; other local optima are labelled and skipped")
prop("M06", "Box-Jenkins fits minimise the unconditional sum of squares",
     "With method 2, arima and sarima return finite coefficients and mean that locally minimise the sum of squares of the backforecast residuals of the differenced series, whatever its unit and origin; the reported variance, last N residuals and covariance matrix (in coefficient order, mean last) are those of the reported parameters, and forecasts from such a fit are the exact predictors. pacf_opt with method 2 gives the last coefficients of these fits of increasing order.",
     ["inputs", "configurations"], "orders up to (4,2,4)(2,1,2), periods 2..12, series of 40..150 points, scales 1e-4..1e5, models without any coefficient",
     EX + ": arimatest does not use this method.", ["boxjenkins.c", "ctsa.c", "initest.c"],
     [("Marquardt search", "boxjenkins.c: nlalsm, nlalsms"), ("back-forecasting", "boxjenkins.c: avaluem"), ("start values", "boxjenkins.c: USPE, USPE_seasonal"), ("partial autocorrelation", "initest.c: pacf_mle")],
     GEN + "a numpy back-forecasting reference: values, one Newton step of gain, numerical Jacobian, dense predictor", "optimality on interior estimates with success code 1; covariance to 2 percent")

prop("F01", "Forecasts and their error variances are the exact finite-sample predictor",
     "arima_predict, sarima_predict and sarimax_predict return, for every horizon up to L, the conditional expectation of the fitted model given the series (with future regressor values applied) and its forecast error variance, integrated through all regular and seasonal differences.",
     ["inputs", "configurations"], "orders up to (4,2,4)(2,2,2), also above the season length, periods 2..12, horizons 1..30, 0..2 regressors, MLE and CSS fits",
     EX + "; forecasts are printed, not compared.", ["ctsa.c", "pred.c", "emle.c", "talg.c"],
     [("state-space forecast", "emle.c: forkal"), ("public prediction", "ctsa.c: arima_predict, sarima_predict, sarimax_predict; pred.c: predictarima")],
     GEN + "a dense-covariance best linear predictor", "converged stationary fits; tolerance 1e-6 of the forecast standard error")

# ------------------------------------------------------------------ automatic order selection
AUTO = ["ctsa.c", "autoutils.c", "seastest.c", "unitroot.c"]
prop("S01", "auto_arima stays within its settings and differences as its test decides",
     "The model auto_arima_exec selects respects the order maxima, the N/3 and period caps, the stationary, seasonal, drift and mean settings and reports consistent sizes. With the KPSS test the number of regular differences is the smallest for which the test does not reject at the chosen level (up to the maximum), applied to the seasonally differenced regression residuals.",
     ["inputs", "configurations"], "series of 30..90 points of eight kinds, periods 0..6, 0..2 regressors, all setter combinations, stepwise and exhaustive, three unit-root tests",
     EX + ": three auto_arima tests print a model for one series each.",
     AUTO, [("search and settings", "ctsa.c: auto_arima1, search_arima, auto_arima_set*"), ("differencing decision", "autoutils.c: ndiffs, nsdiffs")],
     GEN + "settings as invariants, and an independent KPSS decision sequence", "small maxima so that searches stay short; level 0.01 is excluded because p-values end there")
prop("S02", "The selected model is genuinely fitted and not beaten by admissible candidates",
     "The log-likelihood, variance, AIC, AICc, BIC and sigma2 auto_arima_exec reports are those of the reported model. Without approximation the stepwise choice has a criterion no worse than any admissible neighbour and standard starting model, and the exhaustive choice no worse than any admissible model within the limits, where admissible means a converged fit with all roots beyond 1.01.",
     ["inputs", "configurations"], "series of 30..90 points, periods 0..6, up to 2 regressors, three criteria, start orders, drift and mean settings",
     EX + "; a search that stops early or mixes up candidates passes.",
     AUTO, [("candidate evaluation", "ctsa.c: myarima"), ("stepwise and exhaustive search", "ctsa.c: auto_arima1, search_arima"), ("criteria", "ctsa.c: myarima, sarimax_wrapper")],
     GEN + "brute-force evaluation of every competitor through the public sarimax interface, and an exact likelihood", "model without constant chosen against a set of models with constant only is skipped for the neighbourhood relation")
prop("S03", "auto_arima forecasts follow the selected model, drift and regressors included",
     "auto_arima_predict returns the conditional expectation and error variance of the selected model with mean, drift and future regressors applied; constant, linear and exactly periodic series are continued exactly with zero error variance.",
     ["inputs", "configurations"], "series of 24..90 points, periods 0..12, 0..2 regressors, horizons 1..14, stepwise and exhaustive, with and without approximation",
     EX + "; forecasts are printed, not compared.",
     ["ctsa.c", "emle.c", "talg.c"], [("prediction", "ctsa.c: auto_arima_predict; emle.c: forkal"), ("degenerate series", "ctsa.c: auto_arima1, sarimax_wrapper")],
     GEN + "a dense-covariance best linear predictor and exact continuations", "stationary, invertible selections; tolerance 2e-4 of the forecast standard error")
prop("S04", "auto_arima depends on data and settings only",
     "Running auto_arima_exec again, or after the object was used for another series, gives bit-identical results to a fresh object with the same settings; rescaling the series by a power of two or by -1 leaves the differencing orders unchanged and shifts the criterion of an autoregressive choice by 2n log|k| (up to optimiser accuracy).",
     ["inputs", "histories", "configurations"], "two-step histories over an object, setter combinations, scale factors",
     EX + "; every test creates a fresh object for one call.",
     ["ctsa.c"], [("result fields that are also inputs", "ctsa.c: auto_arima_exec")],
     GEN + "comparison with a fresh object and a scaling relation", "one earlier use per object")

# ------------------------------------------------------------------ building blocks: time-series algebra
INT = "reached through internal entry points; a tree without one of them reports those cases as discarded"
prop("T01", "Differencing, polynomial and ARMA weight algebra is exact",
     "Polynomial products, up- and downsampling, regular and seasonal differences of any order (including none) equal their definitions. Psi and pi weights satisfy their recursions and the theoretical autocovariances solve the extended Yule-Walker equations of any stationary ARMA process.",
     ["inputs"], "degrees up to 12, differences up to 5, periods up to 12, ARMA orders up to (5,5) with roots up to modulus 0.95, lags up to 30",
     EX + "; these routines have no test.", ["talg.c"], [("polynomials and differences", "talg.c: poly, upsample, deld, delds, diff, diffs"), ("weights and autocovariances", "talg.c: psiweight, piweight, arma_autocovar, twacf")],
     GEN + "numpy convolution and a linear-system solution", INT)
prop("T02", "Stationarity transforms, root checks and polynomial roots are correct",
     "The partial-autocorrelation transform maps any real vector to the stationary AR model with those partial autocorrelations (tanh) block by block, and its inverse undoes it. archeck is true exactly when all roots lie outside the unit circle, invertroot reflects only the offending roots, and the polynomial root finders return every root once.",
     ["inputs"], "orders up to 8 (5 for the transform), seasonal polynomials of order up to 32 and general ones of degree up to 60 (to 130 for memory safety), roots of modulus 0.1..10 at least 0.12 apart, trailing and leading zero coefficients, scales 1e-6..1e6",
     EX + "; wrong roots show only for particular coefficient patterns.", ["talg.c", "polyroot.c"],
     [("transforms", "talg.c: artrans, arinvtrans, transall, invtransall"), ("roots", "talg.c: archeck, invertroot; polyroot.c: polyroot, cpolyroot")],
     GEN + "polynomials built from known roots and the Durbin-Levinson recursion", INT + "; roots within 0.001 of the unit circle excluded")
prop("T03", "Interpolation, moving averages and the super smoother equal their definitions",
     "Linear interpolation (clamped at the ends, NaN passed through), equally spaced grids, running minima, cumulative and Bartlett-weighted sums, moving-average, weighted and exponential filters and classical deseasonalising equal their definitions. The super smoother equals Friedman's algorithm with every window fitted from scratch, and reproduces straight lines.",
     ["inputs", "configurations"], "series of 5..90 points, windows up to 12, spans 0..1, periodic abscissae, ties, weights, bass control",
     EX + "; no smoother has a test.", ["talg.c", "filter.c"], [("smoother", "talg.c: smooth_, supsmu_"), ("filters", "filter.c: mafilter, mafilter2, mafilter_wt, expfilter"), ("interpolation", "talg.c: approx, interpolate_linear")],
     GEN + "direct definitions in numpy", INT + "; cases whose span choice or leverage sits within 1e-7 of a threshold are discarded")
prop("X01", "Fourier transforms and every convolution routine are correct for every length",
     "The forward and inverse complex and real transforms equal the discrete Fourier transform for every length, repeated use of one plan included, and undo each other. Every convolution routine and both methods in full, same and valid mode equal the convolution sum.",
     ["inputs", "configurations"], "every length up to 700 (4200 thorough) and single lengths up to 120000 (600000 thorough) including primes and mixed radices, operands of 1..220 values, unit, offset and scaled signals",
     EX + "; transform lengths reach each radix and the Bluestein path only by chance.", ["hsfft.c", "real.c", "conv.c", "filter.c"],
     [("mixed radix and Bluestein", "hsfft.c: mixed_radix_dit_rec, bluestein_fft"), ("real transform", "real.c"), ("convolution", "conv.c: conv_fft, conv_direct, convolve")],
     GEN + "numpy.fft and numpy.convolve", INT + "; tolerance 1e-10 (radix 3, 5 and 7 constants carry 11 digits)")
prop("X02", "Periodogram and power spectrum equal the squared transform and preserve energy",
     "The one- and two-sided periodogram and zero-padded power spectrum equal |sum x_t exp(-iwt)|^2 with their documented scaling on the Fourier frequencies, the periodogram sums to the energy of the series, and shifting orders the frequencies.",
     ["inputs", "configurations"], "series of 2..150 points, one- and two-sided, padding up to 64",
     EX + "; spectra have no test.", ["spectrum.c"], [("spectra", "spectrum.c: periodogram, psd, spectrum_shift")],
     GEN + "numpy.fft", INT)

# ------------------------------------------------------------------ regression, tests, decomposition
prop("R01", "Linear regression reports the least-squares fit and its classical statistics",
     "Coefficients, residuals, variance, covariance matrix, standard errors and confidence limits, (adjusted) R squared, sums of squares, F and its p-value, log-likelihood, AIC, BIC and AICc of a least-squares fit equal their textbook definitions, for every solver, with and without intercept, for polynomial regressors and when the object is reused. Predictions and their variances follow from them.",
     ["inputs", "configurations", "histories"], "1..6 coefficients, 4..60 observations, noise 1e-5..1, offsets to 1000, three solvers, refits of one object",
     EX + "; regressions have no asserting test.", ["regression.c", "lls.c"], [("fit", "regression.c: linreg_multi, regress"), ("one regressor", "regression.c: linreg_clrm"), ("prediction", "regression.c: fitted, zerohyp")],
     GEN + "a QR least-squares solution and scipy distributions", INT + "; designs whose squared condition number exceeds 1e8 discarded")
prop("U01", "Unit-root tests and ndiffs equal their published definitions",
     "The KPSS, augmented Dickey-Fuller and Phillips-Perron statistics, their lag choice, critical values and interpolated p-values equal the published definitions for short and very long series. ndiffs returns the smallest number of differences (up to the maximum) at which the chosen test stops asking for another one, and a series counts as constant exactly when all its values agree.",
     ["inputs", "configurations"], "series of 12..200 and 1200..50000 points of ten kinds, all test types, fixed and selected lags, levels inside and outside 0.01..0.1",
     EX + "; the tests print these statistics without comparing them.", ["unitroot.c", "autoutils.c"], [("tests", "unitroot.c: ur_kpss, ur_df, ur_df2, ur_pp, ur_pp2"), ("decision", "autoutils.c: ndiffs, is_constant")],
     GEN + "direct definitions in numpy", INT + "; decisions within 1e-6 of the level discarded")
prop("U02", "Seasonality tests and nsdiffs equal their definitions",
     "The seasonal strength of each period is 1 - var(remainder)/var(remainder + seasonal component) clamped to [0, 1], and 0 for a period the series does not contain twice; the OCSB statistic is the t ratio of the seasonal term in the regression of the requested or selected order, with the tabulated critical value. nsdiffs returns the smallest number of seasonal differences (up to the maximum) at which the chosen test stops asking for another one.",
     ["inputs", "configurations"], "series of 8..110 points, periods 2..15, OCSB orders 1..4 fixed or selected by AIC, BIC or AICc, maxima 0..3",
     EX + "; the tests print these statistics without comparing them.", ["seastest.c", "autoutils.c"], [("OCSB", "seastest.c: fitOCSB, OCSBtest"), ("strength", "seastest.c: SHtest"), ("decision", "autoutils.c: nsdiffs")],
     GEN + "direct definitions in numpy", INT + "; OCSB selects one order less than the best candidate, as the R original does; periods within one observation of half the length discarded")
prop("D01", "STL decompositions equal the loess definition and add up to the series",
     "The seasonal and trend components equal Cleveland's STL procedure for every combination of windows, degrees, jumps, periodic seasonality and inner and robust outer iterations, given or defaulted independently, and the three components sum to the series. Multiple seasonal decomposition iterates it over the usable periods in ascending order, after an optional Box-Cox transform, and uses the super smoother when there is none.",
     ["inputs", "configurations"], "series of 8..300 points, periods 2..60, any subset of the twelve optional arguments, up to three periods",
     EX + "; decompositions are only printed.", ["stl.c", "seastest.c"], [("loess and robustness", "stl.c: stless_, stlest_, stlrwt_, psort_"), ("defaults", "seastest.c: stl, modstl, mstl")],
     GEN + "an STL written from its definition in numpy", INT + "; tolerance 1e-9 divided by the smallest robust scale")
prop("B01", "Box-Cox transforms and forecast error measures equal their definitions",
     "The Box-Cox transform of a positive series equals its definition for every exponent, is increasing, and is undone by its inverse; without an exponent the maximiser of the profile likelihood on [-2, 2] is used; constant or negative series are refused. ME, MSE, RMSE, MAE, MAPE, MPE and MASE equal their definitions, undefined percentages skipped.",
     ["inputs"], "series of 1..120 points of six kinds, exponents -2..2 including 0 and 1e-12, zero actual values",
     EX + "; none of these has a test.", ["boxcox.c", "errors.c", "brent.c"], [("transform", "boxcox.c: boxcox, boxcox_eval, inv_boxcox_eval"), ("measures", "errors.c")],
     GEN + "definitions in numpy and a grid of the likelihood", INT + "; likelihoods with several local maxima discarded")

# ------------------------------------------------------------------ building blocks: linear algebra
prop("L01", "Matrix products, LU, PLU and Cholesky factorisations are correct",
     "Every product routine and transposition equals the matrix product and transpose for all shapes, thin and large ones included; sorting returns a sorting permutation. LU solutions, inverses and pivoted factors reproduce the matrix with a valid permutation and multipliers of at most one; Cholesky factors reproduce every positive definite matrix and refuse indefinite ones whatever their size.",
     ["inputs", "configurations"], "shapes up to 210 (4000 in one dimension), 13 kinds of matrices (permutations, triangular, graded, low rank...), scales 1e-5..1e6, condition up to 1e9",
     EX + "; the blocked and recursive code paths need sizes no test has.", ["matrix.c"], [("products", "matrix.c: mmult, rmult, tmult, smult"), ("factorisations", "matrix.c: ludecomp, pludecomp, chol, bcholu")],
     GEN + "numpy.linalg and the defining identities", INT)
prop("L02", "Orthogonal factorisations, singular values, rank and least squares are correct",
     "Householder reflections are orthogonal and map their vector to the first axis; QR factors, singular value decompositions of tall, square and wide matrices and the randomised decomposition of low-rank matrices reproduce the matrix with orthonormal factors and sorted singular values. The rank counts the non-negligible singular values and every least-squares solver returns the (minimum-norm) solution.",
     ["inputs"], "shapes up to 40, 13 kinds of matrices, scales 1e-5..1e6, rank deficient matrices for the factorisations",
     EX + "; the regressor check of every model rests on this rank.", ["matrix.c", "lls.c"], [("reflections", "matrix.c: house, qrdecomp"), ("singular values", "matrix.c: svd; lls.c: svd_gr, svd_gr2, minfit"), ("least squares", "lls.c: lls_qr, lls_normal, lls_svd, lls_svd2")],
     GEN + "numpy.linalg and the defining identities", INT + "; least squares of full rank with condition below 1e6 only")
prop("L03", "Eigenvalues and Hessenberg forms are correct for every square matrix",
     "The eigenvalues of any real matrix are finite, make A - lambda I singular to rounding, sum to the trace and match the true ones one to one; symmetric eigensystems have orthonormal eigenvectors satisfying A v = lambda v. The Hessenberg form is orthogonally similar to the matrix with zeros below the first subdiagonal.",
     ["inputs"], "up to 25 rows (40 symmetric), 13 kinds of matrices including cyclic permutations, nilpotent and zero-diagonal ones, scales 1e-5..1e6",
     EX + "; iterations stall only on special structures.", ["matrix.c"], [("QR iteration", "matrix.c: francisQR, francis_iter, eig"), ("symmetric", "matrix.c: tred2, tqli, eigensystem"), ("Hessenberg", "matrix.c: hessenberg")],
     GEN + "numpy.linalg and the defining identities", INT)

# ------------------------------------------------------------------ building blocks: special functions and distributions
prop("P01", "Special functions are accurate over their whole domain",
     "The error function, its complement, scaled complement and inverses, log(1+x), the gamma and log-gamma function, factorials, complete and incomplete beta and both incomplete gamma functions agree with reference values to near working accuracy on their whole domain, at branch points, tiny and large arguments included. Where an argument is not a number, neither are the error, gamma and beta functions.",
     ["inputs"], "arguments over 300 orders of magnitude, shapes 0.01..1000, points on both sides of every branch",
     EX + "; every p-value and critical value rests on these, one branch at a time.", ["erfunc.c", "dist.c"],
     [("error functions", "erfunc.c: erf__, erfc1__, erfinv, erfcinv"), ("gamma and beta", "dist.c: gamma, gamma_log, pgamma, ibeta, bfrac")],
     GEN + "scipy.special", INT + "; erfcinv below 0.0625 to 1e-7, incomplete functions to 1e-11 absolute")
prop("P02", "Densities, distribution functions and quantiles equal their definitions",
     "Normal, t, F, gamma, chi-squared and beta densities and distribution functions equal their definitions on the whole support, end points included, for any parameters, and are undefined where the statistic is. Quantiles invert the distribution functions, increase with the probability, are negative exactly in the lower tail of symmetric distributions and give the ends of the support at 0 and 1.",
     ["inputs"], "degrees of freedom 1..5000, shapes 0.01..1000, probabilities 1e-4..0.9999",
     EX + "; the lower tail and end points are never reached by a model fit in the tests.", ["pdist.c", "dist.c"],
     [("distributions", "pdist.c"), ("beta quantile", "dist.c: betainv, betapdf")],
     GEN + "scipy.stats and scipy.special", INT + "; beta, t and F quantiles to 3e-7 on the beta scale (AS 109)")

# ------------------------------------------------------------------ building blocks: optimisation
prop("O01", "Minimisers end at minima, never above the start, and report honestly",
     "Every method of optimize, fminunc, fminsearch and fminnewt returns a finite point that is never worse than the start, with the objective value it reports; code 1 means a small scaled gradient, and strictly convex functions end at their minimiser with and without an analytic gradient, within the iteration limit. fminbnd and brent_local_min find the minimum of a unimodal function inside the interval or at its ends; brent_zero finds the sign change.",
     ["inputs", "configurations"], "1..12 variables, five function families with condition 1..900, starts at and far from the minimum, eight methods, step limits, analytic or numerical gradients",
     EX + "; every likelihood fit in the library goes through these routines.", ["optimc.c", "newtonmin.c", "secant.c", "conjgrad.c", "neldermead.c", "lnsrchmp.c", "brent.c"],
     [("quasi-Newton and Newton", "newtonmin.c, secant.c"), ("line searches", "lnsrchmp.c, newtonmin.c: lnsrch"), ("simplex", "neldermead.c: nel_min"), ("one variable", "brent.c")],
     GEN + "known minimisers, an instrumented objective and first-order conditions", INT)
prop("O02", "Nonlinear least squares ends at stationary points below the start",
     "levmar, nls and nls_scale return a point whose sum of squares is never above that of the start. Every code but the evaluation limit means that the residual is orthogonal to the columns of the Jacobian; linear problems reach the least-squares minimum, an analytic and a forward-difference Jacobian give the same minimum, and the evaluation limit and count are respected.",
     ["inputs", "configurations"], "linear, exponential, logistic and Rosenbrock residuals, 1..6 parameters, up to 20 rows, with and without noise, badly scaled columns",
     EX + "; the routines are otherwise untested.", ["nls.c", "optimc.c"], [("Levenberg-Marquardt", "nls.c: lmder, lmdif, lmpar, qrfac, qrsolv"), ("interface", "optimc.c: levmar, nls, nls_scale")],
     GEN + "numpy.linalg.lstsq and first-order conditions", INT)

# ------------------------------------------------------------------ wavelets
prop("W01", "Decimated wavelet transforms equal the filter-bank definition and invert",
     "For every wavelet name of wave_init the four filters have their family's defining properties (orthonormal or biorthogonal, right vanishing moments). dwt and wtree give exactly the filtered and halved coefficients of the chosen extension with the documented lengths, in direct and FFT mode; Series shorter than the filter included, idwt inverts any coefficients, getDWTmra gives their components and dwpt selects the least-cost basis and inverts.",
     ["inputs", "configurations"], "all wavelet names, periodic and symmetric extension, direct and FFT convolution, 1..8 levels, series of up to 300 points",
     EX + ": no existing test calls the wavelet code; lengths interact with levels, extension and filter.", ["wavelib.c", "wavefilt.c", "wtmath.c", "conv.c"],
     [("filters", "wavefilt.c: filtcoef, filtlength"), ("transform", "wavelib.c: dwt, idwt, dwt_per, dwt_sym, getDWTmra"), ("packets", "wavelib.c: wtree, dwpt, idwpt, costfunc")],
     GEN + "a matrix-style numpy filter bank, inversion, energy and optimality over all bases", "unit: the wavelet headers are internal")
prop("W02", "Undecimated transforms equal their definition, invert and decompose additively",
     "swt and modwt return the circularly filtered coefficients of every level with the documented layout, in direct and FFT mode; modwt accepts series of any length, also shorter than the filter, and with symmetric extension transforms the reflected series. iswt and imodwt invert any coefficients, the maximal-overlap transform keeps the energy, and getSWTmra and getMODWTmra return the components of the inverse, which add up to the series.",
     ["inputs", "configurations"], "all (orthogonal) wavelet names, both extensions, both convolution modes, 1..8 levels",
     EX + ": no existing test calls the wavelet code.", ["wavelib.c", "wtmath.c", "conv.c", "hsfft.c"],
     [("stationary", "wavelib.c: swt, iswt, getSWTmra"), ("maximal overlap", "wavelib.c: modwt, imodwt, getMODWTmra")],
     GEN + "a direct numpy definition, inversion and energy", "FFT accuracy 1e-9 relative")

# ------------------------------------------------------------------ whole library
prop("G01", "Results depend only on the arguments, and no call touches invalid memory",
     "For every call of every other property here (all fits, forecasts, tests, decompositions, transforms and their building blocks), the results are bit for bit the same whatever the heap and stack contained before, whatever was called before, and when the call is repeated; no branch or result rests on a value that was never set. No call reads or writes outside the arrays it was given or allocated, uses freed memory, overflows an index or changes an input array it is not documented to change.",
     ["inputs", "configurations", "histories"], "every generated case of all other properties, in two processes with different memory contents and histories, and in a third under the memory sanitizer",
     "A test sees one memory layout and one history; a read of an uninitialised or out-of-range element shows only for particular orders, lengths and failure paths.", ["ctsa.c", "*.c"],
     [("objects", "ctsa.c: *_init, *_exec, *_predict, *_free"), ("work arrays", "emle.c, optimc.c, boxjenkins.c, wavelib.c, stl.c")],
     GEN + "the same call in a second process with other memory contents, under AddressSanitizer and UndefinedBehaviorSanitizer (and again under clang's MemorySanitizer), with input arrays compared afterwards", "rsvd (seeded with the clock) is only checked for memory errors; data races are out of scope: the library keeps no shared state but rand()")
prop("G02", "Everything allocated is released by the end of the call or by the free function",
     "After any call that returns, and after the matching free function for calls that create an object, the library holds no more heap memory than before, whether the call succeeded, reported a failure or hit a limit.",
     ["inputs", "configurations"], "every generated case of all other properties",
     "No test measures memory; leaks sit on the failure and early-return paths.", ["ctsa.c", "*.c"],
     [("objects", "ctsa.c: *_free; wavelib.c: wave_free, wt_free"), ("early returns", "emle.c, optimc.c, matrix.c, talg.c")],
     GEN + "heap balance of the worker process (allocator hooks) before and after", "calls refused by exit() are excluded")
prop("G03", "Objects have no hidden history: results follow from settings and last data",
     "Over any interleaving of creating, setting, executing, re-executing on other data, forecasting, printing, freeing and re-creating several live objects (arima, sarima, sarimax, auto_arima and ar models; wavelet, packet, FFT, convolution, spectrum, optimiser and regression objects), every output equals that of a fresh object with the settings in force, executed once on the last data. Setter calls with values they do not accept leave the settings unchanged.",
     ["histories", "configurations"], "random operation histories over up to 4 live objects",
     "Tests create an object, use it once and free it; state left over from an earlier execution, setting or object shows only in longer histories.", ["ctsa.c", "wavelib.c", "optimc.c", "regression.c", "conv.c", "real.c", "stats.c"],
     [("model objects", "ctsa.c: *_init, *_set*, *_exec, *_predict, *_free"), ("work objects", "wavelib.c: dwt, wtree, dwpt, modwt; optimc.c: optimize; regression.c: regress")],
     GEN + "the same operation on a fresh object (bit for bit)", "one thread")
prop("G04", "Printed summaries show the fitted model",
     "arima_summary, sarima_summary, sarimax_summary, auto_arima_summary and ar_summary print the orders, every coefficient with its own standard error from the covariance matrix, mean, trend, regressors, innovation variance, return code with its message, log likelihood, criteria and settings of the object, and name the estimation and optimisation method that were used. The equation form of arima_summary and sarimax_summary has the right terms and signs.",
     ["inputs", "configurations"], "random models of every kind, method and optimiser on random series, successful and failed fits",
     "No test reads the printed text, which is the interface most users rely on.", ["ctsa.c"],
     [("summaries", "ctsa.c: *_summary")], GEN + "the object's fields and covariance matrix against the parsed text", "free-text layout is parsed by its row labels; printing uses %g, hence six digits")
prop("G05", "Printed tables of regression, optimiser, wavelet and matrix objects are right",
     "summary, anova, confint, zerohyp_val and anova_list print the values of the regression objects in their rows; optsummary and nlssummary print code, message, method, iterations, point and value of the last run. wave_summary, wt_summary, wtree_summary and wpt_summary print the filters and settings of the object and list every part of the output once, with the index and length at which output holds that part's coefficients; mdisplay prints every element.",
     ["inputs", "configurations"], "random regressions with 1..5 coefficients, all optimisers, all wavelets and five transforms, random matrices",
     "No test reads these texts; an access index is wrong only for particular levels, lengths and bases.", ["regression.c", "optimc.c", "wavelib.c", "matrix.c"],
     [("regression", "regression.c: summary, anova, confint, zerohyp_val, anova_list"), ("optimiser", "optimc.c: optsummary, nlssummary"), ("wavelets", "wavelib.c: *_summary"), ("matrices", "matrix.c: mdisplay")],
     GEN + "the object's fields and the coefficients returned by the access functions against the parsed text", "layout parsed by row labels; %lf shows six decimals, %g six digits; unit: these headers are internal")
