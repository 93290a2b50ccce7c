#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from props import PROPS

K = 'filterpy/kalman/'
KFP = K + 'kalman_filter.py'
P = []


def p(id, title, statement, over, text, why, files, mech, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))
    NOTE[id] = note


NOTE = {}
IN, HI, CO = 'inputs', 'histories', 'configurations'

p('C01', 'Kalman prediction propagates mean and covariance by the model in force',
  'A prediction of the linear Kalman filter replaces the estimate by F x + B u and its covariance by alpha^2 F P F\' + Q, where F, B and Q are those given to the call or else the filter\'s own, a scalar Q stands for Q times the identity, and no control term is added when no control input or no control matrix is given. The prior estimate and covariance it reports are that result, and nothing else about the filter changes.',
  [IN, HI, CO], 'all state and control dimensions, estimates kept as 1-D or column arrays, every combination of per-call overrides, after any history of other calls',
  'The tests predict with a handful of constant-velocity models, almost always with the filter\'s own matrices and without control inputs; they look at x only.',
  [KFP], [('KalmanFilter.predict', KFP)],
  'every event of the recorded histories is recomputed exactly from the state before it')
p('C02', 'Kalman update is the minimum variance correction with the model in force',
  'An update of the linear Kalman filter with a measurement z in any documented form sets the residual to z - H x, its covariance to S = H P H\' + R, the gain to P H\' S^-1, the estimate to x + K y and the covariance to (I-KH) P (I-KH)\' + K R K\', where H and R are those given to the call or else the filter\'s own and a scalar R stands for R times the identity. The reported measurement, residual, gain, innovation covariance and its inverse, and posterior estimate and covariance all belong to that update.',
  [IN, HI, CO], 'all dimensions and measurement forms (number, list, row, column), every combination of overrides, after any history',
  'The tests track one or two noisy ramps and compare with a loose threshold or with another run of the same code; overrides, multi-dimensional measurements and reported by-products are hardly used.',
  [KFP], [('KalmanFilter.update', KFP), ('measurement shapes', 'filterpy/common/helpers.py')],
  'every event of the recorded histories is recomputed exactly from the state before it')
p('C03', 'A missing measurement leaves the estimate alone in every filter',
  'Updating any filter (linear, extended, unscented, cubature, ensemble, fading memory, square root, information, H-infinity, steady-state and correlated-noise updates, interacting and adaptive filter banks) with None as the measurement changes neither its estimate nor its covariance nor, in a bank, the probabilities of its models. The posterior it reports is then the estimate as it stood, and the next prediction and update behave as if the call had not been made.',
  [HI, CO], 'all filters; missing measurements at any place and any number of times in a history of predictions and updates',
  'One test per class at most calls update(None) once; none looks at the state after a longer history.',
  [KFP, K + 'EKF.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py', K + 'ensemble_kalman_filter.py', K + 'fading_memory.py', K + 'square_root.py', K + 'information_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', K + 'IMM.py', K + 'mmae.py'],
  [('early return of every update on None', KFP)], 'histories with missing measurements, recomputed exactly')
p('C04', 'Sequential, steady-state and correlated-noise updates follow their models',
  'Updating with part of a measurement vector corrects the estimate exactly as an update with those rows of H and R would, leaving the other rows of the reported residual and gain alone; steady-state prediction and update change the estimate with the current gain and leave the covariance alone; an update with process and measurement noise correlated by M uses S = H P H\' + H M + M\' H\' + R and K = (P H\' + M) S^-1. Overrides given to a call apply to that call only.',
  [IN, HI, CO], 'all dimensions, row ranges, measurement forms and overrides, in any order with ordinary predictions and updates',
  'The tests run each variant on one scalar-measurement example.',
  [KFP], [('KalmanFilter.update_sequential / update_steadystate / update_correlated / predict_steadystate', KFP)],
  'every event of the recorded histories is recomputed exactly from the state before it')
p('C05', 'Asking a Kalman filter what would happen changes nothing',
  'The queries for the next prediction, for the result of an update, for the residual of a measurement, for the measurement of a state and for the log-likelihood of a measurement return exactly what the corresponding step would produce. They leave every attribute of the filter as it was.',
  [IN, HI], 'every history and every argument of the queries',
  'No test compares the state before and after a query, and get_update and residual_of are called on one example.',
  [KFP], [('get_prediction, get_update, residual_of, measurement_of_state, log_likelihood_of', KFP)],
  'attributes before and after every query are compared exactly; answers are recomputed')
p('C06', 'Batch filtering equals feeding the same data step by step',
  'Filtering a whole sequence in one call gives at every step the estimates, covariances, predictions and final filter state that predicting and updating one measurement at a time gives, for the Kalman (class and function), fading memory, unscented, H-infinity and g-h filters. Per-step models, covariances, control inputs and time steps apply to their own step, missing measurements (None) only predict, the update-first option swaps the order, and a saver passed along records every step once.',
  [IN, HI, CO], 'all lengths, all combinations of per-step sequences, missing measurements anywhere, both orders',
  'The tests compare batch and step-by-step runs on constant models without gaps and without per-step sequences.',
  [KFP, K + 'UKF.py', K + 'fading_memory.py', 'filterpy/hinfinity/hinfinity_filter.py', 'filterpy/gh/gh_filter.py'],
  [('batch_filter', KFP)], 'the batch is unrolled by the specification and every output recomputed')
p('C07', 'The Kalman functions on bare arrays compute the same filter as the class',
  'The functions predict, update, predict_steadystate, update_steadystate and batch_filter, given floats or arrays, return the estimate, covariance, residual, gain, innovation covariance and log-likelihood of the Kalman equations for exactly the arguments given. They keep no state, and fed step by step like the class they agree with it for any history.',
  [IN, HI], 'scalar and array arguments of all dimensions, with and without control input, missing measurements, any sequence of calls',
  'The tests call them on one constant-velocity example and compare with the class after a fixed run.',
  [KFP], [('predict, update, batch_filter, ...', KFP)], 'every return value is recomputed exactly from the arguments')
p('C08', 'The RTS smoothers return the smoothed estimates of the whole record',
  'The fixed-interval smoothers (Kalman class and function, unscented) return at every step the Rauch-Tung-Striebel estimate, covariance and gain given all the filtered estimates, using for the transition from step k to k+1 the model, noise and time step that led into step k+1. The last smoothed estimate is the filtered one, and the inputs are not modified.',
  [IN, HI, CO], 'all lengths and dimensions, constant and per-step models',
  'The tests compare smoothing of one constant-model run with its noise level.',
  [KFP, K + 'UKF.py'], [('rts_smoother', KFP), ('UnscentedKalmanFilter.rts_smoother', K + 'UKF.py')],
  'every smoothed value is recomputed; the model module checks that the recursion is the conditional mean given all data')
p('C09', 'Likelihoods and Mahalanobis distances are those of the last measurement',
  'After an update with a measurement, the log-likelihood a filter reports is the log density of the residual under the innovation covariance before the update, the likelihood is its exponential but never below the smallest positive normal double, and the Mahalanobis distance is sqrt(y\' S^-1 y). They do not depend on which of them is read, in which order or how often, nor on predictions made in between.',
  [IN, HI, CO], 'Kalman, extended, fading, unscented, cubature and information filters and the procedural update; residuals of zero to a million standard deviations; units of the measurement from 1e-8 to 1e8; any order of reads',
  'The tests read the likelihood after a few updates with small residuals, once per update.',
  [KFP, K + 'EKF.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py', K + 'fading_memory.py', K + 'information_filter.py', 'filterpy/stats/stats.py'],
  [('cached log_likelihood, likelihood and mahalanobis', KFP), ('logpdf', 'filterpy/stats/stats.py')],
  'residual, covariance, logarithm and exponential are recomputed with 50 digits from the state before the update')
p('C10', 'The extended Kalman filter linearises at the current estimate',
  'An update of the extended Kalman filter uses the residual of the measurement and the measurement function at the current estimate, and the Jacobian at that same estimate, each with exactly the extra arguments given for it, and otherwise obeys the Kalman update; the residual function supplied by the user is the one used. Prediction applies the (overridable) process function and F P F\' + Q, and the combined call predicts first and then updates at the predicted state.',
  [IN, HI, CO], 'nonlinear measurement and process functions, extra arguments, wrapping residuals, R overrides, control inputs, missing measurements, any history',
  'One radar example with one measurement function and no extra arguments or residual function.',
  [K + 'EKF.py'], [('ExtendedKalmanFilter.update, predict_update, predict', K + 'EKF.py')],
  'quadratic functions, so that residual and Jacobian are recomputed exactly')
p('C11', 'Sigma points reproduce mean and covariance; transforms return both moments',
  'The points of every rule (scaled, Julier, simplex, spherical-radial) with their weights have exactly the given mean and covariance whatever square root is used, the documented number, the documented weights, and mean weights that sum to one. The unscented and cubature transforms return the weighted mean and weighted covariance plus noise of the points, with user-supplied mean and residual functions where given.',
  [IN, CO], 'all dimensions, parameters, square roots, subtraction functions, scalar and list arguments',
  'The tests check weight sums for a grid of parameters and the moments of a few standard cases.',
  [K + 'sigma_points.py', K + 'unscented_transform.py', K + 'CubatureKalmanFilter.py'],
  [('MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints', K + 'sigma_points.py'), ('unscented_transform', K + 'unscented_transform.py'), ('ckf_transform, spherical_radial_sigmas', K + 'CubatureKalmanFilter.py')],
  'points, weights and moments are recomputed exactly; moment laws are also checked for arbitrary square roots')
p('C12', 'The unscented filter propagates points through the model and corrects by them',
  'Prediction of the unscented filter passes the sigma points of the estimate through the process function in force (with its time step and arguments) and takes their transformed mean and covariance plus Q; update passes points of the prediction, drawn again from it, through the measurement function in force, and corrects with the gain made of their cross covariance and the innovation covariance including R. The user\'s transform, mean, residual and addition functions are used wherever states or measurements are averaged, subtracted or added.',
  [IN, HI, CO], 'nonlinear functions, all point rules, angles, per-call time steps, functions, R, arguments and transforms, any history',
  'The tests track simulated targets and bound the error, mostly with linear functions and without angles or overrides.',
  [K + 'UKF.py'], [('UnscentedKalmanFilter.predict, update, cross_variance', K + 'UKF.py')],
  'quadratic and wrapped functions; every attribute after every call is recomputed')
p('C13', 'The cubature filter propagates points through the model and corrects by them',
  'Prediction and update of the cubature filter obey the same equations with the 2n equally weighted spherical-radial points: the prediction includes Q, the update uses points of that prediction, R or its override, and the user\'s mean and residual functions. Extra arguments reach exactly the function they are given for.',
  [IN, HI, CO], 'nonlinear functions, angles, overrides and arguments, states kept as 1-D or columns, any history',
  'One test tracks a constant-velocity target with linear functions and compares loosely with another filter.',
  [K + 'CubatureKalmanFilter.py'], [('CubatureKalmanFilter.predict, update', K + 'CubatureKalmanFilter.py')],
  'quadratic and wrapped functions; every attribute after every call is recomputed')
p('C14', 'On a linear model all filters give the Kalman filter\'s estimate',
  'Given the same linear model and data, the Kalman filter class and functions, extended, unscented (every point rule), cubature, square root, information, fading (alpha 1) filters, correlated-noise update with zero correlation, sequential update of independent measurements, and banks of identical models report the same estimate and covariance after every prediction and update, and so do the batch filters. This holds for any history, time-varying models, control inputs and missing measurements included.',
  [IN, HI, CO], 'all linear models, dimensions and histories, for fifteen filters driven side by side',
  'The tests compare a few pairs of filters on one constant-velocity model.',
  [KFP, K + 'EKF.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py', K + 'square_root.py', K + 'information_filter.py', K + 'fading_memory.py', K + 'IMM.py', K + 'mmae.py'],
  [('predict and update of every filter', K)], 'one exact filter is carried by the specification, which never looks at what the code computed; all filters must stay with it')
p('C15', 'The ensemble filter reports the statistics of its ensemble',
  'After initialisation, prediction or update of the ensemble filter the estimate and covariance it reports are those of its ensemble members, drawn around the given mean and covariance; prediction moves every member by the process model plus noise with covariance Q, and update moves every member by the gain (computed from the ensemble\'s covariances and R) times its own residual with perturbed measurement. Missing measurements leave the members alone.',
  [IN, HI], 'nonlinear models, ensemble sizes, dimensions and histories; random draws judged by wide confidence bounds',
  'The tests run one noisy example and plot it; the two checks bound the final error.',
  [K + 'ensemble_kalman_filter.py'], [('EnsembleKalmanFilter', K + 'ensemble_kalman_filter.py')],
  'the deterministic part is recomputed; what is random is compared with its distribution at seven or more standard deviations')
p('C16', 'The information filter is the Kalman filter in information form',
  'The information filter keeps the inverse covariance: prediction gives (F P F\' + Q)^-1 and F x + B u, update adds H\' R^-1 H and the corresponding correction, including directions about which nothing is known yet, where it must neither fail nor invent information. Its reported priors, posteriors, residual, gain and likelihood belong to the last step, and matrices assigned or modified in place count from the next call on.',
  [IN, HI, CO], 'regular and singular prior information, overrides of R^-1, missing measurements, any history starting with a prediction',
  'The tests compare with the Kalman filter on one regular model and run one example with zero information.',
  [K + 'information_filter.py'], [('InformationFilter.predict, update', K + 'information_filter.py')],
  'the information matrix is recomputed by a formula that exists for singular priors too')
p('C17', 'The square root filter is the Kalman filter with factored covariances',
  'Covariances assigned to the square root filter read back as given, prediction and update give the estimate and covariances of the Kalman filter, and the reported prior and posterior covariances are those of the last step. The measurement noise may be overridden per call by its square root or by a scalar.',
  [IN, HI, CO], 'all dimensions, overrides and histories', 'The tests compare with the Kalman filter on one model and look at x and P at the end.',
  [K + 'square_root.py'], [('SquareRootKalmanFilter', K + 'square_root.py')], 'every attribute after every call is recomputed')
p('C18', 'The fading memory Kalman filter inflates predicted covariance by alpha squared',
  'Prediction of the fading memory filter gives F x + B u and alpha^2 F P F\' + Q, update is the Kalman update, and its batch filter and queries agree with step by step use. Reported priors, posteriors and by-products belong to the last step.',
  [IN, HI, CO], 'alpha >= 1, all dimensions, overrides and histories', 'The test compares a run with the Kalman filter at alpha close to 1 loosely.',
  [K + 'fading_memory.py'], [('FadingKalmanFilter', K + 'fading_memory.py')], 'every attribute after every call is recomputed')
p('C19', 'The H-infinity filter follows its minimax recursion',
  'An update of the H-infinity filter computes L = (I - gamma Q P + H\' V^-1 H P)^-1, corrects the estimate with F P L H\' V^-1 times the residual and sets the covariance to F P L F\' + W, symmetrised; prediction moves the estimate only. A later change of V, W, F or H, assigned or made in place, applies from the next call on, and queries change nothing.',
  [IN, HI, CO], 'all dimensions, scalar or matrix V, histories with changes of the model', 'One test runs one scalar-measurement example and asserts almost nothing.',
  ['filterpy/hinfinity/hinfinity_filter.py'], [('HInfinityFilter.update, predict, batch_filter', 'filterpy/hinfinity/hinfinity_filter.py')],
  'every attribute after every call is recomputed')
p('C20', 'The interacting multiple model estimator mixes, predicts and reweights by Bayes',
  'Prediction of an IMM bank restarts every model from the mixture of all models\' estimates weighted by the mixing probabilities (switching matrix times model probabilities), then predicts it; update reweights the model probabilities by predicted probability times likelihood, normalised to one. The combined estimate and covariance are always the moments of the mixture, and a change of a model between the steps applies from the next step on.',
  [IN, HI, CO], 'two or three models, any stochastic switching matrix and initial weights, measurements of any likelihood, control inputs, missing measurements',
  'One test tracks a manoeuvring target and a second checks that identical models act as one.',
  [K + 'IMM.py'], [('IMMEstimator', K + 'IMM.py')], 'mixing, reweighting and combination are recomputed from the models\' states')
p('C21', 'The multiple model adaptive bank weighs its filters by their likelihoods',
  'After an update of an MMAE bank every filter has been updated with the measurement and the overrides given, the probability of each is its previous one times its likelihood, normalised, and estimate and covariance are the moments of the mixture. Prediction predicts every filter and the mixture, and a change of a model between the steps applies from the next step on.',
  [IN, HI, CO], 'two or three filters, any initial probabilities, far-off measurements, overrides, missing measurements, any history',
  'One test runs two filters and asserts nothing about probabilities or covariance.',
  [K + 'mmae.py'], [('MMAEFilterBank', K + 'mmae.py')], 'reweighting and combination are recomputed from the filters\' states')
p('C22', 'The fixed-lag smoother returns the optimal estimate given N later measurements',
  'Each call of the fixed-lag smoother appends the filtered estimate and corrects the estimates of the N previous steps, so that the estimate of step k given data up to step k+N is the conditional mean of a Kalman smoother; the batch form returns the same estimates as calling it step by step, together with the filtered ones.',
  [IN, HI, CO], 'lags, lengths, dimensions, control inputs; step by step and batch',
  'The test checks that smoothing reduces noise in one example.',
  [K + 'fixed_lag_smoother.py'], [('FixedLagSmoother.smooth, smooth_batch', K + 'fixed_lag_smoother.py')],
  'every smoothed estimate is recomputed as the conditional mean of an augmented exact filter')
p('C23', 'Fixed gain (g-h, g-h-k, order-n) filters predict, correct and batch consistently',
  'An update of these filters predicts with the motion model of their order, forms the residual of the measurement and corrects every derivative with its gain scaled by the time step; gains or time step given to a call apply to that call only. The reported prediction, residual and measurement are those of the last update, and batch filtering returns the initial estimate followed by the estimate after every measurement and leaves the filter alone.',
  [IN, HI, CO], 'scalar and vector states, all orders, overrides, any history', 'The tests run one sequence per filter with default arguments.',
  ['filterpy/gh/gh_filter.py'], [('GHFilterOrder, GHFilter, GHKFilter', 'filterpy/gh/gh_filter.py')], 'every call is recomputed exactly')
p('C24', 'Gain design formulas satisfy the equations that define them',
  'The least squares, critically damped and optimal noise smoothing gains are the documented functions of their argument, and gains designed from noise levels are the steady-state Kalman gains of the corresponding model; variance reduction factors are the output variances of the filter driven by unit white noise, and bias errors those of a constant acceleration or jerk.',
  [IN], 'all admissible orders, sample numbers, damping and smoothing parameters, noise levels and gains', 'The tests compare a few values with tables.',
  ['filterpy/gh/gh_filter.py'], [('least_squares_parameters, critical_damping_parameters, optimal_noise_smoothing, benedict_bornder_constants, VRF, VRF_prediction, bias_error', 'filterpy/gh/gh_filter.py')],
  'the defining equations (not the formulas) are checked on the returned values')
p('C25', 'The recursive least squares filter is the least squares polynomial fit',
  'After n measurements the estimate of the least squares filter is the value and derivatives at the last sample of the polynomial of its order that fits the n measurements best, once n exceeds the order; the residual is the last measurement\'s against the previous fit, the reported errors are the documented functions of n, and reset returns it to its initial state.',
  [IN, HI], 'orders 0 to 2, any time step, any measurements and length', 'The test compares with three hand-computed sequences.',
  ['filterpy/leastsq/least_squares.py'], [('LeastSquaresFilter', 'filterpy/leastsq/least_squares.py')], 'normal equations of the best fit are solved exactly at every step')
p('C26', 'The fading memory polynomial filter discounts old measurements by beta',
  'The estimates of the fading memory polynomial filter of order 0, 1 and 2 follow the recursion with the gains given by beta, for any time step and measurements; its variance and error terms are those of the discounted least squares fit, and do depend on the time step. It follows a polynomial of its order without error once it has locked on.',
  [IN, HI], 'orders 0 to 2, beta in [0,1), any time step, initial state given as float, list or array', 'The test runs three noise-free sequences with one time step.',
  ['filterpy/memory/fading_memory.py'], [('FadingMemoryFilter', 'filterpy/memory/fading_memory.py')], 'every call is recomputed exactly')
p('C27', 'The discrete Bayes filter multiplies, convolves and normalises exactly',
  'The discrete Bayes update returns likelihood times prior scaled to sum to one, prediction returns the distribution shifted by the offset and convolved with the kernel, wrapping around or filling with the given constant at the ends, and normalisation scales to sum one. A circular prediction conserves total probability for every offset and kernel.',
  [IN, HI], 'any lengths, odd and even kernels, negative and large offsets, both boundary modes, any sequence of steps', 'The tests try a handful of kernels on one distribution.',
  ['filterpy/discrete_bayes/discrete_bayes.py'], [('normalize, update, predict', 'filterpy/discrete_bayes/discrete_bayes.py')], 'every result is recomputed exactly')
p('C28', 'Resampling picks every particle its due number of times',
  'Each resampling scheme returns N valid indexes for any normalised weights of N particles; stratified and systematic resampling pick one index in each of the N strata of the cumulative weights (with one common offset for the latter), residual resampling takes each particle at least floor(N w) times and draws the rest from the remainders, and all of them pick each particle N w times on average. The draws that a scheme makes are independent of each other: the N of multinomial resampling, the offsets of the strata in stratified resampling, the remainder in residual resampling.',
  [IN], 'all weight vectors including zeros, ties, one-hot, very many and unnormalised-by-round-off weights; all draws of the random generator', 'One test compares histograms for one weight vector.',
  ['filterpy/monte_carlo/resampling.py'], [('residual_resample, stratified_resample, systematic_resample, multinomial_resample', 'filterpy/monte_carlo/resampling.py')],
  'index sets are judged by the strata; averages by confidence bounds of seven standard deviations')
p('C29', 'Products and sums of Gaussians are the Gaussians of Bayes\' rule',
  'The product of two Gaussians (scalar or multivariate) has the mean and variance of the normalised product of the densities, the scale factor is the one that makes the product of the densities equal the scaled result, and the sum has the added means and variances. The operations do not depend on argument order.',
  [IN], 'all means and variances, scalar, tuple and matrix forms', 'The tests check three pairs of numbers.',
  ['filterpy/stats/stats.py'], [('mul, mul_pdf, add, multivariate_multiply', 'filterpy/stats/stats.py')], 'recomputed exactly')
p('C30', 'Densities, likelihoods and probabilities are those of the normal distribution',
  'The scalar and multivariate density, log density, log-likelihood and likelihood of a measurement, and the probability of an interval are those of the normal distribution with the given mean and covariance, for scalar, list, row and column arguments; where allowed, a singular covariance means the density on its support.',
  [IN], 'all dimensions and argument forms, far tails, scaled and singular covariances', 'The tests compare with scipy at a few points.',
  ['filterpy/stats/stats.py'], [('gaussian, multivariate_gaussian, logpdf, log_likelihood, likelihood, norm_cdf', 'filterpy/stats/stats.py')], 'recomputed with 50 digits')
p('C31', 'Summaries of uncertainty describe the covariance they are given',
  'The Mahalanobis distance and the normalised estimation error squared are the quadratic forms of the errors with the inverse covariances; ellipses drawn or returned for a covariance are its level sets at the given numbers of standard deviations; plotted densities and distribution functions are the functions they are named after; Student-t samples have the Student-t distribution.',
  [IN], '2x2 covariances of any shape and orientation, any lists of deviations, means, degrees of freedom', 'The tests draw pictures without looking at them.',
  ['filterpy/stats/stats.py'], [('mahalanobis, NEES, covariance_ellipse, plot_covariance, plot_3d_covariance, plot_gaussian_pdf, rand_student_t', 'filterpy/stats/stats.py')],
  'drawn objects are read back from the figure and judged against the covariance')
p('C32', 'A Saver keeps a faithful copy of every attribute at every save',
  'After n saves a Saver holds, for every attribute and property of the watched object that it was not told to ignore, the n values it had at the n saves in order, however the object or its arrays were modified afterwards; it reports its length and names, and converting to arrays or flattening keeps the values. Saving does not change the object.',
  [HI, CO], 'any object (all filters and arbitrary ones), any mutation between saves, all options', 'The tests save one filter and compare lengths and a few entries.',
  ['filterpy/common/helpers.py'], [('Saver', 'filterpy/common/helpers.py')], 'the specification keeps its own copy of every saved value')
p('C38', 'A copy of a filter lives on exactly as the original would have',
  'Copying any filter or bank of filters with copy.deepcopy, or by pickling it where its functions can be pickled, at any point of its life gives a filter that shows the same attributes and from then on does with every call what the original would have done. The two are independent: whatever happens to one, the other is not affected.',
  [HI, CO], 'all filters and banks, copied at any point of any history of calls, model changes, queries and gaps; either of the two carried on with and the other ruined',
  'No test copies a filter and goes on with the copy.',
  [KFP, K + 'EKF.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py', K + 'ensemble_kalman_filter.py', K + 'fading_memory.py', K + 'square_root.py', K + 'information_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', K + 'IMM.py', K + 'mmae.py', K + 'fixed_lag_smoother.py', 'filterpy/gh/gh_filter.py', 'filterpy/leastsq/least_squares.py', 'filterpy/memory/fading_memory.py'],
  [('attributes of the filters, bound functions', K)], 'the ordinary equations of every filter are checked along lives that pass through copies, the other of the two overwritten')
p('C39', 'New filters are the documented prior and impossible arguments are refused',
  'A newly constructed filter or bank shows the documented initial values for its arguments (zero state, identity covariances, given parameters, no measurement yet), whatever happened to other objects before, and using one object never changes another. Arguments that cannot be (dimensions below one, fading factors below one, lists of unequal length, unsupported orders, measurements of the wrong size) are refused with an exception, valid ones are accepted, and a refused call leaves every filter as it was. KalmanFilter.test_matrix_dimensions accepts exactly the models whose shapes fit, with what is passed in taking the place of what the filter has, and changes nothing.',
  [HI, IN, CO], 'all classes; any interleaving of constructions, steps and refused calls in programs with several filters', 'The tests build one filter at a time and almost never pass an argument that must be refused.',
  [KFP, K + 'EKF.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py', K + 'ensemble_kalman_filter.py', K + 'fading_memory.py', K + 'square_root.py', K + 'information_filter.py', 'filterpy/hinfinity/hinfinity_filter.py', K + 'IMM.py', K + 'mmae.py', K + 'fixed_lag_smoother.py', K + 'sigma_points.py', 'filterpy/gh/gh_filter.py', 'filterpy/leastsq/least_squares.py', 'filterpy/memory/fading_memory.py', 'filterpy/common/kinematic.py', 'filterpy/common/discretization.py', 'filterpy/stats/stats.py'],
  [('__init__ of every class', K), ('test_matrix_dimensions', KFP)], 'initial values, acceptance and what everybody else shows are compared after every call')
p('C33', 'Nobody\'s arrays change behind his back',
  'No call modifies an array the caller passed to it or assigned to the filter, and no later call modifies an estimate, covariance or result handed out earlier. Writing into an argument after the call, or into one attribute of a filter, changes no other attribute, record or result.',
  [HI, CO], 'all filters, smoothers and functions taking or returning arrays; any interleaving of calls and writes by the caller',
  'No test keeps an array and compares it later, or writes into one it was given.',
  [KFP, K + 'EKF.py', K + 'UKF.py', K + 'IMM.py', K + 'mmae.py', K + 'square_root.py', 'filterpy/memory/fading_memory.py', 'filterpy/leastsq/least_squares.py', 'filterpy/gh/gh_filter.py'],
  [('copies of estimates, priors, posteriors and measurements', KFP)], 'all holders of arrays are compared exactly after every step of random interleavings of calls and writes')
p('C34', 'Process noise and transition matrices are those of the continuous model',
  'The white noise helpers return the covariance of piecewise constant or continuous white noise acting on the highest derivative over one step, grouped by dimension or by derivative as asked; the discretisation helpers return the matrix exponential of F dt and the integral of exp(F t) G Q G\' exp(F t)\' over the step.',
  [IN, CO], 'all orders, block sizes, orderings, time steps and densities; arbitrary F, G, Q', 'The tests compare three matrices with literal values.',
  ['filterpy/common/discretization.py'], [('Q_discrete_white_noise, Q_continuous_white_noise, van_loan_discretization, linear_ode_discretation, order_by_derivative', 'filterpy/common/discretization.py')],
  'recomputed as exact power series')
p('C35', 'Kinematic models move a state by its own derivatives',
  'The kinematic transition of any order is the Taylor expansion of constant-derivative motion, so predicting with it follows the polynomial trajectory exactly; the kinematic filter helper returns a filter of the requested dimensions, order and ordering with that transition and a measurement matrix that observes positions, or fills in the filter it is given.',
  [IN, CO], 'all orders, dimensions, measurement dimensions, orderings, time steps', 'The tests compare a few small cases.',
  ['filterpy/common/kinematic.py'], [('kinematic_state_transition, kinematic_kf', 'filterpy/common/kinematic.py')], 'recomputed exactly')
p('C36', 'Common helpers: shapes, integration, inverses, comparison and copying of filters',
  'One Runge-Kutta step has the classical fourth order value; diagonal inversion, sums of outer products and reshaping of measurements return the documented value and shape or reject bad input; comparing two filters names exactly the attributes that differ; copying states makes the target equal to the source without sharing arrays, and printing a filter changes nothing.',
  [IN, HI, CO], 'all filters and argument forms', 'The tests cover two reshapes, one inverse and one copy.',
  ['filterpy/common/helpers.py', 'filterpy/common/discretization.py'], [('runge_kutta4, inv_diagonal, outer_product_sum, reshape_z, compare_kf, copy_states, pretty_str', 'filterpy/common/helpers.py')], 'recomputed exactly')
p('C37', 'Covariances stay symmetric and without negative variance over long lives',
  'After every prediction and update of every filter, over arbitrarily long histories, the covariances it reports are symmetric and positive semidefinite up to rounding. The square root filter guarantees this relative to the covariance itself even when initial uncertainty and measurement noise differ by sixteen orders of magnitude.',
  [HI, IN, CO], 'fifteen filters, long histories with missing measurements, stiff and nearly deterministic models', 'The tests look at the covariance after at most a hundred steps of one benign model.',
  [KFP, K + 'EKF.py', K + 'square_root.py', K + 'information_filter.py', K + 'UKF.py', K + 'CubatureKalmanFilter.py', K + 'IMM.py', K + 'mmae.py', 'filterpy/hinfinity/hinfinity_filter.py'],
  [('Joseph form', KFP), ('QR updates', K + 'square_root.py')], 'exact symmetry and pivot test of what is reported')

exec(open(os.path.join(HERE, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_props.py')) else None
P.sort(key=lambda q: q['id'])
ids = [q['id'] for q in P]
assert len(set(ids)) == len(ids) and all(len(q['title']) <= 80 for q in P), [q['title'] for q in P if len(q['title']) > 80]
assert set(ids) == set(PROPS), set(ids) ^ set(PROPS)
for q in P:
    n = q['statement'].replace('i.e.', 'ie').count('. ') + 1
    assert n <= 3, (q['id'], n)
    for f in q['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
checks = []
for q in P:
    mc = PROPS[q['id']].get('mc', [])
    checks.append(dict(property=q['id'], quick_cmd='python3 check.py %s' % q['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % q['id'],
                       technique='TLA+ specification' + (' model checked with TLC (%s);' % ', '.join(mc) if mc else ';') + ' TLC validates traces recorded from the code against it',
                       level='model_checking',
                       level_note=NOTE[q['id']] + '. Assurance: no deviation beyond the stated tolerance on the histories and inputs explored (generated from the specification and at random from the seed); rounding-size deviations and unexplored inputs are not excluded. Trusted: TLC, the exact arithmetic in java/ (checked by RatLaws), the recording harness.'))
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
           notes='No hooks in /repo: everything is observed through the public API. See DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
