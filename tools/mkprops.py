import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
KF=["src/kfilter.cpp","src/include/kfilter.hpp"]
CP=["src/carpack.cpp","src/include/carpack.hpp"]
p("F01","CAR(1) filter gives the exact one-step predictive mean and variance",
  "After running the CAR(1) Kalman filter on a zero-mean series with increasing times, the i-th filter mean and variance are exactly the Gaussian mean and variance of the i-th observation (process plus measurement noise) given all earlier observations, for an Ornstein-Uhlenbeck process with the object's driving-noise variance and mean-reversion rate. They depend only on the object's current data and parameters, not on what was called on the object before.",
  ["inputs","histories"],"all series lengths, times, values, errors, positive noise variances and rates; all earlier calls on the object",
  "Tests run fixed data sets and look only at residual statistics, so a term wrong by a small amount, wrong for zero errors, or stale after an earlier call is not seen.",
  KF,[("initialisation of the recursion","KalmanFilter1::Reset"),("one step of the recursion","KalmanFilter1::Update"),("running it over all data","KalmanFilter::Filter")],["mean","var","GetMean","GetVar"])
p("F02","CARMA(p,q) filter gives the exact one-step predictive mean and variance",
  "After running the CARMA(p,q) Kalman filter (p at least 2, distinct AR roots with negative real part, coming in conjugate pairs or real), the i-th filter mean and variance are exactly the Gaussian mean and variance of the i-th observation given all earlier ones for that CARMA process plus measurement noise. They depend only on the object's current data and parameters, not on what was called on the object before.",
  ["inputs","histories","configurations"],"all p, all root sets and MA coefficients, all data; all earlier calls on the object",
  "Tests check residual statistics of one CARMA(5,4) series; they cannot cover all orders, root configurations, irregular spacings or earlier calls.",
  KF,[("stationary state and rotated coefficients","KalmanFilterp::Reset"),("one step of the recursion","KalmanFilterp::Update"),("running it over all data","KalmanFilter::Filter")],["mean","var","GetMean","GetVar"])
p("F03","CAR(1) prediction equals conditioning on the whole series",
  "For any time, the CAR(1) prediction returns the mean and variance of the noise-free process at that time conditional on all observations of the series, whether the time is before the first, between two, equal to one, or after the last observation. The prediction does not change the stored series or parameters and does not depend on earlier calls.",
  ["inputs","histories"],"all series, parameters and prediction times (the error is non-zero where the time equals an observation time, and no observation is determined by the others); all earlier calls on the object",
  "One fixed series and a few prediction times are compared with dense conditioning; boundary positions and other data are not covered.",
  KF,[("prediction","KalmanFilter1::Predict"),("linear filter in the unknown value","KalmanFilter1::InitializeCoefs, UpdateCoefs")],["Predict"])
p("F04","CARMA(p,q) prediction equals conditioning on the whole series",
  "For any time, the CARMA(p,q) prediction returns the mean and variance of the noise-free process at that time conditional on all observations of the series, whether the time is before the first, between two, equal to one, or after the last observation. The prediction does not change the stored series or parameters and does not depend on earlier calls.",
  ["inputs","histories","configurations"],"all orders, roots, MA coefficients, series and prediction times (the error is non-zero where the time equals an observation time, and no observation is determined by the others); all earlier calls on the object",
  "One CARMA(5,4) model and one series are compared with dense conditioning at a few times.",
  KF,[("prediction","KalmanFilterp::Predict"),("linear filter in the unknown value","KalmanFilterp::InitializeCoefs, UpdateCoefs")],["Predict"])
p("F05","Conditional simulation draws in sequence and restores the series",
  "Simulating at a set of times returns, in increasing time order, values each drawn from a normal distribution with the mean and variance of the process at that time conditional on the measured series and on the values already simulated in the same call (those taken as error-free). Afterwards the stored times, values and errors, and the results of later filter, prediction and simulation calls, are as if the simulation had not been run.",
  ["inputs","histories"],"all series, all sets of distinct simulation times in any order (inside, before, after the data; not equal to the time of an error-free observation), all random draws",
  "Tests compare sample moments of many draws at a few interior times with loose bounds.",
  KF,[("sequential insertion","KalmanFilter::Simulate")],["Simulate","GetTime","GetTimeSeries"])
p("F06","Filter construction orders the data and drops repeated times",
  "A Kalman filter built from any arrays of times, values and errors holds each distinct time once, in increasing order, with each kept value and error being one that was given for that time in the same input row; nothing is invented, and no distinct time is lost. The time steps used by every later operation are the differences of those stored times, and the result arrays have one entry per stored time.",
  ["inputs"],"all input arrays of at least two rows with at least two distinct times, in any order, with any repetitions",
  "Tests construct from one shuffled and one duplicated input.",
  KF,[("normalisation of the input","KalmanFilter::init and the constructors")],["GetTime","GetTimeSeries","GetTimeSeriesErr"])
p("M01","Log-posterior is the Gaussian log-likelihood plus the log-prior",
  "For every parameter vector inside the prior bounds, the log-posterior of a CAR(1), CAR(p), CARMA(p,q) or z-parameterised CARMA model is the sum over observations of the Gaussian log-density (without the 2-pi constant) of each value given the earlier ones, with measurement variances multiplied by the error-scale parameter and the mean subtracted, plus the log-prior; outside the bounds it is minus infinity. The log-prior is the scaled inverse chi-square density (50 degrees of freedom, scale one) of the error-scale parameter, plus the Jacobian term of the bounded kappa parameter for the z-parameterised model, and evaluating leaves the stored value and its log-posterior unchanged.",
  ["inputs","histories","configurations"],"all data sets, all parameter vectors, all models, any earlier evaluations",
  "Tests check consistency of stored log-posteriors after a run, on one data set, never the value against an independent computation.",
  CP,[("log-posterior","CARMA_Base::LogDensity"),("log-prior","CARMA_Base::LogPrior, ZCARMA::LogPrior")],["getLogDensity","getLogPrior","LogDensity"])
p("M02","Prior bounds accept exactly the documented region",
  "A CAR(1) parameter vector is inside the prior exactly when its standard deviation lies in [0, maximum], its error scale in [0.5, 2] and its rate between one over the time span and one over the smallest time step. For higher-order models the same standard-deviation and error-scale limits hold, every Lorentzian width lies strictly between those two frequencies, every centroid is below the upper one, the centroids do not increase (by more than 1e-8) along the root order, and all pairs of AR roots differ by more than 1e-4 as a fraction of their sum; when priors are switched off every higher-order vector is accepted.",
  ["inputs","configurations"],"all parameter vectors, all orders, all data-dependent limits",
  "Tests probe four or five points far outside the region for one data set.",
  CP,[("bounds","CAR1::CheckPriorBounds, CARp::CheckPriorBounds, unique_roots, CARMA_Base::SetPrior")],["CheckPriorBounds","getLogDensity"])
p("M03","AR roots are the roots of the parameterised polynomial",
  "For every order p and parameter vector, the AR roots of a CAR(p) or CARMA(p,q) model are, pair by pair, the two roots of s^2 + exp(b) s + exp(a), where a and b are the two parameters of that pair, and for odd p the last root is minus the exponential of the last AR parameter. The mean-reversion rate of the CAR(1) model is the exponential of its last parameter.",
  ["inputs","configurations"],"all p at least 2 (CAR(1) separately) and all real parameter vectors, with real, repeated or complex pairs",
  "Tests use parameter vectors built from one fixed root set.",
  CP,[("root construction","CARp::ARRoots, CARp::ExtractAR, CAR1::ExtractAR")],["ARRoots"])
p("M04","MA coefficients are those of the parameterised polynomial, unit constant",
  "For a CARMA(p,q) model the MA coefficients are those, in increasing power order, of the polynomial with the MA roots given by the q MA parameters (paired as s^2 + exp(b) s + exp(a), plus a linear factor s + exp(c) for odd q), scaled to constant term one and padded with zeros to length p. For the z-parameterised models they are the coefficients of (1 + s/kappa)^(p-1), with kappa fixed at one over the smallest time step or mapped from its logit onto its bounds; for CAR(p) they are one followed by zeros.",
  ["inputs","configurations"],"all p > q >= 1 and all parameter vectors, all kappa bounds",
  "Tests evaluate one CARMA(5,4) and do not run the z-parameterised models.",
  CP,[("MA coefficients","CARMA::ExtractMA, ZCARMA::ExtractMA, CARp::ExtractMA, ZCAR, polycoefs, inv_logit")],["ExtractMA"])
p("M05","Driving-noise amplitude makes the first parameter the process deviation",
  "The autocovariance function of a CARMA process returned for given AR roots, MA coefficients, noise amplitude and lag is the standard sum over roots of the partial-fraction residues times exp(root times lag). The driving-noise variance derived from a parameter vector is such that the stationary variance of the resulting process equals the square of the first parameter, for every model.",
  ["inputs","configurations"],"all orders, all distinct root sets, MA coefficients, lags and parameter vectors",
  "Tests compare the variance at one CARMA(5,4) parameter point.",
  CP,[("variance","CARp::Variance, ExtractSigsqr of every model")],["Variance","ExtractSigsqr"])
p("M06","Starting values have a finite log-posterior; valid user values are kept",
  "A starting value generated for a CAR(p), CARMA or z-parameterised model has the right length and finite log-posterior, its error scale lies strictly inside [0.5, 2], and its deviation is positive. A user-supplied starting vector of the right length and finite log-posterior is returned unchanged, and otherwise a generated one is used; either way the filter is left evaluated at the returned vector.",
  ["inputs","histories"],"all data sets, all random draws, all user vectors",
  "Tests see one start per run and only indirectly.",
  CP,[("starting values","StartingValue, SetStartingValue of CAR1, CARp, CARMA, ZCARMA")],["StartingValue","SetStartingValue"])
ST=["src/steps.cpp","src/include/steps.hpp"]
p("S01","Metropolis steps accept with the tempered Metropolis-Hastings probability",
  "A Metropolis step proposes from its proposal and moves to the proposed value exactly when a uniform draw is below min(1, exp(a)), where a is the change in log-posterior divided by the temperature plus the log-ratio of reverse to forward proposal densities; a proposal with non-finite a is rejected. After the step the stored value and the stored log-posterior belong together, and a rejected step leaves both unchanged.",
  ["inputs","histories"],"all targets, temperatures, proposals, current states and random draws",
  "Tests check long-run statistics at temperature one only.",
  ST+["src/include/parameters.hpp"],[("accept decision","AdaptiveMetro::Accept, MetropStep::Accept"),("step","AdaptiveMetro::DoStep, MetropStep::DoStep"),("saving","Parameter::Save")],["Value","GetLogDensity"])
p("S02","Adaptive proposal covariance follows the robust adaptive Metropolis rule",
  "At each adaptive step before the adaptation limit the proposal covariance C becomes C + eta (alpha - target) d d' / |u|^2, where u is the vector of unit draws, d the proposed displacement (the transposed Cholesky factor of C times u), alpha the acceptance probability of this proposal (zero if the new log-posterior is not finite) and eta = min(1, dimension / n^(2/3)) with n the number of steps already done; from the limit on it never changes. The reported acceptance rate is accepted over done steps.",
  ["inputs","histories"],"all dimensions, factors, draws, targets, step counts, before and after the adaptation limit",
  "Tests check the final acceptance rate within a loose band.",
  ST,[("adaptation","AdaptiveMetro::DoStep"),("rank-one update","CholUpdateR1")],["GetCovariance","GetAcceptRate"])
p("S03","Rank-one Cholesky update reproduces the updated matrix",
  "Given an upper-triangular factor R with non-zero diagonal and a vector v, the update overwrites R with an upper-triangular factor of R'R + vv', and the downdate with one of R'R - vv' whenever that matrix is positive definite.",
  ["inputs"],"all dimensions, all factors and vectors, update and downdate",
  "Tests try one random 10-dimensional case.",
  ST,[("update","CholUpdateR1")],["CholUpdateR1"])
p("S04","Exchange steps swap neighbouring chains with the tempering ratio",
  "An exchange step swaps the values and the stored log-posteriors of chain i and chain i-1 exactly when a uniform draw is below min(1, exp((1/T_i - 1/T_{i-1}) (L_{i-1} - L_i))), never when one of the two log-posteriors is not finite, and otherwise leaves both chains as they were; no other chain is touched. After a swap each chain's stored log-posterior is the one that belongs to its new value, and temperatures stay with the chains.",
  ["inputs","histories"],"all chain states, temperatures, indices and draws",
  "Tests only run whole tempered samplers and look at posterior intervals.",
  ST+["src/include/parameters.hpp"],[("exchange","ExchangeStep::DoStep")],["Value","GetLogDensity"])
SA=["src/samplers.cpp","src/include/samplers.hpp","src/include/parameters.hpp"]
p("S05","Sampler runs burn-in, thinning and recording exactly as asked",
  "A run of the sampler first sets every step's parameter to its starting value (the user's vector when its length matches, a generated one otherwise), then performs the burn-in number of sweeps and then, for each of the requested samples, the thinning number of sweeps followed by one recording; a sweep performs every step once in the order added. Each tracked parameter ends with exactly the requested number of samples, the k-th being its value and log-posterior at the k-th recording; untracked parameters record nothing.",
  ["inputs","histories","configurations"],"all sample sizes, burn-in lengths, thinning intervals, step lists and tracking flags",
  "Tests run one configuration per model with thinning one.",
  SA,[("schedule","Sampler::Run, Iterate, SaveValues, AddStep"),("recording","Parameter::AddToSample, SetSampleSize, CARMA_Base::getSamples")],["getSamples","GetLogLikes"])
p("S06","MCMC drivers set up the documented tempered sampler",
  "The CARMA driver runs one chain per requested walker with temperatures spaced geometrically from 1 to 100, all with the requested model and data and the prior limit of ten times the data standard deviation; from hottest to coldest each chain gets an adaptive step, and every chain but the coldest an exchange with the next colder one, adaptation ending after burn-in. Only the coldest chain is recorded, and the returned object is that chain with all its samples; the CAR(1) driver does the same with one untempered chain.",
  ["inputs","configurations"],"all sample sizes, burn-ins, walker counts, orders, model choices and data",
  "Tests run one walker count and look at the posterior only.",
  ["src/carmcmc.cpp"]+SA,[("drivers","RunCar1Sampler, RunCarmaSampler")],["run_mcmc_car1","run_mcmc_carma"])
p("S07","Proposals and random variates have their documented law",
  "Given the library's basic random draws, the random generator's variates and the proposals built on it are the documented transformations of them: Student-t and normal proposals centred on the current value with the given scale, multivariate normal with the given covariance, lognormal centred on the log of the current value, power-law by inversion of its distribution function, scaled inverse chi-square as scale times degrees of freedom over a chi-square, inverse gamma as one over a gamma of inverse scale, and the stretch move along the line to another, different walker with the matching log density ratio.",
  ["inputs","configurations"],"all parameters and all underlying draws",
  "Tests look at a few moments of a few generators.",
  ["src/random.cpp","src/include/random.hpp","src/proposals.cpp","src/include/proposals.hpp"],[("variates","RandomGenerator methods"),("proposals","Draw and LogDensity of the proposals")],["Draw","LogDensity"])
PY=["src/carmcmc/carma_pack.py"]
p("Y01","Python model passes on clean data and the right sampler arguments",
  "A Python CARMA model holds the input series with each distinct time once, in increasing order, rows kept together, both in its public arrays and in what it hands to the sampler. A run hands the sampler exactly the requested sample count, burn-in (half the sample count by default), thinning, orders, walker count (the larger of 10 and p+q by default) and starting vector, and wraps the returned chain with the model's data and MA order.",
  ["inputs","configurations"],"all input arrays in any order with repetitions; all argument combinations",
  "Tests build from one shuffled and one repeated input and never look at the arguments handed on.",
  PY,[("constructor","CarmaModel.__init__"),("run","CarmaModel.run_mcmc")],["time","y","ysig","run_mcmc"])
p("Y02","Trace-derived quantities match the sampler's parameterisation",
  "For every recorded sample the Python trace holds variance, error scale, mean, AR roots, AR and MA coefficients, PSD widths and centroids and noise amplitude that are those of the sampled parameter vector under the same parameterisation as the sampler: roots of the quadratic factors, monic AR polynomial of the roots, MA polynomial with unit constant, width and centroid minus real and absolute imaginary part over 2 pi, and the amplitude that makes the stationary variance equal the sampled one. This holds for all orders p > q, with CAR(1) using rate exp(log omega).",
  ["inputs","configurations"],"all traces and all orders",
  "Tests only check array shapes and a posterior interval for one model.",
  PY,[("trace transforms","CarmaSample.generate_from_trace, _ar_roots, _ar_coefs, _ma_coefs, _sigma_noise; Car1Sample")],["get_samples"])
p("Y03","Posterior predictions use one consistent parameter set and the data mean",
  "Predictions and simulations from a fitted sample build the filter from the stored times, values minus the chosen mean, errors, and the noise variance, AR roots and MA coefficients of the chosen point estimate (the single sample of largest log-posterior, or the element-wise median or mean; for CAR(1) the rate is exp of the estimated log rate), evaluate it at each requested time in order, and add the mean back to values but not to variances.",
  ["inputs","configurations"],"all samples, all estimate choices, scalar or array times",
  "Tests call predict and simulate once and compare array lengths.",
  PY,[("filter construction","makeKalmanFilter"),("prediction","predict, simulate")],["predict","simulate"])
p("Y04","Order selection returns the smallest AICc and its maximum-likelihood fit",
  "Maximum-likelihood search returns the trial with the smallest negative log-likelihood; order selection computes 2k + deviance + 2k(k+1)/(n-k-1) with k = 2 + p + q for every candidate order in the order given, returns all of them, and sets the model's orders and the returned fit to those of the smallest value. Without an explicit list all orders with q below p, up to the given maximum p (and q), are tried.",
  ["inputs","configurations"],"all candidate lists, likelihood values and data lengths",
  "Not tested at all.",
  PY,[("selection","CarmaModel.choose_order, get_mle")],["choose_order","get_mle"])
p("Y05","Python power spectrum and autocovariance are the CARMA formulas",
  "The power spectrum is noise variance times |MA polynomial|^2 over |AR polynomial|^2 at 2 pi i f, with AR coefficients in decreasing and MA coefficients in increasing power order; the autocovariance is the partial-fraction sum over roots at the absolute lag, for any MA length up to the AR order. The root helper gives minus 2 pi times width plus i centroid, adding the conjugate for positive centroids and a real root for an extra width.",
  ["inputs","configurations"],"all orders, coefficients, frequencies, lags, widths and centroids",
  "Tests use them as their own reference.",
  PY,[("formulas","power_spectrum, carma_variance, get_ar_roots")],["power_spectrum","carma_variance","get_ar_roots"])
p("Y06","Python process generators draw from the stated CARMA process",
  "The CAR(1) generator returns a stationary draw at the first time and then, at each next time, exp(-dt/tau) times the previous value plus an independent normal of the matching conditional variance. The CARMA generator returns a joint draw of the stationary process at the (sorted) times by predicting each value from those already drawn with the exact conditional mean and variance.",
  ["inputs","configurations"],"all times, roots, MA coefficients and normal draws",
  "Tests use the generators as data sources only.",
  PY,[("generators","car1_process, carma_process")],["car1_process","carma_process"])
p("Y07","Adding a maximum-likelihood fit records the quantities it stands for",
  "Adding an optimiser result to a fitted sample records its log-likelihood (minus the objective), variance (square of the first parameter), error scale, mean, AR roots, PSD widths and centroids, AR and MA coefficients and noise amplitude, each computed from the fitted parameter vector exactly as the sampler's parameterisation defines them, for all orders p > q. The recorded samples are left as they were.",
  ["inputs","configurations"],"all fitted vectors and all orders",
  "Not tested at all.",
  PY,[("estimate","CarmaSample.add_mle")],["add_mle","mle"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sc); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
