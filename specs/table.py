"""Which contracts decide which property."""
KF = ['src/kfilter.cpp', 'src/include/kfilter.hpp']

TRUST = ['clang 18 AST (front end), vp/cxx.py extraction, vp/sym.py symbolic execution, vp/logic.py prover, z3 4.x for side conditions']

ASSUME = [
    'double arithmetic is treated as exact real arithmetic, std::complex as exact complex arithmetic',
    'integer arithmetic does not overflow',
    'divisors are non-zero and square roots are taken of non-negative numbers (failures of these give NaN, outside the property)',
    'extraction: the sources are wrapped in a namespace, compiled with NDEBUG; output statements are dropped; exceptions are not thrown by library calls',
]

K1 = ['kf.u_reset1', 'kf.u_update1']
KP = ['kfp.u_resetp', 'kfp.u_updatep', 'kfp.u_hermitian']

C1 = ['kfinit.u_ctor1' + x for x in 'abcd'] + ['kfinit.u_set']
CP = ['kfinit.u_ctorp' + x for x in 'abcd'] + ['kfinit.u_set_p', 'kfinit.u_params']
P1 = ['kf.u_initcoefs1', 'kf.u_updcoefs1', 'kf.u_predict1']
PP = ['kfp.u_initcoefsp', 'kfp.u_updcoefsp', 'kfp.u_predictp']
INV = 'class invariant of the filter on entry: time steps are the differences of the times, all arrays have one entry per time; constructors and setters are discharged here against the contract of init, whose own proof is under F06'

PROPS = {
    'F01': dict(units=K1 + C1 + ['kf.u_filter1'], tops=['kf.u_filter1'], conc='F01', files=KF,
                note='Reset, Update and Filter proved against the Kalman recursion for all lengths and data, from any earlier object state; recursion = Gaussian conditioning proved in Lean; reals for doubles',
                lemma='the recursion of the contract gives mean and variance of each observation conditional on the earlier ones, and its divisors are positive (positive rate and noise variance, increasing times)',
                assume=[INV]),
    'F02': dict(units=KP + CP + ['kfp.u_filterp'], tops=['kfp.u_filterp'], conc='F02', files=KF,
                note='Reset, Update and Filter proved against the Kalman recursion for all orders, lengths and data; the Vandermonde solve is trusted; recursion = Gaussian conditioning with the autocovariances of the process proved in Lean; reals for doubles',
                lemma='the recursion of the contract gives mean and variance of each observation conditional on the earlier ones under the autocovariances of the process (residue sum), and its divisors are positive; the Vandermonde system has exactly one solution (distinct roots with negative real parts, closed under conjugation, times in order, errors not zero)',
                assume=[INV]),
    'F03': dict(units=K1 + C1 + P1, tops=['kf.u_predict1'], conc='F03', files=KF,
                note='Predict with its coefficient recursion proved for all series and times; recursion = Gaussian conditioning proved in Lean; reals for doubles',
                lemma='the coefficient recursion of the contract gives mean and variance of the process at T conditional on all observations, before, between and after them, and its divisors are positive (positive rate and noise variance, increasing times, errors not zero)',
                assume=[INV]),
    'F04': dict(units=KP + CP + PP, tops=['kfp.u_predictp'], conc='F04', files=KF,
                note='Predict with its coefficient recursion proved for all orders, series and times; the Vandermonde solve is trusted; recursion = Gaussian conditioning with the autocovariances of the process proved in Lean; reals for doubles',
                lemma='the coefficient recursion of the contract gives mean and variance of the process at T conditional on all observations under the autocovariances of the process; its divisors are positive (distinct roots with negative real parts, closed under conjugation, times in order, errors not zero, predicted variance at T not zero)',
                assume=[INV]),
    'F05': dict(units=K1 + P1 + KP + PP + ['kfinit.u_simulate', 'kfinit.u_simulate_p', 'kfinit.u_simulate_wrap', 'kfinit.u_simulate_wrap_p'],
                tops=['kfinit.u_simulate', 'kfinit.u_simulate_p'], conc='F05', files=KF,
                note='Simulate proved for all series and time lists against the contract of Predict and of the normal draw: order, conditioning on earlier draws, restored state; reals for doubles',
                assume=[INV, 'the normal draw is a function of the generator, mean and standard deviation (its own contract is under S07)',
                        'arma::sort returns the sorted permutation, insert_rows inserts before the given row (library contracts)']),
    'F06': dict(units=C1 + CP + ['kfinit.u_init', 'kfinit.u_init_p', 'kfinit.u_init_clean'],
                tops=['kfinit.u_init', 'kfinit.u_init_p'], conc='F06', files=KF,
                note='init, constructors and setters proved for all inputs with at least two distinct times: sorted, permuted alongside, one entry per distinct time; library contracts of sort_index and find',
                assume=['at least two distinct times (otherwise the constructor throws)',
                        'arma::sort_index returns a permutation that sorts, arma::find returns the increasing list of indices satisfying the condition, elem selects by index (library contracts)']),
}

CP_ = ['src/carpack.cpp', 'src/include/carpack.hpp']
INC = 'the times handed to the model increase (what the Python layer and the drivers guarantee, Y01); the filter keeps such data as it is (F06)'
DEN = 'filter results are those of F01/F02 for the parameters and data set when the filter runs (proved there)'
CT = ['model.u_ctor', 'model.u_ctor_1', 'model.u_ctor_q', 'model.u_ctor_zc', 'model.u_ctor_z']
RN = 'random draws: scaled inverse chi-square draws are positive, uniform draws lie strictly between their bounds (S07)'


def units(s): return ['model.u_' + x for x in s.split()]


PROPS.update({
    'M01': dict(units=units('logdensity logdensity_1 logprior logprior_1 logprior_z wrappers wrappers_1') + CT,
                tops=units('logdensity logdensity_1'), conc='M01', files=CP_,
                note='LogDensity, LogPrior and their wrappers proved for all orders, lengths and vectors against the contracts of the filter, bounds, roots and variance; sum of the filter terms = Gaussian log-density proved in Lean; reals for doubles',
                lemma='the product of the one-step densities of the filter is the joint Gaussian density of the observations: the squared innovations over their variances sum to the quadratic form, the variances multiply to the determinant',
                assume=[INC, DEN, 'the bounds test, AR roots, MA coefficients and driving-noise variance enter by their contracts (M02 to M05)']),
    'M02': dict(units=units('bounds1 bounds unique setprior setprior_1'), tops=units('bounds1 bounds'), conc='M02', files=CP_,
                note='CheckPriorBounds of every model, the root-separation loop and the setting of the limits proved for all orders and vectors; reals for doubles',
                assume=[INC, 'AR roots enter by their contract (M03)']),
    'M03': dict(units=units('arroots extract_small'), tops=units('arroots extract_small'), conc='M03', files=CP_,
                note='ARRoots proved for all orders and vectors: every pair the two roots of its quadratic, odd last root; CAR(1) rate; reals for doubles',
                assume=[]),
    'M04': dict(units=units('polycoefs extractma extractma_z extract_small') + CT, tops=units('extractma extractma_z'), conc='M04', files=CP_,
                note='ExtractMA of every model and the root-to-coefficient recursion proved for all orders; symmetric functions = coefficients of the product proved in Lean; binomial coefficient from the library; reals for doubles',
                lemma='the recursion of the contract gives the coefficients of the product of the linear (quadratic) factors',
                assume=[INC, 'boost::math::binomial_coefficient is the binomial coefficient (library contract)']),
    'M05': dict(units=units('variance sigsqr sigsqr_1 sigsqr_q sigsqr_z'), tops=units('variance sigsqr sigsqr_1 sigsqr_q sigsqr_z'), conc='M05', files=CP_,
                note='Variance proved equal to the partial-fraction sum for all orders, coefficients and lags, and ExtractSigsqr for all models; partial-fraction sum = autocovariance of the state-space process proved in Lean; reals for doubles',
                lemma='the partial-fraction sum of the contract is the autocovariance of the state-space process observed through the MA row (distinct roots with negative real parts, closed under conjugation)',
                assume=[]),
    'M06': dict(units=units('start start_1 start_q start_z setstart setstart_1 setstart_q setstart_z startar startma startkappa'),
                tops=units('start start_1 start_q start_z setstart setstart_1 setstart_q setstart_z'), conc='M06', files=CP_,
                note='StartingValue and SetStartingValue of every model proved by loop invariant against the contracts of LogDensity, the filter and the draws; partial correctness of the retry loop; reals for doubles',
                assume=[INC, DEN, RN, 'the retry loop of StartingValue ends (partial correctness)', 'the log-posterior enters by its contract (M01)']),
})

ST = ['src/steps.cpp', 'src/include/steps.hpp', 'src/include/parameters.hpp']
SA = ['src/samplers.cpp', 'src/include/samplers.hpp'] + ST
RN_ = ['src/random.cpp', 'src/include/random.hpp', 'src/proposals.cpp', 'src/include/proposals.hpp']
DR = 'random draws: every basic draw of the library distributions is an arbitrary value of its range; that the draws have the stated law is the library\'s (Boost) responsibility'


def munits(s): return ['mcmc.u_' + x for x in s.split()]


PROPS.update({
    'S01': dict(units=munits('metrop metrop_s metrop_special metrop_s_special ram ram_first ram_special ram_first_special parameter'), tops=munits('metrop metrop_s metrop_special metrop_s_special ram ram_special'), conc='S01', files=ST,
                skip='covariance changes|adapts at|rank-one update|factor|GetMetroRatio|GetAcceptRate|counts the|adaptation|exponent',
                note='DoStep, Accept and GetMetroRatio of the Metropolis and adaptive steps proved for all targets, proposals, states and draws; parameter behind its virtual interface; reals for doubles',
                assume=[DR, 'target and proposal densities are functions of their arguments (virtual LogDensity by contract)', 'the rank-one update enters by its contract (S03)']),
    'S02': dict(units=munits('ram ram_first ram_special ram_first_special getcov chol'), tops=munits('ram ram_first ram_special ram_first_special'), conc='S02', files=ST,
                skip='DoStep: (accepted|rejected): |: rejected$|decides by|temperature unchanged',
                note='AdaptiveMetro proved for all dimensions and step counts against the contract of the rank-one update, itself discharged; first step by IEEE division by zero; reals for doubles',
                assume=[DR, 'target density is a function of its argument (virtual LogDensity by contract)', 'a positive number divided by zero is infinity (IEEE), used for the first step']),
    'S03': dict(units=munits('chol'), tops=munits('chol'), conc='S03', files=ST,
                note='CholUpdateR1 proved for all dimensions by loop invariant, update and downdate; reals for doubles',
                assume=['downdate: every pivot of the downdated matrix is positive (positive definiteness)']),
    'S04': dict(units=munits('exchange exchange_special basesave ensemble parameter'), tops=munits('exchange exchange_special'), conc='S04', files=ST + ['src/include/carpack.hpp'],
                skip='GetMetroRatio',
                note='ExchangeStep proved for all chain states, indices and draws, with frame over both chains; saving of a value under contract; reals for doubles',
                assume=[DR, 'temperatures are positive', 'chain index at least 1']),
    'S05': dict(units=munits('iterate savevalues run addstep stepinfo samples parameter'), tops=munits('run iterate savevalues'), conc='S05', files=SA,
                note='AddStep, Run, Iterate, SaveValues and the sample store proved for all step lists and counts by a ghost log of calls; steps and parameters behind their virtual interface',
                assume=['different tracked parameters have different labels', 'std::set and std::map by their library contracts: iteration visits every entered label once, the map returns what was stored under the label']),
    'S06': dict(units=munits('driver driver_1 ensemble parameter stepinfo'), tops=munits('driver driver_1'), conc='S06', files=['src/carmcmc.cpp'] + SA,
                note='both drivers proved for all sizes, orders, walker counts and data by a ghost log of the set-up calls; the parts they set up are under contract in S01 to S05 and M01 to M06; reals for doubles',
                assume=['model constructors, SetPrior, step constructors, AddStep and Run are recorded as calls (their contracts are those of M01, M02, S01 to S05)', 'the copy constructor of a model copies all its members (compiler generated)']),
    'S07': dict(units=munits('variates multinormal proposals multiproposal stretch stretch_density'),
                tops=munits('variates multinormal proposals multiproposal stretch stretch_density'), conc='S07', files=RN_,
                note='every variate and proposal proved to be the stated transformation of the library draws, for all parameters; reals for doubles',
                assume=[DR, 'arma::chol returns the upper triangular factor of its argument (library contract)']),
})

PY = ['src/carmcmc/carma_pack.py', 'src/carmcmc/samplers.py']
NP = 'numpy, scipy and Python built-ins by library contracts (element-wise arithmetic, slicing, sums, sort, argsort, unique, median, mean, poly as the product of its factors)'
EXT = 'the compiled extension enters by call: the arguments handed to it are what is proved; what it does with them is the subject of the F, M and S properties'


def punits(s): return ['py.u_' + x for x in s.split()]


PROPS.update({
    'Y01': dict(units=punits('model_init run_mcmc'), tops=punits('model_init run_mcmc'), conc='Y01', files=PY,
                note='constructor and run of the Python model proved for all inputs; the sampler call by its arguments; reals for floats',
                assume=[NP, EXT]),
    'Y02': dict(units=punits('generate_from_trace ar_roots ar_coefs ma_coefs sigma_noise car1_trace sample_init car1_init carma_variance'),
                tops=punits('generate_from_trace ar_roots ar_coefs ma_coefs sigma_noise car1_trace sample_init car1_init'), conc='Y02', files=PY,
                note='every transform of the trace and both constructors proved by loop invariant for all orders, sample counts and traces; reals for floats',
                assume=[NP, EXT]),
    'Y03': dict(units=punits('make_filter make_filter1 predict simulate'), tops=punits('make_filter make_filter1 predict simulate'), conc='Y03', files=PY,
                note='filter construction, prediction and simulation proved for all samples, estimates and times, the filter as a recorded call; reals for floats',
                assume=[NP, EXT, 'the median noise variance may be the median of the variances or the square of the median amplitude (equal for odd sample counts)']),
    'Y04': dict(units=punits('get_mle choose_order get_mle_single'), tops=punits('get_mle choose_order'), conc='Y04', files=PY,
                note='search over trials and over orders proved by loop invariant for all trial counts, candidate lists and objective values; reals for floats',
                assume=[NP, EXT, 'the optimiser returns some result (scipy.optimize.minimize by contract)', 'objective values are numbers (not NaN) and every AICc is below 1e300', 'a process pool maps in order']),
    'Y05': dict(units=punits('power_spectrum power_spectrum_scalar carma_variance get_ar_roots'), tops=punits('power_spectrum power_spectrum_scalar carma_variance get_ar_roots'), conc='Y05', files=PY,
                note='the three formulas proved by loop invariant for all orders, coefficients, frequencies and lags; reals for floats',
                lemma='the partial-fraction sum is the autocovariance of the state-space process observed through the MA row (distinct roots with negative real parts, closed under conjugation)',
                assume=[NP, 'centroids are zero or above 1e-10']),
    'Y06': dict(units=punits('car1_process carma_process'), tops=punits('car1_process carma_process'), conc='Y06', files=PY,
                note='both generators proved by loop invariant for all times, roots, coefficients and normal draws, as the exact transformation of the normal draws; reals for floats',
                lemma='the generated values are a fixed matrix G times the normal draws with G G^T the covariance matrix of the process at the times; for distinct roots the Vandermonde system has exactly one solution (predicted variances positive)',
                assume=[NP, 'normal draws are arbitrary values (their law is numpy\'s)', 'p = 1: the MA constant is 1']),
    'Y07': dict(units=punits('add_mle carma_variance'), tops=punits('add_mle'), conc='Y07', files=PY,
                note='every recorded quantity proved for all orders and fitted vectors, with frame over the samples; the variance by its contract, itself discharged; reals for floats',
                assume=[NP]),
})

NA = {}
