"""Contracts of the Kalman filters (kfilter.hpp, kfilter.cpp)."""
import math
from vp.terms import *
from vp import terms as T
from vp.logic import entails
from vp.sym import *
from vp.verify import Unit

n = Var('n', 'i')
p = Var('p', 'i')
s2 = Var('sigsqr')
w = Var('omega')
ip = Var('ip', 'i')
tt = Var('T')


def t(i): return El('time', i)
def y(i): return El('y', i)
def e(i): return El('yerr', i)


# ------------------------------------------------------------------ ghost recursion, CAR(1)
def m1(c): return App('m1', c)
def v1(c): return App('v1', c)


def step_guard(f):
    """Unfold a ghost recursion at 0, or at c when c >= 1 is known."""
    def unfold(args, hyps):
        c = args[0]
        k = c.const()
        if k is not None:
            if k < 0:
                return None
            return f(int(k) == 0, *args)
        if not isinstance(hyps, list):
            return None
        if entails(hyps, ge(c, 1)):
            return f(False, *args)
        if entails(hyps, eq(c, 0)):
            return f(True, ZERO, *args[1:])
        return None
    return unfold


def _m1(base, c):
    if base:
        return ZERO
    r = Exp(-w * (t(c) - t(c - 1)))
    P_ = v1(c - 1) - e(c - 1) * e(c - 1)
    return r * m1(c - 1) + r * P_ / v1(c - 1) * (y(c - 1) - m1(c - 1))


def _v1(base, c):
    if base:
        return s2 / (2 * w) + e(0) * e(0)
    r = Exp(-w * (t(c) - t(c - 1)))
    P_ = v1(c - 1) - e(c - 1) * e(c - 1)
    return s2 / (2 * w) * (1 - r * r) + r * r * P_ * (1 - P_ / v1(c - 1)) + e(c) * e(c)


T.GHOST['m1'] = step_guard(_m1)
T.GHOST['v1'] = step_guard(_v1)
T.GHOST_STEP.update(['m1', 'v1', 'cs1', 'cc1', 'cv1'])


# ------------------------------------------------------------------ pre-states
def col(name, k=None):
    return Arr.sym(name, 'col', 'r', (n if k is None else k, ONE))


def data_state(ex, o):
    """Class invariant of a constructed filter (established by the constructors, property F06):
    time, value, error, result arrays of one length n, time steps are differences of times."""
    ex.objcls[o.id] = o.cls
    ex.setf(o, 'time_', col('time'))
    ex.setf(o, 'y_', col('y'))
    ex.setf(o, 'yerr_', col('yerr'))
    ex.setf(o, 'dt_', Arr('col', 'r', (n - 1, ONE), lambda ix: t(ix[0] + 1) - t(ix[0])))
    ex.setf(o, 'mean', col('mean0'))
    ex.setf(o, 'var', col('var0'))
    ex.setf(o, 'sigsqr_', s2)
    ex.setf(o, 'current_index_', Var('idx0', 'i'))
    ex.setf(o, 'yconst_', Var('yconst0'))
    ex.setf(o, 'yslope_', Var('yslope0'))
    ex.assume(ge(n, 2))


def kf1_state(ex):
    o = ObjV(('kf',), 'KalmanFilter1')
    data_state(ex, o)
    ex.setf(o, 'omega_', w)
    return o


DATA = ['time_', 'y_', 'yerr_', 'dt_', 'sigsqr_', 'omega_']


def frame(ex, o, old, fields):
    for f in fields:
        loc = ex.fld(o, f)
        a, b = ex.store[loc], old[loc]
        if a is not b:
            ex.oblig_same('%s leaves %s unchanged' % (ex.fn, f), a, b, ex.pc, 'frame')


def upto(c, f, rest):
    """Array equal to f below c and to the given array from c on."""
    return Arr('col', 'r', (n, ONE), lambda ix: Ite(lt(ix[0], c), f(ix[0]), rest.get(ix[0])))


def prefix_eq(ex, name, arr, f, lo, hi):
    """Obligation: arr(j) = f(j) for lo <= j < hi."""
    j = fresh('i', 'i')
    ex.oblig(name, eq(arr.get(j), f(j)), 'post', ex.pc + [le(lo, j), lt(j, hi)])


def size_eq(ex, name, arr, k):
    ex.oblig(name, eq(arr.n(), k), 'post')


# ------------------------------------------------------------------ KalmanFilter1
def u_reset1():
    def body(ex):
        o = kf1_state(ex)
        old = dict(ex.store)
        ex.run_method('KalmanFilter1', 'Reset', o, [])

        def post(ex):
            mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
            prefix_eq(ex, 'Reset: mean(0) is the stationary mean', mean, m1, ZERO, ONE)
            prefix_eq(ex, 'Reset: var(0) is the stationary variance plus noise', var, v1, ZERO, ONE)
            size_eq(ex, 'Reset: size of mean kept', mean, n)
            size_eq(ex, 'Reset: size of var kept', var, n)
            ex.oblig('Reset: next index is 1', eq(ex.getf(o, 'current_index_'), 1))
            frame(ex, o, old, DATA)
        return post
    return Unit('KalmanFilter1::Reset', body, sampler=sample1)


def u_update1():
    def body(ex):
        o = kf1_state(ex)
        c = Var('c', 'i')
        ex.assume(And(ge(c, 1), lt(c, n)))
        ex.setf(o, 'current_index_', c)
        ex.setf(o, 'mean', upto(c, m1, col('mean0')))
        ex.setf(o, 'var', upto(c, v1, col('var0')))
        old = dict(ex.store)
        ex.run_method('KalmanFilter1', 'Update', o, [])

        def post(ex):
            mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
            prefix_eq(ex, 'Update: mean is the one-step prediction up to the current index', mean, m1, ZERO, c + 1)
            prefix_eq(ex, 'Update: var is the one-step prediction variance up to the current index', var, v1, ZERO, c + 1)
            size_eq(ex, 'Update: size of mean kept', mean, n)
            size_eq(ex, 'Update: size of var kept', var, n)
            ex.oblig('Update: index advances by one', eq(ex.getf(o, 'current_index_'), c + 1))
            frame(ex, o, old, DATA)
        return post
    return Unit('KalmanFilter1::Update', body, sampler=sample1)


def c_reset1(ex, o, args):
    ex.setf(o, 'mean', ex.getf(o, 'mean').set((ZERO,), m1(ZERO)))
    ex.setf(o, 'var', ex.getf(o, 'var').set((ZERO,), v1(ZERO)))
    ex.setf(o, 'yconst_', ex.fresh('h_yconst'))
    ex.setf(o, 'yslope_', ex.fresh('h_yslope'))
    ex.setf(o, 'current_index_', ONE)


def c_update1(ex, o, args):
    c = ex.getf(o, 'current_index_')
    mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
    ex.oblig('Update called within the data', And(ge(c, 1), lt(c, n)), 'pre')
    j = fresh('i', 'i')
    hy = ex.pc + [le(0, j), lt(j, c)]
    if not ex.quiet:
        ex.oblig('Update called with mean filtered so far', eq(mean.get(j), m1(j)), 'pre', hy)
        ex.oblig('Update called with var filtered so far', eq(var.get(j), v1(j)), 'pre', hy)
    ex.setf(o, 'mean', mean.set((c,), m1(c)))
    ex.setf(o, 'var', var.set((c,), v1(c)))
    ex.setf(o, 'current_index_', c + 1)


C1 = {'KalmanFilter1::Reset': c_reset1, 'KalmanFilter1::Update': c_update1}


def u_filter1():
    def body(ex):
        o = kf1_state(ex)
        old = dict(ex.store)
        ex.run_method('KalmanFilter1', 'Filter', o, [])

        def post(ex):
            mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
            prefix_eq(ex, 'Filter: every mean is the one-step prediction', mean, m1, ZERO, n)
            prefix_eq(ex, 'Filter: every var is the one-step prediction variance', var, v1, ZERO, n)
            size_eq(ex, 'Filter: one mean per observation', mean, n)
            size_eq(ex, 'Filter: one var per observation', var, n)
            frame(ex, o, old, DATA)
        return post
    return Unit('KalmanFilter<double>::Filter', body, C1, sampler=sample1)


# ------------------------------------------------------------------ sampling of valuations for refutation
LITS = []      # numeric literals of the source under test: values at which behaviour may change


def near_lit(rng, lo=1e-6, hi=1e6):
    c = [x for x in LITS if lo <= x <= hi]
    return rng.choice(c) * rng.choice((0.5, 0.99, 1.0, 1.01, 2.0, 5.0)) if c else None


def sample1(val, rng):
    N = rng.randint(2, 5)
    big = [int(x) for x in LITS if 5 < x <= 200 and x == int(x)]
    if big and rng.random() < 0.3:
        N = rng.choice(big) + rng.randint(1, 6)
    wide = rng.random() < 0.4
    val.vars['n'] = N
    ts = [0.0]
    for _ in range(N + 12):
        d = rng.uniform(0.1, 1.5)
        if wide and rng.random() < 0.4:
            d = near_lit(rng) or math.exp(rng.uniform(-6, 6))
        ts.append(ts[-1] + d)
    ys = [rng.gauss(0, 1) for _ in range(N + 13)]
    es = [rng.uniform(0.1, 0.8) for _ in range(N + 13)]
    if wide:
        for a in (ys, es):
            if rng.random() < 0.5:
                a[rng.randrange(N)] = rng.choice((0.0, near_lit(rng) or 3.0, 10.0))
        if es[0] == 0.0 and rng.random() < 0.5:
            es = [0.0] * len(es)

    def pick(a):
        def f(v, i, *r):
            i = int(i)
            return a[i] if 0 <= i < len(a) else 0.37 + 0.01 * i
        return f
    val.funcs['time'] = pick(ts)
    val.funcs['y'] = pick(ys)
    val.funcs['yerr'] = pick(es)
    val.vars['sigsqr'] = rng.uniform(0.3, 2.0)
    val.vars['omega'] = rng.uniform(0.2, 2.0) if not wide else rng.choice((near_lit(rng) or 1.0, math.exp(rng.uniform(-5, 3))))
    val.vars['c'] = rng.randint(1, max(1, N - 1))
    val.api = {'time': ts[:N], 'y': ys[:N], 'yerr': es[:N], 'sigsqr': val.vars['sigsqr'], 'omega': val.vars['omega']}


# ------------------------------------------------------------------ ghosts of the CAR(1) prediction
# ip is the number of observations before T: the first ip times are < T, and time(ip) >= T if ip < n.
def cs1(c): return App('cs1', c)      # slope of E[y_c | x_T, y_ip..y_{c-1}] in x_T
def cc1(c): return App('cc1', c)      # its constant
def cv1(c): return App('cv1', c)      # variance of y_c given x_T, y_ip..y_{c-1}


def ip_guard(f):
    def unfold(args, hyps):
        c = args[0]
        d = c - ip
        k = d.const()
        if k is not None and k == 0:
            return f(True, *args)
        if not isinstance(hyps, list):       # numeric evaluation
            d = c - hyps.var('ip', 'i')
            if d.const() is None or d.const() < 0:
                return None
            return f(d.const() == 0, *args)
        if entails(hyps, ge(c, ip + 1)):
            return f(False, *args)
        if entails(hyps, eq(c, ip)):
            return f(True, ip, *args[1:])
        return None
    return unfold


def _coef1(c):
    r = Exp(-w * (t(c) - t(c - 1)))
    P_ = cv1(c - 1) - e(c - 1) * e(c - 1)
    return r, P_, P_ / cv1(c - 1)


def _cs1(base, c):
    if base:
        return Exp(-w * (t(ip) - tt))
    r, P_, q = _coef1(c)
    return cs1(c - 1) * r * (1 - q)


def _cc1(base, c):
    if base:
        return ZERO
    r, P_, q = _coef1(c)
    return cc1(c - 1) * r * (1 - q) + r * q * y(c - 1)


def _cv1(base, c):
    if base:
        return s2 / (2 * w) * (1 - Exp(-2 * w * (t(ip) - tt))) + e(ip) * e(ip)
    r, P_, q = _coef1(c)
    return s2 / (2 * w) * (1 - r * r) + r * r * P_ * (1 - q) + e(c) * e(c)


T.GHOST['cs1'] = ip_guard(_cs1)
T.GHOST['cc1'] = ip_guard(_cc1)
T.GHOST['cv1'] = ip_guard(_cv1)


def forward1():
    """Mean and variance of the process at T given the first ip observations."""
    r = Exp(-w * (tt - t(ip - 1)))
    vv = v1(ip - 1)
    P_ = vv - e(ip - 1) * e(ip - 1)
    mean = Ite(eq(ip, 0), ZERO, r * m1(ip - 1) + r * P_ / vv * (y(ip - 1) - m1(ip - 1)))
    var = Ite(eq(ip, 0), s2 / (2 * w), s2 / (2 * w) * (1 - r * r) + r * r * P_ * (1 - P_ / vv))
    return mean, var


def predict_spec(mf, vf, sl, co, va):
    """Product of the forward density and the likelihood of x_T under the later observations."""
    prec = 1 / vf + SumR(ip, n, lambda i: sl(i) * sl(i) / va(i))
    num = mf / vf + SumR(ip, n, lambda i: sl(i) * (y(i) - co(i)) / va(i))
    return Ite(eq(ip, n), mf, num / prec), Ite(eq(ip, n), vf, 1 / prec)


def ip_facts(ex):
    ex.assume(And(ge(ip, 0), le(ip, n)))
    ex.assume(Forall(Var('j', 'i'), ip, lt(t(Var('j', 'i')), tt)))
    ex.assume(Or(eq(ip, n), le(tt, t(ip))))


def inc_facts(ex):
    """Times strictly increase."""
    j = Var('j', 'i')
    ex.assume(Forall(j, n - 1, lt(t(j), t(j + 1))))


def u_initcoefs1():
    def body(ex):
        o = kf1_state(ex)
        ex.assume(And(ge(ip, 0), lt(ip, n), le(tt, t(ip))))
        old = dict(ex.store)
        ex.run_method('KalmanFilter1', 'InitializeCoefs', o, [tt, ip, Var('ym'), Var('yv')])

        def post(ex):
            var = ex.getf(o, 'var')
            ex.oblig('InitializeCoefs: slope', eq(ex.getf(o, 'yslope_'), cs1(ip)))
            ex.oblig('InitializeCoefs: constant', eq(ex.getf(o, 'yconst_'), cc1(ip)))
            ex.oblig('InitializeCoefs: variance', eq(var.get(ip), cv1(ip)))
            ex.oblig('InitializeCoefs: next index', eq(ex.getf(o, 'current_index_'), ip + 1))
            size_eq(ex, 'InitializeCoefs: size of var kept', var, n)
            frame(ex, o, old, DATA + ['mean'])
        return post
    return Unit('KalmanFilter1::InitializeCoefs', body, sampler=sample1)


def u_updcoefs1():
    def body(ex):
        o = kf1_state(ex)
        c = Var('c', 'i')
        ex.assume(And(ge(ip, 0), lt(ip, c), lt(c, n)))
        ex.setf(o, 'current_index_', c)
        ex.setf(o, 'yslope_', cs1(c - 1))
        ex.setf(o, 'yconst_', cc1(c - 1))
        ex.setf(o, 'var', col('var0').set((c - 1,), cv1(c - 1)))
        old = dict(ex.store)
        ex.run_method('KalmanFilter1', 'UpdateCoefs', o, [])

        def post(ex):
            var = ex.getf(o, 'var')
            ex.oblig('UpdateCoefs: slope', eq(ex.getf(o, 'yslope_'), cs1(c)))
            ex.oblig('UpdateCoefs: constant', eq(ex.getf(o, 'yconst_'), cc1(c)))
            ex.oblig('UpdateCoefs: variance', eq(var.get(c), cv1(c)))
            ex.oblig('UpdateCoefs: next index', eq(ex.getf(o, 'current_index_'), c + 1))
            size_eq(ex, 'UpdateCoefs: size of var kept', var, n)
            frame(ex, o, old, DATA + ['mean'])
        return post
    return Unit('KalmanFilter1::UpdateCoefs', body, sampler=sample1)


def c_initcoefs1(ex, o, args):
    time, it = args[0], args[1]
    ex.oblig('InitializeCoefs called at the prediction time', eq(time, tt), 'pre')
    ex.oblig('InitializeCoefs called at the first later observation', eq(it, ip), 'pre')
    ex.oblig('InitializeCoefs called within the data', And(ge(it, 0), lt(it, n), le(time, t(it))), 'pre')
    ex.setf(o, 'yslope_', cs1(it))
    ex.setf(o, 'yconst_', cc1(it))
    ex.setf(o, 'var', ex.getf(o, 'var').set((it,), cv1(it)))
    ex.setf(o, 'current_index_', it + 1)


def c_updcoefs1(ex, o, args):
    c = ex.getf(o, 'current_index_')
    if not ex.quiet:
        ex.oblig('UpdateCoefs called within the data', And(lt(ip, c), lt(c, n)), 'pre')
        ex.oblig('UpdateCoefs called with the last slope', eq(ex.getf(o, 'yslope_'), cs1(c - 1)), 'pre')
        ex.oblig('UpdateCoefs called with the last constant', eq(ex.getf(o, 'yconst_'), cc1(c - 1)), 'pre')
        ex.oblig('UpdateCoefs called with the last variance', eq(ex.getf(o, 'var').get(c - 1), cv1(c - 1)), 'pre')
    ex.setf(o, 'yslope_', cs1(c))
    ex.setf(o, 'yconst_', cc1(c))
    ex.setf(o, 'var', ex.getf(o, 'var').set((c,), cv1(c)))
    ex.setf(o, 'current_index_', c + 1)


C1P = dict(C1)
C1P.update({'KalmanFilter1::InitializeCoefs': c_initcoefs1, 'KalmanFilter1::UpdateCoefs': c_updcoefs1})


def u_predict1():
    def body(ex):
        o = kf1_state(ex)
        ip_facts(ex)
        old = dict(ex.store)
        r = ex.run_method('KalmanFilter1', 'Predict', o, [tt])

        def post(ex):
            mf, vf = forward1()
            mean, var = predict_spec(mf, vf, cs1, cc1, cv1)
            ex.oblig('Predict: mean is the conditional mean given the whole series', eq(r.f['first'], mean))
            ex.oblig('Predict: variance is the conditional variance given the whole series', eq(r.f['second'], var))
            size_eq(ex, 'Predict: size of mean kept', ex.getf(o, 'mean'), n)
            size_eq(ex, 'Predict: size of var kept', ex.getf(o, 'var'), n)
            frame(ex, o, old, DATA)
        return post
    return Unit('KalmanFilter1::Predict', body, C1P, sampler=sample1p, eqcands=['ip'])


def sample1p(val, rng):
    sample1(val, rng)
    pick_T(val, rng)


def pick_T(val, rng):
    N = val.vars['n']
    k = rng.randint(0, N)
    ts = val.api['time']
    if k == 0:
        T_ = ts[0] - rng.uniform(0.05, 1)
    elif k == N:
        T_ = ts[-1] + rng.uniform(0.05, 1)
    else:
        T_ = rng.uniform(ts[k - 1] + 0.01, ts[k])
    val.vars['ip'] = k
    val.vars['T'] = T_
    val.api['predict'] = [T_]
