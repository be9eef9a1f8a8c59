"""Contracts of the CARMA(p,q) Kalman filter (KalmanFilterp)."""
from vp.terms import *
from vp import terms as T
from vp.logic import entails
from vp.sym import *
from vp.verify import Unit
from .kf import *
from .kf import data_state, frame, prefix_eq, size_eq, step_guard, ip_guard, predict_spec, ip_facts, sample1


def om(i): return El('omega', i, sort='c')
def ma(k): return El('ma', k)
def J(i): return El('J', i, sort='c')
def b(j): return App('bq', j, sort='c')
def SV(i, j): return App('SVk', i, j, sort='c')
def X(c, i): return App('xk', c, i, sort='c')
def PV(c, i, j): return App('Pk', c, i, j, sort='c')
def mp(c): return App('mp', c)
def vp(c): return App('vp', c)


T.GHOST_STEP.update(['xk', 'Pk', 'mp', 'vp', 'xck', 'xsk', 'Pck', 'ycp', 'ysp', 'cvp'])
T.HERM.update(['SVk', 'Pk', 'PTk', 'Pck'])


def quad(Pf):
    """Re(b P b^H)"""
    i, j = fresh('i', 'i'), fresh('j', 'i')
    return real(Sum([(i, p), (j, p)], b(i) * Pf(i, j) * conj(b(j))))


def lin(xf):
    i = fresh('i', 'i')
    return real(Sum([(i, p)], b(i) * xf(i)))


def gain(Pf, v):
    def K(i):
        j = fresh('j', 'i')
        return Sum([(j, p)], Pf(i, j) * conj(b(j))) / v
    return K


def rho(i, dt):
    return Exp(om(i) * dt)


def prop(Pf, v, K, dt):
    """Covariance after conditioning and propagation over dt."""
    return lambda i, j: rho(i, dt) * conj(rho(j, dt)) * (Pf(i, j) - v * K(i) * conj(K(j)) - SV(i, j)) + SV(i, j)


T.GHOST['bq'] = lambda a, h: SumR(0, p, lambda k: ma(k) * Pow(om(a[0]), k))
T.GHOST['SVk'] = lambda a, h: -s2 * J(a[0]) * conj(J(a[1])) / (om(a[0]) + conj(om(a[1])))


def _x(base, c, i):
    if base:
        return ZERO
    K = gain(lambda a, b_: PV(c - 1, a, b_), vp(c - 1))
    return rho(i, t(c) - t(c - 1)) * (X(c - 1, i) + K(i) * (y(c - 1) - mp(c - 1)))


def _P(base, c, i, j):
    if base:
        return SV(i, j)
    Pf = lambda a, b_: PV(c - 1, a, b_)
    return prop(Pf, vp(c - 1), gain(Pf, vp(c - 1)), t(c) - t(c - 1))(i, j)


T.GHOST['xk'] = step_guard(_x)
T.GHOST['Pk'] = step_guard(_P)
T.GHOST['mp'] = lambda a, h: lin(lambda i: X(a[0], i))
T.GHOST['vp'] = lambda a, h: quad(lambda i, j: PV(a[0], i, j)) + e(a[0]) * e(a[0])


# ------------------------------------------------------------------ states
PARTS = ['time_', 'y_', 'yerr_', 'dt_', 'sigsqr_', 'omega_', 'ma_coefs_', 'p_']


def cvec(name): return Arr.sym(name, 'col', 'c', (p, ONE))
def crow(name): return Arr.sym(name, 'row', 'c', (ONE, p))
def cmat(name): return Arr.sym(name, 'mat', 'c', (p, p))


def afn(kind, f):
    if kind == 'col':
        return Arr('col', 'c', (p, ONE), lambda ix: f(ix[0]))
    if kind == 'row':
        return Arr('row', 'c', (ONE, p), lambda ix: f(ix[1]))
    return Arr('mat', 'c', (p, p), lambda ix: f(ix[0], ix[1]))


def kfp_state(ex):
    o = ObjV(('kf',), 'KalmanFilterp')
    data_state(ex, o)
    ex.assume(ge(p, 2))
    ex.setf(o, 'p_', p)
    ex.setf(o, 'omega_', Arr.sym('omega', 'col', 'c', (p, ONE)))
    ex.setf(o, 'ma_coefs_', Arr.sym('ma', 'row', 'r', (ONE, p)))
    ex.setf(o, 'state_vector_', cvec('x0'))
    ex.setf(o, 'StateVar_', cmat('SV0'))
    ex.setf(o, 'rotated_ma_coefs_', crow('b0'))
    ex.setf(o, 'PredictionVar_', cmat('PV0'))
    ex.setf(o, 'kalman_gain_', cvec('K0'))
    ex.setf(o, 'rho_', cvec('rho0'))
    ex.setf(o, 'innovation_', Var('innov0'))
    ex.setf(o, 'state_const_', cvec('sc0'))
    ex.setf(o, 'state_slope_', cvec('ss0'))
    ex.solve_patterns = [vandermonde()]
    return o


SOLVE = ('arma::solve in Reset: for distinct roots the Vandermonde system sum_j omega_j^i J_j = [i = p-1] '
         'has exactly one solution; J names it')


def vandermonde():
    return (Arr('mat', 'c', (p, p), lambda ix: Pow(om(ix[1]), ix[0])),
            Arr('col', 'c', (p, ONE), lambda ix: Ite(eq(ix[0], p - 1), ONE, ZERO)), afn('col', J))


def rotated(ex, o):
    ex.setf(o, 'rotated_ma_coefs_', afn('row', b))
    ex.setf(o, 'StateVar_', afn('mat', SV))


def filtered(ex, o, c):
    """Filter state before the step to observation c."""
    ex.setf(o, 'current_index_', c)
    ex.setf(o, 'mean', upto(c, mp, col('mean0')))
    ex.setf(o, 'var', upto(c, vp, col('var0')))
    ex.setf(o, 'state_vector_', afn('col', lambda i: X(c - 1, i)))
    ex.setf(o, 'PredictionVar_', afn('mat', lambda i, j: PV(c - 1, i, j)))
    ex.setf(o, 'innovation_', y(c - 1) - mp(c - 1))


def is_filtered(ex, o, c, fn, kind='post', full=True):
    """Obligations: the object is in the filter state before the step to observation c."""
    mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
    S = ex.oblig_same
    S('%s: state vector is the predicted state' % fn, ex.getf(o, 'state_vector_'), afn('col', lambda i: X(c - 1, i)), ex.pc, kind)
    S('%s: state covariance is the predicted covariance' % fn, ex.getf(o, 'PredictionVar_'),
      afn('mat', lambda i, j: PV(c - 1, i, j)), ex.pc, kind)
    S('%s: stationary covariance' % fn, ex.getf(o, 'StateVar_'), afn('mat', SV), ex.pc, kind)
    S('%s: rotated moving-average row' % fn, ex.getf(o, 'rotated_ma_coefs_'), afn('row', b), ex.pc, kind)
    j = fresh('i', 'i')
    hy = ex.pc + [le(0, j), lt(j, c)]
    ex.oblig('%s: mean is the one-step prediction up to the current index' % fn, eq(mean.get(j), mp(j)), kind, hy)
    ex.oblig('%s: var is the one-step prediction variance up to the current index' % fn, eq(var.get(j), vp(j)), kind, hy)
    ex.oblig('%s: innovation is the last residual' % fn, eq(ex.getf(o, 'innovation_'), y(c - 1) - mp(c - 1)), kind)
    ex.oblig('%s: next index' % fn, eq(ex.getf(o, 'current_index_'), c), kind)
    ex.oblig('%s: size of mean kept' % fn, eq(mean.n(), n), kind)
    ex.oblig('%s: size of var kept' % fn, eq(var.n(), n), kind)


def u_resetp():
    def body(ex):
        o = kfp_state(ex)
        old = dict(ex.store)
        ex.run_method('KalmanFilterp', 'Reset', o, [])

        def post(ex):
            is_filtered(ex, o, ONE, 'Reset')
            frame(ex, o, old, PARTS)
        return post
    return Unit('KalmanFilterp::Reset', body, sampler=samplep, trusted=[SOLVE])


def u_updatep():
    def body(ex):
        o = kfp_state(ex)
        c = Var('c', 'i')
        ex.assume(And(ge(c, 1), lt(c, n)))
        rotated(ex, o)
        filtered(ex, o, c)
        old = dict(ex.store)
        ex.run_method('KalmanFilterp', 'Update', o, [])

        def post(ex):
            is_filtered(ex, o, c + 1, 'Update')
            frame(ex, o, old, PARTS)
        return post
    return Unit('KalmanFilterp::Update', body, sampler=samplep)


def c_resetp(ex, o, args):
    ex.setf(o, 'mean', ex.getf(o, 'mean').set((ZERO,), mp(ZERO)))
    ex.setf(o, 'var', ex.getf(o, 'var').set((ZERO,), vp(ZERO)))
    rotated(ex, o)
    ex.setf(o, 'state_vector_', afn('col', lambda i: X(ZERO, i)))
    ex.setf(o, 'PredictionVar_', afn('mat', lambda i, j: PV(ZERO, i, j)))
    ex.setf(o, 'innovation_', y(ZERO) - mp(ZERO))
    ex.setf(o, 'current_index_', ONE)


def c_updatep(ex, o, args):
    c = ex.getf(o, 'current_index_')
    ex.oblig('Update called within the data', And(ge(c, 1), lt(c, n)), 'pre')
    if not ex.quiet:
        is_filtered(ex, o, c, 'Update called after', 'pre')
    mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
    ex.setf(o, 'mean', mean.set((c,), mp(c)))
    ex.setf(o, 'var', var.set((c,), vp(c)))
    ex.setf(o, 'state_vector_', afn('col', lambda i: X(c, i)))
    ex.setf(o, 'PredictionVar_', afn('mat', lambda i, j: PV(c, i, j)))
    ex.setf(o, 'innovation_', y(c) - mp(c))
    ex.setf(o, 'kalman_gain_', ex.fresh_arr('h_gain', 'col', 'c', (p, ONE)))
    ex.setf(o, 'rho_', ex.fresh_arr('h_rho', 'col', 'c', (p, ONE)))
    ex.setf(o, 'current_index_', c + 1)


CP = {'KalmanFilterp::Reset': c_resetp, 'KalmanFilterp::Update': c_updatep}


def u_filterp():
    def body(ex):
        o = kfp_state(ex)
        old = dict(ex.store)
        ex.run_method('KalmanFilterp', 'Filter', o, [])

        def post(ex):
            mean, var = ex.getf(o, 'mean'), ex.getf(o, 'var')
            prefix_eq(ex, 'Filter: every mean is the one-step prediction', mean, mp, ZERO, n)
            prefix_eq(ex, 'Filter: every var is the one-step prediction variance', var, vp, ZERO, n)
            size_eq(ex, 'Filter: one mean per observation', mean, n)
            size_eq(ex, 'Filter: one var per observation', var, n)
            frame(ex, o, old, PARTS)
        return post
    return Unit('KalmanFilter<arma::cx_vec>::Filter', body, CP, sampler=samplep)


def u_hermitian():
    """Lemma: the covariance ghosts are Hermitian (used by the term rewriting of SVk, Pk)."""
    def body(ex):
        i, j, c = Var('i', 'i'), Var('j', 'i'), Var('c', 'i')
        ex.assume(And(ge(p, 2), ge(i, 0), lt(i, p), ge(j, 0), lt(j, p), ge(c, 1)))
        d = T.GHOST['SVk']
        ex.oblig('stationary covariance is Hermitian', eq(d((i, j), []), conj(d((j, i), []))))
        # induction step with the Hermitian property of the previous covariance only
        ex.oblig('predicted covariance stays Hermitian', eq(_P(False, c, i, j), conj(_P(False, c, j, i))))
        ex.oblig('forward covariance is Hermitian', eq(_PT(False, c, i, j), conj(_PT(False, c, j, i))))
        ex.oblig('coefficient covariance starts Hermitian', eq(_Pc(True, c, i, j), conj(_Pc(True, c, j, i))))
        ex.oblig('coefficient covariance stays Hermitian', eq(_Pc(False, c, i, j), conj(_Pc(False, c, j, i))))
        return None
    return Unit('lemma: covariances are Hermitian', body, lemma=True)


# ------------------------------------------------------------------ numeric valuations
def samplep(val, rng):
    sample1(val, rng)
    P_ = rng.randint(2, 4)
    val.vars['p'] = P_
    oms = []
    while len(oms) < P_:
        if P_ - len(oms) >= 2:
            z = complex(-rng.uniform(0.2, 1.0), rng.uniform(0.3, 2.0))
            oms += [z, z.conjugate()]
        else:
            oms.append(complex(-rng.uniform(0.2, 1.0), 0))
    mas = [1.0] + [rng.uniform(-0.5, 0.8) for _ in range(P_ - 1)]
    import numpy as np
    V = np.array([[o ** i for o in oms] for i in range(P_)])
    Js = list(np.linalg.solve(V, np.array([0] * (P_ - 1) + [1.0])))

    def pick(a):
        def f(v, i, *r):
            i = int(i)
            return complex(a[i]) if 0 <= i < len(a) else complex(0.37 + 0.01 * i, 0.1)
        return f

    def pickr(a):
        def f(v, i, *r):
            i = int(i)
            return a[i] if 0 <= i < len(a) else 0.37 + 0.01 * i
        return f
    val.funcs['omega'] = pick(oms)
    val.funcs['J'] = pick(Js)
    val.funcs['ma'] = pickr(mas)
    val.api['omega'] = [[z.real, z.imag] for z in oms]
    val.api['ma'] = mas


# ------------------------------------------------------------------ prediction
def xT(i): return App('xTk', ip, i, sort='c')
def PT(i, j): return App('PTk', ip, i, j, sort='c')
def mT(): return App('mTk', ip)
def vT(): return App('vTk', ip)
def Xc(c, i): return App('xck', c, i, sort='c')
def Xs(c, i): return App('xsk', c, i, sort='c')
def Pc(c, i, j): return App('Pck', c, i, j, sort='c')
def yc(c): return App('ycp', c)
def ys(c): return App('ysp', c)
def cv(c): return App('cvp', c)


T.GHOST_STEP.update(['xTk', 'PTk', 'mTk', 'vTk'])


def _xT(base, c, i):
    if base:
        return ZERO
    K = gain(lambda a, b_: PV(c - 1, a, b_), vp(c - 1))
    return rho(i, tt - t(c - 1)) * (X(c - 1, i) + K(i) * (y(c - 1) - mp(c - 1)))


def _PT(base, c, i, j):
    if base:
        return SV(i, j)
    Pf = lambda a, b_: PV(c - 1, a, b_)
    return prop(Pf, vp(c - 1), gain(Pf, vp(c - 1)), tt - t(c - 1))(i, j)


T.GHOST['xTk'] = step_guard(_xT)
T.GHOST['PTk'] = step_guard(_PT)
T.GHOST['mTk'] = lambda a, h: lin(xT)
T.GHOST['vTk'] = lambda a, h: quad(PT)


def _coefs(base, c):
    """Gain, previous values and time step of the coefficient recursion at observation c."""
    if base:
        return gain(PT, vT()), vT(), PT, t(ip) - tt
    Pf = lambda a, b_: Pc(c - 1, a, b_)
    return gain(Pf, cv(c - 1)), cv(c - 1), Pf, t(c) - t(c - 1)


def _xc(base, c, i):
    K, v, Pf, dt = _coefs(base, c)
    if base:
        return rho(i, dt) * (xT(i) - K(i) * mT())
    return rho(i, dt) * (Xc(c - 1, i) + K(i) * (y(c - 1) - yc(c - 1)))


def _xs(base, c, i):
    K, v, Pf, dt = _coefs(base, c)
    if base:
        return rho(i, dt) * K(i)
    return rho(i, dt) * (Xs(c - 1, i) - K(i) * ys(c - 1))


def _Pc(base, c, i, j):
    K, v, Pf, dt = _coefs(base, c)
    return prop(Pf, v, K, dt)(i, j)


T.GHOST['xck'] = ip_guard(_xc)
T.GHOST['xsk'] = ip_guard(_xs)
T.GHOST['Pck'] = ip_guard(_Pc)
T.GHOST['ycp'] = lambda a, h: lin(lambda i: Xc(a[0], i))
T.GHOST['ysp'] = lambda a, h: lin(lambda i: Xs(a[0], i))
T.GHOST['cvp'] = lambda a, h: quad(lambda i, j: Pc(a[0], i, j)) + e(a[0]) * e(a[0])


def at_T(ex, o):
    ex.setf(o, 'state_vector_', afn('col', xT))
    ex.setf(o, 'PredictionVar_', afn('mat', PT))


def coefs(ex, o, c):
    """State after the coefficient step to observation c."""
    ex.setf(o, 'state_const_', afn('col', lambda i: Xc(c, i)))
    ex.setf(o, 'state_slope_', afn('col', lambda i: Xs(c, i)))
    ex.setf(o, 'PredictionVar_', afn('mat', lambda i, j: Pc(c, i, j)))
    ex.setf(o, 'yconst_', yc(c))
    ex.setf(o, 'yslope_', ys(c))
    ex.setf(o, 'var', ex.getf(o, 'var').set((c,), cv(c)))
    ex.setf(o, 'current_index_', c + 1)


def is_coefs(ex, o, c, fn, kind='post'):
    S = ex.oblig_same
    S('%s: state constant' % fn, ex.getf(o, 'state_const_'), afn('col', lambda i: Xc(c, i)), ex.pc, kind)
    S('%s: state slope' % fn, ex.getf(o, 'state_slope_'), afn('col', lambda i: Xs(c, i)), ex.pc, kind)
    S('%s: state covariance' % fn, ex.getf(o, 'PredictionVar_'), afn('mat', lambda i, j: Pc(c, i, j)), ex.pc, kind)
    S('%s: stationary covariance' % fn, ex.getf(o, 'StateVar_'), afn('mat', SV), ex.pc, kind)
    S('%s: rotated moving-average row' % fn, ex.getf(o, 'rotated_ma_coefs_'), afn('row', b), ex.pc, kind)
    ex.oblig('%s: constant' % fn, eq(ex.getf(o, 'yconst_'), yc(c)), kind)
    ex.oblig('%s: slope' % fn, eq(ex.getf(o, 'yslope_'), ys(c)), kind)
    ex.oblig('%s: variance' % fn, eq(ex.getf(o, 'var').get(c), cv(c)), kind)
    ex.oblig('%s: next index' % fn, eq(ex.getf(o, 'current_index_'), c + 1), kind)
    ex.oblig('%s: size of var kept' % fn, eq(ex.getf(o, 'var').n(), n), kind)


def u_initcoefsp():
    def body(ex):
        o = kfp_state(ex)
        rotated(ex, o)
        at_T(ex, o)
        ex.assume(And(ge(ip, 0), lt(ip, n), le(tt, t(ip))))
        old = dict(ex.store)
        ex.run_method('KalmanFilterp', 'InitializeCoefs', o, [tt, ip, mT(), vT()])

        def post(ex):
            is_coefs(ex, o, ip, 'InitializeCoefs')
            frame(ex, o, old, PARTS)
        return post
    return Unit('KalmanFilterp::InitializeCoefs', body, sampler=samplepp)


def u_updcoefsp():
    def body(ex):
        o = kfp_state(ex)
        c = Var('c', 'i')
        ex.assume(And(ge(ip, 0), lt(ip, c), lt(c, n)))
        rotated(ex, o)
        coefs(ex, o, c - 1)
        old = dict(ex.store)
        ex.run_method('KalmanFilterp', 'UpdateCoefs', o, [])

        def post(ex):
            is_coefs(ex, o, c, 'UpdateCoefs')
            frame(ex, o, old, PARTS)
        return post
    return Unit('KalmanFilterp::UpdateCoefs', body, sampler=samplepp)


def havoc_tmp(ex, o):
    ex.setf(o, 'kalman_gain_', ex.fresh_arr('h_gain', 'col', 'c', (p, ONE)))
    ex.setf(o, 'rho_', ex.fresh_arr('h_rho', 'col', 'c', (p, ONE)))


def c_initcoefsp(ex, o, args):
    time, it, ym, yv = args
    if not ex.quiet:
        k = 'pre'
        ex.oblig('InitializeCoefs called at the prediction time', eq(time, tt), k)
        ex.oblig('InitializeCoefs called at the first later observation', eq(it, ip), k)
        ex.oblig('InitializeCoefs called within the data', And(ge(it, 0), lt(it, n), le(time, t(it))), k)
        ex.oblig('InitializeCoefs called with the forward mean', eq(ym, mT()), k)
        ex.oblig('InitializeCoefs called with the forward variance', eq(yv, vT()), k)
        S = ex.oblig_same
        S('InitializeCoefs called with the forward state', ex.getf(o, 'state_vector_'), afn('col', xT), ex.pc, k)
        S('InitializeCoefs called with the forward covariance', ex.getf(o, 'PredictionVar_'), afn('mat', PT), ex.pc, k)
        S('InitializeCoefs called with the stationary covariance', ex.getf(o, 'StateVar_'), afn('mat', SV), ex.pc, k)
        S('InitializeCoefs called with the rotated row', ex.getf(o, 'rotated_ma_coefs_'), afn('row', b), ex.pc, k)
    coefs(ex, o, it)
    havoc_tmp(ex, o)


def c_updcoefsp(ex, o, args):
    c = ex.getf(o, 'current_index_')
    if not ex.quiet:
        ex.oblig('UpdateCoefs called within the data', And(lt(ip, c), lt(c, n)), 'pre')
        is_coefs(ex, o, c - 1, 'UpdateCoefs called after', 'pre')
    coefs(ex, o, c)
    havoc_tmp(ex, o)


CPP = dict(CP)
CPP.update({'KalmanFilterp::InitializeCoefs': c_initcoefsp, 'KalmanFilterp::UpdateCoefs': c_updcoefsp})


def u_predictp():
    def body(ex):
        o = kfp_state(ex)
        ip_facts(ex)
        old = dict(ex.store)
        r = ex.run_method('KalmanFilterp', 'Predict', o, [tt])

        def post(ex):
            mean, var = predict_spec(mT(), vT(), ys, yc, cv)
            ex.oblig('Predict: mean is the conditional mean given the whole series', eq(r.f['first'], mean))
            ex.oblig('Predict: variance is the conditional variance given the whole series', eq(r.f['second'], var))
            size_eq(ex, 'Predict: size of mean kept', ex.getf(o, 'mean'), n)
            size_eq(ex, 'Predict: size of var kept', ex.getf(o, 'var'), n)
            frame(ex, o, old, PARTS)
        return post
    return Unit('KalmanFilterp::Predict', body, CPP, sampler=samplepp, eqcands=['ip'])


def samplepp(val, rng):
    samplep(val, rng)
    from .kf import pick_T
    pick_T(val, rng)
