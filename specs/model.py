"""Contracts of the models (CAR1, CARp, CARMA, ZCAR, ZCARMA)."""
from vp.terms import *
from vp import terms as T
from vp.logic import entails
from vp.sym import *
from vp.arma import arr_key
from vp.verify import Unit

p, q, N = Var('p', 'i'), Var('q', 'i'), Var('N', 'i')
nth = Var('nth', 'i')
def th(i): return El('theta', i)


def theta(ln): return Arr.sym('theta', 'col', 'r', (ln, ONE))


def pair_posts(ex, fn, r, order, off, kind='post'):
    """Pairs 2i, 2i+1 of r are the roots of s^2 + exp(th(off+2i+1)) s + exp(th(off+2i)); the last one is -exp for odd order."""
    i = fresh('i', 'i')
    rng = [le(0, i), lt(2 * i + 1, order)]
    A, B = Exp(th(off + 2 * i)), Exp(th(off + 2 * i + 1))
    r1, r2 = r.get(2 * i), r.get(2 * i + 1)
    ex.oblig(fn + ': sum of a root pair is minus the linear coefficient', eq(r1 + r2, -B), kind, hyps=ex.pc + rng)
    ex.oblig(fn + ': product of a root pair is the constant coefficient', eq(r1 * r2, A), kind, hyps=ex.pc + rng)
    k = fresh('k', 'i')
    ex.oblig(fn + ': odd order: last root is minus the exponential of the last parameter', eq(r.get(order - 1), -Exp(th(off + order - 1))), kind,
             hyps=ex.pc + [eq(order, 2 * k + 1)])


def u_arroots():
    def body(ex):
        o = ObjV(('m',), 'CARp')
        ex.assume(ge(p, 2)); ex.assume(ge(nth, p + 3))
        ex.setf(o, 'p_', p)
        r = ex.run_method('CARp', 'ARRoots', o, [theta(nth)])

        def post(ex):
            ex.oblig('ARRoots: one root per order', eq(r.n(), p))
            pair_posts(ex, 'ARRoots', r, p, 3)
        return post
    return Unit('CARp::ARRoots', body, {})


# ------------------------------------------------------------------ variance (M05)
def al(i): return El('alpha', i, sort='c')
nr, nm = Var('nr', 'i'), Var('nm', 'i')


def acov(al, nr, mac, nm, dt):
    """Autocovariance for unit noise: sum over the roots of the residues times exp(root * lag)."""
    k, l, m = fresh('k', 'i'), fresh('l', 'i'), fresh('m', 'i')
    den = -2 * real(al(k)) * Prod(l, nr, Ite(eq(l, k), ONE, (al(l) - al(k)) * (conj(al(l)) + al(k))))
    num = Sum([(m, nm)], mac(m) * Pow(al(k), m)) * Sum([(m, nm)], mac(m) * Pow(-al(k), m))
    return real(Sum([(k, nr)], num * Exp(al(k) * dt) / den))


def u_variance():
    def body(ex):
        o = ObjV(('m',), 'CARp')
        ex.assume(ge(nr, 1)); ex.assume(ge(nm, 1))
        r = ex.run_method('CARp', 'Variance', o, [Arr.sym('alpha', 'col', 'c', (nr, ONE)), Arr.sym('mac', 'col', 'r', (nm, ONE)), Var('sigma'), Var('dt')])

        def post(ex):
            ex.oblig('Variance: noise variance times the residue sum', eq(r, Var('sigma') * Var('sigma') * acov(al, nr, lambda m: El('mac', m), nm, Var('dt'))))
        return post
    return Unit('CARp::Variance', body, {})


def u_unique():
    def body(ex):
        ex.assume(ge(nr, 1)); ex.assume(lt(0, Var('tol')))
        r = ex.run_function('unique_roots', [Arr.sym('alpha', 'col', 'c', (nr, ONE)), Var('tol')])

        def post(ex):
            i, j = fresh('i', 'i'), fresh('j', 'i')
            spec = Forall(i, nr, Forall(j, i, lt(Var('tol'), Abs((al(i) - al(j)) / (al(i) + al(j))))))
            ex.oblig('unique_roots: all pairs differ', Implies(tof(r), spec))
            ex.oblig('unique_roots: only those', Implies(spec, tof(r)))
        return post
    return Unit('unique_roots', body, {})


# ------------------------------------------------------------------ moving average (M04)
def rt(i): return El('roots', i, sort='c')
def qa(i): return El('qa', i)
def qb(i): return El('qb', i)
def ep(c, k): return App('ep', c, k, sort='c')       # coefficient of x^(c-k) in the product of (x - roots(j)), j < c
def cp(c, k): return App('cp', c, k)                 # coefficient of x^(2c-k) in the product of (x^2 + qb x + qa)


def _outside(c, k, deg, h):
    return Or(lt(k, 0), lt(deg, k)).kind == 'T' or isinstance(h, list) and entails(h, Or(lt(k, 0), lt(deg, k)))


def _ep(a, h):
    c, k = a
    if _outside(c, k, c, h):
        return ZERO
    if c.iszero():
        return Ite(eq(k, 0), ONE, ZERO)
    if c.const() is not None or isinstance(h, list) and entails(h, ge(c, 1)):
        return ep(c - 1, k) - rt(c - 1) * ep(c - 1, k - 1)


def _cp(a, h):
    c, k = a
    if _outside(c, k, 2 * c, h):
        return ZERO
    if c.iszero():
        return Ite(eq(k, 0), ONE, ZERO)
    if c.const() is not None or isinstance(h, list) and entails(h, ge(c, 1)):
        return cp(c - 1, k) + qb(c - 1) * cp(c - 1, k - 1) + qa(c - 1) * cp(c - 1, k - 2)


T.GHOST['ep'] = _ep
T.GHOST['cp'] = _cp
T.GHOST_STEP.update(['ep', 'cp'])


def u_polycoefs():
    def body(ex):
        i, k = fresh('i', 'i'), fresh('k', 'i')
        # the coefficients of products of linear and of quadratic factors agree
        pair = [le(0, i), eq(qa(i), rt(2 * i) * rt(2 * i + 1)), eq(qb(i), -rt(2 * i) - rt(2 * i + 1))]
        ex.oblig('polycoefs: linear and quadratic factors, base', eq(ep(ZERO, k), cp(ZERO, k)), 'lemma', [])
        ih = [eq(ep(2 * i, k - d), cp(i, k - d)) for d in (0, 1, 2)]
        ex.oblig('polycoefs: linear and quadratic factors, step', eq(ep(2 * i + 2, k), cp(i + 1, k)), 'lemma', pair + ih)
        # pairs of roots of real quadratics; even or odd number of roots
        odd = ex.choose(2)
        h = Var('h', 'i')
        ex.assume(ge(h, 0))
        nr = 2 * h + odd
        r = ex.run_function('polycoefs', [Arr.sym('roots', 'col', 'c', (nr, ONE))])

        def post(ex):
            k = fresh('k', 'i')
            rng = ex.pc + [le(0, k), le(k, nr)]
            ex.oblig('polycoefs: one more coefficient than roots', eq(r.n(), nr + 1))
            lem = [eq(ep(2 * h, k - d), cp(h, k - d)) for d in (0, 1)]
            if odd:
                ex.oblig('polycoefs: odd number of roots', eq(r.get(k), cp(h, k) + Var('qc') * cp(h, k - 1)),
                         hyps=rng + [eq(rt(2 * h), -Var('qc'))] + lem)
            else:
                ex.oblig('polycoefs: even number of roots', eq(r.get(k), cp(h, k)), hyps=rng + lem)
        return post

    def coefs(ex, kp, v0):
        return Arr(v0.kind, 'c', v0.dims, lambda ix: ep(kp, ix[0]))
    is_c = lambda nm, v: isinstance(v, Arr) and v.es == 'c' and v.kind == 'col' and len(v.dims) == 2 and v.get(ZERO, ZERO).const() == 1
    return Unit('polycoefs', body, {}, hints={('polycoefs', 0): {'match': [(is_c, coefs)]}})


def mpoly(k): return App('mpoly', k)        # coefficients, by decreasing power, of the polynomial with the given quadratic factors


def c_polycoefs(ex, o, args):
    r = args[0]
    ex.oblig('polycoefs called with one root per MA parameter', eq(r.n(), q), 'pre')
    pair_posts(ex, 'polycoefs called', r, q, 3 + p, 'pre')
    return Arr('col', 'r', (q + 1, ONE), lambda ix: mpoly(ix[0]))


def model(ex, cls):
    o = ObjV(('m',), cls)
    ex.objcls[o.id] = cls
    ex.init_fields(o)
    if cls != 'CAR1':
        ex.assume(ge(p, 2))
        ex.setf(o, 'p_', p)
    if cls == 'CARMA':
        ex.assume(And(ge(q, 1), lt(q, p)))
        ex.setf(o, 'q_', q)
    return o


LEN = {'CAR1': topoly(4), 'CARp': p + 3, 'ZCAR': p + 3, 'CARMA': p + q + 3, 'ZCARMA': p + 4}


def u_extractma():
    def body(ex):
        o = model(ex, 'CARMA')
        r = ex.run_method('CARMA', 'ExtractMA', o, [theta(LEN['CARMA'])])

        def post(ex):
            k = fresh('k', 'i')
            ex.oblig('ExtractMA: one coefficient per AR root', eq(r.n(), p))
            ex.oblig('ExtractMA: increasing powers, scaled by the constant term', eq(r.get(k) * mpoly(q), mpoly(q - k)), hyps=ex.pc + [le(0, k), le(k, q)])
            ex.oblig('ExtractMA: padded with zeros', eq(r.get(k), 0), hyps=ex.pc + [lt(q, k), lt(k, p)])
        return post
    return Unit('CARMA::ExtractMA', body, {'polycoefs': c_polycoefs})


def u_extractma_z():
    def body(ex):
        o = model(ex, 'ZCARMA')
        lo, hi = Var('klo'), Var('khi')
        ex.setf(o, 'kappa_low_', lo); ex.setf(o, 'kappa_high_', hi)
        r = ex.run_method('ZCARMA', 'ExtractMA', o, [theta(LEN['ZCARMA'])])

        def post(ex):
            k = fresh('k', 'i')
            kap = lo + (hi - lo) * Exp(th(3 + p)) / (1 + Exp(th(3 + p)))
            ex.oblig('ExtractMA: one coefficient per AR root', eq(r.n(), p))
            ex.oblig('ExtractMA: constant term one', eq(r.get(ZERO), 1))
            ex.oblig('ExtractMA: binomial over powers of kappa', eq(r.get(k) * Pow(kap, k), App('binom', p - 1, k)), hyps=ex.pc + [le(1, k), lt(k, p)])
        return post
    return Unit('ZCARMA::ExtractMA', body, {}, functions=['ZCARMA::ExtractMA', 'inv_logit'])


def u_extract_small():
    """The short extractors: CAR(1) rate, CAR(p) roots and MA coefficients."""
    def body(ex):
        o1, op = model(ex, 'CAR1'), ObjV(('mp',), 'CARp')
        ex.objcls[op.id] = 'CARp'
        ex.init_fields(op)
        ex.assume(And(ge(p, 2), ge(nth, p + 3)))
        ex.setf(op, 'p_', p)
        ex.setf(op, 'ma_coefs_', Arr.sym('mac', 'col', 'r', (p, ONE)))
        w = ex.run_method('CAR1', 'ExtractAR', o1, [theta(4)])
        r = ex.run_method('CARp', 'ExtractAR', op, [theta(nth)])
        m = ex.run_method('CARp', 'ExtractMA', op, [theta(nth)])

        def post(ex):
            ex.oblig('ExtractAR: rate is the exponential of the last parameter', eq(w, Exp(th(3))))
            ex.oblig_same('ExtractAR: the AR roots', r, roots(ex, theta(nth)), ex.pc, 'post')
            ex.oblig_same('ExtractMA: the stored coefficients', m, Arr.sym('mac', 'col', 'r', (p, ONE)), ex.pc, 'post')
        return post
    return Unit('CARp::ExtractAR', body, {'CARp::ARRoots': c_arroots}, functions=['CAR1::ExtractAR', 'CARp::ExtractAR', 'CARp::ExtractMA'])


def roots(ex, t):
    """The AR roots of a parameter vector (what the contract of ARRoots determines up to order within a pair)."""
    k = arr_key(t)
    return Arr('col', 'c', (p, ONE), lambda ix: App('arroot', k, ix[0], sort='c'))


def c_arroots(ex, o, args):
    ex.oblig('ARRoots called with at least p+3 parameters', ge(args[0].n(), p + 3), 'pre')
    return roots(ex, args[0])


def unit_acov(r, m, lag): return App('acov', arr_key(r), arr_key(m), lag)


def c_variance(ex, o, args):
    r, m, sigma = args[:3]
    return sigma * sigma * unit_acov(r, m, args[3] if len(args) > 3 else ZERO)


def u_sigsqr(cls='CARp'):
    def body(ex):
        o = model(ex, cls)
        ex.setf(o, 'ma_coefs_', Arr.sym('mac', 'col', 'r', (p, ONE))) if cls != 'CAR1' else None
        t = theta(LEN[cls])
        r = ex.run_method(cls, 'ExtractSigsqr', o, [t])

        def post(ex):
            if cls == 'CAR1':
                ex.oblig('ExtractSigsqr: stationary variance is the squared first parameter', eq(r / (2 * Exp(th(3))), th(0) * th(0)))
            else:
                m = Arr.sym('mac' if cls == 'CARp' else 'mat', 'col', 'r', (p, ONE))
                ex.oblig('ExtractSigsqr: stationary variance is the squared first parameter',
                         eq(r * unit_acov(roots(ex, t), m, ZERO), th(0) * th(0)))
        return post
    C = {'CARp::ARRoots': c_arroots, 'CARp::Variance': c_variance}
    if cls in ('CARMA', 'ZCARMA'):
        def c_ma(ex, o, args):
            ex.oblig_same('ExtractMA called with the parameters', args[0], theta(LEN[cls]), ex.pc, 'pre')
            return Arr.sym('mat', 'col', 'r', (p, ONE))
        C[cls + '::ExtractMA'] = c_ma
    return Unit(cls + '::ExtractSigsqr', body, C)


def u_sigsqr_1(): return u_sigsqr('CAR1')
def u_sigsqr_q(): return u_sigsqr('CARMA')
def u_sigsqr_z(): return u_sigsqr('ZCARMA')


# ------------------------------------------------------------------ prior (M02)
MAXS, MAXF, MINF = Var('maxs'), Var('maxf'), Var('minf')


def bounds(ex, o):
    ex.setf(o, 'max_stdev_', MAXS); ex.setf(o, 'max_freq_', MAXF); ex.setf(o, 'min_freq_', MINF)


def common(t): return And(le(0, t(0)), le(t(0), MAXS), le(Fraction(1, 2), t(1)), le(t(1), 2))


def u_bounds1():
    def body(ex):
        o = model(ex, 'CAR1')
        bounds(ex, o)
        r = ex.run_method('CAR1', 'CheckPriorBounds', o, [theta(4)])

        def post(ex):
            spec = And(common(th), le(Exp(th(3)), MAXF), le(MINF, Exp(th(3))))
            ex.oblig('CheckPriorBounds: inside implies accepted', Implies(spec, tof(r)))
            ex.oblig('CheckPriorBounds: accepted implies inside', Implies(tof(r), spec))
        return post
    return Unit('CAR1::CheckPriorBounds', body, {})


def c_unique(ex, o, args):
    ex.oblig_same('unique_roots called on the AR roots', args[0], Arr.sym('alpha', 'col', 'c', (p, ONE)), ex.pc, 'pre')
    ex.oblig('unique_roots called with the tolerance', eq(args[1], Fraction('1e-4')), 'pre')
    return Pred('roots_differ')


def c_ar(ex, o, args):
    ex.oblig_same('ExtractAR called with the parameters', args[0], theta(nth), ex.pc, 'pre')
    return Arr.sym('alpha', 'col', 'c', (p, ONE))


def u_bounds():
    def body(ex):
        o = model(ex, 'CARp')
        ex.assume(ge(nth, p + 3))
        bounds(ex, o)
        ex.setf(o, 'ignore_prior_', Pred('ignore'))
        ex.setf(o, 'order_lorentzians_', TRUE)
        r = ex.run_method('CARp', 'CheckPriorBounds', o, [theta(nth)])

        def post(ex):
            i = fresh('i', 'i')
            pi = T.PI
            cent = lambda i: Abs(imag(al(i))) / (2 * pi)
            width = lambda i: -real(al(i)) / (2 * pi)
            spec = Or(Pred('ignore'), And(
                common(th), Pred('roots_differ'),
                Forall(i, p, And(lt(cent(i), MAXF), lt(width(i), MAXF), lt(MINF, width(i)))),
                Forall(i, p - 1, le(cent(i + 1) - cent(i), Fraction('1e-8')))))
            ex.oblig('CheckPriorBounds: inside implies accepted', Implies(spec, tof(r)))
            ex.oblig('CheckPriorBounds: accepted implies inside', Implies(tof(r), spec))
        return post
    return Unit('CARp::CheckPriorBounds', body, {'unique_roots': c_unique, 'CARp::ExtractAR': c_ar})


def u_setprior(cls='CARp'):
    base = {'CAR1': 'CARMA_Base<double>'}.get(cls, 'CARMA_Base<arma::Col<std::complex<double>>>')

    def body(ex):
        o = model(ex, cls)
        ex.assume(ge(N, 2))
        t = lambda i: El('time', i)
        ex.setf(o, 'time_', Arr.sym('time', 'col', 'r', (N, ONE)))
        i = fresh('i', 'i')
        ex.assume(Forall(i, N - 1, lt(t(i), t(i + 1))))
        ex.run_method(base, 'SetPrior', o, [MAXS])

        def post(ex):
            i = fresh('i', 'i')
            ex.oblig('SetPrior: largest deviation stored', eq(ex.getf(o, 'max_stdev_'), MAXS))
            ex.oblig('SetPrior: highest frequency is one over the smallest step',
                     eq(ex.getf(o, 'max_freq_') * MinOver(i, N - 1, t(i + 1) - t(i)), 1))
            ex.oblig('SetPrior: lowest frequency is one over the span', eq(ex.getf(o, 'min_freq_') * (MaxOver(i, N, t(i)) - MinOver(i, N, t(i))), 1))
        return post
    return Unit(base + '::SetPrior', body, {})


def u_setprior_1(): return u_setprior('CAR1')


# ------------------------------------------------------------------ construction
CXB = 'CARMA_Base<arma::Col<std::complex<double>>>'
BASEOF = lambda cls: 'CARMA_Base<double>' if cls == 'CAR1' else CXB
FILTER = lambda cls: 'KalmanFilter1' if cls == 'CAR1' else 'KalmanFilterp'
def tm(i): return El('time', i)
def yv(i): return El('y', i)
def er(i): return El('yerr', i)


def increasing(ex):
    i = fresh('i', 'i')
    ex.assume(ge(N, 2))
    ex.assume(Forall(i, N - 1, lt(tm(i), tm(i + 1))))


def c_init_sorted(ex, o, args):
    """init on data whose times already increase: data kept, steps and result arrays set (proved under F06)."""
    for f, a in (('time_', 'time'), ('y_', 'y'), ('yerr_', 'yerr')):
        ex.oblig_same('filter built from the model data (%s)' % f, ex.getf(o, f), Arr.sym(a, 'col', 'r', (N, ONE)), ex.pc, 'pre')
    ex.setf(o, 'dt_', Arr('col', 'r', (N - 1, ONE), lambda ix: tm(ix[0] + 1) - tm(ix[0])))
    for f in ('mean', 'var'):
        ex.setf(o, f, Arr.const('col', 'r', (N, ONE), 0))


def u_ctor(cls='CARp'):
    def body(ex):
        increasing(ex)
        args = [Arr.sym(a, 'vec', 'r', (N,)) for a in ('time', 'y', 'yerr')]
        o = ex.new_obj(cls)
        ex.init_fields(o)
        extra = []
        if cls != 'CAR1':
            ex.assume(ge(p, 2))
            extra = [p]
        if cls == 'CARMA':
            ex.assume(And(ge(q, 0), lt(q, p)))
            extra += [q]
        track = Pred('track')
        temp = Var('temp')
        ms = [m for m in ex.prog.classes[cls]['methods'].get(cls, []) if len(ex.prog._params(m)) == 6 + len(extra)]
        if len(ms) != 1:
            raise Unsupported('constructor of %s' % cls)
        ex.call(ex.prog.definition(ms[0]['id']), o, [track, Opaque('str', ('name',))] + [ex.temp(a) for a in args] + extra + [temp])

        def post(ex):
            for f, a in (('time_', 'time'), ('y_', 'y'), ('yerr_', 'yerr')):
                ex.oblig_same('constructor: %s holds the given data' % f, ex.getf(o, f), Arr.sym(a, 'col', 'r', (N, ONE)), ex.pc, 'post')
            ex.oblig('constructor: priors are used', Not(tof(ex.getf(o, 'ignore_prior_'))))
            ex.oblig('constructor: 50 degrees of freedom', eq(ex.getf(o, 'measerr_dof_'), 50))
            ex.oblig('constructor: temperature stored', eq(ex.getf(o, 'temperature_'), temp))
            i = fresh('i', 'i')
            step = MinOver(i, N - 1, tm(i + 1) - tm(i))
            ex.oblig('constructor: highest frequency', eq(ex.getf(o, 'max_freq_') * step, 1))
            ex.oblig('constructor: lowest frequency', eq(ex.getf(o, 'min_freq_') * (MaxOver(i, N, tm(i)) - MinOver(i, N, tm(i))), 1))
            if cls == 'CAR1':
                return
            k = fresh('k', 'i')
            ex.oblig('constructor: order stored', eq(ex.getf(o, 'p_'), p))
            ex.oblig('constructor: centroids are ordered', tof(ex.getf(o, 'order_lorentzians_')))
            mac = ex.getf(o, 'ma_coefs_')
            ex.oblig('constructor: one MA coefficient per AR root', eq(mac.n(), p))
            ex.oblig('constructor: constant MA coefficient is one', eq(mac.get(ZERO), 1))
            rng = ex.pc + [le(1, k), lt(k, p)]
            if cls == 'ZCAR':
                ex.oblig('constructor: MA coefficients are binomial over powers of one over the smallest step',
                         eq(mac.get(k), App('binom', p - 1, k) * Pow(step, k)), hyps=rng)
            else:
                ex.oblig('constructor: other MA coefficients are zero', eq(mac.get(k), 0), hyps=rng)
            if cls == 'CARMA':
                ex.oblig('constructor: MA order stored', eq(ex.getf(o, 'q_'), q))
            if cls == 'ZCARMA':
                ex.oblig('constructor: upper kappa bound', eq(ex.getf(o, 'kappa_high_') * step, 1))
            ex.oblig('constructor: size of the parameter vector', eq(ex.getf(o, 'value_').n(), LEN[cls]))
            kf = ex.val(ex.getf(o, 'pKFilter_'))
            km = ex.getf(kf, 'ma_coefs_')
            ex.oblig('constructor: the filter has the MA coefficients', eq(km.get(ZERO, k) if km.kind == 'row' else km.get(k), mac.get(k)), hyps=ex.pc + [le(0, k), lt(k, p)])
        return post
    C = {b + '::init': c_init_sorted for b in ('KalmanFilter<double>', 'KalmanFilter<arma::Col<std::complex<double>>>')}
    return Unit('%s::%s' % (cls, cls), body, C, functions=['%s::%s' % (cls, cls), BASEOF(cls) + '::CARMA_Base'])


def u_ctor_1(): return u_ctor('CAR1')
def u_ctor_q(): return u_ctor('CARMA')
def u_ctor_zc(): return u_ctor('ZCAR')
def u_ctor_z(): return u_ctor('ZCARMA')


# ------------------------------------------------------------------ log-posterior (M01)
def fm(i): return El('fmean', i)
def fv(i): return El('fvar', i)
def colN(a): return Arr.sym(a, 'col', 'r', (N, ONE))


def ready(ex, cls):
    """A constructed model with its filter, in any later state; the times increase."""
    o = model(ex, cls)
    increasing(ex)
    for f, a in (('time_', 'time'), ('y_', 'y'), ('yerr_', 'yerr')):
        ex.setf(o, f, colN(a))
    bounds(ex, o)
    ex.setf(o, 'measerr_dof_', topoly(50))
    ex.setf(o, 'ignore_prior_', Pred('ignore'))
    ex.setf(o, 'value_', Arr.sym('stored', 'col', 'r', (LEN[cls], ONE)))
    ex.setf(o, 'log_posterior_', Var('storedlp'))
    ex.setf(o, 'temperature_', Var('temp'))
    k = ObjV(('kf',), FILTER(cls))
    ex.objcls[k.id] = k.cls
    ex.init_fields(k)
    ex.setf(k, 'time_', colN('time'))
    ex.setf(k, 'dt_', Arr('col', 'r', (N - 1, ONE), lambda ix: tm(ix[0] + 1) - tm(ix[0])))
    for f, a in (('y_', 'oldy'), ('yerr_', 'oldyerr'), ('mean', 'oldmean'), ('var', 'oldvar')):
        ex.setf(k, f, colN(a))
    ex.setf(k, 'sigsqr_', Var('oldsigsqr'))
    if cls == 'CAR1':
        ex.setf(k, 'omega_', Var('oldomega'))
    else:
        ex.setf(k, 'p_', p)
        ex.setf(k, 'omega_', Arr.sym('oldomega', 'col', 'c', (p, ONE)))
        ex.setf(k, 'ma_coefs_', Arr.sym('oldma', 'row', 'r', (ONE, p)))
        ex.setf(o, 'ma_coefs_', Arr.sym('mac', 'col', 'r', (p, ONE)))
        for f in ('state_vector_', 'kalman_gain_', 'rho_', 'state_const_', 'state_slope_'):
            ex.setf(k, f, Arr.sym('old' + f, 'col', 'c', (p, ONE)))
        ex.setf(k, 'rotated_ma_coefs_', Arr.sym('oldrot', 'row', 'c', (ONE, p)))
        for f in ('StateVar_', 'PredictionVar_'):
            ex.setf(k, f, Arr.sym('old' + f, 'mat', 'c', (p, p)))
    ex.setf(o, 'pKFilter_', k)
    return o, k


INF = Var('inf')         # arma::datum::inf


def the_ar(cls):
    return Var('omega') if cls == 'CAR1' else Arr.sym('alpha', 'col', 'c', (p, ONE))


def the_ma(cls):
    return Arr.sym('mat', 'col', 'r', (ONE if cls == 'CAR1' else p, ONE))


def c_extract(cls, what, value):
    def c(ex, o, args):
        ex.oblig_same('%s called with the parameters' % what, args[0], theta(LEN[cls]), ex.pc, 'pre')
        return value
    return c


def filter_at(ex, k, cls, t, sig, ar, mac, kind):
    """The filter holds the centred data, scaled errors and parameters of the vector t."""
    ob = lambda nm, a, b: ex.oblig_same('filter run with ' + nm, a, b, ex.pc, kind)
    ob('the noise variance', ex.getf(k, 'sigsqr_'), sig)
    ob('the AR parameters', ex.getf(k, 'omega_'), ar)
    if cls != 'CAR1':
        m = ex.getf(k, 'ma_coefs_')
        ob('the MA coefficients', Arr('col', 'r', (m.n(), ONE), lambda ix: m.get(ZERO, ix[0]) if m.kind == 'row' else m.get(ix[0])), mac)
    ob('the observation times', ex.getf(k, 'time_'), colN('time'))
    ob('the centred values', ex.getf(k, 'y_'), Arr('col', 'r', (N, ONE), lambda ix: yv(ix[0]) - t(2)))
    ob('the scaled errors', ex.getf(k, 'yerr_'), Arr('col', 'r', (N, ONE), lambda ix: Sqrt(t(1)) * er(ix[0])))


THREW = ('G', 'filter threw')


def c_filter(cls):
    def c(ex, k, args):
        filter_at(ex, k, cls, th, Var('sigsqr'), the_ar(cls), the_ma(cls), 'pre')
        if ex.choose(2):
            ex.store[THREW] = TRUE
            raise ThrowEx(Opaque('runtime_error'))
        ex.setf(k, 'mean', colN('fmean'))
        ex.setf(k, 'var', colN('fvar'))
    return c


def loglik(mu):
    i = fresh('i', 'i')
    r = yv(i) - fm(i) - mu
    return Sum([(i, N)], -T.Log(fv(i)) / 2 - r * r / fv(i) / 2)


def u_logdensity(cls='CARp'):
    base = BASEOF(cls)

    def body(ex):
        o, k = ready(ex, cls)
        ex.assume(ge(Var('sigsqr'), 0))
        ex.store[THREW] = FALSE
        before = {f: ex.getf(o, f) for f in ('value_', 'log_posterior_', 'time_', 'y_', 'yerr_')}
        r = ex.run_method(base, 'LogDensity', o, [theta(LEN[cls])])

        def post(ex):
            inside = Pred('inside')
            ninf = -INF
            if not entails(ex.pc, inside):
                ex.oblig('LogDensity: minus infinity outside the bounds', eq(r, ninf), hyps=ex.pc + [Not(inside)])
            if entails(ex.pc, Not(inside)):
                pass
            elif ex.store[THREW].kind == 'T':
                ex.oblig('LogDensity: minus infinity when the filter cannot be run', eq(r, ninf))
            else:
                ex.oblig('LogDensity: sum of Gaussian log-densities plus log-prior', eq(r, loglik(th(2)) + Var('logprior')), hyps=ex.pc + [inside])
            for f, v in before.items():
                ex.oblig_same('LogDensity: %s unchanged' % f, ex.getf(o, f), v, ex.pc, 'post')
        return post
    C = {'*::CheckPriorBounds': c_extract(cls, 'CheckPriorBounds', Pred('inside')),
         '*::ExtractAR': c_extract(cls, 'ExtractAR', the_ar(cls)), '*::ExtractMA': c_extract(cls, 'ExtractMA', the_ma(cls)),
         '*::ExtractSigsqr': c_extract(cls, 'ExtractSigsqr', Var('sigsqr')), '*::LogPrior': c_extract(cls, 'LogPrior', Var('logprior')),
         '*::Filter': c_filter(cls)}
    return Unit(base + '::LogDensity', body, C)


def u_logdensity_1(): return u_logdensity('CAR1')


def u_logprior(cls='CARp'):
    base = cls if cls == 'ZCARMA' else BASEOF(cls)

    def body(ex):
        o = model(ex, cls)
        ex.setf(o, 'measerr_dof_', topoly(50))
        ex.assume(gt(th(1), 0))
        r = ex.run_method(base, 'LogPrior', o, [theta(LEN[cls])])

        def post(ex):
            # density of the scaled inverse chi-square with 50 degrees of freedom and scale one, up to its constant
            spec = -25 / th(1) - 26 * T.Log(th(1))
            if cls == 'ZCARMA':
                x = th(p + 3)       # logistic density of the logit
                spec = spec - x - 2 * T.Log(1 + Exp(-x))
            ex.oblig('LogPrior: density of the error scale' + (' and Jacobian of kappa' if cls == 'ZCARMA' else ''), eq(r, spec))
        return post
    return Unit(base + '::LogPrior', body, {})


def u_logprior_1(): return u_logprior('CAR1')
def u_logprior_z(): return u_logprior('ZCARMA')


def u_wrappers(cls='CARp'):
    base = BASEOF(cls)

    def body(ex):
        o = model(ex, cls)
        v = Arr.sym('theta', 'vec', 'r', (LEN[cls],))
        a = ex.run_method(base, 'getLogDensity', o, [v])
        b = ex.run_method(base, 'getLogPrior', o, [v])

        def post(ex):
            ex.oblig('getLogDensity: the log-posterior', eq(a, Var('logdens')))
            ex.oblig('getLogPrior: the log-prior', eq(b, Var('logprior')))
        return post
    return Unit(base + '::getLogDensity', body, {'*::LogDensity': c_extract(cls, 'LogDensity', Var('logdens')), '*::LogPrior': c_extract(cls, 'LogPrior', Var('logprior'))},
                functions=[base + '::getLogDensity', base + '::getLogPrior'])


def u_wrappers_1(): return u_wrappers('CAR1')


# ------------------------------------------------------------------ starting values (M06)
LDT, LDV, AT = ('G', 'evaluated at'), ('G', 'log-posterior there'), ('G', 'filter evaluated there')


def c_ld(cls):
    """LogDensity leaves the filter evaluated at its argument when the result is finite (from its contract)."""
    def c(ex, o, args):
        v = ex.fresh('ld')
        a = args[0]
        ex.store[LDT] = Arr('col', 'r', a.dims, lambda ix, a=a: a.get(*ix))
        ex.store[LDV] = v
        ex.store[AT] = TRUE
        return v
    return c


def c_touch(ex, k, args):
    ex.store[AT] = FALSE


def c_pos(ex, o, args):
    v = ex.fresh('draw')
    ex.assume(lt(0, v))
    return v


def c_any(ex, o, args): return ex.fresh('draw')


def c_unit(ex, o, args):
    v = ex.fresh('draw')
    lo, hi = [ex.val(a) for a in args] if len(args) == 2 else (ZERO, ONE)
    if entails(ex.pc, lt(lo, hi)):
        ex.assume(And(lt(lo, v), lt(v, hi)))
    return v


def c_startar(ex, o, args): return Arr.sym('loga%s' % next(ex.nfresh), 'col', 'r', (p, ONE))
def c_startma(ex, o, args): return Arr.sym('logb%s' % next(ex.nfresh), 'col', 'r', (q, ONE))
def c_mafresh(ex, o, args): return Arr.sym('mafresh%s' % next(ex.nfresh), 'col', 'r', (p, ONE))


def start_posts(ex, t, cls):
    ld = ex.store[LDT]
    i = fresh('i', 'i')
    out = [('right length', eq(t.n(), LEN[cls])),
           ('finite log-posterior', Pred('Fin', ex.store[LDV])),
           ('log-posterior evaluated at the value', And(eq(ld.n(), t.n()), Forall(i, LEN[cls], eq(ld.get(i), t.get(i))))),
           ('error scale strictly inside', And(lt(Fraction(1, 2), t.get(1)), lt(t.get(1), 2))),
           ('positive deviation', lt(0, t.get(0))),
           ('filter evaluated at the value', ex.store[AT])]
    return out


def starts(ex, cls):
    """The parameter vector under construction: the local real vector of full length."""
    f = ex.frames[-1].id
    c = [l for l, v in ex.store.items() if l[0] == 'L' and l[1] == f and isinstance(v, Arr) and v.kind == 'col' and v.es == 'r' and v.dims[0] == LEN[cls]]
    if len(c) != 1:
        raise Unsupported('parameter vector in StartingValue')
    return ex.store[c[0]]


SETTERS = ['SetSigsqr', 'SetOmega', 'SetMA', 'SetTimeSeriesErr', 'SetTimeSeries', 'SetTime', 'Filter']
DRAWS = {'RandomGenerator::scaled_inverse_chisqr': c_pos, 'RandomGenerator::normal': c_any, 'RandomGenerator::uniform': c_unit}


def u_start(cls='CARp'):
    def body(ex):
        o, k = ready(ex, cls)
        ex.store[LDT], ex.store[LDV], ex.store[AT] = Arr.sym('before', 'col', 'r', (LEN[cls], ONE)), Var('ldbefore'), FALSE
        r = ex.run_method(cls, 'StartingValue', o, [])

        def post(ex):
            for nm, f in start_posts(ex, r, cls):
                ex.oblig('StartingValue: ' + nm, f)
        return post
    C = dict(DRAWS)
    C.update({'*::' + s: c_touch for s in SETTERS})
    C.update({'*::LogDensity': c_ld(cls), 'CARp::StartingAR': c_startar, 'CARMA::StartingMA': c_startma, 'CARp::ARRoots': c_arroots,
              'CARp::Variance': c_variance, '*::ExtractMA': c_mafresh, '*::ExtractAR': c_arroots})
    return Unit(cls + '::StartingValue', body, C, hints={(cls + '::StartingValue', 0): {'inv': lambda ex: start_posts(ex, starts(ex, cls), cls)}})


def u_start_q(): return u_start('CARMA')
def u_start_z(): return u_start('ZCARMA')


KFIELDS = ['sigsqr_', 'omega_', 'ma_coefs_', 'time_', 'y_', 'yerr_']


def c_filter_run(ex, k, args):
    """Filter: its results belong to the parameters and data held when it ran."""
    for f in KFIELDS:
        if f != 'ma_coefs_' or k.cls != 'KalmanFilter1':
            ex.store[('G', 'filtered', f)] = ex.getf(k, f)


def own_ma(cls):
    return Arr.sym('mac' if cls == 'CARp' else 'mat', 'col', 'r', (p, ONE))


def at_fields(ex, cls, t):
    """Filter parameters and data that belong to the vector t."""
    tf = lambda i: t.get(topoly(i))
    if cls == 'CAR1':
        sig, ar = 2 * tf(0) * tf(0) * Exp(tf(3)), Exp(tf(3))
    else:
        ar = roots(ex, t)
        sig = tf(0) * tf(0) / unit_acov(ar, own_ma(cls), ZERO)
    r = {'sigsqr_': sig, 'omega_': ar, 'time_': colN('time'),
         'y_': Arr('col', 'r', (N, ONE), lambda ix: yv(ix[0]) - tf(2)),
         'yerr_': Arr('col', 'r', (N, ONE), lambda ix: Sqrt(tf(1)) * er(ix[0]))}
    if cls != 'CAR1':
        r['ma_coefs_'] = own_ma(cls)
    return r


def at_theta(ex, k, cls, t, kind, what):
    """The filter was last run with the parameters and centred data of the vector t."""
    for f, w in at_fields(ex, cls, t).items():
        v = ex.store.get(('G', 'filtered', f))
        if v is None:
            ex.oblig(what + ': filter run', FALSE, kind)
            return
        if f == 'ma_coefs_':
            v = Arr('col', 'r', (v.n(), ONE), lambda ix, v=v: v.get(ZERO, ix[0]) if v.kind == 'row' else v.get(ix[0]))
        ex.oblig_same('%s: filter run with %s of the vector' % (what, f), v, w, ex.pc, kind)


def u_start_1():
    def body(ex):
        o, k = ready(ex, 'CAR1')
        ex.assume(lt(0, MAXF))
        r = ex.run_method('CAR1', 'StartingValue', o, [])

        def post(ex):
            ex.oblig('StartingValue: right length', eq(r.n(), 4))
            ex.oblig('StartingValue: error scale strictly inside', And(lt(Fraction(1, 2), r.get(1)), lt(r.get(1), 2)))
            ex.oblig('StartingValue: positive deviation', lt(0, r.get(0)))
            at_theta(ex, k, 'CAR1', r, 'post', 'StartingValue')
        return post
    C = dict(DRAWS)
    C['*::Filter'] = c_filter_run
    return Unit('CAR1::StartingValue', body, C)


def u_setstart(cls='CARp'):
    ma = {'CARp': 0, 'CAR1': 0}.get(cls, 1)

    def c_ld(ex, o, args):
        ex.oblig_same('LogDensity called with the given vector', args[0], theta(nth), ex.pc, 'pre')
        # a vector with a finite density has had the filter run at it
        k = ex.val(ex.getf(o, 'pKFilter_'))
        for f, w in at_fields(ex, cls, theta(nth)).items():
            if f == 'ma_coefs_':
                w = Arr('row', 'r', (ONE, w.n()), lambda ix, w=w: w.get(ix[1]))
            ex.setf(k, f, w)
            ex.store[('G', 'filtered', f)] = w
        return Var('ld')

    def c_start(ex, o, args):
        return Arr.sym('generated', 'col', 'r', (LEN[cls], ONE))

    def body(ex):
        o, k = ready(ex, cls)
        ex.assume(ge(nth, 0))
        ex.assume(ge(th(1), 0))
        good = And(eq(nth, LEN[cls]), Pred('Fin', Var('ld')))
        r = ex.run_method(cls, 'SetStartingValue', o, [theta(nth)])

        def post(ex):
            gen = any(a.kind == 'el' and a.args[0] == 'generated' for a in all_atoms(r.get(ZERO)).values())
            if gen:
                ex.oblig('SetStartingValue: a good vector is not replaced', Not(good))
                ex.oblig_same('SetStartingValue: otherwise the generated value', r, c_start(ex, o, []), ex.pc, 'post')
            else:
                ex.oblig('SetStartingValue: only good vectors are kept', good)
                ex.oblig_same('SetStartingValue: vector unchanged', r, theta(nth), ex.pc, 'post')
                at_theta(ex, k, cls, theta(nth), 'post', 'SetStartingValue')
        return post
    C = {'*::LogDensity': c_ld, cls + '::StartingValue': c_start, '*::Filter': c_filter_run, 'CARp::ARRoots': c_arroots, 'CARp::Variance': c_variance}
    if ma:
        def c_ma(ex, o, args):
            ex.oblig_same('ExtractMA called with the given vector', args[0], theta(nth), ex.pc, 'pre')
            return Arr.sym('mat', 'col', 'r', (p, ONE))
        C[cls + '::ExtractMA'] = c_ma
    return Unit(cls + '::SetStartingValue', body, C)


def u_setstart_1(): return u_setstart('CAR1')
def u_setstart_q(): return u_setstart('CARMA')
def u_setstart_z(): return u_setstart('ZCARMA')


def u_startar():
    def body(ex):
        o, k = ready(ex, 'CARp')
        r = ex.run_method('CARp', 'StartingAR', o, [])

        def post(ex):
            ex.oblig('StartingAR: one value per AR parameter', eq(r.n(), p))
        return post
    return Unit('CARp::StartingAR', body, {'RandomGenerator::uniform': c_unit})


def u_startma():
    def body(ex):
        o, k = ready(ex, 'CARMA')
        r = ex.run_method('CARMA', 'StartingMA', o, [])

        def post(ex):
            ex.oblig('StartingMA: one value per MA parameter', eq(r.n(), q))
        return post
    return Unit('CARMA::StartingMA', body, {})


def u_startkappa():
    def body(ex):
        o, k = ready(ex, 'ZCARMA')
        r = ex.run_method('ZCARMA', 'StartingKappa', o, [])

        def post(ex):
            ex.oblig('StartingKappa: inside the unit interval', And(lt(0, r), lt(r, 1)))
        return post
    return Unit('ZCARMA::StartingKappa', body, {'RandomGenerator::uniform': c_unit})
