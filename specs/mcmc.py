"""Contracts of the MCMC machinery: steps, sampler, proposals, random variates, drivers."""
from vp.terms import *
from vp import terms as T
from vp.logic import entails
from vp.sym import *
from vp.arma import arr_key
from vp import ieee
from vp.verify import Unit

# ---------------------------------------------------------------- rank-one update of a Cholesky factor

n = Var('n', 'i')
sg = Var('sg')          # +1 update, -1 downdate


def R(i, j): return El('R', topoly(i), topoly(j))
def cv(k, j): return mk_app('cvec', (topoly(k), topoly(j)), 'r')
def rk(k): return Sqrt(R(k, k) * R(k, k) + sg * cv(k, k) * cv(k, k))


def _cv(a, h):
    """The remaining vector after k rows: (R_kk v_j - v_k R_kj) / r_k to the right of the diagonal."""
    k, j = a
    if k.iszero():
        return El('v', j)
    if k.const() is not None or isinstance(h, list) and entails(h, ge(k, 1)):
        m = k - 1
        return Ite(lt(m, j), (R(m, m) * cv(m, j) - cv(m, m) * R(m, j)) / rk(m), cv(m, j))


T.GHOST['cvec'] = _cv
T.GHOST_STEP.add('cvec')


def newR(i, j):
    return Ite(eq(i, j), rk(i), Ite(lt(i, j), (R(i, i) * R(i, j) + sg * cv(i, i) * cv(i, j)) / rk(i), R(i, j)))


def u_chol():
    def body(ex):
        down = ex.choose(2)
        ex.assume(eq(sg, -1 if down else 1))
        ex.assume(ge(n, 1))
        a, b, m = fresh('a', 'i'), fresh('b', 'i'), fresh('m', 'i')
        L = ex.temp(Arr.sym('R', 'mat', 'r', (n, n)))
        v = ex.temp(Arr.sym('v', 'col', 'r', (n, ONE)))
        ex.run_function('CholUpdateR1', [L, v, TRUE if down else FALSE])

        def post(ex):
            W = ex.val(L)
            ex.oblig('CholUpdateR1: same size', And(eq(W.dims[0], n), eq(W.dims[1], n)))
            rng = ex.pc + [le(0, a), lt(a, n), le(0, b), lt(b, n), le(0, m), lt(m, n)]
            w = lambda i, j: W.get(topoly(i), topoly(j))
            ex.oblig('CholUpdateR1: nothing written below the diagonal', eq(w(a, b), R(a, b)), hyps=rng + [lt(b, a)])
            # rows i < m of new and old factor differ in their Gram matrix by the change of the remaining vector;
            # induction on m gives the Gram matrices of the first a rows, the last equation adds row a
            gain = lambda i: w(i, a) * w(i, b) - R(i, a) * R(i, b)
            ex.oblig('CholUpdateR1: one row changes the Gram matrix by the change of vv\'',
                     eq(gain(m), sg * (cv(m, a) * cv(m, b) - cv(m + 1, a) * cv(m + 1, b))), hyps=rng + [lt(m, a), lt(m, b)])
            ex.oblig('CholUpdateR1: diagonal row takes what is left', eq(gain(a), sg * cv(a, a) * cv(a, b)), hyps=rng + [le(a, b)])
            ex.oblig('CholUpdateR1: diagonal', eq(w(a, a) * w(a, a), R(a, a) * R(a, a) + sg * cv(a, a) * cv(a, a)), hyps=rng)
        return post
    is_v = lambda nm, x: isinstance(x, Arr) and x.kind == 'col'
    is_L = lambda nm, x: isinstance(x, Arr) and x.kind == 'mat'
    vec = lambda ex, k, v0: Arr('col', 'r', (n, ONE), lambda ix: cvf(ex, k, ix[0]))
    mat = lambda ex, k, v0: Arr('mat', 'r', (n, n), lambda ix: Ite(lt(ix[0], k), newR(ix[0], ix[1]), R(ix[0], ix[1])))
    return Unit('CholUpdateR1', body, {}, hints={('CholUpdateR1', 0): {'match': [(is_v, vec), (is_L, mat)]}})


def cvf(ex, k, j): return cv(k, j)


# ---------------------------------------------------------------- random variates
BASIC = {'exp': ('exponential', 1), 'normal': ('normal', 2), 'lognormal': ('lognormal', 2), 'uniform': ('uniform_real', 2),
         'uniform_integer': ('uniform_int', 2), 'tdist': ('student_t', 1), 'chisqr': ('chi_squared', 1), 'gamma': ('gamma', 2)}


def newlog(ex): ex.store[('G', 'log')] = Log()
def events(ex): return ex.store[('G', 'log')].ev


def generator(ex):
    """A generator whose distributions were left with any parameters by earlier calls."""
    o = ObjV(('rg',), 'RandomGenerator')
    for f, (d, k) in BASIC.items():
        ex.setf(o, f + '_', Opaque('dist', d, *[Var('%s_par%d' % (f, i), 'i' if d == 'uniform_int' else 'r') for i in range(k)]))
    newlog(ex)
    return o


def the_draw(ex, kind, shape=()):
    """The single basic draw made so far; None when the code draws otherwise."""
    ev = events(ex)
    if len(ev) != 1 or ev[0][0] != 'draw' or ev[0][1] != kind or len(ev[0][2]) != len(shape):
        raise Unsupported('the variate is made from other basic draws than the contract has')
    for a, b in zip(ev[0][2], shape):
        ex.oblig('variate: shape of the basic draw', eq(a, b))
    return ev[0][3]


def powerlaw(lo, hi, s, u):
    return Pow((Pow(hi, s + 1) - Pow(lo, s + 1)) * u + Pow(lo, s + 1), 1 / (s + 1))


def scalar_law(ex, name, a):
    """The documented law of each scalar variate: (basic draw, its shape, the transformation)."""
    if name == 'exp':
        return 'exponential', (), lambda d: d / a[0]
    if name == 'normal':
        return 'normal', (), lambda d: a[0] + a[1] * d
    if name == 'lognormal':
        return 'normal', (), lambda d: Exp(a[0] + a[1] * d)
    if name == 'uniform':
        if is_int(a[0]) and is_int(a[1]) and not (a[0].const() is not None):
            return 'uniform_int', (a[0], a[1]), lambda d: d
        return 'uniform', (), lambda d: a[0] + (a[1] - a[0]) * d
    if name == 'powerlaw':
        if entails(ex.pc, eq(a[2], -1)):
            return 'uniform', (), lambda d: a[0] * Pow(a[1] / a[0], d)
        return 'uniform', (), lambda d: powerlaw(a[0], a[1], a[2], d)
    if name == 'tdist':
        return 'student_t', (a[0],), lambda d: a[1] + a[2] * d
    if name == 'chisqr':
        return 'gamma', (a[0] / 2,), lambda d: 2 * d
    if name == 'scaled_inverse_chisqr':
        return 'gamma', (a[0] / 2,), lambda d: a[0] * a[1] / (2 * d)
    if name == 'gamma':
        return 'gamma', (a[0],), lambda d: a[1] * d
    if name == 'invgamma':
        return 'gamma', (a[0],), lambda d: a[1] / d
    raise KeyError(name)


DD = 'double (double,double)'
SCALARS = [('exp', 'r', None), ('normal', 'rr', DD), ('lognormal', 'rr', None), ('uniform', 'rr', DD), ('uniform', 'ii', 'int (int,int)'),
           ('powerlaw', 'rrr', None), ('powerlaw', 'rr-', None), ('tdist', 'rrr', None), ('chisqr', 'i', None),
           ('scaled_inverse_chisqr', 'ir', None), ('gamma', 'rr', None), ('invgamma', 'rr', None)]


def u_variates():
    def body(ex):
        name, sorts, sig = SCALARS[ex.choose(len(SCALARS))]
        o = generator(ex)
        a = [topoly(-1) if s == '-' else Var('arg%d' % i, s) for i, s in enumerate(sorts)]
        for x in a:
            if name in ('exp', 'powerlaw', 'tdist', 'chisqr', 'scaled_inverse_chisqr', 'gamma', 'invgamma') and x.const() is None:
                if not (name == 'tdist' and x == a[1] or name == 'powerlaw' and x == a[2]):
                    ex.assume(lt(0, x))
        if name == 'powerlaw' and sorts == 'rrr':
            ex.assume(ne(a[2], -1))
        r = ex.run_method('RandomGenerator', name, o, a, sig=sig)

        def post(ex):
            kind, shape, f = scalar_law(ex, name, a)
            d = the_draw(ex, kind, shape)
            ex.oblig('RandomGenerator::%s: documented transformation of the basic draw' % name, eq(r, f(d)))
        return post
    return Unit('RandomGenerator::{exp,normal,lognormal,uniform,powerlaw,tdist,chisqr,scaled_inverse_chisqr,gamma,invgamma}', body, {},
                functions=['RandomGenerator::' + x for x in sorted({s[0] for s in SCALARS})])


def u_multinormal():
    def body(ex):
        o = generator(ex)
        ex.assume(ge(n, 1))
        ex.chol_patterns = [(Arr.sym('S', 'mat', 'r', (n, n)), Arr.sym('R', 'mat', 'r', (n, n)))]
        r = ex.run_method('RandomGenerator', 'normal', o, [Arr.sym('S', 'mat', 'r', (n, n))], sig='arma::Col<double>(arma::Mat<double>)')

        def post(ex):
            ev = norm_ev(events(ex))
            if len(ev) != 1 or ev[0][0] != 'rep' or len(ev[0][3]) != 1 or ev[0][3][0][:2] != ('draw', 'normal'):
                raise Unsupported('the vector is made from other basic draws than the contract has')
            _, k, cnt, ((_, _, _, z),) = ev[0]
            ex.oblig('RandomGenerator::normal(covariance): one standard normal per coordinate', eq(cnt, n))
            i = fresh('i', 'i')
            ex.oblig('RandomGenerator::normal(covariance): size', eq(r.n(), n))
            ex.oblig('RandomGenerator::normal(covariance): transposed Cholesky factor times the standard normals',
                     eq(r.get(i), SumR(0, n, lambda j: R(j, i) * subst(z, {vname(k): j}))), hyps=ex.pc + [le(0, i), lt(i, n)])
        return post
    return Unit('RandomGenerator::normal(covariance)', body, {})


# ---------------------------------------------------------------- proposals
def c_variate(name):
    """Contract of a scalar variate, as proved by u_variates."""
    def c(ex, o, args):
        a = [ex.val(x) for x in args]
        dflt = {'normal': [ZERO, ONE], 'uniform': [ZERO, ONE], 'tdist': [ONE, ZERO, ONE], 'powerlaw': []}.get(name, [ONE, ONE])
        a += dflt[len(a):]
        if name == 'normal' and isinstance(a[0], Arr):
            C = a[0]
            z = ex.fresh_arr('stdnormal', 'col', 'r', (C.dims[0], ONE))
            L = ex.fresh_arr('cholesky', 'mat', 'r', C.dims)
            ex.store[('G', 'log')] = ex.store.get(('G', 'log'), Log()).add('multinormal', C, L, z)
            return Arr('col', 'r', (C.dims[0], ONE), lambda ix: SumR(0, C.dims[0], lambda j: L.get(j, ix[0]) * z.get(j)))
        if name == 'powerlaw' and a[2].const() is None:
            ex.branch(eq(a[2], -1))
        kind, shape, f = scalar_law(ex, name, a)
        d = ex.lib.basic(kind, *shape)
        if kind == 'uniform':
            ex.assume(And(le(0, d), lt(d, 1)))
        if kind == 'gamma':
            ex.assume(lt(0, d))
        return f(d)
    return c


VARIATES = {'RandomGenerator::' + x: c_variate(x) for x in sorted({s[0] for s in SCALARS})}


def u_proposals():
    """Scalar proposals: draw and log-ratio of the proposal densities."""
    def body(ex):
        which = ex.choose(3)
        cls = ('NormalProposal', 'StudentProposal', 'LogNormalProposal')[which]
        x, y, s, dof = Var('x'), Var('y'), Var('scale'), Var('dof')
        o = ex.new_obj(cls)
        newlog(ex)
        ex.assume(lt(0, x)); ex.assume(lt(0, y)); ex.assume(lt(0, s)); ex.assume(lt(0, dof))
        pars = [dof, s] if which == 1 else [s]
        ex.run_method(cls, cls, o, pars)
        r = ex.run_method(cls, 'Draw', o, [x])
        a = ex.run_method(cls, 'LogDensity', o, [x, y])
        b = ex.run_method(cls, 'LogDensity', o, [y, x])

        def post(ex):
            if which == 0:
                want = x + s * the_draw(ex, 'normal')
            elif which == 1:
                want = x + s * the_draw(ex, 'student_t', (dof,))
            else:
                want = Exp(T.Log(x) + s * the_draw(ex, 'normal'))
            ex.oblig(cls + '::Draw: law centred on the current value', eq(r, want))
            ex.oblig(cls + '::LogDensity: log-ratio of reverse to forward density',
                     eq(a - b, ZERO if which < 2 else T.Log(y) - T.Log(x)))
        return post
    return Unit('{Normal,Student,LogNormal}Proposal::{ctor,Draw,LogDensity}', body, VARIATES,
                functions=['%sProposal::%s' % (c, f) for c in ('Normal', 'Student', 'LogNormal') for f in ('Draw', 'LogDensity')])


def u_multiproposal():
    def body(ex):
        o = ex.new_obj('MultiNormalProposal')
        newlog(ex)
        ex.assume(ge(n, 1))
        S = Arr.sym('S', 'mat', 'r', (n, n))
        x, y = Arr.sym('x', 'col', 'r', (n, ONE)), Arr.sym('y', 'col', 'r', (n, ONE))
        ex.run_method('MultiNormalProposal', 'MultiNormalProposal', o, [S])
        r = ex.run_method('MultiNormalProposal', 'Draw', o, [x])
        a = ex.run_method('MultiNormalProposal', 'LogDensity', o, [x, y])
        b = ex.run_method('MultiNormalProposal', 'LogDensity', o, [y, x])

        def post(ex):
            ev = events(ex)
            if len(ev) != 1 or ev[0][0] != 'multinormal':
                raise Unsupported('the proposal is made from other draws than the contract has')
            _, C, L, z = ev[0]
            i, j = fresh('i', 'i'), fresh('j', 'i')
            rg = ex.pc + [le(0, i), lt(i, n), le(0, j), lt(j, n)]
            ex.oblig('MultiNormalProposal::Draw: draws with the given covariance', eq(C.get(i, j), S.get(i, j)), hyps=rg)
            ex.oblig('MultiNormalProposal::Draw: size', eq(r.n(), n))
            ex.oblig('MultiNormalProposal::Draw: centred on the current value',
                     eq(r.get(i), x.get(i) + SumR(0, n, lambda k: L.get(k, i) * z.get(k))), hyps=rg)
            ex.oblig('MultiNormalProposal::LogDensity: symmetric', eq(a - b, 0))
        return post
    return Unit('MultiNormalProposal::{ctor,Draw,LogDensity}', body, VARIATES)


# ---- stretch move: an ensemble of walkers, own index me
me, nw, dim = Var('me', 'i'), Var('nw', 'i'), Var('dim', 'i')
def wval(i, j): return El('walker', topoly(i), topoly(j))
def walker(i): return ObjV(('walker', topoly(i)), 'CARp')


def c_walker_value(ex, o, args):
    i = o.id[1]
    return Arr('col', 'r', (dim, ONE), lambda ix: wval(i, ix[0]))


def c_ensemble_at(ex, o, args):
    i = ex.val(args[0])
    ex.oblig('walker index in range in %s' % ex.fn, And(le(0, i), lt(i, nw)), 'bounds')
    return walker(i)


ENS = {'Ensemble<CARp>::operator[]': c_ensemble_at, 'Ensemble<CARp>::size': lambda ex, o, args: nw,
       'Parameter<arma::Col<double>>::Value': c_walker_value}
SP = 'StretchProposal<CARp>'


def stretch(ex):
    newlog(ex)
    ex.assume(And(le(0, me), lt(me, nw), ge(nw, 2), ge(dim, 1)))
    sup = Var('support')
    ex.assume(lt(1, sup))
    o = ex.new_obj(SP)
    ex.run_method(SP, 'StretchProposal', o, [ObjV(('ens',), 'Ensemble<CARp>'), me, sup])
    return o, sup


def u_stretch():
    def body(ex):
        o, sup = stretch(ex)
        ud = ex.getf(o, 'uniform_')
        x = Arr.sym('x', 'col', 'r', (dim, ONE))
        n0 = len(events(ex))
        r = ex.run_method(SP, 'Draw', o, [x])
        other, sc = ex.getf(o, 'other_parameter_index_'), ex.getf(o, 'scale_')

        def post(ex):
            ex.oblig('StretchProposal: other walkers are drawn from the whole ensemble',
                     And(eq(ud.d[1], 0), eq(ud.d[2], nw - 1)) if isinstance(ud, Opaque) and ud.d[0] == 'uniform_int' and len(ud.d) == 3 else FALSE)
            ev = [e for e in events(ex) if e[0] == 'draw' and e[1] == 'uniform']
            if len(ev) != 1:
                raise Unsupported('the move is made from other draws than the contract has')
            u = ev[0][3]
            ex.oblig('StretchProposal::Draw: another walker of the ensemble', And(le(0, other), lt(other, nw), ne(other, me)))
            ex.oblig('StretchProposal::Draw: scale by inversion of 1/sqrt(z) on [1/a, a]', eq(sc, powerlaw(1 / sup, sup, Fraction(-1, 2), u)))
            i = fresh('i', 'i')
            ex.oblig('StretchProposal::Draw: size', eq(r.n(), dim))
            ex.oblig('StretchProposal::Draw: point on the line through the other walker',
                     eq(r.get(i), wval(other, i) + sc * (x.get(i) - wval(other, i))), hyps=ex.pc + [le(0, i), lt(i, dim)])
        return post
    inv = lambda ex: [('the index names a walker', And(le(0, ex.getf(ObjV(('StretchProposal<CARp>#1',), SP), 'other_parameter_index_')),
                                                     lt(ex.getf(ObjV(('StretchProposal<CARp>#1',), SP), 'other_parameter_index_'), nw)))]
    return Unit('StretchProposal::{ctor,GrabParameter,Draw}', body, dict(VARIATES, **ENS), hints={('GrabParameter', 0): {'inv': inv}},
                functions=['StretchProposal::StretchProposal', 'StretchProposal::GrabParameter', 'StretchProposal::Draw'])


def u_stretch_density():
    def body(ex):
        o, sup = stretch(ex)
        sc = Var('z')
        ex.assume(lt(0, sc))
        ex.setf(o, 'scale_', sc)
        a, b = Arr.sym('a', 'col', 'r', (dim, ONE)), Arr.sym('b', 'col', 'r', (dim, ONE))
        r = ex.run_method(SP, 'LogDensity', o, [a, b])

        def post(ex):
            i, j = fresh('i', 'i'), Var('jj', 'i')
            tol = topoly(Fraction(1, 10 ** 10))
            ex.oblig('StretchProposal::LogDensity: back to the current value: (d-1) log scale', eq(r, (dim - 1) * T.Log(sc)),
                     hyps=ex.pc + [Forall(i, dim, lt(Abs(wval(me, i) - a.get(i)), tol))])
            ex.oblig('StretchProposal::LogDensity: to any other value: zero', eq(r, 0),
                     hyps=ex.pc + [le(0, j), lt(j, dim), ge(Abs(wval(me, j) - a.get(j)), tol)])
        return post
    return Unit('StretchProposal::LogDensity', body, dict(VARIATES, **ENS))


# ---------------------------------------------------------------- Metropolis-Hastings steps
def key(v): return arr_key(v) if isinstance(v, Arr) else v
def lp(v): return App('logpost', key(v))                    # log-posterior of a value
def lq(a, b): return App('logprop', key(a), key(b))         # log proposal density of a, from b


def c_lp(ex, o, args): return lp(ex.val(args[0]))


def c_lq(ex, o, args): return lq(ex.val(args[0]), ex.val(args[1]))


def c_pdraw(ex, o, args):
    v = ex.val(args[0])
    r = ex.fresh_arr('proposed', 'col', 'r', v.dims) if isinstance(v, Arr) else ex.fresh('proposed')
    ex.store[('G', 'log')] = ex.store[('G', 'log')].add('propose', v, r)
    return r


def c_unitdraw(ex, o, args):
    """Draw of the symmetric one-dimensional proposal around a centre."""
    v = ex.val(args[0])
    z = ex.fresh('unit')
    ex.store[('G', 'log')] = ex.store[('G', 'log')].add('unit', z)
    return v + z


def same_val(ex, name, a, b, hyps=()):
    for sfx, g, h in same_goals(a, b):
        ex.oblig(name + sfx, g, hyps=ex.pc + list(hyps) + h)


def uniform_of(ex):
    us = [e[3] for e in events(ex) if e[:2] == ('draw', 'uniform')]
    if len(us) > 1:
        raise Unsupported('more than one uniform draw')
    return us[0] if us else None


PV = {'v': 'arma::Col<double>', 's': 'double'}
temp, L0 = Var('temperature'), Var('L0')


def parameter(ex, t, cls=None):
    """A parameter in any state in which stored log-posterior and value belong together."""
    P_ = ObjV(('par',), cls or 'Parameter<%s>' % PV[t])
    x = Arr.sym('x', 'col', 'r', (dim, ONE)) if t == 'v' else Var('x')
    ex.assume(ge(dim, 1)); ex.assume(lt(0, temp))
    ex.setf(P_, 'value_', x)
    ex.setf(P_, 'log_posterior_', lp(x))
    ex.setf(P_, 'temperature_', temp)
    ex.setf(P_, 'track_', Pred('track'))
    return P_, x


def accept_posts(ex, fn, P_, x, y, a, u):
    """Moves to y exactly when the uniform draw is below min(1, exp a)."""
    v, l = ex.getf(P_, 'value_'), ex.getf(P_, 'log_posterior_')
    acc = And(lt(u, Exp(a)), lt(u, 1)) if u is not None else FALSE
    yes = [acc]
    no = [Not(acc)]
    ex.oblig(fn + ': decides by a uniform draw', FALSE if u is None else TRUE)
    same_val(ex, fn + ': accepted: moves to the proposed value', v, y, yes)
    same_val(ex, fn + ': accepted: stored log-posterior is that of the new value', l, lp(y), yes)
    same_val(ex, fn + ': rejected: value unchanged', v, x, no)
    same_val(ex, fn + ': rejected: log-posterior unchanged', l, lp(x), no)
    ex.oblig(fn + ': temperature unchanged', eq(ex.getf(P_, 'temperature_'), temp))


# log-posteriors and proposal densities that are not finite
def c_lp_special(ex, o, args):
    return ieee.KINDS.get(ex.special['new']) or lp(ex.val(args[0]))


def c_lq_special(ex, o, args):
    """The first call's arguments tell the direction: density of its first argument given its second."""
    a, b = ex.val(args[0]), ex.val(args[1])
    return ieee.KINDS.get(ex.special['reverse' if same(a, ex.special['x']) else 'forward']) or lq(a, b)


def specials(ex, P_, what):
    """Every combination of finite, infinite and NaN in which something is not finite."""
    ks = [None, 'inf', '-inf', 'nan']
    n = ex.choose(4 ** len(what) - 1) + 1
    ex.special = dict(x=ex.getf(P_, 'value_'), new=None, forward=None, reverse=None, old=None)
    for w in what:
        ex.special[w] = ks[n % 4]
        n //= 4
    if ex.special['old']:
        ex.setf(P_, 'log_posterior_', ieee.KINDS[ex.special['old']])
    ex.special['L'] = ex.getf(P_, 'log_posterior_')
    return ex.special


def same_real(a, b):
    if ieee.special(a) or ieee.special(b):
        return TRUE if same(a, b) else FALSE
    return eq(a, b)


def rejected(ex, P_, x):
    v, l = ex.getf(P_, 'value_'), ex.getf(P_, 'log_posterior_')
    return And(TRUE if same(v, x) else FALSE, same_real(l, ex.special['L']))


def u_metrop_special(t='v'):
    MS = 'MetropStep<%s>' % PV[t]

    def body(ex):
        newlog(ex)
        P_, x = parameter(ex, t)
        ex.finite = True
        specials(ex, P_, ('new', 'old', 'forward', 'reverse'))
        s = ex.new_obj(MS)
        ex.run_method(MS, 'MetropStep', s, [P_, ObjV(('prop',), 'Proposal<%s>' % PV[t]), topoly(-1)])
        ex.assume(ge(Var('niter', 'i'), 0))
        ex.setf(s, 'niter_', Var('niter', 'i'))
        ex.setf(s, 'naccept_', Var('nacc', 'i'))
        ex.run_method(MS, 'DoStep', s, [])

        def post(ex):
            ex.oblig('MetropStep::DoStep: ratio not finite: rejected', rejected(ex, P_, x))
        return post
    nm = PV[t]
    return Unit('MetropStep<%s>::{DoStep,Accept} (not finite)' % ('vec' if t == 'v' else 'double'), body,
                {'Parameter<%s>::LogDensity' % nm: c_lp_special, 'Proposal<%s>::LogDensity' % nm: c_lq_special, 'Proposal<%s>::Draw' % nm: c_pdraw},
                functions=['MetropStep::' + f for f in ('DoStep', 'Accept')])


def u_metrop(t='v'):
    MS = 'MetropStep<%s>' % PV[t]

    def body(ex):
        newlog(ex)
        P_, x = parameter(ex, t)
        ex.finite = True
        Q_ = ObjV(('prop',), 'Proposal<%s>' % PV[t])
        s = ex.new_obj(MS)
        rep = Var('report', 'i')
        ex.run_method(MS, 'MetropStep', s, [P_, Q_, rep])
        nit, nac = Var('niter', 'i'), Var('nacc', 'i')
        ex.assume(ge(nit, 0)); ex.assume(ge(nac, 0))
        ex.setf(s, 'niter_', nit)
        ex.setf(s, 'naccept_', nac)
        ex.run_method(MS, 'DoStep', s, [])

        def post(ex):
            pr = [e for e in events(ex) if e[0] == 'propose']
            ex.oblig('MetropStep::DoStep: one proposal', TRUE if len(pr) == 1 else FALSE)
            same_val(ex, 'MetropStep::DoStep: proposes from the current value', pr[0][1], x)
            y = pr[0][2]
            a = (lp(y) - lp(x)) / temp + lq(x, y) - lq(y, x)
            u = uniform_of(ex)
            accept_posts(ex, 'MetropStep::DoStep', P_, x, y, a, u)
            if u is not None:
                ex.oblig('MetropStep::GetMetroRatio: the acceptance probability', eq(ex.run_method(MS, 'GetMetroRatio', s, []), Min(Exp(a), 1)))
        return post
    nm = PV[t]
    return Unit('MetropStep<%s>::{ctor,DoStep,Accept,GetMetroRatio}' % ('vec' if t == 'v' else 'double'), body,
                {'Parameter<%s>::LogDensity' % nm: c_lp, 'Proposal<%s>::LogDensity' % nm: c_lq, 'Proposal<%s>::Draw' % nm: c_pdraw},
                functions=['MetropStep::' + f for f in ('MetropStep', 'DoStep', 'Accept', 'GetMetroRatio')] + ['Parameter::Save', 'Parameter::Value'])


def u_metrop_s(): return u_metrop('s')


def u_metrop_s_special(): return u_metrop_special('s')


# ---------------------------------------------------------------- robust adaptive Metropolis
AM = 'AdaptiveMetro'
target, gam, maxit, nit, nac = Var('target'), Var('gamma'), Var('maxiter', 'i'), Var('niter', 'i'), Var('nacc', 'i')
def fac(i, j): return El('factor', topoly(i), topoly(j))


def c_chol_update(ex, o, args):
    """CholUpdateR1 as proved under S03: the factor is replaced, the vector is used up."""
    L, v, down = ex.val(args[0]), ex.val(args[1]), ex.val(args[2])
    U = ex.fresh_arr('updated', 'mat', 'r', L.dims)
    ex.store[('G', 'log')] = ex.store[('G', 'log')].add('rank1', L, v, tof(down), U)
    ex.assign(args[0], U)
    if isinstance(args[1], Ref):
        ex.assign(args[1], ex.fresh_arr('spent', 'col', 'r', v.dims))


def ram(ex, first):
    """A RAM step at any point of a run, on any parameter state."""
    newlog(ex)
    P_, x = parameter(ex, 'v')
    Q_ = ObjV(('prop',), 'Proposal<double>')
    s = ObjV(('ram',), AM)
    C = Arr.sym('C', 'mat', 'r', (dim, dim))
    ex.chol_patterns = [(C, Arr.sym('factor', 'mat', 'r', (dim, dim)))]
    ex.init_fields(s)
    ex.run_method(AM, AM, s, [P_, Q_, C, target, maxit])
    for f in ('niter_', 'naccept_'):
        ex.oblig('AdaptiveMetro: a new step has done nothing yet', eq(ex.getf(s, f), 0))
    ex.oblig('AdaptiveMetro: a new step decays with exponent 2/3', eq(ex.getf(s, 'gamma_'), Fraction(2, 3)))
    ex.assume(And(lt(0, target), lt(target, 1)))
    ex.assume(ge(nac, 0)); ex.assume(le(nac, nit))
    ex.assume(eq(nit, 0) if first else ge(nit, 1))
    ex.setf(s, 'niter_', ZERO if first else nit)
    ex.setf(s, 'naccept_', ZERO if first else nac)
    return P_, x, Q_, s


def unit_vector(ex):
    """The unit draws of this step, as a function of the coordinate."""
    ev = [e for e in norm_ev(events(ex)) if e[0] in ('rep', 'unit')]
    if len(ev) != 1 or ev[0][0] != 'rep' or len(ev[0][3]) != 1 or ev[0][3][0][0] != 'unit':
        raise Unsupported('unit draws are made otherwise than the contract has')
    _, k, cnt, ((_, z),) = ev[0]
    return cnt, lambda j: subst(z, {vname(k): topoly(j)})


def u_ram(first=False, finite=True):
    def body(ex):
        P_, x, Q_, s = ram(ex, first)
        ex.finite = True
        bad = None if finite else specials(ex, P_, ('new', 'old'))
        # an earlier step left any acceptance probability behind
        ex.setf(s, 'alpha_', Var('alpha0'))
        ex.run_method(AM, 'DoStep', s, [])
        i, j = fresh('i', 'i'), fresh('j', 'i')
        rg = [le(0, i), lt(i, dim), le(0, j), lt(j, dim)]

        def post(ex):
            F0 = ZERO if first else nit
            cnt, un = unit_vector(ex)
            ex.oblig('AdaptiveMetro::DoStep: one unit draw per coordinate', eq(cnt, dim))
            d = lambda i: SumR(0, dim, lambda k: fac(k, i) * un(k))
            y = Arr('col', 'r', (dim, ONE), lambda ix: x.get(ix[0]) + d(ix[0]))
            a = (lp(y) - lp(x)) / temp
            u = uniform_of(ex)
            if bad:
                ex.oblig('AdaptiveMetro::DoStep: log-posterior not finite: rejected', rejected(ex, P_, x))
                acc, alpha = FALSE, ZERO
            else:
                accept_posts(ex, 'AdaptiveMetro::DoStep', P_, x, y, a, u)
                acc, alpha = And(lt(u, Exp(a)), lt(u, 1)) if u is not None else FALSE, Min(Exp(a), 1)
            al = ex.run_method(AM, 'GetMetroRatio', s, [])
            if not bad or bad['new']:
                ex.oblig('AdaptiveMetro::GetMetroRatio: the acceptance probability, zero for a non-finite ratio', same_real(al, alpha))
            ex.oblig('AdaptiveMetro::DoStep: counts the step', eq(ex.getf(s, 'niter_'), F0 + 1))
            ex.oblig('AdaptiveMetro::DoStep: counts the acceptance', eq(ex.getf(s, 'naccept_'), (ZERO if first else nac) + Ite(acc, ONE, ZERO)))
            ex.oblig('AdaptiveMetro::GetAcceptRate: accepted over done steps',
                     eq(ex.run_method(AM, 'GetAcceptRate', s, []) * (F0 + 1), ex.getf(s, 'naccept_')))
            W = ex.getf(s, 'chol_factor_')
            up = [e for e in events(ex) if e[0] == 'rank1']
            if not up:
                if not bad or bad['new']:
                    ex.oblig('AdaptiveMetro::DoStep: adapts at every step before the limit', ge(F0, maxit))
                same_val(ex, 'AdaptiveMetro::DoStep: no adaptation: factor unchanged', W, Arr.sym('factor', 'mat', 'r', (dim, dim)))
                return
            ex.oblig('AdaptiveMetro::DoStep: no adaptation from the limit on', lt(F0, maxit))
            ex.oblig('AdaptiveMetro::DoStep: one rank-one update', TRUE if len(up) == 1 else FALSE)
            _, L, v, down, U = up[0]
            same_val(ex, 'AdaptiveMetro::DoStep: updates the factor of the current covariance', L, Arr.sym('factor', 'mat', 'r', (dim, dim)))
            eta = ONE if first else Min(1, dim / Pow(nit, Fraction(2, 3)))
            nrm = SumR(0, dim, lambda k: un(k) * un(k))
            sgn = Ite(down, topoly(-1), ONE)
            if not bad or bad['new']:
                ex.oblig('AdaptiveMetro::DoStep: covariance changes by eta (alpha - target) d d\' / |u|^2',
                         eq(sgn * v.get(i) * v.get(j) * nrm, eta * (alpha - target) * d(i) * d(j)), hyps=ex.pc + rg + [lt(0, nrm)])
            same_val(ex, 'AdaptiveMetro::DoStep: keeps the updated factor', W, U)
        return post
    return Unit('AdaptiveMetro::{ctor,DoStep,Accept,GetMetroRatio,GetAcceptRate}%s%s' % (' (first step)' if first else '', '' if finite else ' (not finite)'), body,
                {'Parameter<arma::Col<double>>::LogDensity': c_lp if finite else c_lp_special, 'Proposal<double>::Draw': c_unitdraw, 'CholUpdateR1': c_chol_update},
                functions=['AdaptiveMetro::' + f for f in ('AdaptiveMetro', 'DoStep', 'Accept', 'GetMetroRatio', 'GetAcceptRate')])


def u_ram_first(): return u_ram(True)


def u_ram_special(): return u_ram(False, False)


def u_ram_first_special(): return u_ram(True, False)


def u_getcov():
    def body(ex):
        s = ObjV(('ram',), AM)
        ex.init_fields(s)
        ex.assume(ge(dim, 1))
        ex.setf(s, 'chol_factor_', Arr.sym('factor', 'mat', 'r', (dim, dim)))
        r = ex.run_method(AM, 'GetCovariance', s, [])
        i, j = fresh('i', 'i'), fresh('j', 'i')

        def post(ex):
            ex.oblig('AdaptiveMetro::GetCovariance: transposed factor times factor', eq(r.get(i, j), SumR(0, dim, lambda k: fac(k, i) * fac(k, j))),
                     hyps=ex.pc + [le(0, i), lt(i, dim), le(0, j), lt(j, dim)])
        return post
    return Unit('AdaptiveMetro::GetCovariance', body, {})


# ---------------------------------------------------------------- exchange between neighbouring chains
XS = 'ExchangeStep<arma::Col<double>,CARp>'
CB = 'CARMA_Base<arma::Col<std::complex<double>>>'


def c_base_save(ex, o, args):
    """CARMA_Base::Save: keeps the value; the log-posterior it leaves depends on the filter's last run."""
    ex.setf(o, 'value_', ex.val(args[0]))
    ex.setf(o, 'log_posterior_', ex.fresh('stale'))


def chain(ex, i, nm):
    w = walker(i)
    st = dict(value_=Arr.sym('x' + nm, 'col', 'r', (dim, ONE)), log_posterior_=Var('L' + nm), temperature_=Var('T' + nm), track_=Pred('track' + nm))
    for f, v in st.items():
        ex.setf(w, f, v)
    ex.assume(lt(0, st['temperature_']))
    return w, st


def u_exchange(finite=True):
    def body(ex):
        ex.finite = True
        newlog(ex)
        ex.assume(And(ge(me, 1), lt(me, nw), ge(dim, 3)))
        wa, A = chain(ex, me, 'a')
        wb, B = chain(ex, me - 1, 'b')
        if not finite:
            n = ex.choose(15) + 1
            for w, st, k in ((wa, A, n % 4), (wb, B, n // 4)):
                if k:
                    st['log_posterior_'] = (ieee.INF, ieee.NINF, ieee.NAN)[k - 1]
                    ex.setf(w, 'log_posterior_', st['log_posterior_'])
        s = ex.new_obj(XS)
        rep = Var('report', 'i')
        ex.run_method(XS, 'ExchangeStep', s, [wa, me, ObjV(('ens',), 'Ensemble<CARp>'), rep])
        ex.oblig('ExchangeStep: a new step has done nothing yet', And(eq(ex.getf(s, 'niter_'), 0), eq(ex.getf(s, 'naccept_'), 0)))
        n0, a0 = Var('niter', 'i'), Var('nacc', 'i')
        ex.setf(s, 'niter_', n0)
        ex.setf(s, 'naccept_', a0)
        before = dict(ex.store)
        ex.run_method(XS, 'DoStep', s, [])

        def post(ex):
            us = uniform_of(ex)
            acc = FALSE
            if finite:
                a = (1 / A['temperature_'] - 1 / B['temperature_']) * (B['log_posterior_'] - A['log_posterior_'])
                ex.oblig('ExchangeStep::DoStep: decides by a uniform draw', FALSE if us is None else TRUE)
                if us is not None:
                    acc = And(lt(us, Exp(a)), lt(us, 1))
            ga = {f: ex.getf(wa, f) for f in A}
            gb = {f: ex.getf(wb, f) for f in B}
            for f, what in (('value_', 'value'), ('log_posterior_', 'log-posterior')):
                if not finite:
                    same_val(ex, 'ExchangeStep::DoStep: log-posterior not finite: %s of the warmer chain unchanged' % what, ga[f], A[f])
                    same_val(ex, 'ExchangeStep::DoStep: log-posterior not finite: %s of the colder chain unchanged' % what, gb[f], B[f])
                    continue
                same_val(ex, 'ExchangeStep::DoStep: accepted: warmer chain takes the %s of the colder' % what, ga[f], B[f], [acc])
                same_val(ex, 'ExchangeStep::DoStep: accepted: colder chain takes the %s of the warmer' % what, gb[f], A[f], [acc])
                same_val(ex, 'ExchangeStep::DoStep: otherwise %s of the warmer chain unchanged' % what, ga[f], A[f], [Not(acc)])
                same_val(ex, 'ExchangeStep::DoStep: otherwise %s of the colder chain unchanged' % what, gb[f], B[f], [Not(acc)])
            for g, st in ((ga, A), (gb, B)):
                ex.oblig('ExchangeStep::DoStep: temperatures stay with the chains', eq(g['temperature_'], st['temperature_']))
                ex.oblig('ExchangeStep::DoStep: tracking stays with the chains', Iff(g['track_'], st['track_']))
            touched = [l for l, v in ex.store.items() if l[0] == 'F' and l[1][:1] == ('walker',) and l[1] not in (wa.id, wb.id)
                       and not same(v, before.get(l, ex.lazy.get(l)))]
            ex.oblig('ExchangeStep::DoStep: no other chain is written', FALSE if touched else TRUE)
            if us is not None and finite:
                ex.oblig('ExchangeStep::GetMetroRatio: the acceptance probability', eq(ex.run_method(XS, 'GetMetroRatio', s, []), Min(Exp(a), 1)))
        return post
    return Unit('ExchangeStep::{ctor,DoStep,GetMetroRatio}' + ('' if finite else ' (not finite)'), body,
                {'Ensemble<CARp>::operator[]': c_ensemble_at, 'Ensemble<CARp>::size': lambda ex, o, args: nw, '*::LogDensity': c_lp, CB + '::Save': c_base_save},
                functions=['ExchangeStep::ExchangeStep', 'ExchangeStep::DoStep', 'ExchangeStep::GetMetroRatio', 'Parameter::Save', 'Parameter::Value'])


def u_exchange_special(): return u_exchange(False)


# ---------------------------------------------------------------- sampler
ns, ntr, ssize, burn, thn = [Var(x, 'i') for x in ('nsteps', 'ntracked', 'sample_size', 'burnin', 'thin')]
PA = 'Parameter<arma::Col<double>>'


def log(ex, *e): ex.store[('G', 'log')] = ex.store[('G', 'log')].add(*e)
def stepobj(i): return ObjV(('step', topoly(i)), 'Step')
def objs(f, m): return Arr('vec', 'A', (m,), lambda ix: f(ix[0]))


def picked(v, pc): return v.under(pc) if isinstance(v, Choice) else v


def log_is(ex, name, ev):
    """The ghost log is ev; a log of another shape is no answer."""
    gs = same_goals_ev(norm_ev(events(ex)), norm_ev(tuple(ev)))
    if any(g.kind == 'F' and not h for s, g, h in gs):
        raise Unsupported('%s: other events than the contract has: %s' % (name, [s for s, g, h in gs if g.kind == 'F'][:3]))
    for s, g, h in gs:
        ex.oblig(name + s, g, hyps=ex.pc + h)
    if not gs:
        ex.oblig(name, TRUE)


def rep(m, f):
    k = fresh('k', 'i')
    return ('rep', k, topoly(m), tuple(f(k)))


def sampler(ex):
    newlog(ex)
    o = ObjV(('sampler',), 'Sampler')
    ex.init_fields(o)
    ex.run_method('Sampler', 'Sampler', o, [ssize, burn, thn])
    ex.assume(And(ge(ns, 1), ge(ntr, 0), ge(ssize, 0), ge(burn, 0), ge(thn, 0)))
    ex.setf(o, 'steps_', objs(stepobj, ns))
    ex.setf(o, 'tracked_names_', objs(lambda j: Opaque('label', j), ntr))
    ex.setf(o, 'p_tracked_parameters_', Opaque('parmap'))
    ex.setf(o, 'current_iter_', Var('iter', 'i'))
    return o


MAPS = {'index:parmap': lambda ex, base, v, a: ObjV(('tracked', a[0].d[0]), 'BaseParameter')}


def u_iterate():
    def body(ex):
        o = sampler(ex)
        progress, m = ex.choose(2), Var('m', 'i')
        ex.assume(ge(m, 0))
        ex.run_method('Sampler', 'Iterate', o, [m, TRUE if progress else FALSE])

        def post(ex):
            log_is(ex, 'Sampler::Iterate: every step once per sweep, in the order added', [rep(m, lambda k: [rep(ns, lambda i: [('dostep', stepobj(i))])])])
        return post
    return Unit('Sampler::Iterate', body, {'Step::DoStep': lambda ex, o, a: log(ex, 'dostep', o)})


def u_savevalues():
    def body(ex):
        o = sampler(ex)
        ex.run_method('Sampler', 'SaveValues', o, [])

        def post(ex):
            log_is(ex, 'Sampler::SaveValues: every tracked parameter records once, at the current position',
                   [rep(ntr, lambda j: [('record', ObjV(('tracked', j), 'BaseParameter'), Var('iter', 'i'))])])
        return post
    return Unit('Sampler::SaveValues', body, dict(MAPS, **{'BaseParameter::AddToSample': lambda ex, o, a: log(ex, 'record', o, ex.val(a[0]))}))


def u_run():
    npar = Var('npar', 'i')
    par = lambda s: ObjV(('parof', s.id[1]), PA)

    def c_value(ex, o, a):
        return Arr.sym('current', 'col', 'r', (npar if entails(ex.pc, eq(o.id[1], 0)) else mk_app('npar', (o.id[1],), 'i'), ONE), (o.id[1],))

    def c_start(given):
        def c(ex, o, a):
            r = Arr.sym('start_given' if given else 'start_drawn', 'col', 'r', (npar, ONE), (o.id[1],))
            log(ex, 'start', o, given, ex.val(a[0]) if given else None)
            return r
        return c

    def body(ex):
        o = sampler(ex)
        init = Arr.sym('init', 'col', 'r', (Var('ninit', 'i'), ONE))
        ex.run_method('Sampler', 'Run', o, [init])

        def post(ex):
            given = entails(ex.pc, eq(Var('ninit', 'i'), npar))
            if not given and not entails(ex.pc, ne(Var('ninit', 'i'), npar)):
                raise Unsupported('start decided otherwise than by the length of the given vector')
            st = lambda i: Arr.sym('start_given' if given else 'start_drawn', 'col', 'r', (npar, ONE), (i,))
            pr = lambda i: ObjV(('parof', topoly(i)), PA)
            log_is(ex, 'Sampler::Run: sizes, starting values, burn-in, then thinned sweeps each followed by one recording', [
                rep(ntr, lambda j: [('size', ObjV(('tracked', j), 'BaseParameter'), ssize)]),
                rep(ns, lambda i: [('start', pr(i), given, init if given else None), ('save', pr(i), st(i))]),
                ('sweeps', burn),
                rep(ssize, lambda k: [('sweeps', thn), ('recording', k)])])
        return post
    return Unit('Sampler::Run', body, dict(MAPS, **{
        'Sampler::Iterate': lambda ex, o, a: log(ex, 'sweeps', ex.val(a[0])),
        'Sampler::SaveValues': lambda ex, o, a: log(ex, 'recording', ex.getf(o, 'current_iter_')),
        'Step::GetParPointer': lambda ex, o, a: par(o), PA + '::Value': c_value,
        'BaseParameter::SetSampleSize': lambda ex, o, a: log(ex, 'size', o, ex.val(a[0])),
        PA + '::SetStartingValue': c_start(True), PA + '::StartingValue': c_start(False),
        PA + '::Save': lambda ex, o, a: log(ex, 'save', o, ex.val(a[0]))}))


def u_addstep():
    def body(ex):
        o = sampler(ex)
        ex.setf(o, 'tracked_names_', Opaque('nameset'))
        s = ObjV(('newstep',), 'Step')
        trk = Pred('tracked')
        cell = ('G', 'cell')
        ex.store[cell] = Opaque('null')
        old = ex.getf(o, 'steps_')
        ex.run_method('Sampler', 'AddStep', o, [s])

        def post(ex):
            W = ex.getf(o, 'steps_')
            ex.oblig('Sampler::AddStep: one step more', eq(W.n(), ns + 1))
            ex.oblig('Sampler::AddStep: the new step comes last', TRUE if picked(W.get(ns), ex.pc) == s else FALSE)
            i = Var('i', 'i')
            x = picked(W.get(i), ex.pc + [le(0, i), lt(i, ns)])
            ex.oblig('Sampler::AddStep: earlier steps stay', TRUE if x == old.get(i) else FALSE, hyps=ex.pc + [le(0, i), lt(i, ns)])
            lab, p_ = Opaque('labelof', s), ObjV(('parof', s.id), 'BaseParameter')
            if entails(ex.pc, trk):
                log_is(ex, 'Sampler::AddStep: a tracked parameter is entered under its label', [('insert', lab), ('slot', lab)])
                ex.oblig('Sampler::AddStep: the label leads to the parameter of the step', TRUE if same(ex.store[cell], p_) else FALSE)
            elif entails(ex.pc, Not(trk)):
                log_is(ex, 'Sampler::AddStep: an untracked parameter is not entered', [])
            else:
                raise Unsupported('tracking decided otherwise')
        return post

    def slot(ex, base, v, a):
        log(ex, 'slot', a[0])
        return Ref(('G', 'cell'))
    return Unit('Sampler::AddStep', body, {
        'method:nameset.insert': lambda ex, base, v, a: log(ex, 'insert', ex.val(a[0])), 'index:parmap': slot,
        'Step::ParameterTrack': lambda ex, o, a: Pred('tracked'), 'Step::ParameterLabel': lambda ex, o, a: Opaque('labelof', o),
        'Step::GetParPointer': lambda ex, o, a: ObjV(('parof', o.id), 'BaseParameter')})


def u_stepinfo():
    """Every kind of step speaks for its own parameter."""
    kinds = [('MetropStep<arma::Col<double>>', PA), ('MetropStep<double>', 'Parameter<double>'), ('AdaptiveMetro', PA), (XS, PA), ('GibbsStep<arma::Col<double>>', PA)]

    def body(ex):
        cls, pc = kinds[ex.choose(len(kinds))]
        s, P_ = ObjV(('s',), cls), ObjV(('par',), pc)
        ex.setf(s, 'parameter_', P_)
        ex.setf(P_, 'track_', Pred('track'))
        ex.setf(P_, 'label_', Opaque('label', 0))
        t, l, g = [ex.run_method(cls, f, s, []) for f in ('ParameterTrack', 'ParameterLabel', 'GetParPointer')]

        def post(ex):
            nm = cls.split('<')[0]
            ex.oblig(nm + '::ParameterTrack: whether its parameter is tracked', Iff(t, Pred('track')))
            ex.oblig(nm + '::ParameterLabel: the label of its parameter', TRUE if ex.val(l) == Opaque('label', 0) else FALSE)
            ex.oblig(nm + '::GetParPointer: its parameter', TRUE if ex.val(g) == P_ else FALSE)
        return post
    return Unit('Step::{ParameterTrack,ParameterLabel,GetParPointer}', body, {})


def u_samples():
    def body(ex):
        P_ = ObjV(('par',), PA)
        m, k = Var('m', 'i'), Var('k', 'i')
        ex.assume(And(ge(m, 1), le(0, k), lt(k, m)))
        vecs = Arr('vec', 'A', (Var('m0', 'i'),), lambda ix: Arr.sym('sample', 'col', 'r', (dim, ONE), (ix[0],)))
        ex.setf(P_, 'samples_', vecs)
        ex.setf(P_, 'logposts_', Arr.sym('lps', 'vec', 'r', (Var('m0', 'i'),)))
        ex.setf(P_, 'value_', Arr.sym('x', 'col', 'r', (dim, ONE)))
        ex.setf(P_, 'log_posterior_', L0)
        ex.run_method(PA, 'SetSampleSize', P_, [m])
        ex.oblig('Parameter::SetSampleSize: room for the samples', And(eq(ex.getf(P_, 'samples_').n(), m), eq(ex.getf(P_, 'logposts_').n(), m)))
        ex.setf(P_, 'samples_', Arr('vec', 'A', (m,), vecs.fn))
        ex.setf(P_, 'logposts_', Arr.sym('lps', 'vec', 'r', (m,)))
        ex.run_method(PA, 'AddToSample', P_, [k])
        S, Lp = ex.run_method(PA, 'GetSamples', P_, []), ex.run_method(PA, 'GetLogLikes', P_, [])

        def post(ex):
            ex.oblig('Parameter::AddToSample: keeps the number of samples', And(eq(S.n(), m), eq(Lp.n(), m)))
            i, c = fresh('i', 'i'), fresh('c', 'i')
            rg = ex.pc + [le(0, i), lt(i, m), le(0, c), lt(c, dim)]
            ex.oblig('Parameter::AddToSample: this sample is the current value', eq(S.get(k).get(c), El('x', c)), hyps=rg)
            ex.oblig('Parameter::AddToSample: with its log-posterior', eq(Lp.get(k), L0))
            ex.oblig('Parameter::AddToSample: other samples stay', eq(S.get(i).get(c), El('sample', i, c)), hyps=rg + [ne(i, k)])
            ex.oblig('Parameter::AddToSample: other log-posteriors stay', eq(Lp.get(i), El('lps', i)), hyps=rg + [ne(i, k)])
        return post
    return Unit('Parameter::{SetSampleSize,AddToSample,GetSamples,GetLogLikes}', body, {})


# ---------------------------------------------------------------- drivers
ny, pp, qq = [Var(x, 'i') for x in ('ny', 'p', 'q')]
CTORS = ('CARp', 'CARMA', 'ZCAR', 'ZCARMA', 'CAR1')


def c_model(cls):
    def c(ex, o, a):
        if len(a) == 1:
            log(ex, 'copy', cls, ex.val(a[0]))
            return ObjV(('copyof', cls, ex.val(a[0])), cls)
        a = [ex.val(x) for x in a]
        return ObjV(('made', cls) + tuple(x for n, x in enumerate(a) if n != 1), cls)   # without the label
    return c


def c_ram(ex, o, a):
    par, prop, cov, rate, mx = [ex.val(x) for x in a[:5]]
    return ObjV(('ram', par, cov.dims[0], cov.dims[1], mx), 'AdaptiveMetro')


def c_exchange(ex, o, a):
    par, i = ex.val(a[0]), ex.val(a[1])
    return ObjV(('exchange', par, i), XS)


DRIVE = {c + '::' + c: c_model(c) for c in CTORS}
DRIVE.update({
    'Ensemble<CARp>::AddObject': lambda ex, o, a: log(ex, 'add', *ex.val(a[0]).id), 'Ensemble<CARp>::operator[]': c_ensemble_at,
    '*::SetPrior': lambda ex, o, a: log(ex, 'prior', o, ex.val(a[0])), '*::SetTracking': lambda ex, o, a: log(ex, 'track', o, ex.val(a[0])),
    'AdaptiveMetro::AdaptiveMetro': c_ram, XS + '::ExchangeStep': c_exchange,
    'Sampler::AddStep': lambda ex, o, a: log(ex, 'step', *ex.val(a[0]).id),
    'Sampler::Run': lambda ex, o, a: log(ex, 'run', ex.getf(o, 'sample_size_'), ex.getf(o, 'burnin_'), ex.getf(o, 'thin_'), ex.val(a[0]))})


def drive_args(ex):
    newlog(ex)
    vs = [Arr.sym(x, 'vec', 'r', (ny,)) for x in ('t', 'y', 'yerr')]
    init = Arr.sym('init', 'vec', 'r', (Var('ninit', 'i'),))
    ex.assume(And(ge(ny, 1), ge(ssize, 1), ge(burn, 0), ge(thn, 1)))
    n = Var('ny', 'i')
    var = SumR(0, n, lambda j: El('y', j) * El('y', j)) / n - SumR(0, n, lambda j: El('y', j)) / n * (SumR(0, n, lambda j: El('y', j)) / n)
    return vs, init, 10 * Sqrt(var)


def u_driver():
    def body(ex):
        vs, init, lim = drive_args(ex)
        kind = ex.choose(3)
        ex.assume(And(ge(pp, 2), ge(nw, 1), [eq(qq, 0), ge(qq, 1), ge(qq, 0)][kind]))
        r = ex.run_function('RunCarmaSampler', [ssize, burn] + vs + [pp, qq, nw, TRUE if kind == 2 else FALSE, thn, init])

        def post(ex):
            cls = ['CARp', 'CARMA', 'ZCAR'][kind]
            temperature = lambda i: Ite(eq(i, 0), ONE, T.Exp(T.Log(topoly(100)) * i / (nw - 1)))
            npar = [3 + pp, 3 + pp + qq, 3 + pp][kind]
            w = lambda i: walker(topoly(i))
            log_is(ex, 'RunCarmaSampler: chains, temperatures, limits, steps from hot to cold, recording of the coldest, run', [
                rep(nw, lambda i: [('add', 'made', cls, FALSE) + tuple(vs) + (pp,) + ((qq,) if kind == 1 else ()) + (temperature(i),), ('prior', w(i), lim)]),
                rep(nw - 1, lambda k: [('step', 'ram', w(nw - 1 - k), npar, npar, burn), ('step', 'exchange', w(nw - 1 - k), nw - 1 - k)]),
                ('track', w(0), TRUE), ('step', 'ram', w(0), npar, npar, burn),
                ('run', ssize, burn, thn, init), ('copy', cls, w(0))])
            ex.oblig('RunCarmaSampler: returns the coldest chain', TRUE if same(ex.val(r), ObjV(('copyof', cls, w(0)), cls)) else FALSE)
        return post
    return Unit('RunCarmaSampler', body, DRIVE)


def u_driver_1():
    def body(ex):
        vs, init, lim = drive_args(ex)
        r = ex.run_function('RunCar1Sampler', [ssize, burn] + vs + [thn, init])

        def post(ex):
            w = ObjV(('made', 'CAR1', TRUE) + tuple(vs), 'CAR1')
            log_is(ex, 'RunCar1Sampler: one recorded chain with its limit, one adaptive step, run', [
                ('prior', w, lim), ('step', 'ram', w, topoly(4), topoly(4), burn), ('run', ssize, burn, thn, init), ('copy', 'CAR1', w)])
            ex.oblig('RunCar1Sampler: returns that chain', TRUE if same(ex.val(r), ObjV(('copyof', 'CAR1', w), 'CAR1')) else FALSE)
        return post
    return Unit('RunCar1Sampler', body, DRIVE)


# ---------------------------------------------------------------- small functions the steps rely on
def u_ensemble():
    def body(ex):
        o = ObjV(('ens',), 'Ensemble<CARp>')
        ex.init_fields(o)
        ex.assume(ge(nw, 0))
        ex.setf(o, 'the_objects_', objs(walker, nw))
        new, i = ObjV(('newwalker',), 'CARp'), Var('i', 'i')
        ex.run_method('Ensemble<CARp>', 'AddObject', o, [new])
        ex.oblig('Ensemble::size: one more after adding', eq(ex.run_method('Ensemble<CARp>', 'size', o, []), nw + 1))
        which = ex.choose(2)
        ex.assume(eq(i, nw) if which else And(le(0, i), lt(i, nw)))
        r = picked(ex.val(ex.run_method('Ensemble<CARp>', 'operator[]', o, [i])), ex.pc)

        def post(ex):
            ex.oblig('Ensemble: objects keep their position, a new one comes last', TRUE if r == (new if which else walker(i)) else FALSE)
        return post
    return Unit('Ensemble::{AddObject,size,operator[]}', body, {})


def u_parameter():
    def body(ex):
        o = ObjV(('par',), PA)
        ex.init_fields(o)
        ex.run_method(PA, 'Parameter', o, [Pred('track'), Opaque('label', 0), temp])
        get = lambda f: ex.val(ex.run_method(PA, f, o, []))
        ex.oblig('Parameter: label and temperature as given', And(eq(get('GetTemperature'), temp), TRUE if same(get('Label'), Opaque('label', 0)) else FALSE))
        ex.oblig('Parameter: tracking as given', Iff(get('Track'), Pred('track')))
        ex.run_method(PA, 'SetTracking', o, [Pred('other')])
        ex.run_method(PA, 'SetLogDensity', o, [L0])
        ex.setf(o, 'value_', Arr.sym('x', 'col', 'r', (dim, ONE)))

        def post(ex):
            ex.oblig('Parameter::SetTracking', Iff(get('Track'), Pred('other')))
            ex.oblig('Parameter::{SetLogDensity,GetLogDensity}', eq(get('GetLogDensity'), L0))
            ex.oblig('Parameter::SetTracking: temperature stays', eq(get('GetTemperature'), temp))
            same_val(ex, 'Parameter::Value', get('Value'), Arr.sym('x', 'col', 'r', (dim, ONE)))
        return post
    return Unit('Parameter::{ctor,Track,SetTracking,Label,Value,GetTemperature,GetLogDensity,SetLogDensity}', body, {})


def u_basesave():
    """CARMA_Base::Save keeps the value, whatever the filter holds, and touches nothing but value and log-posterior."""
    def body(ex):
        cls = ('CARp', 'CAR1', 'CARMA', 'ZCAR')[ex.choose(4)]
        o = ObjV(('m',), cls)
        ex.objcls[o.id] = cls
        ex.init_fields(o)
        m = Var('ndata', 'i')
        ex.assume(And(ge(m, 1), ge(dim, 4)))
        for f in ('time_', 'y_'):
            ex.setf(o, f, Arr.sym(f, 'col', 'r', (m, ONE)))
        k = ObjV(('kf',), 'KalmanFilter1' if cls == 'CAR1' else 'KalmanFilterp')
        ex.init_fields(k)
        for f in ('mean', 'var'):
            ex.setf(k, f, Arr.sym('f' + f, 'col', 'r', (m, ONE)))
        ex.setf(o, 'pKFilter_', k)
        before = dict(ex.store)
        x = Arr.sym('x', 'col', 'r', (dim, ONE))
        base = 'CARMA_Base<%s>' % ('double' if cls == 'CAR1' else 'arma::Col<std::complex<double>>')
        ex.run_method(base, 'Save', o, [ex.temp(x)])

        def post(ex):
            same_val(ex, 'CARMA_Base::Save: the value is kept', ex.getf(o, 'value_'), x)
            may = {ex.field_loc(o, c, f) for c in ex.prog.linear(cls) for f in ('value_', 'log_posterior_') if f in [g['name'] for g in ex.prog.classes[c]['fields']]}
            bad = [l for l, v in before.items() if l[0] == 'F' and l not in may and not same_deep(ex.store.get(l), v)]
            ex.oblig('CARMA_Base::Save: nothing else changes', FALSE if bad else TRUE)
        return post
    return Unit('CARMA_Base::Save', body, {})
