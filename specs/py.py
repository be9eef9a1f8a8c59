"""Contracts of the Python layer."""
from vp.terms import *
from vp import terms as T
from vp.sym import *
from vp.sym import _join
from vp.verify import Unit
from vp import pyfe
from vp.logic import prove
from vp.pyfe import NONE, Seq, Rng, median, mean, polycoef, multiset, concat, ndim

FIXED = 'src/carmcmc/carma_pack.py'


def PU(name, body, **kw):
    return Unit(name, body, python=True, **kw)


def vec(ex, name, n, es='r'):
    return ex.alloc(Arr.sym(name, 'vec', es, (n,)))


def mat(ex, name, r, c, es='r'):
    return ex.alloc(Arr.sym(name, 'mat', es, (r, c)))


def same(ex, name, got, want, hyps=(), kind='post'):
    """Obligation: a result (scalar or array) equals the specified one."""
    g = ex.val(got)
    if isinstance(want, Arr) != isinstance(g, Arr):
        raise Unsupported('result of another shape: %s' % name)
    if isinstance(want, Arr):
        if ndim(g) != ndim(want):
            raise Unsupported('result with another number of dimensions: %s' % name)
    elif not isinstance(g, P):
        raise Unsupported('result of another type: %s' % name)
    ex.oblig_same(name, g, want, ex.pc + list(hyps), kind)


def V(n, f, es='r'):
    return Arr('vec', es, (n,), lambda ix: f(ix[0]))


def M(r, c, f, es='r'):
    return Arr('mat', es, (r, c), lambda ix: f(ix[0], ix[1]))


# ------------------------------------------------------------------ formulas (Y05)
def u_power_spectrum(scalar=False):
    def body(ex):
        p, m, nf = Var('p', 'i'), Var('m', 'i'), Var('nf', 'i')
        ex.assume(And(ge(p, 1), ge(m, 1), le(m, p), ge(nf, 0)))
        ar, ma = vec(ex, 'ar', p + 1), vec(ex, 'ma', m)
        f = Var('freq') if scalar else vec(ex, 'freq', nf)
        s = Var('sigma')
        r = ex.run_function('power_spectrum', [f, s, ar, ma])

        def psd(fr):
            z = 2 * PI * I * fr
            num = SumR(0, m, lambda k: El('ma', k) * Pow(z, k))
            den = SumR(0, p + 1, lambda k: El('ar', p - k) * Pow(z, k))
            return s * s * Abs(num) * Abs(num) / (Abs(den) * Abs(den))

        def post(ex):
            if scalar:
                same(ex, 'power spectrum at a frequency', r, psd(f))
            else:
                same(ex, 'power spectrum', r, V(nf, lambda i: psd(El('freq', i))))
        return post
    return PU('power_spectrum%s' % (' (one frequency)' if scalar else ''), body, functions=['power_spectrum'])


def u_power_spectrum_scalar():
    return u_power_spectrum(True)


def autocov(sigsqr, p, m, r, ma, lag):
    """Partial fractions of the autocovariance: roots r(k), MA coefficients ma(l), l < m <= p."""
    def term(k):
        den = -2 * real(r(k)) * ProdR(0, p, lambda l: Ite(ne(l, k), (r(l) - r(k)) * (conj(r(l)) + r(k)), ONE))
        s1 = SumR(0, m, lambda l: ma(l) * Pow(r(k), l))
        s2 = SumR(0, m, lambda l: ma(l) * Pow(-r(k), l))
        return s1 * s2 * Exp(r(k) * Abs(lag)) / den
    return sigsqr * real(SumR(0, p, term))


def u_carma_variance():
    def body(ex):
        p, m = Var('p', 'i'), Var('m', 'i')
        ex.assume(And(ge(p, 1), ge(m, 1), le(m, p)))
        r, ma = vec(ex, 'r', p, 'c'), vec(ex, 'ma', m)
        s, lag = Var('sigsqr'), Var('lag')
        v = ex.run_function('carma_variance', [s, r, ma, lag])

        def post(ex):
            same(ex, 'autocovariance', v, autocov(s, p, m, lambda k: El('r', k, sort='c'), lambda l: El('ma', l), lag))
        return post
    return PU('carma_variance', body)


def u_get_ar_roots():
    def body(ex):
        n = Var('nc', 'i')
        extra = Var('extra', 'i')
        ex.assume(And(ge(n, 0), ge(extra, 0), le(extra, 1), ge(n + extra, 1)))
        j = fresh('j', 'i')
        # centroids are zero or positive (above the threshold below which the code takes them as zero)
        ex.assume(Forall(j, n, Or(eq(El('c', j), 0), gt(El('c', j), Fraction(1, 10 ** 10)))))
        w, c = vec(ex, 'w', n + extra), vec(ex, 'c', n)
        r = ex.run_function('get_ar_roots', [w, c])

        def post(ex):
            l = ex.val(r)
            if isinstance(l, Arr) or not isinstance(l, Log):
                raise Unsupported('roots built in another way')
            ev = norm_ev(l.ev)
            k = Var('kk', 'i')
            root = lambda i: -2 * PI * (El('w', i) + I * El('c', i))
            if ev and ev[0][0] == 'rep':
                rep, rest = ev[0], ev[1:]
                ex.oblig('one group of roots for every centroid', eq(rep[2], n))
                bd = subst_val(rep[3], {vname(rep[1]): k})
                alts = bd[0][1:] if len(bd) == 1 and bd[0][0] == 'alt' else ((TRUE, bd),)
                hy = ex.pc + [le(0, k), lt(k, n)]
                for f, e in alts:
                    e = norm_ev(e)
                    for pos, want in ((gt(El('c', k), 0), (('app', root(k)), ('app', conj(root(k))))),
                                      (le(El('c', k), 0), (('app', root(k)),))):
                        for sfx, g, h in same_goals_ev(e, want):
                            ex.oblig('roots of one centroid%s' % sfx, g, 'post', hy + [f, pos] + h)
            else:
                rest = ev
                ex.oblig('no centroid, no group of roots', eq(n, 0))
            want = (('app', -2 * PI * El('w', n)),)
            for pos, w_ in ((eq(extra, 1), want), (eq(extra, 0), ())):
                for sfx, g, h in same_goals_ev(rest, w_):
                    ex.oblig('real root for an extra width%s' % sfx, g, 'post', ex.pc + [pos] + h)
        return post
    return PU('get_ar_roots', body)


# ------------------------------------------------------------------ quantities derived from the trace (Y02)
def sample_obj(ex, cls='CarmaSample', **fields):
    o = ex.newobj(cls, 'this')
    for k, v in fields.items():
        ex.setf(o, k, v)
    return o


def samples(ex, o, **kw):
    ex.setf(o, '_samples', ex.alloc(Struct(**kw), 'dict'))


def got(ex, o, key):
    d = ex.val(ex.getf(o, '_samples'))
    if key not in d.f:
        raise Unsupported('no entry %s' % key)
    return ex.val(d.f[key])


def orders(ex, qmin=0):
    p, q, N = Var('p', 'i'), Var('q', 'i'), Var('N', 'i')
    ex.assume(And(ge(p, 2), ge(q, qmin), lt(q, p), ge(N, 0)))
    return p, q, N


def u_generate_from_trace():
    def body(ex):
        p, q, N = orders(ex)
        o = sample_obj(ex, q=q)
        samples(ex, o)
        tr = mat(ex, 'trace', N, 3 + p + q)
        th = lambda i, j: El('trace', i, topoly(j))
        ex.run_method('CarmaSample', 'generate_from_trace', o, [tr])

        def post(ex):
            same(ex, 'AR order', ex.getf(o, 'p'), p)
            same(ex, 'variance', got(ex, o, 'var'), V(N, lambda i: th(i, 0) * th(i, 0)))
            same(ex, 'measurement error scale', got(ex, o, 'measerr_scale'), V(N, lambda i: th(i, 1)))
            same(ex, 'mean', got(ex, o, 'mu'), V(N, lambda i: th(i, 2)))
            same(ex, 'quadratic coefficients', got(ex, o, 'quad_coefs'), M(N, p, lambda i, j: Exp(th(i, 3 + j))))
        return post
    return PU('CarmaSample.generate_from_trace', body)


def pair_goals(ex, name, r, a, n, N, extra=()):
    """r(s, j), j < n, are the roots of the quadratic factors x^2 + a(s, 2i+1) x + a(s, 2i), and for odd n of x + a(s, n-1)."""
    s, i = Var('s', 'i'), Var('i', 'i')
    hy = ex.pc + [le(0, s), lt(s, N), le(0, i)] + list(extra)
    pr = hy + [lt(2 * i + 1, n)]
    ex.oblig('%s: sum of the roots of a quadratic factor' % name, eq(r(s, 2 * i) + r(s, 2 * i + 1), -a(s, 2 * i + 1)), 'post', pr)
    ex.oblig('%s: product of the roots of a quadratic factor' % name, eq(r(s, 2 * i) * r(s, 2 * i + 1), a(s, 2 * i)), 'post', pr)
    ex.oblig('%s: root of the linear factor' % name, eq(r(s, 2 * i), -a(s, 2 * i)), 'post', hy + [eq(2 * i + 1, n)])


def u_ar_roots():
    def body(ex):
        p, q, N = orders(ex)
        o = sample_obj(ex, p=p, q=q)
        samples(ex, o, var=vec(ex, 'var', N), quad_coefs=mat(ex, 'quad', N, p))
        a = lambda i, j: El('quad', i, topoly(j))
        ex.run_method('CarmaSample', '_ar_roots', o, [])

        def post(ex):
            R, W, C = [got(ex, o, k) for k in ('ar_roots', 'psd_width', 'psd_centroid')]
            for nm, x in (('ar_roots', R), ('psd_width', W), ('psd_centroid', C)):
                if ndim(x) != 2:
                    raise Unsupported('shape of ' + nm)
                ex.oblig('%s: one row per sample, one column per root' % nm, And(eq(x.dims[0], N), eq(x.dims[1], p)))
            pair_goals(ex, 'AR roots', lambda s, j: R.get(s, j), a, p, N)
            s, j = Var('s', 'i'), Var('i', 'i')
            hy = ex.pc + [le(0, s), lt(s, N), le(0, j), lt(j, p)]
            ex.oblig('Lorentzian width', eq(W.get(s, j), -real(R.get(s, j)) / (2 * PI)), 'post', hy)
            ex.oblig('Lorentzian centroid', eq(C.get(s, j), Abs(imag(R.get(s, j))) / (2 * PI)), 'post', hy)
        return post
    return PU('CarmaSample._ar_roots', body)


def u_ar_coefs():
    def body(ex):
        p, q, N = orders(ex)
        o = sample_obj(ex, p=p, q=q)
        samples(ex, o, ar_roots=mat(ex, 'R', N, p, 'c'))
        ex.run_method('CarmaSample', '_ar_coefs', o, [])

        def post(ex):
            same(ex, 'AR polynomial: monic polynomial of the roots, decreasing powers', got(ex, o, 'ar_coefs'),
                 M(N, p + 1, lambda i, k: real(polycoef(p, lambda j: El('R', i, j, sort='c'), k))))
        return post
    return PU('CarmaSample._ar_coefs', body)


def poly_roots(x):
    """The root function of the polynomial whose coefficients x refers to."""
    for a in all_atoms(x).values():
        if a.kind == 'app' and a.args[0] == 'polycoef':
            for m in all_atoms(a.args[1][2], into_binders=False).values():
                if m.kind == 'prod':
                    (v,), b = open_binder(m)
                    return lambda j: pyfe.CHI - subst(b, {vname(v): topoly(j)})
    raise Unsupported('no polynomial of roots')


def u_ma_coefs():
    def body(ex):
        p, q, N = orders(ex)
        o = sample_obj(ex, p=p, q=q)
        samples(ex, o)
        tr = mat(ex, 'trace', N, 3 + p + q)
        th = lambda i, j: El('trace', i, topoly(j))
        ex.run_method('CarmaSample', '_ma_coefs', o, [tr])

        def post(ex):
            c = got(ex, o, 'ma_coefs')

            if ex.branch(eq(q, 0)):
                same(ex, 'MA polynomial of order 0', c, M(N, ONE, lambda i, k: ONE))
                return
            s, j = Var('s', 'i'), Var('j', 'i')
            r = poly_roots(c.get(s, j))
            at = lambda i, n: subst(r(n), {'s': topoly(i)})
            pair_goals(ex, 'MA roots', at, lambda i, n: Exp(th(i, 3 + p + n)), q, N)
            same(ex, 'MA polynomial: the polynomial of the roots, unit constant, increasing powers', c,
                 M(N, q + 1, lambda i, k: real(polycoef(q, lambda n: at(i, n), q - k) / polycoef(q, lambda n: at(i, n), q))))
        return post
    return PU('CarmaSample._ma_coefs', body)


def u_sigma_noise():
    def body(ex):
        p, q, N = orders(ex)
        o = sample_obj(ex, p=p, q=q)
        samples(ex, o, var=vec(ex, 'var', N), ar_roots=mat(ex, 'R', N, p, 'c'), ma_coefs=mat(ex, 'ma', N, q + 1))
        ex.run_method('CarmaSample', '_sigma_noise', o, [])

        def post(ex):
            def unit(i):
                return autocov(ONE, p, q + 1, lambda k: El('R', i, k, sort='c'), lambda l: El('ma', i, l), ZERO)
            s = got(ex, o, 'sigma')
            same(ex, 'noise amplitude', s, V(N, lambda i: Sqrt(El('var', i) / unit(i))))
        return post
    return PU('CarmaSample._sigma_noise', body)


def u_car1_trace():
    def body(ex):
        N = Var('N', 'i')
        ex.assume(ge(N, 0))
        o = sample_obj(ex, 'Car1Sample', p=ONE, q=ZERO)
        samples(ex, o)
        tr = mat(ex, 'trace', N, 4)
        th = lambda i, j: El('trace', i, topoly(j))
        ex.run_method('Car1Sample', 'generate_from_trace', o, [tr])
        ex.run_method('Car1Sample', '_sigma_noise', o, [])

        def post(ex):
            same(ex, 'variance', got(ex, o, 'var'), V(N, lambda i: th(i, 0) * th(i, 0)))
            same(ex, 'measurement error scale', got(ex, o, 'measerr_scale'), V(N, lambda i: th(i, 1)))
            same(ex, 'mean', got(ex, o, 'mu'), V(N, lambda i: th(i, 2)))
            same(ex, 'log of the rate', got(ex, o, 'log_omega'), V(N, lambda i: th(i, 3)))
            same(ex, 'noise amplitude', got(ex, o, 'sigma'), V(N, lambda i: Sqrt(2 * th(i, 0) * th(i, 0) * Exp(th(i, 3)))))
        return post
    return PU('Car1Sample.generate_from_trace', body, functions=['Car1Sample.generate_from_trace', 'Car1Sample._sigma_noise'])


def sampler(ex, N, d):
    """Contracts of the sampler object returned by the extension: log posterior and parameter values of each stored
    sample, the log density at a vector (the log likelihood once the maximum-likelihood switch is set) and the log prior."""
    flag = ('g', 'mle')

    def row(ex, v):
        x = ex.val(v)
        x = x if isinstance(x, Arr) else ex.toarr(x)
        if not isinstance(x, Arr) or ndim(x) != 1:
            raise Unsupported('argument of the density')
        k = fresh('k', 'i')
        at = [a for a in all_atoms(x.get(k)).values() if a.kind == 'el' and a.args[0] == 'trace']
        if not at or vname(k) in at[0].args[1][0].fv:
            raise Unsupported('argument of the density')
        i = at[0].args[1][0]
        ex.oblig('density taken at one stored vector (length)', eq(x.dims[0], d), 'call')
        ex.oblig('density taken at one stored vector (elements)', eq(x.get(k), El('trace', i, k)), 'call',
                 ex.pc + [le(0, k), lt(k, d)])
        return i

    def setmle(ex, o, a, kw):
        ex.store[flag] = ONE if a[0] is not False and not (isinstance(a[0], F) and a[0].kind == 'F') else ZERO
        return NONE

    def density(ex, o, a, kw):
        f = ex.store.get(flag, ZERO)
        i = row(ex, a[0])
        return Ite(eq(f, 1), El('loglik', i), El('logdens', i))

    return {
        'Sampler.GetLogLikes': lambda ex, o, a, kw: vec(ex, 'logpost', N),
        'Sampler.getSamples': lambda ex, o, a, kw: mat(ex, 'trace', N, d),
        'Sampler.SetMLE': setmle,
        'Sampler.getLogDensity': density,
        'Sampler.getLogPrior': lambda ex, o, a, kw: El('logprior', row(ex, a[0])),
    }


def u_sample_init():
    p, q, N = Var('p', 'i'), Var('q', 'i'), Var('N', 'i')
    th = lambda i, j: El('trace', i, topoly(j))
    col = lambda f: M(N, ONE, lambda i, k: f(i))
    sym = lambda nm, c, es='r': Arr.sym(nm, 'mat', es, (N, c))

    def need(ex, o, key, want):
        same(ex, 'call: entry %s' % key, got(ex, o, key), want, kind='call')

    def put(ex, o, key, v):
        r = ex.getf(o, '_samples')
        ex.store_ref(r, ex.val(r).set(key, ex.alloc(v)))

    def c_roots(ex, o, a, kw):
        need(ex, o, 'quad_coefs', M(N, p, lambda i, j: Exp(th(i, 3 + j))))
        put(ex, o, 'ar_roots', sym('ar_roots', p, 'c'))
        put(ex, o, 'psd_width', sym('psd_width', p))
        put(ex, o, 'psd_centroid', sym('psd_centroid', p))
        return NONE

    def c_ar(ex, o, a, kw):
        need(ex, o, 'ar_roots', sym('ar_roots', p, 'c'))
        put(ex, o, 'ar_coefs', sym('ar_coefs', p + 1))
        return NONE

    def c_ma(ex, o, a, kw):
        same(ex, 'call: trace of the MA coefficients', a[0], M(N, 3 + p + q, th), kind='call')
        put(ex, o, 'ma_coefs', sym('ma_coefs', q + 1))
        return NONE

    def c_sigma(ex, o, a, kw):
        need(ex, o, 'var', V(N, lambda i: th(i, 0) * th(i, 0)))
        need(ex, o, 'ar_roots', sym('ar_roots', p, 'c'))
        need(ex, o, 'ma_coefs', sym('ma_coefs', q + 1))
        put(ex, o, 'sigma', Arr.sym('sigma', 'vec', 'r', (N,)))
        return NONE

    def body(ex):
        orders(ex)
        n = Var('n', 'i')
        ex.assume(ge(n, 1))
        o = ex.newobj('CarmaSample', 'this')
        s = ex.newobj('Sampler', 'smp')
        t, y, e = vec(ex, 't', n), vec(ex, 'y', n), vec(ex, 'e', n)
        ex.run_method('CarmaSample', '__init__', o, [t, y, e, s], {'q': q})

        def post(ex):
            same(ex, 'times kept', ex.getf(o, 'time'), V(n, lambda i: El('t', i)))
            same(ex, 'values kept', ex.getf(o, 'y'), V(n, lambda i: El('y', i)))
            same(ex, 'errors kept', ex.getf(o, 'ysig'), V(n, lambda i: El('e', i)))
            same(ex, 'AR order', ex.getf(o, 'p'), p)
            same(ex, 'MA order', ex.getf(o, 'q'), q)
            for key, w in (('logpost', col(lambda i: El('logpost', i))), ('loglik', col(lambda i: El('loglik', i))),
                           ('var', col(lambda i: th(i, 0) * th(i, 0))), ('measerr_scale', col(lambda i: th(i, 1))),
                           ('mu', col(lambda i: th(i, 2))), ('quad_coefs', M(N, p, lambda i, j: Exp(th(i, 3 + j)))),
                           ('sigma', col(lambda i: El('sigma', i))), ('ar_roots', sym('ar_roots', p, 'c')),
                           ('psd_width', sym('psd_width', p)), ('psd_centroid', sym('psd_centroid', p)),
                           ('ar_coefs', sym('ar_coefs', p + 1)), ('ma_coefs', sym('ma_coefs', q + 1))):
                same(ex, 'samples of ' + key, got(ex, o, key), w)
        return post
    cs = sampler(None, N, 3 + p + q)
    cs.update({'CarmaSample._ar_roots': c_roots, 'CarmaSample._ar_coefs': c_ar, 'CarmaSample._ma_coefs': c_ma,
               'CarmaSample._sigma_noise': c_sigma})
    return PU('CarmaSample.__init__', body, contracts=cs)


def u_car1_init():
    N = Var('N', 'i')
    th = lambda i, j: El('trace', i, topoly(j))
    col = lambda f: M(N, ONE, lambda i, k: f(i))

    def body(ex):
        n = Var('n', 'i')
        ex.assume(And(ge(n, 1), ge(N, 0)))
        o = ex.newobj('Car1Sample', 'this')
        s = ex.newobj('Sampler', 'smp')
        t, y, e = vec(ex, 't', n), vec(ex, 'y', n), vec(ex, 'e', n)
        ex.run_method('Car1Sample', '__init__', o, [t, y, e, s])

        def post(ex):
            same(ex, 'times kept', ex.getf(o, 'time'), V(n, lambda i: El('t', i)))
            same(ex, 'values kept', ex.getf(o, 'y'), V(n, lambda i: El('y', i)))
            same(ex, 'errors kept', ex.getf(o, 'ysig'), V(n, lambda i: El('e', i)))
            same(ex, 'AR order', ex.getf(o, 'p'), ONE)
            same(ex, 'MA order', ex.getf(o, 'q'), ZERO)
            for key, f in (('logpost', lambda i: El('logpost', i)), ('loglik', lambda i: El('logpost', i) - El('logprior', i)),
                           ('var', lambda i: th(i, 0) * th(i, 0)), ('measerr_scale', lambda i: th(i, 1)), ('mu', lambda i: th(i, 2)),
                           ('log_omega', lambda i: th(i, 3)),
                           ('sigma', lambda i: Sqrt(2 * th(i, 0) * th(i, 0) * Exp(th(i, 3))))):
                same(ex, 'samples of ' + key, got(ex, o, key), col(f))
        return post
    return PU('Car1Sample.__init__', body, contracts=sampler(None, N, topoly(4)))


# ------------------------------------------------------------------ maximum-likelihood estimate of a sample (Y07)
def c_variance(ex, o, a, kw):
    """carma_variance at lag 0 (proved in u_carma_variance)."""
    names = ['sigsqr', 'ar_roots', 'ma_coefs', 'lag']
    b = dict(zip(names, a))
    b.update(kw)
    if 'lag' in b and ex.num(b['lag']).const() != 0:
        raise Unsupported('lag')
    r = ex.toarr(b['ar_roots'])
    ma = ex.toarr(b['ma_coefs']) if 'ma_coefs' in b else V(ONE, lambda i: ONE)
    if not isinstance(r, Arr) or not isinstance(ma, Arr) or ndim(r) != 1 or ndim(ma) != 1:
        raise Unsupported('arguments of the variance')
    ex.oblig('call: order of the MA polynomial below the AR order', le(ma.dims[0], r.dims[0]), 'call')
    return autocov(ex.num(b['sigsqr']), r.dims[0], ma.dims[0], r.get, ma.get, ZERO)


def u_add_mle():
    p, q, N = Var('p', 'i'), Var('q', 'i'), Var('N', 'i')
    x = lambda j: El('x', topoly(j))

    def body(ex):
        orders(ex)
        o = sample_obj(ex, p=p, q=q)
        names = ('var', 'ar_roots', 'sigma')
        samples(ex, o, **{k: ex.alloc(vec(ex, 's.' + k, N), k) for k in names})
        m = ex.newobj('OptRes', 'mle')
        ex.setf(m, 'x', vec(ex, 'x', 3 + p + q))
        ex.setf(m, 'fun', Var('fun'))
        ex.run_method('CarmaSample', 'add_mle', o, [m])

        def post(ex):
            left = ex.val(ex.getf(o, '_samples'))
            for k in names:
                same(ex, 'the samples of %s are kept' % k, ex.val(left.f[k]), V(N, lambda i: El('s.' + k, topoly(i))))
            same(ex, 'the fitted vector is kept', ex.val(ex.getf(m, 'x')), V(3 + p + q, x))
            same(ex, 'the AR order is kept', ex.getf(o, 'p'), p)
            same(ex, 'the MA order is kept', ex.getf(o, 'q'), q)
            d = ex.val(ex.getf(o, 'mle'))

            def entry(k):
                if not isinstance(d, Struct) or k not in d.f:
                    raise Unsupported('no entry ' + k)
                return ex.val(d.f[k])
            same(ex, 'log likelihood', entry('loglik'), -Var('fun'))
            same(ex, 'variance', entry('var'), x(0) * x(0))
            same(ex, 'measurement error scale', entry('measerr_scale'), x(1))
            same(ex, 'mean', entry('mu'), x(2))
            R, W, C = [entry(k) for k in ('ar_roots', 'psd_width', 'psd_cent')]
            for nm, y in (('roots', R), ('widths', W), ('centroids', C)):
                if not isinstance(y, Arr) or ndim(y) != 1:
                    raise Unsupported('shape of the ' + nm)
                ex.oblig('one of the %s per root' % nm, eq(y.dims[0], p))
            pair_goals(ex, 'AR roots', lambda s, j: R.get(topoly(j)), lambda s, j: Exp(x(3 + j)), p, ONE)
            j = Var('i', 'i')
            hy = ex.pc + [le(0, j), lt(j, p)]
            ex.oblig('Lorentzian width', eq(W.get(j), -real(R.get(j)) / (2 * PI)), 'post', hy)
            ex.oblig('Lorentzian centroid', eq(C.get(j), Abs(imag(R.get(j))) / (2 * PI)), 'post', hy)
            same(ex, 'AR polynomial: monic polynomial of the roots, decreasing powers', entry('ar_coefs'),
                 V(p + 1, lambda k: real(polycoef(p, R.get, k))))
            c = entry('ma_coefs')
            if ex.branch(eq(q, 0)):
                c = ex.num(c)
                same(ex, 'MA polynomial of order 0', c, V(ONE, lambda k: ONE) if isinstance(c, Arr) else ONE)
                ma = lambda l: ONE
            else:
                r = poly_roots(c.get(j))
                pair_goals(ex, 'MA roots', lambda s, n: r(n), lambda s, n: Exp(x(3 + p + n)), q, ONE)
                same(ex, 'MA polynomial: the polynomial of the roots, unit constant, increasing powers', c,
                     V(q + 1, lambda k: real(polycoef(q, r, q - k) / polycoef(q, r, q))))
                ma = c.get
            same(ex, 'noise amplitude', entry('sigma'),
                 Sqrt(x(0) * x(0) / real(autocov(ONE, p, q + 1, R.get, ma, ZERO))))
        return post
    return PU('CarmaSample.add_mle', body, contracts={'carma_variance': c_variance})


# ------------------------------------------------------------------ predictions from a sample (Y03)
MODES = ('map', 'median', 'mean', 'random')


def pick_mode(ex, modes=MODES):
    for i, m in enumerate(modes[:-1]):
        if ex.branch(eq(Var('mode', 'i'), i)):
            return m
    return modes[-1]


def c_filter(names):
    """Constructor of a filter of the extension: keeps its arguments."""
    def c(ex, o, a, kw):
        k = ex.newobj('KF', 'kf')
        if len(a) != len(names) or kw:
            raise Unsupported('arguments of the filter')
        for nm, v in zip(names, a):
            x = ex.val(v)
            ex.setf(k, nm, ex.alloc(ex.toarr(x)) if isinstance(x, (Log, Seq, Arr)) else ex.num(v))
        return k
    return c


def c_random_index(ex, o, a, kw):
    lo, hi = ex.num(a[0]), ex.num(a[1])
    k = fresh('rnd', 'i')
    ex.assume(And(le(lo, k), le(k, hi)))
    return k


def the_index(x, name):
    for a in all_atoms(x).values():
        if a.kind == 'el' and a.args[0] == name:
            return a.args[1][0]
    raise Unsupported('no sample of ' + name)


def data_goals(ex, kf, n, mu):
    same(ex, 'filter times', ex.getf(kf, 't'), V(n, lambda i: El('t', i)))
    same(ex, 'filter values: data minus the mean', ex.getf(kf, 'y'), V(n, lambda i: El('y', i) - mu))
    same(ex, 'filter errors', ex.getf(kf, 'e'), V(n, lambda i: El('e', i)))


def u_make_filter(cls='CarmaSample'):
    p, q, N, n = Var('p', 'i'), Var('q', 'i'), Var('N', 'i'), Var('n', 'i')
    S = lambda nm: (lambda i: El(nm, i, ZERO))
    car1 = cls == 'Car1Sample'

    def body(ex):
        ex.assume(And(ge(p, 2), ge(q, 0), lt(q, p), ge(N, 1), ge(n, 1)))
        o = sample_obj(ex, cls, p=ONE if car1 else p, q=ZERO if car1 else q, time=vec(ex, 't', n), y=vec(ex, 'y', n), ysig=vec(ex, 'e', n))
        f = dict(logpost=mat(ex, 'logpost', N, 1), sigma=mat(ex, 'sigma', N, 1), mu=mat(ex, 'mu', N, 1), var=mat(ex, 'var', N, 1))
        if car1:
            f.update(log_omega=mat(ex, 'log_omega', N, 1))
        else:
            f.update(ar_roots=mat(ex, 'R', N, p, 'c'), ma_coefs=mat(ex, 'ma', N, q + 1))
        samples(ex, o, **f)
        mode = pick_mode(ex, MODES[:3] if car1 else MODES)
        kf, mu = ex.run_method(cls, 'makeKalmanFilter', o, [mode])

        def post(ex):
            g = lambda k: ex.val(ex.getf(kf, k))
            mu_, s2 = ex.num(mu), ex.num(g('sigsqr'))
            data_goals(ex, kf, n, mu_)
            if car1:
                scal = [('rate', 'log_omega')]
                rows = []
            else:
                scal = []
                rows = [('AR roots', 'roots', 'R', p, 'c'), ('MA coefficients', 'ma', 'ma', q + 1, 'r')]
            if mode in ('map', 'random'):
                m = the_index(s2, 'sigma')
                ex.oblig('the sample exists', And(le(0, m), lt(m, N)))
                if mode == 'map':
                    j = Var('j', 'i')
                    ex.oblig('the sample has the largest log posterior', le(S('logpost')(j), S('logpost')(m)), 'post',
                             ex.pc + [le(0, j), lt(j, N)])
                one = lambda nm: S(nm)(m)
                row = lambda nm, es: (lambda k: El(nm, m, k, sort=es))
                same(ex, 'noise variance of the sample', s2, one('sigma') * one('sigma'))
            else:
                est = median if mode == 'median' else mean
                one = lambda nm: est(N, S(nm))
                row = lambda nm, es: (lambda k: est(N, lambda i: El(nm, i, k, sort=es)))
                if mode == 'mean':
                    same(ex, 'mean noise variance', s2, mean(N, lambda i: S('sigma')(i) * S('sigma')(i)))
                else:
                    same(ex, 'median noise variance', s2, one('sigma') * one('sigma'))
            same(ex, 'mean level', mu_, one('mu'))
            for what, nm in scal:
                same(ex, what, g('omega'), Exp(one(nm)))
            for what, nm, src, d, es in rows:
                same(ex, what, g(nm), V(d, row(src, es)))
        return post
    if car1:
        cs = {'_carmcmc.KalmanFilter1': c_filter(['t', 'y', 'e', 'sigsqr', 'omega'])}
    else:
        cs = {'_carmcmc.KalmanFilterp': c_filter(['t', 'y', 'e', 'sigsqr', 'roots', 'ma']), 'numpy.random.random_integers': c_random_index}
    return PU(cls + '.makeKalmanFilter', body, contracts=cs)


def u_make_filter1():
    return u_make_filter('Car1Sample')


def filter_contracts(cls, mu):
    """A filter made for the sample: prediction and simulation after filtering."""
    def make(ex, o, a, kw):
        b = list(a) + list(kw.values())
        k = ex.newobj('KF', 'kf')
        ex.setf(k, 'mode', b[0])
        ex.setf(k, 'done', ZERO)
        return (k, mu)

    def filt(ex, o, a, kw):
        ex.setf(o, 'done', ONE)
        return NONE

    def ready(ex, o):
        ex.oblig('call: the filter has run', eq(ex.getf(o, 'done'), 1), 'call')

    def pred(ex, o, a, kw):
        ready(ex, o)
        return ObjV(('pred', ex.num(a[0])), 'Pair')

    def sim(ex, o, a, kw):
        ready(ex, o)
        x = ex.toarr(a[0])
        ex.setf(o, 'times', ex.alloc(x))
        return ex.alloc(Arr.sym('sim', 'vec', 'r', (x.dims[0],)))
    return {cls + '.makeKalmanFilter': make, 'KF.Filter': filt, 'KF.Predict': pred, 'KF.Simulate': sim,
            'attr:Pair.first': lambda ex, o: App('pmean', o.id[1]), 'attr:Pair.second': lambda ex, o: App('pvar', o.id[1])}


def u_predict():
    n, mu = Var('n', 'i'), Var('mu')

    def body(ex):
        ex.assume(ge(n, 0))
        o = sample_obj(ex, p=Var('p', 'i'), q=Var('q', 'i'))
        scalar = ex.branch(eq(Var('scalar', 'i'), 1))
        mode = pick_mode(ex)
        t = Var('tnew') if scalar else vec(ex, 'tn', n)
        r = ex.run_method('CarmaSample', 'predict', o, [t], {'bestfit': mode.upper()})

        def post(ex):
            if not isinstance(r, tuple) or len(r) != 2:
                raise Unsupported('result')
            same_mode(ex, mode)
            if scalar:
                same(ex, 'predicted value at one time', r[0], App('pmean', Var('tnew')) + mu)
                same(ex, 'predicted variance at one time', r[1], App('pvar', Var('tnew')))
            else:
                same(ex, 'predicted values', r[0], V(n, lambda i: App('pmean', El('tn', i)) + mu))
                same(ex, 'predicted variances', r[1], V(n, lambda i: App('pvar', El('tn', i))))
        return post
    return PU('CarmaSample.predict', body, contracts=filter_contracts('CarmaSample', mu))


def same_mode(ex, mode):
    m = [ex.val(v) for k, v in ex.store.items() if k[0] == 'f' and k[-1] == 'mode']
    if len(m) != 1 or not isinstance(m[0], str):
        raise Unsupported('one filter expected')
    ex.oblig('the filter is made for the requested estimate', TRUE if m[0] == mode else FALSE)


def u_simulate():
    n, mu = Var('n', 'i'), Var('mu')

    def body(ex):
        ex.assume(ge(n, 0))
        o = sample_obj(ex, p=Var('p', 'i'), q=Var('q', 'i'))
        scalar = ex.branch(eq(Var('scalar', 'i'), 1))
        mode = pick_mode(ex)
        t = Var('tnew') if scalar else vec(ex, 'tn', n)
        r = ex.run_method('CarmaSample', 'simulate', o, [t], {'bestfit': mode.upper()})

        def post(ex):
            same_mode(ex, mode)
            ts = [v for k, v in ex.store.items() if k[0] == 'f' and k[-1] == 'times']
            if len(ts) != 1:
                raise Unsupported('one simulation expected')
            d, f = (ONE, lambda i: Var('tnew')) if scalar else (n, lambda i: El('tn', i))
            same(ex, 'times simulated', ts[0], V(d, f))
            same(ex, 'simulated values plus the mean', r, V(d, lambda i: El('sim', i) + mu))
        return post
    return PU('CarmaSample.simulate', body, contracts=filter_contracts('CarmaSample', mu))


# ------------------------------------------------------------------ model data and sampler arguments (Y01)
def u_model_init():
    n = Var('n', 'i')

    def body(ex):
        ex.assume(ge(n, 1))
        p, q = Var('p', 'i'), Var('q', 'i')
        ex.assume(And(ge(p, 1), ge(q, 0), lt(q, p)))
        o = ex.newobj('CarmaModel', 'this')
        ex.run_method('CarmaModel', '__init__', o, [vec(ex, 't', n), vec(ex, 'y', n), vec(ex, 'e', n)], {'p': p, 'q': q})

        def post(ex):
            same(ex, 'AR order', ex.getf(o, 'p'), p)
            same(ex, 'MA order', ex.getf(o, 'q'), q)
            T_ = ex.toarr(ex.getf(o, 'time'))
            m = T_.dims[0]
            k, i = Var('k', 'i'), Var('i', 'i')
            rows = [a for a in all_atoms(T_.get(k)).values() if a.kind == 'el' and a.args[0] == 't']
            if len(rows) != 1:
                raise Unsupported('times')
            at = lambda j: subst(rows[0].args[1][0], {'k': topoly(j)})
            hk = ex.pc + [le(0, k), lt(k, m)]
            ex.oblig('every row is one of the input', And(le(0, at(k)), lt(at(k), n)), 'post', hk)
            for what, fld, src in (('times', 'time', 't'), ('values', 'y', 'y'), ('errors', 'ysig', 'e'), ('times for the sampler', '_time', 't'),
                                   ('values for the sampler', '_y', 'y'), ('errors for the sampler', '_ysig', 'e')):
                x = ex.toarr(ex.getf(o, fld))
                ex.oblig('%s: number of rows' % what, eq(x.dims[0], m))
                ex.oblig('%s: rows kept together' % what, eq(x.get(k), El(src, at(k))), 'post', hk)
            ex.oblig('times increase strictly', lt(T_.get(k), T_.get(k + 1)), 'post', ex.pc + [le(0, k), lt(k + 1, m)])
            # every input time is kept: the position is found from the ranks the library functions give
            hi = ex.pc + [le(0, i), lt(i, n)]
            keys = {}
            for x in [m] + hk:
                for a in all_atoms(x).values():
                    if a.kind == 'app' and a.args[0] in ('n_unique', 'sort_index'):
                        keys.setdefault(a.args[0], set()).add(a.args[1][0])
            cands = []
            for u in keys.get('n_unique', ()):
                cands.append(App('unique_rank', u, i, sort='i'))
                for s in keys.get('sort_index', ()):
                    cands.append(App('unique_rank', u, App('sort_rank', s, i, sort='i'), sort='i'))
            for w in cands:
                g = And(le(0, w), lt(w, m), eq(T_.get(w), El('t', i)))
                if prove(g, hi):
                    ex.oblig('every input time is kept', g, 'inv', hi)
                    break
            else:
                raise Unsupported('no witness that every input time is kept')
        return post
    return PU('CarmaModel.__init__', body)


def u_run_mcmc():
    n, ns, nb, nt, nth = [Var(x, 'i') for x in ('n', 'nsamples', 'nburnin', 'ntemps', 'nthin')]
    p, q = Var('p', 'i'), Var('q', 'i')
    opt = lambda ex, f, nm: ex.branch(eq(Var('given_' + nm, 'i'), 1))

    def call(nm):
        def c(ex, o, a, kw):
            if kw:
                raise Unsupported('keyword arguments of the sampler')
            ex.store[('g', 'run')] = (nm, tuple(a))
            return ex.newobj('Sampler', 'smp')
        return c

    def wrap(nm):
        def c(ex, o, a, kw):
            k = ex.newobj(nm, 'sample')
            b = dict(zip(['time', 'y', 'ysig', 'sampler'] + ([] if nm == 'Car1Sample' else ['q']), a))
            b.update(kw)
            b.pop('filename', None)
            if nm == 'CarmaSample' and 'q' not in b:
                b['q'] = ZERO
            for f, v in b.items():
                ex.setf(k, f, v)
            return k
        return c

    def body(ex):
        ex.assume(And(ge(n, 1), ge(ns, 1), ge(nb, 0), ge(nt, 1), ge(nth, 1), ge(p, 1), ge(q, 0), lt(q, p)))
        o = ex.newobj('CarmaModel', 'this')
        d = {}
        for f, s in (('time', 't'), ('y', 'y'), ('ysig', 'e')):
            ex.setf(o, f, vec(ex, s, n))
            d[f] = ex.alloc(Arr.sym(s, 'vec', 'r', (n,)), 'vecD')
            ex.setf(o, '_' + f, d[f])
        ex.setf(o, 'p', p)
        ex.setf(o, 'q', q)
        kw = {}
        if ex.branch(eq(Var('given1', 'i'), 1)):
            kw['nburnin'] = nb
        if ex.branch(eq(Var('given2', 'i'), 1)):
            kw['ntemperatures'] = nt
        if ex.branch(eq(Var('given3', 'i'), 1)):
            kw['nthin'] = nth
        ini = None
        if ex.branch(eq(Var('given4', 'i'), 1)):
            kw['init'] = ini = ex.alloc(Arr.sym('init', 'vec', 'r', (Var('ni', 'i'),)), 'vecD')
            ex.assume(ge(Var('ni', 'i'), 0))
        r = ex.run_method('CarmaModel', 'run_mcmc', o, [ns], kw)

        def post(ex):
            if ('g', 'run') not in ex.store:
                raise Unsupported('no run of the sampler')
            nm, a = ex.store[('g', 'run')]
            car1 = ex.branch(eq(p, 1))
            want = [('sample count', ns), ('burn-in', nb if 'nburnin' in kw else Idiv(ns, topoly(2))),
                    ('times', 't'), ('values', 'y'), ('errors', 'e')]
            if not car1:
                want += [('AR order', p), ('MA order', q), ('number of temperatures', nt if 'ntemperatures' in kw else Max(topoly(10), p + q)), ('model switch', FALSE)]
            want += [('thinning', nth if 'nthin' in kw else ONE), ('starting vector', 'init' if ini is not None else '')]
            ex.oblig('sampler of the order', TRUE if (nm == 'run_mcmc_car1') == bool(car1) else FALSE)
            if len(a) != len(want):
                raise Unsupported('number of arguments of the sampler')
            for (what, w), v in zip(want, a):
                if w is FALSE:
                    f = ex.truth(v)
                    ex.oblig(what, Not(f))
                elif isinstance(w, str):
                    x = ex.toarr(v)
                    if w == '':
                        ex.oblig('no starting vector', eq(x.dims[0], 0))
                    else:
                        same(ex, what, x, V(Var('ni', 'i') if w == 'init' else n, lambda i: El(w, i)))
                else:
                    same(ex, what, v, w)
            cls = 'Car1Sample' if car1 else 'CarmaSample'
            if not isinstance(r, ObjV):
                raise Unsupported('result')
            ex.oblig('class of the result', TRUE if r.cls == cls else FALSE)
            ex.oblig('result kept in the model', TRUE if ex.getf(o, 'mcmc_sample') == r else FALSE)
            for f, s in (('time', 't'), ('y', 'y'), ('ysig', 'e')):
                same(ex, 'sample: ' + f, ex.getf(r, f), V(n, lambda i: El(s, i)))
            ex.oblig('sample: made from the run', TRUE if ex.getf(r, 'sampler') == ObjV(('smp',), 'Sampler') else FALSE)
            if not car1:
                same(ex, 'sample: MA order', ex.getf(r, 'q'), q)
        return post
    return PU('CarmaModel.run_mcmc', body, contracts={
        '_carmcmc.run_mcmc_car1': call('run_mcmc_car1'), '_carmcmc.run_mcmc_carma': call('run_mcmc_carma'),
        'Car1Sample': wrap('Car1Sample'), 'CarmaSample': wrap('CarmaSample')})


# ------------------------------------------------------------------ maximum likelihood and order selection (Y04)
def fun(*i):
    return App('fun', *i)


def objs(vals, cls):
    return [v for v in vals.values() if isinstance(v, ObjV) and v.cls == cls]


def c_cpu(ex, o, a, kw):
    k = fresh('cpus', 'i')
    ex.assume(ge(k, 1))
    return k


def u_get_mle():
    p, q, n, nt, nj = [Var(x, 'i') for x in ('p', 'q', 'n', 'ntrials', 'njobs')]

    def single(ex, o, a, kw):
        if not isinstance(a[0], tuple) or len(a[0]) != 5:
            raise Unsupported('argument of a trial')
        same(ex, 'call: AR order of the trial', a[0][0], p, kind='call')
        same(ex, 'call: MA order of the trial', a[0][1], q, kind='call')
        for v, s in zip(a[0][2:], 'tye'):
            same(ex, 'call: data of the trial', v, V(n, lambda i: El(s, i)), kind='call')
        return ObjV(('trial',) + tuple(ex.loopvars), 'OptRes')

    def best(ex, k, vals):
        b = objs(vals, 'OptRes')
        if not vals:
            return []
        if len(b) != 1 or len(b[0].id) != 2:
            raise Unsupported('best trial so far')
        A = b[0].id[1]
        j = fresh('j', 'i')
        return [('one of the trials', And(le(0, A), Or(lt(A, k), eq(A, 0)))),
                ('the smallest so far', Forall(j, k, le(fun(A), fun(j))))]

    def pmap(ex, o, a, kw):
        if isinstance(a[0], Opaque) and a[0].k == 'builtin':
            return NONE
        return ex.builtin('list', [Opaque('map', a[0], a[1])], {})

    def body(ex):
        ex.assume(And(ge(p, 1), ge(q, 0), lt(q, p), ge(n, 1), ge(nt, 1), Or(ge(nj, 1), eq(nj, -1))))
        o = ex.newobj('CarmaModel', 'this')
        for f, s in (('time', 't'), ('y', 'y'), ('ysig', 'e')):
            ex.setf(o, f, vec(ex, s, n))
        r = ex.run_method('CarmaModel', 'get_mle', o, [p, q], {'ntrials': nt, 'njobs': nj})

        def post(ex):
            if not isinstance(r, ObjV) or r.cls != 'OptRes' or len(r.id) != 2:
                raise Unsupported('result')
            A, j = r.id[1], Var('j', 'i')
            ex.oblig('the result is one of the trials', And(le(0, A), lt(A, nt)), 'inv')
            ex.oblig('no trial has a smaller value', le(fun(A), fun(j)), 'inv', ex.pc + [le(0, j), lt(j, nt)])
        return post
    return PU('CarmaModel.get_mle', body, hints={('get_mle', '*'): {'ginv': best}, ('CarmaModel.get_mle', '*'): {'ginv': best}},
              contracts={'_get_mle_single': single, 'attr:OptRes.fun': lambda ex, o: fun(*o.id[1:]),
                         'attr:OptRes.message': lambda ex, o: Opaque('text'),
                         'multiprocessing.cpu_count': c_cpu, 'multiprocessing.Pool': lambda ex, o, a, kw: ObjV(('pool',), 'Pool'),
                         'Pool.map': pmap, 'Pool.terminate': lambda ex, o, a, kw: NONE})


def u_choose_order():
    n, m, pmax, qmax, nt, nj = [Var(x, 'i') for x in ('n', 'm', 'pmax', 'qmax', 'ntrials', 'njobs')]

    def aicc(i):
        k = 2 + i[1] + i[2]
        return 2 * k + 2 * fun(*i) + 2 * k * (k + 1) / (n - k - 1)

    def mle(ex, o, a, kw):
        b = dict(zip(['p', 'q', 'ntrials', 'njobs'], a))
        b.update(kw)
        same(ex, 'call: number of trials', b['ntrials'], nt, kind='call')
        same(ex, 'call: number of jobs', b['njobs'], nj, kind='call')
        if len(ex.loopvars) != 1:
            raise Unsupported('one fit for each order expected')
        return ObjV(('mle', ex.loopvars[0], ex.num(b['p']), ex.num(b['q'])), 'OptRes')

    def value(ex, o):
        ex.assume(lt(aicc(o.id[1:]), topoly(10) ** 300))
        return fun(*o.id[1:])

    st = {}

    def best(ex, k, vals):
        if not vals:
            return []
        b = objs(vals, 'OptRes')
        fl = {l[-1]: v for l, v in vals.items() if l[0] == 'f'}
        sc = [v for l, v in vals.items() if l[0] != 'f' and isinstance(v, P)]
        if len(b) != 1 or len(b[0].id) != 4 or set(fl) != {'p', 'q'} or len(sc) != 1:
            raise Unsupported('best order so far')
        A, j = b[0].id[1], fresh('j', 'i')
        P_, Q_ = st['orders']
        at = lambda i: (i, P_(i), Q_(i))
        return [('fit of one of the orders', And(le(0, A), eq(b[0].id[2], P_(A)), eq(b[0].id[3], Q_(A)))),
                ('best so far', Or(And(eq(k, 0), eq(A, 0), eq(sc[0], topoly(10) ** 300)),
                                   And(lt(A, k), eq(sc[0], aicc(at(A))), eq(fl['p'], P_(A)), eq(fl['q'], Q_(A))))),
                ('smallest so far', Forall(j, k, le(sc[0], aicc(at(j)))))]

    def body(ex):
        ex.no_minmax = True
        ex.assume(And(ge(n, 1), ge(pmax, 1), ge(nt, 1), ge(m, 1)))
        o = ex.newobj('CarmaModel', 'this')
        ex.setf(o, 'time', vec(ex, 't', n))
        ex.setf(o, 'p', Var('p0', 'i'))
        ex.setf(o, 'q', Var('q0', 'i'))
        kw = {'ntrials': nt, 'njobs': nj}
        given = ex.branch(eq(Var('given1', 'i'), 1))
        qm = pmax - 1
        if given:
            el = lambda j: (El('pqp', j, sort='i'), El('pqq', j, sort='i'))
            kw['pqlist'] = ex.alloc(Seq(m, lambda j: el(topoly(j))), 'list')
            st['orders'] = (lambda j: El('pqp', topoly(j), sort='i')), (lambda j: El('pqq', topoly(j), sort='i'))
        else:
            ex.last_cut = None

            def later(c):
                def f(j):
                    if ex.last_cut is None:
                        raise Unsupported('list of orders')
                    e = ex.last_cut[1].get(topoly(j))
                    if not isinstance(e, tuple) or len(e) != 2:
                        raise Unsupported('list of orders')
                    return e[c]
                return f
            st['orders'] = later(0), later(1)
            if ex.branch(eq(Var('given2', 'i'), 1)):
                ex.assume(And(ge(qmax, 0), lt(qmax, pmax)))
                kw['qmax'] = qm = qmax
        r = ex.run_method('CarmaModel', 'choose_order', o, [pmax], kw)

        def post(ex):
            if not isinstance(r, tuple) or len(r) != 3 or not isinstance(r[0], ObjV) or len(r[0].id) != 4:
                raise Unsupported('result')
            P_, Q_ = st['orders']
            at = lambda i: (i, P_(i), Q_(i))
            A, j = r[0].id[1], Var('j', 'i')
            num, get = ex.seq(r[1])
            num = topoly(num)
            hj = ex.pc + [le(0, j), lt(j, num)]
            e = get(j)
            ex.oblig('orders returned in the order tried', And(eq(e[0], P_(j)), eq(e[1], Q_(j))), 'post', hj)
            na, ga = ex.seq(r[2])
            ex.oblig('one value for each order', eq(na, num))
            ex.oblig('values of the criterion', eq(ga(j), aicc(at(j))), 'post', hj)
            if given:
                ex.oblig('all orders of the list', eq(num, m))
            else:
                ev = norm_ev(ex.last_cut[0].ev)
                ok = len(ev) == 1 and ev[0][0] == 'rep' and len(ev[0][3]) == 1 and ev[0][3][0][0] == 'rep' \
                    and len(ev[0][3][0][3]) == 1 and ev[0][3][0][3][0][0] == 'app'
                if not ok:
                    raise Unsupported('list of orders')
                _, a, na, ((_, b, nb, ((_, pq),)),) = ev[0]
                ha = ex.pc + [le(0, a), lt(a, pmax)]
                ex.oblig('AR orders up to the maximum: number', eq(na, pmax))
                ex.oblig('MA orders below the AR order, up to the maximum: number', eq(nb, Min(a + 1, qm + 1)), 'post', ha)
                ex.oblig('AR order', eq(pq[0], a + 1), 'post', ha)
                ex.oblig('MA order', eq(pq[1], b), 'post', ha)
            ex.oblig('the fit is that of one of the orders', And(le(0, A), lt(A, num), eq(r[0].id[2], P_(A)), eq(r[0].id[3], Q_(A))), 'inv')
            ex.oblig('model orders are those of the fit', And(eq(ex.getf(o, 'p'), P_(A)), eq(ex.getf(o, 'q'), Q_(A))), 'inv')
            ex.oblig('no order has a smaller value', le(aicc(at(A)), aicc(at(j))), 'inv', hj)
        return post
    return PU('CarmaModel.choose_order', body, hints={('choose_order', '*'): {'ginv': best}, ('CarmaModel.choose_order', '*'): {'ginv': best}},
              contracts={'CarmaModel.get_mle': mle, 'attr:OptRes.fun': value, 'attr:OptRes.message': lambda ex, o: Opaque('text')})


def u_get_mle_single():
    """One trial: the function minimised is minus the log density of the process built from the given data and orders, with
    the prior switched off above order 1, and the minimiser's result is returned as it is."""
    p, q, n = [Var(x, 'i') for x in ('p', 'q', 'n')]

    def run(order1):
        def c(ex, o, a, kw):
            if kw or len(a) < (5 if order1 else 7):
                raise Unsupported('arguments of the sampler')
            ex.oblig('call: sampler of the order', eq(p, 1) if order1 else ne(p, 1), 'call')
            for v, s in zip(a[2:5], 'tye'):
                same(ex, 'call: data of the process', ex.toarr(v), V(n, lambda i: El(s, i)), kind='call')
            if not order1:
                same(ex, 'call: AR order', a[5], p, kind='call')
                same(ex, 'call: MA order', a[6], q, kind='call')
            ex.store[('g', 'mle')] = ZERO
            return ObjV(('smp',), 'Sampler')
        return c

    def density(ex, o, a, kw):
        x = ex.toarr(a[0])
        k = fresh('k', 'i')
        ex.oblig('call: length of the vector', eq(x.dims[0], Ite(eq(p, 1), topoly(4), 3 + p + q)), 'call')
        ex.oblig('call: density taken at the vector given', eq(x.get(k), El('theta', k)), 'call', ex.pc + [le(0, k), lt(k, x.dims[0])])
        return Ite(eq(ex.store[('g', 'mle')], 1), Var('loglik'), Var('logpost'))

    def setmle(ex, o, a, kw):
        ex.store[('g', 'mle')] = Ite(ex.truth(a[0]), ONE, ZERO)
        return NONE

    def minimise(ex, o, a, kw):
        names = ['fun', 'x0', 'args', 'method']
        b = dict(zip(names, a))
        b.update(kw)
        d = Ite(eq(p, 1), topoly(4), 3 + p + q)
        x0 = ex.toarr(b['x0'])
        ex.oblig('call: length of the starting vector', eq(x0.dims[0], d), 'call')
        ar = b.get('args', ())
        ar = ar if isinstance(ar, tuple) else (ar,)
        v = ex.num(ex.callv(b['fun'], [ex.alloc(Arr.sym('theta', 'vec', 'r', (d,)))] + list(ar), {}))
        ex.oblig('the function minimised', eq(v, -Ite(eq(p, 1), Var('logpost'), Var('loglik'))))
        return ObjV(('opt',), 'OptRes')

    def uniform(ex, o, a, kw):
        return El('u', *ex.loopvars) if ex.loopvars else fresh('u')

    def body(ex):
        ex.assume(And(ge(p, 1), ge(q, 0), lt(q, p), ge(n, 2)))
        r = ex.run_function('_get_mle_single', [(p, q, vec(ex, 't', n), vec(ex, 'y', n), vec(ex, 'e', n))])

        def post(ex):
            ex.oblig('result of the minimiser returned', TRUE if r == ObjV(('opt',), 'OptRes') else FALSE)
        return post
    d = Ite(eq(p, 1), topoly(4), 3 + p + q)
    return PU('_get_mle_single', body, functions=['_get_mle_single', '_carma_loglik'], contracts={
        '_carmcmc.run_mcmc_car1': run(True), '_carmcmc.run_mcmc_carma': run(False),
        'Sampler.getSamples': lambda ex, o, a, kw: mat(ex, 'theta0', ONE, d),
        'Sampler.getLogDensity': density, 'Sampler.SetMLE': setmle, 'scipy.optimize.minimize': minimise,
        'numpy.random.uniform': uniform})


# ------------------------------------------------------------------ process generators (Y06)
gn, gp, gm_ = Var('n', 'i'), Var('p', 'i'), Var('m', 'i')
gs2, gtau = Var('sigsqr'), Var('tau')
def gt_(i): return El('t', i)
def gz(c): return El('z', c)
def gr(i): return El('r', i, sort='c')
def gJ(i): return El('J', i, sort='c')
def gb(j): return App('pyb', j, sort='c')
def gS(i, j): return App('pyS', i, j, sort='c')
def gx(c, i): return App('pyx', c, i, sort='c')
def gP(c, i, j): return App('pyP', c, i, j, sort='c')
def gmean(c): return App('pym', c)
def gvar(c): return App('pyv', c)
def gy1(c): return App('py1', c)


T.GHOST_STEP.update(['pyx', 'pyP', 'pym', 'pyv', 'py1'])
T.HERM.update(['pyS', 'pyP'])


def _gain(c):
    return lambda i: SumR(0, gp, lambda j: gP(c, i, j) * conj(gb(j))) / gvar(c)


def _gx(base, c, i):
    if base:
        return ZERO
    # the value drawn is the mean plus the standard deviation times an independent normal
    return Exp(gr(i) * (gt_(c) - gt_(c - 1))) * (gx(c - 1, i) + _gain(c - 1)(i) * Sqrt(gvar(c - 1)) * gz(c - 1))


def _gP(base, c, i, j):
    if base:
        return gS(i, j)
    K = _gain(c - 1)
    dt = gt_(c) - gt_(c - 1)
    return Exp(gr(i) * dt) * conj(Exp(gr(j) * dt)) * (gP(c - 1, i, j) - gvar(c - 1) * K(i) * conj(K(j)) - gS(i, j)) + gS(i, j)


def _g1(base, c):
    mv = gs2 * gtau / 2
    if base:
        return Sqrt(mv) * gz(0)
    rho = Exp(-(gt_(c) - gt_(c - 1)) / gtau)
    return rho * gy1(c - 1) + Sqrt(mv * (1 - rho * rho)) * gz(c)


from .kf import step_guard
T.GHOST['pyb'] = lambda a, h: SumR(0, gm_, lambda k: El('ma', k) * Pow(gr(a[0]), k))
T.GHOST['pyS'] = lambda a, h: -gs2 * gJ(a[0]) * conj(gJ(a[1])) / (gr(a[0]) + conj(gr(a[1])))
T.GHOST['pyx'] = step_guard(_gx)
T.GHOST['pyP'] = step_guard(_gP)
T.GHOST['pym'] = lambda a, h: real(SumR(0, gp, lambda i: gb(i) * gx(a[0], i)))


def _gv(a, h):
    i, j = fresh('i', 'i'), fresh('j', 'i')
    return real(Sum([(i, gp), (j, gp)], gb(i) * gP(a[0], i, j) * conj(gb(j))))


T.GHOST['pyv'] = _gv
T.GHOST['py1'] = step_guard(_g1)

DRAWS = ('g', 'draws')


def draws():
    """Independent normal draws z(0), z(1), ... in the order they are taken."""
    def nxt(ex):
        c = ex.store[DRAWS]
        ex.store[DRAWS] = c + 1
        return gz(c)

    def normal(ex, o, a, kw):
        b = dict(zip(['loc', 'scale', 'size'], a))
        b.update(kw)
        if 'size' in b:
            raise Unsupported('several draws at once')
        return ex.num(b.get('loc', ZERO)) + ex.num(b.get('scale', ONE)) * nxt(ex)

    def sort(ex, o, a, kw):
        x = ex.val(o)
        ex.store_ref(o, Arr('vec', x.es, x.dims, lambda ix: gt_(ix[0])))
        return NONE
    return {'numpy.random.normal': normal, 'numpy.random.standard_normal': lambda ex, o, a, kw: nxt(ex),
            'numpy.random.randn': lambda ex, o, a, kw: nxt(ex), 'ndarray.sort': sort,
            'numpy.sort': lambda ex, o, a, kw: ex.alloc(Arr('vec', 'r', ex.num(a[0]).dims, lambda ix: gt_(ix[0])))}


def draw_hint():
    return {DRAWS: lambda kp: kp + 1}


def u_car1_process():
    def yk(kp, y0):
        return Arr('vec', 'r', (gn,), lambda ix: Ite(le(ix[0], kp), gy1(ix[0]), y0.get(ix[0])))

    def body(ex):
        ex.assume(And(ge(gn, 1), gt(gtau, 0), gt(gs2, 0)))
        ex.store[DRAWS] = ZERO
        r = ex.run_function('car1_process', [vec(ex, 't', gn), gs2, gtau])

        def post(ex):
            same(ex, 'values of the process', r, V(gn, gy1))
        return post
    return PU('car1_process', body, contracts=draws(), hints={('car1_process', 0): {'vars': {'y': yk}, 'locs': draw_hint()}})


def u_carma_process():
    p, m, n = gp, gm_, gn

    def yk(kp, y0):
        return Arr('vec', 'r', (n,), lambda ix: Ite(le(ix[0], kp), gmean(ix[0]) + Sqrt(gvar(ix[0])) * gz(ix[0]), y0.get(ix[0])))

    def car1(ex, o, a, kw):
        b = dict(zip(['time', 'sigsqr', 'tau'], a))
        b.update(kw)
        same(ex, 'call: times', b['time'], V(n, gt_), kind='call')
        same(ex, 'call: noise variance', b['sigsqr'], gs2, kind='call')
        same(ex, 'call: time scale', b['tau'], -1 / gr(0), kind='call')
        return ex.alloc(Arr.sym('car1', 'vec', 'r', (n,)))

    def body(ex):
        ex.assume(And(ge(n, 1), ge(p, 1), ge(m, 1), le(m, p), gt(gs2, 0)))
        ex.store[DRAWS] = ZERO
        ex.solve_patterns = [(M(p, p, lambda i, j: Pow(gr(j), i)), V(p, lambda i: Ite(eq(i, p - 1), ONE, ZERO)), Arr('vec', 'c', (p,), lambda ix: gJ(ix[0])))]
        r = ex.run_function('carma_process', [vec(ex, 't0', n), gs2, vec(ex, 'r', p, 'c')], {'ma_coefs': vec(ex, 'ma', m)})

        def post(ex):
            if ex.branch(eq(p, 1)):
                same(ex, 'first order: the first-order generator', r, V(n, lambda i: El('car1', i)))
            else:
                same(ex, 'each value is the conditional mean plus the conditional standard deviation times a new normal', r,
                     V(n, lambda i: gmean(i) + Sqrt(gvar(i)) * gz(i)))
        return post
    cs = draws()
    cs['car1_process'] = car1
    mt = lambda d, f: Arr('mtx', 'c', d, f)
    hint = {'vars': {'y': yk, 'StateVector': lambda k: mt((p, ONE), lambda ix: gx(k, ix[0])),
                     'PredictionVar': lambda k: mt((p, p), lambda ix: gP(k, ix[0], ix[1])),
                     'kalman_mean': gmean, 'kalman_var': gvar, 'innovation': lambda k: Sqrt(gvar(k)) * gz(k)}, 'locs': draw_hint()}
    return PU('carma_process', body, contracts=cs, hints={('carma_process', 2): hint},
              trusted=['solve: for distinct roots the Vandermonde system sum_j r_j^i J_j = [i = p-1] has exactly one solution (Acov.loads_exists, Acov.loads_unique in Lean); J names it'])
