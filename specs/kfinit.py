"""Contracts of construction and data handling of the filters (kfilter.hpp): properties F06 and F05."""
from vp.terms import *
from vp import terms as T
from vp.sym import *
from vp.arma import arr_key
from vp.verify import Unit
from .kf import n, t, y, e, col, size_eq, sample1
from .kfp import p

BASE = {'KalmanFilter1': 'KalmanFilter<double>', 'KalmanFilterp': 'KalmanFilter<arma::Col<std::complex<double>>>'}
m_ = Var('nclean', 'i')


def leaves(v, name):
    """Index term of a value that is, case by case, an element of the named array; None otherwise."""
    if isinstance(v, P) and len(v.t) == 1:
        (mono, c), = v.t.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a.kind == 'el' and a.args[0] == name:
                return a.args[1][0]
            if a.kind == 'ite':
                x, z = leaves(a.args[1], name), leaves(a.args[2], name)
                if x is not None and z is not None:
                    return Ite(a.args[0], x, z)
    return None


def at_index(f, q):
    """Instance of a universally quantified fact at q."""
    if f.kind == 'and':
        return [h for g in f.args for h in at_index(g, q)]
    if f.kind != 'all':
        return []
    vs, b = open_f(f)
    return [Or(Not(And(le(0, q), lt(q, f.args[0][0]))), subst(b, {vname(vs[0]): q}))]


def run(s):
    """First position with the same (sorted) time as position s."""
    return App('runstart', s, sort='i')


def u_init(cls='KalmanFilter1'):
    base = BASE[cls]

    def body(ex):
        o = ObjV(('kf',), cls)
        ex.objcls[o.id] = cls
        for f, a in (('time_', 'time'), ('y_', 'y'), ('yerr_', 'yerr')):
            ex.setf(o, f, col(a))
        i = Var('i0', 'i')
        ex.assume(ge(n, 2))
        ex.assume(And(le(1, i), lt(i, n), ne(t(i), t(0))))      # at least two distinct times
        # times are equal as long as neighbours are (for the given and the sorted order)
        key = arr_key(col('time'))
        i, a, q = fresh('i', 'i'), fresh('i', 'i'), fresh('i', 'i')
        rank = lambda u: App('sort_rank', key, u, sort='i')
        for st, us in ((t, [Var('i0', 'i')]), (lambda q: t(App('sort_index', key, q, sort='i')), [rank(Var('i0', 'i')), rank(ZERO)])):
            flat = lambda u: Or(Exists(a, u, ne(st(a + 1) - st(a), 0)), eq(st(u), st(0)))
            ex.oblig('init: times equal unless neighbours differ, base', flat(ZERO), 'lemma', [])
            ex.oblig('init: times equal unless neighbours differ, step', flat(q + 1), 'lemma', [le(0, q), flat(q)])
            for u in us:
                ex.assume(Or(lt(u, 0), flat(u)))
        ex.run_method(cls, 'init', o, [])

        def post(ex):
            tm, yy, ee, dt = [ex.getf(o, f) for f in ('time_', 'y_', 'yerr_', 'dt_')]
            k = tm.n()
            perm = ranks = None
            for h in ex.pc:
                for a in all_atoms(h).values() if h.kind == 'all' else ():
                    if a.kind == 'app' and a.args[0] == 'sort_rank':
                        perm = a.args[1][0]
                    if a.kind == 'app' and a.args[0] == 'find_rank':
                        ranks = a.args[1][0]
            st = (lambda q: t(App('sort_index', perm, q, sort='i'))) if perm else t       # sorted times
            at = lambda q: App('sort_rank', perm, q, sort='i') if perm else q             # where row q went
            inst = lambda q: [h for f in ex.pc for h in at_index(f, q)]
            ground = [h for h in ex.pc if h.kind != 'all' and not (h.kind == 'or' and any(g.kind == 'ex' for g in h.args))]
            if ranks:
                fi = lambda q: App('find', ranks, q, sort='i')
                # sorted times do not decrease, by induction on the distance
                a, d, q = fresh('i', 'i'), fresh('i', 'i'), fresh('i', 'i')
                rg = [ge(n, 2), le(0, a), le(0, d), lt(a + d + 1, n)]
                ex.oblig('init: sorted times do not decrease, step', le(st(a), st(a + d + 1)), 'lemma',
                         rg + [le(st(a), st(a + d))] + inst(a + d))
                mono = lambda u, v: Or(Not(And(le(0, u), le(u, v), lt(v, n))), le(st(u), st(v)))
                # first position of a run of equal times, by recursion; its properties by induction
                rec = lambda q: eq(run(q + 1), Ite(eq(st(q + 1) - st(q), 0), run(q), q + 1))
                ind = lambda q: And(le(0, run(q)), le(run(q), q), eq(st(run(q)), st(q)),
                                    Or(eq(run(q), 0), ne(st(run(q)) - st(run(q) - 1), 0)))
                ex.oblig('init: run of equal times, base', ind(ZERO), 'lemma', [eq(run(ZERO), 0)])
                for eqq in (TRUE, FALSE):
                    c = eq(st(q + 1) - st(q), 0)
                    ex.oblig('init: run of equal times, step', ind(q + 1), 'lemma', [le(0, q), ind(q)] +
                             ([c, eq(run(q + 1), run(q))] if eqq is TRUE else [Not(c), eq(run(q + 1), q + 1)]))
            j = fresh('i', 'i')
            ex.oblig('init: at least two times are kept', ge(k, 2))
            size_eq(ex, 'init: one value per time', yy, k)
            size_eq(ex, 'init: one error per time', ee, k)
            hy = ex.pc + [le(0, j), lt(j, k - 1)]
            if ranks:
                hy = ground + [le(0, j), lt(j, k - 1), mono(fi(j - 1) + 1, fi(j)), mono(ZERO, fi(j))] + [g for u in (j, j - 1) for g in inst(u)] + inst(fi(j))
            ex.oblig('init: times strictly increase', lt(tm.get(j), tm.get(j + 1)), 'post', hy)
            hy = ex.pc + [le(0, j), lt(j, k)]
            w = leaves(tm.get(j), 'time')
            if w is None:
                raise Unsupported('the kept times are not elements of the given ones')
            ex.oblig('init: each kept row is a given row (index in range)', And(le(0, w), lt(w, n)), 'post', hy)
            ex.oblig('init: the kept value is of the same row as the time', eq(yy.get(j), y(w)), 'post', hy)
            ex.oblig('init: the kept error is of the same row as the time', eq(ee.get(j), e(w)), 'post', hy)
            size_eq(ex, 'init: one step between neighbouring times', dt, k - 1)
            ex.oblig('init: steps are differences of the kept times', eq(dt.get(j), tm.get(j + 1) - tm.get(j)), 'post',
                     ex.pc + [le(0, j), lt(j, k - 1)])
            size_eq(ex, 'init: one mean per time', ex.getf(o, 'mean'), k)
            size_eq(ex, 'init: one variance per time', ex.getf(o, 'var'), k)
            # no time is lost
            ii = fresh('i', 'i')
            hy = ex.pc + [le(0, ii), lt(ii, n)]
            s = at(ii)
            j = s
            if ranks:
                r = run(s)
                rk = App('find_rank', ranks, r - 1, sort='i')
                j = Ite(eq(r, 0), ZERO, rk + 1)
                hy = ground + [le(0, ii), lt(ii, n)] + inst(ii) + [Implies(And(le(0, s), lt(s, n)), ind(s))] + inst(r - 1)
            ex.oblig('init: no given time is lost (position)', And(le(0, j), lt(j, k)), 'post', hy)
            ex.oblig('init: no given time is lost', eq(tm.get(j), t(ii)), 'post', hy)
        return post
    return Unit(base + '::init', body, sampler=sample1)


def u_init_p():
    return u_init('KalmanFilterp')


def u_init_clean():
    """On strictly increasing times init keeps everything."""
    def body(ex):
        o = ObjV(('kf',), 'KalmanFilterp')
        ex.objcls[o.id] = o.cls
        for f, a in (('time_', 'time'), ('y_', 'y'), ('yerr_', 'yerr')):
            ex.setf(o, f, col(a))
        ex.assume(ge(n, 2))
        j = fresh('j', 'i')
        ex.assume(Forall(j, n - 1, lt(t(j), t(j + 1))))
        ex.run_method('KalmanFilterp', 'init', o, [])

        def post(ex):
            for f, a in (('time_', 'time'), ('y_', 'y'), ('yerr_', 'yerr')):
                ex.oblig_same('init: clean data is kept (%s)' % f, ex.getf(o, f), col(a), ex.pc, 'post')
        return post
    return Unit(BASE['KalmanFilterp'] + '::init', body, sampler=sample1)


# ------------------------------------------------------------------ constructors
def c_init(ex, o, args):
    tm, yy, ee = [ex.getf(o, f) for f in ('time_', 'y_', 'yerr_')]
    ex.oblig('init called with one value per time', eq(yy.n(), tm.n()), 'pre')
    ex.oblig('init called with one error per time', eq(ee.n(), tm.n()), 'pre')
    k = '%s/%s/%s' % (arr_key(tm), arr_key(yy), arr_key(ee))
    if not k.startswith('clean'):
        out = clean(tm, yy, ee)
        for f, a in zip(('time_', 'y_', 'yerr_'), out):
            ex.setf(o, f, a)
        tm = out[0]
        j = fresh('j', 'i')
        ex.assume(ge(tm.n(), 2))
        ex.assume(Forall(j, tm.n() - 1, lt(tm.get(j), tm.get(j + 1))))
    N = tm.n()
    ex.setf(o, 'dt_', Arr('col', 'r', (N - 1, ONE), lambda ix: tm.get(ix[0] + 1) - tm.get(ix[0])))
    ex.setf(o, 'mean', Arr.const('col', 'r', (N, ONE), 0))
    ex.setf(o, 'var', Arr.const('col', 'r', (N, ONE), 0))


def clean(tm, yy, ee):
    """What init makes of the three arrays (its contract says how they relate); clean data stays."""
    at = the_atom_or_none(tm.get(Var('ι0', 'i'), ZERO))
    if at is not None and at.kind == 'app' and at.args[0] == 'clean0':
        return tm, yy, ee
    k = '%s/%s/%s' % (arr_key(tm), arr_key(yy), arr_key(ee))
    N = App('cleann', k, sort='i')
    return tuple(Arr('col', 'r', (N, ONE), lambda ix, q=q: App('clean%d' % q, k, ix[0])) for q in range(3))


def the_atom_or_none(v):
    if len(v.t) == 1:
        (mono, c), = v.t.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return mono[0][0]
    return None


CI = {b + '::init': c_init for b in BASE.values()}
SV = 'std::vector<double>'
AV = 'arma::Col<double>'
XV = {SV: 'std::vector<std::complex<double>>', AV: 'arma::Col<std::complex<double>>'}


def find_ctor(ex, cls, params):
    for m in ex.prog.classes[cls]['methods'].get(cls, []):
        if ex.prog._params(m) == params:
            return ex.prog.definition(m['id'])
    raise Unsupported('no constructor of %s with parameters %s' % (cls, params))


def ctor_unit(cls, vt, full):
    """A constructor; vt: array type of the arguments, full: with parameters."""
    def body(ex):
        o = ObjV(('kf',), cls)
        ex.objcls[o.id] = cls
        ex.init_fields(o)
        kind = 'vec' if vt == SV else 'col'
        dims = (n,) if vt == SV else (n, ONE)
        q = Var('q', 'i')
        given = [Arr.sym(a, kind, 'r', dims) for a in ('time', 'y', 'yerr')]
        ex.assume(ge(n, 2))
        params = [vt] * 3
        args = list(given)
        if full:
            args += [Var('sigsqr')]
            params += ['double']
            if cls == 'KalmanFilter1':
                args += [Var('omega')]
                params += ['double']
            else:
                ex.assume(And(ge(p, 2), ge(q, 1), le(q, p)))
                args += [Arr.sym('omega', kind, 'c', (p,) if vt == SV else (p, ONE)),
                         Arr.sym('ma', kind, 'r', (q,) if vt == SV else (q, ONE))]
                params += [XV[vt], vt]
        ex.call(find_ctor(ex, cls, params), o, [ex.temp(a) if isinstance(a, Arr) else a for a in args])

        def post(ex):
            asarr = [Arr('col', 'r', (n, ONE), lambda ix, a=a: a.get(ix[0])) for a in given]
            want = clean(*asarr)
            for f, w in zip(('time_', 'y_', 'yerr_'), want):
                ex.oblig_same('constructor: %s is the cleaned input' % f, ex.getf(o, f), w, ex.pc, 'post')
            tm = want[0]
            ex.oblig_same('constructor: steps are differences of the kept times', ex.getf(o, 'dt_'),
                          Arr('col', 'r', (tm.n() - 1, ONE), lambda ix: tm.get(ix[0] + 1) - tm.get(ix[0])), ex.pc, 'post')
            size_eq(ex, 'constructor: one mean per time', ex.getf(o, 'mean'), tm.n())
            size_eq(ex, 'constructor: one variance per time', ex.getf(o, 'var'), tm.n())
            if full:
                ex.oblig('constructor: noise variance stored', eq(ex.getf(o, 'sigsqr_'), Var('sigsqr')))
                if cls == 'KalmanFilter1':
                    ex.oblig('constructor: rate stored', eq(ex.getf(o, 'omega_'), Var('omega')))
                else:
                    ex.oblig_same('constructor: AR roots stored', ex.getf(o, 'omega_'), Arr.sym('omega', 'col', 'c', (p, ONE)), ex.pc, 'post')
                    ex.oblig('constructor: order stored', eq(ex.getf(o, 'p_'), p))
                    ex.oblig_same('constructor: MA coefficients stored, padded with zeros', ex.getf(o, 'ma_coefs_'),
                                  Arr('row', 'r', (ONE, p), lambda ix: Ite(lt(ix[1], q), El('ma', ix[1]), ZERO)), ex.pc, 'post')
                    sizes_p(ex, o, 'constructor')
        return post
    f = '%s::%s' % (cls, cls)
    return Unit(f, body, CI, sampler=sample1, functions=[f, BASE[cls] + '::KalmanFilter'])


def sizes_p(ex, o, who):
    for f in ('state_vector_', 'kalman_gain_', 'rho_', 'state_const_', 'state_slope_', 'rotated_ma_coefs_'):
        size_eq(ex, '%s: %s has one entry per root' % (who, f), ex.getf(o, f), p)
    for f in ('StateVar_', 'PredictionVar_'):
        a = ex.getf(o, f)
        ex.oblig('%s: %s is square of the order' % (who, f), And(eq(a.dims[0], p), eq(a.dims[1], p)))


def u_ctor1a(): return ctor_unit('KalmanFilter1', AV, False)
def u_ctor1b(): return ctor_unit('KalmanFilter1', AV, True)
def u_ctor1c(): return ctor_unit('KalmanFilter1', SV, False)
def u_ctor1d(): return ctor_unit('KalmanFilter1', SV, True)
def u_ctorpa(): return ctor_unit('KalmanFilterp', AV, False)
def u_ctorpb(): return ctor_unit('KalmanFilterp', AV, True)
def u_ctorpc(): return ctor_unit('KalmanFilterp', SV, False)
def u_ctorpd(): return ctor_unit('KalmanFilterp', SV, True)


# ------------------------------------------------------------------ setters
def u_set(cls='KalmanFilter1'):
    """Replacing the data keeps the class invariant (times of a new length bring new steps and results)."""
    def body(ex):
        o = ObjV(('kf',), cls)
        from .kf import data_state
        data_state(ex, o)
        k = Var('k', 'i')
        ex.assume(ge(k, 2))
        tv, yv, ev = [Arr.sym(a, 'col', 'r', (k, ONE)) for a in ('newtime', 'newy', 'newerr')]
        ex.run_method(cls, 'SetTime', o, [ex.temp(tv)])
        ex.run_method(cls, 'SetTimeSeries', o, [ex.temp(yv)])
        ex.run_method(cls, 'SetTimeSeriesErr', o, [ex.temp(ev)])
        got = [ex.run_method(cls, f, o, []) for f in ('GetTime', 'GetTimeSeries', 'GetTimeSeriesErr')]

        def post(ex):
            for f, g, w in zip(('time_', 'y_', 'yerr_'), got, (tv, yv, ev)):
                ex.oblig_same('setters: %s replaced' % f, ex.getf(o, f), w, ex.pc, 'post')
                ex.oblig_same('getter returns %s' % f, g, w, ex.pc, 'post')
            ex.oblig_same('SetTime: steps are differences of the new times', ex.getf(o, 'dt_'),
                          Arr('col', 'r', (k - 1, ONE), lambda ix: tv.get(ix[0] + 1) - tv.get(ix[0])), ex.pc, 'post')
            size_eq(ex, 'SetTime: one mean per time', ex.getf(o, 'mean'), k)
            size_eq(ex, 'SetTime: one variance per time', ex.getf(o, 'var'), k)
        return post
    b = BASE[cls]
    return Unit(b + '::SetTime', body, sampler=sample1,
                functions=[b + '::' + f for f in ('SetTime', 'SetTimeSeries', 'SetTimeSeriesErr', 'GetTime', 'GetTimeSeries', 'GetTimeSeriesErr')])


def u_set_p(): return u_set('KalmanFilterp')


def u_params():
    def body(ex):
        o = ObjV(('kf',), 'KalmanFilterp')
        ex.objcls[o.id] = o.cls
        ex.assume(ge(p, 2))
        om = Arr.sym('omega', 'col', 'c', (p, ONE))
        ma = Arr.sym('ma', 'col', 'r', (p, ONE))
        ex.setf(o, 'p_', Var('p0', 'i'))
        old = dict(ex.store)
        ex.run_method('KalmanFilterp', 'SetOmega', o, [om])
        ex.run_method('KalmanFilterp', 'SetMA', o, [ma])
        ex.run_method('KalmanFilterp', 'SetSigsqr', o, [Var('sigsqr')])
        g = [ex.run_method('KalmanFilterp', f, o, []) for f in ('GetOmega', 'GetMA', 'GetSigsqr')]

        def post(ex):
            ex.oblig('SetOmega: order is the number of roots', eq(ex.getf(o, 'p_'), p))
            ex.oblig_same('SetOmega: roots stored', ex.getf(o, 'omega_'), om, ex.pc, 'post')
            ex.oblig_same('SetMA: coefficients stored', ex.getf(o, 'ma_coefs_'), Arr('row', 'r', (ONE, p), lambda ix: El('ma', ix[1])), ex.pc, 'post')
            ex.oblig('SetSigsqr: stored', eq(ex.getf(o, 'sigsqr_'), Var('sigsqr')))
            ex.oblig_same('GetOmega', g[0], om, ex.pc, 'post')
            ex.oblig_same('GetMA', g[1], ma, ex.pc, 'post')
            ex.oblig('GetSigsqr', eq(g[2], Var('sigsqr')))
            sizes_p(ex, o, 'SetOmega')
        return post
    b = BASE['KalmanFilterp']
    return Unit('KalmanFilterp::SetOmega', body, functions=['KalmanFilterp::SetOmega', 'KalmanFilterp::SetMA', 'KalmanFilterp::GetMA',
                                                           b + '::SetSigsqr', b + '::GetSigsqr', b + '::GetOmega'])


# ------------------------------------------------------------------ simulation (F05)
ns = Var('ns', 'i')


def sreq(k): return App('sorted', arr_key(Arr.sym('simtime', 'col', 'r', (ns, ONE))), k)
def pos(k): return App('inspos', k, sort='i')
def sim(k): return App('simval', k)
def pm(k): return App('condmean', k)
def pv(k): return App('condvar', k)


def aug(name, base, new):
    """Series after k insertions: the new value of step k goes in at position pos(k)."""
    def f(k, i):
        return App(name, k, i)

    def unfold(args, hyps):
        k, i = args
        c = k.const()
        if c == 0:
            return base(i)
        d = k - 1
        if c is None:
            # only a successor of a known step index
            if k.t.get((), 0) < 1:
                return None
        return Ite(lt(i, pos(d)), f(d, i), Ite(eq(i, pos(d)), new(d), f(d, i - 1)))
    T.GHOST[name] = unfold
    return f


augT = aug('augT', t, sreq)
augY = aug('augY', y, sim)
augE = aug('augE', e, lambda k: ZERO)


def series_at(k):
    return [Arr('col', 'r', (n + k, ONE), lambda ix, f=f: f(k, ix[0])) for f in (augT, augY, augE)]


def pos_facts(k):
    j = fresh('j', 'i')
    return [le(0, pos(k)), le(pos(k), n + k), Forall(j, pos(k), lt(augT(k, j), sreq(k))),
            Or(eq(pos(k), n + k), le(sreq(k), augT(k, pos(k))))]


NP, NS = ('G', 'npredict'), ('G', 'nsim')


def c_predict(ex, o, args):
    k = ex.store[NP]
    ex.oblig('Simulate: predicts at the next time in increasing order', eq(args[0], sreq(k)), 'post')
    for f, a in zip(('time_', 'y_', 'yerr_'), series_at(k)):
        ex.oblig_same('Simulate: prediction given the series and the values simulated so far (%s)' % f, ex.getf(o, f), a, ex.pc, 'post')
    tm = ex.getf(o, 'time_')
    ex.oblig_same('Simulate: steps are differences of the times', ex.getf(o, 'dt_'),
                  Arr('col', 'r', (tm.n() - 1, ONE), lambda ix: tm.get(ix[0] + 1) - tm.get(ix[0])), ex.pc, 'pre')
    for f in ('mean', 'var'):
        size_eq(ex, 'Simulate: one %s per time' % f, ex.getf(o, f), tm.n())
        ex.setf(o, f, ex.fresh_arr('h_' + f, 'col', 'r', (tm.n(), ONE)))
    ex.store[NP] = k + 1
    return Struct(first=pm(k), second=pv(k))


def c_normal(ex, o, args):
    k = ex.store[NS]
    ex.oblig('Simulate: drawn with the conditional mean', eq(args[0] if isinstance(args[0], P) else ex.val(args[0]), pm(k)), 'post')
    ex.oblig('Simulate: drawn with the conditional standard deviation', eq(ex.val(args[1]), Sqrt(pv(k))), 'post')
    ex.store[NS] = k + 1
    return sim(k)


def u_simulate(cls='KalmanFilter1'):
    b = BASE[cls]

    def body(ex):
        from .kf import data_state
        o = ObjV(('kf',), cls)
        data_state(ex, o)
        ex.assume(ge(ns, 1))
        ex.store[NP] = ZERO
        ex.store[NS] = ZERO
        r = ex.run_method(b, 'Simulate', o, [Arr.sym('simtime', 'col', 'r', (ns, ONE))], sig=None)

        def post(ex):
            ex.oblig_same('Simulate: returns the drawn values in time order', r, Arr('vec', 'r', (ns,), lambda ix: sim(ix[0])), ex.pc, 'post')
            ex.oblig('Simulate: one prediction per time', eq(ex.store[NP], ns))
            ex.oblig('Simulate: one draw per time', eq(ex.store[NS], ns))
            for f, a in (('time_', t), ('y_', y), ('yerr_', e)):
                ex.oblig_same('Simulate: %s restored' % f, ex.getf(o, f), Arr('col', 'r', (n, ONE), lambda ix, a=a: a(ix[0])), ex.pc, 'post')
            ex.oblig_same('Simulate: steps restored', ex.getf(o, 'dt_'), Arr('col', 'r', (n - 1, ONE), lambda ix: t(ix[0] + 1) - t(ix[0])), ex.pc, 'post')
            size_eq(ex, 'Simulate: size of mean restored', ex.getf(o, 'mean'), n)
            size_eq(ex, 'Simulate: size of var restored', ex.getf(o, 'var'), n)
            ex.oblig('Simulate: noise variance kept', eq(ex.getf(o, 'sigsqr_'), Var('sigsqr')))
        return post

    def hint(ex):
        def h(ex2, k, f):
            return f
        mk = lambda q: (lambda ex2, kp, v0: series_at(kp)[q])
        size = lambda ex2, kp, v0: Arr('col', 'r', (n + kp, ONE), lambda ix: Ite(le(kp, 0), v0.get(ix[0]), ZERO))
        return {'named': {'time_': mk(0), 'y_': mk(1), 'yerr_': mk(2), 'mean': size, 'var': size,
                          'dt_': lambda ex2, kp, v0: Arr('col', 'r', (n + kp - 1, ONE), lambda ix: augT(kp, ix[0] + 1) - augT(kp, ix[0]))},
                'facts': lambda ex2, k: pos_facts(k)}

    def here(o):
        # the insertion position of the step the obligation is in
        for x in [o.goal] + list(o.hyps):
            for a in all_atoms(x).values():
                if a.kind == 'app' and a.args[0] == 'inspos' and a.args[1][0].const() is None and not any(v.startswith('β') for v in a.fv):
                    return T.topoly(a)
        return ZERO
    cts = {cls + '::Predict': c_predict, 'RandomGenerator::normal': c_normal}
    return Unit(b + '::Simulate', body, cts, {(b + '::Simulate', 0): hint}, sampler=sample1, eqcands=[here, lambda o: here(o) - 1])


def u_simulate_p(): return u_simulate('KalmanFilterp')


def u_simulate_wrap(cls='KalmanFilter1'):
    b = BASE[cls]

    def body(ex):
        from .kf import data_state
        o = ObjV(('kf',), cls)
        data_state(ex, o)
        ex.assume(ge(ns, 1))
        r = ex.run_method(cls, 'Simulate', o, [Arr.sym('simtime', 'vec', 'r', (ns,))], sig=None)

        def post(ex):
            ex.oblig_same('Simulate: hands on the simulated values', r, Arr('vec', 'r', (ns,), lambda ix: sim(ix[0])), ex.pc, 'post')
        return post

    def c_sim(ex, o, args):
        a = ex.val(args[0])
        ex.oblig_same('Simulate: hands on the times', a, Arr.sym('simtime', 'col', 'r', (ns, ONE)), ex.pc, 'pre')
        return Arr('vec', 'r', (ns,), lambda ix: sim(ix[0]))
    return Unit(cls + '::Simulate', body, {b + '::Simulate': c_sim}, sampler=sample1)


def u_simulate_wrap_p(): return u_simulate_wrap('KalmanFilterp')
