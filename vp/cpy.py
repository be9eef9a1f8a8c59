"""Executions of the Python layer. Model and filter objects are either the real extension or the stand-in of
harness/pymock.py, whose results are fixed functions of what it was handed."""
import cmath, math, os, random, sys
import mpmath as mp
from . import native, oracle, cmodel
from .conc import Bad, Checker, close, fin, guard, jitter, loguni, arparams, high_roots, well_conditioned
sys.path.insert(0, os.path.join(native.HERE, 'harness'))
import pymock

def cx(z):
    z = complex(z)
    return {'c': [z.real, z.imag]}

def uncx(x):
    return complex(*x['c']) if isinstance(x, dict) else x

def far(a, b, sc, tol=1e-9):
    a, b = complex(uncx(a)), complex(b)
    return not (cmath.isfinite(a) and abs(a - b) <= tol * max(abs(b), sc))

class Py(Checker):
    real = False
    def open(self):
        return native.PyNat(self.real)
    def shut(self, nat):
        nat.close()

def pq(r, pmax=5):
    p = r.choice((1, 2, 2, 3, 4, r.randint(1, pmax)))
    if r.random() < 0.04:
        p = r.randint(pmax, pmax + 4)
    return p, r.randrange(p)

def theta(r, p, q, kind):
    th = [loguni(r, 0.05, 50), r.uniform(0.5, 2), r.gauss(0, 5)]
    L = M = 0.0
    if r.random() < 0.25:        # another unit of time, of the values
        L, M = (r.uniform(-12, 12) for _ in range(2))
        v = math.exp(r.uniform(-12, 12))
        th = [th[0] * v, th[1] * r.choice((0.01, 1, 20)), th[2] * v]
    if kind == 'car1':
        return th + [r.uniform(-5, 3) + L]
    def quads(k, u):
        out = []
        for i in range(k // 2):
            a = r.uniform(-4, 2)
            out += [a + 2 * u, a / 2 + r.uniform(-2, 2) + u]
        return out + ([r.uniform(-4, 2) + u] if k % 2 else [])
    return th + quads(p, L) + quads(q, r.choice((L, M)))

def traces(r, p, q, kind, m):
    return [theta(r, p, q, kind) for _ in range(m)], [r.gauss(-50, 30) for _ in range(m)]

def rows(r, n, lits, repeats=True):
    t = [r.uniform(-100, 100) for _ in range(n)]
    if r.random() < 0.4:
        t = [float(r.randint(-20, 20)) for _ in range(n)]
    if lits and r.random() < 0.2:
        t[r.randrange(n)] = r.choice(lits)
    if repeats and n > 1:
        for _ in range(r.choice((0, 0, 1, 2, n))):
            t[r.randrange(n)] = t[r.randrange(n)]
    if not repeats:
        t = list(dict.fromkeys(t))
    m = r.random()
    if m < 0.25:
        t.sort()
    elif m < 0.35:
        t.sort(reverse=True)
    y = [r.gauss(0, 10) for _ in t]
    e = [abs(r.gauss(0, 2)) for _ in t]
    return t, y, e

class RunC(Py):
    """Y01"""
    real = True
    def gen(self, r):
        t, y, e = rows(r, r.choice((1, 2, 3, 5, r.randint(1, 15), r.randint(16, 60))), self.lits)
        p, q = pq(r, 6)
        if r.random() < 0.15:
            p = r.randint(6, 9); q = r.randrange(p)
        kind = 'car1' if p == 1 else 'carma'
        tr, lp = traces(r, p, q, kind, r.randint(1, 4))
        kw = {}
        if r.random() < 0.6:
            kw['nburnin'] = r.choice((0, r.randint(1, 50), r.randint(1, 5000)))
        if r.random() < 0.5:
            kw['ntemperatures'] = r.choice((1, r.randint(2, 9), r.randint(2, 40)))
        if r.random() < 0.5:
            kw['nthin'] = r.choice((1, 2, r.randint(1, 100)))
        if r.random() < 0.5:
            kw['init'] = [r.gauss(0, 1) for _ in range(r.choice((0, 3 + p + q)))]
        o = {'p': p, 'q': q}
        if p == 1 and r.random() < 0.3:
            o = r.choice(({}, {'p': 1}, {'q': 0}))
        elif q == 0 and r.random() < 0.3:
            o = {'p': p}
        inp = dict(t=t, y=y, e=e, orders=o, p=p, q=q, n=r.choice((1, r.randint(1, 60), r.randint(1, 20000))), kw=kw, trace=tr, logpost=lp)
        if r.random() < 0.012 and len(set(t)) > 9:
            inp.update(real=True, n=r.randint(1, 6), p=min(p, 3), q=min(q, min(p, 3) - 1), kw=dict(nburnin=r.randint(0, 8), nthin=r.randint(1, 2)))
            inp['orders'] = {'p': inp['p'], 'q': inp['q']}
            inp['e'] = [x + 0.1 for x in e]
        return inp
    @guard
    def check(self, nat, inp):
        out = nat.call('run', **{k: v for k, v in inp.items() if k not in ('p', 'q')})
        t, y, e, p, q = inp['t'], inp['y'], inp['e'], inp['p'], inp['q']
        want = sorted(set(t))
        trip = set(zip(t, y, e))
        def series(a, b, c, who):
            if list(a) != want:
                raise Bad('%s: times %s instead of %s' % (who, str(a)[:200], str(want)[:200]))
            if len(b) != len(a) or len(c) != len(a):
                raise Bad('%s: lengths differ' % who)
            for row in zip(a, b, c):
                if row not in trip:
                    raise Bad('%s: row %s is not one of the input' % (who, row))
        for who in ('model', 'sample', 'after'):
            m = out[who]
            series(m['time'], m['y'], m['ysig'], who)
            if who != 'sample' and (m['p'] != p or m['q'] != q):
                raise Bad('%s: orders %s %s' % (who, m['p'], m['q']))
            if m['q'] != q:
                raise Bad('sample: MA order %s' % m['q'])
            if any(m[k] != out['model'][k] for k in ('time', 'y', 'ysig')):
                raise Bad('%s: data differ from the model' % who)
        if not out['kept']:
            raise Bad('the model does not keep the sample it returns')
        if inp.get('real'):
            d = 4 if p == 1 else 3 + p + q
            s = out['samples']
            if s['var']['shape'][0] != inp['n'] or (p > 1 and s['quad_coefs']['shape'][1] != p):
                raise Bad('real run: %s samples instead of %d' % (s['var']['shape'], inp['n']))
            if s['logpost']['shape'][0] != inp['n']:
                raise Bad('real run: %s log-posterior values' % s['logpost']['shape'])
            return
        if len(out['calls']) != 1:
            raise Bad('%d sampler runs' % len(out['calls']))
        c = out['calls'][0]
        series(c['t'], c['y'], c['e'], 'sampler')
        if (c['t'], c['y'], c['e']) != tuple(out['model'][k] for k in ('time', 'y', 'ysig')):
            raise Bad('sampler data differ from the public arrays')
        kw = inp['kw']
        exp = dict(kind='car1' if p == 1 else 'carma', n=inp['n'], burn=kw.get('nburnin', inp['n'] // 2), thin=kw.get('nthin', 1),
                   init=kw.get('init') or [])
        if p > 1:
            exp.update(p=p, q=q, walkers=kw.get('ntemperatures', max(10, p + q)), zcarma=False)
        for k, v in exp.items():
            if c[k] != v:
                raise Bad('sampler argument %s is %s instead of %s' % (k, c[k], v))
        s = out['samples']
        tr = inp['trace']
        for k, j in (('measerr_scale', 1), ('mu', 2)):
            if s[k]['v'] != [row[j] for row in tr]:
                raise Bad('the sample does not hold the returned chain (%s)' % k)
        if s['logpost']['v'] != inp['logpost']:
            raise Bad('the sample does not hold the returned log-posterior values')

def spread(f, inp, keys, n=4):
    """Largest change of the values f under last-digit changes of the input."""
    r = random.Random(5)
    base = f(inp)
    out = [0.0] * len(base)
    for _ in range(n):
        g = f({k: (jitter(v, r) if k in keys else v) for k, v in inp.items()})
        for i, (a, b) in enumerate(zip(base, g)):
            out[i] = max(out[i], abs(complex(a) - complex(b)))
    return out

class TraceC(Py):
    """Y02"""
    def gen(self, r):
        p, q = pq(r, 7)
        kind = 'car1' if p == 1 and r.random() < 0.7 else 'carma'
        m = r.choice((1, 2, 3, r.randint(1, 6)))
        tr, lp = traces(r, p, q, kind, m)
        n = r.randint(1, 5)
        return dict(kind=kind, p=p, q=q, t=[float(i) for i in range(n)], y=[r.gauss(0, 1) for _ in range(n)], e=[0.1] * n, trace=tr, logpost=lp)
    @guard
    def check(self, nat, inp):
        self.judge(nat.call('sample', **inp), inp)
    def judge(self, out, inp):
        p, q, tr = inp['p'], inp['q'], inp['trace']
        m = len(tr)
        def col(k, w=1):
            if k not in out:
                raise Bad('no samples of %s' % k)
            if out[k]['shape'][0] != m or (out[k]['shape'] + [1])[1] != w or len(out[k]['v']) != m * w:
                raise Bad('%s has shape %s, should be %d by %d' % (k, out[k]['shape'], m, w))
            v = [uncx(x) for x in out[k]['v']]
            return [v[i * w:(i + 1) * w] for i in range(m)]
        var, sc, mu, sig = col('var'), col('measerr_scale'), col('mu'), col('sigma')
        one = 'car1' == inp['kind']
        if not one:
            ar, wd, ce, ac, mc = col('ar_roots', p), col('psd_width', p), col('psd_centroid', p), col('ar_coefs', p + 1), col('ma_coefs', q + 1)
        else:
            lo = col('log_omega')
        for i, th in enumerate(tr):
            if far(var[i][0], th[0] ** 2, 0, 1e-12) or sc[i][0] != th[1] or mu[i][0] != th[2]:
                raise Bad('sample %d: variance, error scale, mean are %s %s %s for %s' % (i, var[i], sc[i], mu[i], th[:3]))
            if one:
                if lo[i][0] != th[3]:
                    raise Bad('sample %d: log omega is %r instead of %r' % (i, lo[i][0], th[3]))
                s = mp.sqrt(2 * mp.mpf(th[0]) ** 2 * mp.exp(mp.mpf(th[3])))
                if far(sig[i][0], s, 0, 1e-9):
                    raise Bad('sample %d: noise amplitude %r, should be %s' % (i, sig[i][0], mp.nstr(s, 15)))
                continue
            inp1 = dict(inp, kind='carma')
            rt = cmodel.ar_roots(inp1, th)
            rr = [complex(x) for x in rt]
            big = max(abs(x) for x in rr)
            # nearly equal roots lose half the digits
            slack = [1e-9 * max(abs(a), 1e-300) + (0 if abs(a - b) > 1e-4 * big else 1e-3 * big) for a, b in zip(rr, pairs(rr))]
            for k in range(p):
                if not any(abs(ar[i][k] - x) <= s for x, s in zip(near_pair(rr, k), [slack[k]] * 2)):
                    raise Bad('sample %d: AR root %d is %r, should be %r' % (i, k, ar[i][k], rr[k]))
            match(ar[i], rr, slack, i)
            if any(s > 1e-6 * big for s in slack):
                continue
            for k in range(p):
                w, c = -ar[i][k].real / (2 * math.pi), abs(ar[i][k].imag) / (2 * math.pi)
                if far(wd[i][k], w, 1e-9 * big) or far(ce[i][k], c, 1e-9 * big):
                    raise Bad('sample %d: width, centroid %d are %r %r, should be %r %r' % (i, k, wd[i][k], ce[i][k], w, c))
            co = cmodel.poly(rt)
            cs = [float(abs(x)) for x in cmodel.poly([-abs(z) for z in rt])]
            for k in range(p + 1):
                if far(ac[i][k], co[k].real, cs[k], 1e-10):
                    raise Bad('sample %d: AR coefficient %d is %r, should be %s' % (i, k, ac[i][k], mp.nstr(co[k].real, 15)))
            ma = cmodel.ma_coefs(dict(inp1, p=max(p, q + 1)), th)[:q + 1]
            msc = max(abs(x) for x in ma)
            for k in range(q + 1):
                if far(mc[i][k], ma[k], 1e-4 * float(abs(ma[k])) + 1e-9 * float(msc), 1e-7):
                    raise Bad('sample %d: MA coefficient %d is %r, should be %s' % (i, k, mc[i][k], mp.nstr(ma[k], 15)))
            s1 = oracle.autocov(rt, ma, 1, 0)
            f = lambda a: [float(oracle.autocov(cmodel.ar_roots(a, a['th']), cmodel.ma_coefs(dict(a, p=max(p, q + 1)), a['th'])[:q + 1], 1, 0))]
            # terms of the sum cancel: how much of it is left
            tsum = absterms(rt, ma)
            if s1 <= 0 or tsum / s1 > 1e8 or min(abs(a - b) for j, a in enumerate(rr + [1e30]) for b in rr[:j]) < 1e-5 * big if p > 1 else False:
                continue
            s = mp.mpf(th[0]) / mp.sqrt(s1)
            if far(sig[i][0], s, 0, 1e-6 + 1e-13 * float(tsum / s1)):
                raise Bad('sample %d: noise amplitude %r, should be %s' % (i, sig[i][0], mp.nstr(s, 15)))

class MleC(TraceC):
    """Y07"""
    def gen(self, r):
        p, q = pq(r, 7)
        inp = dict(kind='carma', p=p, q=q, t=[0.0, 1.0], y=[r.gauss(0, 1) for _ in range(2)], e=[0.1] * 2, x=theta(r, p, q, 'carma'), fun=r.gauss(0, 100))
        inp['trace'], inp['logpost'] = traces(r, p, q, 'carma', r.choice((1, 2, 3)))
        return inp
    @guard
    def check(self, nat, inp):
        out = nat.call('addmle', **inp)
        if far(out['loglik']['v'][0], -inp['fun'], 0, 1e-14):
            raise Bad('log-likelihood of the estimate is %r, should be %r' % (out['loglik']['v'], -inp['fun']))
        if not out['kept']:
            raise Bad('adding the estimate changed the samples')
        out = dict(out, psd_centroid=out.get('psd_cent'))
        for k, w in (('ar_roots', inp['p']), ('psd_width', inp['p']), ('psd_centroid', inp['p']), ('ar_coefs', inp['p'] + 1), ('ma_coefs', inp['q'] + 1)):
            if out.get(k) is not None and len(out[k]['v']) == w:
                out[k]['shape'] = [1, w]
        for k in ('var', 'sigma', 'mu', 'measerr_scale'):
            if k in out and len(out[k]['v']) == 1:
                out[k]['shape'] = [1]
        try:
            self.judge(out, dict(inp, trace=[inp['x']]))
        except Bad as e:
            raise Bad(str(e).replace('sample 0', 'estimate'))

def pairs(rr):
    """The other root of each quadratic factor (itself for the odd one)."""
    out = []
    for k in range(len(rr)):
        o = k ^ 1
        out.append(rr[o] if o < len(rr) else complex(1e300))
    return out

def near_pair(rr, k):
    o = k ^ 1
    return [rr[k], rr[o] if o < len(rr) else rr[k]]

def match(got, want, slack, i):
    """Each pair holds both roots of its factor."""
    p = len(want)
    for k in range(0, p - 1, 2):
        s = max(slack[k], slack[k + 1])
        a, b = got[k], got[k + 1]
        u, v = want[k], want[k + 1]
        if not (abs(a - u) <= s and abs(b - v) <= s or abs(a - v) <= s and abs(b - u) <= s):
            raise Bad('sample %d: AR roots %r %r, should be %r %r' % (i, a, b, u, v))

def absterms(roots, ma):
    r = [mp.mpc(x) for x in roots]
    tot = mp.mpf(0)
    for k, rk in enumerate(r):
        a = sum((mp.mpf(abs(c)) * abs(rk) ** j for j, c in enumerate(ma)), mp.mpf(0))
        d = abs(2 * rk.real)
        for l, rl in enumerate(r):
            if l != k:
                d *= abs(rl - rk) * abs(mp.conj(rl) + rk)
        tot += a * a / d if d else mp.inf
    return tot

def median(v):
    s = sorted(v, key=lambda z: (z.real, z.imag))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2

def mean(v):
    return sum(v) / len(v)

class PredC(Py):
    """Y03"""
    real = True
    def gen(self, r):
        p, q = pq(r, 5)
        kind = 'car1' if p == 1 else 'carma'
        m = r.choice((1, 2, 3, 4, 5, r.randint(1, 9)))
        tr, lp = traces(r, p, q, kind, m)
        if r.random() < 0.1:
            lp = [float(round(x / 20)) for x in lp]
        t, y, e = rows(r, r.choice((2, 3, 5, r.randint(2, 9))), self.lits, repeats=False)
        t = sorted(t)
        if len(t) < 2:
            t, y, e = [0.0, 1.0], y + y, e + e
        hi = abs(r.choice(self.lits or [100.0])) if r.random() < 0.2 else 150.0
        def at():
            k = r.random()
            one = lambda: r.uniform(-hi, hi) if r.random() < 0.8 else r.choice(t)
            if k < 0.3:
                return one()
            a = [one() for _ in range(r.choice((1, 2, 3, r.randint(1, 8))))]
            if k < 0.5:
                a.sort()
            return {'a': a}
        how = ('map', 'median', 'mean', 'map', 'MAP', 'Median', 'MEAN', None)
        inp = dict(kind=kind, p=p, q=q, t=t, y=y[:len(t)], e=e[:len(t)], trace=tr, logpost=lp, real=False,
                   pred=[(r.choice(how), at()) for _ in range(2)], sim=[(r.choice(how), at()) for _ in range(2)])
        if r.random() < 0.06:
            inp.update(real=True, sim=[], pred=[(r.choice(('map', 'map', 'mean', None)), at())])
            if r.random() < 0.5:
                inp['sim'] = [(None, {'a': [r.uniform(-50, 50) for _ in range(r.randint(1, 4))]})]
        return inp
    def params(self, inp, s, how):
        """Alternatives of (mean, noise variance, roots, ma) for the estimate."""
        m = len(inp['trace'])
        g = lambda k: [uncx(x) for x in s[k]['v']]
        rowsof = lambda k: [g(k)[i * s[k]['shape'][1]:(i + 1) * s[k]['shape'][1]] for i in range(m)]
        how = (how or 'map').lower()
        sg, mu = g('sigma'), g('mu')
        one = inp['kind'] == 'car1'
        if how == 'map':
            best = max(inp['logpost'])
            out = []
            for i in range(m):
                if inp['logpost'][i] == best:
                    out.append((mu[i], sg[i] ** 2, [-math.exp(g('log_omega')[i])] if one else rowsof('ar_roots')[i], [1.0] if one else rowsof('ma_coefs')[i]))
            return out
        f = median if how == 'median' else mean
        if one:
            rt, ma = [-math.exp(f(g('log_omega')))], [1.0]
        else:
            ra, mc = rowsof('ar_roots'), rowsof('ma_coefs')
            rt = [f([row[k] for row in ra]) for k in range(len(ra[0]))]
            ma = [f([row[k] for row in mc]) for k in range(len(mc[0]))]
        s2 = [f([x * x for x in sg])]
        if how == 'median':
            s2.append(f(sg) ** 2)
        return [(f(mu), x, rt, ma) for x in s2]
    @guard
    def check(self, nat, inp):
        out = nat.call('predict', **inp)
        s = out['samples']
        if (out['data']['time'], out['data']['y'], out['data']['ysig']) != (inp['t'], inp['y'], inp['e']):
            raise Bad('prediction changes the stored data')
        if not all(math.isfinite(abs(complex(uncx(x)))) for k in s if k not in ('loglik',) for x in s[k]['v']):
            return
        for (how, at), (m, v, kept) in zip(inp['pred'], out['pred']):
            if not kept:
                raise Bad('prediction changes the times it was given')
            arr = isinstance(at, dict)
            ts = at['a'] if arr else [at]
            if arr and (not isinstance(m, list) or not isinstance(v, list) or len(m) != len(ts) or len(v) != len(ts)):
                raise Bad('prediction: %s values for %d times' % (m, len(ts)))
            if not arr:
                m, v = [m] if not isinstance(m, list) else m, [v] if not isinstance(v, list) else v
            self.any(inp, s, how, lambda par: self.pred(inp, par, ts, m, v, how))
        for (how, at), m in zip(inp['sim'], out['sim']):
            arr = isinstance(at, dict)
            ts = at['a'] if arr else [at]
            if not isinstance(m, list) or len(m) != len(ts):
                raise Bad('simulation: %s values for %d times' % (m, len(ts)))
            if not inp['real']:
                self.any(inp, s, how, lambda par: self.sim(inp, par, ts, m, how))
    def any(self, inp, s, how, f):
        err = None
        for par in self.params(inp, s, how):
            try:
                return f(par)
            except Bad as e:
                err = e
        raise err
    def pred(self, inp, par, ts, m, v, how):
        mu, s2, rt, ma = par
        y = [x - mu for x in inp['y']]
        if inp['real']:
            big = max(abs(complex(x)) for x in rt)
            if min([abs(complex(a) - complex(b)) for j, a in enumerate(rt) for b in rt[:j]] + [big]) < 0.05 * big or max(complex(x).real for x in rt) >= 0:
                return
            if len(rt) > 1 and not well_conditioned([complex(x) for x in rt]):
                return
            if any(min(abs(complex(x) - complex(y).conjugate()) for y in rt) > 1e-9 * big for x in rt):
                return
            for k, at in enumerate(ts):
                try:
                    a, b = oracle.condition(rt, ma, s2, inp['t'], y, inp['e'], at)
                    var = oracle.autocov(rt, ma, s2, 0)
                    _, os_ = oracle.onestep(rt, ma, s2, inp['t'], y, inp['e'])
                except ZeroDivisionError:
                    return
                if min(os_) < 1e-6 * var or b < 1e-6 * var:
                    return
                if far(m[k], a + mu, float(mp.sqrt(var)) + abs(mu) + max(map(abs, y)), 1e-6) or far(v[k], b, float(var), 1e-6):
                    raise Bad('%s prediction at %r is %r, %r; should be %s, %s' % (how, at, m[k], v[k], mp.nstr(a + mu, 15), mp.nstr(b, 15)))
            return
        for k, at in enumerate(ts):
            a, b, sc = pymock.digest(inp['t'], y, inp['e'], s2, rt, ma, at, True)
            if far(m[k], a + mu, sc + abs(mu)) or far(v[k], b, sc):
                raise Bad('%s prediction at %r is %r, %r; from the right filter %r, %r' % (how, at, m[k], v[k], a + mu, b))
    def sim(self, inp, par, ts, m, how):
        mu, s2, rt, ma = par
        y = [x - mu for x in inp['y']]
        for k, x in enumerate(pymock.draws(inp['t'], y, inp['e'], s2, rt, ma, ts, True)):
            sc = pymock.digest(inp['t'], y, inp['e'], s2, rt, ma, ts[k], True)[2]
            if far(m[k], x + mu, sc + abs(mu)):
                raise Bad('%s simulation value %d is %r; from the right filter %r' % (how, k, m[k], x + mu))

class OrderC(Py):
    """Y04"""
    def gen(self, r):
        t, y, e = rows(r, r.choice((3, 5, 8, r.randint(3, 40))), self.lits, repeats=False)
        while len(t) < 3:
            t.append(max(t) + 1.0); y.append(r.gauss(0, 1)); e.append(0.1)
        t = sorted(t)
        what = r.choice(('mle', 'order', 'order'))
        inp = dict(what=what, t=t, y=y, e=e, orders={})
        sc = r.choice((1.0, 50.0, 1000.0))
        if what == 'mle':
            p, q = pq(r)
            nt = r.choice((1, 2, r.randint(1, 12)))
            inp.update(p=p, q=q, kw={'ntrials': nt}, conv=[r.random() < 0.7 for _ in range(nt)], funs=[r.gauss(0, sc) for _ in range(nt)], cand=[[p, q]])
            if r.random() < 0.3:
                inp['funs'][r.randrange(nt)] = 0.0
        else:
            kw = {'ntrials': r.choice((1, 1, 2, 4))}
            if r.random() < 0.4:
                cand = []
                for _ in range(r.randint(1, 7)):
                    p = r.choice((r.randint(1, 7), r.randint(1, 12)))
                    cand.append([p, r.randrange(p)])
                kw['pqlist'] = cand
                inp['pmax'] = r.randint(1, 7)
                if r.random() < 0.3:
                    kw['qmax'] = r.randint(0, 3)
            else:
                inp['pmax'] = r.choice((r.randint(1, 5), r.randint(1, 5), r.randint(6, 8) if r.random() < 0.3 else 2))
                if r.random() < 0.5:
                    kw['qmax'] = r.randint(0, inp['pmax'] - 1)
                qm = kw.get('qmax', inp['pmax'] - 1)
                cand = [[p, q] for p in range(1, inp['pmax'] + 1) for q in range(min(p, qm + 1))]
            inp.update(kw=kw, cand=cand, funs=[r.gauss(0, sc) for _ in range(len(cand) * kw['ntrials'])])
            if r.random() < 0.2:
                k = r.randrange(len(inp['funs'])); inp['funs'][k] = -5 * sc
            if r.random() < 0.2:
                inp['funs'] = [float(round(x)) for x in inp['funs']]
            elif r.random() < 0.3:        # nearly the same AICc for all
                n, e = len(t), loguni(r, 1e-5, 0.1)
                inp['funs'] = [x / sc * e - (k + k * (k + 1.0) / (n - k - 1.0) if n != k + 1 else 0.0)
                               for x, k in zip(inp['funs'], (2 + a + b for a, b in cand for _ in range(kw['ntrials'])))]
            inp['conv'] = [r.random() < 0.7 for _ in inp['funs']]
            if any(len(t) == 2 + a + b + 1 for a, b in cand):
                return self.gen(r)
        if r.random() < 0.3:
            inp['kw']['njobs'] = r.choice((1, 2, -1))
        if 'order' == what and r.random() < 0.3:
            inp['orders'] = {'p': 3, 'q': 1}
        nt = inp['kw']['ntrials']
        inp['chains'] = [[[theta(r, p, q, 'car1' if p == 1 else 'carma')], [0.0]] for p, q in inp['cand'] for _ in range(nt)]
        return inp
    @guard
    def check(self, nat, inp):
        out = nat.call('mle', **{k: v for k, v in inp.items() if k != 'cand'})
        cand, nt, f = inp['cand'], inp['kw']['ntrials'], inp['funs']
        if len(out['trials']) != len(cand) * nt:
            raise Bad('%d trials instead of %d (candidates %s)' % (len(out['trials']), len(cand) * nt, cand))
        if len(out['calls']) >= len(out['trials']):
            for k, (tr, (p, q)) in enumerate(zip(out['trials'], [c for c in cand for _ in range(nt)])):
                c = out['calls'][tr['ncalls'] - 1]
                if (c['kind'] == 'car1') != (p == 1) or p > 1 and (c['p'], c['q']) != (p, q):
                    raise Bad('trial %d is run for %s instead of order %d,%d' % (k, {a: c.get(a) for a in ('kind', 'p', 'q')}, p, q))
                if (c['t'], c['y'], c['e']) != tuple(out['model'][a] for a in ('time', 'y', 'ysig')):
                    raise Bad('trial %d is run on other data' % k)
                th = tr['x']
                want = -pymock.lik(th) - (pymock.prior(th) if p == 1 else 0.0)
                if far(tr['obj'], want, 1.0):
                    raise Bad('trial %d: objective %r is not the negative log-likelihood %r' % (k, tr['obj'], want))
        if inp['what'] == 'mle':
            if f[out['trial']] != min(f) or out['fun'] != min(f):
                raise Bad('returned trial has %r, the smallest is %r' % (f[out['trial']], min(f)))
            return
        best = [min(f[i * nt:(i + 1) * nt]) for i in range(len(cand))]
        n = len(inp['t'])
        if out['pq'] != cand:
            raise Bad('orders tried %s instead of %s' % (out['pq'], cand))
        if len(out['aicc']) != len(cand):
            raise Bad('%d AICc values for %d orders' % (len(out['aicc']), len(cand)))
        want = []
        for (p, q), b in zip(cand, best):
            k = 2 + p + q
            want.append(2.0 * k + 2.0 * b + 2.0 * k * (k + 1.0) / (n - k - 1.0))
        for i, (a, b) in enumerate(zip(out['aicc'], want)):
            if far(a, b, abs(best[i]) + 1.0):
                raise Bad('AICc of %s is %r, should be %r' % (cand[i], a, b))
        lo = min(want)
        tol = 1e-9 * (max(map(abs, best)) + 1.0)
        ok = [i for i in range(len(cand)) if want[i] <= lo + tol]
        if [out['model']['p'], out['model']['q']] not in [cand[i] for i in ok]:
            raise Bad('model orders %s, smallest AICc at %s' % ([out['model']['p'], out['model']['q']], [cand[i] for i in ok]))
        i = out['trial'] // nt
        if i not in ok or out['fun'] != best[i] or cand[i] != [out['model']['p'], out['model']['q']]:
            raise Bad('returned fit is of %s with %r; the smallest AICc is of %s' % (cand[i], out['fun'], [cand[j] for j in ok]))

class FormulaC(Py):
    """Y05"""
    def gen(self, r):
        f = r.choice(('power_spectrum', 'carma_variance', 'carma_variance', 'get_ar_roots'))
        if f == 'get_ar_roots':
            n = r.choice((0, 1, 1, 2, 3, r.randint(1, 5)))
            small = [abs(x) * 1.5 for x in self.lits if 1e-10 <= abs(x) < 1] or [1e-9]
            ce = [r.choice((0.0, loguni(r, 1e-5, 100), loguni(r, 1.1e-10, 1e-3), r.choice(small), r.uniform(0, 3))) for _ in range(n)]
            m = n + (1 if n == 0 or r.random() < 0.5 else 0)
            wd = [loguni(r, 1e-4, 100) for _ in range(m)]
            mk = lambda v: {'a': v} if r.random() < 0.5 and v else v
            return dict(f=f, args=[mk(wd), mk(ce)], kw={})
        p = r.choice((1, 2, 2, 3, 4, 5, 6))
        roots = arparams(r, p, 1.0)
        if r.random() < 0.04:
            p = r.randint(7, 10)
            roots = high_roots(r, p)
        sc = 1.0
        if r.random() < 0.3:        # slower or faster than the usual
            sc = loguni(r, 1e-4, 1e4)
            roots = [z * sc for z in roots]
        if p > 1 and r.random() < 0.15:        # two roots of different factors close together
            k = [i for i, z in enumerate(roots) if z.imag == 0]
            if len(k) > 1:
                i, j = r.sample(k, 2)
                roots[i] = roots[j] * (1 + loguni(r, 1e-6, 0.2))
        s = loguni(r, 0.01, 30)
        nma = r.choice((1, p, r.randint(1, p)))
        ma = [1.0 if r.random() < 0.7 else r.gauss(0, 2)] + [0.0 if r.random() < 0.07 else r.gauss(0, 1.5) / sc ** (k + 1) for k in range(nma - 1)]
        kw = {}
        if nma > 1 or ma[0] != 1.0 or r.random() < 0.6:
            kw['ma_coefs'] = {'a': ma} if r.random() < 0.5 else ma
        if f == 'power_spectrum':
            c = [float(x.real) for x in cmodel.poly([mp.mpc(z) for z in roots])]
            fr = [sc * r.choice((0.0, loguni(r, 1e-4, 50), loguni(r, 1e-8, 1e4), -loguni(r, 1e-3, 5))) for _ in range(r.randint(1, 4))]
            if self.lits and r.random() < 0.15:
                fr[0] = r.choice(self.lits) * r.choice((1, 0.9, 1.1))
            return dict(f=f, args=[{'a': fr}, s, {'a': c} if r.random() < 0.7 else c], kw=kw, scalar=r.random() < 0.2)
        lag = r.choice((0.0, loguni(r, 1e-3, 10), -loguni(r, 1e-3, 10))) / sc
        if self.lits and r.random() < 0.2:
            lag = r.choice(self.lits)
        if r.random() < 0.8:
            kw['lag'] = lag
        return dict(f=f, args=[s, {'a': [cx(z) for z in roots]}], kw=kw)
    @guard
    def check(self, nat, inp):
        a, kw, f = inp['args'], inp['kw'], inp['f']
        raw = lambda x: x['a'] if isinstance(x, dict) and 'a' in x else x
        out = nat.call('fun', **inp)
        got = [uncx(x) for x in out['r']]
        if not out['same']:
            raise Bad('%s changes its arguments' % f)
        if f == 'get_ar_roots':
            wd, ce = raw(a[0]), raw(a[1])
            want = []
            for w, c in zip(wd, ce):
                want.append(-2 * math.pi * complex(w, c))
                if c > 0:
                    want.append(-2 * math.pi * complex(w, -c))
            if len(wd) > len(ce):
                want.append(-2 * math.pi * complex(wd[-1], 0))
            if len(got) != len(want):
                raise Bad('%d roots instead of %d' % (len(got), len(want)))
            left = list(got)
            for w in want:
                k = min(range(len(left)), key=lambda i: abs(left[i] - w))
                if abs(left[k] - w) > 1e-9 * abs(w):
                    raise Bad('no root %r among %s' % (w, got))
                left.pop(k)
            return
        ma = raw(kw.get('ma_coefs', [1.0]))
        if f == 'power_spectrum':
            fr = raw(a[0])[:1] if inp.get('scalar') else raw(a[0])
            s, c = a[1], raw(a[2])
            if len(got) != len(fr):
                raise Bad('%d values for %d frequencies' % (len(got), len(fr)))
            for x, g in zip(fr, got):
                z = mp.mpc(0, 2 * mp.pi * mp.mpf(x))
                up = sum((mp.mpf(b) * z ** k for k, b in enumerate(ma)), mp.mpc(0))
                dn = sum((mp.mpf(b) * z ** k for k, b in enumerate(c[::-1])), mp.mpc(0))
                csc = sum(abs(mp.mpf(b)) * abs(z) ** k for k, b in enumerate(c[::-1])) / abs(dn)
                usc = sum(abs(mp.mpf(b)) * abs(z) ** k for k, b in enumerate(ma))
                w = mp.mpf(s) ** 2 * abs(up) ** 2 / abs(dn) ** 2
                if far(g, w, float(mp.mpf(s) ** 2 * usc ** 2 / abs(dn) ** 2), 1e-9 * float(csc)):
                    raise Bad('power spectrum at %r is %r, should be %s' % (x, g, mp.nstr(w, 15)))
            return
        s, rt = a[0], [uncx(x) for x in raw(a[1])]
        w = oracle.autocov(rt, ma, s, kw.get('lag', 0.0))
        tot = float(absterms(rt, ma)) * s
        if len(got) != 1:
            raise Bad('autocovariance gives %d values' % len(got))
        if far(got[0], w, tot, 1e-9):
            raise Bad('autocovariance at lag %r is %r, should be %s' % (kw.get('lag', 0.0), got[0], mp.nstr(w, 15)))

class ProcC(Py):
    """Y06"""
    def gen(self, r):
        n = r.choice((1, 2, 3, 4, r.randint(1, 7)))
        t, k = r.choice((0.0, r.uniform(-20, 20))), r.random()
        ts = []
        for _ in range(n):
            ts.append(t)
            t += loguni(r, 0.02, 30) if k < 0.4 else r.uniform(0.1, 2) if k < 0.8 else float(r.randint(1, 4))
        if self.lits and r.random() < 0.15 and n > 1:
            d = abs(r.choice(self.lits)); ts = [x + (d if i else 0) for i, x in enumerate(ts)]
        inp = dict(f=r.choice(('car1_process', 'carma_process', 'carma_process', 'carma_process')), s2=loguni(r, 0.01, 50), z=[r.gauss(0, 1) for _ in range(n)])
        if r.random() < 0.1:
            ts = [float(round(x)) + i for i, x in enumerate(ts)]
            inp['t'] = {'ai': [int(x) for x in ts]}
        else:
            inp['t'] = {'a': ts}
        if inp['f'] == 'car1_process':
            inp['tau'] = loguni(r, 0.05, 50)
            return inp
        p = r.choice((1, 2, 2, 3, 4, 5))
        high = r.random() < 0.04
        if high:
            p = r.randint(6, 9)
        while True:
            roots = high_roots(r, p) if high else arparams(r, p, 1.0)
            if p == 1 or well_conditioned(roots) and max(map(abs, roots)) < 30 * min(map(abs, roots)):
                break
        real = p == 1 and r.random() < 0.5
        inp['roots'] = {'a': [z.real if real else cx(z) for z in roots]}
        nma = r.choice((1, p, r.randint(1, p)))
        ma = [1.0] + [0.0 if r.random() < 0.05 else r.gauss(0, 1) for _ in range(nma - 1)]
        inp['kw'] = {}
        if nma > 1 or r.random() < 0.5:
            inp['kw']['ma_coefs'] = {'a': ma} if r.random() < 0.5 else ma
        v = list(inp['t'].values())[0]
        if r.random() < 0.2:
            r.shuffle(v)
        return inp
    @guard
    def check(self, nat, inp):
        ts = list(inp['t'].values())[0]
        n = len(ts)
        if inp['f'] == 'car1_process':
            rt, ma = [-1.0 / inp['tau']], [1.0]
        else:
            rt = [uncx(x) for x in inp['roots']['a']]
            ma = inp['kw'].get('ma_coefs', [1.0])
            ma = ma['a'] if isinstance(ma, dict) else ma
            ts = sorted(ts)
        cov = oracle.cov(rt, ma, inp['s2'], ts)
        try:
            L0 = oracle.chol(cov)
        except ZeroDivisionError:
            return
        v0 = float(cov[0, 0])
        low = min(float(L0[i, i] ** 2) for i in range(n)) / v0
        if low < 1e-9 or float(absterms(rt, ma)) * inp['s2'] > 1e7 * v0:
            return
        out = nat.call('proc', **inp)
        o = [[uncx(x) for x in row] for row in out['outs']]
        for row in o:
            if len(row) != n:
                raise Bad('%d values for %d times' % (len(row), n))
            for x in row:
                if abs(complex(x).imag) > 1e-9 * math.sqrt(v0) or not fin(complex(x).real):
                    raise Bad('value %r is not a real number' % (x,))
        o = [[complex(x).real for x in row] for row in o]
        sd = math.sqrt(v0)
        for x in o[0]:
            if abs(x) > 1e-9 * sd:
                raise Bad('without noise the process is %r instead of 0' % x)
        tol = 1e-7 / low
        for i in range(n):
            for j in range(i + 1):
                g = sum(o[k + 1][i] * o[k + 1][j] for k in range(out['used']))
                if abs(g - float(cov[i, j])) > tol * v0:
                    raise Bad('covariance of values %d and %d is %r, should be %s' % (i, j, g, mp.nstr(cov[i, j], 12)))
        for i in range(n):
            g = sum(o[k + 1][i] * z for k, z in zip(range(out['used']), inp['z']))
            if out['used'] <= n and abs(g - o[-1][i]) > 1e-6 / low * sd:
                raise Bad('value %d is not the same linear function of the draws' % i)
