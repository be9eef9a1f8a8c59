"""Concrete side of the model properties (M01 to M06)."""
import math, random
import mpmath as mp
from . import native, oracle
from .conc import Checker, Bad, compare, guard, jitter, loguni, fin, close

KINDS = dict(car1=0, carp=1, carma=2, zcar=3, zcarma=4)
PI2 = 2 * math.pi

def dim(inp):
    return {'car1': 4, 'carp': 3 + inp['p'], 'carma': 3 + inp['p'] + inp['q'], 'zcar': 3 + inp['p'], 'zcarma': 4 + inp['p']}[inp['kind']]

def quad_roots(a, b):
    """Roots of s^2 + exp(b) s + exp(a)."""
    A, B = mp.exp(mp.mpf(a)), mp.exp(mp.mpf(b))
    d = B * B - 4 * A
    s = mp.sqrt(mp.mpc(d))
    return [(-B - s) / 2, (-B + s) / 2]

def ar_roots(inp, th):
    if inp['kind'] == 'car1':
        return [-mp.exp(mp.mpf(th[3]))]
    p, out = inp['p'], []
    for i in range(p // 2):
        out += quad_roots(th[3 + 2 * i], th[4 + 2 * i])
    if p % 2:
        out.append(mp.mpc(-mp.exp(mp.mpf(th[3 + p - 1]))))
    return out

def poly(roots):
    """Coefficients, highest power first."""
    c = [mp.mpc(1)]
    for r in roots:
        c = [x - r * y for x, y in zip(c + [mp.mpc(0)], [mp.mpc(0)] + c)]
    return c

def kappa_of(inp, th):
    t = inp['t']
    dt = [mp.mpf(b) - mp.mpf(a) for a, b in zip(t, t[1:])]
    hi = 1 / min(dt)
    if inp['kind'] == 'zcar':
        return hi
    if inp.get('kappa'):
        lo, hi = [mp.mpf(x) for x in inp['kappa']]
    else:
        s = sorted(dt)
        n = len(s)
        med = s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
        lo = max(1 / (mp.mpf(max(t)) - mp.mpf(min(t))), 1 / (10 * med))
    x = mp.mpf(th[3 + inp['p']])
    return lo + (hi - lo) / (1 + mp.exp(-x))

def ma_coefs(inp, th):
    k, p = inp['kind'], inp['p']
    if k in ('car1', 'carp'):
        return [mp.mpf(1)] + [mp.mpf(0)] * (p - 1)
    if k == 'carma':
        q, roots = inp['q'], []
        o = 3 + p
        for i in range(q // 2):
            roots += quad_roots(th[o + 2 * i], th[o + 2 * i + 1])
        if q % 2:
            roots.append(mp.mpc(-mp.exp(mp.mpf(th[o + q - 1]))))
        c = [x.real for x in poly(roots)][::-1]
        return [x / c[0] for x in c] + [mp.mpf(0)] * (p - q - 1)
    ka = kappa_of(inp, th)
    return [mp.binomial(p - 1, i) / ka ** i for i in range(p)]

def sigsqr(inp, th):
    return mp.mpf(th[0]) ** 2 / oracle.autocov(ar_roots(inp, th), ma_coefs(inp, th), 1, 0)

def logprior(inp, th):
    s = mp.mpf(th[1])
    r = -mp.mpf(25) / s - 26 * mp.log(s)
    if inp['kind'] == 'zcarma':
        x = mp.mpf(th[3 + inp['p']])
        r += -x - 2 * mp.log(1 + mp.exp(-x))
    return r

def limits(inp):
    t, y = inp['t'], inp['y']
    dt = [mp.mpf(b) - mp.mpf(a) for a, b in zip(t, t[1:])]
    m = sum(mp.mpf(x) for x in y) / len(y)
    sd = inp['prior'] if inp.get('prior') is not None else 10 * mp.sqrt(sum((mp.mpf(x) - m) ** 2 for x in y) / (len(y) - 1))
    return mp.mpf(sd), 1 / (mp.mpf(max(t)) - mp.mpf(min(t))), 1 / min(dt)

def bounds(inp, th):
    """Inside the prior? None when too close to a limit to say in double arithmetic."""
    sd, lo, hi = limits(inp)
    m = mp.mpf('1e-9')
    res = [True]
    def le(a, b, strict=False):
        a, b = mp.mpf(a), mp.mpf(b)
        if abs(a - b) <= m * (abs(a) + abs(b)):
            if a == b and strict is None:
                pass    # literal limits: equality is inside
            else:
                res.append(None); return
        res.append(a <= b)
    if inp.get('mle') and inp['kind'] != 'car1':
        return True
    le(th[0], sd); le(0, th[0], None)
    le(mp.mpf('0.5'), th[1], None); le(th[1], 2, None)
    r = ar_roots(inp, th)
    if inp['kind'] == 'car1':
        om = -r[0].real if hasattr(r[0], 'real') else -r[0]
        le(lo, om); le(om, hi)
    else:
        wid = [-z.real / (2 * mp.pi) for z in r]
        cen = [abs(z.imag) / (2 * mp.pi) for z in r]
        for w in wid:
            le(lo, w); le(w, hi)
        for c in cen:
            le(c, hi)
        for a, b in zip(cen, cen[1:]):
            # allowed to increase by up to 1e-8; rounding of the centroids matters on their own scale
            if abs(b - a - mp.mpf('1e-8')) <= mp.mpf('1e-9') * (a + b) + mp.mpf('1e-12'):
                res.append(None)
            else:
                res.append(b - a <= mp.mpf('1e-8'))
        for i, a in enumerate(r):
            for b in r[:i]:
                f = abs((a - b) / (a + b))
                # nearly equal roots: the difference has lost digits
                if abs(f - mp.mpf('1e-4')) < mp.mpf('3e-5'):
                    res.append(None)
                else:
                    res.append(f > mp.mpf('1e-4'))
    if any(x is False for x in res):
        return False
    return None if any(x is None for x in res) else True

# ---------------------------------------------------------------- generation

def data(r, lits, nmax=10):
    n = r.choice((4, 5, 6, r.randint(4, nmax), r.randint(4, nmax)))
    h = loguni(r, 0.05, 20) if r.random() < 0.93 else loguni(r, 1e-3, 1e3)
    t, out = r.choice((0.0, r.uniform(-50, 50), r.uniform(0, 100))), []
    mode = r.random()
    for _ in range(n):
        out.append(t)
        t += h * (r.uniform(0.3, 2) if mode < 0.6 else loguni(r, 0.1, 10))
    sc = loguni(r, 0.1, 30) if r.random() < 0.88 else loguni(r, 1e-8, 1e6)
    off = r.choice((0.0, r.gauss(0, 3 * sc)))
    y = [off + r.gauss(0, sc) for _ in out]
    e = [sc * (abs(r.gauss(0, 0.3)) + 0.05) for _ in out]
    if r.random() < 0.2:
        e[r.randrange(n)] = 0.0
    return out, y, e, sc

def theta_in(r, inp, sc):
    """A parameter vector, usually inside the prior."""
    sd, lo, hi = [float(x) for x in limits(inp)]
    th = [r.uniform(0.02, 0.5) * sd, r.uniform(0.55, 1.9), r.gauss(sum(inp['y']) / len(inp['y']), sc)]
    if r.random() < 0.15:
        th[1] = r.choice((1.0, 1.0, 0.5, 2.0))
    if r.random() < 0.08:
        th[2] = r.choice((0.0, inp['y'][0]))
    if inp['kind'] == 'car1':
        return th + [math.log(loguni(r, lo * 1.02, hi * 0.98))]
    p = inp['p']
    npair = p // 2
    # complex pairs first, centroids decreasing; then real ones
    ncx = r.randint(0, npair)
    cents = sorted((loguni(r, lo / 5, hi * 0.98) for _ in range(ncx)), reverse=True)
    for c in cents:
        w = loguni(r, lo * 1.02, hi * 0.98)
        re, im = PI2 * w, PI2 * c
        th += [math.log(re * re + im * im), math.log(2 * re)]
    for _ in range(npair - ncx):
        a, b = PI2 * loguni(r, lo * 1.02, hi * 0.98), PI2 * loguni(r, lo * 1.02, hi * 0.98)
        th += [math.log(a * b), math.log(a + b)]
    if p % 2:
        th.append(math.log(PI2 * loguni(r, lo * 1.02, hi * 0.98)))
    if inp['kind'] == 'carma':
        q = inp['q']
        step = 1 / hi
        for i in range(q):
            th.append(r.uniform(-2, 2) - (math.log(step) * (2 if i % 2 == 0 and i + 1 < q else 1)) * r.choice((0, 1, 1)))
    if inp['kind'] == 'zcarma':
        th.append(r.gauss(0, 1.5))
    return th

def spoil(r, inp, th, lits):
    """Moves one coordinate, often out of the prior."""
    th = list(th)
    sd, lo, hi = [float(x) for x in limits(inp)]
    k = r.choice(('sd', 'sd0', 'es', 'ar', 'ar', 'swap', 'near', 'lit', 'eq', 'same'))
    if k == 'sd':
        th[0] = sd * loguni(r, 0.9, 3)
    elif k == 'sd0':
        th[0] = r.choice((-1, 1, -1e-3)) * th[0]
    elif k == 'es':
        th[1] = r.choice((0.5, 2.0, r.uniform(0.3, 0.7), r.uniform(1.6, 2.6), r.uniform(0.01, 5)))
    elif k == 'ar':
        th[3 + r.randrange(inp['p'])] += r.gauss(0, 2)
    elif k == 'swap' and inp['p'] >= 4:
        th[3:5], th[5:7] = th[5:7], th[3:5]
    elif k == 'near' and inp['kind'] != 'car1':
        # a pair of nearly equal roots: relative difference d
        i = r.randrange(inp['p'] // 2)
        b = th[4 + 2 * i]
        d = r.choice((1e-3, 3e-4, 1.5e-4, 7e-5, 5e-5, 1e-5, 2e-3, 3e-2)) * r.choice((1, -1))
        # roots m(1+-d) or m(1 +- i d)
        th[3 + 2 * i] = 2 * (b - math.log(2)) + math.log1p(-d * abs(d))
    elif k == 'eq' and inp['p'] >= 4:
        # two pairs of nearly the same centroid
        sd_, lo_, hi_ = [float(x) for x in limits(inp)]
        c = loguni(r, lo_, hi_ * 0.9)
        c2 = c + r.choice((5e-9, -5e-9, 2e-8, 1e-6, -1e-6, 1e-3 * c))
        for i, (cc, w) in enumerate(((c, loguni(r, lo_ * 1.02, hi_ * 0.98)), (c2, loguni(r, lo_ * 1.02, hi_ * 0.98)))):
            re, im = PI2 * w, PI2 * cc
            th[3 + 2 * i:5 + 2 * i] = [math.log(re * re + im * im), math.log(2 * re)]
    elif k == 'same' and inp['p'] >= 3:
        # two roots of different factors that nearly coincide, at any two places
        p, d = inp['p'], r.choice((0.0, 5e-5, 2e-4, 1e-3, 0.02))
        if p >= 4 and r.random() < 0.3:
            i, j = sorted(r.sample(range(p // 2), 2))
            c, w = sorted((loguni(r, lo, hi * 0.9) for _ in range(p // 2)), reverse=True), [loguni(r, lo * 1.02, hi * 0.98) for _ in range(p // 2)]
            c[i:j + 1], w[j] = [c[i]] * (j - i + 1), w[i] * (1 + 2 * d)
            for k, (a, b) in enumerate(zip(c, w)):
                th[3 + 2 * k:5 + 2 * k] = [math.log(PI2 ** 2 * (a * a + b * b)), math.log(2 * PI2 * b)]
        else:
            w = [PI2 * loguni(r, lo * 1.02, hi * 0.98) for _ in range(p)]
            i, j = r.sample(range(p), 2)
            w[j] = w[i] * (1 + 2 * d)
            for k in range(p // 2):
                a, b = w[2 * k:2 * k + 2]
                th[3 + 2 * k:5 + 2 * k] = [math.log(a * b), math.log(a + b)]
            if p % 2:
                th[2 + p] = math.log(w[-1])
    elif k == 'lit' and lits:
        th[r.choice((0, 1, 2, r.randrange(len(th))))] = r.choice(lits) * r.choice((1, 1, -1))
    return th

def minput(r, lits, kinds=('car1', 'carp', 'carma', 'carma', 'zcar', 'zcarma'), nmax=10, pmax=7):
    kind = r.choice(kinds)
    p = 1 if kind == 'car1' else r.choice((2, 2, 3, 3, 4, 5, r.randint(2, pmax)))
    q = r.randint(1, p - 1) if kind == 'carma' else 0
    t, y, e, sc = data(r, lits, nmax)
    inp = dict(kind=kind, p=p, q=q, t=t, y=y, e=e, temp=r.choice((1.0, 1.0, 3.0)), prior=None, mle=0, kappa=None, pre=[])
    if r.random() < 0.5:
        inp['prior'] = sc * loguni(r, 0.5, 30)
    if kind == 'zcarma' and r.random() < 0.5:
        _, lo, hi = [float(x) for x in limits(inp)]
        a, b = sorted((loguni(r, lo, hi), loguni(r, lo, hi)))
        inp['kappa'] = [a, b * 1.5]
    return inp, sc

def mnew(nat, inp):
    h = nat.call('new', KINDS[inp['kind']], inp['t'], inp['y'], inp['e'], inp['p'], inp['q'], inp['temp'])[0]
    if inp.get('prior') is not None:
        nat.call('set_prior', h, inp['prior'])
    if inp.get('kappa'):
        nat.call('kappa', h, *inp['kappa'])
    if inp.get('mle'):
        nat.call('set_mle', h, 1)
    for op in inp.get('pre', ()):
        nat.call(op[0], h, *op[1:])
    return h

def well(inp, th, lim=1e9):
    import numpy as np
    r = np.array([complex(z) for z in ar_roots(inp, th)])
    if len(r) == 1:
        return True
    sc = np.exp(np.mean(np.log(np.abs(r))))
    if not np.all(np.isfinite(r)) or not np.all(np.abs(r) > 0) or not np.isfinite(sc):
        return False
    return np.linalg.cond(np.vander(r, increasing=True).T) < lim and np.linalg.cond(np.vander(r / sc, increasing=True).T) < lim

def ma_spread(inp, th):
    """Log ratio of the two real MA roots of a pair (digits lost in their difference)."""
    if inp['kind'] != 'carma':
        return 0.0
    o = 3 + inp['p']
    return max([2 * th[i + 1] - th[i] for i in range(o, o + inp['q'] - 1, 2)] or [0.0])

def steady(inp, th, lim=1e8):
    """Is the stationary variance free of heavy cancellation?"""
    if ma_spread(inp, th) > 25:
        return False
    ro, ma = ar_roots(inp, th), ma_coefs(inp, th)
    tot, ab = mp.mpc(0), mp.mpf(0)
    for k, rk in enumerate(ro):
        rk = mp.mpc(rk)
        d = -2 * rk.real
        for l, rl in enumerate(ro):
            if l != k:
                d *= (rl - rk) * (mp.conj(rl) + rk)
        x = sum(c * rk ** j for j, c in enumerate(ma)) * sum(c * (-rk) ** j for j, c in enumerate(ma)) / d
        tot += x; ab += abs(x)
    return ab < lim * abs(tot)

class ModelC(Checker):
    lib = 'model'
    def with_model(self, nat, inp, f):
        h = mnew(nat, inp)
        try:
            return f(h)
        finally:
            try:
                nat.call('free', h)
            except native.Crash:
                pass

class LogPostC(ModelC):
    """M01"""
    def gen(self, r):
        inp, sc = minput(r, self.lits, pmax=6)
        inp['th'] = theta_in(r, inp, sc)
        if r.random() < 0.25:
            inp['th'] = spoil(r, inp, inp['th'], self.lits)
        if r.random() < 0.1:
            inp['mle'] = 1
        inp['stored'] = theta_in(r, inp, sc)
        inp['arma'] = r.randrange(2)
        for _ in range(r.choice((0, 0, 1, 2))):
            o = theta_in(r, inp, sc)
            if r.random() < 0.4:
                o = spoil(r, inp, o, self.lits)
            inp['pre'].append([r.choice(('logdens', 'logdens', 'logprior', 'bounds', 'ma')), o])
        return inp
    def run(self, nat, inp):
        def f(h):
            nat.call('bsave', h, inp['stored'])
            v0 = nat.call('value', h)
            x = nat.call('logdens_a' if inp['arma'] else 'logdens', h, inp['th'])[0]
            pr = nat.call('logprior', h, inp['th'])[0]
            v1 = nat.call('value', h)
            if not all(a == b or a != a and b != b for a, b in zip(v0, v1)) or len(v0) != len(v1):
                raise Bad('evaluating changes the stored value or log-posterior: %r, %r' % (v0, v1))
            if v0[1:-1] != inp['stored']:
                raise Bad('the stored value is %r after storing %r' % (v0[1:-1], inp['stored']))
            d = native.Reader(nat.call('data', h))
            if (d.vec(), d.vec(), d.vec()) != (inp['t'], inp['y'], inp['e']):
                raise Bad('evaluating changes the data')
            x2 = nat.call('logdens', h, inp['th'])[0]
            if not (x2 == x or x != x and x2 != x2 or abs(x - x2) < 1e-9 * (1 + abs(x))):
                raise Bad('a second evaluation gives %r instead of %r' % (x2, x))
            return [x, pr]
        return self.with_model(nat, inp, f)
    @guard
    def check(self, nat, inp):
        th = inp['th']
        inside = bounds(inp, th)
        if inside is None or th[1] <= 0 or not well(inp, th) or not well(inp, inp['stored']) or inside and not steady(inp, th):
            return
        if not inside:
            x = self.run(nat, inp)[0]
            if x != -math.inf:
                raise Bad('log-posterior is %r outside the prior bounds, should be minus infinity' % x)
            return
        if th[0] == 0:
            return
        pr = logprior(inp, th)
        es = [math.sqrt(th[1]) * x for x in inp['e']]
        ro, ma, s2 = ar_roots(inp, th), ma_coefs(inp, th), sigsqr(inp, th)
        if s2 <= 0 or s2 != s2:
            return
        try:
            ll = oracle.loglik(ro, ma, s2, inp['t'], [mp.mpf(x) - mp.mpf(th[2]) for x in inp['y']], [mp.sqrt(mp.mpf(th[1])) * mp.mpf(x) for x in inp['e']])
            v = oracle.onestep(ro, ma, s2, inp['t'], inp['y'], es)[1]
        except ZeroDivisionError:
            return
        if min(v) < 1e-7 * th[0] ** 2:
            return
        compare(self.run, inp, [('log-posterior', ll + pr, 1.0), ('log-prior', pr, 1.0)], nat, what='%s(%d,%d)' % (inp['kind'], inp['p'], inp['q']))

class BoundsC(ModelC):
    """M02"""
    def gen(self, r):
        inp, sc = minput(r, self.lits)
        inp['th'] = theta_in(r, inp, sc)
        for _ in range(r.choice((0, 1, 1, 1, 2))):
            inp['th'] = spoil(r, inp, inp['th'], self.lits)
        if inp['kind'] != 'car1' and r.random() < 0.1:
            inp['mle'] = 1
        return inp
    @guard
    def check(self, nat, inp):
        want = bounds(inp, inp['th'])
        if want is None:
            return
        def f(h):
            got = nat.call('bounds', h, inp['th'])[0]
            if bool(got) != want:
                raise Bad('parameter vector is %s the prior bounds, but the code says %s' % ('inside' if want else 'outside', 'inside' if got else 'outside'))
            if not want:
                x = nat.call('logdens', h, inp['th'])[0]
                if x != -math.inf:
                    raise Bad('log-posterior %r outside the prior bounds' % x)
        self.with_model(nat, inp, f)

class RootsC(ModelC):
    """M03"""
    def gen(self, r):
        inp, sc = minput(r, self.lits, pmax=r.choice((9, 9, 15)))
        inp['th'] = theta_in(r, inp, sc)
        for _ in range(r.choice((0, 1, 1))):
            inp['th'] = spoil(r, inp, inp['th'], self.lits)
        if r.random() < 0.4:
            w = r.choice((2, 2, 2, 10))
            for i in range(3, 3 + inp['p']):
                inp['th'][i] = r.gauss(0, w)
        return inp
    @guard
    def check(self, nat, inp):
        th, p = inp['th'], inp['p']
        def f(h):
            if inp['kind'] == 'car1':
                x = nat.call('ar', h, th)[0]
                if not close(x, mp.exp(mp.mpf(th[3])), 0, 1e-12):
                    raise Bad('rate is %r, should be %s' % (x, mp.nstr(mp.exp(mp.mpf(th[3])), 15)))
                return
            for op in ('roots', 'ar'):
                got = native.Reader(nat.call(op, h, th)).cvec()
                if len(got) != p:
                    raise Bad('%d roots for order %d' % (len(got), p))
                for i in range(p // 2):
                    B, A = mp.exp(mp.mpf(th[4 + 2 * i])), mp.exp(mp.mpf(th[3 + 2 * i]))
                    r1, r2 = [mp.mpc(z) for z in got[2 * i:2 * i + 2]]
                    if not all(fin(z.real) and fin(z.imag) for z in got[2 * i:2 * i + 2]):
                        raise Bad('root pair %d is not finite' % i)
                    e1, e2 = quad_roots(th[3 + 2 * i], th[4 + 2 * i])
                    # rounding of the parts: relative to the larger root, magnified near a double root
                    u = mp.mpf('1e-13') * (B + mp.sqrt(A))
                    d = mp.sqrt(abs(B * B - 4 * A))
                    tol = u + u * (B + mp.sqrt(A)) / max(d, mp.sqrt(u * (B + mp.sqrt(A))))
                    if min(max(abs(r1 - e1), abs(r2 - e2)), max(abs(r1 - e2), abs(r2 - e1))) > 10 * tol:
                        raise Bad('root pair %d is %s, %s; should be %s, %s' % (i, mp.nstr(r1), mp.nstr(r2), mp.nstr(e1), mp.nstr(e2)))
                if p % 2:
                    e = -mp.exp(mp.mpf(th[3 + p - 1]))
                    if not (close(got[-1].real, e, 0, 1e-12) and got[-1].imag == 0):
                        raise Bad('last root is %r, should be %s' % (got[-1], mp.nstr(e)))
        self.with_model(nat, inp, f)

class MAC(ModelC):
    """M04"""
    def gen(self, r):
        inp, sc = minput(r, self.lits, kinds=('carp', 'carma', 'carma', 'carma', 'zcar', 'zcarma', 'zcarma'), pmax=8)
        inp['th'] = theta_in(r, inp, sc)
        for i in range(3 + inp['p'], len(inp['th'])):
            if r.random() < 0.5:
                inp['th'][i] = r.gauss(0, r.choice((1, 2, 4)))
            elif self.lits and r.random() < 0.2:
                inp['th'][i] = r.choice([x for x in self.lits if x < 50] or [1.0]) * r.choice((1, -1))
        if inp['kind'] == 'zcarma' and r.random() < 0.15:
            inp['th'][-1] = r.choice((-30.0, 30.0, 100.0, -100.0, 500.0, -500.0))
        if r.random() < 0.3:
            inp['pre'] = [['logdens', theta_in(r, inp, sc)]]
        return inp
    def run(self, nat, inp):
        return self.with_model(nat, inp, lambda h: native.Reader(nat.call('ma', h, inp['th'])).vec())
    @guard
    def check(self, nat, inp):
        want = ma_coefs(inp, inp['th'])
        # cancellation in the polynomial: the terms are products of root moduli, all of one sign here
        sp = ma_spread(inp, inp['th'])
        if sp > 25:
            return
        tol = 1e-9 + 1e-13 * math.exp(sp)
        compare(self.run, inp, [('MA coefficient %d' % i, x, 1e-300) for i, x in enumerate(want)], nat, tol=tol, what='%s(%d,%d)' % (inp['kind'], inp['p'], inp['q']))

class VarC(ModelC):
    """M05"""
    def gen(self, r):
        inp, sc = minput(r, self.lits, pmax=6)
        inp['th'] = theta_in(r, inp, sc)
        p = max(2, inp['p'])
        from .conc import arparams
        ro = arparams(r, r.choice((1, 2, 2, 3, 4, 5)), 10)
        inp['roots'] = [[z.real, z.imag] for z in ro]
        m = r.choice((1, len(ro), r.randint(1, len(ro))))
        inp['ma'] = [r.choice((1.0, r.gauss(0, 1)))] + [r.gauss(0, 1) if r.random() < 0.9 else 0.0 for _ in range(m - 1)]
        inp['sigma'] = loguni(r, 0.1, 10)
        inp['lag'] = r.choice((0.0, loguni(r, 1e-3, 30), loguni(r, 1e-2, 3), abs(r.choice(self.lits or [1.0])) if r.random() < 0.3 else 0.1))
        return inp
    def run_var(self, nat, inp):
        return self.with_model(nat, inp, lambda h: nat.call('variance', h, [complex(*z) for z in inp['roots']], inp['ma'], inp['sigma'], inp['lag']))
    def run_sig(self, nat, inp):
        return self.with_model(nat, inp, lambda h: nat.call('sigsqr', h, inp['th']))
    @guard
    def check(self, nat, inp):
        if inp['kind'] != 'car1':
            ro = [complex(*z) for z in inp['roots']]
            v0 = oracle.autocov(ro, inp['ma'], inp['sigma'] ** 2, 0)
            v = oracle.autocov(ro, inp['ma'], mp.mpf(inp['sigma']) ** 2, inp['lag'])
            compare(self.run_var, inp, [('autocovariance', v, float(v0) * 1e-3)], nat, tol=1e-8, what='variance')
        if well(inp, inp['th'], 1e7):
            try:
                s = sigsqr(inp, inp['th'])
            except ZeroDivisionError:
                return
            compare(self.run_sig, inp, [('noise variance', s, 1e-300)], nat, tol=1e-6, what='%s(%d,%d)' % (inp['kind'], inp['p'], inp['q']))

class StartC(ModelC):
    """M06"""
    def gen(self, r):
        inp, sc = minput(r, self.lits, nmax=14, pmax=4)
        inp['e'] = [max(x, 0.05 * sc) for x in inp['e']]
        if inp['prior'] is not None:
            inp['prior'] = max(inp['prior'], 10 * sc)
        inp['seed'] = r.randrange(1, 10 ** 6)
        m = r.random()
        inp['init'] = None
        if m < 0.6:
            th = theta_in(r, inp, sc)
            if r.random() < 0.4:
                th = spoil(r, inp, th, self.lits)
            if r.random() < 0.25:
                n = r.choice((0, 1, len(th) - 1, len(th) + 1, len(th) + 2, 4))
                th = (th + [0.1] * n)[:n] if n != len(th) else th
            inp['init'] = th
        if r.random() < 0.3:
            inp['pre'] = [['logdens', theta_in(r, inp, sc)]]
        return inp
    def run(self, nat, inp):
        def f(h):
            if inp['init'] is None:
                th = native.Reader(nat.call('start', h, inp['seed'])).vec()
            else:
                th = native.Reader(nat.call('set_start', h, inp['seed'], inp['init'])).vec()
            k = native.Reader(nat.call('kalman', h))
            m, v = k.vec(), k.vec()
            ld = nat.call('logdens', h, th)[0] if len(th) == dim(inp) else math.nan
            return th, m, v, ld
        return self.with_model(nat, inp, f)
    @guard
    def check(self, nat, inp):
        if inp['init'] is not None and len(inp['init']) == dim(inp) and (inp['init'][1] <= 0 or bounds(inp, inp['init']) is None):
            return
        if inp['init'] is not None and len(inp['init']) == dim(inp) and not (well(inp, inp['init'], 1e8) and steady(inp, inp['init'])):
            return
        th, m, v, ld = self.run(nat, inp)
        if len(th) != dim(inp):
            raise Bad('starting vector has length %d instead of %d' % (len(th), dim(inp)))
        user = inp['init'] is not None and len(inp['init']) == dim(inp) and bounds(inp, inp['init']) and well(inp, inp['init'], 1e8)
        if user:
            if inp['init'][0] == 0:
                return
            fine = self.with_model(nat, inp, lambda h: nat.call('logdens', h, inp['init'])[0])
            if not fin(fine):
                user = False
        if user:
            if th != inp['init']:
                raise Bad('a valid starting vector %r is replaced by %r' % (inp['init'], th))
        elif inp['kind'] != 'car1' and not fin(ld):
            raise Bad('starting value %r has log-posterior %r' % (th, ld))
        if not user and inp['init'] is not None and len(inp['init']) == dim(inp) and th == inp['init'] and bounds(inp, inp['init']) is False:
            raise Bad('a starting vector outside the prior is kept')
        if not user:
            if not (0.5 < th[1] < 2.0):
                raise Bad('error scale of the starting value is %r' % th[1])
            if not th[0] > 0:
                raise Bad('deviation of the starting value is %r' % th[0])
        if not well(inp, th, 1e7) or not steady(inp, th, 1e7):
            return
        # the filter holds the one-step predictions for this vector
        ro, ma, s2 = ar_roots(inp, th), ma_coefs(inp, th), sigsqr(inp, th)
        try:
            em, ev = oracle.onestep(ro, ma, s2, inp['t'], [mp.mpf(x) - mp.mpf(th[2]) for x in inp['y']], [mp.sqrt(mp.mpf(th[1])) * mp.mpf(x) for x in inp['e']])
        except ZeroDivisionError:
            return
        if min(ev) < 1e-7 * th[0] ** 2:
            return
        sc = max(abs(x - th[2]) for x in inp['y'])
        for what, got, exp, s in (('mean', m, em, sc), ('variance', v, ev, th[0] ** 2)):
            if len(got) != len(exp) or any(not close(a, b, s, 1e-5) for a, b in zip(got, exp)):
                if len(got) == len(exp):
                    # beyond what last-digit changes of the vector do to the filter?
                    def nudged(h, j):
                        nat.call('logdens', h, jitter(th, random.Random(j)))
                        k = native.Reader(nat.call('kalman', h))
                        return k.vec() if what == 'mean' else (k.vec(), k.vec())[1]
                    gs = [self.with_model(nat, inp, lambda h: nudged(h, j)) for j in range(6)]
                    sp = max(abs(x - y) for a in gs for b in gs for x, y in zip(a, b))
                    if all(abs(a - float(b)) <= 1e-5 * max(abs(float(b)), s) + 30 * sp for a, b in zip(got, exp)):
                        continue
                raise Bad('the filter is not evaluated at the returned vector: %s is %r, should be %r' % (what, got, [float(x) for x in exp]))
