"""Execution of the compiled code on concrete inputs, compared with reference values.
Used to confirm counterexamples of failed obligations, and as a bounded stand-in where the
prover gives no answer. Inputs are plain dictionaries, so a replay file can carry them."""
import math, random
from . import native

class Bad(Exception):
    """The code's result differs from the property's."""

def fin(x):
    return isinstance(x, (int, float)) and math.isfinite(x)

def close(got, exp, scale, tol=1e-6):
    return fin(got) and abs(got - float(exp)) <= tol * max(abs(float(exp)), scale)

def loguni(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))

def jitter(x, r, rel=1e-13):
    """The input with every real number in it changed in the last digits (to see the conditioning)."""
    if isinstance(x, float):
        return x * (1 + r.choice((-1, 1)) * rel)
    if isinstance(x, list):
        return [jitter(y, r, rel) for y in x]
    if isinstance(x, dict):
        return {k: (jitter(v, r, rel) if k not in ('fixed',) else v) for k, v in x.items()}
    return x

class Checker:
    """A property's concrete side: gen(rnd) -> input, run(nat, inp) -> list of numbers,
    want(inp) -> list of (name, expected, scale)."""
    lib = 'kf'
    def __init__(self, lits=()):
        self.lits = [float(x) for x in lits if 1e-6 <= abs(float(x)) <= 1e6]
    def open(self):
        return native.Native(self.lib)
    def shut(self, nat):
        nat.close()
    def classify(self, inp, what):
        """Key of the known finding this failure belongs to, if any."""
        return None
    def from_api(self, api):
        """Inputs built from a counterexample of the prover."""
        return []
    def gen(self, r):
        raise NotImplementedError
    def check(self, nat, inp):
        """Raises Bad if the property fails on this input."""
        raise NotImplementedError

def compare(run, inp, want, nat, tol=1e-6, what=''):
    """Compare run(nat, inp) with want; a mismatch counts only if it is far beyond what
    last-digit changes of the input do to the result."""
    got = run(nat, inp)
    bad = [(i, nm, e, s) for i, (nm, e, s) in enumerate(want) if i >= len(got) or not close(got[i], e, s, tol)]
    if len(got) != len(want):
        raise Bad('%s: %d values instead of %d' % (what, len(got), len(want)))
    if not bad:
        return got
    r = random.Random(7)
    spread = [0.0] * len(got)
    for _ in range(6):
        try:
            g = run(nat, jitter(inp, r))
        except (native.Raised, native.Crash):
            continue
        for i, nm, e, s in bad:
            if i < len(g) and fin(g[i]) and fin(got[i]):
                spread[i] = max(spread[i], abs(g[i] - got[i]))
    for i, nm, e, s in bad:
        if not fin(got[i]) or abs(got[i] - float(e)) > tol * max(abs(float(e)), s) + 30 * spread[i]:
            raise Bad('%s: %s is %r, should be %s' % (what, nm, got[i], ('%.15g' % float(e))))
    return got

# ---------------------------------------------------------------- filters

def times(r, n, lits):
    """Increasing times with widely varying steps."""
    mode = r.random()
    t, out = r.choice((0.0, r.uniform(-50, 50), r.uniform(0, 1000))), []
    for _ in range(n):
        out.append(t)
        t += loguni(r, 1e-3, 1e3) if mode < 0.3 else (r.uniform(0.1, 2) if mode < 0.8 else abs(r.choice(lits or [1.0])) * r.uniform(0.5, 2))
    return out

def series(r, lits, nmax=14):
    n = r.choice((2, 3, 4, 5, r.randint(2, nmax), r.randint(2, nmax)))
    t = times(r, n, lits)
    sc = loguni(r, 0.1, 30) if r.random() < 0.9 else loguni(r, 1e-8, 1e6)
    y = [r.gauss(0, sc) for _ in range(n)]
    if r.random() < 0.15:
        y[r.randrange(n)] = 0.0
    mode = r.random()
    e = [0.0 if mode < 0.15 else (abs(r.gauss(0, sc * 0.3)) + 1e-3 * sc if mode < 0.8 else loguni(r, 1e-3, 10) * sc) for _ in range(n)]
    if r.random() < 0.2:
        e[r.randrange(n)] = 0.0
    if lits and r.random() < 0.3:
        i = r.randrange(n)
        (y if r.random() < 0.5 else e)[i] = abs(r.choice(lits)) * r.choice((0.5, 1, 2))
    return t, y, e, sc

def arparams(r, p, span):
    """AR roots (distinct, negative real part) as a list, conjugate pairs first."""
    while True:
        roots, lo = [], 0.2 / span
        left = p
        while left:
            if left >= 2 and r.random() < 0.7:
                re, im = -loguni(r, 0.05, 3), loguni(r, 0.05, 5)
                roots += [complex(re, im), complex(re, -im)] if r.random() < 0.5 else [complex(re, -im), complex(re, im)]
                left -= 2
            else:
                roots.append(complex(-loguni(r, 0.05, 5), 0.0))
                left -= 1
        if all(abs(a - b) > 0.2 * abs(a + b) for i, a in enumerate(roots) for b in roots[:i]):
            return roots

def high_roots(r, p):
    """AR roots of a high order, spread over the left half of a ring so that their Vandermonde system is solvable in doubles."""
    import cmath
    out = []
    k = p // 2
    for i in range(k):
        z = -loguni(r, 0.8, 1.25) * cmath.exp(1j * (0.15 + 1.35 * (i + r.uniform(0.3, 0.7)) / k))
        out += [z, z.conjugate()]
    return out + [complex(-loguni(r, 0.4, 0.6), 0.0)] * (p % 2)

def well_conditioned(roots):
    """Can double arithmetic solve the Vandermonde system of these roots?"""
    import numpy as np
    w = np.array(roots)
    return np.linalg.cond(np.vander(w, increasing=True).T) < 1e9

def long_series(r, lits):
    """A series of many points that all matter: even steps, large errors, slow process."""
    big = [int(x) for x in lits if 5 < x <= 300 and x == int(x)]
    n = r.choice((r.randint(41, 150), r.choice(big or [90]) + r.randint(1, 40), 2 * r.choice(big or [60]) + r.randint(1, 9)))
    h, t, sc = loguni(r, 0.01, 10), [r.uniform(-10, 10)], loguni(r, 0.1, 30)
    while len(t) < n:
        t.append(t[-1] + h * r.uniform(0.9, 1.1))
    return t, [r.gauss(0.5 * sc, sc) for _ in t], [sc * r.uniform(1, 5) for _ in t], sc

def kfinput(r, lits, kind=None, nmax=14, via=True):
    if nmax > 8 and r.random() < 0.12:
        t, y, e, sc = long_series(r, lits)
        slow = loguni(r, 0.05, 20) / len(t)
    else:
        t, y, e, sc = series(r, lits, nmax)
        slow = 0
    kind = kind or r.choice(('kf1', 'kfp'))
    steps = [b - a for a, b in zip(t, t[1:])]
    step = sorted(steps)[len(steps) // 2]
    if slow and kind == 'kfp':
        step /= slow
    inp = dict(kind=kind, mode=r.randrange(4), t=t, y=y, e=e, pre=[], via=None)
    if via and r.random() < 0.1:
        inp['via'] = [r.uniform(0.3, 3), r.uniform(0.1, 2), r.choice((0, 0, 1, 3))]
    if kind == 'kf1':
        om = loguni(r, 1e-3, 20) / (step if r.random() < 0.7 else 1)
        if lits and r.random() < 0.15:
            om = abs(r.choice(lits))
        if slow:
            om = slow / step
        inp['omega'] = om
        inp['sigsqr'] = 2 * om * sc ** 2 * loguni(r, 0.1, 10)
    else:
        p = r.choice((2, 2, 3, 4, 5, 2, 3, 6))
        roots = [z / step for z in arparams(r, p, len(t))]
        if 0.3 < step < 3 and r.random() < 0.15:
            p = r.randint(7, 10)
            roots = high_roots(r, p)
        while not well_conditioned(roots):
            p = r.choice((2, 2, 3))
            roots = [z / step for z in arparams(r, p, len(t))]
            if p == 2 and not well_conditioned(roots):
                return kfinput(r, lits, kind, nmax, via)
        q = r.randint(0, p - 1)
        ma = [1.0] + [r.uniform(-0.5, 1.5) * step ** j if r.random() < 0.95 else 0.0 for j in range(1, q + 1)]
        if r.random() < 0.5:
            ma += [0.0] * (p - len(ma))
        inp['omega'] = [[z.real, z.imag] for z in roots]
        inp['ma'] = ma
        from .oracle import autocov
        v1 = float(autocov(roots, ma, 1.0, 0.0))
        inp['sigsqr'] = sc ** 2 * loguni(r, 0.1, 10) / v1
    return inp

def roots_of(inp):
    return [-inp['omega']] if inp['kind'] == 'kf1' else [complex(*z) for z in inp['omega']]

def ma_of(inp):
    return [1.0] if inp['kind'] == 'kf1' else inp['ma']

def kfnew(nat, inp):
    if inp.get('via'):
        # built from other data, then given this series through the setters
        a, b, m = inp['via']
        other = dict(inp, t=[a * x + b * k for k, x in enumerate(inp['t'] + [inp['t'][-1] + 1 + j for j in range(m)])],
                     y=inp['y'] + [0.5] * m, e=inp['e'] + [0.1] * m, via=None)
        h = kfnew(nat, other)
        nat.call('set_time', h, inp['t'])
        nat.call('set_y', h, inp['y'])
        nat.call('set_yerr', h, inp['e'])
        return h
    if inp['kind'] == 'kf1':
        return nat.call('kf1_new', inp['mode'], inp['t'], inp['y'], inp['e'], inp['sigsqr'], inp['omega'])[0]
    return nat.call('kfp_new', inp['mode'], inp['t'], inp['y'], inp['e'], inp['sigsqr'], [complex(*z) for z in inp['omega']], inp['ma'])[0]

def kfpre(nat, h, inp):
    """Earlier calls on the object; each leaves the data and parameters as they were."""
    for op in inp['pre']:
        if op[0] == 'filter':
            nat.call('filter', h)
        elif op[0] == 'predict':
            nat.call('predict', h, op[1])
        elif op[0] == 'simulate':
            nat.call('simulate', h, op[1], op[2])
        elif op[0] == 'params':
            # some of the parameters are other ones for a while
            f, g, m = op[1:4]
            om = inp['omega'] if inp['kind'] == 'kf1' else [complex(*z) for z in inp['omega']]
            if f != 1:
                nat.call('set_sigsqr', h, inp['sigsqr'] * f)
            if g != 1:
                nat.call('set_omega', h, om * g if inp['kind'] == 'kf1' else [z * g for z in om])
            if m != 1 and inp['kind'] == 'kfp':
                nat.call('set_ma', h, padded(inp, m))
            if op[4] is None:
                nat.call('filter', h)
            else:
                nat.call('predict', h, op[4])
            if f != 1:
                nat.call('set_sigsqr', h, inp['sigsqr'])
            if g != 1:
                nat.call('set_omega', h, om)
            if m != 1 and inp['kind'] == 'kfp':
                nat.call('set_ma', h, padded(inp, 1))
        elif op[0] == 'data':
            if op[3] != 2:
                nat.call('set_y', h, [x * op[1] + 1 for x in inp['y']])
            if op[3] != 1:
                nat.call('set_yerr', h, [x * op[2] + 0.5 for x in inp['e']])
            nat.call('filter', h)
            if op[3] != 2:
                nat.call('set_y', h, inp['y'])
            if op[3] != 1:
                nat.call('set_yerr', h, inp['e'])
        elif op[0] == 'time':
            n = len(inp['t'])
            nat.call('set_time', h, [op[1] * x + op[2] * k for k, x in enumerate(inp['t'])])
            nat.call('filter', h)
            nat.call('set_time', h, inp['t'])

def padded(inp, f):
    """MA coefficients of full length, those after the first times f."""
    ma = [inp['ma'][0]] + [x * f for x in inp['ma'][1:]]
    return ma + [0.0] * (len(inp['omega']) - len(ma))

def pres(r, inp):
    out = []
    for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3))):
        k = r.choice(('filter', 'predict', 'simulate', 'params', 'data', 'time'))
        t = inp['t']
        s = between(r, t)
        if k == 'filter':
            out.append(['filter'])
        elif k == 'predict':
            out.append(['predict', s])
        elif k == 'simulate':
            out.append(['simulate', r.randrange(1, 10 ** 6), sorted({between(r, t) for _ in range(r.randint(1, 3))})])
        elif k == 'params':
            w = r.choice((1, 2, 4, 3, 7))
            out.append(['params', loguni(r, 0.2, 5) if w & 1 else 1, loguni(r, 0.3, 3) if w & 2 else 1,
                        r.choice((0, loguni(r, 0.3, 3))) if w & 4 else 1, r.choice((None, s))])
        elif k == 'data':
            out.append(['data', r.uniform(-2, 2), r.uniform(0.5, 2), r.choice((0, 1, 2))])
        else:
            out.append(['time', r.uniform(0.5, 2), r.uniform(0.1, 1)])
    return out

def between(r, t):
    """A time before, in, or after the series, not equal to one of its times."""
    span = t[-1] - t[0]
    for _ in range(300):
        m = r.random()
        if m < 0.2:
            s = t[0] - loguni(r, 1e-3, 2) * span
        elif m < 0.4:
            s = t[-1] + loguni(r, 1e-3, 2) * span
        else:
            i = r.randrange(len(t) - 1)
            s = t[i] + r.uniform(0.02, 0.98) * (t[i + 1] - t[i])
        if all(abs(s - x) > 1e-6 * (abs(s) + abs(x)) * 1e-3 + 1e-9 * span for x in t):
            return s
    return t[-1] + span + 1e-6 * abs(t[-1])       # times too close together for their size

def guard(f):
    """Runtime failures of the code on valid input are violations too."""
    def g(self, nat, inp):
        try:
            return f(self, nat, inp)
        except native.Crash as e:
            raise Bad('the code crashes or hangs: %s' % e)
        except native.Raised as e:
            if str(e).startswith('harness:'):
                raise
            raise Bad('the code throws: %s' % e)
    return g

def kf_api(api, kind):
    if 'time' not in api:
        return None
    inp = dict(kind=kind, mode=0, t=list(api['time']), y=list(api['y']), e=list(api['yerr']), pre=[], via=None, sigsqr=api['sigsqr'])
    if kind == 'kf1':
        if isinstance(api['omega'], (list, tuple)):
            return None
        inp['omega'] = api['omega']
    else:
        if not isinstance(api['omega'], (list, tuple)):
            return None
        inp['omega'] = [list(z) for z in api['omega']]
        inp['ma'] = [float(x) for x in api['ma']]
    return inp

class FilterC(Checker):
    kind = 'kf1'
    def from_api(self, api):
        inp = kf_api(api, self.kind)
        return [inp] if inp else []
    def gen(self, r):
        inp = kfinput(r, self.lits, self.kind, 40 if r.random() < 0.1 else 12)
        inp['pre'] = pres(r, inp)
        return inp
    def run(self, nat, inp):
        h = kfnew(nat, inp)
        try:
            kfpre(nat, h, inp)
            r = native.Reader(nat.call('filter', h))
            m, v = r.vec(), r.vec()
            r = native.Reader(nat.call('svec', h))
            if (r.vec(), r.vec()) != (m, v) and not any(x != x for x in m + v):
                raise Bad('the mean and variance vectors handed to Python differ from the stored ones')
            return m + v
        finally:
            try:
                nat.call('free', h)
            except native.Crash:
                pass
    @guard
    def check(self, nat, inp):
        from . import oracle
        try:
            m, v = oracle.onestep(roots_of(inp), ma_of(inp), inp['sigsqr'], inp['t'], inp['y'], inp['e'])
        except ZeroDivisionError:
            return
        sc = max(abs(x) for x in inp['y']) + 1e-300
        v0 = float(oracle.autocov(roots_of(inp), ma_of(inp), inp['sigsqr'], 0))
        if min(v) < 1e-8 * v0:
            return    # nearly determined values: beyond double arithmetic
        want = [('mean[%d]' % i, x, sc) for i, x in enumerate(m)] + [('var[%d]' % i, x, v0 * 1e-3) for i, x in enumerate(v)]
        compare(self.run, inp, want, nat, what='filter')

class FilterPC(FilterC):
    kind = 'kfp'

class PredictC(Checker):
    kind = 'kf1'
    def from_api(self, api):
        inp = kf_api(api, self.kind)
        if not inp:
            return []
        t = inp['t']
        return [dict(inp, s=s) for s in list(api.get('predict', [])) + [t[0] - 1, t[-1] + 1] + [(a + b) / 2 for a, b in zip(t, t[1:])]]
    def gen(self, r):
        inp = kfinput(r, self.lits, self.kind, 12)
        inp['pre'] = pres(r, inp)
        s = between(r, inp['t'])
        if r.random() < 0.2:
            i = r.randrange(len(inp['t']))
            if inp['e'][i] > 0:
                s = inp['t'][i]
        inp['s'] = s
        return inp
    def run(self, nat, inp):
        h = kfnew(nat, inp)
        try:
            kfpre(nat, h, inp)
            before = nat.call('data', h)
            out = nat.call('predict', h, inp['s'])
            if nat.call('data', h) != before:
                raise Bad('prediction changes the stored series')
            return out
        finally:
            try:
                nat.call('free', h)
            except native.Crash:
                pass
    @guard
    def check(self, nat, inp):
        from . import oracle
        ro, ma = roots_of(inp), ma_of(inp)
        try:
            m, v = oracle.condition(ro, ma, inp['sigsqr'], inp['t'], inp['y'], inp['e'], inp['s'])
        except ZeroDivisionError:
            return
        if any(abs(a - inp['s']) == 0 and e == 0 for a, e in zip(inp['t'], inp['e'])):
            return
        v0 = float(oracle.autocov(ro, ma, inp['sigsqr'], 0))
        if min(oracle.onestep(ro, ma, inp['sigsqr'], inp['t'], inp['y'], inp['e'])[1]) < 1e-8 * v0:
            return    # nearly determined values: beyond double arithmetic
        sc = max(abs(x) for x in inp['y']) + 1e-300
        # an exactly known neighbour makes the conditional variance tiny; judge on the scale it has
        compare(self.run, inp, [('mean', m, sc), ('variance', v, v0 * 1e-3)], nat, what='prediction at %r' % inp['s'])

class PredictPC(PredictC):
    kind = 'kfp'

class SimulateC(Checker):
    def from_api(self, api):
        inp = kf_api(api, 'kf1') or kf_api(api, 'kfp')
        if not inp:
            return []
        t = inp['t']
        s = [(2 * a + b) / 3 for a, b in zip(t, t[1:])]
        return [dict(inp, s=[t[0] - 1] + s + [t[-1] + 1], seed=11, after=t[0] + 0.4 * (t[1] - t[0]))]
    def gen(self, r):
        inp = kfinput(r, self.lits, None, 8)
        inp['pre'] = pres(r, inp)
        s = [between(r, inp['t']) for _ in range(r.choice((1, 2, 3, 4, 6)))]
        if r.random() < 0.2:
            i = r.randrange(len(inp['t']))
            if inp['e'][i] > 0:
                s.append(inp['t'][i])
        s = sorted(set(s))
        ok = [s[0]]
        for x in s[1:]:
            if x - ok[-1] > 1e-6 * (inp['t'][-1] - inp['t'][0]):
                ok.append(x)
        r.shuffle(ok)
        inp['s'], inp['seed'] = ok, r.randrange(1, 10 ** 6)
        inp['after'] = between(r, inp['t'])
        return inp
    def run(self, nat, inp):
        h = kfnew(nat, inp)
        try:
            kfpre(nat, h, inp)
            f0, p0, d0 = nat.call('filter', h), nat.call('predict', h, inp['after']), nat.call('data', h)
            y = native.Reader(nat.call('simulate', h, inp['seed'], inp['s'])).vec()
            d1, p1, f1 = nat.call('data', h), nat.call('predict', h, inp['after']), nat.call('filter', h)
            same = lambda a, b: len(a) == len(b) and all(x == y or x != x and y != y for x, y in zip(a, b))
            if not same(d0, d1):
                raise Bad('simulation changes the stored series or the size of the results')
            if not same(p0, p1):
                raise Bad('a prediction after the simulation differs from the one before: %r, %r' % (p0, p1))
            if not same(f0, f1):
                raise Bad('a filter run after the simulation differs from the one before')
            y2 = native.Reader(nat.call('simulate', h, inp['seed'], inp['s'])).vec()
            if any(not close(a, b, abs(b), 1e-9) for a, b in zip(y, y2) if a == a or b == b):
                raise Bad('a second simulation with the same random draws differs')
            return y
        finally:
            try:
                nat.call('free', h)
            except native.Crash:
                pass
    def scores(self, inp, y):
        """The standard normal score of each simulated value under the stated law."""
        from . import oracle
        ro, ma = roots_of(inp), ma_of(inp)
        T, Y, E, z = list(inp['t']), list(inp['y']), list(inp['e']), []
        for s, v in zip(sorted(inp['s']), y):
            m, var = oracle.condition(ro, ma, inp['sigsqr'], T, Y, E, s)
            z.append((m, oracle.mp.sqrt(var)))
            T.append(s); Y.append(v); E.append(0.0)
        return z
    @guard
    def check(self, nat, inp):
        from . import oracle
        nat.call('normals', 1, 1)
        y = self.run(nat, inp)
        if len(y) != len(inp['s']):
            raise Bad('%d simulated values for %d times' % (len(y), len(inp['s'])))
        z = native.Reader(nat.call('normals', inp['seed'], len(y))).vec()
        try:
            ms = self.scores(inp, y)
        except ZeroDivisionError:
            return
        v0 = math.sqrt(float(oracle.autocov(roots_of(inp), ma_of(inp), inp['sigsqr'], 0)))
        sc = max(abs(x) for x in inp['y']) + v0
        def ok(run):
            yy = run
            for i, ((m, s), u) in enumerate(zip(ms, z)):
                if not fin(yy[i]) or abs(yy[i] - float(m + s * u)) > 1e-5 * sc:
                    return i
            return None
        i = ok(y)
        if i is None:
            return
        if min(float(s) for m, s in ms) < 1e-3 * v0:
            return    # nearly determined values: beyond double arithmetic
        if len(inp['t']) <= oracle.LONG and float(min(oracle.onestep(roots_of(inp), ma_of(inp), inp['sigsqr'], inp['t'], inp['y'], inp['e'])[1])) < 1e-9 * v0 ** 2:
            return
        # last-digit conditioning
        r, spread = random.Random(3), 0.0
        for _ in range(6):
            g = self.run(nat, jitter({k: v for k, v in inp.items()}, r))
            spread = max([spread] + [abs(a - b) for a, b in zip(g, y) if fin(a) and fin(b)])
        if all(fin(a) for a in y) and max(abs(yy - float(m + s * u)) for yy, (m, s), u in zip(y, ms, z)) <= 1e-5 * sc + 100 * spread:
            return
        # not this sequence of draws: judge by distribution
        if all(fin(a) for a in y) and self.statistical(nat, inp):
            return
        raise Bad('value %d simulated at %r is %r; the conditional law has mean %.12g, deviation %.12g (draw %.6g)'
                  % (i, sorted(inp['s'])[i], y[i], float(ms[i][0]), float(ms[i][1]), z[i]))
    def statistical(self, nat, inp, n=400):
        """Do scores over many seeds look standard normal and independent?"""
        h = kfnew(nat, inp)
        S = []
        for k in range(n):
            y = native.Reader(nat.call('simulate', h, 10007 + k, inp['s'])).vec()
            if not all(fin(a) for a in y):
                return False
            S.append([float((v - m) / s) for v, (m, s) in zip(y, self.scores(inp, y))])
        return standard_normal(S)

def standard_normal(S):
    """Rows of independent standard normal numbers? (thresholds at about seven deviations)"""
    n, d = len(S), len(S[0])
    for i in range(d):
        x = [r[i] for r in S]
        if abs(sum(x) / n) > 7 / math.sqrt(n) or abs(sum(a * a for a in x) / n - 1) > 7 * math.sqrt(2 / n):
            return False
        ks = max(abs((k + 0.5) / n - 0.5 * math.erfc(-a / math.sqrt(2))) for k, a in enumerate(sorted(x)))
        if ks > 4 / math.sqrt(n):
            return False
        for j in range(i):
            if abs(sum(r[i] * r[j] for r in S) / n) > 7 / math.sqrt(n):
                return False
    return True

class ConstructC(Checker):
    def gen(self, r):
        inp = kfinput(r, self.lits, None, 9, via=False)
        t, y, e = inp['t'], inp['y'], inp['e']
        n = len(t)
        rows = list(zip(t, y, e))
        for _ in range(r.choice((0, 1, 1, 2, 3, 6))):
            i = r.randrange(n)
            rows.insert(r.choice((i, i + 1, r.randrange(len(rows) + 1))), (t[i], r.gauss(0, 3), abs(r.gauss(0, 1)) + 0.01))
        m = r.random()
        if m < 0.35:
            r.shuffle(rows)
        elif m < 0.5:
            rows.sort(key=lambda x: -x[0])
        elif m < 0.7:
            rows.sort(key=lambda x: x[0])
        inp['t'], inp['y'], inp['e'] = [x[0] for x in rows], [x[1] for x in rows], [x[2] for x in rows]
        return inp
    @guard
    def check(self, nat, inp):
        h = kfnew(nat, inp)
        try:
            r = native.Reader(nat.call('data', h))
            t, y, e = r.vec(), r.vec(), r.vec()
            nm, nv = r.num(), r.num()
            if t != sorted(set(inp['t'])):
                raise Bad('stored times are %r for given times %r' % (t, inp['t']))
            if len(y) != len(t) or len(e) != len(t):
                raise Bad('%d times but %d values and %d errors are stored' % (len(t), len(y), len(e)))
            if nm != len(t) or nv != len(t):
                raise Bad('result arrays have %d and %d entries for %d times' % (nm, nv, len(t)))
            rows = set(zip(inp['t'], inp['y'], inp['e']))
            for x in zip(t, y, e):
                if x not in rows:
                    raise Bad('stored row %r was not given' % (x,))
            f = nat.call('filter', h)
            clean = dict(inp, t=t, y=y, e=e, mode=0)
            g = kfnew(nat, clean)
            f2 = nat.call('filter', g)
            nat.call('free', g)
            if len(f) != len(f2) or any(not (a == b or abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12) for a, b in zip(f, f2) if a == a or b == b):
                raise Bad('the filter gives %r, but %r when built from the stored rows' % (f, f2))
        finally:
            try:
                nat.call('free', h)
            except native.Crash:
                pass

CHECKERS = dict(F01=FilterC, F02=FilterPC, F03=PredictC, F04=PredictPC, F05=SimulateC, F06=ConstructC)
ELSEWHERE = dict(M01="cmodel.LogPostC", M02="cmodel.BoundsC", M03="cmodel.RootsC", M04="cmodel.MAC", M05="cmodel.VarC", M06="cmodel.StartC",
                 S01="cmcmc.MetropC", S02="cmcmc.RamC", S03="cmcmc.CholC", S04="cmcmc.ExchC", S05="cmcmc.RunC", S06="cmcmc.DriverC", S07="cmcmc.RandC",
                 Y01="cpy.RunC", Y02="cpy.TraceC", Y03="cpy.PredC", Y04="cpy.OrderC", Y05="cpy.FormulaC", Y06="cpy.ProcC", Y07="cpy.MleC")

def load(name):
    if name in CHECKERS:
        return CHECKERS[name]
    import importlib
    mod, cls = ELSEWHERE.get(name, name).split('.')
    return getattr(importlib.import_module('vp.' + mod), cls)

def campaign(ck, seed, trials, budget, guided, kf, seen_known, procs=8):
    """Run guided inputs, then generated ones, spread over processes. Returns (number run, distinct inputs, failure or None)."""
    import hashlib, json, multiprocessing as mp, queue, time
    t0 = time.time()
    ck.shut(ck.open())      # builds what is to be run, once
    ctx = mp.get_context('fork')
    q, stop = ctx.Queue(), ctx.Value('q', 1 << 60)

    def work(w):
        nat = ck.open()
        n, distinct, known, fail = 0, set(), [], None

        def one(k, inp):
            nonlocal n, fail
            n += 1
            distinct.add(hashlib.sha1(json.dumps(inp, sort_keys=True, default=str).encode()).digest()[:8])
            try:
                ck.check(nat, inp)
            except Bad as e:
                c = ck.classify(inp, str(e))
                if c is not None and c in kf:
                    known.append(c)
                    return
                fail = (k, {'input': inp, 'what': str(e)})
                with stop.get_lock():
                    stop.value = min(stop.value, k)
        try:
            for j, api in enumerate(guided[:60]):
                if fail is None and j % procs == w:
                    for inp in ck.from_api(api):
                        if fail is None:
                            one(j - 60, inp)
            for k in range(w, trials, procs):
                if fail is not None or k > stop.value or time.time() - t0 > budget:
                    break
                one(k, ck.gen(random.Random('%d/%d' % (seed, k))))
            q.put((n, distinct, known, fail, None))
        except BaseException:
            import traceback
            q.put((n, set(), known, None, traceback.format_exc()))
        finally:
            ck.shut(nat)

    ps = [ctx.Process(target=work, args=(w,)) for w in range(procs)]
    for p in ps:
        p.start()
    n, distinct, fails, errs = 0, set(), [], []
    for _ in ps:
        try:
            a, d, known, f, e = q.get(timeout=max(10, t0 + budget + 90 - time.time()))
        except queue.Empty:         # an execution that does not end: the others count
            break
        n += a
        distinct |= d
        seen_known += known
        if f:
            fails.append(f)
        if e:
            errs.append(e)
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.kill()
    if fails:
        return n, distinct, min(fails, key=lambda f: f[0])[1]
    if errs:
        raise RuntimeError(errs[0])
    return n, distinct, None
