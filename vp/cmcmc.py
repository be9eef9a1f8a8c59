"""Concrete side of the sampler properties (S01 to S07)."""
import math, random
import numpy as np
from . import native
from .conc import Checker, Bad, guard, loguni, fin, close

NANS = {0: -math.inf, 1: math.nan, 2: math.inf}

def ldens(v, inp):
    if v[0] > inp['cap']:
        return NANS[inp['bad']]
    return sum(a * b for a, b in zip(inp['c'], v)) + inp['k']

def near(a, b, sc=1.0, tol=1e-9):
    return a == b or a != a and b != b or fin(a) and fin(b) and abs(a - b) <= tol * max(sc, abs(a), abs(b))

def near_v(a, b, tol=1e-9, sc=1.0):
    return len(a) == len(b) and all(near(x, y, sc, tol) for x, y in zip(a, b))

def length(r, inp, *keys):
    """Now and then another unit of length: values and displacements scaled one way, slopes of the densities the other."""
    inp['len'] = 1.0
    if r.random() < 0.15:
        l = inp['len'] = loguni(r, 1e-13, 1e6)
        for k in ('x0',) + keys:
            inp[k] = [x * l if not isinstance(x, list) else [y * l for y in x] for x in inp[k]]
        for k in ('c', 'wn', 'ws'):
            if k in inp:
                inp[k] = [x / l for x in inp[k]]
    return inp

class Mc(Checker):
    lib = 'mcmc'

def target(r, d):
    return dict(c=[r.gauss(0, 1) for _ in range(d)], k=r.choice((0.0, r.gauss(0, 5), -300.0)), cap=1e300, bad=0,
                temp=r.choice((1.0, 1.0, loguni(r, 1, 100), loguni(r, 0.2, 5))))

class MetropC(Mc):
    """S01: scripted target, proposal and uniform draws; the decision is checked close to the threshold."""
    def gen(self, r):
        d = r.choice((1, 1, 2, 3, 4))
        inp = dict(target(r, d), kind='mh1' if d == 1 and r.random() < 0.7 else 'mh')
        sym = r.random() < 0.4
        if sym and r.random() < 0.6:
            inp['kind'] = 'ram'
        inp['wn'] = [0.0 if sym else r.gauss(0, 1) for _ in range(d)]
        inp['ws'] = [0.0 if sym else r.gauss(0, 1) for _ in range(d)]
        inp['x0'] = [r.gauss(0, 3) for _ in range(d)]
        inp['report'] = r.choice((-1, 1, 2, 3, 7))
        n = r.randint(1, 8)
        inp['seeds'] = [r.randrange(1, 10 ** 8) for _ in range(n)]
        # what the log-ratio should be against the log of the uniform draw
        inp['rel'] = [r.choice((1e-4, -1e-4, 0.01, -0.01, 0.3, -0.3, 2, -2, 'any', 'bad', 0.69, -0.69)) for _ in range(n)]
        inp['dir'] = [[r.gauss(0, 1) for _ in range(d)] for _ in range(n)]
        inp['bad'] = r.choice((0, 0, 1, 2))
        length(r, inp, 'dir')
        if r.random() < 0.5:
            inp['cap'] = inp['x0'][0] + 40 * inp['len']
        return inp
    def plan(self, nat, inp):
        """Displacements that put the log-ratio at the wanted place, following the expected path."""
        x = list(inp['x0']); disp = []; exp = []
        L = ldens(x, inp)
        for s, rel, dr in zip(inp['seeds'], inp['rel'], inp['dir']):
            u = nat.call('peek', s)[0]
            d = list(dr)
            if rel == 'bad':
                d[0] = inp['cap'] + inp['len'] - x[0] if inp['cap'] < 1e299 else d[0]
            elif rel != 'any':
                # a is linear in the displacement: (c/T + ws - wn) . d
                w = [c / inp['temp'] + b - a for c, a, b in zip(inp['c'], inp['wn'], inp['ws'])]
                sl = sum(a * b for a, b in zip(w, d))
                if abs(sl) > 1e-3:
                    f = (math.log(u) + rel) / sl
                    if abs(f) < 30:
                        d = [f * z for z in d]
            new = [a + b for a, b in zip(x, d)]
            Ln = ldens(new, inp)
            dot = lambda w, v: sum(a * b for a, b in zip(w, v))
            a = (Ln - L) / inp['temp'] + (dot(inp['wn'], x) + dot(inp['ws'], new)) - (dot(inp['wn'], new) + dot(inp['ws'], x))
            acc = fin(a) and u < min(1.0, math.exp(min(a, 50)))
            if fin(a) and abs(a - math.log(u)) < 1e-9:
                break
            disp.append(d)
            if acc:
                x, L = new, Ln
            exp.append((list(x), L, a, u))
        return disp, exp
    @guard
    def check(self, nat, inp):
        disp, exp = self.plan(nat, inp)
        if not disp:
            return
        if inp['kind'] == 'ram':
            # unit covariance, no adaptation: the unit draws are the displacements
            args = [inp['temp'], inp['c'], inp['k'], inp['cap'], inp['bad'], np.eye(len(inp['x0'])), 0.25, 0, inp['x0'], len(disp)] + disp + inp['seeds'][:len(disp)]
        else:
            args = [inp['temp'], inp['c'], inp['k'], inp['cap'], inp['bad'], inp['wn'], inp['ws'], inp['x0'], inp['report'], len(disp)] + disp + inp['seeds'][:len(disp)]
        rd = native.Reader(nat.call(inp['kind'], *args))
        if inp['kind'] == 'ram':
            rd.mat()
        for i, (x, L, a, u) in enumerate(exp):
            rd.num(); v, l = rd.vec(), rd.num()
            if inp['kind'] == 'ram':
                rd.mat(); rd.num(); rd.num()
            if not near_v(v, x, 1e-9, inp['len']):
                raise Bad('step %d: log-ratio %r, uniform draw %r: the value is %r, should be %r' % (i, a, u, v, x))
            if not near(l, L):
                raise Bad('step %d: the stored log-posterior is %r, should be %r' % (i, l, L))

class RamC(Mc):
    """S02"""
    def gen(self, r):
        d = r.choice((1, 2, 2, 3, 4, 6)) if r.random() < 0.9 else r.randint(7, 16)
        inp = target(r, d)
        inp['x0'] = [r.gauss(0, 3) for _ in range(d)]
        A = [[r.gauss(0, 1) for _ in range(d)] for _ in range(d + 2)]
        sc = loguni(r, 0.05, 3)
        inp['A'] = [[sc * x for x in row] for row in A]
        inp['target'] = r.choice((0.25, 0.4, 0.234, r.uniform(0.05, 0.9)) * 3 + (1 - loguni(r, 1e-5, 1e-1), loguni(r, 1e-5, 1e-1)))
        n = r.randint(1, 12)
        if r.random() < 0.15:
            n = r.randint(20, 60)
        if d < 4 and r.random() < 0.0006:
            n = r.choice((300, 1200, 6000))
        inp['max'] = r.choice((n, n + 5, n // 2, 1, 0, 100))
        inp['units'] = [[r.gauss(0, 1) for _ in range(d)] for _ in range(n)]
        inp['seeds'] = [r.randrange(1, 10 ** 8) for _ in range(n)]
        inp['bad'] = r.choice((0, 1, 2))
        length(r, inp, 'A')
        if r.random() < 0.4:
            inp['cap'] = inp['x0'][0] + loguni(r, 0.1, 3) * inp['len']
        return inp
    @guard
    def check(self, nat, inp):
        d, n = len(inp['x0']), len(inp['units'])
        A = np.array(inp['A'])
        C = A.T @ A
        us = [nat.call('peek', s)[0] for s in inp['seeds']]
        args = [inp['temp'], inp['c'], inp['k'], inp['cap'], inp['bad'], C, inp['target'], inp['max'], inp['x0'], n] + inp['units'] + inp['seeds']
        rd = native.Reader(nat.call('ram', *args))
        got = rd.mat()
        if not np.allclose(got, C, rtol=1e-8, atol=1e-12 * inp['len'] ** 2):
            raise Bad('the initial proposal covariance is %r, should be %r' % (got.tolist(), C.tolist()))
        x, L, nacc = np.array(inp['x0']), ldens(inp['x0'], inp), 0
        if not fin(L):
            return
        for i, (un, u) in enumerate(zip(inp['units'], us)):
            un = np.array(un)
            disp = np.linalg.cholesky(C) @ un
            new = x + disp
            Ln = ldens(list(new), inp)
            a = (Ln - L) / inp['temp']
            al = min(1.0, math.exp(min(a, 50))) if fin(a) else 0.0
            if fin(a) and abs(al - u) < 1e-7 or abs(new[0] - inp['cap']) < 1e-6 * inp['len']:
                return
            acc = fin(a) and u < al
            if acc:
                x, L, nacc = new, Ln, nacc + 1
            if i < inp['max']:
                eta = 1.0 if i == 0 else min(1.0, d / i ** (2.0 / 3))
                C = C + eta * (al - inp['target']) * np.outer(disp, disp) / (un @ un)
            rd.num(); v, l, cov, rate, at = rd.vec(), rd.num(), rd.mat(), rd.num(), rd.num()
            sc = np.sqrt(np.diag(C))
            if at != d * (i + 1):
                raise Bad('step %d: %d unit draws used so far, should be %d' % (i, at, d * (i + 1)))
            if not near_v(v, list(x), 1e-6, inp['len']) or not near(l, L, 1.0, 1e-6):
                raise Bad('step %d: value %r with log-posterior %r, should be %r and %r' % (i, v, l, list(x), L))
            if np.linalg.cond(C) > 1e9:
                return
            if cov.shape != C.shape or not np.all(np.isfinite(cov)) or np.max(np.abs(cov - C) / np.outer(sc, sc)) > 1e-6:
                raise Bad('step %d (acceptance probability %r): the proposal covariance is %r, should be %r' % (i, al, cov.tolist(), C.tolist()))
            if not near(rate, nacc / (i + 1.0)):
                raise Bad('step %d: reported acceptance rate %r, should be %r' % (i, rate, nacc / (i + 1.0)))

class CholC(Mc):
    """S03"""
    def gen(self, r):
        d = r.choice((1, 2, 2, 3, 4, 5, 8, r.randint(1, 20)))
        R = [[(loguni(r, 0.1, 10) * r.choice((1, 1, 1, -1)) if i == j else r.gauss(0, 1)) if j >= i else 0.0 for j in range(d)] for i in range(d)]
        v = [r.gauss(0, 1) * loguni(r, 0.05, 5) for _ in range(d)]
        for i in range(d):
            if r.random() < 0.15:
                v[i] = 0.0
        if r.random() < 0.1:
            f = loguni(r, 1e-5, 1e5)
            v = [f * x for x in v]
        if r.random() < 0.15:
            f = loguni(r, 1e-10, 1e10)
            R, v = [[f * x for x in row] for row in R], [f * x for x in v]
        return dict(R=R, v=v, down=r.choice((0, 1, 1)), f=r.choice((0.5, 0.9, 0.1, 0.99, 0.999)))
    @guard
    def check(self, nat, inp):
        R = np.array(inp['R']); v = np.array(inp['v']); d = len(v)
        M = R.T @ R
        if np.linalg.cond(M) > 1e9:
            return
        if inp['down']:
            q = v @ np.linalg.solve(M, v)
            if q > 0:
                v = v * math.sqrt(inp['f'] / q)
            T = M - np.outer(v, v)
        else:
            T = M + np.outer(v, v)
        if np.linalg.cond(T) > 1e9:
            return
        got = native.Reader(nat.call('chol', R, list(v), inp['down'])).mat()
        if got.shape != (d, d) or not np.all(np.isfinite(got)):
            raise Bad('the updated factor is %r' % got.tolist())
        for i in range(d):
            for j in range(i):
                if got[i, j] != 0:
                    raise Bad('the updated factor is not upper triangular: %r' % got.tolist())
        sc = np.sqrt(np.diag(M) + v * v)
        e = np.max(np.abs(got.T @ got - T) / np.outer(sc, sc))
        if e > 1e-8:
            raise Bad('the updated factor gives %r, should be %r' % ((got.T @ got).tolist(), T.tolist()))

class ExchC(Mc):
    """S04"""
    def gen(self, r):
        n = r.choice((2, 2, 3, 4, 6)) if r.random() < 0.95 else r.randint(7, 20)
        d = r.choice((1, 2, 3)) if r.random() < 0.9 else r.randint(4, 12)
        same = target(r, d)
        t = 1.0 if r.random() < 0.7 else loguni(r, 0.5, 3)
        ch = []
        for i in range(n):
            tg = dict(same) if r.random() < 0.9 else target(r, d)
            tg['c'], tg['k'] = same['c'], same['k']      # one target for all chains
            tg['temp'] = t
            t *= loguni(r, 1.05, 4) if r.random() < 0.9 else loguni(r, 1.0005, 100)
            tg['x'] = [r.gauss(0, 2) for _ in range(d)]
            tg['cap'], tg['bad'] = 1e300, 0
            ch.append(tg)
        bad = r.choice((0, 0, 0, 0, 0, 1, 2))
        i = r.randrange(1, n)
        inp = dict(chains=ch, at=i, report=r.choice((-1, 1, 2)), rel=[r.choice((1e-4, -1e-4, 0.02, -0.02, 0.5, -0.5, 3, -3, 'any'))])
        inp['seeds'] = [r.randrange(1, 10 ** 8) for _ in range(r.choice((1, 1, 1, 2, 5)))]
        if r.random() < 0.15 and not bad:        # nearly the same log-posterior
            inp['rel'] = ['any']
            e = r.choice((0.0, loguni(r, 1e-9, 1e-1)))
            ch[i - 1]['x'] = [v + r.choice((1, -1)) * e for v in ch[i]['x']]
        if r.random() < 0.5:
            inp['last'] = [[r.gauss(0, 2) for _ in range(d)] for _ in ch]
        if bad:
            for c in ch:
                c['cap'], c['bad'] = 5.0, r.choice((0, 1))
            k = r.choice((i, i - 1, i - 1, i))
            ch[k]['x'][0] = 6.0
            if bad == 2:
                ch[i]['x'][0] = ch[i - 1]['x'][0] = 6.0
        return inp
    @guard
    def check(self, nat, inp):
        ch = [dict(c) for c in inp['chains']]
        i = inp['at']
        u0 = nat.call('peek', inp['seeds'][0])[0]
        rel = inp['rel'][0]
        d = len(ch[0]['x'])
        if rel != 'any' and ch[i]['x'][0] <= ch[i]['cap'] and ch[i - 1]['x'][0] <= ch[i - 1]['cap']:
            # shift the colder chain so that the log-ratio is at the wanted place
            w = 1 / ch[i]['temp'] - 1 / ch[i - 1]['temp']
            want = (math.log(u0) + rel) / w + ldens(ch[i]['x'], ch[i])
            now = ldens(ch[i - 1]['x'], ch[i - 1])
            cc = ch[i]['c']
            j = max(range(d), key=lambda z: abs(cc[z]))
            x = list(ch[i - 1]['x'])
            x[j] += (want - now) / cc[j]
            if abs(x[j]) < 1e6 and abs(cc[j]) > 1e-3 and x[0] <= ch[i - 1]['cap']:
                ch[i - 1]['x'] = x
        vals = [list(c['x']) for c in ch]
        Ls = [ldens(c['x'], c) for c in ch]
        args = [len(ch)]
        for m, c in enumerate(ch):
            args += [c['temp'], c['c'], c['k'], c['cap'], c['bad'], c['x']] + ([inp['last'][m]] if 'last' in inp else [])
        rd = native.Reader(nat.call('exchlazy' if 'last' in inp else 'exch', *args, i, inp['report'], len(inp['seeds']), *inp['seeds']))
        for k, s in enumerate(inp['seeds']):
            u = rd.num()
            if fin(Ls[i]) and fin(Ls[i - 1]):
                a = (1 / ch[i]['temp'] - 1 / ch[i - 1]['temp']) * (Ls[i - 1] - Ls[i])
                if abs(a - math.log(u)) < 1e-9:
                    return
                al = min(1.0, math.exp(min(a, 50)))
            else:
                a, al = math.nan, 0.0
            if u < al:
                vals[i], vals[i - 1] = vals[i - 1], vals[i]
                Ls[i], Ls[i - 1] = Ls[i - 1], Ls[i]
            for m, c in enumerate(ch):
                v, l, t = rd.vec(), rd.num(), rd.num()
                if not near_v(v, vals[m]) or not near(l, Ls[m]):
                    raise Bad('exchange of chains %d and %d (log-ratio %r, uniform draw %r): chain %d has %r with log-posterior %r, should have %r with %r' % (
                        i, i - 1, a, u, m, v, l, vals[m], Ls[m]))
                if t != c['temp']:
                    raise Bad('the temperature of chain %d is %r, should be %r' % (m, t, c['temp']))

class RunC(Mc):
    """S05"""
    def gen(self, r):
        npar = r.choice((1, 2, 3, 5))
        d = r.choice((1, 2, 3))
        order = list(range(npar)) + [r.randrange(npar) for _ in range(r.choice((0, 1, 2)))]
        r.shuffle(order)
        small = [int(x) for x in self.lits if x == int(x) and 0 < x < 200]
        def cnt(lo, hi):
            return r.choice(small) + r.choice((-1, 0, 1)) if small and r.random() < 0.1 else r.randint(lo, hi)
        n = r.choice((0, d, d, d, d + 1))
        return dict(size=max(1, cnt(1, 8)), burnin=max(0, cnt(0, 6)), thin=r.choice((1, 1, 2, 3, 5, 7)), d=d,
                    track=[r.choice((0, 1, 1)) for _ in range(npar)], base=[round(r.uniform(-9, -1), 3) for _ in range(npar)],
                    order=order, init=[r.gauss(0, 1) for _ in range(n)], runs=r.choice((1, 1, 2)),
                    kind=[r.randrange(5) for _ in order])
    @guard
    def check(self, nat, inp):
        npar, d, S, B, Th = len(inp['track']), inp['d'], inp['size'], inp['burnin'], inp['thin']
        pars = []
        for t, b in zip(inp['track'], inp['base']):
            pars += [t, d, b]
        rd = native.Reader(nat.call('run', S, B, Th, npar, *pars, inp['order'], inp['init'], inp['runs'], inp['kind']))
        if rd.num() != len(inp['order']):
            raise Bad('number of steps')
        if rd.num() != sum(1 for i in set(inp['order']) if inp['track'][i]):
            raise Bad('number of tracked parameters')
        starts, sets = [0] * npar, [0] * npar
        for run in range(inp['runs']):
            use = len(inp['init']) == d
            cur = [None] * npar
            for i in inp['order']:
                if use:
                    sets[i] += 1
                    cur[i] = list(inp['init'])
                else:
                    starts[i] += 1
                    cur[i] = [inp['base'][i] + 0.001 * starts[i]] * d
            tick = 0
            want = [[] for _ in range(npar)]
            ev = []
            def sweep():
                nonlocal tick
                for k, i in enumerate(inp['order']):
                    tick += 1
                    cur[i] = [float(tick)] * d
                    ev.append(k)
            for _ in range(B):
                sweep()
            for _ in range(S):
                for _ in range(Th):
                    sweep()
                for i in range(npar):
                    want[i].append(list(cur[i]))
            got = [int(x) for x in rd.vec()]
            if got != ev:
                raise Bad('%d step executions instead of %d, or in another order: %r, should be %r' % (len(got), len(ev), got[:40], ev[:40]))
            for i in range(npar):
                m = int(rd.num())
                smp = [rd.vec() for _ in range(m)]
                ll = rd.vec()
                st, se, v, l = rd.num(), rd.num(), rd.vec(), rd.num()
                if inp['track'][i] and i in inp['order']:
                    if m != S or len(ll) != S:
                        raise Bad('parameter %d has %d samples and %d log-posteriors, should be %d' % (i, m, len(ll), S))
                    for k in range(S):
                        if not near_v(smp[k], want[i][k]) or not near(ll[k], sum(want[i][k])):
                            raise Bad('sample %d of parameter %d is %r with log-posterior %r, should be %r with %r' % (k, i, smp[k], ll[k], want[i][k], sum(want[i][k])))
                elif m or ll:
                    raise Bad('untracked parameter %d has recorded %d samples' % (i, m))
                if (st, se) != (starts[i], sets[i]):
                    raise Bad('parameter %d: %d generated and %d user starting values set, should be %d and %d' % (i, st, se, starts[i], sets[i]))
                if not near_v(v, cur[i]) or not near(l, sum(cur[i])):
                    raise Bad('parameter %d ends at %r, should be %r' % (i, v, cur[i]))

class DriverC(Mc):
    """S06: the drivers against the documented set-up put together from the public classes, same random stream."""
    def gen(self, r):
        n = r.choice((8, 12, 15, 25))
        h = loguni(r, 0.2, 5)
        t, out = r.uniform(-20, 100), []
        for _ in range(n):
            out.append(t)
            t += h * r.uniform(0.5, 1.6)
        sc, off = loguni(r, 0.3, 20), r.choice((0.0, r.gauss(0, 30)))
        y = [off]
        for _ in range(n - 1):
            y.append(off + 0.7 * (y[-1] - off) + sc * r.gauss(0, 0.7))
        e = [sc * r.uniform(0.05, 0.3) for _ in y]
        car1 = r.random() < 0.25
        p = 1 if car1 else r.choice((2, 2, 3, 4))
        q = 0 if car1 else r.randint(0, p - 1)
        z = 0 if car1 or r.random() < 0.8 else 1
        if z:
            q = r.choice((0, q))
        d = 4 if car1 else 3 + p + (0 if z else q)
        ini = []
        if r.random() < 0.3:
            lo, hi = 1 / (out[-1] - out[0]), 1 / min(b - a for a, b in zip(out, out[1:]))
            sd = float(np.std(y))
            ini = [sd * r.uniform(0.5, 1.5), r.uniform(0.8, 1.3), float(np.mean(y))]
            ini += [math.log(loguni(r, lo * 1.1, hi * 0.9))] if car1 else [r.gauss(0, 1) for _ in range(d - 3)]
        return dict(seed=r.randrange(1, 10 ** 6), car1=int(car1), size=r.choice((1, 3, 6, 10)), burnin=r.choice((0, 1, 5, 12, 20)),
                    t=out, y=y, e=e, p=p, q=q, nw=1 if car1 else r.choice((1, 2, 3, 3, 4, 6, 10)), z=z, thin=r.choice((1, 1, 2, 3)), init=ini)
    def args(self, inp):
        return [inp[k] for k in ('seed', 'car1', 'size', 'burnin', 't', 'y', 'e', 'p', 'q', 'nw', 'z', 'thin', 'init')]
    @guard
    def check(self, nat, inp):
        try:
            ref = nat.call('reference', *self.args(inp))
        except (native.Raised, native.Crash):
            return
        got = nat.call('driver', *self.args(inp))
        if not inp['car1']:
            kind = got.pop()
            if kind != (3 if inp['z'] else 2 if inp['q'] else 1):
                raise Bad('the returned chain is of the wrong model')
        a, b = native.Reader(got), native.Reader(ref)
        res = []
        for rd in (a, b):
            m = int(rd.num())
            smp = [rd.vec() for _ in range(m)]
            res.append((smp, rd.vec(), rd.num(), rd.vec(), rd.vec(), rd.vec(), rd.vec(), rd.num(), rd.num()))
        g, w = res
        if not g[8]:
            raise Bad('the samples handed to Python differ from those recorded')
        if len(g[0]) != inp['size'] or len(g[1]) != inp['size']:
            raise Bad('the returned chain has %d samples, should have %d' % (len(g[0]), inp['size']))
        if g[2] != 1.0:
            raise Bad('the returned chain has temperature %r' % g[2])
        if g[3:6] != (inp['t'], inp['y'], inp['e']):
            raise Bad('the returned chain does not hold the given data')
        for k, (x, y) in enumerate(zip(g[0], w[0])):
            if not near_v(x, y, 1e-6) or not near(g[1][k], w[1][k], 1.0, 1e-5):
                raise Bad('sample %d is %r with log-posterior %r; the documented set-up run with the same random numbers gives %r with %r' % (k, x, g[1][k], y, w[1][k]))

class RandC(Mc):
    """S07"""
    def gen(self, r):
        m = r.random()
        seed = r.randrange(1, 10 ** 8)
        if m < 0.7:
            which = r.randrange(17)
            lit = [abs(x) for x in self.lits if 0.01 < abs(x) < 100] or [1.0]
            def g():
                x = r.random()
                return r.choice(lit) * r.choice((1, 1, 0.98, 1.02, 0.7, 1.5)) if x < 0.2 else loguni(r, 0.02, 400) if x < 0.35 else loguni(r, 0.1, 20)
            a, b, c = g(), g(), g()
            if which in (0, 1, 5):
                a = r.gauss(0, 3) if which != 5 else a
                b = b if which != 1 else min(b, 3.0)
            if which == 5:
                b = r.gauss(0, 3)
            if which == 2:
                a = r.gauss(0, 10); b = a + b
            if which == 3:
                a = float(r.randint(-20, 20)); b = a + r.randint(0, 30)
            if which == 4:
                b = a * (1 + b); c = r.choice((-0.5, -1.0, -2.0, 0.0, 1.0, r.uniform(-4, 3), -1 + r.choice((1, -1)) * loguni(r, 1e-3, 1)))
            if which in (6, 7):
                a = float(r.randint(1, 60)) if r.random() < 0.7 else float(int(loguni(r, 1, 2000)))
            if which in (11, 12):
                a = r.gauss(0, 5)
            if which == 12:
                b = loguni(r, 1, 30) if r.random() < 0.6 else 1.0 + g()
            if which in (15, 16):
                a, b = r.gauss(0, 5), r.gauss(0, 5)
            return dict(op='rand', seed=seed, which=which, a=a, b=b, c=c, warm=r.choice((0, 0, 1, 3)))
        if m < 0.82:
            d = r.choice((1, 2, 3, 4))
            return dict(op='multi', seed=seed, which=r.choice((0, 1)), A=[[r.gauss(0, 1) for _ in range(d)] for _ in range(d + 2)], x=[r.gauss(0, 5) for _ in range(d)])
        n, d = r.choice((2, 2, 3, 4, 8)), r.choice((1, 2, 3, 5))
        setter = r.choice((0, 1, 2))
        return dict(op='stretch', seed=seed, at=r.randrange(n), a=2.0 if setter == 2 else r.choice((2.0, 1.5, loguni(r, 1.1, 10))), setter=setter, w=[[r.gauss(0, 3) for _ in range(d)] for _ in range(n)])
    @guard
    def check(self, nat, inp):
        if inp['op'] == 'rand':
            got, want = nat.call('rand', inp['seed'], inp['which'], inp['a'], inp['b'], inp['c'], inp['warm'])
            s = abs(inp['c'] + 1)
            tol = 1e-9 if inp['which'] != 4 or s == 0 else 1e-9 + 1e-14 / s
            sc = abs(inp['a']) + abs(inp['b']) if inp['which'] in (0, 2, 5, 11, 12, 14) else 0.0
            if not (near(got, want, max(sc, 1e-300), tol)):
                names = ['normal', 'lognormal', 'uniform', 'uniform integer', 'power-law', 'Student t', 'chi-square', 'scaled inverse chi-square', 'gamma', 'inverse gamma',
                         'exponential', 'normal proposal', 'Student proposal', 'lognormal proposal', 'lognormal proposal density ratio', 'normal proposal density ratio', 'Student proposal density ratio']
                raise Bad('%s(%r, %r, %r) gives %r, should be %r' % (names[inp['which']], inp['a'], inp['b'], inp['c'], got, want))
        elif inp['op'] == 'multi':
            A = np.array(inp['A']); C = A.T @ A
            if np.linalg.cond(C) > 1e8:
                return
            rd = native.Reader(nat.call('multi', inp['seed'], inp['which'], C, inp['x']))
            v = np.array(rd.vec())
            ratio = rd.num() if inp['which'] else 0.0
            z = np.array(rd.vec())
            # any square root of the covariance applied to the standard normal draws: compare with the Cholesky one
            want = np.linalg.cholesky(C) @ z + (np.array(inp['x']) if inp['which'] else 0)
            if v.shape != want.shape or not np.allclose(v, want, rtol=1e-7, atol=1e-7 * np.sqrt(np.max(np.diag(C)))):
                raise Bad('multivariate normal draw %r, should be %r' % (v.tolist(), want.tolist()))
            if ratio != 0:
                raise Bad('density ratio of the symmetric proposal is %r' % ratio)
        else:
            rd = native.Reader(nat.call('stretch', inp['seed'], len(inp['w']), inp['at'], inp['a'], inp['setter'], *inp['w']))
            other, u, new, ratio = int(rd.num()), rd.num(), np.array(rd.vec()), rd.num()
            a = inp['a']
            z = ((a ** 0.5 - a ** -0.5) * u + a ** -0.5) ** 2
            x, o = np.array(inp['w'][inp['at']]), np.array(inp['w'][other])
            want = o + z * (x - o)
            if new.shape != want.shape or not np.allclose(new, want, rtol=1e-9, atol=1e-9):
                raise Bad('the stretch move proposes %r, should be %r' % (new.tolist(), want.tolist()))
            if np.max(np.abs(new - x)) > 1e-6 and not near(ratio, (len(x) - 1) * math.log(z)):
                raise Bad('the log density ratio of the stretch move is %r, should be %r' % (ratio, (len(x) - 1) * math.log(z)))
