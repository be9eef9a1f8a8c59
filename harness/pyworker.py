"""Runs the Python layer of /repo on request (one JSON request and answer per line)."""
import sys
sys.dont_write_bytecode = True
import importlib, importlib.machinery, importlib.util, json, os, types, warnings
warnings.simplefilter('ignore')
repo, here, ext = sys.argv[1:4]
sys.path.insert(0, here + '/harness')
rd, wr = sys.stdin, os.fdopen(os.dup(1), 'w')
nul = os.open(os.devnull, os.O_WRONLY)
os.dup2(nul, 1); os.dup2(nul, 2)
sys.stdout = open(os.devnull, 'w')
import numpy as np
import matplotlib
matplotlib.use('Agg')
import multiprocessing
import scipy.optimize
import pymock

# ---- the optimiser, scripted while a request asks for it
REAL_MIN = scipy.optimize.minimize
SCRIPT = None

class Script:
    def __init__(self, funs, conv=None):
        self.funs, self.n, self.calls = funs, 0, []
        self.conv = conv or [True]

def minimize(fun, x0, args=(), **kw):
    if SCRIPT is None:
        return REAL_MIN(fun, x0, args=args, **kw)
    k = SCRIPT.n
    SCRIPT.n += 1
    x0 = np.array(x0, float)
    a = args if isinstance(args, tuple) else (args,)
    SCRIPT.calls.append(dict(obj=float(fun(x0.copy(), *a)), x=[float(x) for x in x0],
                             bounds=[[None if b is None else float(b) for b in p] for p in (kw.get('bounds') or [])],
                             ncalls=len(pymock.CALLS)))
    f, ok = SCRIPT.funs[k % len(SCRIPT.funs)], SCRIPT.conv[k % len(SCRIPT.conv)]
    return scipy.optimize.OptimizeResult(fun=f, x=x0, message='trial %d' % k, success=ok, status=0 if ok else 2, trial=k)

scipy.optimize.minimize = minimize

class Pool:
    def __init__(self, *a, **kw):
        pass
    def map(self, f, xs, *a, **kw):
        return [f(x) for x in xs]
    def imap(self, f, xs, *a, **kw):
        return iter([f(x) for x in xs])
    def starmap(self, f, xs, *a, **kw):
        return [f(*x) for x in xs]
    def terminate(self): pass
    def close(self): pass
    def join(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass

multiprocessing.Pool = Pool

def package(name, extension):
    pk = types.ModuleType(name)
    pk.__path__ = [repo + '/src/carmcmc']
    pk._carmcmc = extension
    sys.modules[name] = pk
    sys.modules[name + '._carmcmc'] = extension
    return importlib.import_module(name + '.carma_pack')

def extension(path):
    spec = importlib.util.spec_from_file_location('_carmcmc', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m

MODS = {}

def mod(real):
    if real not in MODS:
        MODS[real] = package('carmcmc_real', extension(ext)) if real else package('carmcmc', pymock)
    return MODS[real]

# ---- scripted normal draws
class Normals:
    """Source of standard normals: zero except at one place, or given values."""
    def __init__(self, z):
        self.z, self.n = z, 0
    def one(self):
        self.n += 1
        return self.z[self.n - 1] if self.n <= len(self.z) else 0.0
    def many(self, size):
        if size is None or size == ():
            return self.one()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        return np.array([self.one() for _ in range(int(np.prod(shape)))]).reshape(shape)
    def standard_normal(self, size=None):
        return self.many(size)
    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * self.many(size)
    def randn(self, *d):
        return self.many(d or None)

def with_normals(z, f):
    src = Normals(z)
    old = {k: getattr(np.random, k) for k in ('standard_normal', 'normal', 'randn')}
    for k in old:
        setattr(np.random, k, getattr(src, k))
    try:
        return f(), src.n
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)

# ---- encoding
def enc(x):
    if isinstance(x, (np.ndarray, list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, (complex, np.complexfloating)):
        return {'c': [float(x.real), float(x.imag)]}
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return x if isinstance(x, (str, type(None))) else repr(x)

def dec(x):
    if isinstance(x, dict) and set(x) == {'c'}:
        return complex(*x['c'])
    if isinstance(x, dict) and set(x) == {'a'}:
        v = np.array([dec(y) for y in x['a']])
        return v if v.size else np.array([], dtype=float)
    if isinstance(x, dict) and set(x) == {'ai'}:
        return np.array(x['ai'], dtype=int)
    if isinstance(x, dict) and set(x) == {'a2'}:
        return np.array(x['a2'], dtype=float)
    if isinstance(x, dict):
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(y) for y in x]
    return x

NAMES = ('var', 'measerr_scale', 'mu', 'quad_coefs', 'ar_roots', 'psd_centroid', 'psd_width', 'ar_coefs', 'ma_coefs',
         'sigma', 'log_omega', 'logpost', 'loglik')

def samples(s):
    out = {}
    for k in NAMES:
        try:
            v = s.get_samples(k)
        except KeyError:
            continue
        out[k] = dict(shape=list(v.shape), v=enc(v.ravel()))
    return out

def state(m):
    return dict(time=enc(m.time), y=enc(m.y), ysig=enc(m.ysig), p=enc(m.p), q=enc(m.q))

def newsample(c, a):
    sm = (pymock.CAR1 if a['kind'] == 'car1' else pymock.CARMA)(a['trace'], a['logpost'])
    t, y, e = (np.array(a[k], float) for k in ('t', 'y', 'e'))
    return c.Car1Sample(t, y, e, sm) if a['kind'] == 'car1' else c.CarmaSample(t, y, e, sm, q=a['q'])

def op_run(a):
    del pymock.CALLS[:]
    c = mod(a.get('real', False))
    pymock.CHAINS[:] = [(a['trace'], a['logpost'])]
    t, y, e = (np.array(a[k], float) for k in ('t', 'y', 'e'))
    m = c.CarmaModel(t, y, e, **a['orders'])
    out = {'model': state(m)}
    kw = dict(a['kw'])
    lib = c.carmcmcLib if hasattr(c, 'carmcmcLib') else pymock
    if kw.get('init') is not None:
        v = lib.vecD(); v.extend(kw['init']); kw['init'] = v
    s = m.run_mcmc(a['n'], **kw)
    out['calls'] = enc_calls()
    out['sample'] = state(s)
    out['kind'] = type(s).__name__
    out['kept'] = m.mcmc_sample is s
    out['samples'] = samples(s)
    out['after'] = state(m)
    return out

def enc_calls():
    return [dict(c) for c in pymock.CALLS]

def op_sample(a):
    return samples(newsample(mod(False), a))

def op_addmle(a):
    s = newsample(mod(False), a)
    was = samples(s)
    r = scipy.optimize.OptimizeResult(fun=a['fun'], x=np.array(a['x'], float), message='', success=True, status=0)
    s.add_mle(r)
    out = {k: dict(shape=list(np.shape(v)), v=enc(np.asarray(v).ravel())) for k, v in s.mle.items()}
    out['kept'] = repr(was) == repr(samples(s)) and bool(np.array_equal(r.x, a['x']))
    return out

def op_predict(a):
    c = mod(a['real'])
    if a['real']:
        s = newsample(c, a)
    else:
        s = newsample(c, a)
    out = {'samples': samples(s), 'pred': [], 'sim': []}
    for how, at in a['pred']:
        at = dec(at)
        was = at.copy() if isinstance(at, np.ndarray) else None
        m, v = s.predict(at, bestfit=how) if how else s.predict(at)
        out['pred'].append([enc(m), enc(v), was is None or bool(np.array_equal(was, at))])
    for how, at in a['sim']:
        at = dec(at)
        m = s.simulate(at, bestfit=how) if how else s.simulate(at)
        out['sim'].append(enc(m))
    out['data'] = state(s)
    return out

def op_mle(a):
    global SCRIPT
    del pymock.CALLS[:]
    pymock.CHAINS[:] = [tuple(x) for x in a['chains']]
    c = mod(False)
    t, y, e = (np.array(a[k], float) for k in ('t', 'y', 'e'))
    m = c.CarmaModel(t, y, e, **a['orders'])
    SCRIPT = Script(a['funs'], a.get('conv'))
    try:
        if a['what'] == 'mle':
            r = m.get_mle(a['p'], a['q'], **a['kw'])
            out = dict(trial=r.trial, fun=enc(r.fun), x=enc(r.x))
        else:
            kw = dict(a['kw'])
            if kw.get('pqlist') is not None:
                kw['pqlist'] = [tuple(x) for x in kw['pqlist']]
            r, pq, ai = m.choose_order(a['pmax'], **kw)
            out = dict(trial=r.trial, fun=enc(r.fun), x=enc(r.x), pq=[[int(u), int(v)] for u, v in pq], aicc=enc(list(ai)))
        out['model'] = state(m)
        out['trials'] = SCRIPT.calls
        out['calls'] = enc_calls()
        return out
    finally:
        SCRIPT = None

def op_fun(a):
    c = mod(False)
    args = [dec(x) for x in a['args']]
    kw = {k: dec(v) for k, v in a.get('kw', {}).items()}
    if a['f'] == 'power_spectrum' and a.get('scalar'):
        args[0] = float(args[0][0])
    keep = [x.copy() if hasattr(x, 'copy') else x for x in args]
    r = getattr(c, a['f'])(*args, **kw)
    same = all(np.array_equal(x, y) for x, y in zip(args, keep))
    return dict(r=enc(np.asarray(r).ravel()), shape=list(np.shape(r)), same=same)

def op_proc(a):
    c = mod(False)
    def f():
        t = dec(a['t'])
        if a['f'] == 'car1_process':
            return c.car1_process(t, a['s2'], a['tau'])
        return c.carma_process(t, a['s2'], dec(a['roots']), **{k: dec(v) for k, v in a['kw'].items()})
    outs = []
    base, used = with_normals([], f)
    outs.append(enc(np.asarray(base)))
    for k in range(used):
        r, _ = with_normals([0.0] * k + [1.0], f)
        outs.append(enc(np.asarray(r)))
    r, _ = with_normals(a['z'], f)
    outs.append(enc(np.asarray(r)))
    return dict(used=used, outs=outs)

OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}

while True:
    l = rd.readline()
    if not l:
        break
    try:
        a = json.loads(l)
        r = {'ok': OPS[a['op']](a)}
    except BaseException as e:
        import traceback
        r = {'err': '%s: %s' % (type(e).__name__, str(e)[:300]), 'tb': traceback.format_exc()[-600:]}
    wr.write(json.dumps(r) + '\n')
    wr.flush()
