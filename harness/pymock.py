"""Stand-in for the compiled extension, for executions of the Python layer: same names and argument
types, values that are fixed functions of the arguments. Shared by the worker (which runs the code
under test) and the checker (which computes what the results must be)."""
import cmath, math

class ArgumentError(TypeError):
    pass

def dbl(x):
    if isinstance(x, bool) or not isinstance(x, (float, int)):
        raise TypeError('No registered converter was able to produce a C++ rvalue of type double from %s' % type(x).__name__)
    return float(x)

def cpx(x):
    if isinstance(x, bool) or not isinstance(x, (float, int, complex)):
        raise TypeError('No registered converter was able to produce a C++ rvalue of type complex from %s' % type(x).__name__)
    return complex(x)

class Vec(list):
    conv = None
    def __init__(self):
        list.__init__(self)
    def append(self, x):
        list.append(self, self.conv(x))
    def extend(self, xs):
        list.extend(self, [self.conv(x) for x in xs])
    def __setitem__(self, i, x):
        list.__setitem__(self, i, self.conv(x))

class vecD(Vec):
    conv = staticmethod(dbl)

class vecC(Vec):
    conv = staticmethod(cpx)

class vecvecD(list):
    pass

class pairD:
    def __init__(self, a=0.0, b=0.0):
        self.first, self.second = a, b

def need(x, t):
    if t is int and (isinstance(x, bool) or not isinstance(x, int)):
        raise ArgumentError('int expected, got %s' % type(x).__name__)
    if t is float:
        return dbl(x)
    if t in (vecD, vecC) and type(x).__name__ != t.__name__:
        raise ArgumentError('%s expected, got %s' % (t.__name__, type(x).__name__))
    return x

# ---- model objects
def lik(th):
    return -sum((k + 1) * (x - 0.3 * k) ** 2 for k, x in enumerate(th)) * 0.01 - 0.001 * sum(th)

def prior(th):
    return -0.5 * (th[1] - 1.0) ** 2 - 0.3

class Model:
    hasmle = True
    def __init__(self, trace, logpost):
        self.trace, self.lp, self.mle = trace, logpost, False
    def getSamples(self):
        out = vecvecD()
        for r in self.trace:
            v = vecD(); v.extend(r)
            list.append(out, v)
        return out
    def GetLogLikes(self):
        v = vecD(); v.extend(self.lp)
        return v
    def getLogPrior(self, th):
        need(th, vecD)
        return prior(th)
    def getLogDensity(self, th):
        need(th, vecD)
        return lik(th) + (0.0 if self.mle else prior(th))

class CAR1(Model):
    pass

class CARp(Model):
    def SetMLE(self, b):
        if not isinstance(b, (bool, int)):
            raise ArgumentError('bool expected')
        self.mle = bool(b)

class CARMA(CARp):
    pass

CALLS = []          # what the samplers were called with
CHAINS = []         # chains they return, in turn: (trace, logpost); the last one is used again

def chain():
    return CHAINS.pop(0) if len(CHAINS) > 1 else CHAINS[0]

def run_mcmc_car1(n, burn, t, y, e, thin=1, init=None, /):
    for x in (n, burn, thin):
        need(x, int)
    for x in (t, y, e) + ((init,) if init is not None else ()):
        need(x, vecD)
    CALLS.append(dict(kind='car1', n=n, burn=burn, t=list(t), y=list(y), e=list(e), thin=thin, init=list(init or [])))
    return CAR1(*chain())

def run_mcmc_carma(n, burn, t, y, e, p, q, walkers, zcarma=False, thin=1, init=None, /):
    for x in (n, burn, p, q, walkers, thin):
        need(x, int)
    for x in (t, y, e) + ((init,) if init is not None else ()):
        need(x, vecD)
    CALLS.append(dict(kind='carma', n=n, burn=burn, t=list(t), y=list(y), e=list(e), p=p, q=q, walkers=walkers,
                      zcarma=bool(zcarma), thin=thin, init=list(init or [])))
    return CARMA(*chain())

# ---- filters: fixed functions of everything handed to the constructor
def digest(t, y, e, s2, roots, ma, at, filtered):
    """Two numbers and their scale."""
    m = v = sc = 0.0
    for a, b, c in zip(t, y, e):
        w = math.exp(-0.01 * abs(at - a))
        m += b * math.cos(0.3 * a + 0.1) * w + 0.13 * c * c * math.sin(0.7 * a + 0.4)
        v += 0.21 * b * b * w + 0.31 * c * c * math.cos(0.2 * a)
        sc += abs(b) + b * b + c * c
    m += 0.7 * s2; v += 1.1 * s2; sc += abs(s2)
    for k in range(1, 6):
        z = sum(complex(r) ** k for r in roots)
        m += (z.real * 0.9 + z.imag * 1.7) / k; v += (z.real * 0.4 - z.imag * 0.6) / k
        sc += sum(abs(complex(r)) ** k for r in roots)
    for k, x in enumerate(ma):
        m += 0.37 * (k + 1) * x; v -= 0.23 * (k + 2) * x; sc += (k + 1) * abs(x)
    m += 0.01 * at + (0.0 if filtered else 5.5); v += 0.003 * at
    return m, v, sc + abs(at) + 1.0

def draws(t, y, e, s2, roots, ma, at, filtered):
    return [digest(t, y, e, s2, roots, ma, x, filtered)[0] + 0.01 * i for i, x in enumerate(at)]

class KalmanFilter1:
    def __init__(self, t, y, e, *par):
        for x in (t, y, e):
            need(x, vecD)
        if len(t) != len(y) or len(t) != len(e):
            raise ArgumentError('lengths')
        self.d = (list(t), list(y), list(e))
        self.par = self.params(*par) if par else None
        self.f = False
    def params(self, s2, omega):
        return need(s2, float), [-need(omega, float)], [1.0]
    def Filter(self):
        self.f = True
    def Predict(self, at):
        a, b, _ = digest(*self.d, *self.par, need(at, float), self.f)
        return pairD(a, b)
    def Simulate(self, at):
        v = vecD(); v.extend(draws(*self.d, *self.par, need(at, vecD), self.f))
        return v
    def GetMean(self):
        v = vecD(); v.extend([digest(*self.d, *self.par, x, self.f)[0] * 0.5 for x in self.d[0]])
        return v
    def GetVar(self):
        v = vecD(); v.extend([abs(digest(*self.d, *self.par, x, self.f)[1]) + 0.1 for x in self.d[0]])
        return v

class KalmanFilterp(KalmanFilter1):
    def params(self, s2, roots, ma):
        return need(s2, float), list(need(roots, vecC)), list(need(ma, vecD))
