"""Reference values, computed from the definition (dense Gaussian conditioning) in 60 digits."""
import mpmath as mp
mp.mp.dps = 60

def autocov(roots, ma, sigsqr, lag):
    """Autocovariance of a CARMA process: residue sum over the AR roots. CAR(1) is roots=[-omega], ma=[1]."""
    lag = abs(mp.mpf(lag))
    r = [mp.mpc(x) for x in roots]
    s = mp.mpc(0)
    for k, rk in enumerate(r):
        a = sum((mp.mpf(c) * rk ** j for j, c in enumerate(ma)), mp.mpc(0))
        b = sum((mp.mpf(c) * (-rk) ** j for j, c in enumerate(ma)), mp.mpc(0))
        d = -2 * rk.real
        for l, rl in enumerate(r):
            if l != k:
                d *= (rl - rk) * (mp.conj(rl) + rk)
        s += a * b * mp.exp(rk * lag) / d
    return mp.mpf(sigsqr) * s.real

def autocov_lyap(roots, ma, sigsqr, lag):
    """The same from the companion state space form (used to cross-check autocov)."""
    p = len(roots)
    c = [mp.mpc(1)]
    for r in roots:
        c = [a - mp.mpc(r) * b for a, b in zip(c + [0], [0] + c)]
    A = mp.matrix(p, p)
    for i in range(p - 1):
        A[i, i + 1] = 1
    for j in range(p):
        A[p - 1, j] = -c[p - j].real
    n = p * p
    M = mp.matrix(n, n); R = mp.matrix(n, 1)
    for i in range(p):
        for j in range(p):
            for k in range(p):
                M[i * p + j, k * p + j] += A[i, k]
                M[i * p + j, i * p + k] += A[j, k]
    R[n - 1] = -mp.mpf(sigsqr)
    v = mp.lu_solve(M, R)
    V = mp.matrix(p, p)
    for i in range(p):
        for j in range(p):
            V[i, j] = v[i * p + j]
    b = mp.matrix(1, p)
    for j, x in enumerate(ma):
        b[0, j] = x
    E = mp.expm(A * abs(mp.mpf(lag)))
    return (b * E * V * b.T)[0, 0]

def cov(roots, ma, sigsqr, t, s=None):
    cache = {}
    s = t if s is None else s
    M = mp.matrix(len(t), len(s))
    for i, a in enumerate(t):
        for j, b in enumerate(s):
            d = abs(mp.mpf(a) - mp.mpf(b))
            if d not in cache:
                cache[d] = autocov(roots, ma, sigsqr, d)
            M[i, j] = cache[d]
    return M

def chol(S):
    n = S.rows
    L = mp.matrix(n, n)
    for i in range(n):
        for j in range(i + 1):
            x = S[i, j]
            for k in range(j):
                x -= L[i, k] * L[j, k]
            if i == j:
                if x <= 0:
                    raise ZeroDivisionError('singular')
                L[i, i] = mp.sqrt(x)
            else:
                L[i, j] = x / L[j, j]
    return L

LONG = 40       # longer series are done in double arithmetic (only well-conditioned ones)

def _dcov(roots, ma, sigsqr, lag):
    import numpy as np
    lag = np.abs(lag)
    r = np.array([complex(x) for x in roots])
    s = 0
    for k, rk in enumerate(r):
        a = sum(c * rk ** j for j, c in enumerate(ma))
        b = sum(c * (-rk) ** j for j, c in enumerate(ma))
        d = -2 * rk.real
        for l, rl in enumerate(r):
            if l != k:
                d = d * (rl - rk) * (rl.conjugate() + rk)
        s = s + a * b * np.exp(rk * lag) / d
    return sigsqr * s.real

def _dchol(roots, ma, sigsqr, t, e):
    import numpy as np
    t = np.array(t, float)
    S = _dcov(roots, ma, sigsqr, t[:, None] - t[None, :]) + np.diag(np.array(e, float) ** 2)
    if not np.all(np.isfinite(S)) or np.linalg.cond(S) > 1e6:
        raise ZeroDivisionError('singular')
    return np.linalg.cholesky(S)

def onestep(roots, ma, sigsqr, t, y, e):
    """Mean and variance of each observation given the earlier ones."""
    n = len(t)
    if n > LONG:
        import numpy as np
        L = _dchol(roots, ma, sigsqr, t, e)
        z = np.linalg.solve(L, np.array(y, float))
        d = np.diag(L)
        return [float(x) for x in L @ z - d * z], [float(x) for x in d * d]
    S = cov(roots, ma, sigsqr, t)
    for i in range(n):
        S[i, i] += mp.mpf(e[i]) ** 2
    L = chol(S)
    z, m, v = [], [], []
    for i in range(n):
        mi = sum((L[i, k] * z[k] for k in range(i)), mp.mpf(0))
        m.append(mi); v.append(L[i, i] ** 2)
        z.append((mp.mpf(y[i]) - mi) / L[i, i])
    return m, v

def condition(roots, ma, sigsqr, t, y, e, s):
    """Mean and variance of the process at time s given all observations."""
    n = len(t)
    if n > LONG:
        import numpy as np
        L = _dchol(roots, ma, sigsqr, t, e)
        a = np.linalg.solve(L, _dcov(roots, ma, sigsqr, np.array(t, float) - s))
        b = np.linalg.solve(L, np.array(y, float))
        return mp.mpf(float(a @ b)), mp.mpf(float(_dcov(roots, ma, sigsqr, 0.0) - a @ a))
    S = cov(roots, ma, sigsqr, t)
    for i in range(n):
        S[i, i] += mp.mpf(e[i]) ** 2
    L = chol(S)
    c = [autocov(roots, ma, sigsqr, mp.mpf(s) - mp.mpf(x)) for x in t]
    a, b = [], []
    for i in range(n):
        a.append((c[i] - sum((L[i, k] * a[k] for k in range(i)), mp.mpf(0))) / L[i, i])
        b.append((mp.mpf(y[i]) - sum((L[i, k] * b[k] for k in range(i)), mp.mpf(0))) / L[i, i])
    m = sum((x * w for x, w in zip(a, b)), mp.mpf(0))
    v = autocov(roots, ma, sigsqr, 0) - sum((x * x for x in a), mp.mpf(0))
    return m, v

def loglik(roots, ma, sigsqr, t, y, e):
    m, v = onestep(roots, ma, sigsqr, t, y, e)
    return sum((-mp.log(b) / 2 - (mp.mpf(x) - a) ** 2 / b / 2 for a, b, x in zip(m, v, y)), mp.mpf(0))
