"""Lean lemmas behind the contracts (lean/*.lean) and their link to the contracts.

The contracts state what the code computes as recursions or closed sums. That these are what the property speaks of
(Gaussian conditioning, the Gaussian density, the autocovariance of the process, the coefficients of a polynomial) is
proved once in Lean. The link is mechanical: the Python definitions of the contracts are run over the expressions below,
which write themselves as Lean text, and the equations so obtained are checked in Lean for the functions of the lemmas.
Run as a program: prints the Lean text for one property."""
import sys


class L(object):
    """A Lean expression."""
    def __init__(self, s, c=False):
        self.s, self.c = s, c

    def _b(self, op, o, rev=False):
        o = lift(o)
        a, b = (o, self) if rev else (self, o)
        return L('(%s %s %s)' % (a.s, op, b.s), a.c or b.c)
    def __add__(self, o): return self._b('+', o)
    def __radd__(self, o): return self._b('+', o, True)
    def __sub__(self, o): return self._b('-', o)
    def __rsub__(self, o): return self._b('-', o, True)
    def __mul__(self, o): return self._b('*', o)
    def __rmul__(self, o): return self._b('*', o, True)
    def __truediv__(self, o): return self._b('/', o)
    def __rtruediv__(self, o): return self._b('/', o, True)
    def __neg__(self): return L('(-%s)' % self.s, self.c)


class Ix(object):
    """A natural number base + v + k; base may be absent, v may be absent."""
    def __init__(self, base, v, k):
        self.base, self.v, self.k = base, v, k
    def __add__(self, k): return type(self)(self.base, self.v, self.k + k)
    def __sub__(self, k): return type(self)(self.base, self.v, self.k - k)

    def rel(self):
        """Without the base."""
        assert self.k >= 0, 'index before the start'
        if not self.v:
            return str(self.k)
        return '(%s + %d)' % (self.v, self.k) if self.k else self.v

    def __rmul__(self, k): return None
    def const(self): return None
    def iszero(self): return self.v is None and self.k == 0

    @property
    def s(self):
        if not self.base:
            return self.rel()
        return self.base if not self.v and not self.k else '(%s + %s)' % (self.base, self.rel())


class Z(Ix):
    """An integer index."""
    @property
    def s(self):
        return '(%s %s %d)' % (self.v, '-' if self.k < 0 else '+', abs(self.k)) if self.k else self.v


def lift(x):
    return x if isinstance(x, L) else L(x.s) if isinstance(x, Ix) else L('(%d)' % x if x < 0 else str(x))


N = [0]
ARR = {'time': 't', 'y': 'y', 'yerr': 'e', 'omega': 'om', 'J': 'J', 'ma': 'ma', 'roots': 'r', 'qa': 'qa', 'qb': 'qb', 'alpha': 'om', 'z': 'z'}
A1, AP, AE = 'w s2 t e', 'om b Q t e', 'om b Q t (fun _ => 0)'
APPS = {
    'm1': lambda c: L('Car1.m %s y %s' % (A1, c.s)), 'v1': lambda c: L('Car1.v %s %s' % (A1, c.s)),
    'cs1': lambda c: L('Car1.cs %s T ip %s' % (A1, c.rel())), 'cc1': lambda c: L('Car1.cc %s T ip y %s' % (A1, c.rel())),
    'cv1': lambda c: L('Car1.cv %s T ip %s' % (A1, c.rel())),
    'bq': lambda i: L('b %s' % i.s, True), 'SVk': lambda i, j: L('Q %s %s' % (i.s, j.s), True),
    'xk': lambda c, i: L('Carp.X %s y %s %s' % (AP, c.s, i.s), True), 'Pk': lambda c, i, j: L('Carp.P %s %s %s %s' % (AP, c.s, i.s, j.s), True),
    'mp': lambda c: L('Carp.m %s y %s' % (AP, c.s)), 'vp': lambda c: L('Carp.v %s %s' % (AP, c.s)),
    'xTk': lambda c, i: L('Carp.xT %s T y %s %s' % (AP, c.s, i.s), True), 'PTk': lambda c, i, j: L('Carp.PT %s T %s %s %s' % (AP, c.s, i.s, j.s), True),
    'mTk': lambda c: L('Carp.mT %s T %s y' % (AP, c.s)), 'vTk': lambda c: L('Carp.vT %s T %s' % (AP, c.s)),
    'xck': lambda c, i: L('Carp.Xc %s T ip y %s %s' % (AP, c.rel(), i.s), True), 'xsk': lambda c, i: L('Carp.Xs %s T ip %s %s' % (AP, c.rel(), i.s), True),
    'Pck': lambda c, i, j: L('Carp.Pc %s T ip %s %s %s' % (AP, c.rel(), i.s, j.s), True),
    'ycp': lambda c: L('Carp.cc %s T ip y %s' % (AP, c.rel())), 'ysp': lambda c: L('Carp.cs %s T ip %s' % (AP, c.rel())),
    'cvp': lambda c: L('Carp.cv %s T ip %s' % (AP, c.rel())),
    'pyb': lambda i: L('b %s' % i.s, True), 'pyS': lambda i, j: L('Q %s %s' % (i.s, j.s), True), 'py1': lambda c: L('y %s' % c.s),
    'pyx': lambda c, i: L('Carp.X %s y %s %s' % (AE, c.s, i.s), True), 'pyP': lambda c, i, j: L('Carp.P %s %s %s %s' % (AE, c.s, i.s, j.s), True),
    'pym': lambda c: L('Carp.m %s y %s' % (AE, c.s)), 'pyv': lambda c: L('Carp.v %s %s' % (AE, c.s)),
    'ep': lambda c, k: L('Poly.ep r %s %s' % (c.s, k.s), True), 'cp': lambda c, k: L('Poly.cp qa qb %s %s' % (c.s, k.s)),
}


def par(x): return L('(%s)' % x.s, x.c)
def El(name, *ix, sort='r'): return L('(%s %s)' % (ARR[name], ' '.join(lift(i).s for i in ix)), sort == 'c')
def App(f, *a, sort=None): return par(APPS[f](*a))
def Exp(x): return L('(%s.exp %s)' % ('Complex' if x.c else 'Real', x.s), x.c)
def conj(x): return L('(conj %s)' % x.s, True) if x.c else x
def real(x): return L('(%s).re' % x.s)
def Pow(b, n): return L('(%s ^ %s)' % (b.s, n.s), b.c)


def fresh(prefix, sort='r'):
    N[0] += 1
    return Ix(None, '%s%d' % (prefix, N[0]), 0)


def Sum(binders, body):
    body = lift(body)
    for v, hi in reversed(binders):
        body = L('(∑ %s%s, %s)' % (v.s, ' : Fin p' if hi.s == 'p' else ' ∈ range %s' % hi.s, body.s), body.c)
    return body


def Prod(v, hi, body):
    return L('(∏ %s : Fin p, %s)' % (v.s, body.s), True)


def SumR(lo, hi, f):
    N[0] += 1
    v = 'k%d' % N[0]
    x = f(Ix(lo.base if isinstance(lo, Ix) else None, v, 0))
    if hi.s == 'p' and '^ %s)' % v not in x.s:   # an exponent is a natural number
        return L('(∑ %s : Fin p, %s)' % (v, x.s), x.c)
    return L('(∑ %s ∈ range %s, %s)' % (v, hi.s, x.s), x.c)


def ProdR(lo, hi, f):
    N[0] += 1
    return Prod(Ix(None, 'k%d' % N[0], 0), hi, f(Ix(None, 'k%d' % N[0], 0)))


def Sqrt(x): return L('(Real.sqrt %s)' % x.s)
def Abs(x): return L('|%s|' % x.s)
BRANCH = [False]
class Cond(object):
    def __init__(self, s): self.s = s
def ne(a, b): return Cond('%s ≠ %s' % (lift(a).s, lift(b).s))
def eq(a, b): return Cond('%s = %s' % (lift(a).s, lift(b).s))


def Ite(c, a, b):
    if BRANCH[0] is None:
        a, b = lift(a), lift(b)
        return L('(if %s then %s else %s)' % (c.s, a.s, b.s), a.c or b.c)
    return lift(a if BRANCH[0] else b)


def install(m, **extra):
    g = dict(El=El, App=App, Exp=Exp, conj=conj, real=real, Pow=Pow, fresh=fresh, Sum=Sum, Prod=Prod, SumR=SumR, ProdR=ProdR, Sqrt=Sqrt, Abs=Abs, Ite=Ite, eq=eq, ne=ne,
             ZERO=L('0'), ONE=L('1'), s2=L('s2'), w=L('w'), tt=L('T'))
    g.update(extra)
    for k, v in g.items():
        if hasattr(m, k):
            setattr(m, k, v)


HEAD = '''set_option linter.all false
open Finset ComplexConjugate Ins
namespace Link
'''


def gen(pid):
    from specs import kf, kfp, model
    from vp import terms as T
    ghost = dict(T.GHOST)
    for m in (kf, kfp):
        install(m, ip=Ix('ip', None, 0), p=L('p'), n=L('r'))
    install(model, p=L('p'))
    out, names = [], []

    def thm(name, lhs, rhs, proof, binders=''):
        names.append(name)
        out.append('theorem %s %s : %s = %s := by\n  %s\n' % (name, binders, lhs, lift(rhs).s, proof))
    c0, c1 = Ix(None, None, 0), Ix(None, 'c', 1)
    j0, j1 = Ix('ip', None, 0), Ix('ip', 'j', 1)
    i, j = Ix(None, 'i', 0), Ix(None, 'j', 0)
    imports = []

    if pid in ('F01', 'F03', 'M01'):
        imports += ['Car1']
        B = '(w s2 : ℝ) (t e y : ℕ → ℝ)'
        simp = 'first | rfl | (simp only [Car1.m, Car1.v]; ring)'
        thm('m_base', 'Car1.m w s2 t e y 0', kf._m1(True, c0), simp, B)
        thm('m_step', 'Car1.m w s2 t e y (c + 1)', kf._m1(False, c1), simp, B + ' (c : ℕ)')
        thm('v_base', 'Car1.v w s2 t e 0', kf._v1(True, c0), simp, B)
        thm('v_step', 'Car1.v w s2 t e (c + 1)', kf._v1(False, c1), simp, B + ' (c : ℕ)')
    if pid in ('F02', 'F04', 'M01'):
        imports += ['Acov']
        B = '{p : ℕ} (om b : Fin p → ℂ) (Q : Fin p → Fin p → ℂ) (t e y : ℕ → ℝ)'
        simp = 'first | rfl | (simp only [Carp.X, Carp.P, Carp.m, Carp.v, Carp.obs, Carp.var, Carp.quad, Carp.gain, Carp.rho]; push_cast; ring)'
        for base, s, c in ((True, '0', c0), (False, '(c + 1)', c1)):
            Bc = B + ('' if base else ' (c : ℕ)')
            nm = 'base' if base else 'step'
            thm('x_' + nm, 'Carp.X om b Q t e y %s i' % s, kfp._x(base, c, i), simp, Bc + ' (i : Fin p)')
            thm('P_' + nm, 'Carp.P om b Q t e %s i j' % s, kfp._P(base, c, i, j), simp, Bc + ' (i j : Fin p)')
        c = Ix(None, 'c', 0)
        thm('mean', 'Carp.m om b Q t e y c', ghost['mp']([c], None), simp, B + ' (c : ℕ)')
        thm('variance', 'Carp.v om b Q t e c', ghost['vp']([c], None), simp, B + ' (c : ℕ)')
        thm('row', 'Acov.bq om ma p i', ghost['bq']([i], None), 'first | rfl | simp only [Acov.bq]', '{p : ℕ} (om : Fin p → ℂ) (ma : ℕ → ℝ) (i : Fin p)')
        thm('stationary', 'Acov.SV om J s2 i j', ghost['SVk']([i, j], None), 'first | rfl | simp only [Acov.SV]',
            '{p : ℕ} (om J : Fin p → ℂ) (s2 : ℝ) (i j : Fin p)')
    if pid == 'F03':
        imports += ['Pred1']
        B = '(w s2 : ℝ) (t e y : ℕ → ℝ) (T : ℝ) (ip : ℕ)'
        simp = 'first | rfl | (simp only [Car1.cs, Car1.cc, Car1.cv]; ring)'
        for nm, f, arg in (('cs', kf._cs1, ''), ('cc', kf._cc1, ' y'), ('cv', kf._cv1, '')):
            thm(nm + '_base', 'Car1.%s w s2 t e T ip%s 0' % (nm, arg), f(True, j0), simp, B)
            thm(nm + '_step', 'Car1.%s w s2 t e T ip%s (j + 1)' % (nm, arg), f(False, j1), simp, B + ' (j : ℕ)')
        for br, s in ((True, '0'), (False, '(k + 1)')):
            BRANCH[0] = br
            kf.ip = Ix(None, None, 1) if br else Ix(None, 'k', 1)
            mean, var = kf.forward1()
            simp = 'first | rfl | (simp only [Car1.mT, Car1.vT]; ring)'
            Bk = '(w s2 : ℝ) (t e y : ℕ → ℝ) (T : ℝ)' + ('' if br else ' (k : ℕ)')
            thm('forward_mean_' + ('zero' if br else 'pos'), 'Car1.mT w s2 t e T y %s' % s, mean, simp, Bk)
            thm('forward_var_' + ('zero' if br else 'pos'), 'Car1.vT w s2 t e T %s' % s, var, simp, Bk)
        kf.ip = Ix('ip', None, 0)
        predict(kf.predict_spec, L('(Car1.mT w s2 t e T y ip)'), L('(Car1.vT w s2 t e T ip)'), kf.cs1, kf.cc1, kf.cv1, out, names, 'Car1',
                '(w s2 : ℝ) (t e y : ℕ → ℝ) (T : ℝ) (ip r : ℕ)', '', 'w s2 t e T ip r')
    if pid == 'F04':
        imports += ['Predp']
        B = '{p : ℕ} (om b : Fin p → ℂ) (Q : Fin p → Fin p → ℂ) (t e y : ℕ → ℝ) (T : ℝ)'
        simp = ('first | rfl | (simp only [Carp.xT, Carp.PT, Carp.mT, Carp.vT, Carp.Pc, Carp.Xc, Carp.Xs, Carp.cc, Carp.cs, Carp.cv, Carp.prop, Carp.m, '
                'Carp.obs, Carp.var, Carp.quad, Carp.gain, Carp.rho]; push_cast; ring)')
        for base, s, c in ((True, '0', c0), (False, '(c + 1)', c1)):
            Bc = B + ('' if base else ' (c : ℕ)')
            nm = 'base' if base else 'step'
            thm('xT_' + nm, 'Carp.xT om b Q t e T y %s i' % s, kfp._xT(base, c, i), simp, Bc + ' (i : Fin p)')
            thm('PT_' + nm, 'Carp.PT om b Q t e T %s i j' % s, kfp._PT(base, c, i, j), simp, Bc + ' (i j : Fin p)')
        B += ' (ip : ℕ)'
        thm('mT', 'Carp.mT om b Q t e T ip y', ghost['mTk']([j0], None), simp, B)
        thm('vT', 'Carp.vT om b Q t e T ip', ghost['vTk']([j0], None), simp, B)
        l = Ix(None, 'l', 0)
        for base, s, c in ((True, '0', j0), (False, '(j + 1)', j1)):
            Bc = B + ('' if base else ' (j : ℕ)')
            nm = 'base' if base else 'step'
            thm('Xc_' + nm, 'Carp.Xc om b Q t e T ip y %s i' % s, kfp._xc(base, c, i), simp, Bc + ' (i : Fin p)')
            thm('Xs_' + nm, 'Carp.Xs om b Q t e T ip %s i' % s, kfp._xs(base, c, i), simp, Bc + ' (i : Fin p)')
            thm('Pc_' + nm, 'Carp.Pc om b Q t e T ip %s i l' % s, kfp._Pc(base, c, i, l), simp, Bc + ' (i l : Fin p)')
        c = Ix('ip', 'j', 0)
        for nm, f, arg in (('cc', 'ycp', ' y'), ('cs', 'ysp', ''), ('cv', 'cvp', '')):
            thm(nm, 'Carp.%s om b Q t e T ip%s j' % (nm, arg), ghost[f]([c], None), simp, B + ' (j : ℕ)')
        predict(kf.predict_spec, kfp.mT(), kfp.vT(), kfp.ys, kfp.yc, kfp.cv, out, names, 'Carp',
                '{p : ℕ} {om b : Fin p → ℂ} {Q : Fin p → Fin p → ℂ} (h : Carp.Pairs om b Q) (t e y : ℕ → ℝ) (T : ℝ) (ip r : ℕ)', 'h ', 't e T ip h r')
    if pid == 'M04':
        imports += ['Poly']
        from vp.terms import And
        model.entails = lambda h, f: h == 'step' and f == 'ge'
        model.ge, model.lt = (lambda a, b: 'ge'), (lambda a, b: 'lt')

        class NotT(object):
            kind = 'or'
        model.Or = lambda *a: NotT()
        BRANCH[0] = None
        k = Z(None, 'k', 0)

        class H(list):
            def __eq__(self, o): return o == 'step'
        for nm, f, args in (('ep', model._ep, 'r'), ('cp', model._cp, 'qa qb')):
            B = '(r : ℕ → ℂ) (k : ℤ)' if nm == 'ep' else '(qa qb : ℕ → ℝ) (k : ℤ)'
            thm(nm + '_base', 'Poly.%s %s 0 k' % (nm, args), f([c0, k], None), 'rfl', B)
            thm(nm + '_step', 'Poly.%s %s (c + 1) k' % (nm, args), f([c1, k], H()), 'first | rfl | (simp only [Poly.%s])' % nm, B + ' (c : ℕ)')
    if pid == 'M05':
        imports += ['Acov']
        BRANCH[0] = None
        v = model.acov(model.al, L('p'), lambda m: L('(ma %s)' % m.s), L('q'), L('d'))
        thm('acov', 'Carp.R om (Acov.bq om ma q) (Acov.SV om J s2) d', L('s2') * v, 'exact Acov.autocovariance perm hJ hinj hneg hperm ma q hq s2 d',
            '{p : ℕ} {om J : Fin p → ℂ} (perm : Fin p ≃ Fin p) (hJ : Acov.Loads om J) (hinj : Function.Injective om) '
            '(hneg : ∀ i, (om i).re < 0) (hperm : ∀ i, om (perm i) = conj (om i)) (ma : ℕ → ℝ) (q : ℕ) (hq : q ≤ p) (s2 d : ℝ)')
    if pid in ('Y05', 'Y06'):
        from specs import py
        ARR.update(r='om', t='t')
        ghost = dict(T.GHOST)
        install(py, gp=L('p'), gm_=L('q'), gs2=L('s2'), gtau=L('tau'))
    if pid == 'Y05':
        imports += ['Acov']
        BRANCH[0] = None
        v = py.autocov(L('s2'), L('p'), L('q'), lambda k: El('r', k, sort='c'), lambda m: L('(ma %s)' % m.s), L('lag'))
        thm('acov', 'Carp.R om (Acov.bq om ma q) (Acov.SV om J s2) |lag|', v,
            'rw [Acov.autocovariance perm hJ hinj hneg hperm ma q hq s2]; simp only [ne_eq, ite_not]',
            '{p : ℕ} {om J : Fin p → ℂ} (perm : Fin p ≃ Fin p) (hJ : Acov.Loads om J) (hinj : Function.Injective om) '
            '(hneg : ∀ i, (om i).re < 0) (hperm : ∀ i, om (perm i) = conj (om i)) (ma : ℕ → ℝ) (q : ℕ) (hq : q ≤ p) (s2 lag : ℝ)')
    if pid == 'Y06':
        imports += ['Draw']
        B = '{p : ℕ} (om b : Fin p → ℂ) (Q : Fin p → Fin p → ℂ) (t y z : ℕ → ℝ)'
        E = 'om b Q t (fun _ => 0)'
        H = ' (hy : ∀ c, y c = Carp.m %s y c + Real.sqrt (Carp.v %s c) * z c)' % (E, E)
        simp = 'first | rfl | (simp only [Carp.X, Carp.P, Carp.obs, Carp.quad, Carp.gain, Carp.rho, Carp.v, Carp.var]; push_cast; ring)'
        for base, s, c in ((True, '0', c0), (False, '(c + 1)', c1)):
            Bc = B + ('' if base else ' (c : ℕ)')
            nm = 'base' if base else 'step'
            thm('x_' + nm, 'Carp.X %s y %s i' % (E, s), py._gx(base, c, i), simp if base else 'simp only [Carp.X, Carp.gain, Carp.rho]; rw [hy c]; simp only [Carp.v, Carp.m]; push_cast; ring',
                Bc + ' (i : Fin p)' + ('' if base else H))
            thm('P_' + nm, 'Carp.P %s %s i j' % (E, s), py._gP(base, c, i, j), simp, Bc + ' (i j : Fin p)')
        c = Ix(None, 'c', 0)
        thm('mean', 'Carp.m %s y c' % E, ghost['pym']([c], None), 'first | rfl | simp only [Carp.m, Carp.obs]', B + ' (c : ℕ)')
        thm('variance', 'Carp.v %s c' % E, ghost['pyv']([c], None), 'simp only [Carp.v, Carp.var, Carp.quad]; ring', B + ' (c : ℕ)')
        thm('row', 'Acov.bq om ma q i', ghost['pyb']([i], None), 'first | rfl | simp only [Acov.bq]', '{p : ℕ} (om : Fin p → ℂ) (ma : ℕ → ℝ) (q : ℕ) (i : Fin p)')
        thm('stationary', 'Acov.SV om J s2 i j', ghost['pyS']([i, j], None), 'first | rfl | simp only [Acov.SV]',
            '{p : ℕ} (om J : Fin p → ℂ) (s2 : ℝ) (i j : Fin p)')
        B = '(tau s2 : ℝ) (htau : 0 < tau) (t y z : ℕ → ℝ)'
        q = 'have h0 : s2 / (2 * (1 / tau)) = s2 * tau / 2 := by field_simp\n  '
        thm('car1_base', 'Real.sqrt (s2 / (2 * (1 / tau))) * z 0', py._g1(True, c0), q + 'rw [h0]', B)
        r = 'Real.exp (-(1 / tau) * (t (c + 1) - t c))'
        thm('car1_step', '%s * y c + Real.sqrt (s2 / (2 * (1 / tau)) * (1 - %s * %s)) * z (c + 1)' % (r, r, r), py._g1(False, c1),
            q + 'have h1 : -(1 / tau) * (t (c + 1) - t c) = -(t (c + 1) - t c) / tau := by ring\n  rw [h0, h1]', B + ' (c : ℕ)')
    text = ''.join('import %s\n' % x for x in dict.fromkeys(imports + ['Ins'])) + HEAD + '\n'.join(out) + '\nend Link\n'
    return text, names


def predict(spec, mf, vf, sl, co, va, out, names, ns, B, h, args):
    BRANCH[0] = False
    mean, var = spec(mf, vf, sl, co, va)
    a = 'w s2' if ns == 'Car1' else 'om b Q'
    names.append('predict')
    out.append('''theorem predict %(B)s (ht : Monotone t) (h1 : ∀ j, j < ip → t j ≤ T) (h2 : T ≤ t ip)
    (hvb : ∀ c, c < ip → 0 < %(ns)s.v %(a)s t e c) (hvT : 0 < %(ns)s.vT %(a)s t e T ip) (hva : ∀ j, j < r → 0 < %(ns)s.cv %(a)s t e T ip j)
    (C : ℕ → ℕ → ℝ) (hC : C = %(ns)s.S %(a)s (ins ip t T) (ins ip e 0)) :
    (∃ g : ℕ → ℝ, g ip = 0 ∧ ∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) ∧
    ∀ g : ℕ → ℝ, g ip = 0 → (∀ j, j < ip + 1 + r → j ≠ ip → ∑ l ∈ range (ip + 1 + r), g l * C l j = C ip j) →
      %(mean)s = ∑ l ∈ range (ip + 1 + r), g l * ins ip y 0 l ∧
      %(var)s = C ip ip - ∑ l ∈ range (ip + 1 + r), g l * C l ip := by
  exact %(ns)s.predict_is_conditioning %(args)s ht h1 h2 y hvb hvT hva _ _ rfl rfl C hC
''' % dict(B=B, ns=ns, a=a, mean=mean.s, var=var.s, args=args))
    BRANCH[0] = True
    mean, var = spec(mf, vf, sl, co, va)
    assert mean.s == mf.s and var.s == vf.s


if __name__ == '__main__':
    import os
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    text, names = gen(sys.argv[1])
    print(text)
