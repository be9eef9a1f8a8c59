"""Terms of the verifier: rational-function normal forms over uninterpreted and
known functions, sums/products over symbolic ranges, and first-order formulas.

Scalars (integers, reals, complex numbers) are polynomials `P` with rational
coefficients over interned atoms; exponents may be negative.  Machine
arithmetic is treated as exact (stated in the evidence of every check).
"""
from fractions import Fraction
import hashlib
import itertools

_INTERN = {}
_FRESH = itertools.count()
GHOST = {}
GHOST_STEP = set()      # ghosts whose first argument is a step index          # ghost function name -> unfold(args) -> P or None
HERM = set()        # names of arrays/ghosts known to be Hermitian in the last two indices
REALFN = {'exp', 'log', 'sqrt', 'abs', 'pow'}


class Unsupported(Exception):
    """The engine cannot treat this construct (never a verdict about the code)."""


class F(object):
    __slots__ = ('kind', 'args', 'key', 'fv', 'lvl')

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, F) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show_f(self)


def _short(k):
    if len(k) > 160:
        return k[:40] + '#' + hashlib.sha1(k.encode()).hexdigest()[:20]
    return k


class Atom(object):
    __slots__ = ('kind', 'args', 'sort', 'key', 'fv', 'lvl', '__weakref__')

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


def _arg_key(a):
    if isinstance(a, (P, F)):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_arg_key(x) for x in a) + ')'
    return str(a)


def _arg_fv(a):
    if isinstance(a, (P, F)):
        return a.fv
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            r |= _arg_fv(x)
        return r
    return frozenset()


def _arg_lvl(a):
    if isinstance(a, (P, F)):
        return a.lvl
    if isinstance(a, tuple):
        return max([_arg_lvl(x) for x in a] or [0])
    return 0


def mk(kind, args, sort, fv=None, lvl=None):
    key = _short(kind + ':' + sort + _arg_key(args))
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.key = kind, args, sort, key
        a.fv = _arg_fv(args) if fv is None else fv
        a.lvl = _arg_lvl(args) if lvl is None else lvl
        _INTERN[key] = a
    return a


class P(object):
    """Polynomial normal form."""
    __slots__ = ('t', 'key', 'fv', 'lvl', '_hash')

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        parts = []
        for m in sorted(self.t, key=_mono_key):
            c = self.t[m]
            parts.append((str(c) if m == () or c != 1 else '') + ('*' if m and c != 1 else '') +
                         '*'.join(a.key + ('^%d' % e if e != 1 else '') for a, e in m))
        self.key = '[' + '+'.join(parts) + ']'
        if len(self.key) > 400:
            self.key = '[' + self.key[:30] + '#' + hashlib.sha1(self.key.encode()).hexdigest()[:20] + ']'
        fv = frozenset()
        lvl = 0
        for m in self.t:
            for a, e in m:
                fv |= a.fv
                if a.lvl > lvl:
                    lvl = a.lvl
        self.fv, self.lvl = fv, lvl
        self._hash = hash(self.key)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        o = topoly(o)
        return self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def iszero(self):
        return not self.t

    def __add__(self, o):
        o = topoly(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return P(t)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        return pmul(self, topoly(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return pmul(self, pinv(topoly(o)))

    def __rtruediv__(self, o):
        return pmul(topoly(o), pinv(self))

    def __pow__(self, n):
        return ppow(self, n)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def topoly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return P({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return P({(): Fraction(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        return P({(): Fraction(repr(x))})
    raise Unsupported('not a scalar: %r' % (x,))


ZERO = P({})
ONE = P({(): Fraction(1)})
HALF = P({(): Fraction(1, 2)})
I_ATOM = mk('I', (), 'c')
I = topoly(I_ATOM)
PI = topoly(mk('var', ('pi',), 'r', frozenset(['pi'])))


def Var(name, sort='r'):
    return topoly(mk('var', (name,), sort, frozenset([name])))


def fresh(prefix, sort='r'):
    return Var('%s!%d' % (prefix, next(_FRESH)), sort)


def the_atom(p):
    """The atom of a polynomial consisting of one atom, else None."""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def is_real(p):
    for m in p.t:
        for a, e in m:
            if not atom_real(a):
                return False
    return True


def atom_real(a):
    if a.sort != 'c':
        return True
    return False


def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.sort != 'i' or e < 0:
                return False
    return True


def sort_of(ps):
    s = 'i'
    for p in ps:
        if not is_real(p):
            return 'c'
        if not is_int(p):
            s = 'r'
    return s


# ---------------------------------------------------------------- products
def _special(a):
    return a.kind in ('I', 'poly') or (a.kind == 'app' and a.args[0] in ('exp', 'sqrt', 'abs', 'pow')) or a.kind == 'ite'


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p.const() is not None:
        c = p.const()
        return P({m: c * d for m, d in q.t.items()})
    if q.const() is not None:
        c = q.const()
        return P({m: c * d for m, d in p.t.items()})
    out = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            r = _mono_mul(m1, m2)
            if isinstance(r, P):
                for m, c in r.t.items():
                    out[m] = out.get(m, 0) + c * c1 * c2
            else:
                out[r] = out.get(r, 0) + c1 * c2
    return P(out)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    sp = False
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    for a, e in d.items():
        if _special(a):
            sp = True
            break
    if not sp:
        return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))
    return norm_mono(d)


def norm_mono(d):
    """Product of atom powers (dict) in normal form, as a polynomial."""
    coef = Fraction(1)
    extra = []          # polynomials still to multiply in
    d = {a: e for a, e in d.items() if e != 0}
    # imaginary unit
    if I_ATOM in d:
        e = d.pop(I_ATOM) % 4
        if e >= 2:
            coef = -coef
        if e % 2:
            d[I_ATOM] = 1
    ex = [(a, e) for a, e in d.items() if a.kind == 'app' and a.args[0] == 'exp']
    if len(ex) > 1 or (ex and ex[0][1] != 1):
        tot = ZERO
        for a, e in ex:
            tot = tot + a.args[1][0] * e
            del d[a]
        extra.append(Exp(tot))
    sq = [(a, e) for a, e in d.items() if a.kind == 'app' and a.args[0] == 'sqrt']
    if len(sq) > 1 or (sq and sq[0][1] != 1):
        odd = []
        for a, e in sq:
            del d[a]
            h, r = divmod(e, 2)
            if h:
                extra.append(ppow(a.args[1][0], h))
            if r:
                odd.append(a.args[1][0])
        if len(odd) == 1:
            d[topoly_atom(mk('app', ('sqrt', (odd[0],)), 'r'))] = 1
        elif odd:
            q = ONE
            for o in odd:
                q = q * o
            extra.append(Sqrt(q))
    for a, e in list(d.items()):
        if a.kind == 'app' and a.args[0] == 'abs' and (e > 1 or e < -1):
            x = a.args[1][0]
            s = 1 if e > 0 else -1
            h, r = divmod(abs(e), 2)
            del d[a]
            if r:
                d[a] = s
            extra.append(ppow(x * conj(x), s * h))
        elif a.kind == 'poly' and e > 0:
            del d[a]
            extra.append(ppow(a.args[0], e))
        elif a.kind == 'ite' and e > 1:
            del d[a]
            extra.append(Ite(a.args[0], ppow(a.args[1], e), ppow(a.args[2], e)))
    # symbolic powers with the same base
    pw = [(a, e) for a, e in d.items() if a.kind == 'app' and a.args[0] == 'pow']
    if pw:
        bases = {}
        for a, e in pw:
            b, n = a.args[1]
            bases.setdefault(b.key, [b, [], False])
            bases[b.key][1].append((a, e, n))
        for b, lst, _ in bases.values():
            ba = the_atom(b)
            k = d.get(ba, 0) if ba is not None else 0
            if len(lst) > 1 or lst[0][1] != 1 or k:
                tot = ZERO
                for a, e, n in lst:
                    tot = tot + n * e
                    del d[a]
                if k:
                    del d[ba]
                    tot = tot + k
                extra.append(Pow(b, tot))
    m = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))
    r = P({m: coef})
    for x in extra:
        r = pmul(r, x)
    return r


def topoly_atom(a):
    return a


def ppow(p, n):
    if isinstance(n, P):
        return Pow(p, n)
    if isinstance(n, Fraction):
        if n.denominator != 1:
            return Pow(p, topoly(n))
        n = int(n)
    if n == 0:
        return ONE
    if n < 0:
        return ppow(pinv(p), -n)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if n == 1:
            return p
        return norm_mono({a: e * n for a, e in m}) * (c ** n)
    r = ONE
    for _ in range(n):
        r = r * p
    return r


class DivByZero(Exception):
    pass


def pinv(p):
    if not p.t:
        raise DivByZero('division by zero')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return norm_mono({a: -e for a, e in m}) * (1 / c)
    # content
    mins = {}
    first = True
    for m in p.t:
        d = dict(m)
        if first:
            mins = dict(d)
            first = False
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a in d:
                if a not in mins:
                    mins[a] = min(0, d[a])
    mins = {a: e for a, e in mins.items() if e != 0 and not (a.kind == 'I')
            and not (a.kind == 'app' and a.args[0] in ('exp', 'pow', 'sqrt', 'abs'))}
    if mins:
        q = ZERO
        for m, c in p.t.items():
            d = dict(m)
            for a, e in mins.items():
                d[a] = d.get(a, 0) - e
            q = q + norm_mono(d) * c
        inv_content = norm_mono({a: -e for a, e in mins.items()})
        if not q.t:
            raise DivByZero('division by zero')
        if any(a.kind == 'poly' for m in q.t for a, e in m if e < 0):
            return inv_content * pinv(q)
        if len(q.t) == 1:
            return inv_content * pinv(q)
        return inv_content * _inv_prim(q)
    return _inv_prim(p)


def _inv_prim(q):
    m0 = min(q.t, key=_mono_key)
    c = q.t[m0]
    q1 = P({m: d / c for m, d in q.t.items()})
    s = sort_of([q1])
    a = mk('poly', (q1,), 'c' if s == 'c' else 'r')
    return P({((a, -1),): 1 / c})


# ---------------------------------------------------------------- functions
def App(f, *args, sort=None):
    args = tuple(topoly(a) if not isinstance(a, (F, str, tuple)) else a for a in args)
    return topoly(mk('app', (f, args), sort or 'r'))


def El(name, *idx, sort='r'):
    return topoly(mk('el', (name, tuple(topoly(i) for i in idx)), sort))


def Exp(x):
    x = topoly(x)
    if not x.t:
        return ONE
    r = ONE
    rest = {}
    for m, c in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'log' \
                and (2 * c).denominator == 1:
            if c.denominator == 1:
                r = r * ppow(m[0][0].args[1][0], int(c))
            else:
                r = r * ppow(Sqrt(m[0][0].args[1][0]), int(2 * c))
        else:
            rest[m] = c
    x = P(rest)
    if not x.t:
        return r
    a = topoly(mk('app', ('exp', (x,)), 'r' if is_real(x) else 'c'))
    return r * a if r.const() != 1 else a


def Log(x):
    x = topoly(x)
    if x.const() == 1:
        return ZERO
    a = the_atom(x)
    if a is not None and a.kind == 'app' and a.args[0] == 'exp' and is_real(a.args[1][0]):
        return a.args[1][0]
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and is_real(x):
            a, e = m[0]
            if a.kind == 'app' and a.args[0] == 'exp':
                return a.args[1][0] * e
            if e == -1:
                return -Log(topoly(a) if a.kind != 'poly' else a.args[0])
    return topoly(mk('app', ('log', (x,)), 'r' if is_real(x) else 'c'))


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def Sqrt(x):
    x = topoly(x)
    c = x.const()
    if c is not None and c >= 0:
        a, b = _isqrt(c.numerator), _isqrt(c.denominator)
        if a is not None and b is not None:
            return topoly(Fraction(a, b))
    # pull a rational square out of the content
    if x.t:
        m0 = min(x.t, key=_mono_key)
        c = abs(x.t[m0])
        n, d = c.numerator, c.denominator
        f = Fraction(1)
        # only perfect squares of the leading coefficient
        a, b = _isqrt(n), _isqrt(d)
        if a is not None and b is not None and c != 1:
            f = Fraction(a, b)
            x = x * (1 / c)
            return topoly(mk('app', ('sqrt', (x,)), 'r' if is_real(x) or conj(x) == x else 'c')) * f
    return topoly(mk('app', ('sqrt', (x,)), 'r' if is_real(x) or conj(x) == x else 'c'))


def Abs(x):
    x = topoly(x)
    c = x.const()
    if c is not None:
        return topoly(abs(c))
    if is_real(x):
        m0 = min(x.t, key=_mono_key)
        k = abs(x.t[m0])
        x = x * (1 / x.t[m0])
        if len(x.t) == 1:
            (m, _), = x.t.items()
            if len(m) == 1 and m[0][0].kind == 'app' and m[0][0].args[0] in ('exp', 'abs', 'sqrt'):
                return x * k
        return topoly(mk('app', ('abs', (x,)), 'r')) * k
    cx = conj(x)
    # abs(z) = abs(conj z) = abs(-z): choose a canonical representative
    cands = [x, cx, -x, -cx]
    x = min(cands, key=lambda p: p.key)
    return topoly(mk('app', ('abs', (x,)), 'r'))


def Pow(b, n):
    b, n = topoly(b), topoly(n)
    c = n.const()
    if c is not None:
        if c.denominator == 1:
            return ppow(b, int(c))
        if (2 * c).denominator == 1:
            return ppow(Sqrt(b), int(2 * c))
    bc = b.const()
    if bc == 1:
        return ONE
    if is_int(n):
        if len(b.t) == 1:
            (m, k), = b.t.items()
            if k != 1 or len(m) != 1 or m[0][1] != 1:
                r = ONE
                if k == -1:
                    r = _powatom(topoly(-1), n)
                elif k != 1:
                    r = _powatom(topoly(abs(k)), n)
                    if k < 0:
                        r = r * _powatom(topoly(-1), n)
                for a, e in m:
                    if a.kind == 'poly':
                        r = r * _powatom(a.args[0], n * e)
                    else:
                        r = r * Pow(topoly(a), n * e)
                return r
            a = m[0][0]
            if a.kind == 'app' and a.args[0] == 'exp':
                return Exp(a.args[1][0] * n)
            if a.kind == 'app' and a.args[0] == 'pow' and is_int(a.args[1][1]):
                return Pow(a.args[1][0], a.args[1][1] * n)
        else:
            # normalise the sign/scale of the base
            m0 = min(b.t, key=_mono_key)
            k = b.t[m0]
            if k != 1:
                return Pow(topoly(k), n) * Pow(b * (1 / k), n)
    return _powatom(b, n)


def _powatom(b, n):
    bc = b.const()
    if bc == 1:
        return ONE
    # split constant part of the exponent: b^(n+2) = b^2 * b^n
    k = n.t.get((), Fraction(0))
    r = ONE
    if bc == -1:
        # parity normal form of the exponent
        t = {}
        for m, c in n.t.items():
            if m == ():
                continue
            if c.denominator == 1:
                c = c % 2
            t[m] = c
        if k.denominator == 1:
            s = -1 if int(k) % 2 else 1
            n = P(t)
            if not n.t:
                return topoly(s)
            return topoly(mk('app', ('pow', (b, n)), 'r')) * s
    return topoly(mk('app', ('pow', (b, n)), 'r' if is_real(b) else 'c'))


def Idiv(a, b):
    a, b = topoly(a), topoly(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        q = abs(ca) // abs(cb)
        return topoly(q if (ca >= 0) == (cb > 0) else -q)
    if cb == 1:
        return a
    if cb is not None and cb > 0:
        # pull out exact multiples: (2x + r) / 2 = x + r/2  (non-negative operands assumed)
        q, r = {}, {}
        for m, c in a.t.items():
            if (c / cb).denominator == 1:
                q[m] = c / cb
            elif m == () and c > 0:
                qq, rr = divmod(c, cb)
                q[m], r[m] = qq, rr
            else:
                r[m] = c
        q, r = P(q), P(r)
        if q.t and any(m != () for m in q.t):
            if not r.t:
                return q
            return q + Idiv(r, b)
        if not r.t:
            return q
    return topoly(mk('app', ('idiv', (a, b)), 'i'))


def Imod(a, b):
    a, b = topoly(a), topoly(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        r = abs(ca) % abs(cb)
        return topoly(r if ca >= 0 else -r)
    if cb is not None and cb > 0:
        t = {m: c for m, c in a.t.items() if (c / cb).denominator != 1}
        r = P(t)
        if not r.t:
            return ZERO
        if r.const() is not None:
            return Imod(r, b)
        a = r
    return topoly(mk('app', ('mod', (a, b)), 'i'))


def conj(p):
    if is_real(p):
        return p
    out = ZERO
    for m, c in p.t.items():
        r = topoly(c)
        for a, e in m:
            r = r * ppow(_conj_atom(a), e)
        out = out + r
    return out


_CONJ = {}


def _conj_atom(a):
    if a.sort != 'c':
        return topoly(a) if a.kind != 'poly' else a.args[0]
    r = _CONJ.get(a.key)
    if r is not None:
        return r
    k = a.kind
    if k == 'I':
        r = -I
    elif k == 'poly':
        r = conj(a.args[0])
    elif k == 'app' and a.args[0] == 'exp':
        r = Exp(conj(a.args[1][0]))
    elif k == 'app' and a.args[0] == 'pow':
        r = Pow(conj(a.args[1][0]), a.args[1][1])
    elif k == 'app' and a.args[0] == 'conj':
        r = a.args[1][0]
    elif k in ('el', 'app') and a.args[0] in HERM:
        ix = a.args[1]
        ix2 = ix[:-2] + (ix[-1], ix[-2])
        r = topoly(mk(k, (a.args[0], ix2), 'c'))
    elif k == 'sum':
        hs, body = a.args
        vs, body = open_binder(a)
        r = Sum(list(zip(vs, hs)), conj(body))
    elif k == 'prod':
        vs, body = open_binder(a)
        r = Prod(vs[0], a.args[0][0], conj(body))
    elif k == 'ite':
        r = Ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    else:
        r = topoly(mk('app', ('conj', (topoly(a),)), 'c'))
    _CONJ[a.key] = r
    return r


def real(p):
    return (p + conj(p)) * HALF


def imag(p):
    return (conj(p) - p) * HALF * I


# ---------------------------------------------------------------- binders
def _bname(lvl, i):
    return 'β%d_%d' % (lvl, i)


def open_binder(a):
    """Fresh variables for the bound ones of a sum/prod/... atom, and the opened body."""
    n = len(a.args[0])
    lvl = a.lvl
    vs = [fresh('t', 'i') for _ in range(n)]
    sub = {_bname(lvl, i): v for i, v in enumerate(vs)}
    body = subst(a.args[1], sub)
    return vs, body


def _close(kind, vs, his, body, sort):
    lvl = max([body.lvl] + [h.lvl for h in his]) + 1
    names = [_bname(lvl, i) for i in range(len(vs))]
    sub = {vname(v): Var(nm, 'i') for v, nm in zip(vs, names)}
    b2 = subst(body, sub)
    fv = (b2.fv - set(names))
    for h in his:
        fv |= h.fv
    return mk(kind, (tuple(his), b2), sort, fv, lvl)


def vname(v):
    return the_atom(v).args[0]


def Sum(binders, body):
    """Sum over all binders (var, hi) with 0 <= var < hi (hi may not depend on other
    binders of the same call unless they are nested: use nested calls)."""
    body = topoly(body)
    binders = [(v, topoly(h)) for v, h in binders]
    # nested dependency: split off inner binders whose range depends on outer ones
    names = [vname(v) for v, h in binders]
    if any(set(names) & h.fv for v, h in binders):
        v, h = binders[-1]
        return Sum(binders[:-1], Sum([(v, h)], body))
    out = ZERO
    for m, c in body.t.items():
        out = out + _sum_mono(binders, m) * c
    return out


def _split_expo(a, names):
    """exp(x+y) and pow(b, x+y) as separate factors when x and y have no bound variable in common."""
    if a.kind != 'app' or a.args[0] not in ('exp', 'pow'):
        return [a]
    x = a.args[1][-1]
    if a.args[0] == 'pow' and (a.args[1][0].fv & names or not is_int(x)):
        return [a]
    groups = []
    for m, c in x.t.items():
        vs = {n for b, e in m for n in b.fv} & names
        ms = {m: c}
        for g in [g for g in groups if g[0] & vs or not (g[0] or vs)]:
            groups.remove(g)
            vs |= g[0]
            ms.update(g[1])
        groups.append((vs, ms))
    if len(groups) < 2:
        return [a]
    out = []
    for vs, ms in groups:
        y = Exp(P(ms)) if a.args[0] == 'exp' else Pow(a.args[1][0], P(ms))
        if len(y.t) != 1:
            return [a]
        (m, c), = y.t.items()
        if c != 1 or any(e != 1 for b, e in m):
            return [a]
        out.extend(b for b, e in m)
    return out


def _sum_mono(binders, m):
    # expand nested sums that depend on the bound variables
    names = {vname(v): (v, h) for v, h in binders}
    free, dep = [], []
    for a, e in m:
        if a.fv & names.keys():
            dep.append((a, e))
        else:
            free.append((a, e))
    pref = norm_mono(dict(free)) if free else ONE
    # constant ranges are expanded
    newdep = []
    for a, e in dep:
        if a.kind == 'sum' and e > 0 and e <= 3:
            for _ in range(e):
                vs, b = open_binder(a)
                hs = a.args[0]
                if any(names.keys() & h.fv for h in hs):
                    newdep.append((a, 1))      # dependent range: keep nested
                    continue
                for v, h in zip(vs, hs):
                    names[vname(v)] = (v, h)
                (bm, bc), = b.t.items()
                assert bc == 1
                newdep.extend(bm)
        else:
            newdep.append((a, e))
    d = {}
    for a, e in newdep:
        d[a] = d.get(a, 0) + e
    prod = norm_mono(d) if d else ONE
    if len(prod.t) != 1 or any(a.kind == 'sum' and not (set().union(*[h.fv for h in a.args[0]]) & names.keys())
                               and (a.fv & names.keys()) for mm in prod.t for a, e in mm):
        r = ZERO
        for mm, cc in prod.t.items():
            r = r + _sum_mono(list(names.values()), mm) * cc
        return pref * r
    (pm, pc), = prod.t.items()
    # connected components of bound variables
    used = set()
    comps = []
    atoms = {}
    for a, e in pm:
        for x in _split_expo(a, names.keys()):
            atoms[x] = atoms.get(x, 0) + e
    atoms = [(a, e) for a, e in atoms.items() if e]
    frees = [(a, e) for a, e in atoms if not (a.fv & names.keys())]
    remaining = [(a, e) for a, e in atoms if a.fv & names.keys()]
    result = pref * pc * (norm_mono(dict(frees)) if frees else ONE)
    todo = set(names)
    while todo:
        v0 = sorted(todo)[0]
        comp = {v0}
        cat = []
        changed = True
        while changed:
            changed = False
            for ae in list(remaining):
                if ae[0].fv & comp:
                    cat.append(ae)
                    remaining.remove(ae)
                    nv = (ae[0].fv & names.keys()) - comp
                    if nv:
                        comp |= nv
                    changed = True
        todo -= comp
        if not cat:
            result = result * names[v0][1]
        else:
            result = result * _sum_comp([names[n] for n in sorted(comp)], cat)
    return result


def _sum_comp(binders, atoms):
    body = norm_mono(dict(atoms))
    sort = 'c' if not is_real(body) else 'r'
    # concrete small ranges
    for k, (v, h) in enumerate(binders):
        c = h.const()
        if c is not None and c <= 12:
            rest = binders[:k] + binders[k + 1:]
            r = ZERO
            for i in range(int(max(c, 0))):
                b = subst(body, {vname(v): topoly(i)})
                r = r + (Sum(rest, b) if rest else b)
            return r
    # delta / range splitting on conditionals
    for a, e in atoms:
        if a.kind == 'ite' and a.fv & {vname(v) for v, h in binders}:
            r = _split_ite(binders, body, a)
            if r is not None:
                return r
    if len(body.t) != 1:
        return Sum(binders, body)
    best = None
    if len(binders) <= 4:
        perms = itertools.permutations(binders)
    else:
        perms = [binders]
    for perm in perms:
        at = _close('sum', [v for v, h in perm], [h for v, h in perm], body, sort)
        if best is None or at.key < best.key:
            best = at
    return topoly(best)


def _split_ite(binders, body, a):
    """Sum_v f(ite(v = e, x, y)) with a single binder and an equality on it."""
    cond = a.args[0]
    for v, h in binders:
        n = vname(v)
        if cond.kind == 'eq':
            p = cond.args[0]
            sol = solve_linear(p, n)
            if sol is not None and not (sol.fv & {vname(w) for w, _ in binders}):
                f_eq = subst(replace_atom(body, a, a.args[1]), {n: sol})
                f_ne = replace_atom(body, a, a.args[2])
                g = subst(replace_atom(body, a, a.args[1]) - f_ne, {n: sol})
                rest = [(w, k) for w, k in binders if vname(w) != n]
                inr = And(le(0, sol), lt(sol, h))
                g = Ite(inr, g, ZERO)
                base = Sum(binders, f_ne)
                return base + (Sum(rest, g) if rest else g)
    return None


def solve_linear(p, n):
    """x with p = 0 when p is linear in integer variable n with coefficient +-1."""
    c = None
    rest = {}
    for m, k in p.t.items():
        if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == n and m[0][1] == 1:
            c = k
        elif any(n in a.fv for a, e in m):
            return None
        else:
            rest[m] = k
    if c not in (1, -1):
        return None
    return P(rest) * (-1 / c)


def SumR(lo, hi, f):
    """Sum of f(j) for lo <= j < hi."""
    lo, hi = topoly(lo), topoly(hi)
    v = fresh('t', 'i')
    return Sum([(v, hi - lo)], f(v + lo))


def Prod(v, hi, body):
    hi, body = topoly(hi), topoly(body)
    n = vname(v)
    if n not in body.fv:
        return Pow(body, hi)
    c = hi.const()
    if c is not None and c <= 12:
        r = ONE
        for i in range(int(max(c, 0))):
            r = r * subst(body, {n: topoly(i)})
        return r
    if len(body.t) == 1:
        (m, k), = body.t.items()
        if k != 1 or len(m) != 1 or m[0][1] != 1:
            r = Pow(topoly(k), hi)
            for a, e in m:
                q = topoly(a) if a.kind != 'poly' else a.args[0]
                r = r * ppow(Prod(v, hi, q), e)
            return r
        a = m[0][0]
        if a.kind == 'app' and a.args[0] == 'exp':
            return Exp(Sum([(v, hi)], a.args[1][0]))
    at = _close('prod', [v], [hi], body, 'c' if not is_real(body) else 'r')
    return topoly(at)


def ProdR(lo, hi, f):
    lo, hi = topoly(lo), topoly(hi)
    v = fresh('t', 'i')
    return Prod(v, hi - lo, f(v + lo))


def Count(v, hi, cond):
    if cond.kind == 'T':
        return topoly(hi)
    if cond.kind == 'F':
        return ZERO
    at = _close('count', [v], [topoly(hi)], cond, 'i')
    return topoly(at)


def MinOver(v, hi, body):
    """min of body over 0 <= v < hi (only compared, never evaluated when empty)."""
    at = _close('minover', [v], [topoly(hi)], topoly(body), 'r')
    return topoly(at)


def MaxOver(v, hi, body):
    at = _close('maxover', [v], [topoly(hi)], topoly(body), 'r')
    return topoly(at)


def Min2(a, b):
    """The smaller of two reals, either of which may be a minimum over an empty range (infinite)."""
    a, b = topoly(a), topoly(b)
    return a if a == b else topoly(mk('app', ('min2', (a, b)), 'r'))


def Max2(a, b):
    a, b = topoly(a), topoly(b)
    return a if a == b else topoly(mk('app', ('max2', (a, b)), 'r'))


def has_min(p):
    """Does a minimum or maximum occur at the top of p?"""
    return any(a.kind in ('minover', 'maxover') or a.kind == 'app' and a.args[0] in ('min2', 'max2')
               for m in p.t for a, e in m)


# ---------------------------------------------------------------- formulas
_FI = {}


def mkf(kind, args, fv=None, lvl=None):
    key = _short(kind + _arg_key(args))
    f = _FI.get(key)
    if f is None:
        f = F()
        f.kind, f.args, f.key = kind, args, key
        f.fv = _arg_fv(args) if fv is None else fv
        f.lvl = _arg_lvl(args) if lvl is None else lvl
        _FI[key] = f
    return f


TRUE = mkf('T', ())
FALSE = mkf('F', ())


def tof(x):
    if isinstance(x, F):
        return x
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, P):
        return ne(x, 0)
    raise Unsupported('not a formula: %r' % (x,))


def _norm_cmp(p, sign_ok):
    m0 = min((m for m in p.t if m != ()), key=_mono_key)
    c = p.t[m0]
    if not sign_ok:
        c = abs(c)
    if is_int(p):
        from math import gcd
        g = 0
        for m, k in p.t.items():
            if m != ():
                g = gcd(g, abs(int(k)))
        if sign_ok and c < 0:
            g = -g
        return p * Fraction(1, g), g
    return p * (1 / c), c


def _posmono(p):
    """A monomial that is certainly positive (exp, squares)?"""
    return False


def lt(a, b):
    """a < b"""
    p = topoly(a) - topoly(b)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if is_int(p):
        return le(p + 1, 0)
    h = _cmp_special('lt', p)
    if h is not None:
        return h
    p, _ = _norm_cmp(p, False)
    return mkf('lt', (p,))


def le(a, b):
    p = topoly(a) - topoly(b)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if is_int(p):
        p, g = _norm_cmp(p, False)
        k = p.t.get((), Fraction(0))
        if k.denominator != 1:        # divided by content: tighten
            import math
            t = dict(p.t)
            t[()] = Fraction(math.ceil(k))
            p = P(t)
    else:
        h = _cmp_special('le', p)
        if h is not None:
            return h
        p, _ = _norm_cmp(p, False)
    return mkf('le', (p,))


def _cmp_special(op, p):
    """Comparisons with a minimum/maximum over a range become quantified."""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('minover', 'maxover') and is_real(p):
            a = m[0][0]
            if any(b is a for mm in p.t if mm != m for b, e in mm):
                continue
            rest = P({mm: cc for mm, cc in p.t.items() if mm != m}) * (1 / c)
            vs, body = open_binder(a)
            h = a.args[0][0]
            cmpf = lt if op == 'lt' else le
            # c*X + c*rest < 0
            if c > 0:       # X < -rest
                f = cmpf(body + rest, 0)
                exists = (a.kind == 'minover')
            else:           # X > -rest
                f = cmpf(-(body + rest), 0)
                exists = (a.kind == 'maxover')
            return (Exists if exists else Forall)(vs[0], h, f)
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] in ('min2', 'max2') and is_real(p):
            a = m[0][0]
            if any(b is a for mm in p.t if mm != m for b, e in mm):
                continue
            rest = P({mm: cc for mm, cc in p.t.items() if mm != m})
            cmpf = lt if op == 'lt' else le
            fs = [cmpf(x * c + rest, 0) for x in a.args[1]]
            return (Or if (c > 0) == (a.args[0] == 'min2') else And)(*fs)
    return None


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    p = topoly(a) - topoly(b)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    for m, k in p.t.items():      # count(cond) == hi   <=>   forall
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'count' and k in (1, -1):
            a0 = m[0][0]
            rest = P({mm: cc for mm, cc in p.t.items() if mm != m}) * (-1 / k)
            if rest == a0.args[0][0]:
                vs, body = open_binder(a0)
                return Forall(vs[0], rest, body)
            if rest.iszero():
                vs, body = open_binder(a0)
                return Forall(vs[0], a0.args[0][0], Not(body))
    mm_ = [a0 for m in p.t for a0, e0 in m if a0.kind in ('minover', 'maxover')]
    if len(mm_) == 1:
        x, z = _cmp_special('le', p), _cmp_special('le', -p)
        if x is not None and z is not None:
            return And(x, z)
    p, _ = _norm_cmp(p, True)
    if is_int(p) is False and all(a.sort == 'i' for m in p.t for a, e in m) and is_real(p):
        if any(k.denominator != 1 for m, k in p.t.items() if m == ()) and \
                all(k.denominator == 1 for m, k in p.t.items() if m != ()):
            return FALSE
    return mkf('eq', (p,))


def ne(a, b):
    return Not(eq(a, b))


def Not(f):
    f = tof(f)
    k = f.kind
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'not':
        return f.args[0]
    if k == 'lt':
        return le(-f.args[0], 0)
    if k == 'le':
        return lt(-f.args[0], 0)
    if k == 'and':
        return Or(*[Not(x) for x in f.args])
    if k == 'or':
        return And(*[Not(x) for x in f.args])
    if k in ('all', 'ex'):
        vs, body = open_f(f)
        return (Exists if k == 'all' else Forall)(vs[0], f.args[0][0], Not(body))
    return mkf('not', (f,))


def And(*fs):
    out = []
    for f in fs:
        f = tof(f)
        if f.kind == 'F':
            return FALSE
        if f.kind == 'T':
            continue
        for g in (f.args if f.kind == 'and' else (f,)):
            if g not in out:
                out.append(g)
    for g in out:
        if Not(g) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda g: g.key)
    return mkf('and', tuple(out))


def Or(*fs):
    out = []
    for f in fs:
        f = tof(f)
        if f.kind == 'T':
            return TRUE
        if f.kind == 'F':
            continue
        for g in (f.args if f.kind == 'or' else (f,)):
            if g not in out:
                out.append(g)
    for g in out:
        if g.kind not in ('and', 'or') and Not(g) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda g: g.key)
    return mkf('or', tuple(out))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = tof(a), tof(b)
    if a == b:
        return TRUE
    return And(Implies(a, b), Implies(b, a))


def _quant(kind, v, hi, body):
    hi, body = topoly(hi), tof(body)
    n = vname(v)
    if body.kind in ('T', 'F') :
        if (kind == 'all') == (body.kind == 'T'):
            return body
        # empty range matters
        return le(hi, 0) if kind == 'all' else gt(hi, 0)
    c = hi.const()
    if c is not None and c <= 12:
        fs = [subst(body, {n: topoly(i)}) for i in range(int(max(c, 0)))]
        return And(*fs) if kind == 'all' else Or(*fs)
    if n not in body.fv:
        return Or(le(hi, 0), body) if kind == 'all' else And(gt(hi, 0), body)
    if kind == 'all' and body.kind == 'and':
        return And(*[_quant(kind, v, hi, b) for b in body.args])
    if kind == 'ex' and body.kind == 'or':
        return Or(*[_quant(kind, v, hi, b) for b in body.args])
    lvl = max(body.lvl, hi.lvl) + 1
    nm = _bname(lvl, 0)
    b2 = subst(body, {n: Var(nm, 'i')})
    return mkf(kind, ((hi,), b2), (b2.fv - {nm}) | hi.fv, lvl)


def Forall(v, hi, body):
    return _quant('all', v, hi, body)


def Exists(v, hi, body):
    return _quant('ex', v, hi, body)


def ForallR(lo, hi, f):
    lo, hi = topoly(lo), topoly(hi)
    v = fresh('t', 'i')
    return Forall(v, hi - lo, f(v + lo))


def open_f(f):
    v = fresh('t', 'i')
    return [v], subst(f.args[1], {_bname(f.lvl, 0): v})


def Pred(name, *args):
    return mkf('pred', (name, tuple(topoly(a) if not isinstance(a, (F, str, tuple)) else a for a in args)))


def Ite(c, a, b):
    c = tof(c)
    if isinstance(a, F) or isinstance(b, F) or isinstance(a, bool) or isinstance(b, bool):
        a, b = tof(a), tof(b)
        return And(Or(Not(c), a), Or(c, b))
    a, b = topoly(a), topoly(b)
    if c.kind == 'T':
        return a
    if c.kind == 'F':
        return b
    if a == b:
        return a
    if c.kind == 'not':
        return Ite(c.args[0], b, a)
    n = Not(c)
    if n.key < c.key and n.kind != 'not':
        c, a, b = n, b, a
    # common additive part stays outside
    return topoly(mk('ite', (c, a, b), sort_of([a, b])))


def Min(a, b):
    return Ite(le(a, b), a, b)


def Max(a, b):
    return Ite(ge(a, b), a, b)


# ---------------------------------------------------------------- substitution
def subst(x, sub):
    """Replace free variables by name."""
    if not sub:
        return x
    return _subst(x, sub, {})


def _subst(x, sub, memo):
    if isinstance(x, (P, F)):
        if not (x.fv & sub.keys()):
            return x
        r = memo.get(x.key)
        if r is None:
            r = _subst_p(x, sub, memo) if isinstance(x, P) else _subst_f(x, sub, memo)
            memo[x.key] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst(y, sub, memo) for y in x)
    return x


def _subst_p(p, sub, memo):
    out = ZERO
    plain = {}
    for m, c in p.t.items():
        if not any(a.fv & sub.keys() for a, e in m):
            plain[m] = c
            continue
        r = topoly(c)
        for a, e in m:
            if a.fv & sub.keys():
                r = r * ppow(_subst_atom(a, sub, memo), e)
            else:
                r = r * P({((a, e),): Fraction(1)})
        out = out + r
    return out + P(plain) if plain else out


def _subst_atom(a, sub, memo):
    key = 'A' + a.key
    r = memo.get(key)
    if r is not None:
        return r
    k = a.kind
    if k == 'var':
        r = topoly(sub.get(a.args[0], topoly(a)))
    else:
        r = rebuild(a, lambda y: _subst(y, sub, memo))
    memo[key] = r
    return r


def rebuild(a, f):
    """Rebuild an atom through its constructor with f applied to its children."""
    k = a.kind
    if k == 'el':
        return topoly(mk('el', (a.args[0], tuple(f(x) for x in a.args[1])), a.sort))
    if k == 'app':
        fn, args = a.args
        args = tuple(f(x) for x in args)
        return mk_app(fn, args, a.sort)
    if k in ('sum', 'prod', 'count', 'minover', 'maxover'):
        vs, body = open_binder(a)
        hs = [f(h) for h in a.args[0]]
        body = f(body)
        if k == 'sum':
            return Sum(list(zip(vs, hs)), body)
        if k == 'prod':
            return Prod(vs[0], hs[0], body)
        if k == 'count':
            return Count(vs[0], hs[0], body)
        if k == 'minover':
            return MinOver(vs[0], hs[0], body)
        return MaxOver(vs[0], hs[0], body)
    if k == 'ite':
        c = f(a.args[0])
        if c.kind in ('T', 'F'):
            return topoly(f(a.args[1 if c.kind == 'T' else 2]))
        return Ite(c, f(a.args[1]), f(a.args[2]))
    if k == 'poly':
        return f(a.args[0])
    return topoly(a)


def mk_app(fn, args, sort):
    if fn == 'exp':
        return Exp(args[0])
    if fn == 'log':
        return Log(args[0])
    if fn == 'sqrt':
        return Sqrt(args[0])
    if fn == 'abs':
        return Abs(args[0])
    if fn == 'pow':
        return Pow(*args)
    if fn == 'min2':
        return Min2(*args)
    if fn == 'max2':
        return Max2(*args)
    if fn == 'idiv':
        return Idiv(*args)
    if fn == 'mod':
        return Imod(*args)
    if fn == 'conj':
        return conj(args[0])
    return topoly(mk('app', (fn, args), sort))


def _subst_f(f, sub, memo):
    return rebuild_f(f, lambda y: _subst(y, sub, memo))


def rebuild_f(f, g):
    k = f.kind
    if k in ('T', 'F'):
        return f
    if k == 'lt':
        return lt(g(f.args[0]), 0)
    if k == 'le':
        return le(g(f.args[0]), 0)
    if k == 'eq':
        return eq(g(f.args[0]), 0)
    if k == 'not':
        return Not(g(f.args[0]))
    if k == 'and':
        return And(*[g(x) for x in f.args])
    if k == 'or':
        return Or(*[g(x) for x in f.args])
    if k in ('all', 'ex'):
        vs, body = open_f(f)
        return _quant(k, vs[0], g(f.args[0][0]), g(body))
    if k == 'pred':
        return mkf('pred', (f.args[0], tuple(g(x) if not isinstance(x, str) else x for x in f.args[1])))
    raise Unsupported(k)


def replace_atom(x, atom, val):
    """Replace every occurrence of an atom (also nested) by a polynomial."""
    memo = {}

    def go(y):
        if isinstance(y, (P, F)):
            r = memo.get(y.key)
            if r is None:
                if isinstance(y, P):
                    r = goP(y)
                else:
                    r = rebuild_f(y, go)
                memo[y.key] = r
            return r
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y

    def goP(p):
        out = ZERO
        for m, c in p.t.items():
            r = topoly(c)
            for a, e in m:
                if a is atom:
                    r = r * ppow(topoly(val), e)
                elif a.kind in ('var', 'I'):
                    r = r * P({((a, e),): Fraction(1)})
                else:
                    r = r * ppow(rebuild(a, go), e)
            out = out + r
        return out
    return go(x)


def map_atoms(x, fn):
    """Bottom-up rewrite: fn(atom) -> P or None, applied after children are rewritten."""
    memo = {}

    def go(y):
        if isinstance(y, (P, F)):
            r = memo.get(y.key)
            if r is None:
                r = goP(y) if isinstance(y, P) else rebuild_f(y, go)
                memo[y.key] = r
            return r
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y

    def goP(p):
        out = ZERO
        for m, c in p.t.items():
            r = topoly(c)
            for a, e in m:
                k = memo.get('A' + a.key)
                if k is None:
                    q = topoly(a) if a.kind in ('var', 'I') else rebuild(a, go)
                    at = the_atom(q)
                    if at is not None:
                        z = fn(at)
                        k = q if z is None else topoly(z)
                    else:
                        k = q
                    memo['A' + a.key] = k
                r = r * ppow(k, e)
            out = out + r
        return out
    return go(x)


def all_atoms(x, acc=None, into_binders=True):
    """All atoms occurring in a term/formula, nested ones included."""
    if acc is None:
        acc = {}
    if isinstance(x, P):
        for m in x.t:
            for a, e in m:
                if a.key not in acc:
                    acc[a.key] = a
                    for y in a.args:
                        if a.kind in ('sum', 'prod', 'count', 'minover', 'maxover') and not into_binders:
                            continue
                        all_atoms(y, acc, into_binders)
    elif isinstance(x, F):
        for y in x.args:
            if x.kind in ('all', 'ex') and not into_binders:
                continue
            all_atoms(y, acc, into_binders)
    elif isinstance(x, tuple):
        for y in x:
            all_atoms(y, acc, into_binders)
    return acc


# ---------------------------------------------------------------- printing
def show(p, depth=0):
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return '0'
    out = []
    for m in sorted(p.t, key=_mono_key):
        c = p.t[m]
        s = '*'.join(show_atom(a, depth + 1) + ('^%d' % e if e != 1 else '') for a, e in m)
        if m == ():
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(a, depth=0):
    if depth > 12:
        return '...'
    k = a.kind
    if k == 'var':
        return a.args[0]
    if k == 'I':
        return 'I'
    if k == 'el':
        return '%s[%s]' % (a.args[0], ', '.join(show(x, depth) for x in a.args[1]))
    if k == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(show(x, depth) if isinstance(x, P) else str(x) for x in a.args[1]))
    if k in ('sum', 'prod', 'minover', 'maxover'):
        n = len(a.args[0])
        return '%s{%s}(%s)' % (k, ', '.join('%s<%s' % (_bname(a.lvl, i), show(a.args[0][i], depth)) for i in range(n)),
                               show(a.args[1], depth))
    if k == 'count':
        return 'count{%s<%s}(%s)' % (_bname(a.lvl, 0), show(a.args[0][0], depth), show_f(a.args[1]))
    if k == 'ite':
        return 'ite(%s, %s, %s)' % (show_f(a.args[0]), show(a.args[1], depth), show(a.args[2], depth))
    if k == 'poly':
        return '(%s)' % show(a.args[0], depth)
    return a.key


def show_f(f):
    k = f.kind
    if k == 'T':
        return 'true'
    if k == 'F':
        return 'false'
    if k in ('lt', 'le', 'eq'):
        return '%s %s 0' % (show(f.args[0]), {'lt': '<', 'le': '<=', 'eq': '='}[k])
    if k == 'not':
        return 'not(%s)' % show_f(f.args[0])
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(show_f(x) for x in f.args) + ')'
    if k in ('all', 'ex'):
        return '(%s %s<%s. %s)' % ({'all': 'forall', 'ex': 'exists'}[k], _bname(f.lvl, 0), show(f.args[0][0]),
                                   show_f(f.args[1]))
    if k == 'pred':
        return '%s(%s)' % (f.args[0], ', '.join(show(x) if isinstance(x, P) else str(x) for x in f.args[1]))
    return k
