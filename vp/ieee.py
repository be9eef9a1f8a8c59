"""Infinities and NaN of IEEE arithmetic, next to exact reals. A value is a real term or one of INF, NINF, NAN."""
from .terms import *
from .sym import Opaque, Unsupported

INF, NINF, NAN = (Opaque('ieee', k) for k in ('inf', '-inf', 'nan'))
KINDS = {'inf': INF, '-inf': NINF, 'nan': NAN}


def special(x):
    return isinstance(x, Opaque) and x.k == 'ieee'


def kind(x):
    return x.d[0] if special(x) else None


def sign(c, x):
    """-1, 0 or 1; splits the path when the conditions leave it open."""
    if special(x):
        return {'inf': 1, '-inf': -1}[kind(x)]
    if not (isinstance(x, P) and is_real(x)):
        raise Unsupported('infinity times %r' % (x,))
    if c.branch(lt(0, x)):
        return 1
    return 0 if c.branch(eq(x, 0)) else -1


def inf(s):
    return NAN if s == 0 else INF if s > 0 else NINF


def neg(x):
    return {'inf': NINF, '-inf': INF, 'nan': NAN}[kind(x)]


def less(a, b):
    """a < b where at least one is not finite."""
    ka, kb = kind(a), kind(b)
    if 'nan' in (ka, kb):
        return False
    lo = {'-inf': 0, None: 1, 'inf': 2}
    return lo[ka] < lo[kb]


def binop(c, op, a, b):
    """a op b where at least one is not finite."""
    c.used_lib.add('IEEE arithmetic of infinities and NaN')
    ka, kb = kind(a), kind(b)
    nan = 'nan' in (ka, kb)
    if op == '<':
        return tofb(less(a, b))
    if op == '>':
        return tofb(less(b, a))
    if op == '<=':
        return tofb(not nan and (less(a, b) or ka == kb))
    if op == '>=':
        return tofb(not nan and (less(b, a) or ka == kb))
    if op == '==':
        return tofb(not nan and ka == kb)
    if op == '!=':
        return tofb(nan or ka != kb)
    if nan:
        return NAN
    if op == '-':
        return neg(b) if ka is None else a if kb is None else binop(c, '+', a, neg(b))
    if op == '+':
        return NAN if ka and kb and ka != kb else a if ka else b
    if op == '*':
        return inf(sign(c, a) * sign(c, b))
    if op == '/':
        if ka and kb:
            return NAN
        if kb:
            return ZERO
        return inf(sign(c, a) * (sign(c, b) or 1))
    raise Unsupported('operator %s on infinities' % op)


def tofb(b):
    return TRUE if b else FALSE


def unary(f, x):
    """exp, log, sqrt, abs of a value that is not finite."""
    k = kind(x)
    if k == 'nan':
        return NAN
    return {'exp': {'inf': INF, '-inf': ZERO}, 'log': {'inf': INF, '-inf': NAN},
            'sqrt': {'inf': INF, '-inf': NAN}, 'abs': {'inf': INF, '-inf': INF}}[f][k]


def std_min(a, b):
    return b if less(b, a) else a


def std_max(a, b):
    return b if less(a, b) else a
