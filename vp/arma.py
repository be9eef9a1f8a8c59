"""Contracts of the libraries (Armadillo, standard library, Boost.Random) used by the code.

These are assumed (trusted) and listed in the evidence of the checks that use them.
"""
from .terms import *
from . import terms as T
from .sym import Arr, Opaque, Ref, Struct, ObjV, Log, same, _join, ite_val
from .logic import prove, resolve_ites
from . import ieee


def arr_key(a):
    ix = [Var('ι%d' % i, 'i') for i in range(len(a.dims))]
    for n, d in enumerate(a.dims):
        if d == 1:
            ix[n] = ZERO
    v = a.get(*ix)
    return '%s|%s' % (','.join(d.key for d in a.dims), v.key)


def _within(x, k, n):
    """x with the conditionals resolved that 0 <= k < n decides."""
    if any(a.kind == 'ite' for a in all_atoms(x, into_binders=False).values()):
        return resolve_ites(x, [le(0, k), lt(k, n)])
    return x


class Lib(object):
    def __init__(self, ctx):
        self.c = ctx

    def used(self, name):
        self.c.used_lib.add(name)

    def trunc(self, v):
        c = v.const()
        if c is not None:
            return topoly(int(c))
        if is_int(v):
            return v
        self.used('floating to integer conversion')
        return App('trunc', v, sort='i')

    # ---------------------------------------------------------------- helpers
    def v(self, x):
        return self.c.val(x)

    def bounds(self, arr, *ix):
        if self.c.quiet:
            return
        dims = arr.dims
        if len(ix) == 1:
            dims = (arr.n(),)
        g = And(*[And(le(0, i), lt(i, d)) for i, d in zip(ix, dims)])
        self.c.oblig('index in range in %s' % self.c.fn, g, 'bounds')

    def matmul(self, a, b):
        self.used('matrix product')
        n = a.dims[1]
        es = _join(a.es, b.es)
        if n == 1:
            f = lambda ix: a.get(ix[0], ZERO) * b.get(ZERO, ix[1])
        else:
            f = lambda ix: SumR(0, n, lambda k: _within(a.get(ix[0], k) * b.get(k, ix[1]), k, n))
        r, c = a.dims[0], b.dims[1]
        kind = 'mat'
        if c == 1:
            kind = 'col'
        elif r == 1:
            kind = 'row'
        if not self.c.quiet:
            if a.dims[1] != b.dims[0]:
                self.c.oblig('matrix product sizes agree in %s' % self.c.fn, eq(a.dims[1], b.dims[0]), 'bounds')
        return Arr(kind, es, (r, c), f)

    def transpose(self, a, cj):
        k = {'col': 'row', 'row': 'col', 'mat': 'mat'}[a.kind]
        return Arr(k, a.es, (a.dims[1], a.dims[0]),
                   (lambda ix: conj(a.get(ix[1], ix[0]))) if cj and a.es == 'c' else (lambda ix: a.get(ix[1], ix[0])))

    def elementwise(self, f, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if not self.c.quiet and not all(x == y for x, y in zip(a.dims, b.dims)):
                self.c.oblig('vector sizes agree in %s' % self.c.fn,
                             And(*[eq(x, y) for x, y in zip(a.dims, b.dims)]), 'bounds')
            return Arr(a.kind, _join(a.es, b.es), a.dims, lambda ix: f(a.get(*ix), b.get(*ix)))
        if isinstance(a, Arr):
            es = a.es if is_real(b) else 'c'
            return Arr(a.kind, es, a.dims, lambda ix: f(a.get(*ix), b))
        es = b.es if is_real(a) else 'c'
        return Arr(b.kind, es, b.dims, lambda ix: f(a, b.get(*ix)))

    # ---------------------------------------------------------------- operators
    def operator(self, op, n, args):
        c = self.c
        if op in ('operator()', 'operator[]'):
            return self.index(args, n)
        if op == 'operator->' or (op == 'operator*' and len(args) == 1):
            v = self.v(args[0])
            if isinstance(v, Opaque) and v.k == 'iter':
                return Ref(v.d[0].loc, v.d[0].path + (('el', v.d[1]),))
            return v
        if op == 'operator=':
            v = self.v(args[1])
            r = args[0]
            if not isinstance(r, Ref):
                raise Unsupported('assignment target')
            if r.path and r.path[-1][0] == 'el':
                c.assign(r, v)
                return r
            from .cxx import parse_type, tstr
            t = parse_type(tstr(n['inner'][1]))
            if t[0] in ('arma', 'svec') and not r.path:
                v = c.conv(v, t)
            c.assign(r, v)
            return r
        if op in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%='):
            a, b = self.v(args[0]), self.v(args[1])
            if isinstance(a, Opaque) and a.k == 'iter':
                c.assign(args[0], Opaque('iter', a.d[0], a.d[1] + (b if op == 'operator+=' else -b)))
                return args[0]
            r = self.arith(op[8:-1], a, b)
            if isinstance(a, Arr) and isinstance(r, Arr) and r.kind != a.kind:
                r = Arr(a.kind, r.es, r.dims, lambda ix, r=r: r.get(*ix))
            c.assign(args[0], r)
            return args[0]
        if op in ('operator++', 'operator--'):
            a = self.v(args[0])
            if isinstance(a, Opaque) and a.k == 'iter':
                nv = Opaque('iter', a.d[0], a.d[1] + (1 if op == 'operator++' else -1))
                c.assign(args[0], nv)
                return nv
            return args[0]
        if len(args) == 1:
            a = self.v(args[0])
            if op == 'operator-':
                return a.map(lambda x: -x) if isinstance(a, Arr) else -a
            if op == 'operator+':
                return a
            if op == 'operator!':
                return Not(a)
        a, b = self.v(args[0]), self.v(args[1])
        return self.arith(op[8:], a, b)

    def arith(self, op, a, b):
        c = self.c
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.k == b.k == 'iter':
                if op == '!=':
                    return ne(a.d[1], b.d[1])
                if op == '==':
                    return eq(a.d[1], b.d[1])
                if op == '<':
                    return lt(a.d[1], b.d[1])
                if op == '-':
                    return a.d[1] - b.d[1]
            if isinstance(a, Opaque) and a.k == 'iter' and isinstance(b, P):
                return Opaque('iter', a.d[0], a.d[1] + (b if op == '+' else -b))
            if op == '+':
                return Opaque('str', '?')
            if op in ('==', '!='):
                return c.binop(op, a, b)
            raise Unsupported('operator %s on %r %r' % (op, a, b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op == '+':
                return self.elementwise(lambda x, y: x + y, a, b)
            if op == '-':
                return self.elementwise(lambda x, y: x - y, a, b)
            if op == '%':
                return self.elementwise(lambda x, y: x * y, a, b)
            if op == '*':
                if isinstance(a, Arr) and isinstance(b, Arr):
                    return self.matmul(a, b)
                return self.elementwise(lambda x, y: x * y, a, b)
            if op == '/':
                return self.elementwise(lambda x, y: c.div(x, y), a, b)
            cmpf = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}.get(op)
            if cmpf:
                r = self.elementwise(cmpf, a, b)
                r.es = 'b'
                return r
            raise Unsupported('operator ' + op)
        return c.binop(op, a, b)

    def index(self, args, n):
        c = self.c
        base = args[0]
        v = self.v(base)
        if isinstance(v, Opaque) and v.k in ('dist', ):
            return self.draw(base, v)
        if isinstance(v, Opaque) and 'distribution' in v.k:
            return self.draw(base, v)
        if isinstance(v, Opaque) and v.k in ('seq', 'map'):
            return self.seq_index(base, v, self.v(args[1]))
        if isinstance(v, Opaque):
            h = c.contracts.get('index:' + v.k)
            if h:
                return h(c, base, v, [self.v(a) for a in args[1:]])
            raise Unsupported('index into %r' % (v,))
        if isinstance(v, tuple):
            i = self.v(args[1])
            if i.const() is None:
                raise Unsupported('symbolic index into object list')
            return v[int(i.const())]
        if not isinstance(v, Arr):
            raise Unsupported('call operator on %r' % (v,))
        ix = [self.v(a) for a in args[1:]]

        def path(sel):
            if isinstance(base, Ref):
                return Ref(base.loc, base.path + (sel,))
            return c.sel(v, sel)
        if all(isinstance(i, P) for i in ix):
            self.bounds(v, *ix)
            return path(('el',) + tuple(ix))
        if len(ix) == 1:
            i = ix[0]
            if isinstance(i, Arr):
                return path(('idx', i))
            if isinstance(i, Opaque) and i.k == 'span':
                lo, cnt = self.span(i, v.n())
                if v.kind == 'row':
                    return path(('sub', ZERO, ONE, lo, cnt))
                return path(('sub', lo, cnt, ZERO, ONE))
        if len(ix) == 2:
            rc = []
            for i, d in zip(ix, v.dims):
                if isinstance(i, P):
                    rc += [i, ONE]
                elif isinstance(i, Opaque) and i.k == 'span':
                    rc += list(self.span(i, d))
                else:
                    raise Unsupported('index')
            return path(('sub',) + tuple(rc))
        raise Unsupported('index')

    def span(self, s, d):
        if not s.d:
            return ZERO, d
        if len(s.d) == 1:
            return s.d[0], ONE
        lo, hi = s.d
        if not self.c.quiet:
            # arma requires lo <= hi and hi < size
            self.c.oblig('span in range in %s' % self.c.fn, And(le(0, lo), le(lo, hi), lt(hi, d)), 'bounds')
        return lo, hi - lo + 1

    def seq_index(self, base, v, i):
        h = self.c.contracts.get('index:' + v.k)
        if h:
            return h(self.c, base, v, [i])
        raise Unsupported('container')

    # ---------------------------------------------------------------- random draws
    def basic(self, kind, *shape):
        """A fresh basic draw of the generator, entered in the ghost log."""
        c = self.c
        x = c.fresh(kind, 'i' if kind == 'uniform_int' else 'r')
        c.store[('G', 'log')] = c.store.get(('G', 'log'), Log()).add('draw', kind, tuple(shape), x)
        return x

    def draw(self, base, v):
        """Boost.Random distributions as documented transformations of basic draws."""
        c = self.c
        name = v.d[0] if v.k == 'dist' else _distname(v.k)
        pr = tuple(v.d[1:]) if v.k == 'dist' else ()
        self.used('Boost.Random %s distribution' % name)
        if name in ('normal', 'lognormal'):
            m, s = pr if len(pr) == 2 else (ZERO, ONE)
            x = m + s * self.basic('normal')
            return x if name == 'normal' else Exp(x)
        if name in ('uniform_01', 'uniform_real'):
            u = self.basic('uniform')
            c.assume(And(le(0, u), lt(u, 1)))
            lo, hi = pr if len(pr) == 2 else (ZERO, ONE)
            return lo + (hi - lo) * u
        if name == 'uniform_int':
            lo, hi = pr if len(pr) == 2 else (ZERO, topoly(2 ** 31 - 1))
            i = self.basic('uniform_int', lo, hi)
            c.assume(And(le(lo, i), le(i, hi)))
            return i
        if name == 'exponential':
            e = self.basic('exponential')
            c.assume(le(0, e))
            return e / (pr[0] if pr else ONE)
        if name in ('gamma', 'chi_squared'):
            if name == 'gamma':
                al, be = pr if len(pr) == 2 else (ONE, ONE)
            else:
                al, be = (pr[0] if pr else ONE) / 2, topoly(2)
            g = self.basic('gamma', al)
            c.assume(lt(0, g))
            return be * g
        if name == 'student_t':
            return self.basic('student_t', pr[0] if pr else ONE)
        raise Unsupported('distribution ' + name)

    # ---------------------------------------------------------------- construction
    def construct(self, t, n, args):
        c = self.c
        k = t[0]
        vals = [self.v(a) for a in args]
        if k == 'arma':
            if not vals:
                return c.default_of(t, 'tmp')
            if isinstance(vals[0], Arr):
                return c.conv(vals[0], t)
            if isinstance(vals[0], Opaque) and vals[0].k == 'initlist':
                xs = vals[0].d
                def fn(ix):
                    i = ix[1] if t[1] == 'row' else ix[0]
                    r = xs[-1]
                    for j in range(len(xs) - 2, -1, -1):
                        r = Ite(eq(i, j), xs[j], r)
                    return r
                m = topoly(len(xs))
                return Arr(t[1], t[2], (ONE, m) if t[1] == 'row' else (m, ONE), fn)
            ps = [x for x in vals if isinstance(x, P)]
            if t[1] == 'mat' and len(ps) == 2:
                dims = (ps[0], ps[1])
            elif len(ps) == 1 and t[1] != 'mat':
                dims = (ps[0], ONE) if t[1] == 'col' else (ONE, ps[0])
            else:
                raise Unsupported('matrix constructor')
            # Armadillo >= 10.5 zero-fills by default
            if any(isinstance(x, Opaque) and x.k not in ('default',) for x in vals):
                fl = [x for x in vals if isinstance(x, Opaque)][0]
                nm = str(fl)
                if 'ones' in nm:
                    return Arr.const(t[1], t[2], dims, 1)
            self.used('new matrices are zero-filled')
            return Arr.const(t[1], t[2], dims, 0)
        if k == 'cx':
            if not vals:
                return ZERO
            if len(vals) == 1:
                return vals[0]
            return vals[0] + I * vals[1]
        if k == 'svec':
            if not vals:
                return c.default_of(t, 'tmp')
            if isinstance(vals[0], Arr):
                return vals[0]
            if isinstance(vals[0], P):
                init = vals[1] if len(vals) > 1 and isinstance(vals[1], P) else ZERO
                from .cxx import parse_type
                e = parse_type(t[1])
                return Arr.const('vec', {'real': 'r', 'int': 'i', 'cx': 'c'}.get(e[0], 'A'), (vals[0],), init)
            if isinstance(vals[0], Opaque) and vals[0].k == 'iter':
                it = vals[0]
                src = c.load(it.d[0])
                return Arr('vec', src.es, (vals[1].d[1] - it.d[1],), lambda ix: src.get(ix[0] + it.d[1]))
            raise Unsupported('vector constructor')
        if k == 'pair':
            if len(vals) == 1:
                return vals[0]
            if not vals:
                return c.default_of(t, 'p')
            return Struct(first=vals[0], second=vals[1])
        if k == 'ptr':
            if vals:
                return vals[0]
            return Opaque('null')
        if k == 'cls':
            nm = t[1]
            if nm == 'arma::span':
                return Opaque('span', *vals)
            if nm.startswith('std::basic_string') and len(vals) == 1 and isinstance(vals[0], Opaque):
                return vals[0]
            if nm.startswith('std::basic_string') or 'stringstream' in nm:
                return Opaque('str', '?')
            if 'param_type' in nm:
                return Opaque('param', _distname(nm), *vals)
            if 'distribution' in nm:
                if len(vals) == 1 and isinstance(vals[0], Opaque):
                    return vals[0]
                return Opaque('dist', _distname(nm), *vals)
            if len(vals) == 1:
                return vals[0]
            return Opaque(nm, *[])
        if vals:
            return c.conv(vals[0], t)
        return ZERO

    # ---------------------------------------------------------------- methods
    def method(self, name, base, n, args, m):
        c = self.c
        v = self.v(base)
        vals = None
        if isinstance(v, Opaque):
            if v.k in ('dist',) or 'distribution' in v.k:
                if name == 'param':
                    p = self.v(args[0])
                    c.assign(base, Opaque('dist', p.d[0], *p.d[1:]))
                    return None
                if name == 'reset':
                    return None
            h = c.contracts.get('method:%s.%s' % (v.k, name)) or c.contracts.get('method:' + name)
            if h:
                return h(c, base, v, args)
            if v.k == 'rng' and name == 'seed':
                log = c.store.get(('G', 'log'), Log())
                c.store[('G', 'log')] = log.add('seed', self.v(args[0]))
                return None
            if v.k in ('str', 'stream') or v.k.startswith(('std::basic_', 'boost::timer')):
                return Opaque('str', '?')
            raise Unsupported('method %s on %r' % (name, v))
        args = [a for a in args if not (isinstance(self.v(a) if not isinstance(a, Ref) else None, Opaque)
                                        and self.v(a).k == 'default')]
        vals = [self.v(a) for a in args]
        if isinstance(v, P):
            if name == 'real':
                return real(v)
            if name == 'imag':
                return imag(v)
        if isinstance(v, Arr):
            f = getattr(self, 'm_' + name, None)
            if f is None:
                raise Unsupported('method %s on array' % name)
            return f(base, v, vals, args, n)
        if isinstance(v, tuple):
            if name == 'size':
                return topoly(len(v))
        raise Unsupported('method %s on %r' % (name, v))

    def _sub(self, base, v, sel):
        if isinstance(base, Ref):
            return Ref(base.loc, base.path + (sel,))
        return self.c.sel(v, sel)

    def m_n_elem(self, base, v, a, r, n):
        return v.n()

    def m_size(self, base, v, a, r, n):
        return v.n()

    def m_is_empty(self, base, v, a, r, n):
        return eq(v.n(), 0)

    m_empty = m_is_empty

    def m_at(self, base, v, a, r, n):
        return self.index([base] + list(r), n)

    def m_t(self, base, v, a, r, n):
        return self.transpose(v, True)

    def m_st(self, base, v, a, r, n):
        return self.transpose(v, False)

    def m_zeros(self, base, v, a, r, n):
        return self._fill(base, v, a, 0)

    def m_ones(self, base, v, a, r, n):
        return self._fill(base, v, a, 1)

    def m_fill(self, base, v, a, r, n):
        return self._fill(base, v, [], a[0])

    def _dims(self, v, a):
        if not a:
            return v.dims
        if v.kind == 'mat':
            return (a[0], a[1])
        if v.kind == 'vec':
            return (a[0],)
        return (a[0], ONE) if v.kind == 'col' else (ONE, a[0])

    def _fill(self, base, v, a, x):
        nv = Arr.const(v.kind, v.es, self._dims(v, a), x)
        if isinstance(base, Ref):
            self.c.assign(base, nv)
            return base
        return nv

    def m_eye(self, base, v, a, r, n):
        nv = Arr(v.kind, v.es, self._dims(v, a), lambda ix: Ite(eq(ix[0], ix[1]), ONE, ZERO))
        self.c.assign(base, nv)
        return base

    def m_set_size(self, base, v, a, r, n):
        d = self._dims(v, a)
        if all(x == y for x, y in zip(d, v.dims)):
            return base
        self.c.assign(base, self.c.fresh_arr('undef', v.kind, v.es, d))
        return base

    def m_resize(self, base, v, a, r, n):
        d = self._dims(v, a[:len(v.dims) if v.kind == 'mat' else 1])
        x = a[1] if v.kind == 'vec' and len(a) > 1 else ZERO
        if v.es == 'A':
            nv = Arr(v.kind, v.es, d, lambda ix: v.get(*ix))
        elif v.n().iszero():
            nv = Arr(v.kind, v.es, d, lambda ix: x)
        else:
            nv = Arr(v.kind, v.es, d, lambda ix: Ite(And(*[lt(i, o) for i, o in zip(ix, v.dims) if not o == 1]), v.get(*ix), x))
        self.c.assign(base, nv)
        return None

    def m_row(self, base, v, a, r, n):
        self.c.oblig('row index in range in %s' % self.c.fn, And(le(0, a[0]), lt(a[0], v.dims[0])), 'bounds')
        return self._sub(base, v, ('sub', a[0], ONE, ZERO, v.dims[1]))

    def m_col(self, base, v, a, r, n):
        self.c.oblig('column index in range in %s' % self.c.fn, And(le(0, a[0]), lt(a[0], v.dims[1])), 'bounds')
        return self._sub(base, v, ('sub', ZERO, v.dims[0], a[0], ONE))

    def m_rows(self, base, v, a, r, n):
        self.c.oblig('row range in %s' % self.c.fn, And(le(0, a[0]), le(a[0], a[1]), lt(a[1], v.dims[0])), 'bounds')
        return self._sub(base, v, ('sub', a[0], a[1] - a[0] + 1, ZERO, v.dims[1]))

    def m_subvec(self, base, v, a, r, n):
        if v.kind == 'row':
            return self._sub(base, v, ('sub', ZERO, ONE, a[0], a[1] - a[0] + 1))
        return self.m_rows(base, v, a, r, n)

    def m_head(self, base, v, a, r, n):
        if v.kind == 'row':
            return self._sub(base, v, ('sub', ZERO, ONE, ZERO, a[0]))
        return self._sub(base, v, ('sub', ZERO, a[0], ZERO, ONE))

    def m_tail(self, base, v, a, r, n):
        if v.kind == 'row':
            return self._sub(base, v, ('sub', ZERO, ONE, v.n() - a[0], a[0]))
        return self._sub(base, v, ('sub', v.n() - a[0], a[0], ZERO, ONE))

    def m_front(self, base, v, a, r, n):
        return self._sub(base, v, ('el', ZERO))

    def m_back(self, base, v, a, r, n):
        return self._sub(base, v, ('el', v.n() - 1))

    def m_diag(self, base, v, a, r, n):
        return self._sub(base, v, ('diag',))

    def m_elem(self, base, v, a, r, n):
        return self.c.sel(v, ('idx', a[0]))

    def m_min(self, base, v, a, r, n):
        return self.minmax(v, MinOver)

    def m_max(self, base, v, a, r, n):
        return self.minmax(v, MaxOver)

    def minmax(self, v, over):
        self.used('min/max of a vector')
        x = fresh('m', 'i')
        return over(x, v.n(), v.get(x))

    def m_insert_rows(self, base, v, a, r, n):
        pos, w = a[0], a[1]
        if isinstance(w, P):
            w = Arr.const(v.kind, v.es, (w, v.dims[1]), 0)
        k = w.dims[0]
        self.c.oblig('insert position in range in %s' % self.c.fn, And(le(0, pos), le(pos, v.dims[0])), 'bounds')
        nv = Arr(v.kind, v.es, (v.dims[0] + k, v.dims[1]),
                 lambda ix: Ite(lt(ix[0], pos), v.get(ix[0], ix[1]),
                                Ite(lt(ix[0], pos + k), w.get(ix[0] - pos, ix[1]), v.get(ix[0] - k, ix[1]))))
        self.c.assign(base, nv)
        return None

    def m_randu(self, base, v, a, r, n):
        return self._rand(base, v, a, 'arma_randu')

    def m_randn(self, base, v, a, r, n):
        return self._rand(base, v, a, 'arma_randn')

    def _rand(self, base, v, a, nm):
        c = self.c
        self.used('Armadillo ' + nm)
        nv = c.fresh_arr(nm, v.kind, v.es, self._dims(v, a))
        log = c.store.get(('G', 'log'), Log())
        c.store[('G', 'log')] = log.add(nm, nv.n())
        c.assign(base, nv)
        if nm == 'arma_randu':
            j = fresh('j', 'i')
            c.assume(Forall(j, nv.n(), And(le(0, nv.get(j)), lt(nv.get(j), 1))))
        return base

    def m_print(self, base, v, a, r, n):
        return None

    def m_begin(self, base, v, a, r, n):
        return Opaque('iter', base if isinstance(base, Ref) else self.c.temp(v), ZERO)

    def m_end(self, base, v, a, r, n):
        return Opaque('iter', base if isinstance(base, Ref) else self.c.temp(v), v.n())

    def m_push_back(self, base, v, a, r, n):
        k = v.dims[0]
        x = a[0]
        pick = ite_val if v.es == 'A' else Ite

        def el(ix):
            c = eq(ix[0], k)
            return x if c.kind == 'T' else v.get(*ix) if c.kind == 'F' else pick(c, x, v.get(*ix))
        nv = Arr(v.kind, v.es, (k + 1,), el)
        self.c.assign(base, nv)

    def m_reserve(self, base, v, a, r, n):
        return None

    def m_is_finite(self, base, v, a, r, n):
        return self.isfinite(v)

    # ---------------------------------------------------------------- functions
    def isfinite(self, v):
        self.used('is_finite')
        if ieee.special(v):
            return FALSE
        if self.c.finite and not isinstance(v, Arr):
            return TRUE
        if isinstance(v, Arr):
            j = fresh('j', 'i')
            return Forall(j, v.n(), Pred('Fin', v.get(j)))
        if v.const() is not None:
            return TRUE
        return Pred('Fin', v)

    def call(self, name, n, args, d):
        c = self.c
        args = [a for a in args if not (isinstance(a, Opaque) and a.k == 'default')]
        f = getattr(self, 'f_' + name, None)
        h = c.contracts.get('lib:' + name)
        if h is not None:
            return h(c, n, args)
        if f is None:
            raise Unsupported('library function %s' % name)
        return f([self.v(a) for a in args], args, n)

    def lift(self, f, x, es=None):
        if isinstance(x, Arr):
            return Arr(x.kind, es or x.es, x.dims, lambda ix: f(x.get(*ix)))
        return f(x)

    def f_exp(self, a, r, n):
        return self.lift(Exp, a[0]) if not ieee.special(a[0]) else ieee.unary('exp', a[0])

    def f_log(self, a, r, n):
        return self.lift(Log_, a[0]) if not ieee.special(a[0]) else ieee.unary('log', a[0])

    def f_sqrt(self, a, r, n):
        return self.lift(Sqrt, a[0]) if not ieee.special(a[0]) else ieee.unary('sqrt', a[0])

    def f_abs(self, a, r, n):
        if ieee.special(a[0]):
            return ieee.unary('abs', a[0])
        return self.lift(Abs, a[0], 'r' if isinstance(a[0], Arr) and a[0].es == 'c' else None)

    f_fabs = f_abs

    def f_square(self, a, r, n):
        return self.lift(lambda x: x * x, a[0])

    def f_norm(self, a, r, n):
        if isinstance(a[0], Arr):
            if len(a) > 1 and a[1].const() != 2:
                raise Unsupported('norm order')
            v = a[0]
            return Sqrt(SumR(0, v.n(), lambda j: v.get(j) * conj(v.get(j))))
        return a[0] * conj(a[0])        # std::norm

    def f_dot(self, a, r, n):
        x, y = a
        return SumR(0, x.n(), lambda j: x.get(j) * y.get(j))

    def f_real(self, a, r, n):
        return self.lift(real, a[0], 'r' if isinstance(a[0], Arr) else None)

    def f_imag(self, a, r, n):
        return self.lift(imag, a[0], 'r' if isinstance(a[0], Arr) else None)

    def f_conj(self, a, r, n):
        return self.lift(conj, a[0])

    def f_pow(self, a, r, n):
        if isinstance(a[0], Arr):
            return Arr(a[0].kind, a[0].es, a[0].dims, lambda ix: Pow(a[0].get(*ix), a[1]))
        if a[0].iszero() and a[1].const() is not None and a[1].const() > 0:
            return ZERO
        return Pow(a[0], a[1])

    def f_min(self, a, r, n):
        if len(a) == 1 and isinstance(a[0], Arr):
            return self.minmax(a[0], MinOver)
        if isinstance(a[0], Arr):
            return self.elementwise(Min, a[0], a[1])
        if ieee.special(a[0]) or ieee.special(a[1]):
            return ieee.std_min(a[0], a[1])
        return Min(a[0], a[1])

    def f_max(self, a, r, n):
        if len(a) == 1 and isinstance(a[0], Arr):
            return self.minmax(a[0], MaxOver)
        if isinstance(a[0], Arr):
            return self.elementwise(Max, a[0], a[1])
        if ieee.special(a[0]) or ieee.special(a[1]):
            return ieee.std_max(a[0], a[1])
        return Max(a[0], a[1])

    def f_fmin(self, a, r, n):
        return self.f_min([x for x in a if ieee.kind(x) != 'nan'] * (2 if any(ieee.kind(x) == 'nan' for x in a) else 1), r, n)

    def f_fmax(self, a, r, n):
        return self.f_max([x for x in a if ieee.kind(x) != 'nan'] * (2 if any(ieee.kind(x) == 'nan' for x in a) else 1), r, n)

    def f_is_finite(self, a, r, n):
        return self.isfinite(a[0])

    def f_isfinite(self, a, r, n):
        return self.isfinite(a[0])

    def f_isnan(self, a, r, n):
        if isinstance(a[0], Arr) or not (ieee.special(a[0]) or self.c.finite):
            raise Unsupported('isnan')
        return ieee.tofb(ieee.kind(a[0]) == 'nan')

    def f_isinf(self, a, r, n):
        if isinstance(a[0], Arr) or not (ieee.special(a[0]) or self.c.finite):
            raise Unsupported('isinf')
        return ieee.tofb(ieee.kind(a[0]) in ('inf', '-inf'))

    def f_as_scalar(self, a, r, n):
        v = a[0]
        return v.get(ZERO, ZERO) if isinstance(v, Arr) else v

    def f_zeros(self, a, r, n):
        return self._mk(a, n, 0)

    def f_ones(self, a, r, n):
        return self._mk(a, n, 1)

    def _mk(self, a, n, x):
        from .cxx import parse_type, tstr
        t = parse_type(tstr(n))
        if t[0] != 'arma':
            # Gen<Col<...>, gen_zeros>
            s = tstr(n)
            import re
            m = re.search(r'arma::(Col|Row|Mat)<(std::complex<double>|double|unsigned long long)>', s)
            if not m:
                raise Unsupported('type of generator ' + s)
            t = parse_type(m.group(0))
        if t[1] == 'mat':
            return Arr.const('mat', t[2], (a[0], a[1]), x)
        return Arr.const(t[1], t[2], (a[0], ONE) if t[1] == 'col' else (ONE, a[0]), x)

    def f_strans(self, a, r, n):
        return self.transpose(a[0], False)

    def f_trans(self, a, r, n):
        return self.transpose(a[0], True)

    def f_symmatu(self, a, r, n):
        v = a[0]
        self.used('symmatu')
        cj = v.es == 'c'
        return Arr('mat', v.es, v.dims, lambda ix: Ite(le(ix[0], ix[1]), v.get(ix[0], ix[1]),
                                                       conj(v.get(ix[1], ix[0])) if cj else v.get(ix[1], ix[0])))

    def f_symmatl(self, a, r, n):
        v = a[0]
        self.used('symmatl')
        cj = v.es == 'c'
        return Arr('mat', v.es, v.dims, lambda ix: Ite(ge(ix[0], ix[1]), v.get(ix[0], ix[1]),
                                                       conj(v.get(ix[1], ix[0])) if cj else v.get(ix[1], ix[0])))

    def f_from(self, a, r, n):
        from .cxx import parse_type, tstr
        t = parse_type(tstr(n))
        return self.c.conv(a[0], t)

    def f_solve(self, a, r, n):
        """Solution of a non-singular linear system; equal systems have equal solutions."""
        c = self.c
        self.used('arma::solve: unique solution of a non-singular system')
        A, b = a
        for A0, b0, x0 in list(getattr(c, 'solve_patterns', [])) + c.memo_solve:
            i, j = fresh('i', 'i'), fresh('j', 'i')
            hy = c.pc + [le(0, i), lt(i, A.dims[0]), le(0, j), lt(j, A.dims[1])]
            if all(prove(eq(x, y), c.pc) for x, y in zip(A.dims, A0.dims)) and \
                    prove(eq(A.get(i, j), A0.get(i, j)), hy) and prove(eq(b.get(i, ZERO), b0.get(i, ZERO)), hy):
                return x0
        x = c.fresh_arr('solution', 'col', _join(A.es, b.es), (A.dims[1], ONE))
        c.memo_solve.append((A, b, x))
        return x

    def f_chol(self, a, r, n):
        c = self.c
        self.used('arma::chol: upper-triangular Cholesky factor')
        A = a[0]
        for A0, R0 in getattr(c, 'chol_patterns', []):
            i, j = fresh('i', 'i'), fresh('j', 'i')
            if prove(eq(A.get(i, j), A0.get(i, j)), c.pc + [le(0, i), lt(i, A.dims[0]), le(0, j), lt(j, A.dims[1])]):
                return R0
        R = c.fresh_arr('chol', 'mat', 'r', A.dims)
        return R

    def f_sum(self, a, r, n):
        v = a[0]
        if v.kind == 'mat':
            raise Unsupported('sum of a matrix')
        if v.es == 'b':
            x = fresh('m', 'i')
            return Count(x, v.n(), v.get(x))
        return SumR(0, v.n(), lambda j: v.get(j))

    f_accu = f_sum

    def f_prod(self, a, r, n):
        v = a[0]
        return ProdR(0, v.n(), lambda j: v.get(j))

    def f_mean(self, a, r, n):
        v = a[0]
        return SumR(0, v.n(), lambda j: v.get(j)) / v.n()

    def f_var(self, a, r, n):
        v = a[0]
        m = SumR(0, v.n(), lambda j: v.get(j)) / v.n()
        s = SumR(0, v.n(), lambda j: v.get(j) * v.get(j)) - v.n() * m * m
        k = a[1].const() if len(a) > 1 else 0
        return s / (v.n() if k == 1 else v.n() - 1)

    def f_stddev(self, a, r, n):
        return Sqrt(self.f_var(a, r, n))

    def f_median(self, a, r, n):
        self.used('arma::median')
        return App('median', arr_key(a[0]))

    def f_linspace(self, a, r, n):
        lo, hi, m = a
        self.used('arma::linspace: even grid, the upper end alone when asked for a single point')
        return Arr('col', 'r', (m, ONE), lambda ix: Ite(le(m, 1), hi, lo + (hi - lo) * ix[0] / (m - 1)))

    def f_sort(self, a, r, n):
        c = self.c
        v = a[0]
        if isinstance(v, Opaque):
            raise Unsupported('std::sort')
        self.used('arma::sort: ascending permutation of its argument')
        k = arr_key(v)
        s = Arr(v.kind, v.es, v.dims, lambda ix: App('sorted', k, ix[0] if v.kind != 'row' else ix[1]))
        j = fresh('j', 'i')
        c.assume(Forall(j, v.n() - 1, le(s.get(j), s.get(j + 1))))
        return s

    def f_sort_index(self, a, r, n):
        c = self.c
        v = a[0]
        self.used('arma::sort_index: permutation that sorts its argument')
        k = arr_key(v)
        s = Arr('col', 'i', v.dims, lambda ix: App('sort_index', k, ix[0], sort='i'))
        j = fresh('j', 'i')
        c.assume(Forall(j, v.n() - 1, le(v.get(s.get(j)), v.get(s.get(j + 1)))))
        c.assume(Forall(j, v.n(), And(le(0, s.get(j)), lt(s.get(j), v.n()))))
        inv = App('sort_rank', k, j, sort='i')
        c.assume(Forall(j, v.n(), And(le(0, inv), lt(inv, v.n()), eq(s.get(inv), j))))
        return s

    def f_find(self, a, r, n):
        """Indices (ascending) of the elements satisfying a condition / being non-zero."""
        c = self.c
        self.used('arma::find: ascending list of the indices where the condition holds')
        v = a[0]
        x = fresh('m', 'i')
        e = v.get(x)
        cond = e if isinstance(e, F) else ne(e, 0)
        cnt = Count(x, v.n(), cond)
        k = arr_key(v)
        s = Arr('col', 'i', (cnt, ONE), lambda ix: App('find', k, ix[0], sort='i'))
        if cnt.const() is None:
            j = fresh('j', 'i')
            c.assume(le(0, cnt))
            c.assume(le(cnt, v.n()))
            f = s.get(j)
            e = v.get(f)
            c.assume(Forall(j, cnt, And(le(0, f), lt(f, v.n()), e if isinstance(e, F) else ne(e, 0))))
            c.assume(Forall(j, cnt - 1, lt(s.get(j), s.get(j + 1))))
            at = App('find_rank', k, x, sort='i')
            e = v.get(x)
            c.assume(Forall(x, v.n(), Or(Not(e if isinstance(e, F) else ne(e, 0)), And(le(0, at), lt(at, cnt), eq(s.get(at), x)))))
        return s

    def f_accumulate(self, a, r, n):
        b, e, init = a[:3]
        arr = self.c.load(b.d[0])
        if len(a) > 3:
            nm = str(a[3].d) + a[3].k
            if 'multiplies' in nm:
                return init * ProdR(b.d[1], e.d[1], lambda j: arr.get(j))
            raise Unsupported('accumulate with operation')
        return init + SumR(b.d[1], e.d[1], lambda j: arr.get(j))

    def f_inner_product(self, a, r, n):
        b, e, b2, init = a[:4]
        x, y = self.c.load(b.d[0]), self.c.load(b2.d[0])
        return init + SumR(0, e.d[1] - b.d[1], lambda j: x.get(j + b.d[1]) * y.get(j + b2.d[1]))

    def f_move(self, a, r, n):
        return r[0]

    f_forward = f_move

    def f_binomial_coefficient(self, a, r, n):
        self.used('boost::math::binomial_coefficient')
        return App('binom', a[0], a[1])

    def f_make_shared(self, a, r, n):
        from .cxx import parse_type, tstr
        t = parse_type(tstr(n))
        c = self.c.prog.find_cls(t[1])
        if c is None:
            raise Unsupported('make_shared')
        o = self.c.new_obj(c)
        return self.c.construct_obj(o, c, {}, r)

    def f_time(self, a, r, n):
        return self.c.fresh('time', 'i')

    def f_floor(self, a, r, n):
        return App('floor', a[0], sort='i')

    def f_get(self, a, r, n):
        raise Unsupported('get')

    def f_make_pair(self, a, r, n):
        return Struct(first=a[0], second=a[1])

    def f_size(self, a, r, n):
        return a[0].n()


def Log_(x):
    from . import terms
    return terms.Log(x)


def _distname(t):
    import re
    m = re.search(r'(\w+)_distribution', t)
    if m:
        return m.group(1)
    if 'uniform_01' in t:
        return 'uniform_01'
    return t
