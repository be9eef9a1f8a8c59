"""Symbolic execution of the Python layer, from the Python AST of the current source.

Dropped by the extraction: print calls, doc strings, exception handlers (the library contracts do not raise),
the matplotlib calls. Numpy arrays are shared by reference (views write through); lists are logs of
appended values, so that a loop that appends gives a closed form."""
import ast
import os
from fractions import Fraction

from .terms import *
from . import terms as T
from .sym import *
from .sym import _join, same
from .arma import arr_key
from .logic import prove, entails
from .cxx import FrontEndError

REPO = os.environ.get('VP_REPO', '/repo')
FILES = {'carma_pack': 'src/carmcmc/carma_pack.py', 'samplers': 'src/carmcmc/samplers.py'}
NONE = Opaque('None')


class PyProg(object):
    """Functions and classes of the Python sources."""

    def __init__(self):
        self.funcs, self.classes, self.names = {}, {}, {}
        for mod, f in FILES.items():
            try:
                tree = ast.parse(open(os.path.join(REPO, f)).read())
            except (OSError, SyntaxError, ValueError) as e:
                raise FrontEndError('%s: %s' % (f, e))
            nm = self.names[mod] = {}
            for s in tree.body:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        nm[a.asname or a.name.split('.')[0]] = Opaque('py', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        base = (s.module or '') if not s.level else ''
                        nm[a.asname or a.name] = Opaque('py', (base + '.' if base else '') + a.name)
                elif isinstance(s, ast.FunctionDef):
                    nm[s.name] = Opaque('fun', mod, s.name)
                    self.funcs[mod, s.name] = s
                elif isinstance(s, ast.ClassDef):
                    nm[s.name] = Opaque('cls', s.name)
                    bases = []
                    for b in s.bases:
                        bases.append(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?')
                    self.classes[s.name] = (mod, [b for b in bases if b != 'object'],
                                            {m.name: m for m in s.body if isinstance(m, ast.FunctionDef)})
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    nm[s.targets[0].id] = s.value

    def mro(self, c):
        out = [c]
        for b in self.classes.get(c, (0, [], 0))[1]:
            out += [x for x in self.mro(b) if x not in out]
        return out

    def method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if c in self.classes and name in self.classes[c][2]:
                return c, self.classes[c][2][name]
        return None


class Rng(object):
    def __init__(self, lo, n, step=1):
        self.lo, self.n, self.step = lo, n, step


class Seq(object):
    """Abstract sequence: length and element function."""

    def __init__(self, n, get):
        self.n, self.get = topoly(n), get


class PFrame(object):
    def __init__(self, fid, mod, fn, cls=None):
        self.fid, self.mod, self.fn, self.cls = fid, mod, fn, cls


def ndim(v):
    return len(v.dims) if isinstance(v, Arr) else 0


class PyExec(Ctx):
    def __init__(self, prog):
        Ctx.__init__(self)
        self.prog = prog
        self.frames = []
        self.nframe = self.nobj = self.depth = 0
        self.lazy = {}
        self.loop_ord = {}
        self.cuts = {}

    def used(self, n):
        self.used_lib.add(n)

    # ---------------------------------------------------------------- heap
    def alloc(self, v, typ='nd'):
        loc = ('h', 'h%s' % next(self.nfresh), typ)
        self.store[loc] = v
        return Ref(loc)

    def val(self, v):
        """Array (or other heap) value behind a reference."""
        return self.load(v) if isinstance(v, Ref) else v

    def typ(self, v):
        return v.loc[2] if isinstance(v, Ref) and v.loc[0] == 'h' else None

    def new(self, a):
        """Result of an operation: scalars stay values, arrays go on the heap."""
        if isinstance(a, Arr):
            if not a.dims:
                return a.get()
            return self.alloc(a)
        return a

    def setf(self, o, name, v):
        loc = ('f', o.id, name)
        self.names[loc] = name
        self.store[loc] = v

    def getf(self, o, name):
        return self.store[('f', o.id, name)]

    def newobj(self, cls, name=None):
        self.nobj += 1
        return ObjV((name or '%s#%d' % (cls, self.nobj),), cls)

    def sel(self, v, s):
        k = s[0]
        if k == 'np':
            _, items, newax = s
            dims, src = [], []
            for it in items:
                if it[0] == 's':
                    dims.append(it[2])
            for a in newax:
                dims.insert(a, ONE)

            def fn(ix):
                ix = [x for n, x in enumerate(ix) if n not in newax]
                out, j = [], 0
                for it in items:
                    if it[0] == 'i':
                        out.append(it[1])
                    else:
                        out.append(it[1] + it[3] * ix[j])
                        j += 1
                return v.get(*out)
            if not dims:
                return self.simp(fn(()))
            kind = 'vec' if len(dims) == 1 else v.kind if v.kind == 'mtx' else 'mat'
            return Arr(kind, v.es, dims, fn)
        if k == 'real':
            return v.map(real, 'r') if isinstance(v, Arr) else real(v)
        if k == 'imag':
            return v.map(imag, 'r') if isinstance(v, Arr) else imag(v)
        if k == 'T':
            if ndim(v) == 1:
                return v
            return Arr(v.kind, v.es, (v.dims[1], v.dims[0]), lambda ix: v.get(ix[1], ix[0]))
        if k == 'key':
            if s[1] not in v.f:
                raise Unsupported('no key %s' % s[1])
            return v.f[s[1]]
        return Ctx.sel(self, v, s)

    def _upd(self, v, path, val):
        s = path[0]
        if len(path) == 1 and s[0] == 'np':
            _, items, newax = s
            if self.frozen(v):
                raise Unsupported('write to a shared array')

            def vix(ix):
                out = []
                for it, x in zip(items, ix):
                    if it[0] == 's':
                        st = it[3]
                        d = x - it[1]
                        out.append(d if st == 1 else -d if st == -1 else Idiv(d, st))
                for a in newax:
                    out.insert(a, ZERO)
                return out

            def cond(ix):
                fs = []
                for it, x, d in zip(items, ix, v.dims):
                    if it[0] == 'i':
                        fs.append(eq(x, it[1]))
                        continue
                    _, st, n, step = it
                    if step == 1 and st.iszero() and n == d:
                        continue
                    if step == -1 and n == d and st == d - 1:
                        continue
                    j = x - st if step == 1 else st - x if step == -1 else x - st
                    if step in (1, -1):
                        fs += [le(0, j), lt(j, n)]
                    else:
                        fs += [le(0, j), eq(Imod(j, topoly(step)), 0), lt(Idiv(j, topoly(step)), n)]
                return And(*fs)
            if isinstance(val, Arr):
                return v.upd(cond, lambda ix: val.get(*vix(ix)))
            return v.upd(cond, lambda ix: val)
        if len(path) == 1 and s[0] == 'T':
            return self.sel(val, s)
        if len(path) == 1 and s[0] == 'key':
            return v.set(s[1], val)
        return Ctx._upd(self, v, path, val)

    def frozen(self, v):
        return False

    def _unk(self, nm, v0, pre):
        if isinstance(v0, P):
            return El(nm, *pre, sort='r' if is_real(v0) else 'c')
        if isinstance(v0, ObjV):
            return ObjV(tuple(self._unk_id('%s.%d' % (nm, n), x, pre) for n, x in enumerate(v0.id)), v0.cls)
        return Ctx._unk(self, nm, v0, pre)

    def _unk_id(self, nm, x, pre):
        return El(nm, *pre, sort='i') if isinstance(x, P) else x

    # ---------------------------------------------------------------- numeric operations
    def num(self, v):
        """Operand of arithmetic: scalar or array."""
        v = self.val(v)
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, F):
            return Ite(v, ONE, ZERO)
        if isinstance(v, (Log, Seq, tuple)):
            return self.toarr(v)
        if isinstance(v, (P, Arr)):
            return v
        raise Unsupported('arithmetic on %s' % type(v).__name__)

    def toarr(self, v):
        """Array of a list."""
        if isinstance(v, Ref):
            v = self.val(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, P):
            return v
        if isinstance(v, Log):
            ev = norm_ev(v.ev)
            if all(e[0] == 'app' for e in ev):
                v = tuple(e[1] for e in ev)
            elif len(ev) == 1 and ev[0][0] == 'rep' and len(ev[0][3]) == 1 and ev[0][3][0][0] == 'app':
                _, k, n, body = ev[0]
                e = self.val(body[0][1])
                if isinstance(e, P):
                    return Arr('vec', 'r' if is_real(e) else 'c', (n,), lambda ix: subst(e, {vname(k): ix[0]}))
                if isinstance(e, Arr):
                    return Arr('mat', e.es, (n,) + e.dims, lambda ix: e.sub({vname(k): ix[0]}).get(*ix[1:]))
                raise Unsupported('array of a list')
            else:
                return v
        if isinstance(v, Seq):
            e = v.get(ZERO)
            return Arr('vec', 'r' if is_real(e) else 'c', (v.n,), lambda ix: v.get(ix[0]))
        if isinstance(v, tuple):
            es = [self.num(x) for x in v]
            if all(isinstance(x, P) for x in es):
                s = 'r' if all(is_real(x) for x in es) else 'c'
                return Arr('vec', s, (topoly(len(es)),), lambda ix: pick(es, ix[0]))
            if all(isinstance(x, Arr) for x in es):
                d = es[0].dims
                s = es[0].es
                for x in es[1:]:
                    s = _join(s, x.es)
                return Arr('mat', s, (topoly(len(es)),) + d, lambda ix: pick([x.get(*ix[1:]) for x in es], ix[0]))
        raise Unsupported('array of %s' % type(v).__name__)

    def samedim(self, a, b, what):
        if a == b:
            return
        if entails(self.pc, eq(a, b)):
            return
        self.oblig('shapes agree in %s' % self.fn, eq(a, b), 'bounds')

    def broadcast(self, vs, f, es=None):
        """Elementwise function of scalars and arrays."""
        vs = [self.num(v) for v in vs]
        if any(isinstance(v, Log) for v in vs):
            if sum(isinstance(v, Log) for v in vs) != 1 or any(isinstance(v, Arr) for v in vs):
                raise Unsupported('arithmetic on a list of irregular length')
            n = [isinstance(v, Log) for v in vs].index(True)
            return map_log(vs[n], lambda x: f(*(vs[:n] + [x] + vs[n + 1:])))
        nd = max(ndim(v) for v in vs)
        if nd == 0:
            return f(*vs)
        arrs = [v for v in vs if isinstance(v, Arr)]
        kind = 'mtx' if any(v.kind == 'mtx' for v in arrs) else 'vec' if nd == 1 else 'mat'
        if kind == 'mtx':
            vs = [Arr('mtx', v.es, (ONE, v.dims[0]), (lambda v: lambda ix: v.get(ix[1]))(v)) if ndim(v) == 1 else v for v in vs]
            nd = 2
        dims = [None] * nd
        for v in vs:
            if not isinstance(v, Arr):
                continue
            off = nd - len(v.dims)
            for n, d in enumerate(v.dims):
                if d == 1:
                    continue
                if dims[off + n] is None:
                    dims[off + n] = d
                else:
                    self.samedim(dims[off + n], d, 'elementwise operation')
        dims = [ONE if d is None else d for d in dims]

        def fn(ix):
            a = []
            for v in vs:
                if isinstance(v, Arr):
                    off = nd - len(v.dims)
                    a.append(v.get(*[ZERO if d == 1 else ix[off + n] for n, d in enumerate(v.dims)]))
                else:
                    a.append(v)
            return f(*a)
        if es is None:
            es = 'b' if any(isinstance(v, Arr) and v.es == 'b' for v in vs) else 'i'
            for v in vs:
                es = _join(es, v.es if isinstance(v, Arr) else 'i' if is_int(v) and False else 'r' if is_real(v) else 'c')
        return Arr(kind, es, dims, fn)

    def arith(self, op, a, b):
        x, y = self.num(a), self.num(b)
        if op == 'Mult' and (isinstance(x, Arr) and x.kind == 'mtx' or isinstance(y, Arr) and y.kind == 'mtx') \
                and isinstance(x, Arr) and isinstance(y, Arr):
            return self.matmul(x, y)
        if op == 'Add':
            return self.broadcast([x, y], lambda p, q: p + q)
        if op == 'Sub':
            return self.broadcast([x, y], lambda p, q: p - q)
        if op == 'Mult':
            return self.broadcast([x, y], lambda p, q: p * q)
        if op == 'Div':
            r = self.broadcast([x, y], lambda p, q: self.div(p, q))
            if isinstance(r, Arr) and r.es == 'i':
                r.es = 'r'
            return r
        if op == 'Pow':
            if isinstance(x, Arr) and x.kind == 'mtx':
                raise Unsupported('matrix power')
            return self.broadcast([x, y], self.pow)
        if op == 'FloorDiv':
            return self.broadcast([x, y], self.fdiv)
        if op == 'Mod':
            return self.broadcast([x, y], self.fmod)
        if op == 'MatMult':
            return self.dot(x, y)
        raise Unsupported('operator ' + op)

    def div(self, p, q):
        if q.iszero():
            raise Unsupported('division by zero')
        return p / q

    def pow(self, p, q):
        c = q.const()
        if c is not None and c.denominator == 1:
            return ppow(p, int(c)) if c >= 0 else ONE / ppow(p, int(-c))
        if c == Fraction(1, 2):
            return Sqrt(p)
        if is_int(q):
            return Pow(p, q)
        raise Unsupported('power')

    def fdiv(self, p, q):
        c = q.const()
        if c is None or c <= 0 or c.denominator != 1 or not is_int(p):
            raise Unsupported('floor division')
        self.oblig('floor division of a non-negative number in %s' % self.fn, le(0, p), 'bounds')
        return Idiv(p, q)

    def fmod(self, p, q):
        c = q.const()
        if c is None or c <= 0 or c.denominator != 1 or not is_int(p):
            raise Unsupported('remainder')
        self.oblig('remainder of a non-negative number in %s' % self.fn, le(0, p), 'bounds')
        return Imod(p, q)

    def toint(self, v):
        """int(x)"""
        v = self.num(v)
        if not isinstance(v, P):
            raise Unsupported('int of an array')
        c = v.const()
        if c is not None:
            return topoly(int(c))
        if is_int(v):
            return v
        den = 1
        for k in v.t.values():
            den = den * k.denominator // __import__('math').gcd(den, k.denominator)
        w = v * den
        if is_int(w):
            self.oblig('int() of a non-negative number in %s' % self.fn, le(0, w), 'bounds')
            return Idiv(w, topoly(den))
        self.used('int: truncation toward zero')
        return App('trunc', v, sort='i')

    def as2(self, v, left):
        if ndim(v) == 1:
            return Arr('mtx', v.es, (ONE, v.dims[0]), lambda ix: v.get(ix[1]))
        return v

    def matmul(self, a, b):
        """Product with at least one np.matrix."""
        a, b = self.as2(a, True), self.as2(b, False)
        self.samedim(a.dims[1], b.dims[0], 'matrix product')
        n = a.dims[1]
        es = _join(a.es, b.es)

        def fn(ix):
            if n == 1:
                return a.get(ix[0], ZERO) * b.get(ZERO, ix[1])
            return SumR(0, n, lambda k: a.get(ix[0], k) * b.get(k, ix[1]))
        return Arr('mtx', es, (a.dims[0], b.dims[1]), fn)

    def dot(self, a, b):
        a, b = self.num(a), self.num(b)
        if ndim(a) == 0 or ndim(b) == 0:
            return self.arith('Mult', a, b)
        if a.kind == 'mtx' or b.kind == 'mtx':
            return self.matmul(a, b)
        self.used('numpy.dot: matrix product')
        self.samedim(a.dims[-1], b.dims[0], 'dot')
        n = a.dims[-1]
        es = _join(a.es, b.es)
        if ndim(a) == 1 and ndim(b) == 1:
            return SumR(0, n, lambda k: a.get(k) * b.get(k))
        if ndim(a) == 1:
            return Arr('vec', es, (b.dims[1],), lambda ix: SumR(0, n, lambda k: a.get(k) * b.get(k, ix[0])))
        if ndim(b) == 1:
            return Arr('vec', es, (a.dims[0],), lambda ix: SumR(0, n, lambda k: a.get(ix[0], k) * b.get(k)))
        return Arr('mat', es, (a.dims[0], b.dims[1]),
                   lambda ix: SumR(0, n, lambda k: a.get(ix[0], k) * b.get(k, ix[1])))

    def map(self, v, f, es=None):
        v = self.num(v)
        if isinstance(v, Log):
            return map_log(v, f)
        if isinstance(v, Arr):
            return Arr(v.kind, es or v.es, v.dims, lambda ix: f(v.get(*ix)))
        return f(v)

    # ---------------------------------------------------------------- calls
    def frame(self):
        return self.frames[-1]

    def var(self, name):
        return ('v', self.frame().fid, name)

    def run_function(self, name, args, kw=None):
        for mod in FILES:
            if (mod, name) in self.prog.funcs:
                return self.invoke(mod, name, self.prog.funcs[mod, name], None, args, kw or {})
        raise Unsupported('no function %s' % name)

    def run_method(self, cls, name, o, args, kw=None):
        m = self.prog.method(cls, name)
        if m is None:
            raise Unsupported('no method %s of %s' % (name, cls))
        return self.invoke(self.prog.classes[m[0]][0], '%s.%s' % (m[0], name), m[1], m[0], [o] + list(args), kw or {})

    def invoke(self, mod, fname, node, cls, args, kw):
        if self.depth > 12:
            raise Unsupported('recursion in %s' % fname)
        self.nframe += 1
        fr = PFrame('%s#%d' % (fname, self.nframe), mod, fname, cls)
        a = node.args
        if a.vararg or a.kwarg or a.posonlyargs or node.decorator_list:
            raise Unsupported('signature of %s' % fname)
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Await)):
                raise Unsupported('construct in %s' % fname)
        names = [x.arg for x in a.args]
        if len(args) > len(names):
            raise Unsupported('too many arguments for %s' % fname)
        bound = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names + [x.arg for x in a.kwonlyargs] or k in bound:
                raise Unsupported('argument %s of %s' % (k, fname))
            bound[k] = v
        self.frames.append(fr)
        self.depth += 1
        fn0, ord0 = self.fn, self.loop_ord
        try:
            for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                    [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if x not in bound:
                    bound[x] = self.ev(d)
            for x in names:
                if x not in bound:
                    raise Unsupported('missing argument %s of %s' % (x, fname))
            for x, v in bound.items():
                self.put(x, v)
            self.fn = fname
            self.loop_ord = {}
            if self.depth > 1:
                self.inlined.add(fname)
            try:
                self.block(node.body)
                r = NONE
            except ReturnEx as e:
                r = e.v
        finally:
            self.fn, self.loop_ord = fn0, ord0
            self.depth -= 1
            self.frames.pop()
        for l in [l for l in self.store if l[0] == 'v' and l[1] == fr.fid]:
            del self.store[l]
        return r

    def put(self, name, v):
        loc = self.var(name)
        self.names[loc] = name
        self.store[loc] = v

    # ---------------------------------------------------------------- statements
    def block(self, ss):
        for s in ss:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s in %s' % (type(s).__name__, self.fn))
            m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print':
            return
        self.ev(s.value)

    def s_Return(self, s):
        raise ReturnEx(NONE if s.value is None else self.ev(s.value))

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_Raise(self, s):
        raise ThrowEx(None)

    def s_Assert(self, s):
        if not self.branch(self.truth(self.ev(s.test))):
            raise ThrowEx(None)

    def s_If(self, s):
        if self.branch(self.truth(self.ev(s.test))):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        if s.finalbody or s.orelse:
            raise Unsupported('try with else or finally')
        self.block(s.body)

    def s_Delete(self, s):
        for t in s.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported('del')
            self.store.pop(self.var(t.id), None)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.put(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            if not isinstance(o, ObjV):
                raise Unsupported('attribute store')
            self.setf(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(t, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        x = self.val(v)
        if isinstance(x, tuple) and len(x) == n:
            return list(x)
        if isinstance(x, Log):
            ev = norm_ev(x.ev)
            if all(e[0] == 'app' for e in ev) and len(ev) == n:
                return [e[1] for e in ev]
        if isinstance(x, Arr) and x.dims[0].const() == n:
            return [self.item(v, (('i', topoly(i)),)) for i in range(n)]
        raise Unsupported('unpacking')

    def setitem(self, t, v):
        b = self.ev(t.value)
        x = self.val(b)
        if isinstance(x, Struct):
            k = self.ev(t.slice)
            if not isinstance(k, str):
                raise Unsupported('dictionary key')
            self.store_ref(b, x.set(k, v))
            return
        if not isinstance(b, Ref) or not isinstance(x, Arr):
            raise Unsupported('item assignment to %s' % type(x).__name__)
        r = self.index_ref(b, x, t.slice)
        if r is None:
            m = self.val(self.ev(t.slice))
            if isinstance(m, Arr) and m.es == 'b' and ndim(m) == ndim(x):
                w = self.num(v)
                if isinstance(w, Arr):
                    raise Unsupported('masked assignment of an array')
                self.checkes(x, w)
                self.store_ref(b, x.upd(lambda ix: m.get(*ix), lambda ix: w))
                return
            raise Unsupported('assignment through an index array')
        self.write(r, v)

    def checkes(self, x, w):
        o = {'b': 0, 'i': 1, 'r': 2, 'c': 3}
        if isinstance(w, Arr):
            if o[w.es] > max(2, o[x.es]):
                ix = [fresh('x', 'i') for _ in w.dims]
                if not isreal(w.get(*ix)):
                    raise Unsupported('complex value into a real array')
            if x.es == 'i' and w.es not in 'ib':
                raise Unsupported('real value into an integer array')
        elif isinstance(w, P):
            if x.es != 'c' and not isreal(w):
                raise Unsupported('complex value into a real array')
            if x.es == 'i' and not is_int(w):
                raise Unsupported('real value into an integer array')

    def write(self, r, v):
        """Write through a view, broadcasting the value."""
        x = self.load(r)
        w = v if isinstance(v, F) else self.num(v)
        if isinstance(w, Log):
            raise Unsupported('write of an irregular list')
        base = self.val(Ref(r.loc))
        if isinstance(base, Arr):
            self.checkes(base, w)
        if isinstance(x, Arr):
            if isinstance(w, Arr):
                if ndim(w) > ndim(x):
                    if ndim(w) == 2 and w.dims[0] == 1 and ndim(x) == 1:
                        w2 = w
                        w = Arr('vec', w2.es, (w2.dims[1],), lambda ix: w2.get(ZERO, ix[0]))
                    else:
                        raise Unsupported('write of a larger array')
                off = ndim(x) - ndim(w)
                for n, d in enumerate(w.dims):
                    if d != 1:
                        self.samedim(x.dims[off + n], d, 'assignment')
                w2_ = w
                w = Arr(x.kind, x.es, x.dims,
                        lambda ix: w2_.get(*[ZERO if d == 1 else ix[off + n] for n, d in enumerate(w2_.dims)]))
            elif r.path == ():
                c = w
                w = Arr(x.kind, x.es, x.dims, lambda ix: c)
        elif isinstance(w, Arr):
            if all(d == 1 for d in w.dims):
                w = w.get(*[ZERO for _ in w.dims])
            else:
                raise Unsupported('array into an element')
        self.store_ref(r, w)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        v = self.ev(s.value)
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()))
            x = self.val(old)
            if isinstance(x, Arr) and isinstance(old, Ref):
                self.inplace(old, op, v)
            elif isinstance(x, Log) and op == 'Add':
                self.extend(old, v)
            else:
                self.put(t.id, self.binop(op, old, v))
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            x = self.val(old)
            if isinstance(x, Arr) and isinstance(old, Ref):
                self.inplace(old, op, v)
            elif isinstance(x, Log) and op == 'Add':
                self.extend(old, v)
            else:
                self.setf(o, t.attr, self.binop(op, old, v))
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            x = self.val(b)
            if isinstance(x, Struct):
                old = self.getitem(b, t.slice)
                if isinstance(self.val(old), Arr):
                    self.inplace(old, op, v)
                else:
                    self.store_ref(b, x.set(self.ev(t.slice), self.binop(op, old, v)))
                return
            if isinstance(x, Arr):
                r = self.index_ref(b, x, t.slice)
                if r is not None:
                    self.inplace(r, op, v)
                    return
        raise Unsupported('augmented assignment')

    def inplace(self, r, op, v):
        x = self.load(r)
        w = self.arith(op, x, v)
        if isinstance(x, Arr):
            if not isinstance(w, Arr) or ndim(w) != ndim(x):
                raise Unsupported('in-place operation changes the shape')
            for a, b in zip(x.dims, w.dims):
                self.samedim(a, b, 'in-place operation')
        self.write(r, w)

    def s_While(self, s):
        if s.orelse:
            raise Unsupported('while-else')
        self._loop(lambda: self.truth(self.ev(s.test)), lambda: self.block(s.body), lambda: None)

    def s_For(self, s):
        if s.orelse:
            raise Unsupported('for-else')
        self.foreach(self.ev(s.iter), lambda x: self.assign(s.target, x), lambda: self.block(s.body))

    def foreach(self, it, bind, body):
        n, get = self.seq(it)
        if isinstance(n, int):
            for i in range(n):
                try:
                    bind(get(i))
                    body()
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            return
        loc = ('v', self.frame().fid, 'iter%d' % (len(self.loopvars) + 1))
        while loc in self.store:
            loc = loc[:2] + (loc[2] + "'",)
        self.names[loc] = 'iteration'
        self.store[loc] = ZERO

        def bd():
            bind(get(self.store[loc]))
            body()

        def inc():
            self.store[loc] = self.store[loc] + 1
        try:
            self._loop(lambda: lt(self.store[loc], n), bd, inc, {loc: lambda kp: kp})
        finally:
            self.store.pop(loc, None)

    def _loop(self, cond, body, inc, closed=None):
        lo = self.loop_ord
        key = lo.get('pre', ()) + (lo.get('n', 0),)
        lo['n'] = lo.get('n', 0) + 1
        h = self.hints.get((self.fn, key if len(key) > 1 else key[0])) or self.hints.get((self.fn, '*'))
        h = dict(h or {}, closed=closed or {})
        for nm, f in h.get('vars', {}).items():
            l = self.var(nm)
            if l in self.store:
                v = self.store[l]
                if f.__code__.co_argcount == 2:     # closed form in terms of the value on entry
                    f = (lambda f, v0: lambda kp: f(kp, v0))(f, self.val(v))
                h['closed'][v.loc if isinstance(v, Ref) and not v.path else l] = f
                h['soft'] = h.get('soft', ()) + (v.loc if isinstance(v, Ref) and not v.path else l,)
        h['closed'].update(h.get('locs', {}))
        keys = set(self.store)
        for l, v in list(self.store.items()):
            if l[0] == 'v' and isinstance(v, Ref) and not v.path and l[1] == self.frame().fid:
                self.names[v.loc] = l[2]

        def bd():
            head = dict(self.store)
            self.loop_ord = {'pre': key}
            try:
                body()
            except ContinueEx:
                pass
            finally:
                self.loop_ord = lo
            self.canon(keys, head)
        Ctx.loop(self, cond, bd, inc, hint=h)

    def canon(self, keys, head):
        """Names rebound in the body to a new array: the array takes the place of the old one."""
        for L in list(head):
            if L not in keys or L not in self.store:
                continue
            v, v0 = self.store[L], head[L]
            if same(v, v0) or not isinstance(v, Ref) or not isinstance(v0, Ref) or v0.path:
                continue
            if v.loc in keys or v0.loc[2] != v.loc[2]:
                continue
            users = []
            for K in self.store:
                if K in keys and K != L:
                    rs = refs(self.store[K])
                    if v0.loc in rs or v.loc in rs:
                        users.append(K)
            if users:
                continue
            x = self.load(v)
            self.store[v0.loc] = x
            self.store[L] = v0

    # ---------------------------------------------------------------- sequences
    def seq(self, it):
        """(length, element function); a Python int as length means concrete."""
        v = self.val(it)
        if isinstance(v, Rng):
            return v.n, (lambda j: v.lo + v.step * j)
        if isinstance(v, tuple):
            return len(v), (lambda i: v[i])
        if isinstance(v, Opaque) and v.k == 'keys':
            ks = v.d[0]
            return len(ks), (lambda i: ks[i])
        if isinstance(v, Opaque) and v.k == 'zip':
            ss = [self.seq(x) for x in v.d[0]]
            if all(isinstance(n, int) for n, g in ss):
                return min(n for n, g in ss), (lambda i: tuple(g(i) for n, g in ss))
            n0 = topoly(ss[0][0])
            for n, g in ss[1:]:
                if topoly(n) != n0 and not self.branch(le(n0, topoly(n))):
                    n0 = topoly(n)
            return n0, (lambda j: tuple(g(j) for n, g in ss))
        if isinstance(v, Opaque) and v.k == 'enumerate':
            n, g = self.seq(v.d[0])
            return n, (lambda j: (topoly(j), g(j)))
        if isinstance(v, Opaque) and v.k == 'map':
            n, g = self.seq(v.d[1])
            return n, (lambda j: self.callv(v.d[0], [g(j)], {}))
        if isinstance(v, Seq):
            return v.n, v.get
        if isinstance(v, Arr):
            c = v.dims[0].const()
            g = lambda j: self.item(it, (('i', topoly(j)),)) if isinstance(it, Ref) else v.get(topoly(j))
            if c is not None and c <= 10:
                return int(c), g
            return v.dims[0], g
        if isinstance(v, Log):
            ev = norm_ev(v.ev)
            if all(e[0] == 'app' for e in ev):
                return len(ev), (lambda i: ev[i][1])
            s = self.logseq(it, v)
            return s.n, s.get
        raise Unsupported('iteration over %s' % type(v).__name__)

    def logseq(self, it, v):
        ev = norm_ev(v.ev)
        if len(ev) == 1 and ev[0][0] == 'rep' and len(ev[0][3]) == 1 and ev[0][3][0][0] == 'app':
            _, k, n, body = ev[0]
            return Seq(n, lambda j: subst_val(body[0][1], {vname(k): topoly(j)}))
        # a list built irregularly: from here on an arbitrary sequence of such elements
        if not isinstance(it, Ref) or it.path:
            raise Unsupported('irregular list')
        el = first_el(ev)
        nm = 'list%s' % next(self.nfresh)
        n = Var('n_' + nm, 'i')
        if not self.loopvars:
            self.assume(le(0, n))
            g = And(*nonempty(ev))
            if entails(self.pc, g):
                self.assume(le(1, n))

            def get(j, nm=nm):
                return abstract(nm, el, topoly(j))
            s = Seq(n, get)
            self.cuts[nm] = v
            self.store[it.loc] = s
            self.last_cut = (v, s)
            return s
        raise Unsupported('irregular list in a loop')

    def length(self, v):
        x = self.val(v)
        if isinstance(x, Arr):
            return x.dims[0]
        if isinstance(x, (tuple, str)):
            return topoly(len(x))
        if isinstance(x, Struct):
            return topoly(len(x.f))
        if isinstance(x, Rng):
            return x.n
        if isinstance(x, Log):
            return log_len(x.ev)
        if isinstance(x, Seq):
            return x.n
        if isinstance(x, Opaque) and x.k == 'keys':
            return topoly(len(x.d[0]))
        raise Unsupported('len of %s' % type(x).__name__)

    def extend(self, r, v):
        """list.extend / += ; vecD.extend"""
        x = self.val(r)
        if isinstance(x, Log):
            w = self.val(v)
            if isinstance(w, Log):
                self.store_ref(r, Log(x.ev + w.ev))
                return
            n, g = self.seq(v)
            if isinstance(n, int):
                for i in range(n):
                    x = x.add('app', g(i))
                self.store_ref(r, x)
                return
            k = Var('x%s' % next(self.nfresh), 'i')
            self.store_ref(r, Log(x.ev + (('rep', k, n, (('app', g(k)),)),)))
            return
        if isinstance(x, Arr) and self.typ(r) in ('vecD', 'vecC', 'vecvecD'):
            w = self.num(v)
            if isinstance(w, P) or isinstance(w, Log) or ndim(w) != 1 and self.typ(r) != 'vecvecD':
                raise Unsupported('extend by this value')
            if self.typ(r) == 'vecD' and w.es == 'c':
                ix = fresh('x', 'i')
                if not is_real(w.get(ix)):
                    raise Unsupported('complex values into a vector of doubles')
            self.store_ref(r, concat(x, w) if not x.dims[0].iszero() else
                           Arr('vec', x.es, w.dims, w.fn, w.base, w.cond, w.val))
            return
        raise Unsupported('extend')

    def append(self, r, v):
        x = self.val(r)
        if isinstance(x, Log):
            if isinstance(v, Ref) and isinstance(self.val(v), Arr):
                v = self.val(v)      # the array as it is now
            self.store_ref(r, x.add('app', v))
            return
        if isinstance(x, Arr) and self.typ(r) in ('vecD', 'vecC'):
            w = self.num(v)
            if not isinstance(w, P):
                raise Unsupported('append of an array')
            self.store_ref(r, concat(x, Arr('vec', x.es, (ONE,), lambda ix: w)))
            return
        raise Unsupported('append')

    # ---------------------------------------------------------------- indexing
    def slice_nodes(self, s):
        return list(s.elts) if isinstance(s, ast.Tuple) else [s]

    def index_ref(self, b, x, s):
        """Reference to the part of an array selected by a basic index, or None for an index array."""
        nodes = self.slice_nodes(s)
        items, newax, pos, ax = [], [], 0, 0
        nreal = sum(1 for q in nodes if not (isinstance(q, ast.Constant) and q.value in (None, Ellipsis)
                                             or self.is_newaxis(q)))
        for q in nodes:
            if isinstance(q, ast.Constant) and q.value is Ellipsis:
                for _ in range(ndim(x) - nreal):
                    items.append(('s', ZERO, x.dims[ax], 1))
                    ax += 1
                    pos += 1
                continue
            if self.is_newaxis(q):
                newax.append(pos)
                pos += 1
                continue
            if ax >= ndim(x):
                raise Unsupported('too many indices')
            d = x.dims[ax]
            if isinstance(q, ast.Slice):
                items.append(self.slc(q, d))
                pos += 1
            else:
                i = self.ev(q)
                if isinstance(i, Ref) or isinstance(i, (Arr, tuple)):
                    return None
                if not isinstance(i, P):
                    raise Unsupported('index')
                items.append(('i', self.idx(i, d)))
            ax += 1
        while ax < ndim(x):
            items.append(('s', ZERO, x.dims[ax], 1))
            ax += 1
        if x.kind == 'mtx' and any(i[0] == 'i' for i in items):
            if not all(i[0] == 'i' for i in items):
                # a matrix stays two-dimensional
                if len(nodes) == 1 and items[0][0] == 'i':
                    items[0] = ('s', items[0][1], ONE, 1)
                else:
                    items = [('s', i[1], ONE, 1) if i[0] == 'i' else i for i in items]
        return Ref(b.loc, b.path + (('np', tuple(items), tuple(newax)),))

    def is_newaxis(self, q):
        return isinstance(q, ast.Constant) and q.value is None or isinstance(q, ast.Attribute) and q.attr == 'newaxis'

    def idx(self, i, d):
        c = i.const()
        if c is not None:
            if c.denominator != 1:
                raise Unsupported('index is not an integer')
            if c < 0:
                i = d + i
        elif not is_int(i) and not self.quiet:
            raise Unsupported('index is not an integer')
        elif not entails(self.pc, le(0, i)) and entails(self.pc, lt(i, 0)):
            i = d + i
        self.oblig('index in range in %s' % self.fn, And(le(0, i), lt(i, d)), 'bounds')
        return i

    def slc(self, q, d):
        def end(e):
            v = self.ev(e)
            if not isinstance(v, P) or not is_int(v):
                raise Unsupported('slice bound')
            c = v.const()
            if c is not None and c < 0:
                v = d + v
            return self.simp(Min(Max(v, ZERO), d))
        none = lambda e: e is None or isinstance(e, ast.Constant) and e.value is None
        step = 1
        if not none(q.step):
            c = self.ev(q.step)
            c = c.const() if isinstance(c, P) else None
            if c is None or c.denominator != 1 or c == 0:
                raise Unsupported('slice step')
            step = int(c)
        if step < 0:
            if step != -1 or not none(q.lower) or not none(q.upper):
                raise Unsupported('negative slice step')
            return ('s', d - 1, d, -1)
        lo = ZERO if none(q.lower) else end(q.lower)
        hi = d if none(q.upper) else end(q.upper)
        n = self.simp(Max(hi - lo, ZERO))
        if step > 1:
            n = Idiv(n + step - 1, topoly(step))
        return ('s', lo, n, step)

    def item(self, b, idx):
        """Element or row i of an array."""
        x = self.val(b)
        items = tuple(idx) + tuple(('s', ZERO, d, 1) for d in x.dims[len(idx):])
        r = Ref(b.loc, b.path + (('np', items, ()),))
        if len(idx) == ndim(x):
            return self.load(r)
        return r

    def getitem(self, b, s):
        x = self.val(b)
        if isinstance(x, Struct):
            k = self.ev(s)
            if not isinstance(k, str) or k not in x.f:
                raise Unsupported('dictionary key %r' % (k,))
            return x.f[k]
        if isinstance(x, (tuple, Log, Seq, Rng)):
            if isinstance(s, ast.Slice):
                if isinstance(x, Log):
                    x = self.toarr(x)
                    if isinstance(x, Arr):
                        return self.alloc(Arr(x.kind, x.es, (self.slc(s, x.dims[0])[2],) + x.dims[1:],
                                              (lambda it: lambda ix: x.get(it[1] + it[3] * ix[0], *ix[1:]))(self.slc(s, x.dims[0]))))
                raise Unsupported('slice of a list')
            i = self.ev(s)
            if not isinstance(i, P):
                raise Unsupported('list index')
            c = i.const()
            if isinstance(x, tuple) and c is not None:
                return x[int(c)]
            if isinstance(x, Log):
                ev = norm_ev(x.ev)
                if all(e[0] == 'app' for e in ev) and c is not None:
                    if not -len(ev) <= int(c) < len(ev):
                        raise Unsupported('list index out of range')
                    return ev[int(c)][1]
                if c is not None and c < 0 and ev and ev[-1][0] == 'app' and c == -1:
                    return ev[-1][1]
                if c is not None and c >= 0 and all(e[0] == 'app' for e in ev[:int(c) + 1]) and len(ev) > c:
                    return ev[int(c)][1]
                q = self.logseq(b, x) if len(ev) == 1 else None
                if q is None:
                    p = self.toarr_pieces(ev, i)
                    if p is not None:
                        return p
                    q = self.logseq(b, x)
                x = q
            n, g = self.seq(x)
            i = self.idx(i, topoly(n))
            return g(i)
        if isinstance(x, Arr):
            r = self.index_ref(b, x, s) if isinstance(b, Ref) else None
            if r is None:
                if not isinstance(b, Ref):
                    raise Unsupported('index of a value')
                return self.fancy(b, x, s)
            if all(it[0] == 'i' for it in r.path[-1][1]) and not r.path[-1][2]:
                return self.load(r)
            return r
        if isinstance(x, str):
            i = self.ev(s)
            return x[int(i.const())]
        raise Unsupported('subscript of %s' % type(x).__name__)

    def toarr_pieces(self, ev, i):
        """Element i of a list made of pieces of known length."""
        pieces, off = [], ZERO
        for e in ev:
            if e[0] == 'app':
                pieces.append((off, ONE, (lambda v: lambda j: v)(e[1])))
                off = off + 1
            elif e[0] == 'rep' and len(e[3]) == 1 and e[3][0][0] == 'app':
                pieces.append((off, e[2], (lambda e: lambda j: subst_val(e[3][0][1], {vname(e[1]): j}))(e)))
                off = off + e[2]
            else:
                return None
        for n, (o, c, g) in enumerate(pieces[:-1]):
            if self.branch(lt(i, o + c)):
                return g(i - o)
        o, c, g = pieces[-1]
        self.oblig('index in range in %s' % self.fn, lt(i, o + c), 'bounds')
        return g(i - o)

    def fancy(self, b, x, s):
        nodes = self.slice_nodes(s)
        if len(nodes) == 1:
            m = self.num(self.ev(nodes[0]))
            if isinstance(m, Arr) and m.es == 'i' and ndim(m) == 1:
                k = fresh('k', 'i')
                self.oblig('index in range in %s' % self.fn, Forall(k, m.dims[0], And(le(0, m.get(k)), lt(m.get(k), x.dims[0]))), 'bounds')
                return self.alloc(Arr(x.kind, x.es, m.dims + x.dims[1:], lambda ix: x.get(m.get(ix[0]), *ix[1:])))
            if isinstance(m, Arr) and m.es == 'b' and ndim(m) == 1 and ndim(x) == 1:
                self.samedim(m.dims[0], x.dims[0], 'mask')
                f = self.where1(m)
                return self.alloc(Arr('vec', x.es, f.dims, lambda ix: x.get(f.get(ix[0]))))
        if len(nodes) == 2 and ndim(x) == 2:
            isl = [isinstance(q, ast.Slice) for q in nodes]
            if isl == [False, True] or isl == [True, False]:
                n = isl.index(False)
                m = self.num(self.ev(nodes[n]))
                it = self.slc(nodes[1 - n], x.dims[1 - n])
                if isinstance(m, Arr) and m.es == 'i' and ndim(m) == 1:
                    if n == 0:
                        return self.alloc(Arr('mat', x.es, (m.dims[0], it[2]), lambda ix: x.get(m.get(ix[0]), it[1] + it[3] * ix[1])))
                    return self.alloc(Arr('mat', x.es, (it[2], m.dims[0]), lambda ix: x.get(it[1] + it[3] * ix[0], m.get(ix[1]))))
        raise Unsupported('index array')

    def where1(self, m):
        """Ascending positions where a mask holds."""
        self.used('numpy: a mask selects the positions where it holds, in ascending order')
        x = fresh('m', 'i')
        cnt = Count(x, m.dims[0], m.get(x))
        k = arr_key(m)
        f = Arr('vec', 'i', (cnt,), lambda ix: App('find', k, ix[0], sort='i'))
        j = fresh('j', 'i')
        self.assume(le(0, cnt))
        self.assume(Forall(j, cnt, And(le(0, f.get(j)), lt(f.get(j), m.dims[0]), m.get(f.get(j)))))
        self.assume(Forall(j, cnt - 1, lt(f.get(j), f.get(j + 1))))
        rk = App('find_rank', k, j, sort='i')
        self.assume(Forall(j, m.dims[0], Implies(m.get(j), And(le(0, rk), lt(rk, cnt), eq(f.get(rk), j)))))
        return f

    # ---------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s in %s' % (type(e).__name__, self.fn))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return topoly(v)
        if isinstance(v, float):
            return topoly(Fraction(repr(v)))
        if isinstance(v, complex):
            return I * topoly(Fraction(repr(v.imag)))
        if isinstance(v, str):
            return v
        raise Unsupported('constant')

    def e_JoinedStr(self, e):
        return Opaque('text')

    def e_Name(self, e):
        loc = self.var(e.id)
        if loc in self.store:
            if self.store[loc] is None:
                raise Unsupported('uninitialised location %s' % e.id)
            return self.store[loc]
        nm = self.prog.names[self.frame().mod]
        if e.id in nm:
            v = nm[e.id]
            if isinstance(v, ast.AST):
                return self.ev(v)
            return v
        if e.id in BUILTINS:
            return Opaque('builtin', e.id)
        raise Unsupported('name %s in %s' % (e.id, self.fn))

    def e_Tuple(self, e):
        return tuple(self.ev(x) for x in e.elts)

    def e_List(self, e):
        return self.alloc(Log(tuple(('app', self.ev(x)) for x in e.elts)), 'list')

    def e_Dict(self, e):
        s = {}
        for k, v in zip(e.keys, e.values):
            k = self.ev(k)
            if not isinstance(k, str):
                raise Unsupported('dictionary key')
            s[k] = self.ev(v)
        return self.alloc(Struct(**s), 'dict')

    def e_ListComp(self, e):
        r = self.alloc(Log(), 'list')
        self.comp(e.generators, lambda: self.append(r, self.ev(e.elt)))
        return r

    e_GeneratorExp = e_ListComp

    def comp(self, gens, body):
        g = gens[0]

        def inner():
            for c in g.ifs:
                if not self.branch(self.truth(self.ev(c))):
                    return
            if len(gens) > 1:
                self.comp(gens[1:], body)
            else:
                body()
        saved = {}
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                saved[n.id] = self.store.pop(self.var(n.id), None)
        self.foreach(self.ev(g.iter), lambda x: self.assign(g.target, x), inner)
        for n, v in saved.items():
            if v is None:
                self.store.pop(self.var(n), None)
            else:
                self.store[self.var(n)] = v

    def e_Lambda(self, e):
        return Opaque('lambda', e, self.frame().fid)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.ev(e.body) if self.branch(c) else self.ev(e.orelse)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return Not(self.truth(v))
        if op == 'USub':
            return self.new(self.map(v, lambda x: -x))
        if op == 'UAdd':
            return v
        if op == 'Invert':
            x = self.val(v)
            if isinstance(x, Arr) and x.es == 'b':
                return self.new(x.map(Not))
        raise Unsupported('unary operator')

    def e_BinOp(self, e):
        r = self.binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
        if any(isinstance(o, ast.Constant) and isinstance(o.value, complex) for o in (e.left, e.right)):
            x = self.val(r)
            if isinstance(x, Arr) and x.es != 'c':      # the element type of the result is complex even where the value is real
                return self.alloc(Arr(x.kind, 'c', x.dims, lambda ix: x.get(*ix)))
        return r

    def binop(self, op, a, b):
        x, y = self.val(a), self.val(b)
        if isinstance(x, str) or isinstance(y, str) or isinstance(x, Opaque) and x.k == 'text':
            if isinstance(x, str) and isinstance(y, str) and op == 'Add':
                return x + y
            return Opaque('text')
        lst = lambda r, v: isinstance(v, Log) and self.typ(r) == 'list'
        if lst(a, x) or lst(b, y):
            if op == 'Add' and lst(a, x) and lst(b, y):
                return self.alloc(Log(x.ev + y.ev), 'list')
            if op == 'Mult' and (isinstance(x, P) or isinstance(y, P)):
                l, n = (x, y) if isinstance(y, P) else (y, x)
                k = Var('x%s' % next(self.nfresh), 'i')
                if n.const() is not None:
                    return self.alloc(Log(l.ev * int(n.const())), 'list')
                return self.alloc(Log((('rep', k, self.simp(Max(n, ZERO)), l.ev),)), 'list')
        if isinstance(x, tuple) and isinstance(y, tuple) and op == 'Add':
            return x + y
        if op in ('BitAnd', 'BitOr'):
            f = And if op == 'BitAnd' else Or
            if isinstance(x, F) and isinstance(y, F):
                return f(x, y)
            if isinstance(x, Arr) and isinstance(y, Arr) and x.es == y.es == 'b' and ndim(x) == ndim(y):
                return self.new(x.zip(y, f, 'b'))
            raise Unsupported(op)
        r = self.arith(op, a, b)
        if isinstance(r, Log):
            return self.alloc(r)
        return self.new(r)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        for n, x in enumerate(e.values):
            v = self.ev(x)
            if n == len(e.values) - 1:
                return v
            t = self.truth(v)
            d = self.decide(t)
            if d is None:
                # both operands as formulas when the second one is a plain comparison
                rest = e.values[n + 1:]
                if all(isinstance(q, ast.Compare) and not any(isinstance(z, ast.Call) for z in ast.walk(q)) for q in rest):
                    pc = list(self.pc)
                    self.pc = pc + [t if isand else Not(t)]
                    fs = [self.truth(self.ev(q)) for q in rest]
                    self.pc = pc
                    return (And if isand else Or)(t, *fs)
                d = self.branch(t)
            if d != isand:
                return v if not isinstance(v, F) else (FALSE if isand else TRUE)
        raise Unsupported('boolean operator')

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            out.append(self.compare(type(op).__name__, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return And(*[self.truth(x) for x in out])

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = isinstance(a, type(b)) and (a is b or a == b)
            if isinstance(a, Opaque) and a.k == 'maybe' and isnone(b):
                f = a.d[0]
                return f if op == 'Is' else Not(f)
            return tof(r if op == 'Is' else not r)
        x, y = self.val(a), self.val(b)
        if op in ('In', 'NotIn'):
            n, g = self.seq(b)
            if not isinstance(n, int):
                raise Unsupported('membership')
            f = Or(*[self.truth(self.compare('Eq', a, g(i))) for i in range(n)])
            return f if op == 'In' else Not(f)
        if isinstance(x, str) and isinstance(y, str):
            return tof({'Eq': x == y, 'NotEq': x != y}[op])
        if op in ('Eq', 'NotEq') and not (isinstance(x, (P, Arr, F)) and isinstance(y, (P, Arr, F))):
            if type(x) is not type(y) or isinstance(x, Opaque):
                r = type(x) is type(y) and x == y
                return tof(r if op == 'Eq' else not r)
            raise Unsupported('comparison of %s' % type(x).__name__)
        fs = {'Eq': eq, 'NotEq': ne, 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}
        if isinstance(x, F) and isinstance(y, F) and op in ('Eq', 'NotEq'):
            return Iff(x, y) if op == 'Eq' else Not(Iff(x, y))
        r = self.broadcast([a, b], fs[op], 'b')
        return self.new(r) if isinstance(r, Arr) else r

    def truth(self, v):
        x = self.val(v)
        if isinstance(x, F):
            return x
        if isinstance(x, bool):
            return tof(x)
        if isinstance(x, P):
            return ne(x, 0)
        if isnone(x):
            return FALSE
        if isinstance(x, str):
            return tof(bool(x))
        if isinstance(x, ObjV):
            return TRUE
        if isinstance(x, Log):
            return gt(log_len(x.ev), 0)
        if isinstance(x, tuple):
            return tof(bool(x))
        if isinstance(x, Arr) and all(d == 1 for d in x.dims):
            return self.truth(x.get(*[ZERO for _ in x.dims]))
        raise Unsupported('truth value of %s' % type(x).__name__)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), e.slice)

    def e_Attribute(self, e):
        r = self.getattr(self.ev(e.value), e.attr)
        if e.attr == 'T' and isinstance(r, Ref) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) \
                and e.value.func.attr in ('matrix', 'array', 'zeros', 'ones', 'empty'):
            return self.alloc(self.val(r))      # nothing else refers to the array just made: no need for a view
        return r

    def getattr(self, o, name):
        if isinstance(o, Opaque) and o.k == 'py':
            d = o.d[0] + '.' + name
            if d == 'numpy.pi':
                return PI
            if d == 'numpy.newaxis':
                return NONE
            if d.startswith('samplers.') and name in self.prog.classes:
                return Opaque('cls', name)
            return Opaque('py', d)
        if isinstance(o, Opaque) and o.k == 'super':
            return Opaque('bound', o, name)
        if isinstance(o, ObjV):
            loc = ('f', o.id, name)
            if loc in self.store:
                if self.store[loc] is None:
                    raise Unsupported('uninitialised location %s' % name)
                return self.store[loc]
            c = self.contracts.get('attr:%s.%s' % (o.cls, name))
            if c is not None:
                return c(self, o)
            if o.cls in self.prog.classes:
                if self.prog.method(o.cls, name) is None:
                    raise Unsupported('attribute %s of %s' % (name, o.cls))
            return Opaque('bound', o, name)
        if isinstance(o, Struct):
            return o.f[name]
        x = self.val(o)
        if isinstance(x, Arr):
            if name == 'size':
                return x.n()
            if name == 'shape':
                return tuple(x.dims)
            if name == 'ndim':
                return topoly(ndim(x))
            if name in ('real', 'imag'):
                return Ref(o.loc, o.path + ((name,),))
            if name == 'T':
                return Ref(o.loc, o.path + (('T',),))
            if name == 'H':
                t = self.sel(x, ('T',))
                return self.alloc(t.map(conj))
            if name == 'dtype':
                return Opaque('dtype', x.es)
        if isinstance(x, P) and name in ('real', 'imag'):
            return real(x) if name == 'real' else imag(x)
        return Opaque('bound', o, name)

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            return NONE
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.var('super') not in self.store:
            a = [self.ev(x) for x in e.args]
            if a:
                return Opaque('super', a[0].d[0], a[1])
            return Opaque('super', self.frame().cls, self.store[self.var('self')])
        f = self.ev(e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                n, g = self.seq(v)
                if not isinstance(n, int):
                    raise Unsupported('argument list')
                args += [g(i) for i in range(n)]
            else:
                args.append(self.ev(x))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('keyword dictionary')
            kw[k.arg] = self.ev(k.value)
        return self.callv(f, args, kw)

    def contract(self, keys, o, args, kw):
        for k in keys:
            if k in self.contracts:
                self.used_contracts.add(k)
                return True, self.contracts[k](self, o, args, kw)
        return False, None

    def callv(self, f, args, kw):
        if not isinstance(f, Opaque):
            raise Unsupported('call of %s' % type(f).__name__)
        if f.k == 'builtin':
            return self.builtin(f.d[0], args, kw)
        if f.k == 'lambda':
            e = f.d[0]
            if kw or e.args.defaults or len(e.args.args) != len(args):
                raise Unsupported('lambda call')
            if f.d[1] != self.frame().fid:
                raise Unsupported('closure')
            old = {}
            for p, v in zip(e.args.args, args):
                l = self.var(p.arg)
                old[l] = self.store.get(l)
                self.store[l] = v
            r = self.ev(e.body)
            for l, v in old.items():
                if v is None:
                    del self.store[l]
                else:
                    self.store[l] = v
            return r
        if f.k == 'py':
            d = f.d[0]
            ok, r = self.contract([d], None, args, kw)
            if ok:
                return r
            if d.split('.')[0] in ('_carmcmc',) or d.startswith('carmcmc'):
                n = d.split('.')[-1]
                if n in ('vecD', 'vecC') and not args and not kw:
                    return self.alloc(Arr('vec', 'r' if n == 'vecD' else 'c', (ZERO,), lambda ix: ZERO), n)
                raise Unsupported('no contract for %s' % d)
            m = getattr(self, 'n_' + d.replace('numpy.', '').replace('.', '_'), None)
            if m is None:
                raise Unsupported('no contract for %s' % d)
            return m(*args, **kw)
        if f.k == 'fun':
            mod, name = f.d
            ok, r = self.contract([name], None, args, kw)
            if ok:
                return r
            return self.invoke(mod, name, self.prog.funcs[mod, name], None, args, kw)
        if f.k == 'cls':
            ok, r = self.contract([f.d[0]], None, args, kw)
            if ok:
                return r
            o = self.newobj(f.d[0])
            if self.prog.method(f.d[0], '__init__'):
                self.run_method(f.d[0], '__init__', o, args, kw)
            return o
        if f.k == 'bound':
            o, name = f.d
            if isinstance(o, Opaque) and o.k == 'super':
                cls, this = o.d
                m = self.prog.method(this.cls, name, after=cls)
                if m is None:
                    if name == '__init__':
                        return NONE
                    raise Unsupported('super().%s' % name)
                ok, r = self.contract(['%s.%s' % (m[0], name)], this, args, kw)
                if ok:
                    return r
                return self.invoke(self.prog.classes[m[0]][0], '%s.%s' % (m[0], name), m[1], m[0], [this] + args, kw)
            if isinstance(o, ObjV):
                m = self.prog.method(o.cls, name) if o.cls in self.prog.classes else None
                keys = (['%s.%s' % (m[0], name)] if m else []) + ['%s.%s' % (o.cls, name), '*.' + name]
                ok, r = self.contract(keys, o, args, kw)
                if ok:
                    return r
                if m is None:
                    raise Unsupported('no contract for %s.%s' % (o.cls, name))
                return self.invoke(self.prog.classes[m[0]][0], '%s.%s' % (m[0], name), m[1], m[0], [o] + args, kw)
            return self.method(o, name, args, kw)
        raise Unsupported('call of %s' % f.k)

    # ---------------------------------------------------------------- built-in functions and methods
    def builtin(self, name, a, kw):
        if name == 'range':
            if len(a) == 1:
                lo, hi = ZERO, a[0]
            elif len(a) == 2:
                lo, hi = a
            else:
                lo, hi, st = a
                c = st.const() if isinstance(st, P) and isinstance(lo, P) and isinstance(hi, P) else None
                if c is None or c < 1 or not is_int(lo) or not is_int(hi):
                    raise Unsupported('range with a step')
                if c > 1:
                    n = Idiv(hi - lo + (int(c) - 1), topoly(int(c))) if self.branch(ge(hi, lo)) else ZERO
                    return Rng(lo, n, int(c))
            if not (isinstance(lo, P) and isinstance(hi, P) and is_int(lo) and is_int(hi)):
                raise Unsupported('range bounds')
            n = self.simp(Max(hi - lo, ZERO)) if (hi - lo).const() is not None or entails(self.pc, ge(hi, lo)) else hi - lo
            if n.const() is not None and n.const() <= 8:
                return tuple(lo + i for i in range(max(0, int(n.const()))))
            return Rng(lo, n)
        if name == 'len':
            return self.length(a[0])
        if name in ('int', 'float', 'complex'):
            if not a:
                return ZERO
            if name == 'int':
                return self.toint(a[0])
            v = self.num(a[0])
            if isinstance(v, Arr) and all(d == 1 for d in v.dims):
                v = v.get(*[ZERO for _ in v.dims])
            if not isinstance(v, P):
                raise Unsupported(name)
            if name == 'complex' and len(a) == 2:
                v = v + I * self.num(a[1])
            return v
        if name in ('min', 'max'):
            if len(a) == 1:
                return self.n_min(a[0]) if name == 'min' else self.n_max(a[0])
            r = self.num(a[0])
            for x in a[1:]:
                x = self.num(x)
                if not (isinstance(r, P) and isinstance(x, P)):
                    raise Unsupported(name)
                r = self.simp((Min if name == 'min' else Max)(r, x))
            return r
        if name == 'abs':
            return self.n_abs(a[0])
        if name == 'sum':
            v = self.num(a[0])
            if isinstance(v, Arr) and ndim(v) == 1:
                return SumR(0, v.dims[0], lambda j: v.get(j))
            raise Unsupported('sum')
        if name == 'pow':
            return self.binop('Pow', a[0], a[1])
        if name == 'list':
            if not a:
                return self.alloc(Log(), 'list')
            v = self.val(a[0])
            if isinstance(v, Log):
                return self.alloc(v, 'list')
            r = self.alloc(Log(), 'list')
            if isinstance(v, Opaque) and v.k == 'map':
                self.foreach(v.d[1], lambda x: self.put('map item', x),
                             lambda: self.append(r, self.callv(v.d[0], [self.store[self.var('map item')]], {})))
                self.store.pop(self.var('map item'), None)
            else:
                self.foreach(a[0], lambda x: self.put('list item', x), lambda: self.append(r, self.store[self.var('list item')]))
                self.store.pop(self.var('list item'), None)
            return r
        if name == 'tuple':
            n, g = self.seq(a[0])
            if isinstance(n, int):
                return tuple(g(i) for i in range(n))
            raise Unsupported('tuple')
        if name == 'dict':
            if a or kw:
                raise Unsupported('dict')
            return self.alloc(Struct(), 'dict')
        if name == 'zip':
            return Opaque('zip', tuple(a))
        if name == 'map':
            return Opaque('map', a[0], a[1])
        if name == 'enumerate':
            return Opaque('enumerate', a[0])
        if name == 'bool':
            return self.truth(a[0])
        if name == 'str':
            return Opaque('text')
        raise Unsupported('builtin ' + name)

    def method(self, o, name, a, kw):
        x = self.val(o)
        if isinstance(x, str):
            if name in ('lower', 'upper', 'strip') and not a:
                return getattr(x, name)()
            if name == 'format':
                return Opaque('text')
        if isinstance(x, Struct):
            if name == 'keys':
                return Opaque('keys', tuple(x.f))
            if name == 'values':
                return tuple(x.f.values())
            if name == 'items':
                return tuple(x.f.items())
            if name == 'get' and isinstance(a[0], str):
                return x.f.get(a[0], a[1] if len(a) > 1 else NONE)
            if name == 'copy':
                return self.alloc(Struct(**x.f), 'dict')
        if isinstance(x, Log):
            if name == 'append':
                self.append(o, a[0])
                return NONE
            if name == 'extend':
                self.extend(o, a[0])
                return NONE
            if name == 'copy':
                return self.alloc(x, 'list')
        if isinstance(x, Opaque) and x.k == 'pool':
            if name == 'map':
                self.used('multiprocessing.Pool.map: the list of results in the order of the arguments')
                return self.builtin('list', [Opaque('map', a[0], a[1])], {})
            if name in ('terminate', 'close', 'join'):
                return NONE
        if isinstance(x, Arr) and self.typ(o) in ('vecD', 'vecC', 'vecvecD'):
            if name == 'append':
                self.append(o, a[0])
                return NONE
            if name == 'extend':
                self.extend(o, a[0])
                return NONE
        if isinstance(x, (Arr, P)):
            if name == 'copy':
                return self.new(x)
            if name == 'sort':
                ok, r = self.contract(['ndarray.sort'], o, a, kw)
                if ok:
                    return r
                s = self.sorted_idx(x)
                self.store_ref(o, Arr('vec', x.es, x.dims, lambda ix: x.get(s.get(ix[0]))))
                return NONE
            if name == 'ravel' or name == 'flatten':
                return self.alloc(self.flat(x))
            if name == 'item':
                if isinstance(x, P):
                    return x
                if a:
                    raise Unsupported('item with an index')
                if not all(d == 1 for d in x.dims):
                    for d in x.dims:
                        self.samedim(d, ONE, 'item')
                return x.get(*[ZERO for _ in x.dims])
            if name == 'conj':
                name = 'conjugate'
            if name == 'astype':
                if isinstance(a[0], Opaque) and a[0].k == 'builtin' and a[0].d[0] == 'float' and x.es != 'c':
                    return self.alloc(Arr(x.kind, 'r', x.dims, x.fn, x.base, x.cond, x.val))
                if isinstance(a[0], Opaque) and a[0].k == 'builtin' and a[0].d[0] == 'complex':
                    return self.alloc(Arr(x.kind, 'c', x.dims, x.fn, x.base, x.cond, x.val))
                raise Unsupported('astype')
            if name == 'tolist' and ndim(x) == 1:
                return self.builtin('list', [o], {})
            if name in ('min', 'max', 'std', 'var', 'mean', 'sum', 'prod', 'argmax', 'argmin', 'argsort', 'conjugate', 'dot', 'any', 'all', 'squeeze'):
                return getattr(self, 'n_' + name)(o, *a, **kw)
            if name == 'reshape':
                raise Unsupported('reshape')
        raise Unsupported('method %s of %s' % (name, type(x).__name__))

    def flat(self, x):
        if ndim(x) == 1:
            return x
        if x.dims[1] == 1:
            return Arr('vec', x.es, (x.dims[0],), lambda ix: x.get(ix[0], ZERO))
        if x.dims[0] == 1:
            return Arr('vec', x.es, (x.dims[1],), lambda ix: x.get(ZERO, ix[0]))
        c = x.dims[1]
        return Arr('vec', x.es, (x.n(),), lambda ix: x.get(Idiv(ix[0], c), Imod(ix[0], c)))

    # ---------------------------------------------------------------- numpy
    def es_of(self, dtype, default='r'):
        if dtype is None or isnone(dtype):
            return default
        if isinstance(dtype, Opaque) and dtype.k == 'builtin':
            return {'complex': 'c', 'float': 'r', 'int': 'i', 'bool': 'b'}[dtype.d[0]]
        if isinstance(dtype, Opaque) and dtype.k == 'dtype':
            return dtype.d[0]
        if isinstance(dtype, Opaque) and dtype.k == 'py':
            n = dtype.d[0].split('.')[-1]
            if n.startswith('complex'):
                return 'c'
            if n.startswith('float') or n == 'double':
                return 'r'
            if n.startswith('int'):
                return 'i'
        if isinstance(dtype, str):
            if dtype.startswith('complex'):
                return 'c'
            if dtype.startswith('float'):
                return 'r'
        raise Unsupported('dtype')

    def full(self, shape, es, v):
        s = self.val(shape)
        if isinstance(s, P):
            s = (s,)
        if isinstance(s, Log):
            s = tuple(e[1] for e in s.ev)
        if not all(isinstance(d, P) and is_int(d) for d in s):
            raise Unsupported('shape')
        kind = 'vec' if len(s) == 1 else 'mat'
        return self.alloc(Arr(kind, es, s, (lambda ix: v) if v is not None else
                              (lambda nm, lv: lambda ix: El(nm, *(lv + tuple(ix)), sort=es))('garbage!%s' % next(self.nfresh), tuple(self.loopvars))))

    def n_zeros(self, shape, dtype=None):
        return self.full(shape, self.es_of(dtype), ZERO)

    def n_ones(self, shape, dtype=None):
        return self.full(shape, self.es_of(dtype), ONE)

    def n_empty(self, shape, dtype=None):
        return self.full(shape, self.es_of(dtype), None)

    def n_full(self, shape, v, dtype=None):
        v = self.num(v)
        return self.full(shape, self.es_of(dtype, 'r' if is_real(v) else 'c'), v)

    def like(self, a, v, dtype=None):
        x = self.num(a)
        return self.alloc(Arr(x.kind, self.es_of(dtype, x.es), x.dims, lambda ix: v))

    def n_zeros_like(self, a, dtype=None):
        return self.like(a, ZERO, dtype)

    def n_ones_like(self, a, dtype=None):
        return self.like(a, ONE, dtype)

    def n_empty_like(self, a, dtype=None):
        x = self.num(a)
        return self.alloc(self.fresh_arr('garbage', x.kind, self.es_of(dtype, x.es), x.dims))

    def n_array(self, a, dtype=None, copy=None):
        x = self.toarr(a) if not isinstance(self.val(a), Arr) else self.val(a)
        if isinstance(x, P):
            return x
        if isinstance(x, Arr):
            es = self.es_of(dtype, x.es)
            if es != x.es and not (es == 'c' or es == 'r' and x.es in 'ib'):
                raise Unsupported('conversion of an array')
            return self.alloc(Arr('vec' if ndim(x) == 1 else 'mat', es, x.dims, x.fn, x.base, x.cond, x.val))
        return self.alloc(x)

    def n_asarray(self, a, dtype=None):
        if isinstance(a, Ref) and isinstance(self.val(a), Arr) and self.typ(a) == 'nd' and self.val(a).kind != 'mtx' \
                and self.es_of(dtype, self.val(a).es) == self.val(a).es:
            return a
        return self.n_array(a, dtype)

    n_ascontiguousarray = n_asarray

    def n_atleast_1d(self, a):
        x = self.val(a)
        if isinstance(x, P):
            return self.alloc(Arr('vec', 'r' if is_real(x) else 'c', (ONE,), lambda ix: x))
        return self.n_asarray(a)

    def n_matrix(self, a):
        x = self.num(a)
        if ndim(x) == 1:
            return self.alloc(Arr('mtx', x.es, (ONE, x.dims[0]), lambda ix: x.get(ix[1])))
        return self.alloc(Arr('mtx', x.es, x.dims, x.fn, x.base, x.cond, x.val))

    n_asmatrix = n_matrix

    def n_append(self, a, b):
        x, y = self.num(a), self.num(b)
        if isinstance(x, P):
            x = self.val(self.n_atleast_1d(x))
        if isinstance(y, P):
            y = self.val(self.n_atleast_1d(y))
        if ndim(x) != 1 or ndim(y) != 1:
            raise Unsupported('append of matrices')
        return self.alloc(concat(x, y))

    def n_concatenate(self, t):
        n, g = self.seq(t)
        if not isinstance(n, int):
            raise Unsupported('concatenate')
        r = self.num(g(0))
        for i in range(1, n):
            r = concat(r, self.num(g(i)))
        return self.alloc(r)

    n_hstack = n_concatenate

    def n_resize(self, a, n):
        self.used('numpy.resize: repeats the elements')
        x = self.num(a)
        if ndim(x) != 1 or not isinstance(n, P):
            raise Unsupported('resize')
        m = x.dims[0]

        def fn(ix):
            i = ix[0]
            c = m.const()
            if c == 1:
                return x.get(ZERO)
            return Ite(lt(i, m), x.get(i), x.get(App('mod', i, m, sort='i')))
        return self.alloc(Arr('vec', x.es, (n,), fn))

    def n_arange(self, a, b=None):
        lo, hi = (ZERO, a) if b is None else (a, b)
        if not (is_int(lo) and is_int(hi)):
            raise Unsupported('arange')
        return self.alloc(Arr('vec', 'i', (self.simp(Max(hi - lo, ZERO)),), lambda ix: lo + ix[0]))

    def n_exp(self, a):
        return self.new(self.map(a, Exp, self.fes(a)))

    def fes(self, a):
        v = self.num(a)
        return None if not isinstance(v, Arr) else 'c' if v.es == 'c' else 'r'

    def n_log(self, a):
        return self.new(self.map(a, T.Log, self.fes(a)))

    def n_sqrt(self, a):
        return self.new(self.map(a, Sqrt, self.fes(a)))

    def n_abs(self, a):
        v = self.num(a)
        return self.new(self.map(v, Abs, None if not isinstance(v, Arr) else 'r' if v.es == 'c' else v.es))

    n_absolute = n_abs

    def n_square(self, a):
        return self.new(self.map(a, lambda x: x * x))

    def n_power(self, a, b):
        return self.binop('Pow', a, b)

    def wrap(self, r):
        return self.alloc(r) if isinstance(r, Log) else self.new(r)

    def n_conjugate(self, a):
        return self.wrap(self.map(a, conj))

    n_conj = n_conjugate

    def n_real(self, a):
        if isinstance(a, Ref) and isinstance(self.val(a), Arr):
            return self.getattr(a, 'real')
        return self.new(self.map(a, real, 'r'))

    def n_imag(self, a):
        if isinstance(a, Ref) and isinstance(self.val(a), Arr):
            return self.getattr(a, 'imag')
        return self.new(self.map(a, imag, 'r'))

    def n_where(self, c, a=None, b=None):
        if a is None:
            m = self.val(c)
            if isinstance(m, Arr) and m.es == 'b' and ndim(m) == 1:
                return (self.alloc(self.where1(m)),)
            raise Unsupported('where')
        m = self.val(c)
        x, y = self.num(a), self.num(b)
        if isinstance(m, F):
            return self.new(self.broadcast([x, y], lambda p, q: Ite(m, p, q)))
        es = 'i'
        for v in (x, y):
            es = _join(es, v.es if isinstance(v, Arr) else 'r' if is_real(v) else 'c')
        mm = Arr(m.kind, 'r', m.dims, lambda ix: Ite(m.get(*ix), ONE, ZERO))
        return self.new(self.broadcast([mm, x, y], lambda f, p, q: Ite(eq(f, 1), p, q), es))

    def n_maximum(self, a, b):
        return self.new(self.broadcast([self.ordered(a), self.ordered(b)], lambda x, y: Max(x, y)))

    def n_minimum(self, a, b):
        return self.new(self.broadcast([self.ordered(a), self.ordered(b)], lambda x, y: Min(x, y)))

    n_fmax, n_fmin = n_maximum, n_minimum

    def ordered(self, a):
        x = self.num(a)
        if (x.es == 'c') if isinstance(x, Arr) else not (isinstance(x, P) and (is_real(x) or conj(x) == x)):
            raise Unsupported('order of complex numbers')
        return x

    def n_clip(self, a, lo, hi):
        x = self.ordered(a)
        if not isnone(lo):
            x = self.broadcast([x, self.ordered(lo)], lambda u, v: Max(u, v))
        if not isnone(hi):
            x = self.broadcast([x, self.ordered(hi)], lambda u, v: Min(u, v))
        return self.new(x)

    def n_negative(self, a):
        return self.new(self.map(a, lambda x: -x))

    def n_reciprocal(self, a):
        if self.fes(a) is not None and self.num(a).es == 'i':
            raise Unsupported('reciprocal of integers')
        return self.new(self.map(a, lambda x: 1 / x))

    def n_full_like(self, a, v, dtype=None):
        return self.like(a, self.num(v), dtype)

    def n_copy(self, a):
        return self.n_array(a)

    def n_ravel(self, a):
        return self.new(self.flatv(a))

    def n_ndim(self, a):
        return topoly(ndim(self.num(a)))

    def n_multiply(self, a, b):
        return self.new(self.broadcast([a, b], lambda x, y: x * y))

    def n_add(self, a, b):
        return self.binop('Add', a, b)

    def n_subtract(self, a, b):
        return self.binop('Sub', a, b)

    def n_divide(self, a, b):
        return self.binop('Div', a, b)

    n_true_divide = n_divide

    def n_dot(self, a, b):
        return self.new(self.dot(a, b))

    n_matmul = n_dot

    def n_outer(self, a, b):
        x, y = self.num(a), self.num(b)
        return self.alloc(Arr('mat', _join(x.es, y.es), (x.dims[0], y.dims[0]), lambda ix: x.get(ix[0]) * y.get(ix[1])))

    def n_transpose(self, a):
        return self.getattr(a, 'T')

    def n_isscalar(self, a):
        return tof(isinstance(self.val(a), (P, str)))

    def n_size(self, a):
        x = self.num(a)
        return x.n() if isinstance(x, Arr) else ONE

    def n_shape(self, a):
        return tuple(self.num(a).dims)

    def n_any(self, a):
        x = self.flatv(a)
        j = fresh('j', 'i')
        return Exists(j, x.dims[0], self.truth(x.get(j)))

    def n_all(self, a):
        x = self.flatv(a)
        j = fresh('j', 'i')
        return Forall(j, x.dims[0], self.truth(x.get(j)))

    def flatv(self, a):
        x = self.num(a)
        if isinstance(x, P) or isinstance(x, Log):
            raise Unsupported('reduction of this value')
        return self.flat(x)

    def reduce(self, a, axis, f):
        x = self.num(a)
        if not isinstance(x, Arr):
            raise Unsupported('reduction of this value')
        if axis is None or isnone(axis):
            x = self.flat(x)
            return f(x.dims[0], lambda j: x.get(j))
        ax = int(axis.const())
        if ndim(x) == 1:
            return f(x.dims[0], lambda j: x.get(j))
        if ax < 0:
            ax += 2
        g = (lambda ix: f(x.dims[0], lambda j: x.get(j, ix[0]))) if ax == 0 else (lambda ix: f(x.dims[1], lambda j: x.get(ix[0], j)))
        return self.alloc(Arr('vec', x.es if x.es != 'i' else 'r', (x.dims[1 - ax],), g))

    def n_sum(self, a, axis=None):
        return self.reduce(a, axis, lambda n, g: SumR(0, n, g))

    def n_prod(self, a, axis=None):
        return self.reduce(a, axis, lambda n, g: ProdR(0, n, g))

    def n_mean(self, a, axis=None):
        return self.reduce(a, axis, mean)

    def n_median(self, a, axis=None):
        self.used('numpy.median: a function of the multiset of elements')
        return self.reduce(a, axis, median)

    def n_var(self, a, axis=None):
        return self.reduce(a, axis, variance)

    def n_std(self, a, axis=None):
        return self.reduce(a, axis, lambda n, g: Sqrt(variance(n, g)))

    def n_min(self, a, axis=None):
        if axis is not None:
            raise Unsupported('minimum over an axis')
        x = self.flatv(a)
        j = fresh('j', 'i')
        return MinOver(j, x.dims[0], x.get(j))

    def n_max(self, a, axis=None):
        if axis is not None:
            raise Unsupported('maximum over an axis')
        x = self.flatv(a)
        j = fresh('j', 'i')
        return MaxOver(j, x.dims[0], x.get(j))

    n_amin, n_amax = n_min, n_max

    def n_diff(self, a):
        x = self.num(a)
        if ndim(x) != 1:
            raise Unsupported('diff')
        return self.alloc(Arr('vec', x.es, (self.simp(Max(x.dims[0] - 1, ZERO)),), lambda ix: x.get(ix[0] + 1) - x.get(ix[0])))

    def sorted_idx(self, x):
        if ndim(x) != 1:
            raise Unsupported('sort of a matrix')
        self.used('numpy.argsort: a permutation that sorts its argument')
        k = arr_key(x)
        n = x.dims[0]
        s = Arr('vec', 'i', (n,), lambda ix: App('sort_index', k, ix[0], sort='i'))
        j = fresh('j', 'i')
        self.assume(Forall(j, n - 1, le(x.get(s.get(j)), x.get(s.get(j + 1)))))
        self.assume(Forall(j, n, And(le(0, s.get(j)), lt(s.get(j), n))))
        inv = App('sort_rank', k, j, sort='i')
        self.assume(Forall(j, n, And(le(0, inv), lt(inv, n), eq(s.get(inv), j))))
        return s

    def n_argsort(self, a):
        return self.alloc(self.sorted_idx(self.num(a)))

    def n_sort(self, a):
        x = self.num(a)
        s = self.sorted_idx(x)
        return self.alloc(Arr('vec', x.es, x.dims, lambda ix: x.get(s.get(ix[0]))))

    def n_unique(self, a, return_index=None):
        """Increasing distinct values with the position of a first occurrence."""
        self.used('numpy.unique: the distinct values in increasing order, and where each occurs first')
        x = self.num(a)
        if ndim(x) != 1:
            raise Unsupported('unique')
        k = arr_key(x)
        n = x.dims[0]
        m = App('n_unique', k, sort='i')
        u = Arr('vec', 'i', (m,), lambda ix: App('unique_index', k, ix[0], sort='i'))
        v = Arr('vec', x.es, (m,), lambda ix: x.get(u.get(ix[0])))
        j, i = fresh('j', 'i'), fresh('i', 'i')
        self.assume(And(le(0, m), le(m, n), Implies(ge(n, 1), ge(m, 1))))
        self.assume(Forall(j, m, And(le(0, u.get(j)), lt(u.get(j), n))))
        self.assume(Forall(j, m - 1, lt(x.get(u.get(j)), x.get(u.get(j + 1)))))
        rk = App('unique_rank', k, i, sort='i')
        self.assume(Forall(i, n, And(le(0, rk), lt(rk, m), eq(x.get(u.get(rk)), x.get(i)), le(u.get(rk), i))))
        if return_index is not None and self.truth(return_index).kind == 'T':
            return (self.alloc(v), self.alloc(u))
        return self.alloc(v)

    def extremum(self, a, op, nm):
        x = self.flatv(a)
        self.used('numpy.%s: the first position of the extreme value' % nm)
        m = App(nm, arr_key(x), sort='i')
        j = fresh('j', 'i')
        self.oblig('%s of a non-empty array in %s' % (nm, self.fn), ge(x.dims[0], 1), 'bounds')
        self.assume(And(le(0, m), lt(m, x.dims[0])))
        self.assume(Forall(j, x.dims[0], op(x.get(j), x.get(m))))
        return m

    def n_argmax(self, a, axis=None):
        return self.extremum(a, le, 'argmax')

    def n_argmin(self, a, axis=None):
        return self.extremum(a, ge, 'argmin')

    def n_poly(self, a):
        self.used('numpy.poly: coefficients, in decreasing order, of the monic polynomial with the given roots')
        x = self.num(a)
        if ndim(x) != 1:
            raise Unsupported('poly')
        n = x.dims[0]
        return self.alloc(Arr('vec', 'c', (n + 1,), lambda ix: polycoef(n, lambda j: x.get(j), ix[0])))

    def n_polyval(self, c, x):
        self.used('numpy.polyval: value of the polynomial with coefficients in decreasing order')
        p = self.num(c)
        n = p.dims[0]

        def f(z):
            return SumR(0, n, lambda k: p.get(n - 1 - k) * Pow(z, k))
        v = self.num(x)
        return self.new(self.map(v, f, None if not isinstance(v, Arr) else _join(v.es, p.es)))

    def n_meshgrid(self, a, b):
        x, y = self.num(a), self.num(b)
        d = (y.dims[0], x.dims[0])
        return (self.alloc(Arr('mat', x.es, d, lambda ix: x.get(ix[1]))), self.alloc(Arr('mat', y.es, d, lambda ix: y.get(ix[0]))))

    def n_squeeze(self, a):
        x = self.num(a)
        if ndim(x) == 2 and (x.dims[1] == 1 or x.dims[0] == 1):
            return self.alloc(self.flat(x))
        return a

    def n_vander(self, a, n=None, increasing=None):
        x = self.num(a)
        n = x.dims[0] if n is None else n
        inc = increasing is not None and self.truth(increasing).kind == 'T'
        return self.alloc(Arr('mat', x.es, (x.dims[0], n), lambda ix: Pow(x.get(ix[0]), ix[1] if inc else n - 1 - ix[1])))

    def n_scipy_linalg_solve(self, a, b):
        return self.n_linalg_solve(a, b)

    def n_linalg_solve(self, a, b):
        self.used('solve: unique solution of a non-singular system')
        A, y = self.num(a), self.num(b)
        for A0, b0, x0 in getattr(self, 'solve_patterns', []):
            i, j = fresh('i', 'i'), fresh('j', 'i')
            hy = self.pc + [le(0, i), lt(i, A.dims[0]), le(0, j), lt(j, A.dims[1])]
            if all(prove(eq(p, q), self.pc) for p, q in zip(A.dims, A0.dims)) and \
                    prove(eq(A.get(i, j), A0.get(i, j)), hy) and prove(eq(y.get(i), b0.get(i)), hy):
                return self.alloc(x0)
        return self.alloc(self.fresh_arr('solution', 'vec', _join(A.es, y.es), (A.dims[1],)))

    def n_multiprocessing_cpu_count(self):
        n = self.fresh('ncpu', 'i')
        self.assume(ge(n, 1))
        return n

    def n_multiprocessing_Pool(self, n=None):
        return Opaque('pool')


BUILTINS = {'range', 'len', 'int', 'float', 'complex', 'min', 'max', 'abs', 'sum', 'list', 'tuple', 'dict', 'zip', 'map',
            'enumerate', 'bool', 'str', 'pow', 'object', 'ValueError'}


def mean(n, g):
    return SumR(0, n, g) / n


def variance(n, g):
    m = mean(n, g)
    return SumR(0, n, lambda j: (g(j) - m) * conj(g(j) - m)) / n


def isreal(x):
    return is_real(x) or conj(x) == x


def isnone(x):
    return isinstance(x, Opaque) and x.k == 'None'


CHI = Var('χ')


def multiset(n, g):
    """Term standing for the multiset of g(0..n-1)."""
    return ProdR(0, n, lambda j: CHI - g(j))


def median(n, g):
    j = fresh('j', 'i')
    e = g(j)
    return App('median', n, multiset(n, g), sort='r' if is_real(e) else 'c')


def polycoef(n, g, k):
    """Coefficient number k (of decreasing powers) of the polynomial with the roots g(0..n-1)."""
    return App('polycoef', n, k, multiset(n, g), sort='c')


def pick(vs, i):
    c = i.const()
    if c is not None and 0 <= c < len(vs):
        return vs[int(c)]
    r = vs[-1]
    for n in range(len(vs) - 2, -1, -1):
        r = Ite(eq(i, n), vs[n], r)
    return r


def concat(x, y):
    n = x.dims[0]
    return Arr('vec', _join(x.es, y.es), (n + y.dims[0],), lambda ix: Ite(lt(ix[0], n), x.get(ix[0]), y.get(ix[0] - n)))


def map_log(l, f):
    def go(ev):
        out = []
        for e in ev:
            if e[0] == 'app':
                out.append(('app', f(e[1])))
            elif e[0] == 'rep':
                out.append(('rep', e[1], e[2], go(e[3])))
            elif e[0] == 'alt':
                out.append(('alt',) + tuple((c, go(x)) for c, x in e[1:]))
            else:
                raise Unsupported('list structure')
        return tuple(out)
    return Log(go(l.ev))


def log_len(ev):
    n = ZERO
    for e in ev:
        if e[0] == 'app':
            n = n + 1
        elif e[0] == 'rep':
            b = log_len(e[3])
            n = n + Sum([(e[1], e[2])], b)
        elif e[0] == 'alt':
            r = log_len(e[-1][1])
            for c, x in e[1:-1][::-1]:
                r = Ite(c, log_len(x), r)
            n = n + r
        else:
            raise Unsupported('length of a list')
    return n


def refs(v, out=None):
    out = set() if out is None else out
    if isinstance(v, Ref):
        out.add(v.loc)
    elif isinstance(v, (tuple, list)):
        for x in v:
            refs(x, out)
    elif isinstance(v, Struct):
        for x in v.f.values():
            refs(x, out)
    elif isinstance(v, Log):
        refs(v.ev, out)
    elif isinstance(v, Opaque):
        refs(v.d, out)
    return out


def first_el(ev):
    for e in ev:
        if e[0] == 'app':
            return e[1]
        if e[0] == 'rep':
            return first_el(e[3])
        if e[0] == 'alt':
            return first_el(e[1][1])
    raise Unsupported('empty list')


def nonempty(ev):
    if not ev:
        return [FALSE]
    e = ev[0]
    if e[0] == 'app':
        return [TRUE]
    if e[0] == 'rep':
        return [ge(e[2], 1)] + [subst(f, {vname(e[1]): ZERO}) for f in nonempty(e[3])]
    return [FALSE]


def abstract(nm, el, j):
    if isinstance(el, tuple):
        return tuple(abstract('%s.%d' % (nm, i), x, j) for i, x in enumerate(el))
    if isinstance(el, P):
        return El(nm, j, sort='i' if is_int(el) else 'r' if is_real(el) else 'c')
    raise Unsupported('element of an irregular list')
