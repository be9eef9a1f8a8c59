"""Symbolic execution core: values, store, path exploration, loops, obligations."""
import itertools

from .terms import *
from . import terms as T
from . import logic
from .logic import entails, decide, feasible, resolve_ites


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ThrowEx(Exception):
    def __init__(self, v):
        self.v = v


class Infeasible(Exception):
    pass


class LoopUnsolved(Unsupported):
    pass


DROP, GEN = 'drop', 'general'


# ------------------------------------------------------------------ values
class Arr(object):
    """Array value: arma kinds are always 2-D; 'vec' (std::vector, numpy 1-D) is 1-D."""
    __slots__ = ('kind', 'es', 'dims', 'fn', 'base', 'cond', 'val')

    def __init__(self, kind, es, dims, fn=None, base=None, cond=None, val=None):
        self.kind, self.es, self.dims = kind, es, tuple(topoly(d) for d in dims)
        self.fn, self.base, self.cond, self.val = fn, base, cond, val

    @staticmethod
    def sym(name, kind, es, dims, pre=()):
        if kind in ('col',):
            f = lambda ix: El(name, *(pre + (ix[0],)), sort=es)
        elif kind == 'row':
            f = lambda ix: El(name, *(pre + (ix[1],)), sort=es)
        elif kind == 'vec':
            f = lambda ix: El(name, *(pre + tuple(ix)), sort=es)
        else:
            f = lambda ix: El(name, *(pre + tuple(ix)), sort=es)
        return Arr(kind, es, dims, f)

    @staticmethod
    def const(kind, es, dims, v):
        v = topoly(v) if es != 'b' else v
        return Arr(kind, es, dims, lambda ix: v)

    def get(self, *ix):
        ix = tuple(topoly(i) for i in ix)
        if len(ix) == 1 and len(self.dims) == 2:
            ix = self.lin(ix[0])
        if self.base is not None:
            c = self.cond(ix)
            if c.kind == 'T':
                return self.val(ix)
            if c.kind == 'F':
                return self.base.get(*ix)
            return (ite_val if self.es == 'A' else Ite)(c, self.val(ix), self.base.get(*ix))
        return self.fn(ix)

    def lin(self, i):
        if self.kind == 'col' or self.dims[1] == 1:
            return (i, ZERO)
        if self.kind == 'row' or self.dims[0] == 1:
            return (ZERO, i)
        # column major
        r = self.dims[0]
        return (Imod(i, r), Idiv(i, r))

    def n(self):
        r = ONE
        for d in self.dims:
            r = r * d
        return r

    def upd(self, cond, val):
        return Arr(self.kind, self.es, self.dims, base=self, cond=cond, val=val)

    def set(self, ix, v):
        ix = tuple(topoly(i) for i in ix)
        if len(ix) == 1 and len(self.dims) == 2:
            ix = self.lin(ix[0])
        def cond(jx, ix=ix):
            return And(*[eq(a, b) for a, b in zip(ix, jx)])
        if self.kind == 'col':
            cond = lambda jx, ix=ix: eq(jx[0], ix[0])
        elif self.kind == 'row':
            cond = lambda jx, ix=ix: eq(jx[1], ix[1])
        return self.upd(cond, lambda jx: v)

    def map(self, f, es=None, kind=None):
        return Arr(kind or self.kind, es or self.es, self.dims, lambda ix: f(self.get(*ix)))

    def zip(self, o, f, es=None):
        k = self.kind if self.kind == o.kind else self.kind
        return Arr(k, es or _join(self.es, o.es), self.dims, lambda ix: f(self.get(*ix), o.get(*ix)))

    def sub(self, s):
        """Substitution of variables."""
        if self.base is not None:
            c, v = self.cond, self.val
            return Arr(self.kind, self.es, [subst(d, s) for d in self.dims], base=self.base.sub(s),
                       cond=lambda ix: _subst_fn(c, ix, s), val=lambda ix: _subst_fn(v, ix, s))
        return Arr(self.kind, self.es, [subst(d, s) for d in self.dims],
                   lambda ix: _subst_open(self, ix, s))

    def __repr__(self):
        try:
            ix = [Var('_i', 'i'), Var('_j', 'i')][:len(self.dims)]
            if self.kind == 'col':
                ix[1] = ZERO
            if self.kind == 'row':
                ix[0] = ZERO
            return '%s%s<%s>' % (self.kind, list(self.dims), self.get(*ix))
        except Exception as e:
            return 'Arr(%s)' % e


def _subst_open(arr, ix, s):
    """arr[ix] with s applied to arr but not to ix."""
    tmp = [fresh('x', 'i') for _ in ix]
    v = arr.get(*tmp)
    s2 = dict(s)
    for t, i in zip(tmp, ix):
        s2[vname(t)] = i
    return subst_val(v, s2)


def _subst_fn(fn, ix, s):
    tmp = [fresh('x', 'i') for _ in ix]
    v = fn(tuple(tmp))
    s2 = dict(s)
    for t, i in zip(tmp, ix):
        s2[vname(t)] = i
    return subst_val(v, s2)


def _join(a, b):
    o = {'b': 0, 'i': 1, 'r': 2, 'c': 3}
    return a if o[a] >= o[b] else b


class Struct(object):
    __slots__ = ('f',)

    def __init__(self, **f):
        self.f = f

    def set(self, k, v):
        s = Struct(**self.f)
        s.f[k] = v
        return s

    def __repr__(self):
        return 'Struct(%r)' % (self.f,)


class ObjV(object):
    """Reference to a heap object; ids are tuples so that containers of objects can be symbolic."""
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __eq__(self, o):
        return isinstance(o, ObjV) and o.id == self.id

    def __hash__(self):
        return hash(str(self.id))

    def __repr__(self):
        return 'Obj(%s:%s)' % (self.id, self.cls)


class Opaque(object):
    __slots__ = ('k', 'd')

    def __init__(self, k, *d):
        self.k, self.d = k, d

    def __eq__(self, o):
        return isinstance(o, Opaque) and (o.k, o.d) == (self.k, self.d)

    def __hash__(self):
        return hash((self.k, str(self.d)))

    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.k, self.d)


class Ref(object):
    __slots__ = ('loc', 'path')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def __eq__(self, o):
        return isinstance(o, Ref) and same(self.loc, o.loc) and same(self.path, o.path)

    def __hash__(self):
        return hash(self.loc)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.loc, self.path or '')


class Log(object):
    """Ghost event log: tuple of events; an event is (name, args...) or ('rep', var, hi, events)."""
    __slots__ = ('ev',)

    def __init__(self, ev=()):
        self.ev = tuple(ev)

    def add(self, *e):
        return Log(self.ev + (e,))

    def __repr__(self):
        return 'Log%r' % (self.ev,)


def subst_val(v, s):
    if isinstance(v, (P, F)):
        return subst(v, s)
    if isinstance(v, Arr):
        return v.sub(s)
    if isinstance(v, Struct):
        return Struct(**{k: subst_val(x, s) for k, x in v.f.items()})
    if isinstance(v, Log):
        return Log(subst_val(v.ev, s))
    if isinstance(v, tuple):
        return tuple(subst_val(x, s) for x in v)
    if isinstance(v, list):
        return [subst_val(x, s) for x in v]
    if isinstance(v, ObjV):
        return ObjV(subst_val(v.id, s), v.cls)
    if isinstance(v, Ref):
        return Ref(subst_val(v.loc, s), subst_val(v.path, s))
    if isinstance(v, Opaque):
        return Opaque(v.k, *[subst_val(x, s) for x in v.d])
    if isinstance(v, Choice):
        return Choice(subst(v.c, s), subst_val(v.a, s), subst_val(v.b, s))
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (P, F)) and isinstance(b, (P, F)):
        return a == b
    if isinstance(a, Struct) and isinstance(b, Struct):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Log) and isinstance(b, Log):
        return len(a.ev) == len(b.ev) and all(x is y or same(x, y) for x, y in zip(a.ev, b.ev))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Arr, Log)) or isinstance(b, (Arr, Log)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


class Choice(object):
    """One of two abstract values (objects, labels), decided by a condition."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def under(self, pc):
        if entails(pc, self.c):
            v = self.a
        elif entails(pc, Not(self.c)):
            v = self.b
        else:
            raise Unsupported('cannot tell which of two objects is meant')
        return v.under(pc) if isinstance(v, Choice) else v


def same_deep(a, b):
    """same, looking into arrays as well."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_deep(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.dims) != len(b.dims) or any(topoly(x) != topoly(y) for x, y in zip(a.dims, b.dims)):
            return False
        ix = [fresh('s', 'i') for _ in a.dims]
        return same_deep(a.get(*ix), b.get(*ix))
    return same(a, b)


def ite_val(c, a, b):
    if same(a, b):
        return a
    if isinstance(a, (P, F, bool)) and isinstance(b, (P, F, bool)):
        return Ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr):
        dims = [Ite(c, x, y) for x, y in zip(a.dims, b.dims)]
        return Arr(a.kind, _join(a.es, b.es), dims, lambda ix: Ite(c, a.get(*ix), b.get(*ix)))
    if isinstance(a, Struct) and isinstance(b, Struct):
        return Struct(**{k: ite_val(c, a.f[k], b.f[k]) for k in a.f})
    if all(isinstance(x, (ObjV, Opaque, Choice)) for x in (a, b)):
        return Choice(c, a, b)
    raise Unsupported('cannot merge values')


# ------------------------------------------------------------------ exploration
class Outcome(object):
    def __init__(self, kind, value, store, pc):
        self.kind, self.value, self.store, self.pc = kind, value, store, pc

    def __repr__(self):
        return 'Outcome(%s,%r,%s)' % (self.kind, self.value, self.pc)


class Dec(object):
    def __init__(self, prefix, work):
        self.prefix, self.i, self.taken, self.work = prefix, 0, [], work

    def choose(self, n=2):
        if self.i < len(self.prefix):
            c = self.prefix[self.i]
        else:
            c = 0
            for alt in range(n - 1, 0, -1):
                self.work.append(self.taken + [alt])
        self.i += 1
        self.taken.append(c)
        return c


class Obl(object):
    """A proof obligation."""
    __slots__ = ('name', 'goal', 'hyps', 'kind', 'status', 'detail', 'time', 'fn', 'engine')

    def __init__(self, name, goal, hyps, kind, fn):
        self.name, self.goal, self.hyps, self.kind, self.fn = name, goal, list(hyps), kind, fn
        self.status = None
        self.detail = None
        self.time = 0.0
        self.engine = ''


class Namer(object):
    """Names of symbols introduced in a loop body: the same in every pass over the body."""

    def __init__(self, prefix):
        self.prefix, self.n = prefix, 0

    def __next__(self):
        self.n += 1
        return '%s.%d' % (self.prefix, self.n)


class Ctx(object):
    MAXPATHS = 400

    def __init__(self):
        self.store = {}
        self.pc = []
        self.dec = None
        self.quiet = 0
        self.obls = []
        self.loopvars = []
        self.names = {}
        self.fn = '?'
        self.stack = []
        self.contracts = {}
        self.hints = {}
        self.nloop = 0
        self.nfresh = itertools.count()
        self.assumed = []
        self.memo_solve = []
        self.used_contracts = set()
        self.inlined = set()
        self.used_lib = set()
        self.no_minmax = False
        self.finite = False         # every real is finite: is_finite holds of all terms

    # -- logic
    def assume(self, f):
        f = tof(f)
        if f.kind == 'T':
            return
        if f.kind == 'F':
            raise Infeasible()
        for g in (f.args if f.kind == 'and' else (f,)):
            if g not in self.pc:
                self.pc.append(g)

    def decide(self, f):
        return decide(f, self.pc)

    def branch(self, f):
        f = tof(f)
        d = self.decide(f)
        if d is not None:
            return d
        c = self.dec.choose() == 0
        self.assume(f if c else Not(f))
        return c

    def choose(self, n):
        return self.dec.choose(n)

    def oblig(self, name, goal, kind='post', hyps=None):
        if self.quiet:
            return
        goal = tof(goal)
        self.obls.append(Obl(name, goal, self.pc if hyps is None else hyps, kind, self.fn))

    def fresh(self, name, sort='r'):
        n = '%s!%s' % (name, next(self.nfresh))
        if self.loopvars:
            return El(n, *self.loopvars, sort=sort)
        return Var(n, sort)

    def fresh_arr(self, name, kind, es, dims):
        n = '%s!%s' % (name, next(self.nfresh))
        return Arr.sym(n, kind, es, dims, tuple(self.loopvars))

    def simp(self, v):
        """Resolve conditionals decided by the path condition."""
        if isinstance(v, (P, F)):
            if any(a.kind == 'ite' for a in all_atoms(v, into_binders=False).values()):
                return resolve_ites(v, self.pc)
        return v

    # -- store
    def load(self, r):
        v = self.store.get(r.loc)
        if v is None:
            raise Unsupported('uninitialised location %s' % (self.names.get(r.loc, r.loc),))
        for s in r.path:
            v = self.sel(v, s)
        return v

    def sel(self, v, s):
        k = s[0]
        if k == 'el':
            if isinstance(v, Arr):
                return self.simp(v.get(*s[1:]))
            if isinstance(v, (list, tuple)):
                c = s[1].const()
                if c is not None:
                    return v[int(c)]
            raise Unsupported('element of %r' % (v,))
        if k == 'fld':
            return v.f[s[1]]
        if k == 'sub':      # r0, nr, c0, nc
            _, r0, nr, c0, nc = s
            kind = v.kind if v.kind != 'mat' else 'mat'
            if v.kind == 'mat' and nr == 1:
                kind = 'row'
            elif v.kind == 'mat' and nc == 1:
                kind = 'col'
            return Arr(kind, v.es, (nr, nc), lambda ix: v.get(ix[0] + r0, ix[1] + c0))
        if k == 'diag':
            return Arr('col', v.es, (v.dims[0], ONE), lambda ix: v.get(ix[0], ix[0]))
        if k == 'idx':
            ia = s[1]
            return Arr('col', v.es, (ia.n(), ONE), lambda ix: v.get(ia.get(ix[0])))
        raise Unsupported('selector ' + k)

    def store_ref(self, r, val):
        if not r.path:
            self.store[r.loc] = val
            return
        v = self.store.get(r.loc)
        if v is None:
            raise Unsupported('uninitialised location')
        self.store[r.loc] = self._upd(v, r.path, val)

    def _upd(self, v, path, val):
        s = path[0]
        if len(path) > 1:
            return self._upd(v, (s,), self._upd(self.sel(v, s), path[1:], val))
        k = s[0]
        if k == 'el':
            if isinstance(v, Arr):
                return v.set(s[1:], val)
            if isinstance(v, tuple) and s[1].const() is not None:
                i = int(s[1].const())
                return v[:i] + (val,) + v[i + 1:]
            raise Unsupported('element store')
        if k == 'fld':
            return v.set(s[1], val)
        if k == 'sub':
            _, r0, nr, c0, nc = s
            def cond(ix):
                fs = []
                if not (r0.iszero() and nr == v.dims[0]):
                    fs.append(eq(ix[0], r0) if nr == 1 else And(le(r0, ix[0]), lt(ix[0], r0 + nr)))
                if not (c0.iszero() and nc == v.dims[1]):
                    fs.append(eq(ix[1], c0) if nc == 1 else And(le(c0, ix[1]), lt(ix[1], c0 + nc)))
                return And(*fs)
            if isinstance(val, Arr):
                return v.upd(cond, lambda ix: val.get(ix[0] - r0, ix[1] - c0))
            return v.upd(cond, lambda ix: val)
        if k == 'diag':
            return v.upd(lambda ix: eq(ix[0], ix[1]),
                         (lambda ix: val.get(ix[0])) if isinstance(val, Arr) else (lambda ix: val))
        raise Unsupported('store to ' + k)

    # -- exploration
    def explore(self, thunk):
        S, pc0, saved = dict(self.store), list(self.pc), self.dec
        sstack = list(self.stack)
        lv = list(self.loopvars)
        outs = []
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > self.MAXPATHS:
                self.dec = saved
                raise Unsupported('too many paths')
            self.store, self.pc, self.dec = dict(S), list(pc0), Dec(pre, work)
            self.stack = list(sstack)
            self.loopvars = list(lv)
            kind, val = 'next', None
            nob = len(self.obls)
            try:
                val = thunk()
            except ReturnEx as e:
                kind, val = 'return', e.v
            except BreakEx:
                kind = 'break'
            except ContinueEx:
                kind = 'next'
            except ThrowEx as e:
                kind, val = 'throw', e.v
            except Infeasible:
                del self.obls[nob:]
                continue
            except BaseException:
                self.store, self.pc, self.dec = S, pc0, saved
                self.stack = sstack
                self.loopvars = lv
                raise
            outs.append(Outcome(kind, val, self.store, self.pc[len(pc0):]))
        self.store, self.pc, self.dec = S, pc0, saved
        self.stack = sstack
        self.loopvars = lv
        return outs

    # -- loops
    def loop(self, cond, body, inc, post_test=False, hint=None):
        """cond() -> formula, body(), inc() executed against self.store."""
        loopid = self.nloop
        self.nloop += 1
        if hint and 'inv' in hint:
            return self._invloop(loopid, cond, body, inc, post_test, hint)
        # concrete unrolling when the condition is syntactically decided
        if not post_test:
            st, pc = dict(self.store), list(self.pc)
            n = 0
            while n < 10:
                c = tof(cond())
                if c.kind == 'F':
                    return
                if c.kind != 'T':
                    c2 = self.simp(c)
                    if c2.kind == 'F':
                        return
                    if c2.kind != 'T':
                        break
                if n == 0 and not self._const_trip(cond, body, inc):
                    break
                try:
                    body()
                except BreakEx:
                    return
                except ContinueEx:
                    pass
                inc()
                n += 1
            if n > 0 and n < 10:
                raise LoopUnsolved('condition became symbolic after unrolling')
            if n >= 10:
                raise LoopUnsolved('constant trip count too large')
        self._symloop(loopid, cond, body, inc, post_test, hint)

    def _invloop(self, loopid, cond, body, inc, post_test, hint):
        """Loop by invariant: hint['inv'](ctx) lists (name, formula) that hold whenever the loop test fails."""
        S0, pc0 = dict(self.store), list(self.pc)
        if not post_test:
            c = tof(cond())
            for nm, f in hint['inv'](self):
                self.oblig('loop %s, on entry: %s' % (self.fn, nm), Or(c, f), 'loop-entry')
        tag = 'L%s' % next(self.nfresh)
        M = {}

        def head():
            st = dict(S0)
            st.update(M)
            return st

        def run(final):
            self.store, self.pc = head(), list(pc0)
            if not final:
                self.quiet += 1
            nf = self.nfresh

            def th():
                self.nfresh = Namer(tag)
                if not post_test:
                    c = tof(cond())
                    for nm, f in hint['inv'](self):
                        self.assume(Or(c, f))
                    if not self.branch(c):
                        raise Infeasible()
                try:
                    body()
                except ContinueEx:
                    pass
                inc()
                if final:
                    c = tof(cond())
                    for nm, f in hint['inv'](self):
                        self.oblig('loop %s, kept: %s' % (self.fn, nm), Or(c, f), 'loop-preserved')
                return 'next'
            try:
                return self.explore(th)
            finally:
                self.nfresh = nf
                if not final:
                    self.quiet -= 1
                self.store, self.pc = dict(S0), list(pc0)
        while True:
            base = head()
            outs = run(False)
            new = []
            for o in outs:
                for loc, v in o.store.items():
                    if loc not in S0 and loc in getattr(self, 'lazy', {}):
                        S0[loc] = base[loc] = self.lazy[loc]
                    if loc in S0 and loc not in M and loc not in new and not same(v, base.get(loc)):
                        new.append(loc)
            if not new:
                break
            for loc in new:
                M[loc] = self._unk('w%d_%d' % (loopid, len(M)), S0[loc], tuple(self.loopvars))
        outs = run(True)
        if any(o.kind not in ('next',) for o in outs):
            raise Unsupported('loop by invariant is left from inside')
        self.store, self.pc = head(), list(pc0)
        c = tof(cond())
        self.assume(Not(c))
        for nm, f in hint['inv'](self):
            self.assume(f)
        if not feasible(self.pc):
            raise Infeasible()

    def _const_trip(self, cond, body, inc):
        """Does the loop run a small constant number of times (checked by dry run of inc only)?"""
        st, pc = dict(self.store), list(self.pc)
        try:
            for _ in range(11):
                c = self.simp(tof(cond()))
                if c.kind == 'F':
                    return True
                if c.kind != 'T':
                    return False
                inc()
            return False
        except Unsupported:
            return False
        finally:
            self.store, self.pc = st, pc

    def _symloop(self, loopid, cond, body, inc, post_test, hint):
        S0 = dict(self.store)
        pc0 = list(self.pc)
        k = Var('L%s' % next(self.nfresh), 'i')
        kn = vname(k)
        M = {}          # loc -> None (unknown) | function(kpoly) -> value
        unk = {}
        U = set()
        hint = hint or {}

        def unknown(loc):
            v0 = S0[loc]
            if loc in unk:
                return unk[loc]
            nm = 'u%d_%d' % (loopid, len(unk))
            U.add(nm)
            pre = tuple(self.loopvars) + (k,)
            unk[loc] = self._unk(nm, v0, pre)
            return unk[loc]

        def state_at(kp):
            st = dict(S0)
            for loc, f in M.items():
                if f is DROP:
                    st[loc] = None
                elif f is GEN:
                    st[loc] = subst_val(unknown(loc), {kn: kp})
                else:
                    st[loc] = unknown(loc) if f is None else f(kp)
            return st

        def ginv(kp, store):
            if 'ginv' not in hint:
                return []
            return hint['ginv'](self, kp, {l: store[l] for l in M if M[l] is GEN})

        hist = [TRUE]

        def one():
            if not post_test:
                c = tof(cond())
                if not self.branch(c):
                    raise _LoopExit()
            try:
                body()
            except ContinueEx:
                pass
            inc()
            if post_test:
                c = tof(cond())
                if not self.branch(c):
                    raise _LoopExitAfter()

        def run(final):
            self.store = state_at(k)
            self.pc = list(pc0)
            self.assume(le(0, k))
            self.assume(hist[0])
            for g in (hint.get('facts', lambda *_: [])(self, k) if hint else []):
                self.assume(g)
            for nm, g in ginv(k, self.store):
                self.assume(g)
            self.loopvars.append(k)
            if not final:
                self.quiet += 1
            try:
                def th():
                    self.nfresh = Namer(kn)
                    try:
                        one()
                    except _LoopExit:
                        return 'exit'
                    except _LoopExitAfter:
                        return 'exitafter'
                    return 'next'
                nf = self.nfresh
                try:
                    outs = self.explore(th)
                finally:
                    self.nfresh = nf
            finally:
                if not final:
                    self.quiet -= 1
                self.loopvars.pop()
                st = self.store
                self.store = dict(S0)
                self.pc = list(pc0)
            return outs, st

        for loc in list(S0):
            if loc in hint.get('closed', {}):
                M[loc] = hint['closed'][loc]
        nm2loc = {}
        if 'named' in hint:
            for loc in S0:
                n = self.names.get(loc)
                if n in hint['named']:
                    M[loc] = (lambda f, v0: (lambda kp: f(self, kp, v0)))(hint['named'][n], S0[loc])
        for pred, f in hint.get('match', ()):
            for loc in S0:
                if loc not in M and pred(self.names.get(loc), S0[loc]):
                    M[loc] = (lambda f, v0: (lambda kp: f(self, kp, v0)))(f, S0[loc])
        outs = None
        dropped = []
        for it in range(40):
            try:
                outs, base = run(False)
            except Unsupported as e:
                if dropped and 'uninitialised' in str(e):
                    raise LoopUnsolved('no closed form for loop variables %s' % dropped)
                raise
            # newly written locations
            new = []
            for o in outs:
                for loc, v in o.store.items():
                    if loc not in S0 and loc in getattr(self, 'lazy', {}):
                        S0[loc] = base[loc] = self.lazy[loc]
                    if loc in S0 and loc not in M and not same(v, base.get(loc)):
                        if loc not in new:
                            new.append(loc)
            if new:
                for loc in new:
                    M[loc] = None
                    try:
                        unknown(loc)
                    except LoopUnsolved:
                        M[loc] = DROP
                continue
            cont = [o for o in outs if o.kind == 'next' and o.value == 'next']
            # drop unknowns that are in fact not changed
            solved = False
            for loc in [l for l in M if M[l] is None]:
                f = self._solve(loc, S0[loc], unk[loc], cont, k, U)
                if f is not None:
                    M[loc] = f
                    solved = True
            if solved:
                self._hist(hist, outs, k, U)
                continue
            h = hist[0]
            self._hist(hist, outs, k, U)
            if hist[0] != h:
                continue
            # without a closed form: an arbitrary sequence under the invariant of the hint, or (scratch that
            # no iteration reads before writing it) undefined at the head and after the loop
            bad = [l for l in M if M[l] is None]
            if not bad:
                break
            for l in bad:
                M[l] = GEN if 'ginv' in hint else DROP
                dropped.append(self.names.get(l, l))
                if M[l] is GEN:
                    U.discard('u%d_%d' % (loopid, list(unk).index(l)))
        else:
            raise LoopUnsolved('no closed form for loop variables %s' % [self.names.get(l, l) for l in M if M[l] is None])
        # final pass: obligations of the body, and preservation of every closed form
        outs, base = run(True)
        cont = [o for o in outs if o.kind == 'next' and o.value == 'next']
        facts = list(hint.get('facts', lambda *_: [])(self, k))
        if not self.quiet:
            for nm, g in ginv(ZERO, S0):
                self.oblig('loop %s, on entry: %s' % (self.fn, nm), g, 'inv')
            for o in cont:
                for nm, g in ginv(k + 1, o.store):
                    self.oblig('loop %s, kept: %s' % (self.fn, nm), g, 'inv',
                               pc0 + [le(0, k), hist[0]] + facts + [x for _, x in ginv(k, state_at(k))] + list(o.pc))
            soft = hint.get('soft', ())
            for loc, f in M.items():
                if f is DROP or f is GEN:
                    continue
                v0 = f(ZERO)
                self.oblig_same('loop %s: closed form of %s holds on entry' % (self.fn, self._nm(loc)), v0, S0[loc],
                                list(pc0), 'inv' if loc in soft else 'loop-entry')
                for o in cont:
                    self.oblig_same('loop %s: closed form of %s preserved' % (self.fn, self._nm(loc)),
                                    o.store[loc], f(k + 1),
                                    pc0 + [le(0, k), hist[0]] + facts + list(o.pc), 'inv' if loc in soft else 'loop-preserved')
        # exits
        exits = [o for o in outs if not (o.kind == 'next' and o.value == 'next')]
        self.store = dict(S0)
        self.pc = list(pc0)
        if not exits:
            raise Unsupported('loop without exit')
        # simple counted loop: a single exit, when  N <= k
        normal = [o for o in exits if o.value == 'exit']
        N = self._count(normal[0], k) if len(normal) == 1 else None
        if N is not None and len(exits) == 1:
            if self.branch(ge(N, 0)):
                K = N
            else:
                K = ZERO
            self.store = {l: v for l, v in S0.items()}
            self.store = state_at(K)
            for nm, g in ginv(K, self.store):
                self.assume(g)
            return
        idx = self.choose(len(exits)) if len(exits) > 1 else 0
        o = exits[idx]
        if o.value == 'exit' and N is not None and hist[0].kind != 'T':
            # the history says that no iteration before had N <= k
            K = N if self.branch(ge(N, 0)) else ZERO
        else:
            K = self.fresh('K', 'i')
            self.assume(le(0, K))
        Kn = {kn: K}
        self.assume(subst(hist[0], Kn))
        for g in facts:
            self.assume(subst(g, Kn))
        for g in o.pc:
            self.assume(subst(g, Kn))
        if not feasible(self.pc):
            raise Infeasible()
        for nm, g in ginv(K, state_at(K)):
            self.assume(g)
        self.store = {loc: (v if v is S0[loc] else subst_val(v, Kn)) for loc, v in o.store.items() if loc in S0}
        if o.kind == 'return':
            raise ReturnEx(subst_val(o.value, Kn))
        if o.kind == 'throw':
            raise ThrowEx(subst_val(o.value, Kn))

    def _count(self, o, k):
        """N, when the exit is taken exactly if N <= k."""
        if len(o.pc) != 1 or o.pc[0].kind != 'le':
            return None
        p, kn, ck = o.pc[0].args[0], vname(k), None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == kn and m[0][1] == 1:
                ck = c
            elif any(kn in a.fv for a, e in m):
                return None
        return subst(p, {kn: ZERO}) if ck == -1 else None

    def _nm(self, loc):
        return str(self.names.get(loc, loc))

    def oblig_same(self, name, a, b, hyps, kind):
        """Obligation that two values are equal."""
        if self.quiet:
            return
        for suffix, g, h in same_goals(a, b):
            self.obls.append(Obl(name + suffix, g, list(hyps) + h, kind, self.fn))

    def _hist(self, hist, outs, k, U):
        """History fact: for all j<k the loop continued, when the continuation condition is
        expressed without unknowns."""
        ex = [o for o in outs if not (o.kind == 'next' and o.value == 'next')]
        if not ex:
            return
        fs = []
        for o in ex:
            c = And(*o.pc)
            if mentions(c, U):
                return
            fs.append(Not(c))
        if any(str(a.args[0]).startswith('K!') for o in ex for g in o.pc for a in all_atoms(g).values() if a.kind in ('var', 'el')):
            # left from within an inner loop at some position: what is known is how the iteration went on
            cs = [And(*o.pc) for o in outs if o.kind == 'next' and o.value == 'next']
            if not any(mentions(c, U) for c in cs):
                fs.append(Or(*cs))
        c = And(*fs)
        v = fresh('j', 'i')
        hist[0] = Forall(v, k, subst(c, {vname(k): v}))

    def _unk(self, nm, v0, pre):
        if isinstance(v0, P):
            s = 'i' if is_int(v0) else 'r' if is_real(v0) else 'c'
            return El(nm, *pre, sort=s)
        if isinstance(v0, F):
            return Pred(nm, *pre)
        if isinstance(v0, Arr):
            return Arr.sym(nm, v0.kind, v0.es, v0.dims, pre)
        if isinstance(v0, Struct):
            return Struct(**{f: self._unk(nm + '.' + f, x, pre) for f, x in v0.f.items()})
        if isinstance(v0, Log):
            return Log((('unk', nm),))
        if isinstance(v0, Opaque) and v0.k == 'iter':
            return Opaque('iter', v0.d[0], self._unk(nm, v0.d[1], pre))
        raise LoopUnsolved('loop modifies a value of kind %s' % type(v0).__name__)

    def _solve(self, loc, v0, u, cont, k, U):
        kn = vname(k)
        if not cont:
            return lambda kp: v0
        news = [(And(*o.pc), o.store[loc]) for o in cont]
        if all(same(v, u) for c, v in news):
            return lambda kp: v0
        if isinstance(v0, P):
            return self._solve_scalar(v0, u, news, k, U)
        if isinstance(v0, F):
            return self._solve_flag(v0, u, news, k, U)
        if isinstance(v0, Log):
            return self._solve_log(v0, u, news, k, U)
        if isinstance(v0, Arr):
            return self._solve_arr(v0, u, news, k, U)
        if isinstance(v0, Opaque) and v0.k == 'iter':
            if not all(isinstance(v, Opaque) and v.k == 'iter' and v.d[0] == v0.d[0] for c, v in news):
                return None
            g = self._solve_scalar(v0.d[1], u.d[1], [(c, v.d[1]) for c, v in news], k, U)
            return g and (lambda kp: Opaque('iter', v0.d[0], g(kp)))
        if isinstance(v0, Struct):
            fs = {}
            for f in v0.f:
                if all(same(v.f[f], u.f[f]) for c, v in news):
                    fs[f] = (lambda f: (lambda kp: v0.f[f]))(f)
                    continue
                sub = [Outcome('next', 'next', {0: v.f[f]}, [c]) for c, v in news]
                g = self._solve(0, v0.f[f], u.f[f], sub, k, U)
                if g is None:
                    return None
                fs[f] = g
            return lambda kp: Struct(**{f: g(kp) for f, g in fs.items()})
        return None

    def _solve_scalar(self, v0, u, news, k, U):
        kn = vname(k)
        conds_ok = len(news) == 1 or not any(mentions(c, U) for c, v in news)

        def merge(vals):
            if all(x == vals[0] for x in vals):
                return vals[0]
            if not conds_ok:
                return None
            # what all paths have in common (the loop test) is no part of the distinction
            lits = [set(c.args) if c.kind == 'and' else {c} for c, _ in news]
            common = set.intersection(*lits)
            r = vals[-1]
            for ls, x in list(zip(lits, vals))[-2::-1]:
                r = Ite(And(*(ls - common)), x, r)
            return r
        # accumulator
        d = [v - u for c, v in news]
        if not any(mentions(x, U) for x in d):
            g = merge(d)
            if g is not None:
                if kn not in g.fv:
                    return lambda kp: v0 + g * kp
                def acc(kp):
                    j = fresh('j', 'i')
                    return v0 + Sum([(j, kp)], subst(g, {kn: j}))
                return acc
        # product
        if not is_int(v0) or True:
            r = []
            for c, v in news:
                q = v / u if u is not None and not u.iszero() else None
                r.append(q)
            if all(q is not None and not mentions(q, U) for q in r):
                g = merge(r)
                if g is not None:
                    def pr(kp):
                        j = fresh('j', 'i')
                        return v0 * Prod(j, kp, subst(g, {kn: j}))
                    return pr
        # last value
        if not any(mentions(v, U) for c, v in news):
            g = merge([v for c, v in news])
            if g is not None:
                if kn not in g.fv and g == v0:
                    return lambda kp: v0
                prev = subst(g, {kn: topoly(-1)})
                if prev == v0:
                    return lambda kp: subst(g, {kn: kp - 1})
                return lambda kp: Ite(le(kp, 0), v0, subst(g, {kn: kp - 1}))
        # running minimum / maximum
        f = None if self.no_minmax else self._minmax(u, news, U)
        if f is not None:
            over, pick, va = f

            def mn(kp):
                j = fresh('j', 'i')
                return pick(v0, over(j, kp, subst(va, {kn: j})))
            return mn
        return None

    def _minmax(self, u, news, U):
        """(over, pick, g) when the new value is the minimum or maximum of u and g."""
        cands = []
        if len(news) == 2:
            for a, b in ((0, 1), (1, 0)):
                (ca, va), (cb, vb) = news[a], news[b]
                if vb == u:
                    la = set(ca.args) if ca.kind == 'and' else {ca}
                    lb = set(cb.args) if cb.kind == 'and' else {cb}
                    cands.append((And(*(la - lb)), va))
        elif len(news) == 1:
            a = the_atom(news[0][1])
            if a is not None and a.kind == 'app' and a.args[0] in ('min2', 'max2') and a.args[1][0] == u \
                    and not mentions(a.args[1][1], U):
                return (MinOver, Min2, a.args[1][1]) if a.args[0] == 'min2' else (MaxOver, Max2, a.args[1][1])
            if a is not None and a.kind == 'ite':
                c, x, y = a.args
                if y == u:
                    cands.append((c, x))
                if x == u:
                    cands.append((Not(c), y))
        for c, va in cands:
            if mentions(va, U):
                continue
            if c in (lt(va, u), le(va, u)):
                return MinOver, Min2, va
            if c in (lt(u, va), le(u, va)):
                return MaxOver, Max2, va
        return None

    def _solve_flag(self, v0, u, news, k, U):
        kn = vname(k)
        # v' = value on paths; express as  And(u, g)  or constant false under some conditions
        if not any(mentions(v, U) for c, v in news) and not any(mentions(c, U) for c, v in news):
            r = news[-1][1]
            for c, x in news[-2::-1]:
                r = Ite(c, x, r)
            return lambda kp: Ite(le(kp, 0), v0, subst(r, {kn: kp - 1}))
        keep, kill, sets = [], [], []
        for c, v in news:
            c2 = c
            if v == u:
                keep.append(c)
            elif v.kind == 'F':
                kill.append(c)
            elif v.kind == 'T':
                sets.append(c)
            elif v.kind == 'and' and u in v.args:
                kill.append(And(c, Not(And(*[x for x in v.args if x != u]))))
                keep.append(c)
            elif v.kind == 'or' and u in v.args:
                sets.append(And(c, Or(*[x for x in v.args if x != u])))
                keep.append(c)
            else:
                return None
        def strip(c):
            # the flag itself as part of the condition is redundant for kill/set
            if c.kind == 'and':
                return And(*[x for x in c.args if x != u and x != Not(u)])
            return TRUE if c in (u, Not(u)) else c
        if kill and not sets:
            g = Or(*[strip(c) for c in kill])
            if mentions(g, U):
                return None
            def fl(kp):
                j = fresh('j', 'i')
                return And(v0, Forall(j, kp, Not(subst(g, {kn: j}))))
            return fl
        if sets and not kill:
            g = Or(*[strip(c) for c in sets])
            if mentions(g, U):
                return None
            def fl(kp):
                j = fresh('j', 'i')
                return Or(v0, Exists(j, kp, subst(g, {kn: j})))
            return fl
        return None

    def _solve_log(self, v0, u, news, k, U):
        kn = vname(k)
        n = len(u.ev)
        evs = []
        for c, v in news:
            if not (len(v.ev) >= n and all(same(a, b) for a, b in zip(v.ev[:n], u.ev))):
                return None
            evs.append((c, v.ev[n:]))
        if any(mentions_val(e, U) for c, e in evs):
            return None
        if len(evs) == 1 or all(same_deep(e, evs[0][1]) for c, e in evs):
            ev = evs[0][1]
        elif any(mentions(c, U) for c, e in evs):
            return None
        else:
            ev = (('alt',) + tuple((c, e) for c, e in evs),)
        def lg(kp):
            if kp.iszero():
                return v0
            return Log(v0.ev + (('rep', k, kp, ev),))
        return lg

    def _solve_arr(self, v0, u, news, k, U):
        kn = vname(k)
        # whole-array value not depending on unknowns ("last value"), same dims
        def peel(v):
            ups = []
            while v is not u and v.base is not None:
                ups.append((v.cond, v.val))
                v = v.base
            return v, ups[::-1]
        peeled = [(c, v) + peel(v) for c, v in news]
        if all(root is not u for c, v, root, ups in peeled):
            if len(news) == 1:
                v = news[0][1]
                ix = tuple(fresh('x', 'i') for _ in v.dims)
                val = v.get(*ix)
                if not mentions(val, U) and not any(mentions(d, U) for d in v.dims):
                    s = {kn: topoly(-1)}
                    xs = {vname(a): a for a in ix}
                    if subst(val, s) == v0.get(*ix) and all(subst(d, s) == e for d, e in zip(v.dims, v0.dims)):
                        return lambda kp: v.sub({kn: kp - 1})
                    return lambda kp: ite_val(le(kp, 0), v0, v.sub({kn: kp - 1}))
                # elementwise accumulation  v' = u + g(k)
                d = val - u.get(*ix)
                if not mentions(d, U) and all(a == b for a, b in zip(v.dims, v0.dims)):
                    def acc(kp):
                        def fn(jx):
                            j = fresh('j', 'i')
                            s2 = {vname(a): b for a, b in zip(ix, jx)}
                            s2[kn] = j
                            return v0.get(*jx) + Sum([(j, kp)], subst(d, s2))
                        return Arr(v0.kind, v0.es, v0.dims, fn)
                    return acc
            return self._solve_elem(v0, u, news, k, U)
        if not all(root is u for c, v, root, ups in peeled):
            return self._solve_elem(v0, u, news, k, U)
        # point/range writes
        ix = tuple(fresh('x', 'i') for _ in v0.dims)
        if len(peeled) > 1:
            # the same writes on every path
            ws = [[(cond(ix), val(ix)) for cond, val in ups] for c, v, root, ups in peeled]
            if all(w == ws[0] for w in ws[1:]):
                peeled = peeled[:1]
        if len(peeled) > 1 and any(mentions(c, U) for c, v, r, ups in peeled):
            # conditions may read elements that no earlier iteration wrote
            pre = [(self._invert(cond(ix), ix, k), None) for c, v, r, ups in peeled for cond, val in ups]
            if any(w is None for w, _ in pre):
                return None
            cs = [self._entry_reads(c, v0, u, pre, k, U, ix) if mentions(c, U) else c for c, v, r, ups in peeled]
            if any(c is None or mentions(c, U) for c in cs):
                return None
            peeled = [(c,) + x[1:] for c, x in zip(cs, peeled)]
        writes = []
        for c, v, root, ups in peeled:
            for cond, val in ups:
                cc = cond(ix)
                vv = val(ix)
                if len(peeled) > 1:
                    cc = And(c, cc)
                if mentions(cc, U):
                    return None
                writes.append((cc, vv))
        if all(kn not in cc.fv for cc, vv in writes) and not any(mentions(vv, U) for cc, vv in writes):
            # the same elements in every iteration: the last one counts
            def last(kp):
                r = v0
                for cc, vv in writes:
                    def cond(jx, cc=cc):
                        return And(ge(kp, 1), subst(cc, {vname(a): b for a, b in zip(ix, jx)}))

                    def val(jx, vv=vv):
                        return subst(subst(vv, {kn: kp - 1}), {vname(a): b for a, b in zip(ix, jx)})
                    r = r.upd(cond, val)
                return r
            return last
        # try "not yet written elements keep their entry value"
        sols = []
        for cc, vv in writes:
            w = self._invert(cc, ix, k)
            if w is None:
                return None
            sols.append((w, vv))
        for w, vv in sols:
            if mentions(vv, U):
                vv2 = self._entry_reads(vv, v0, u, sols, k, U, ix)
                if vv2 is None or mentions(vv2, U):
                    return None
        sols2 = []
        for w, vv in sols:
            if mentions(vv, U):
                vv = self._entry_reads(vv, v0, u, sols, k, U, ix)
            sols2.append((w, vv))

        def clo(kp):
            r = v0
            for (j, guard), vv in sols2:
                # iteration j(ix) wrote the element if 0 <= j < kp and guard
                def cond(jx, j=j, guard=guard):
                    s = {vname(a): b for a, b in zip(ix, jx)}
                    jj = subst(j, s)
                    return And(le(0, jj), lt(jj, kp), subst(subst(guard, {kn: j}), s))

                def val(jx, j=j, vv=vv):
                    s = {vname(a): b for a, b in zip(ix, jx)}
                    return subst(subst(vv, {kn: j}), s)
                r = r.upd(cond, val)
            return r
        return clo

    def _solve_elem(self, v0, u, news, k, U):
        """Every element follows a recursion of its own."""
        if any(len(v.dims) != len(v0.dims) or any(a != b for a, b in zip(v.dims, v0.dims)) for c, v in news):
            return None
        if v0.es == 'b':
            return None
        ix = tuple(fresh('x', 'i') for _ in v0.dims)
        xs = [vname(a) for a in ix]
        f = self._solve_scalar(v0.get(*ix), u.get(*ix), [(c, v.get(*ix)) for c, v in news], k, U)
        if f is None:
            return None
        return lambda kp: Arr(v0.kind, v0.es, v0.dims, lambda jx: subst(f(kp), dict(zip(xs, jx))))

    def _invert(self, cc, ix, k):
        """From the written-index condition cc(ix,k) find the iteration j(ix) that writes ix,
        and the remaining guard (in terms of k, to be instantiated at j)."""
        kn = vname(k)
        parts = list(cc.args) if cc.kind == 'and' else [cc]
        for p in parts:
            if p.kind == 'eq' and kn in p.fv and any(vname(a) in p.fv for a in ix):
                pol = p.args[0]
                j = solve_linear(pol, kn)
                rest = [q for q in parts if q is not p]
                if j is not None:
                    return (j, And(*rest))
                # a*k + b = ix : stride
                ca = None
                oth = {}
                bad = False
                for m, c in pol.t.items():
                    if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == kn and m[0][1] == 1:
                        ca = c
                    elif any(kn in a.fv for a, e in m):
                        bad = True
                    else:
                        oth[m] = c
                if bad or ca is None:
                    continue
                e = P(oth) * (-1 if ca > 0 else 1)
                n = abs(ca)
                if not is_int(e):
                    continue
                return (Idiv2(e, int(n)), And(eq(Imod(e, topoly(int(n))), 0), le(0, e), *rest))
        return None

    def _entry_reads(self, vv, v0, u, sols, k, U, ix):
        """Replace reads of elements of the unknown array that no earlier iteration wrote by entry values."""
        kn = vname(k)
        res = [True]
        tmp = tuple(fresh('y', 'i') for _ in v0.dims)
        probe = the_atom(u.get(*tmp))
        uname = probe.args[0]
        npre = len(probe.args[1]) - sum(1 for a in probe.args[1] if any(vname(t) in a.fv for t in tmp))

        def fn(a):
            if a.kind == 'el' and a.args[0] == uname:
                idx = a.args[1][npre:]
                if v0.kind == 'col':
                    jx = (idx[0], ZERO)
                elif v0.kind == 'row':
                    jx = (ZERO, idx[0])
                else:
                    jx = tuple(idx)
                s = {vname(t): j for t, j in zip(ix, jx)}
                for (j, guard), _ in sols:
                    jj = subst(j, s)
                    hy = list(self.pc) + [le(0, k)]
                    if not entails(hy, Or(lt(jj, 0), ge(jj, k))):
                        g = subst(subst(guard, {kn: j}), s)
                        if not entails(hy, Or(lt(jj, 0), ge(jj, k), Not(g))):
                            res[0] = False
                            return None
                return v0.get(*jx)
            return None
        r = map_atoms(vv, fn)
        return r if res[0] else None


def Idiv2(e, n):
    return Idiv(e, topoly(n))


class _LoopExit(Exception):
    pass


class _LoopExitAfter(Exception):
    pass


def mentions(x, U):
    if isinstance(x, (P, F)):
        for a in all_atoms(x).values():
            if a.kind in ('el', 'app') and isinstance(a.args[0], str) and (a.args[0] in U or a.args[0].split('.')[0] in U):
                return True
        if isinstance(x, F):
            return _pred_mentions(x, U)
        # predicates nested in ite conditions
        for a in all_atoms(x).values():
            if a.kind in ('ite',) and _pred_mentions(a.args[0], U):
                return True
    return False


def _pred_mentions(f, U):
    if f.kind == 'pred':
        return f.args[0] in U
    return any(_pred_mentions(g, U) for g in f.args if isinstance(g, F))


def mentions_val(v, U):
    if isinstance(v, (P, F)):
        return mentions(v, U)
    if isinstance(v, (tuple, list)):
        return any(mentions_val(x, U) for x in v)
    if isinstance(v, Arr):
        ix = tuple(fresh('x', 'i') for _ in v.dims)
        return mentions(v.get(*ix), U) or any(mentions(d, U) for d in v.dims)
    if isinstance(v, Struct):
        return any(mentions_val(x, U) for x in v.f.values())
    if isinstance(v, (ObjV,)):
        return mentions_val(v.id, U)
    if isinstance(v, Log):
        return mentions_val(v.ev, U)
    return False


def same_goals(a, b):
    """Goals for a = b: list of (suffix, goal, extra hyps)."""
    if isinstance(a, (P, int, float, Fraction)) and isinstance(b, (P, int, float, Fraction)):
        x, y = topoly(a), topoly(b)
        if x != y and is_real(x) and is_real(y) and (has_min(x) or has_min(y)):
            # two minima agree when they have the same lower bounds
            t = fresh('t', 'r')
            return [(' (%s)' % n, Implies(f(t, u), f(t, v)), []) for n, f, u, v in
                    (('not above', lt, x, y), ('not below', lt, y, x))]
        return [('', eq(a, b), [])]
    if isinstance(a, (F, bool)) and isinstance(b, (F, bool)):
        return [('', Iff(a, b), [])]
    if isinstance(a, Arr) and isinstance(b, Arr):
        out = [(' (size)', And(*[eq(x, y) for x, y in zip(a.dims, b.dims)]), [])]
        ix = [fresh('i', 'i') for _ in b.dims]
        h = []
        for n, (i, d) in enumerate(zip(ix, b.dims)):
            if d == 1:
                ix[n] = ZERO
            else:
                h += [le(0, i), lt(i, d)]
        x, y = a.get(*ix), b.get(*ix)
        out.append((' (elements)', Iff(x, y) if isinstance(x, F) else eq(x, y), h))
        return out
    if isinstance(a, Struct) and isinstance(b, Struct):
        r = []
        for f in b.f:
            r += [('.%s%s' % (f, s), g, h) for s, g, h in same_goals(a.f[f], b.f[f])]
        return r
    if isinstance(a, Log) and isinstance(b, Log):
        return same_goals_ev(a.ev, b.ev)
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.k == b.k == 'iter' and a.d[0] == b.d[0]:
        return same_goals(a.d[1], b.d[1])
    if isinstance(a, (ObjV, Opaque, str, type(None), Ref)) and same(a, b):
        return []
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return same_goals_ev(a.id, b.id)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return same_goals_ev(a, b)
    return [('', FALSE, [])]


def same_goals_ev(a, b):
    a, b = norm_ev(a), norm_ev(b)
    if len(a) == len(b) and any(isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == y[:1] == ('rep',) and
                                (x[2] - y[2]).const() not in (0, None) for x, y in zip(a, b)):
        r = unroll_match(a, b)
        if r is not None:
            return r
    if len(a) != len(b):
        # a rep with one more iteration vs rep followed by its body
        r = unroll_match(a, b)
        if r is not None:
            return r
        return [(' (event count %d vs %d)' % (len(a), len(b)), FALSE, [])]
    out = []
    for n, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ('rep',) and y[:1] == ('rep',):
            out.append((' [rep %d count]' % n, eq(x[2], y[2]), []))
            v = fresh('r', 'i')
            ex = subst_val(x[3], {vname(x[1]): v})
            ey = subst_val(y[3], {vname(y[1]): v})
            out += [(' [rep %d]%s' % (n, s), g, h + [le(0, v), lt(v, y[2])]) for s, g, h in same_goals_ev(ex, ey)]
        elif isinstance(x, tuple) and isinstance(y, tuple):
            out += [('[%d]%s' % (n, s), g, h) for s, g, h in same_goals_ev(x, y)]
        elif isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if x != y:
                out.append((' event %s vs %s' % (x, y), FALSE, []))
        else:
            out += [('[%d]%s' % (n, s), g, h) for s, g, h in same_goals(x, y)]
    return out


def norm_ev(ev):
    if not (isinstance(ev, tuple) and ev and isinstance(ev[0], tuple)):
        return ev
    out = []
    for e in ev:
        if isinstance(e, tuple) and e[:1] == ('rep',):
            if isinstance(e[2], P) and e[2].iszero():
                continue
            if len(e[3]) == 0:
                continue
            if isinstance(e[2], P) and e[2].const() == 1:
                out.extend(subst_val(e[3], {vname(e[1]): ZERO}))
                continue
        out.append(e)
    return tuple(out)


def unroll_match(a, b):
    """rep^k ++ body(k)  against  rep^(k+1)."""
    for x, y in ((a, b), (b, a)):
        for n, e in enumerate(y):
            if isinstance(e, tuple) and e[:1] == ('rep',) and n < len(x) and isinstance(x[n], tuple) and \
                    x[n][:1] == ('rep',) and (e[2] - x[n][2]).const() == 1 and len(e[3]) == 1 and e[3][0][0] == 'alt' \
                    and len(x) >= len(y):
                # the last iteration took one of the alternatives
                m = len(x) - len(y)
                out = same_goals_ev(x[:n + 1] + x[n + 1 + m:], y[:n] + (('rep', e[1], x[n][2], e[3]),) + y[n + 1:])
                for c, ev in subst_val(e[3][0][1:], {vname(e[1]): x[n][2]}):
                    out += [(' [alternative]' + sfx, g, h + [c]) for sfx, g, h in same_goals_ev(x[n + 1:n + 1 + m], ev)]
                return out
            if isinstance(e, tuple) and e[:1] == ('rep',) and n < len(x) and isinstance(x[n], tuple) and x[n][:1] == ('rep',):
                d = (e[2] - x[n][2]).const()
                if d == 1 and len(x) == len(y) + len(e[3]):
                    y2 = y[:n] + (('rep', e[1], x[n][2], e[3]),) + subst_val(e[3], {vname(e[1]): x[n][2]}) + y[n + 1:]
                    return same_goals_ev(x, y2)
            elif isinstance(e, tuple) and e[:1] == ('rep',) and len(x) == len(y) + len(e[3]) - 1 and (e[2]).const() == 1:
                y2 = y[:n] + subst_val(e[3], {vname(e[1]): ZERO}) + y[n + 1:]
                return same_goals_ev(x, y2)
    return None
