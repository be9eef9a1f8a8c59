"""Discharge of proof obligations: normal forms, z3, cvc5 cross-check, numeric refutation."""
import cmath
import hashlib
import itertools
import math
import random
import time
from fractions import Fraction

import z3

from .terms import *
from . import terms as T

STATS = {'z3_calls': 0, 'z3_s': 0.0, 'nf': 0, 'z3': 0}
TIMEOUT_MS = 1500


# ------------------------------------------------------------------ z3 bridge
class Z3Env(object):
    def __init__(self):
        self.cache = {}
        self.axioms = []
        self.keep = []

    def const(self, key, sort):
        nm = 'k!' + hashlib.sha1(key.encode()).hexdigest()[:16]
        return z3.Int(nm) if sort == 'i' else z3.Real(nm)

    def opaque(self, key, sort, fv):
        """An uninterpreted value: a function of the quantified variables it mentions."""
        bs = sorted(n for n in fv if n.startswith('β'))
        if not bs:
            return self.const(key, sort)
        nm = 'k!' + hashlib.sha1(key.encode()).hexdigest()[:16]
        f = z3.Function(nm, *([z3.IntSort()] * len(bs) + [z3.IntSort() if sort == 'i' else z3.RealSort()]))
        return f(*[z3.Int(n) for n in bs])

    def atom(self, a):
        r = self.cache.get(a.key)
        if r is not None:
            return r
        k = a.kind
        s = a.sort
        if k == 'var':
            r = z3.Int(a.args[0]) if s == 'i' else z3.Real(a.args[0])
        elif k in ('el', 'app') and all(isinstance(x, (P, str)) for x in a.args[1]) and \
                not (k == 'app' and a.args[0] in ('idiv', 'mod', 'abs', 'sqrt', 'exp', 'log', 'pow', 'min2', 'max2')):
            args = [self.poly(x) for x in a.args[1] if isinstance(x, P)]
            if args:
                f = z3.Function('%s/%d' % ('/'.join([a.args[0]] + [x for x in a.args[1] if isinstance(x, str)]), len(args)),
                                *([x.sort() for x in args] + [z3.IntSort() if s == 'i' else z3.RealSort()]))
                r = f(*args)
            else:
                r = self.const(a.key, s)
        elif k == 'app' and a.args[0] == 'idiv':
            r = self.poly(a.args[1][0]) / self.poly(a.args[1][1])
        elif k == 'app' and a.args[0] == 'mod':
            r = self.poly(a.args[1][0]) % self.poly(a.args[1][1])
        elif k == 'app' and a.args[0] in ('min2', 'max2'):
            x, y = (self.poly(z, real=True) for z in a.args[1])
            r = z3.If(x <= y, x, y) if a.args[0] == 'min2' else z3.If(x >= y, x, y)
        elif k == 'app' and a.args[0] == 'abs' and is_real(a.args[1][0]):
            x = self.poly(a.args[1][0])
            r = z3.If(x >= 0, x, -x)
        elif k == 'app' and a.args[0] == 'sqrt' and is_real(a.args[1][0]):
            x = self.poly(a.args[1][0], real=True)
            f = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
            r = f(x)
            self.cache[a.key] = r
            if not self.bound(a):
                self.axioms.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif k == 'app' and a.args[0] == 'exp' and is_real(a.args[1][0]):
            x = self.poly(a.args[1][0], real=True)
            f = z3.Function('exp', z3.RealSort(), z3.RealSort())
            r = f(x)
            self.cache[a.key] = r
            if not self.bound(a):
                self.axioms.append(r > 0)
        elif k == 'app' and a.args[0] in ('log', 'pow') and all(is_real(x) for x in a.args[1]):
            args = [self.poly(x, real=True) for x in a.args[1]]
            f = z3.Function(a.args[0], *([z3.RealSort()] * (len(args) + 1)))
            r = f(*args)
        elif k == 'ite':
            r = z3.If(self.f(a.args[0]), self.poly(a.args[1], real=s != 'i'), self.poly(a.args[2], real=s != 'i'))
        elif k == 'poly':
            raise Unsupported('poly atom')
        else:
            r = self.opaque(a.key, s, a.fv)
            if k == 'count' and not self.bound(a):
                self.axioms.append(r >= 0)
                self.axioms.append(r <= self.poly(a.args[0][0]))
        self.cache[a.key] = r
        return r

    def bound(self, a):
        return any(n.startswith('β') for n in a.fv)

    def poly(self, p, real=None):
        if real is None:
            real = not is_int(p)
        terms = []
        for m, c in p.t.items():
            facs = []
            if any(a.sort == 'c' for a, e in m) and len(m) + sum(abs(e) for a, e in m) > 2:
                facs.append(self.opaque('mono' + repr([(a.key, e) for a, e in m]), 'r',
                                        set().union(*[a.fv for a, e in m])))
            else:
                for a, e in m:
                    if a.kind == 'poly' or e < 0:
                        base = self.poly(a.args[0], real=True) if a.kind == 'poly' else self.atom(a)
                        if base.sort() == z3.IntSort():
                            base = z3.ToReal(base)
                        n = 'inv'
                        inv = z3.Function('inv', z3.RealSort(), z3.RealSort())(base)
                        if not self.bound(a):
                            self.axioms.append(z3.Implies(base != 0, inv * base == 1))
                        x, e = inv, -e
                    else:
                        x = self.atom(a)
                    if real and x.sort() == z3.IntSort():
                        x = z3.ToReal(x)
                    facs.extend([x] * e)
            if real:
                t = z3.RealVal(str(c))
            else:
                t = z3.IntVal(int(c))
            if facs:
                pr = facs[0]
                for x in facs[1:]:
                    pr = pr * x
                t = pr if c == 1 else t * pr
            terms.append(t)
        if not terms:
            return z3.RealVal(0) if real else z3.IntVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def f(self, f):
        k = f.kind
        if k == 'T':
            return z3.BoolVal(True)
        if k == 'F':
            return z3.BoolVal(False)
        if k in ('lt', 'le', 'eq'):
            p = f.args[0]
            x = self.poly(p)
            return x < 0 if k == 'lt' else x <= 0 if k == 'le' else x == 0
        if k == 'not':
            return z3.Not(self.f(f.args[0]))
        if k == 'and':
            return z3.And(*[self.f(x) for x in f.args])
        if k == 'or':
            return z3.Or(*[self.f(x) for x in f.args])
        if k in ('all', 'ex'):
            v = z3.Int(T._bname(f.lvl, 0))
            h = self.poly(f.args[0][0])
            b = self.f(f.args[1])
            rng = z3.And(v >= 0, v < h)
            if k == 'all':
                return z3.ForAll([v], z3.Implies(rng, b))
            return z3.Exists([v], z3.And(rng, b))
        if k == 'pred':
            args = [self.poly(x) for x in f.args[1] if isinstance(x, P)]
            extra = ''.join(str(x) for x in f.args[1] if not isinstance(x, P))
            if not args:
                return z3.Bool(f.args[0] + extra)
            fn = z3.Function(f.args[0] + extra, *([x.sort() for x in args] + [z3.BoolSort()]))
            return fn(*args)
        raise Unsupported(k)


_QC = {}


def _eqflow(hyps):
    return hyps


def z3_check(fs, timeout=None):
    """sat / unsat / unknown of a conjunction."""
    key = tuple(sorted(f.key for f in fs))
    if key in _QC:
        return _QC[key]
    if any(f.kind == 'F' for f in fs):
        return 'unsat'
    t0 = time.time()
    env = Z3Env()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    zs = [env.f(f) for f in fs]
    for a in env.axioms:
        s.add(a)
    for z in zs:
        s.add(z)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_s'] += time.time() - t0
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    _QC[key] = res
    return res


def relevant(goal, hyps):
    return hyps


def entails(hyps, f, timeout=None):
    f = tof(f)
    if f.kind == 'T':
        return True
    if f.kind == 'F' and not hyps:
        return False
    if f in hyps:
        return True
    if f.kind == 'and':
        return all(entails(hyps, g, timeout) for g in f.args)
    return z3_check(list(hyps) + [Not(f)], timeout) == 'unsat'


def feasible(hyps):
    return z3_check(list(hyps)) != 'unsat'


# ------------------------------------------------------------------ simplification
def clear_den(p, limit=4000):
    """Multiply by denominators that are sums: the zero-ness of p is preserved
    for non-zero denominators (an assumption of the evidence)."""
    for _ in range(60):
        worst = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'poly' and e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return p
        # innermost-first: clear the one with the largest size last
        a = min(worst, key=lambda x: (len(x.args[0].t), x.key))
        k = -worst[a]
        q = ZERO
        pows = {0: ONE}
        for i in range(1, k + 1):
            pows[i] = pows[i - 1] * a.args[0]
        out = {}
        groups = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            mm = tuple(sorted(d.items(), key=lambda x: x[0].key))
            groups.setdefault(e + k, {})[mm] = c
        for e, t in groups.items():
            q = q + P(t) * pows[e] if e <= k else q + P(t) * ppow(a.args[0], e)
        p = q
        if len(p.t) > limit:
            raise Unsupported('denominator clearing too large')
    raise Unsupported('denominators')


def eq_rewrites(hyps):
    """Oriented rewrites atom -> P from equality hypotheses."""
    rw = []
    for h in hyps:
        if h.kind == 'eq':
            p = h.args[0]
            best = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('var', 'el', 'app', 'count'):
                    a = m[0][0]
                    if a.sort == 'i' and c not in (1, -1):
                        continue
                    rest = P({mm: cc for mm, cc in p.t.items() if mm != m}) * (-1 / c)
                    if a.key in all_atoms(rest):
                        continue
                    score = ({'var': 2, 'count': 1, 'app': 0, 'el': 1}[a.kind], len(a.key), a.key)
                    if a.kind == 'var' and '!' in a.args[0]:
                        score = (3, len(a.key), a.key)
                    if a.sort == 'c' and is_real(rest):
                        score = (4, len(a.key), a.key)
                    if best is None or score > best[0]:
                        best = (score, a, rest)
            if best:
                rw.append((best[1], best[2]))
    return rw


def apply_rewrites(x, hyps):
    rw = eq_rewrites(hyps)
    for _ in range(4):
        y = x
        for a, v in rw:
            if isinstance(y, (P, F)) and a.key in all_atoms(y):
                y = replace_atom(y, a, v)
        if y == x:
            return x
        x = y
    return x


def decide(f, hyps):
    f = tof(f)
    if f.kind == 'T':
        return True
    if f.kind == 'F':
        return False
    if f in hyps:
        return True
    if Not(f) in hyps:
        return False
    if any(n.startswith('β') for n in f.fv):
        return None
    if entails(hyps, f):
        return True
    if entails(hyps, Not(f)):
        return False
    return None


def merges(c, x1, x2, hy):
    """Is x1 = x2 whenever c holds (c an equation, or one end of a known range)?"""
    if not isinstance(x1, P) or x1 == x2:
        return x1 == x2
    e = None
    if c.kind == 'eq':
        e = c
    elif c.kind == 'le' and len(c.args[0].t) <= 3:
        p = c.args[0]
        if is_int(p) and entails(hy, ge(p, 0)):
            e = eq(p, 0)
    if e is None or e.kind != 'eq':
        return False
    for n in sorted(e.args[0].fv):
        sol = solve_linear(e.args[0], n)
        try:
            if sol is not None and n not in sol.fv and subst(x1, {n: sol}) == subst(x2, {n: sol}):
                return True
        except DivByZero:
            pass
    return False


def trim(c, hy):
    """Drop the parts of a conjunction/disjunction the hypotheses decide."""
    out = []
    for g in c.args:
        d = decide(g, hy)
        if d is None:
            out.append(g)
        elif d is (c.kind == 'or'):
            return TRUE if d else FALSE
    return (And if c.kind == 'and' else Or)(*out)


_deep = [0]


def depth_ok():
    return _deep[0] == 0


def same_under(x1, x2, hy):
    """x1 = x2 under the hypotheses, by a small case split."""
    if not isinstance(x1, P) or not isinstance(x2, P):
        return False
    _deep[0] += 1
    try:
        return prove_zero(x1 - x2, hy, 6, 0)
    finally:
        _deep[0] -= 1


def resolve_ites(x, hyps):
    """Resolve conditionals decided by the hypotheses (also under binders, with the
    binder's range as an additional hypothesis)."""
    deep = [0]

    def go(y, hy):
        if isinstance(y, P):
            if not any(a.kind == 'ite' for a in all_atoms(y).values()):
                return y
            out = ZERO
            for m, c in y.t.items():
                r = topoly(c)
                for a, e in m:
                    r = r * ppow(goA(a, hy), e)
                out = out + r
            return out
        if isinstance(y, F):
            if not any(a.kind == 'ite' for a in all_atoms(y).values()):
                return y
            if y.kind in ('all', 'ex'):
                vs, b = open_f(y)
                h = go(y.args[0][0], hy)
                b = go(b, hy + [le(0, vs[0]), lt(vs[0], h)])
                return (Forall if y.kind == 'all' else Exists)(vs[0], h, b)
            return rebuild_f(y, lambda z: go(z, hy))
        if isinstance(y, tuple):
            return tuple(go(z, hy) for z in y)
        return y

    def goA(a, hy):
        if a.kind in ('var', 'I'):
            return topoly(a)
        if a.kind == 'ite':
            c = go(a.args[0], hy)
            d = decide(c, hy)
            if d is None and c.kind in ('and', 'or'):
                c = trim(c, hy)
                d = decide(c, hy) if c.kind in ('T', 'F') else None
            if d is True:
                return go(a.args[1], hy)
            if d is False:
                return go(a.args[2], hy)
            x1, x2 = go(a.args[1], hy + [c]), go(a.args[2], hy + [Not(c)])
            if merges(c, x1, x2, hy):
                return x2
            if merges(Not(c), x2, x1, hy):
                return x1
            if deep[0] and depth_ok():
                if same_under(x1, x2, hy + [c]):
                    return x2
                if same_under(x1, x2, hy + [Not(c)]):
                    return x1
            return Ite(c, x1, x2)
        if a.kind in ('sum', 'prod', 'count', 'minover', 'maxover'):
            if not any(b.kind == 'ite' for b in all_atoms(topoly(a)).values()):
                return topoly(a)
            vs, b = open_binder(a)
            hs = [go(h, hy) for h in a.args[0]]
            h2 = list(hy)
            for v, h in zip(vs, hs):
                h2 += [le(0, v), lt(v, h)]
            deep[0] += 1
            b = go(b, h2)
            deep[0] -= 1
            if a.kind == 'sum':
                return Sum(list(zip(vs, hs)), b)
            if a.kind == 'prod':
                return Prod(vs[0], hs[0], b)
            if a.kind == 'count':
                return Count(vs[0], hs[0], b)
            return (MinOver if a.kind == 'minover' else MaxOver)(vs[0], hs[0], b)
        return rebuild(a, lambda z: go(z, hy))
    return go(x, list(hyps))


def split_sum_ite(x, hyps):
    """Sum_{v<h} over a body with ite(cond linear in v): split the range."""
    changed = [False]

    def fn(a):
        if a.kind not in ('sum', 'prod'):
            return None
        vs, b = open_binder(a)
        hs = a.args[0]
        for it in [c for c in all_atoms(b, into_binders=False).values() if c.kind == 'ite']:
            cond = it.args[0]
            for v, h in zip(vs, hs):
                n = vname(v)
                if n not in cond.fv:
                    continue
                others = {vname(w) for w in vs} - {n}
                if cond.fv & others and a.kind == 'sum':
                    pass
                bound = None
                if cond.kind == 'le':
                    p = cond.args[0]
                    sol = solve_linear(p, n)
                    if sol is None:
                        continue
                    cv = [c for m, c in p.t.items() if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == n][0]
                    if sol.fv & others:
                        continue
                    # cv=1: v <= sol ; cv=-1: v >= sol
                    if cv > 0:
                        e, lo, hi = sol + 1, it.args[1], it.args[2]
                    else:
                        e, lo, hi = sol, it.args[2], it.args[1]
                    bound = e
                    if entails(hyps, And(le(0, e), le(e, h))):
                        pass
                    elif entails(hyps, le(e, 0)):
                        e = ZERO
                    elif entails(hyps, le(h, e)):
                        e = h
                    else:
                        continue
                    blo, bhi = replace_atom(b, it, lo), replace_atom(b, it, hi)
                    changed[0] = True
                    w = fresh('t', 'i')
                    if a.kind == 'sum':
                        rest = [(u, hh) for u, hh in zip(vs, hs) if vname(u) != n]
                        s1 = Sum([(v, e)], blo)
                        s2 = Sum([(w, h - e)], subst(bhi, {n: w + e}))
                        return Sum(rest, s1 + s2) if rest else s1 + s2
                    return Prod(v, e, blo) * Prod(w, h - e, subst(bhi, {n: w + e}))
                if cond.kind == 'eq':
                    sol = solve_linear(cond.args[0], n)
                    if sol is None or sol.fv & others:
                        continue
                    be, bn = replace_atom(b, it, it.args[1]), replace_atom(b, it, it.args[2])
                    inr = And(le(0, sol), lt(sol, h))
                    if a.kind == 'sum':
                        rest = [(u, hh) for u, hh in zip(vs, hs) if vname(u) != n]
                        changed[0] = True
                        d = Ite(inr, subst(be - bn, {n: sol}), ZERO)
                        s = Sum([(v, h)], bn) + d
                        return Sum(rest, s) if rest else s
                    if entails(hyps, inr):
                        changed[0] = True
                        w = fresh('t', 'i')
                        return Prod(v, sol, bn) * subst(be, {n: sol}) * Prod(w, h - sol - 1, subst(bn, {n: w + sol + 1}))
        return None
    y = map_atoms(x, fn)
    return y if changed[0] else x


def _align_multi(p, hyps):
    """Sums over several variables, the same but for one range."""
    ats = [a for a in all_atoms(p, into_binders=False).values() if a.kind == 'sum' and len(a.args[0]) > 1]
    for a in ats:
        for b in ats:
            if a is b or len(a.args[0]) != len(b.args[0]):
                continue
            va, ba = open_binder(a)
            vb, bb = open_binder(b)
            for pm in itertools.permutations(range(len(vb))) if len(vb) <= 4 else [range(len(vb))]:
                hbs = [b.args[0][j] for j in pm]
                diff = [i for i, (x, y) in enumerate(zip(a.args[0], hbs)) if x != y]
                if len(diff) != 1:
                    continue
                i, = diff
                ha, hb = a.args[0][i], hbs[i]
                d = (ha - hb).const()
                if d is None or not 0 < d <= 6 or not entails(hyps, le(0, hb)):
                    continue
                if subst(bb, {vname(vb[j]): va[n] for n, j in enumerate(pm)}) != ba:
                    continue
                r = topoly(b)
                for k in range(int(d)):
                    r = r + Sum([(v, h) for j, (v, h) in enumerate(zip(va, a.args[0])) if j != i],
                                subst(ba, {vname(va[i]): hb + k}))
                return replace_atom(p, a, r)
    return None


def align_sums(p, hyps):
    """Bring sums/products that differ by shifting or by a few end terms to a common range."""
    ats = [a for a in all_atoms(p, into_binders=False).values() if a.kind in ('sum', 'prod') and len(a.args[0]) == 1]
    q = _align_multi(p, hyps)
    if q is not None:
        return q
    for i in range(len(ats)):
        for j in range(len(ats)):
            if i == j or ats[i].kind != ats[j].kind:
                continue
            a, b = ats[i], ats[j]
            ha, hb = a.args[0][0], b.args[0][0]
            va, ba = open_binder(a)
            vb, bb = open_binder(b)
            n = vname(vb[0])
            for s in (0, 1, -1, 2, -2):
                if subst(bb, {n: va[0] + s}) == ba:
                    # body_a(v) = body_b(v+s): a = sum_{v<ha} f(v+s) = sum_{s<=w<ha+s} f(w)
                    f = lambda x: subst(bb, {n: topoly(x)})
                    d = (ha + s - hb).const()
                    if d is None or abs(d) > 6:
                        continue
                    if ha == hb and s == 0:
                        continue
                    # express a through b
                    if not entails(hyps, And(le(0, ha), le(0, hb), le(s, hb) if s > 0 else TRUE)):
                        continue
                    if a.kind == 'sum':
                        r = topoly(b)
                        for k in range(max(0, s)):
                            r = r - f(k)
                        for k in range(s, 0):
                            r = r + f(k)
                        for k in range(int(max(0, d))):
                            r = r + f(hb + k)
                        for k in range(int(max(0, -d))):
                            r = r - f(hb - 1 - k)
                    else:
                        r = topoly(b)
                        for k in range(max(0, s)):
                            r = r / f(k)
                        for k in range(s, 0):
                            r = r * f(k)
                        for k in range(int(max(0, d))):
                            r = r * f(hb + k)
                        for k in range(int(max(0, -d))):
                            r = r / f(hb - 1 - k)
                    return replace_atom(p, a, r)
    return None


def unfold_ghosts(x, hyps, every=False):
    """Unfold ghost definitions: those at the latest step first, plain definitions last."""
    cand = {}
    for a in all_atoms(x).values():
        if a.kind == 'app' and a.args[0] in T.GHOST:
            cand[a.key] = a
    if not cand:
        return None
    groups = []
    if every:
        groups = [list(cand.values())]
    else:
        st = [a for a in cand.values() if a.args[0] in T.GHOST_STEP]
        de = [a for a in cand.values() if a.args[0] not in T.GHOST_STEP]
        st = [a for a in st if T.GHOST[a.args[0]](a.args[1], hyps) is not None]
        top = []
        for a in st:
            if not any((b.args[1][0] - a.args[1][0]).const() is not None and
                       (b.args[1][0] - a.args[1][0]).const() > 0 for b in st):
                top.append(a)
        if top:
            groups.append(top)
        if de:
            groups.append(de)
    for g in groups:
        changed = [False]
        names = {a.args[0] for a in g if every or a.args[0] not in T.GHOST_STEP or
                 any(v.startswith('β') for v in a.args[1][0].fv)}
        steps = {(a.args[0], a.args[1][0].key) for a in g}

        def fn(a):
            if a.kind == 'app' and (a.args[0] in names or
                                    (a.args[0] in T.GHOST_STEP and (a.args[0], a.args[1][0].key) in steps)):
                r = T.GHOST[a.args[0]](a.args[1], hyps)
                if r is not None:
                    changed[0] = True
                    return r
            return None
        y = map_atoms(x, fn)
        if changed[0] and y != x:
            return y
    return None


def find_split(p):
    """An undecided condition outside binders to split on."""
    for a in all_atoms(p, into_binders=False).values():
        if a.kind == 'ite' and not any(n.startswith('β') for n in a.args[0].fv):
            c = a.args[0]
            while c.kind in ('and', 'or'):
                c = c.args[0]
            return c
    return None


def resolve_abs(p, hyps):
    """Absolute values whose sign the hypotheses decide."""
    if not any(a.kind == 'app' and a.args[0] == 'abs' for a in all_atoms(p).values()):
        return p

    def fn(a):
        if a.kind == 'app' and a.args[0] == 'abs' and is_real(a.args[1][0]):
            x = a.args[1][0]
            if any(n.startswith('β') for n in x.fv):
                return None
            if entails(hyps, ge(x, 0)):
                return x
            if entails(hyps, le(x, 0)):
                return -x
        return None
    return map_atoms(p, fn)


def pin_ints(p, hyps):
    """Integer variables the hypotheses fix to a constant or to another variable."""
    hv = set()
    for h in hyps:
        if h.kind in ('le', 'not'):
            hv |= h.fv
    vs = sorted({a.args[0] for a in all_atoms(p).values() if a.kind == 'var' and a.sort == 'i'} & hv)
    if len(vs) > 6:
        return []
    out = []
    for i, v in enumerate(vs):
        cands = [topoly(c) for c in (0, 1, 2)] + [Var(u, 'i') for u in vs[:i]]
        for c in cands:
            e = eq(Var(v, 'i'), c)
            if e.kind == 'eq' and e not in hyps and entails(hyps, e):
                out.append(e)
                break
    return out


def prove_zero(p, hyps, depth=0, unfold=5):
    if not p.t:
        STATS['nf'] += 1
        return True
    if depth > 14:
        return False
    extra = []
    for a in all_atoms(p, into_binders=False).values():
        if a.kind == 'ite':
            for c in (a.args[0].args if a.args[0].kind == 'and' else (a.args[0],)):
                if c.kind == 'eq' and c not in hyps and c not in extra and \
                        not any(n.startswith('β') for n in c.fv) and entails(hyps, c):
                    extra.append(c)
    hyps = hyps + extra
    p = apply_rewrites(p, hyps)
    p = resolve_abs(p, hyps)
    p = resolve_ites(p, hyps)
    if not p.t:
        return True
    try:
        p = clear_den(p)
    except Unsupported:
        return False
    if not p.t:
        return True
    q = split_sum_ite(p, hyps)
    if q is not p and q != p:
        return prove_zero(q, hyps, depth + 1, unfold)
    c = find_split(p)
    if c is not None and depth < 10:
        for g in (c, Not(c)):
            h2 = hyps + [g]
            if not feasible(h2):
                continue
            if not prove_zero(p, h2, depth + 1, unfold):
                return False
        return True
    pin = pin_ints(p, hyps)
    if pin:
        return prove_zero(p, hyps + pin, depth + 1, unfold)
    q = align_sums(p, hyps)
    if q is not None:
        return prove_zero(q, hyps, depth + 1, unfold)
    if unfold > 0:
        q = unfold_ghosts(p, hyps)
        if q is not None and q != p:
            if prove_zero(q, hyps, depth + 1, unfold - 1):
                return True
    if is_real(p) and entails(hyps, eq(p, 0)):
        STATS['z3'] += 1
        return True
    return False


def _ground_index(fs):
    """Index terms of the array elements outside quantifiers, by array and position."""
    ix = {}
    for f in fs:
        for a in all_atoms(f).values():
            if a.kind == 'el':
                for n, x in enumerate(a.args[1]):
                    if isinstance(x, P) and not any(v.startswith('β') for v in x.fv):
                        ix.setdefault((a.args[0], n), {})[x.key] = x
    return ix


def _skolem(f, out, pos):
    """Open existentials that are not under a universal quantifier."""
    if f.kind == 'and' or f.kind == 'or':
        return (And if f.kind == 'and' else Or)(*[_skolem(g, out, pos) for g in f.args])
    if f.kind == 'ex':
        vs, b = open_f(f)
        if out is not None:
            out.append((vs[0], f.args[0][0]))
        return And(le(0, vs[0]), lt(vs[0], f.args[0][0]), _skolem(b, out, pos))
    return f


def _instances(f, ix, seen, depth=0):
    """Instances of the universal parts of f at the index terms that occur."""
    if f.kind in ('and', 'or'):
        if f.kind == 'and':
            return [h for g in f.args for h in _instances(g, ix, seen, depth)]
        alls = [g for g in f.args if g.kind == 'all']
        if len(alls) == 0:
            return []
        out = []
        for g in alls:
            rest = [x for x in f.args if x is not g]
            out += [Or(h, *rest) for h in _instances(g, ix, seen, depth)]
        return out
    if f.kind != 'all' or depth > 2:
        return []
    vs, b = open_f(f)
    n = vname(vs[0])
    hi = f.args[0][0]
    cands = {}
    for a in all_atoms(b).values():
        if a.kind != 'el':
            continue
        for k, x in enumerate(a.args[1]):
            if isinstance(x, P) and n in x.fv and not any(v.startswith('β') for v in x.fv):
                for g in ix.get((a.args[0], k), {}).values():
                    s = T.solve_linear(x - g, n)
                    if s is not None:
                        cands[s.key] = s
    for c in (ZERO, hi - 1):
        cands.setdefault(c.key, c)
    out = []
    for s in list(cands.values())[:12]:
        key = (f.key, s.key)
        if key in seen:
            continue
        seen.add(key)
        h = subst(b, {n: s})
        g = Or(lt(s, 0), le(hi, s), h)
        if h.kind in ('and', 'all', 'or'):
            pre = [lt(s, 0), le(hi, s)]
            sub = _instances(h, ix, seen, depth + 1)
            out += [Or(*(pre + [x])) for x in sub]
        out.append(g)
    return out


def inst_unsat(fs, rounds=2):
    """Refutation by instantiating quantified facts at the index terms that occur."""
    if not any(f.kind in ('all', 'ex', 'and', 'or') for f in fs):
        return False
    base, sk = [], []
    for f in reversed(fs):
        f = _skolem(f, sk, True)
        base.extend(f.args if f.kind == 'and' else [f])
    if _inst(base, rounds):
        return True
    return _inst_split(base, sk[:4], rounds)


def _inst_split(base, sk, rounds):
    """Case split: is a witness the last of its range?"""
    if not sk:
        return False
    (v, hi), rest = sk[0], sk[1:]
    last = {vname(v): hi - 1}
    for b in ([subst(f, last) for f in base], base + [ne(v, hi - 1)]):
        if any(f.kind == 'F' for f in b):
            continue
        b = [g for f in b for g in (f.args if f.kind == 'and' else [f])]
        if not _inst(b, rounds) and not _inst_split(b, [(w, subst(h, last)) for w, h in rest], rounds):
            return False
    return True


def _inst(base, rounds):
    if not any(_has_all(f) for f in base):
        return z3_check(base) == 'unsat'
    seen = set()
    extra = []
    for r in range(rounds):
        ix = _ground_index([f for f in base + extra])
        new = []
        for f in base + extra:
            new += _instances(f, ix, seen)
        new = [f for f in (_skolem(x, None, True) for x in new) if f.kind != 'T']
        if not new:
            break
        extra += new
        if len(extra) > 160:
            break
        ground = [f for f in base + extra if not _has_all(f)]
        if z3_check(ground, 3000) == 'unsat':
            return True
    return False


def _has_all(f):
    if f.kind in ('all', 'ex'):
        return True
    if f.kind in ('and', 'or', 'not'):
        return any(_has_all(x) for x in f.args)
    return False


def prove(goal, hyps, depth=0):
    """True if the goal follows from the hypotheses."""
    if _prove(goal, hyps, depth):
        return True
    if depth == 0 and inst_unsat(list(hyps) + [Not(tof(goal))]):
        STATS['z3'] += 1
        return True
    return False


def _prove(goal, hyps, depth=0):
    """True if the goal follows from the hypotheses."""
    goal = tof(goal)
    k = goal.kind
    if k == 'T':
        return True
    if goal in hyps:
        return True
    if k == 'and':
        return all(prove(g, hyps, depth) for g in goal.args)
    if k == 'all':
        vs, b = open_f(goal)
        return prove(b, hyps + [le(0, vs[0]), lt(vs[0], goal.args[0][0])], depth)
    if k == 'or':
        # assume the negation of all but one disjunct, preferring to prove equalities/foralls
        for i, g in sorted(enumerate(goal.args), key=lambda ig: {'eq': 0, 'all': 1, 'and': 2}.get(ig[1].kind, 3)):
            rest = [Not(x) for j, x in enumerate(goal.args) if j != i]
            h2 = hyps + rest
            if not feasible(h2):
                return True
            if g.kind in ('eq', 'all', 'and') and prove(g, h2, depth + 1):
                return True
        return entails(hyps, goal)
    if k == 'eq':
        if prove_zero(goal.args[0], hyps):
            return True
        return entails(hyps, goal)
    if entails(hyps, goal):
        return True
    g2 = goal
    g2 = resolve_ites(apply_rewrites(goal, hyps), hyps)
    if g2 != goal and g2.kind not in ('lt', 'le', 'pred', 'not'):
        return prove(g2, hyps, depth + 1) if depth < 6 else False
    if g2 != goal and entails(hyps, g2):
        return True
    g3 = unfold_ghosts(g2, hyps)
    if g3 is not None and g3 != goal and depth < 4:
        return prove(g3, hyps, depth + 1)
    # case split on undecided conditionals
    for a in all_atoms(g2, into_binders=False).values():
        if a.kind == 'ite' and depth < 8 and not any(n.startswith('β') for n in a.args[0].fv):
            c = a.args[0]
            while c.kind in ('and', 'or'):
                c = c.args[0]
            return all(prove(g2, hyps + [g], depth + 1) for g in (c, Not(c)) if feasible(hyps + [g]))
    return False


# ------------------------------------------------------------------ numeric evaluation
class Undefined(Exception):
    pass


# results fixed by a library contract: no random value stands for them
LIBRARY = {'find', 'find_rank', 'median', 'n_unique', 'polycoef', 'sort_index', 'sort_rank', 'sorted', 'unique_index',
           'unique_rank', 'argmax', 'argmin'}


class Valuation(object):
    """Concrete interpretation of variables, arrays and uninterpreted functions."""

    def __init__(self, seed, vars=None, funcs=None):
        self.seed = seed
        self.vars = dict(vars or {})
        self.funcs = dict(funcs or {})
        self.memo = {}
        self.asked = {}
        self.lits = ()      # wide mode: numbers at which the formulas may change behaviour
        self.wide = False

    def number(self, *key):
        """A real or integer of any sign and size, in wide mode often next to a number of the formulas."""
        r, s = self.rnd('w', *key), self.rnd('s', *key)
        if self.lits and r < 0.35:
            x = float(self.lits[int(s * len(self.lits)) % len(self.lits)])
            return x * (0.5, 0.9, 1.1, 2.0, -1.1, 5.0)[int(self.rnd('x', *key) * 6)]
        if r < 0.7:
            return 0.2 + 1.6 * s
        return math.exp(-4 + 9 * s) * (1 if self.rnd('x', *key) < 0.6 else -1)

    def integer(self, *key):
        r, s = self.rnd('w', *key), self.rnd('s', *key)
        ls = [x for x in self.lits if 3 <= abs(x) <= 1e6 and x == int(x)]
        if ls and r < 0.35:
            return int(ls[int(s * len(ls)) % len(ls)]) + int(self.rnd('x', *key) * 5) - 1
        return int(math.exp(13 * s)) if r > 0.85 else int(s * 6)

    def rnd(self, *key):
        h = hashlib.sha1(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:7], 'big') / float(1 << 56)

    def var(self, name, sort):
        if name not in self.vars:
            if name == 'pi':
                return math.pi
            r = self.rnd('v', name)
            if sort == 'i':
                v = self.integer('v', name) if self.wide else int(r * 6)
            elif sort == 'c':
                v = complex(0.3 + r, self.rnd('vi', name) - 0.5)
            elif self.wide:
                v = self.number('v', name)
            else:
                v = 0.2 + 1.6 * r
            self.vars[name] = v
        return self.vars[name]

    def fn(self, name, args, sort):
        if name in self.funcs:
            return self.funcs[name](self, *args)
        key = (name, tuple(round(a, 9) if not isinstance(a, complex) else (round(a.real, 9), round(a.imag, 9))
                           for a in args))
        if sort == 'c' and name in T.HERM:
            i, j = args[-2], args[-1]
            if i == j:
                return complex(0.5 + self.rnd('f', key), 0)
            if i > j:
                return complex(self.fn(name, tuple(args[:-2]) + (j, i), sort)).conjugate()
        r = self.rnd('f', key)
        if sort == 'i':
            return int(r * 6)
        if sort == 'c':
            return complex(r - 0.5, self.rnd('g', key) - 0.5)
        if self.wide:
            return self.number('f', key)
        return 0.2 + 1.6 * r

    def pred(self, name, args):
        if ('pred', name) in self.funcs:
            return self.funcs[('pred', name)](self, *args)
        if name == 'Fin' and self.wide:
            return True
        return self.rnd('p', name, tuple(args)) < 0.5

    # evaluation
    def ev(self, x, env=None):
        env = env or {}
        if isinstance(x, P):
            s = 0
            for m, c in x.t.items():
                v = c
                for a, e in m:
                    av = self.at(a, env)
                    if e < 0 and av == 0:
                        raise Undefined('division by zero')
                    if e == 1:
                        v = v * av if isinstance(av, (int, Fraction)) else (float(v) if isinstance(v, (Fraction, int)) else v) * av
                    else:
                        if isinstance(av, int) and e < 0:
                            av = float(av)
                        av = av ** e
                        v = v * av if isinstance(av, (int, Fraction)) else (float(v) if isinstance(v, (Fraction, int)) else v) * av
                s = s + v if isinstance(v, (int, Fraction)) and isinstance(s, (int, Fraction)) else \
                    (float(s) if isinstance(s, Fraction) else s) + (float(v) if isinstance(v, Fraction) else v)
            if isinstance(s, Fraction):
                s = int(s) if s.denominator == 1 else float(s)
            return s
        if isinstance(x, F):
            return self.evf(x, env)
        raise Unsupported('eval %r' % (x,))

    def at(self, a, env):
        if not env:
            r = self.memo.get(a.key)
            if r is not None:
                return r
        r = self._at(a, env)
        if not env:
            self.memo[a.key] = r
        return r

    def _range(self, h, env):
        n = self.ev(h, env)
        if isinstance(n, complex) or abs(n - round(n)) > 1e-9:
            raise Undefined('range')
        n = int(round(n))
        if n > 400:
            raise Undefined('range too large')
        return max(n, 0)

    def _at(self, a, env):
        k = a.kind
        if k == 'var':
            n = a.args[0]
            if n in env:
                return env[n]
            return self.var(n, a.sort)
        if k == 'I':
            return 1j
        if k == 'poly':
            return self.ev(a.args[0], env)
        if k == 'ite':
            return self.ev(a.args[1] if self.evf(a.args[0], env) else a.args[2], env)
        if k in ('sum', 'prod', 'count', 'minover', 'maxover'):
            hs, b = a.args
            names = [T._bname(a.lvl, i) for i in range(len(hs))]
            rng = [self._range(h, env) for h in hs]
            acc = []
            import itertools
            for ix in itertools.product(*[range(r) for r in rng]):
                e2 = dict(env)
                e2.update(zip(names, ix))
                acc.append(self.ev(b, e2))
            if k == 'sum':
                s = 0
                for v in acc:
                    s = s + v
                return s
            if k == 'prod':
                s = 1
                for v in acc:
                    s = s * v
                return s
            if k == 'count':
                return sum(1 for v in acc if v)
            if not acc:
                return math.inf if k == 'minover' else -math.inf
            return min(acc) if k == 'minover' else max(acc)
        if k == 'el':
            return self.fn(a.args[0], tuple(self.ev(x, env) for x in a.args[1]), a.sort)
        if k == 'app':
            f = a.args[0]
            if f in T.GHOST and f not in self.funcs:
                vals = [self.ev(x, env) for x in a.args[1]]
                if all(isinstance(v, (int, float)) and abs(v - round(v)) < 1e-9 for v in vals):
                    ck = ('ghost', f, tuple(int(round(v)) for v in vals))
                    if ck in self.memo:
                        return self.memo[ck]
                    if f in T.GHOST_STEP and ck[2][0] > 25:
                        for j in range(ck[2][0] % 20, ck[2][0], 20):    # keeps the recursion shallow
                            try:
                                self.ev(T.App(f, j, *ck[2][1:], sort=a.sort), {})
                            except Undefined:
                                pass
                    d = T.GHOST[f](tuple(topoly(int(round(v))) for v in vals), self)
                    if d is not None:
                        r = self.ev(d)
                        self.memo[ck] = r
                        return r
                return self.fn(f, tuple(vals), a.sort)
            args = [self.ev(x, env) if isinstance(x, P) else x for x in a.args[1]]
            try:
                if f == 'exp':
                    return cmath.exp(args[0]) if isinstance(args[0], complex) else math.exp(args[0])
                if f == 'log':
                    return cmath.log(args[0]) if isinstance(args[0], complex) or args[0] < 0 else math.log(args[0])
                if f == 'sqrt':
                    return cmath.sqrt(args[0]) if isinstance(args[0], complex) or args[0] < 0 else math.sqrt(args[0])
                if f == 'abs':
                    return abs(args[0])
                if f == 'min2':
                    return min(args)
                if f == 'max2':
                    return max(args)
                if f == 'pow':
                    b, n = args
                    if isinstance(n, float) and abs(n - round(n)) < 1e-12:
                        n = int(round(n))
                    if b == 0 and not isinstance(n, complex) and n < 0:
                        raise Undefined('0^-n')
                    return b ** n
                if f == 'idiv':
                    if args[1] == 0:
                        raise Undefined('idiv')
                    q = abs(args[0]) // abs(args[1])
                    return int(q if (args[0] >= 0) == (args[1] > 0) else -q)
                if f == 'mod':
                    if args[1] == 0:
                        raise Undefined('mod')
                    return int(math.fmod(args[0], args[1]))
                if f == 'conj':
                    return complex(args[0]).conjugate()
                if f == 'floor':
                    return math.floor(args[0])
            except (OverflowError, ValueError, ZeroDivisionError) as e:
                raise Undefined(str(e))
            if f == 'trunc':
                return int(args[0].real)
            if f in LIBRARY and f not in self.funcs:
                raise Undefined('value of a library function')
            if any(not isinstance(x, (int, float, complex)) for x in args):
                args = [x if isinstance(x, (int, float, complex)) else hash(str(x)) % 1000003 for x in args]
            return self.fn(f, tuple(args), a.sort)
        raise Unsupported('eval atom ' + k)

    def evf(self, f, env):
        k = f.kind
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k in ('lt', 'le', 'eq'):
            v = self.ev(f.args[0], env)
            if k == 'eq':
                sc = self.scale(f.args[0], env)
                return abs(v) <= 1e-7 * sc
            if isinstance(v, complex):
                if abs(v.imag) > 1e-7 * (1 + abs(v.real)):
                    raise Undefined('complex comparison')
                v = v.real
            if isinstance(v, float) and v and abs(v) <= 1e-9 * self.scale(f.args[0], env):
                raise Undefined('comparison of equal numbers')
            return v < 0 if k == 'lt' else v <= 0
        if k == 'not':
            return not self.evf(f.args[0], env)
        if k == 'and':
            return all(self.evf(x, env) for x in f.args)
        if k == 'or':
            return any(self.evf(x, env) for x in f.args)
        if k in ('all', 'ex'):
            n = self._range(f.args[0][0], env)
            nm = T._bname(f.lvl, 0)
            g = (self.evf(f.args[1], dict(env, **{nm: i})) for i in range(n))
            return all(g) if k == 'all' else any(g)
        if k == 'pred':
            return self.pred(f.args[0], [self.ev(x, env) if isinstance(x, P) else x for x in f.args[1]])
        raise Unsupported(k)

    def scale(self, p, env):
        s = 1e-12
        for m, c in p.t.items():
            v = abs(float(c))
            for a, e in m:
                av = abs(self.at(a, env))
                if av == 0 and e < 0:
                    raise Undefined('div')
                v *= av ** e
            s = max(s, v)
        return max(s, 1e-9)


def numbers(fs):
    """The numbers that occur in the formulas."""
    out, seen = set(), set()
    def poly(x):
        if isinstance(x, P):
            for m, c in x.t.items():
                if not isinstance(c, complex) and 1e-13 <= abs(c) <= 1e13 and abs(c) != 1:
                    out.add(float(c))
                for a, e in m:
                    atom(a)
        elif isinstance(x, F):
            form(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                poly(y)
    def atom(a):
        if a.key not in seen:
            seen.add(a.key)
            poly(a.args)
    def form(f):
        if id(f) not in seen:
            seen.add(id(f))
            poly(f.args)
    for f in fs:
        form(f)
    return sorted(out)


def free_vars(x, out):
    """Variables of a formula outside bound names, with their sorts."""
    if isinstance(x, P):
        for m, c in x.t.items():
            for a, e in m:
                if a.kind == 'var':
                    out[a.args[0]] = a.sort
                else:
                    free_vars(a.args, out)
    elif isinstance(x, F):
        free_vars(x.args, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            free_vars(y, out)
    return out


def repair(val, h, rng):
    """Changes one variable of a false hypothesis; True when something was changed."""
    if h.kind == 'or':
        h = rng.choice(h.args)
    if h.kind == 'and':
        h = next((x for x in h.args if not val.evf(x, {})), h)
    vs = {n: s for n, s in free_vars(h, {}).items() if s in ('i', 'r') and not n.startswith(('\u03b2', '\u03b9')) and n != 'pi'}
    if not vs:
        return False
    n = rng.choice(sorted(vs))
    if h.kind in ('lt', 'le', 'eq'):
        # linear in the variable: the value that makes it true
        p, c = h.args[0], None
        for m, k in p.t.items():
            if len(m) == 1 and m[0][0].kind == 'var' and m[0][0].args[0] == n and m[0][1] == 1:
                c = k
        if c is not None and not isinstance(c, complex):
            v = val.ev(p)
            if not isinstance(v, complex):
                new = val.var(n, vs[n]) - v / float(c)
                step = 0 if h.kind == 'eq' else rng.choice((0, 1, 1, 2, 3)) if vs[n] == 'i' else rng.choice((0.01, 0.3, 1.0, 2.0))
                if h.kind == 'lt' and not step:
                    step = 1
                new += -step if c > 0 else step
                if vs[n] == 'i':
                    if abs(new - round(new)) > 1e-6 and h.kind == 'eq':
                        return False
                    new = int(round(new))
                val.vars[n] = new
                val.memo = {}
                return True
    old = val.seed
    val.seed = (old, rng.random())
    val.vars.pop(n, None)
    val.memo = {}
    val.var(n, vs[n])
    val.seed = old
    return True


def refute(goal, hyps, rng_seed, tries=200, setup=None, wide=True):
    """Look for a valuation satisfying the hypotheses and falsifying the goal.
    Returns (valuation, n_tested)."""
    tested = 0
    wide = wide and not setup
    lits = numbers(list(hyps) + [goal]) if wide else None
    for t in range(tries):
        val = Valuation((rng_seed, t))
        rng = random.Random('%s/%d' % (rng_seed, t))
        fix = 0
        if setup:
            setup(val, rng)
        elif wide and t % 2:
            val.wide, val.lits, fix = True, lits, 25
        try:
            ok = True
            for h in hyps:
                if not val.evf(h, {}):
                    ok = False
                    break
            while not ok and fix and repair(val, h, rng):
                fix -= 1
                h = next((h for h in hyps if not val.evf(h, {})), None)
                ok = h is None
            if not ok:
                continue
            tested += 1
            if not val.evf(goal, {}):
                return val, tested
        except Undefined:
            continue
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if tested > (60 if wide else 40):
            break
    return None, tested
