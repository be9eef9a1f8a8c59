"""Verification units, discharge of their obligations, verdict material."""
import multiprocessing as mp
import os
import random
import signal
import time
import traceback

from .terms import *
from . import terms as T
from . import logic
from .logic import prove, entails, refute, z3_check
from .sym import *
from .cxx import Exec, Prog, FrontEndError, load_ast, source_files
from .pyfe import PyExec, PyProg


class Unit(object):
    """One function verified against its contract."""

    def __init__(self, name, body, contracts=None, hints=None, sampler=None, eqcands=(), trusted=(), lemma=False,
                 setup=None, functions=None, python=False):
        self.name = name            # name of the contract (function under contract)
        self.body = body            # body(ex): sets up the pre-state, runs the code; returns post(ex, outcome)
        self.contracts = contracts or {}
        self.hints = hints or {}
        self.sampler = sampler
        self.eqcands = eqcands
        self.trusted = list(trusted)
        self.lemma = lemma
        self.functions = functions or [name]
        self.python = python
        # results
        self.status = None
        self.reason = None
        self.obls = []
        self.paths = 0
        self.used_contracts = []
        self.inlined = []
        self.lib = []
        self.time = 0.0


def run_unit(prog, u):
    t0 = time.time()
    ex = PyExec(prog) if getattr(u, 'python', False) else Exec(prog)
    ex.contracts = dict(u.contracts)
    ex.hints = dict(u.hints)
    ex.objcls = {}
    posts = []

    def thunk():
        ex.store = {}
        ex.pc = []
        ex.lazy = {}
        ex.nfresh = itertools.count()
        ex.memo_solve = []
        ex.fn = u.name
        ex.frames = []
        ex.depth = 0
        ex.nobj = 0
        ex.nframe = 0
        ex.nloop = 0
        ex.loop_ord = {}
        post = u.body(ex)
        if post is not None:
            post(ex)
        return None
    try:
        outs = ex.explore(thunk)
        u.paths = len(outs)
        bad = [o for o in outs if o.kind != 'next']
        if bad:
            u.status, u.reason = 'unsupported', 'unexpected exit %s' % bad[0].kind
        elif not outs:
            u.status, u.reason = 'vacuous', 'no feasible path'
        else:
            u.status = 'executed'
    except Unsupported as e:
        u.status, u.reason = 'unsupported', str(e)[:400]
    except FrontEndError as e:
        u.status, u.reason = 'unsupported', 'front end: ' + str(e)[:400]
    except RecursionError:
        u.status, u.reason = 'unsupported', 'recursion limit'
    except Exception as e:
        u.status, u.reason = 'unsupported', 'engine: ' + traceback.format_exc()[-int(os.environ.get("TB","700")):]
    u.obls = merge_obls(ex.obls)
    for o in u.obls:
        o.fn = u.name
    u.used_contracts = sorted(ex.used_contracts)
    u.inlined = sorted(ex.inlined)
    u.lib = sorted(ex.used_lib)
    u.assumed = sorted(set(ex.assumed))
    u.time = time.time() - t0
    return u


def merge_obls(obls):
    seen = set()
    out = []
    for o in obls:
        if o.goal.kind == 'T' and o.kind == 'bounds':
            continue
        k = (o.name, o.goal.key, tuple(h.key for h in o.hyps))
        if k in seen:
            continue
        seen.add(k)
        out.append(o)
    return out


def add_eqs(o, cands):
    """Link positions found by search loops (fresh K) with the ghost positions of the contract."""
    hy = list(o.hyps)
    if not cands:
        return hy
    ks = {}
    for x in [o.goal] + hy:
        for a in all_atoms(x).values():
            if a.kind in ('var', 'el') and str(a.args[0]).startswith('K!') and not any(n.startswith('β') for n in a.fv):
                ks[a.key] = T.topoly(a)
    for kname in sorted(ks):
        for c in cands:
            e = eq(ks[kname], Var(c, 'i') if isinstance(c, str) else c(o))
            if e not in hy and entails(hy, e, 4000):
                hy.append(e)
                break
    return hy


class Deadline(BaseException):
    pass


def _alarm(*a):
    raise Deadline()


def discharge_one(u, o, seed, limit=60):
    """Discharge one obligation within a time limit."""
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    try:
        return discharge_(u, o, seed, t0)
    except Deadline:
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            o.status, o.detail = 'unproved', 'time limit'
            return try_refute(u, o, seed, t0)
        except Deadline:
            return 'unproved', 'time limit', time.time() - t0, None, None, dict(logic.STATS)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def discharge_(u, o, seed, t0):
    try:
        hy = add_eqs(o, u.eqcands)
        if prove(o.goal, hy):
            o.status = 'proved'
        else:
            o.status = 'unproved'
    except Unsupported as e:
        o.status, o.detail = 'unproved', 'prover: ' + str(e)
    except RecursionError:
        o.status, o.detail = 'unproved', 'recursion'
    except Exception as e:
        o.status, o.detail = 'unproved', 'prover error: ' + traceback.format_exc()[-300:]
    vac = None
    if o.status == 'proved' and o.kind == 'post':
        if z3_check(list(o.hyps)) == 'unsat':
            vac = True
    if o.status == 'unproved':
        return try_refute(u, o, seed, t0)
    return o.status, o.detail, time.time() - t0, None, vac, dict(logic.STATS)


def try_refute(u, o, seed, t0):
    ce = vac = None
    if o.status == 'unproved' and o.kind not in ('bounds', 'inv'):
        try:
            val, tested = refute(o.goal, o.hyps, (seed, o.name), 300, u.sampler, wide=not o.name.startswith('loop '))
            if val is not None:
                ce = {'vars': {k: repr(v) for k, v in sorted(val.vars.items())},
                      'api': getattr(val, 'api', None)}
                o.status = 'refuted'
            else:
                o.detail = (o.detail or '') + ' no counterexample in %d valuations' % tested
        except Exception as e:
            o.detail = (o.detail or '') + ' refuter: %s' % str(e)[:200]
    return o.status, o.detail, time.time() - t0, ce, vac, dict(logic.STATS)


_WORK = None


def _job(i):
    u, o, seed = _WORK[i]
    s0 = dict(logic.STATS)
    r = discharge_one(u, o, seed)
    s1 = r[5]
    return (i,) + r[:5] + ({k: s1[k] - s0[k] for k in s1},)


def _unit_job(i):
    """Run a unit and discharge its obligations in this process."""
    prog, u, seed, budget = _UW[0], _UW[1][i], _UW[2], _UW[3]
    if u.python:
        prog = prog[1] if isinstance(prog, tuple) else prog
    elif isinstance(prog, tuple):
        prog = prog[0]
    t0 = time.time()
    s0 = dict(logic.STATS)
    run_unit(prog, u)
    res = []
    for o in u.obls:
        if time.time() - t0 > budget:
            st, det, tm, ce, vac = 'unproved', 'time budget of the unit exhausted', 0.0, None, None
        else:
            st, det, tm, ce, vac, _ = discharge_one(u, o, seed)
        res.append({'name': o.name, 'kind': o.kind, 'status': st, 'detail': det, 'time': tm, 'ce': ce, 'vacuous': vac,
                    'goal': show_f(o.goal)[:600] if st != 'proved' else None,
                    'hyps': [show_f(h)[:200] for h in o.hyps] if st != 'proved' else None})
    if any(r['kind'] == 'inv' and r['status'] != 'proved' for r in res):
        # an invariant given for another form of a loop: what follows from it refutes nothing
        for r in res:
            if r['status'] == 'refuted':
                r['status'], r['detail'] = 'unproved', 'after an invariant that is not established'
    sane = sanity(u, res)
    s1 = logic.STATS
    return {'name': u.name, 'sanity': sane, 'status': u.status, 'reason': u.reason, 'paths': u.paths, 'obls': res,
            'used_contracts': u.used_contracts, 'inlined': u.inlined, 'lib': u.lib, 'assumed': getattr(u, 'assumed', []),
            'trusted': u.trusted, 'lemma': u.lemma, 'functions': u.functions,
            'time': time.time() - t0, 'stats': {k: s1[k] - s0[k] for k in s1}}


def wrong(g):
    return eq(g.args[0] + 1, 0)


def sanity(u, res, limit=8):
    """Vacuity guard: a goal that is wrong by one must not be provable from the same hypotheses."""
    n = bad = 0
    for o, r in zip(u.obls, res):
        if r['status'] != 'proved' or o.kind != 'post' or o.goal.kind != 'eq' or n >= 2:
            continue
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            w = wrong(o.goal)
            if w is None:
                continue
            n += 1
            if prove(w, add_eqs(o, u.eqcands)):
                bad += 1
                r['vacuous'] = True
        except (Deadline, Unsupported, RecursionError):
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return {'perturbed_goals': n, 'perturbed_goals_proved': bad}


_UW = None


def run_units(prog, units, seed, budget=300, procs=8):
    """Run and discharge all units in parallel (one process per unit)."""
    global _UW
    _UW = (prog, units, seed, budget)
    if procs == 1 or len(units) == 1:
        return [_unit_job(i) for i in range(len(units))]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(units)), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(_unit_job, (i,)) for i in range(len(units))]
        out, end = [], time.time() + budget + 60
        for i, r in enumerate(rs):
            try:
                out.append(r.get(timeout=max(1, end - time.time())))
            except mp.TimeoutError:
                u = units[i]
                out.append({'name': u.name, 'status': 'unsupported', 'reason': 'verifier timeout', 'paths': 0, 'obls': [],
                            'used_contracts': [], 'inlined': [], 'lib': [], 'assumed': [], 'trusted': u.trusted,
                            'lemma': u.lemma, 'functions': u.functions, 'time': budget, 'stats': {}})
        pool.terminate()
    return out
