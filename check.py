"""check.py <property id>: decides one property on the current tree of /repo.

1. The functions of the property are extracted from the clang AST of the current source (or the Python
   AST for the Python layer), executed symbolically against their contracts, and every obligation is
   discharged.
2. Where a contract of a callee is not proved, the property's own functions are verified once more with
   that callee's body in place of its contract.
3. Failed obligations are replayed on the compiled code: first the verifier's counterexample, then a search.
   The same execution runs (bounded) when everything is proved, to test the assumptions of the proof.
Exit 0: held. Exit 1 and a VIOLATION line: violated. Other: the check itself failed."""
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
import importlib, json, os, random, re, sys, time, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')

from vp import native, conc, lean
from specs.table import PROPS, ASSUME, TRUST

def literals(files):
    out = set()
    for f in files:
        try:
            s = open(os.path.join(REPO, f)).read()
        except OSError:
            continue
        s = re.sub(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"', ' ', s, flags=re.S) if not f.endswith('.py') else re.sub(r'#[^\n]*', ' ', s)
        for m in re.finditer(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)', s):
            out.add(float(m.group(1)))
    return sorted(out - {0.0, 1.0, 2.0, 0.5})

def units_of(names):
    us = []
    for x in names:
        mod, fn = x.split('.')
        m = importlib.import_module('specs.' + mod)
        us.append((x, getattr(m, fn)()))
    return us

def set_literals(lits):
    m = importlib.import_module('specs.kf')
    m.LITS[:] = [x for x in lits if 1e-6 <= x <= 1e6]

def prove_all(pid, spec, seed, log):
    """Run the proof. Returns (results by unit, tops ok, retry results)."""
    from vp import verify
    names = list(spec['units'])
    us = units_of(names)
    prog = None
    if any(not u.python for _, u in us):
        from vp.cxx import load_ast, Prog
        ast, key = load_ast(os.path.join(HERE, 'build'))
        prog = Prog(ast)
    if any(u.python for _, u in us):
        from vp.pyfe import PyProg
        prog = (prog, PyProg())
    rs = only(spec, verify.run_units(prog, [u for _, u in us], seed, budget=spec.get('budget', 240)))
    res = dict(zip(names, rs))
    bad = [x for x in names if not unit_ok(res[x])]
    retry = {}
    if bad and not all(x in spec['tops'] for x in bad):
        drop = set()
        for x in bad:
            if x not in spec['tops']:
                drop |= set(res[x]['functions'])
        tops = [(x, u) for x, u in units_of(spec['tops'])]
        for x, u in tops:
            for f in list(u.contracts):
                if f in drop:
                    del u.contracts[f]
        rr = only(spec, verify.run_units(prog, [u for _, u in tops], seed, budget=spec.get('budget', 240)))
        retry = dict(zip([x for x, _ in tops], rr))
    return res, retry

def only(spec, rs):
    """Leave out the obligations of a shared unit that belong to another property."""
    if 'skip' in spec:
        for r in rs:
            r['obls'] = [o for o in r['obls'] if not re.search(spec['skip'], o['name'])]
    return rs

def unit_ok(r):
    return r['status'] == 'executed' and r['obls'] and all(o['status'] == 'proved' for o in r['obls']) \
        and not all(o['vacuous'] for o in r['obls'])

def replay_path(pid):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, 'replay_%s.json' % pid)

def known(pid):
    """Open known findings: lines 'open: property=<id> key=<key> <what>'."""
    out = {}
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            m = re.match(r'open: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    spec = PROPS[pid]
    log = []
    kf = known(pid)
    seen_known = []
    lem = lean.Background(pid) if 'lemma' in spec else None

    # ---- proof
    from vp.cxx import FrontEndError
    set_literals(literals(spec.get('files', ())))
    try:
        res, retry = prove_all(pid, spec, seed, log)
    except FrontEndError as e:
        res, retry = {}, {}
        log.append('extraction failed: %s' % e)
    proof_ok = bool(res) and all(unit_ok(r) for r in res.values())
    via_inline = False
    if res and not proof_ok and retry and all(unit_ok(r) for r in retry.values()):
        used = set(f for r in retry.values() for f in r['used_contracts'])
        others = [x for x in spec['units'] if x not in spec['tops'] and set(res[x]['functions']) & used]
        side = [x for x in spec['units'] if res[x]['lemma']]
        if all(unit_ok(res[x]) for x in others + side):
            proof_ok = via_inline = True
    guided, refuted, undecided = [], [], []
    for src in (res, retry):
        for x, r in src.items():
            if r['status'] != 'executed':
                undecided.append('%s: %s' % (x, r['reason']))
            for o in r['obls']:
                if o['status'] == 'refuted':
                    refuted.append((x, o))
                    if o['ce'] and o['ce'].get('api'):
                        guided.append(o['ce']['api'])
                elif o['status'] != 'proved':
                    undecided.append('%s: %s (%s)' % (x, o['name'], o['detail']))

    # ---- execution of the compiled code
    trials = spec.get('trials', 2400) if proof_ok else spec.get('search', 40000)
    if tier == 'thorough':
        trials *= 10
    budget = spec.get('conc_s', 25) if proof_ok else spec.get('search_s', 150)
    failure, ntr, distinct = None, 0, set()
    conc_error = None
    if spec.get('conc'):
        ck = conc.load(spec['conc'])(literals(spec.get('files', ())))
        try:
            ntr, distinct, failure = conc.campaign(ck, seed, trials, budget, guided, kf, seen_known)
        except native.BuildError as e:
            conc_error = 'the harness does not build: ' + str(e)[-1500:]
            log.append(conc_error)

    verdict = 0
    vio = []
    if failure:
        verdict = 1
        rp = replay_path(pid)
        json.dump({'property': pid, 'kind': 'execution', 'checker': spec['conc'], 'input': failure['input'],
                   'what': failure['what'], 'how': 'python3-vt replay.py %s' % rp,
                   'failed_obligations': [dict(function=x, obligation=o['name'], goal=o['goal']) for x, o in refuted]},
                  open(rp, 'w'), indent=1, default=str)
        vio.append('VIOLATION property=%s replay=%s' % (pid, rp))
        log.append(failure['what'])
    elif refuted and not proof_ok:
        verdict = 1
        rp = replay_path(pid)
        json.dump({'property': pid, 'kind': 'obligation',
                   'failed_obligations': [dict(function=x, obligation=o['name'], kind=o['kind'], goal=o['goal'], hypotheses=o['hyps'],
                                               counterexample=o['ce']) for x, o in refuted],
                   'undecided': undecided}, open(rp, 'w'), indent=1, default=str)
        vio.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    elif not proof_ok and conc_error:
        # neither the prover nor the execution gives an answer
        print(conc_error)
        lem = lem and lem.result(0)
        write_evidence(pid, spec, tier, seed, res, retry, proof_ok, via_inline, undecided, ntr, distinct, log, vio, t0, kf, lem)
        print('no answer for %s: %s' % (pid, '; '.join(undecided)[:800]))
        return 2
    lem = lem and lem.result(5 if verdict else 240)
    write_evidence(pid, spec, tier, seed, res, retry, proof_ok, via_inline, undecided, ntr, distinct, log, vio, t0, kf, lem)
    for k in sorted(set(seen_known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    for l in log:
        print(l)
    n = sum(len(r['obls']) for r in res.values())
    d = sum(o['status'] == 'proved' for r in res.values() for o in r['obls'])
    print('%s: %d of %d obligations discharged in %d units; %d executions; %.1f s%s' % (
        pid, d, n, len(res), ntr, time.time() - t0,
        '' if proof_ok else '; NOT PROVED, decided by bounded execution only' if not vio else ''))
    if lem:
        print('  lemmas behind the contract: %s in Lean%s' % (lem['status'], ', %d theorems, %d link equations' % (len(lem['theorems']), len(lem['link'])) if lem['status'] == 'checked' else ' (listed as assumption)'))
    for x, o in refuted[:5]:
        print('  failed obligation: %s: %s' % (x, o['name']))
    for l in undecided[:8]:
        print('  undecided: %s' % l[:300])
    for v in vio:
        print(v)
    return verdict

def write_evidence(pid, spec, tier, seed, res, retry, proof_ok, via_inline, undecided, ntr, distinct, log, vio, t0, kf, lem=None):
    obl = [o for r in res.values() for o in r['obls']]
    under = sorted(set(f for r in res.values() if not r['lemma'] for f in r['functions']))
    trusted = list(TRUST) + sorted(set(t for r in res.values() for t in r['trusted'])) + list(spec.get('trusted', ()))
    lib = sorted(set(l for r in res.values() for l in r['lib']))
    inl = sorted(set(l for r in res.values() for l in r['inlined']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof') if proof_ok else 'other',
          'wall_s': round(time.time() - t0, 2),
          'coverage': {
              'obligations': len(obl), 'discharged': sum(o['status'] == 'proved' for o in obl),
              'checker_cmd': 'python3-vt check.py %s' % pid,
              'trusted_base': trusted + ['library contract: ' + l for l in lib],
              'proved': proof_ok, 'proved_after_inlining_callees': via_inline,
              'functions_under_contract': under, 'functions_inlined': inl,
              'units': [{'unit': x, 'status': r['status'], 'reason': r['reason'], 'paths': r['paths'], 'obligations': len(r['obls']),
                         'discharged': sum(o['status'] == 'proved' for o in r['obls']),
                         'vacuous': sum(1 for o in r['obls'] if o['vacuous']), 'sanity': r.get('sanity'),
                         'callee_contracts': r['used_contracts'], 'solver_queries': r['stats'].get('z3', 0), 'seconds': round(r['time'], 2)}
                        for x, r in list(res.items()) + [('retry ' + x, r) for x, r in retry.items()]],
              'solver': 'term normaliser of vp/logic.py, z3 for linear arithmetic side conditions',
              'prover_seconds': round(sum(r['time'] for r in list(res.values()) + list(retry.values())), 2),
              'lemmas_lean': dict(lem, states=spec['lemma']) if lem else None,
              'undecided': undecided,
              'bounded_executions': ntr, 'bounded_executions_distinct_inputs': len(distinct),
              'bounded_note': 'executions of the compiled code on generated inputs; they test the assumptions and stand in for undecided obligations, and are not counted as proved'},
          'assumptions': list(ASSUME) + list(spec.get('assume', ())) + ([spec['lemma']] if 'lemma' in spec and not (lem and lem['status'] == 'checked') else []) + sorted(set(a for r in res.values() for a in r['assumed'])),
          'violations': len(vio), 'log': log}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.rename(tmp, os.path.join(d, pid + '.json'))

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
