"""Lean check of the lemmas behind the contracts.

The theory files (lean/*.lean) are compiled once per content. The link file of a property, whose equations are printed by
the contracts' own definitions (vp/leanlink.py), is generated and compiled on every run together with the statements of the
main theorems and the axioms they rest on. A missing Lean or a failure leaves the lemma listed as an assumption; it never
decides the property."""
import glob, hashlib, os, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = {'Cond': [], 'Ins': [], 'Poly': [], 'Car1': ['Cond'], 'Carp': ['Cond'], 'Acov': ['Cond', 'Carp'],
        'Pred1': ['Cond', 'Car1', 'Ins'], 'Predp': ['Cond', 'Carp', 'Ins'],
        'Pos1': ['Cond', 'Car1'], 'Posp': ['Cond', 'Carp', 'Acov'],
        'PosPred': ['Pos1', 'Posp', 'Pred1', 'Predp'], 'Draw': ['Pos1', 'Posp']}
# property: theory files, main theorems
MAIN = {
    'F01': (['Car1', 'Pos1'], ['Car1.kalman_is_conditioning', 'Car1.pos']),
    'F02': (['Carp', 'Acov', 'Posp'], ['Acov.filter', 'Carp.pos', 'Acov.stationary_psd', 'Carp.kalman_is_conditioning', 'Acov.pairs', 'Acov.loads_exists', 'Acov.loads_unique', 'Acov.autocovariance']),
    'F03': (['Pred1', 'PosPred'], ['Car1.predict', 'Car1.pos', 'Car1.forward_is_conditioning']),
    'F04': (['Predp', 'Acov', 'PosPred'], ['Acov.predict', 'Carp.pos', 'Acov.stationary_psd', 'Carp.forward_is_conditioning', 'Acov.pairs', 'Acov.loads_exists', 'Acov.loads_unique', 'Acov.autocovariance']),
    'M01': (['Car1', 'Carp', 'Acov', 'Pos1', 'Posp'], ['Car1.kalman_density', 'Car1.pos', 'Carp.kalman_density', 'Acov.density', 'Acov.pairs']),
    'M04': (['Poly'], ['Poly.linear_factors', 'Poly.quadratic_factors']),
    'Y05': (['Acov'], ['Acov.autocovariance', 'Acov.loads_exists']),
    'Y06': (['Draw'], ['Acov.draw', 'Car1.draw', 'Acov.loads_exists', 'Acov.loads_unique']),
    'M05': (['Acov'], ['Acov.autocovariance', 'Acov.loads_exists']),
}
RUNNING = []
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}


def find():
    """The Lean binary and its environment, or None."""
    b = shutil.which('lean') or next(iter(sorted(glob.glob('/app/lean4-*/build/release/stage1/bin/lean'), reverse=True)), None)
    if not b:
        return None
    env = dict(os.environ)
    if not env.get('LEAN_PATH'):
        ps = []
        for m in sorted(glob.glob('/app/mathlib4-*'), reverse=True)[:1]:
            for d in [m] + sorted(glob.glob(m + '/.lake/packages/*')):
                ps += [d + '/.lake/build/lib', d + '/.lake/build/lib/lean']
        ps.append(os.path.dirname(os.path.dirname(b)) + '/lib/lean')
        env['LEAN_PATH'] = ':'.join(p for p in ps if os.path.isdir(p))
    lib = os.path.dirname(os.path.dirname(os.path.realpath(b))) + '/lib/lean'
    if lib not in env.get('LD_LIBRARY_PATH', ''):
        env['LD_LIBRARY_PATH'] = ':'.join(x for x in (lib, env.get('LD_LIBRARY_PATH')) if x)
    return b, env


def run(tool, args, cwd, path, timeout):
    b, env = tool
    env = dict(env, LEAN_PATH=path + ':' + env['LEAN_PATH'])
    p = subprocess.Popen([b] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    RUNNING.append(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    finally:
        p.kill()
        RUNNING.remove(p)
    return p.returncode, out


def theory(tool, names, timeout):
    """Compiles the theory files needed; returns the directory of the compiled files."""
    todo = []
    def add(n):
        if n not in todo:
            for d in DEPS[n]:
                add(d)
            todo.append(n)
    for n in ['Ins'] + names:
        add(n)
    h = hashlib.sha256()
    for n in sorted(DEPS):
        h.update(open(os.path.join(HERE, 'lean', n + '.lean'), 'rb').read())
    h.update(tool[0].encode())
    out = os.path.join(HERE, 'build', 'lean', h.hexdigest()[:16])
    os.makedirs(out, exist_ok=True)
    for n in todo:
        o = os.path.join(out, n + '.olean')
        if os.path.exists(o):
            continue
        tmp = '%s.%d' % (o, os.getpid())
        rc, msg = run(tool, ['-o', tmp, n + '.lean'], os.path.join(HERE, 'lean'), out, timeout)
        if rc or 'error' in msg or 'sorry' in msg:
            raise RuntimeError('%s.lean: %s' % (n, msg[-600:]))
        os.rename(tmp, o)
    return out


def check(pid, timeout=300):
    """Returns a record for the evidence; status 'checked' when the lemmas and the link hold."""
    t0 = time.time()
    rec = {'status': 'not available', 'theory': [], 'theorems': [], 'link': []}
    try:
        files, main = MAIN[pid]
        tool = find()
        if not tool:
            return rec
        rec['lean'] = tool[0]
        out = theory(tool, files, timeout)
        p = subprocess.run([sys.executable, os.path.join(HERE, 'vp', 'leanlink.py'), pid], capture_output=True, text=True, timeout=60, cwd=HERE)
        if p.returncode:
            raise RuntimeError('link: ' + p.stderr[-600:])
        link = re.findall(r'^theorem (\w+)', p.stdout, re.M)
        text = ''.join('import %s\n' % x for x in files) + p.stdout + ''.join('#print axioms %s\n' % x for x in main + ['Link.' + x for x in link])
        f = os.path.join(out, 'Link_%s_%d.lean' % (pid, os.getpid()))
        open(f, 'w').write(text)
        try:
            rc, msg = run(tool, [f], out, out, timeout)
        finally:
            os.remove(f)
        if rc or re.search(r'\berror\b|sorry', msg):
            raise RuntimeError('link: ' + msg[-600:])
        msg = re.sub(r'\s+', ' ', msg)
        said = {m.group(1): m.group(2) for m in re.finditer(r"'([\w.]+)' (does not depend on any axioms|depends on axioms: \[[^\]]*\])", msg)}
        for x in main + ['Link.' + x for x in link]:
            if x not in said:
                raise RuntimeError('no axioms reported for ' + x)
            m = re.search(r'\[(.*)\]', said[x])
            if m and set(re.split(r',\s*', m.group(1))) - AXIOMS:
                raise RuntimeError('%s %s' % (x, said[x]))
        rec.update(status='checked', theory=files, theorems=main, link=link)
    except (OSError, RuntimeError, KeyError, subprocess.TimeoutExpired) as e:
        rec.update(status='failed', reason=str(e)[:800])
    finally:
        rec['seconds'] = round(time.time() - t0, 2)
    return rec


class Background(object):
    """The check in a thread next to the proof."""
    def __init__(self, pid):
        self.rec = None
        self.t = threading.Thread(target=self.go, args=(pid,), daemon=True)
        self.t.start()

    def go(self, pid):
        self.rec = check(pid)

    def result(self, wait=240):
        self.t.join(wait)
        for p in list(RUNNING):
            p.kill()
        return self.rec or {'status': 'timeout', 'theory': [], 'theorems': [], 'link': []}


if __name__ == '__main__':
    import json
    for x in sys.argv[1:] or sorted(MAIN):
        print(x, json.dumps(check(x)))
