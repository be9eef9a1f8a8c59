"""Compiled code of /repo for replays: builds one shared library per harness file from the
current working tree, and drives it in a child process so that a crash is an observation."""
import ctypes, hashlib, json, os, select, subprocess, sys, struct, glob, fcntl

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
SRC = REPO + '/src'
CPPS = ['random', 'steps', 'samplers', 'proposals', 'kfilter', 'carpack', 'carmcmc']
FLAGS = ['-std=gnu++17', '-O1', '-w', '-fPIC', '-fpermissive', '-I' + SRC + '/include', '-I' + SRC]
LIBS = ['-lboost_filesystem', '-lboost_system', '-lboost_timer', '-larmadillo']

class BuildError(Exception):
    pass

class Crash(Exception):
    pass

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def sources():
    return sorted(glob.glob(SRC + '/*.cpp') + glob.glob(SRC + '/include/*.hpp'))

def _run(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            for _, q in ps:
                if q.poll() is None:
                    q.kill()
            raise BuildError(' '.join(c) + '\n' + out.decode(errors='replace')[-3000:])

def build(name):
    """Path of the shared library for harness/<name>.cpp, rebuilt when any source differs."""
    os.makedirs(BUILD, exist_ok=True)
    hs = [HERE + '/harness/h.hpp', HERE + '/harness/%s.cpp' % name]
    srcs = [p for p in sources() if not p.endswith('boost_python_wrapper.cpp')]
    key = _hash(srcs, ' '.join(FLAGS))
    hkey = _hash(hs, key)
    so = '%s/h_%s_%s.so' % (BUILD, name, hkey)
    if os.path.exists(so):
        return so
    cpps = [c for c in (os.path.basename(p)[:-4] for p in glob.glob(SRC + '/*.cpp')) if c != 'boost_python_wrapper']
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        cmds, objs, tmp = [], [], '.%d' % os.getpid()
        for c in cpps:
            o = '%s/o_%s_%s.o' % (BUILD, c, key)
            objs.append(o)
            if not os.path.exists(o):
                cmds.append((['g++', *FLAGS, '-c', '%s/%s.cpp' % (SRC, c), '-o', o + tmp], o))
        ho = '%s/h_%s_%s.o' % (BUILD, name, hkey)
        cmds.append((['g++', *FLAGS, '-I' + HERE + '/harness', '-c', HERE + '/harness/%s.cpp' % name, '-o', ho + tmp], ho))
        _run([c for c, _ in cmds])
        for _, o in cmds:
            os.rename(o + tmp, o)
        _run([['g++', '-shared', '-o', so + tmp, ho, *objs, *LIBS]])
        os.rename(so + tmp, so)
        _prune()
    return so

PY = '/opt/vp/venv/bin/python'

def build_ext():
    """The Python extension of /repo, built from the current tree into build/."""
    os.makedirs(BUILD, exist_ok=True)
    key = _hash([p for p in sources() if not p.endswith('boost_python_wrapper.cpp')], ' '.join(FLAGS))
    w = SRC + '/boost_python_wrapper.cpp'
    ekey = _hash([w], key)
    so = '%s/x_ext_%s.so' % (BUILD, ekey)
    if os.path.exists(so):
        return so
    inc = subprocess.run([PY, '-c', "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include()); "
                          "import sys; print('%d%d' % sys.version_info[:2])"], stdout=subprocess.PIPE).stdout.decode().split('\n')
    cpps = [c for c in (os.path.basename(p)[:-4] for p in glob.glob(SRC + '/*.cpp')) if c != 'boost_python_wrapper']
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        cmds, objs, tmp = [], [], '.%d' % os.getpid()
        for c in cpps:
            o = '%s/o_%s_%s.o' % (BUILD, c, key)
            objs.append(o)
            if not os.path.exists(o):
                cmds.append((['g++', *FLAGS, '-c', '%s/%s.cpp' % (SRC, c), '-o', o + tmp], o))
        wo = '%s/x_wrap_%s.o' % (BUILD, ekey)
        cmds.append((['g++', *[f for f in FLAGS if not f.startswith('-O')], '-O0', '-I' + inc[0], '-I' + inc[1], '-c', w, '-o', wo + tmp], wo))
        _run([c for c, _ in cmds])
        for _, o in cmds:
            os.rename(o + tmp, o)
        _run([['g++', '-shared', '-o', so + tmp, wo, *objs, '-lboost_python' + inc[2], *LIBS]])
        os.rename(so + tmp, so)
        _prune()
    return so

class PyNat:
    """The Python layer of /repo, run in a child process."""
    patience = 60

    def __init__(self, real=False):
        self.ext = build_ext() if real else '-'
        self.p, self.history = None, []

    def start(self):
        env = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR=BUILD + '/mpl', PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None); env.pop('PYTHONHOME', None)
        self.p = subprocess.Popen([PY, '-W', 'ignore', HERE + '/harness/pyworker.py', REPO, HERE, self.ext], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''

    def call(self, op, **a):
        if self.p is None:
            self.start()
        a['op'] = op
        try:
            self.p.stdin.write(json.dumps(a).encode() + b'\n')
            self.p.stdin.flush()
            while b'\n' not in self.buf:
                r, _, _ = select.select([self.p.stdout], [], [], self.patience)
                if not r:
                    raise Crash('no answer in %d s' % self.patience)
                c = os.read(self.p.stdout.fileno(), 1 << 16)
                if not c:
                    raise Crash('process died')
                self.buf += c
        except (BrokenPipeError, Crash) as e:
            self.close()
            raise Crash('%s in %s' % (e, op))
        l, self.buf = self.buf.split(b'\n', 1)
        r = json.loads(l)
        if 'err' in r:
            if r['err'].split(':')[0] in ('ImportError', 'ModuleNotFoundError', 'SyntaxError'):
                raise BuildError(r['err'] + r['tb'])
            raise Raised(r['err'] + ' | ' + r['tb'].replace('\n', ' ')[-300:])
        return r['ok']

    def close(self):
        if self.p:
            try:
                self.p.kill(); self.p.wait()
            except OSError:
                pass
        self.p = None

def _prune(keep=120):
    fs = sorted(glob.glob(BUILD + '/*_*.*o'), key=os.path.getmtime, reverse=True)
    for f in fs[keep:]:
        try:
            os.unlink(f)
        except OSError:
            pass

def _worker(so):
    lib = ctypes.CDLL(so)
    lib.vp_call.restype = ctypes.c_long
    lib.vp_call.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_long]
    lib.vp_get.restype = ctypes.POINTER(ctypes.c_double)
    lib.vp_msg.restype = ctypes.c_char_p
    rd, wr = sys.stdin.buffer, os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    while True:
        h = rd.read(16)
        if len(h) < 16:
            return
        lo, n = struct.unpack('<qq', h)
        op = rd.read(lo); buf = rd.read(8 * n)
        arr = (ctypes.c_double * max(1, n)).from_buffer_copy(buf or b'\0' * 8)
        rc = lib.vp_call(op, arr, n)
        if rc < 0:
            m = lib.vp_msg()
            wr.write(struct.pack('<qq', -1, len(m)) + m)
        else:
            wr.write(struct.pack('<qq', 0, rc) + (ctypes.string_at(lib.vp_get(), 8 * rc) if rc else b''))
        wr.flush()

class Raised(Exception):
    """The code under test threw."""

class Native:
    patience = 60      # seconds without an answer that count as a hang

    def __init__(self, name):
        self.name, self.so, self.p, self.history = name, build(name), None, []

    def start(self):
        self.p = subprocess.Popen([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); from vp import native; native._worker(%r)' % (HERE, self.so)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)

    def call(self, op, *args):
        """args: numbers, or lists (passed with their length), complex lists as pairs."""
        if self.p is None:
            self.start()
        flat = []
        for a in args:
            if isinstance(a, (list, tuple)) or hasattr(a, 'tolist') and getattr(a, 'ndim', 0) == 1:
                a = list(a)
                flat.append(float(len(a)))
                for x in a:
                    if isinstance(x, complex) or hasattr(x, 'imag') and 'complex' in type(x).__name__:
                        flat += [float(x.real), float(x.imag)]
                    else:
                        flat.append(float(x))
            elif hasattr(a, 'ndim') and a.ndim == 2:
                flat += [float(a.shape[0]), float(a.shape[1])] + [float(x) for r in a for x in r]
            else:
                flat.append(float(a))
        self.history.append((op, flat))
        o = op.encode()
        try:
            self.p.stdin.write(struct.pack('<qq', len(o), len(flat)) + o + struct.pack('<%dd' % len(flat), *flat))
            self.p.stdin.flush()
            h = self._read(16)
        except (BrokenPipeError, Crash):
            self.close()
            raise Crash('process died in %s' % op)
        rc, n = struct.unpack('<qq', h)
        if rc < 0:
            raise Raised(self._read(n).decode(errors='replace'))
        return list(struct.unpack('<%dd' % n, self._read(8 * n)))

    def _read(self, n):
        b = b''
        while len(b) < n:
            r, _, _ = select.select([self.p.stdout], [], [], self.patience)
            if not r:
                raise Crash('no answer in %d s' % self.patience)
            c = os.read(self.p.stdout.fileno(), n - len(b))
            if not c:
                raise Crash('process died')
            b += c
        return b

    def close(self):
        if self.p:
            try:
                self.p.kill(); self.p.wait()
            except OSError:
                pass
        self.p = None
        self.history = []

class Reader:
    def __init__(self, xs):
        self.x, self.i = xs, 0
    def num(self):
        self.i += 1
        return self.x[self.i - 1]
    def vec(self):
        n = int(self.num()); v = self.x[self.i:self.i + n]; self.i += n
        return v
    def cvec(self):
        n = int(self.num()); v = self.x[self.i:self.i + 2 * n]; self.i += 2 * n
        return [complex(v[2 * k], v[2 * k + 1]) for k in range(n)]
    def mat(self):
        import numpy as np
        r, c = int(self.num()), int(self.num())
        v = self.x[self.i:self.i + r * c]; self.i += r * c
        return np.array(v).reshape(r, c)
