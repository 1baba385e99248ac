"""Shared machinery: building the library from /repo's working tree, talking to the replay
driver, reading Quint ITF traces, comparing results, writing evidence."""
import json, os, subprocess, sys, tempfile, shutil, gzip, lzma, time, glob, struct, threading, random
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'libgrpp')
SEED = int(os.environ.get('VERIF_SEED', '1'))
NCPU = 8
OUT = 10 ** 30            # fixed-point unit of expected values (10^80 / 10^50)
S = 10 ** 80


# ------------------------------------------------------------------ building
def scratch():
    d = tempfile.mkdtemp(prefix='vgrpp.')
    import atexit
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-3000:] + p.stderr[-3000:])
    return p.stdout


WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'


def build_objects(d, cc='gcc', flags=(), omp='-fopenmp'):
    srcs = sorted(glob.glob(os.path.join(SRC, '*.c')))
    if not srcs:
        raise BuildError('no sources in ' + SRC)
    os.makedirs(d, exist_ok=True)
    procs = []
    errs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s)[:-2] + '.o')
        procs.append((s, subprocess.Popen([cc, '-O2', '-g', *([omp] if omp else []), '-w', *flags, '-I', SRC, '-c', s, '-o', o],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len([1 for _, p in procs if p.poll() is None]) >= NCPU:
            procs[-1][1].wait()
    for s, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            errs.append(s + ': ' + out)
    if errs:
        raise BuildError('\n'.join(errs)[:4000])
    return sorted(glob.glob(os.path.join(d, '*.o')))


def build_driver(d, name='driver', cc='gcc', flags=(), defs=(), src='driver.c', wrap=True, omp='-fopenmp'):
    objs = build_objects(os.path.join(d, 'obj_' + name), cc, flags, omp)
    out = os.path.join(d, name)
    run([cc, '-O1', '-g', *([omp] if omp else []), '-w', *flags, *defs, '-I', SRC, '-I', os.path.join(VERIF, 'harness'), '-o', out,
         os.path.join(VERIF, 'harness', src), *objs, *([WRAP] if wrap else []), '-lm', '-lpthread'])
    return out


# ------------------------------------------------------------------ driver
class Crash(Exception):
    pass


class Driver:
    """Line protocol: every command is answered by lines up to a line '.'"""
    def __init__(self, path, env=None, timeout=600):
        self.err = tempfile.TemporaryFile(mode='w+')
        e = dict(os.environ)
        e['OMP_NUM_THREADS'] = '1'
        if env:
            e.update(env)
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True,
                                  env=e, bufsize=1 << 16)
        self.log = []
        self._read('start')
        self.watch = threading.Timer(timeout, self.p.kill)
        self.watch.daemon = True
        self.watch.start()

    def _read(self, cmd):
        lines = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                self.p.wait()
                self.err.seek(0)
                raise Crash('process ended (rc %s) during: %s\n%s' % (self.p.returncode, cmd[:600], self.err.read()[-1500:]))
            l = l.rstrip('\n')
            if l == '.':
                return lines
            lines.append(l)

    def cmd(self, c):
        self.log.append(c)
        try:
            self.p.stdin.write(c + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        return self._read(c)

    def many(self, cmds):
        return [self.cmd(c) for c in cmds]

    def close(self):
        self.watch.cancel()
        try:
            self.p.stdin.write('quit\n')
            self.p.stdin.close()
        except Exception:
            pass
        self.p.wait()


def parse_M(lines):
    """matrices of a call, and event lines"""
    ev = [l for l in lines if not l.startswith('M ')]
    for l in lines:
        if l.startswith('M '):
            t = l.split()
            nm, n = int(t[1]), int(t[2])
            if len(t) == 4 and t[3].startswith('H'):
                return t[3], ev
            v = [float.fromhex(x) for x in t[3:]]
            return [v[i * n:(i + 1) * n] for i in range(nm)], ev
    return None, ev


# ------------------------------------------------------------------ ITF
def un(v):
    """ITF value -> python"""
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#tup' in v:
            return tuple(un(x) for x in v['#tup'])
        if '#set' in v:
            return [un(x) for x in v['#set']]
        if '#map' in v:
            return {hk(un(k)): un(w) for k, w in v['#map']}
        return {k: un(w) for k, w in v.items()}
    if isinstance(v, list):
        return [un(x) for x in v]
    return v


def hk(x):
    return tuple(x) if isinstance(x, list) else x


def itf_states(path):
    with open(path) as f:
        d = json.load(f)
    return [{k: un(v) for k, v in s.items() if not k.startswith('#')} for s in d['states']]


def spread(seed):
    """Quint's generator is a counter started at the seed: neighbouring seeds give overlapping streams"""
    return (seed + 1) * 0x9E3779B97F4A7C15 % (1 << 52)


def quint_run(spec, main, step, steps, seed, out, init='init', samples=1, timeout=600, invariant=None):
    cmd = ['quint', 'run', os.path.join(VERIF, 'spec', spec), '--main=' + main, '--init=' + init, '--step=' + step,
           '--max-steps=%d' % steps, '--max-samples=%d' % samples, '--seed=%d' % spread(seed), '--out-itf=' + out, '--verbosity=0']
    if invariant:
        cmd.append('--invariant=' + invariant)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if invariant and p.returncode:
        raise RuntimeError('invariant %s of %s fails in the specification: %s' % (invariant, spec, p.stdout[-2000:]))
    if not os.path.exists(out):
        raise RuntimeError('quint run failed: ' + p.stdout[-2000:])
    return itf_states(out)


# ------------------------------------------------------------------ numbers
def fx(n):
    """fixed-point integer -> exact double (inputs are dyadic)"""
    f = Fraction(n, S)
    d = float(f)
    # S/2^20 is exact, so the fraction is exactly dyadic
    return d


def hx(n):
    return fx(n).hex()


def ex(n):
    return n / OUT


# ------------------------------------------------------------------ corpus
def load_corpus(name):
    p = os.path.join(VERIF, 'corpus', name + '.jsonl.xz')
    if not os.path.exists(p):
        return []
    with lzma.open(p, 'rt') as f:
        return [json.loads(l) for l in f]


# ------------------------------------------------------------------ reporting
def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                r.append(l[len('finding: '):])
    return r


class Report:
    def __init__(self, pid, tier, technique):
        self.pid, self.tier, self.technique = pid, tier, technique
        self.t0 = time.time()
        self.counts = {}
        self.notes = []
        self.viol = []
        self.samples = []

    def add(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, what, replay):
        self.viol.append((what, replay))

    def finish(self, extra=None):
        rc = 0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        if self.viol:
            rc = 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + '.txt')
            with open(path, 'w') as f:
                for w, r in self.viol[:20]:
                    f.write('# ' + w.replace('\n', '\n# ') + '\n' + r + '\n')
            for w, r in self.viol[:5]:
                print(self.pid + ': ' + w[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        self.write(rc, extra)
        return rc

    def write(self, rc, extra):
        from evidence import make
        make(self, rc, extra)
