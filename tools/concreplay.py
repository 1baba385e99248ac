"""Concurrent replay: programs and schedules -> harness/conc.c -> traces for spec/tla/LibraryTrace.tla."""
import re
from lib import *

TLA = os.path.join(VERIF, 'spec', 'tla')
CFLAGS = ['-O0', '-fno-pie', '-fsanitize=thread'] + ['-D%s=lib_%s' % (a, b) for a, b in (
    ('pthread_mutex_lock', 'mutex_lock'), ('pthread_mutex_unlock', 'mutex_unlock'), ('pthread_once', 'once'),
    ('omp_init_lock', 'omp_init_lock'), ('omp_set_lock', 'omp_set_lock'), ('omp_unset_lock', 'omp_unset_lock'))]


def build_conc(d):
    objs = build_objects(os.path.join(d, 'obj_conc'), 'gcc', CFLAGS)
    out = os.path.join(d, 'conc')
    run(['gcc', '-O1', '-g', '-w', '-no-pie', '-fno-pie', '-I', SRC, '-I', os.path.join(VERIF, 'harness'), '-o', out,
         os.path.join(VERIF, 'harness', 'conc.c'), *objs,
         '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=memset,--wrap=memcpy,--wrap=memmove',
         '-fopenmp', '-lm', '-lpthread'])
    return out


class Run:
    """Result of one concurrent run."""
    def __init__(self, lines):
        self.ev, self.ops, self.stuck, self.waiting = [], [], False, False
        self.leak = self.badfree = self.initalloc = 0
        for l in lines:
            t = l.split()
            if t[0] == 'U':
                self.up0, self.up1 = int(t[1]), int(t[2])
            elif t[0] == 'T':
                k = t[2]
                e = [int(t[1]), k]
                if k == 'ret':
                    e += [t[3], t[4] if t[3] == 'comp' else t[4] != '0']
                elif k == 'call':
                    e += [t[3]]
                elif k == 'up':
                    e += [t[3] != '0']
                else:
                    e += [int(t[3])]
                self.ev.append(e)
            elif t[0] == 'O':
                self.ops.append((int(t[1]), int(t[2]), t[3], int(t[4]), int(t[5]), t[6]))
            elif t[0] == 'H':
                self.leak, self.badfree, self.initalloc, self.work = int(t[1]), int(t[2]), int(t[3]), int(t[4])
            elif t[0] == 'D':
                self.stuck = True
            elif t[0] == 'W':
                self.waiting = True


def trace_json(r, serial, progs):
    """events for LibraryTrace: the value of a computation becomes 'equals the serial one'"""
    pos = {}
    ev = []
    for e in r.ev:
        e = list(e)
        if e[1] == 'call':
            pos[e[0]] = pos.get(e[0], -1) + 1
        if e[1] == 'ret' and e[2] == 'comp':
            e[3] = e[3] == serial[progs[e[0]][pos[e[0]]]]
        ev.append(e)
    return json.dumps({'up': bool(r.up0), 'ev': ev})


def tlc(module, cfg, d, name, extra=(), env=None, timeout=800, workers=4):
    md = os.path.join(d, 'tlc_' + name)
    cmd = ['tlc', '-workers', str(workers), '-config', cfg, '-metadir', md, '-noGenerateSpecTE', *extra, module]
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=TLA, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout.replace(',', ''))
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states', p.stdout)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return p.returncode, p.stdout, gen, dist
