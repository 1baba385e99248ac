"""Replays behaviours of spec/session.qnt into the library."""
from relreplay import *
from casereplay import _norm, _dist

TOLC = ('tolr', 'tola', 'tolb')


def shcmds(i, s, back):
    """construct a shell of the given content; afterwards ordering `back` is selected again"""
    r = []
    if s['ord'] != back:
        r.append('order %d' % s['ord'])
    r.append(sh_cmd(i, s))
    if s['ord'] != back:
        r.append('order %d' % back)
    if s['rot']:
        r.append('setlist %d %d' % (i, s['rot']))
    r += ['mulsh %d' % i] * s['norm']
    return r


def clists(s):
    d = clist(s['ord'], s['L'])
    return [d[(i + s['rot']) % len(d)] for i in range(len(d))]


def key_cmds(k, order):
    """fresh objects (ids from 1000), the call, the clean-up"""
    pre = shcmds(1000, k['a'], order) + shcmds(1001, k['b'], order)
    post = ['dsh 1000', 'dsh 1001']
    op = k['op']
    base = op[1:] if op[0] == 'g' else op
    n = 1002
    pid, sid = [], []
    for p in k['p']:
        pre.append(pt_cmd(n, p)); pid.append(n); post.append('dpt %d' % n); n += 1
    for s in k['s']:
        pre += shcmds(n, s, order); sid.append(n); post.append('dsh %d' % n); n += 1
    if base == 'full':
        pre.append('ngr 100')
        for cmd, ps in (('gl', k['g']['loc']), ('ga', k['g']['ar']), ('gs', k['g']['so'])):
            for p in ps:
                pre += [pt_cmd(n, p), '%s 100 %d' % (cmd, n)]; n += 1
        for p, s in zip(k['g']['ocp'], k['g']['ocs']):
            pre += [pt_cmd(n, p)] + shcmds(n + 1, s, order) + ['go 100 %d %d' % (n, n + 1)]; n += 2
        post.append('dgr 100')
    return pre, call_text(k, 1000, 1001, pid, sid, 100), post


def call_text(k, a, b, pid, sid, g):
    op = k['op']
    base = op[1:] if op[0] == 'g' else op
    t = '%s %d %d' % (op, a, b)
    if base in ('t1', 't2', 'so'):
        t += ' %s %d' % (v3(k['C']), pid[0])
    elif base == 'oc':
        t += ' %s %d %s' % (v3(k['C']), len(pid), ' '.join('%d %d' % x for x in zip(pid, sid)))
    elif base == 'full':
        t += ' %s %d' % (v3(k['C']), g)
    elif base in ('nuc', 'nucs'):
        t += ' %s %d %d %s' % (v3(k['C']), k['par'][0], k['par'][1], ' '.join(hx(x) for x in k['par'][2:]))
    if op[0] == 'g':
        t += ' ' + v3(k['P'])
    return t


def act_cmds(a, order):
    """(commands before, observed command, commands after)"""
    op, i = a['op'], a['i']
    if op in ('init', 'finalize', 'isinit', 'defaults', 'params'):
        return [], op, []
    if op == 'order':
        return [], 'order %d' % i[0], []
    if op == 'tol':
        return [], '%s 1e-%d' % (TOLC[i[0]], i[1]), []
    if op == 'nsh':
        return [], sh_cmd(i[0], a['sh']), []
    if op == 'npt':
        return [], pt_cmd(i[0], a['pt']), []
    if op == 'mkp':  # pots hands its object over to the container
        return [pt_cmd(i[1], a['pt'])], '%s %d %d' % (('gl', 'ga', 'gs')[i[2]], i[0], i[1]), []
    if op == 'many':
        r = []
        for j in range(i[1]):
            r.append(pt_cmd(2000, a['pt']))
            if i[2] == 2:
                r += [sh_cmd(2000, a['sh']), 'go %d 2000 2000' % i[0]]
            else:
                r.append('%s %d 2000' % ('ga' if i[2] == 0 else 'gs', i[0]))
        return r[:-1], r[-1], []
    if op == 'again':
        return key_cmds(a['key'], order)
    if op == 'call':
        k = a['key']
        base = k['op'][1:] if k['op'][0] == 'g' else k['op']
        return [], call_text(k, i[0], i[1], i[2:3], i[3:4], i[2] if base == 'full' else 0), []
    return [], ' '.join([op] + [str(x) for x in i]), []


def same_num(got, want, exact):
    return got == want if exact else abs(got - want) <= 1e-12 * abs(want)


def check_shell_dump(t, s):
    """t: tokens after 'S'"""
    L, n = int(t[0]), int(t[1])
    want = clists(s)
    lst = [tuple(int(x) for x in t[2 + 3 * j:5 + 3 * j]) for j in range(n)]
    r = []
    if L != s['L'] or lst != want:
        r.append(('order', 'component list %s, specified %s' % (lst, want)))
    t = t[2 + 3 * n:]
    np = int(t[0])
    c = [float.fromhex(x) for x in t[1:1 + 2 * np:2]]
    al = [float.fromhex(x) for x in t[2:2 + 2 * np:2]]
    o = [float.fromhex(x) for x in t[1 + 2 * np:4 + 2 * np]]
    if np != len(s['c']) or not all(same_num(x, fx(y), s['norm'] == 0) for x, y in zip(c, s['c'])) or al != [fx(x) for x in s['al']] \
            or o != [fx(x) for x in s['o']]:
        r.append(('object', 'shell content %s %s %s, specified %s %s %s' % (c, al, o, [fx(x) for x in s['c']], [fx(x) for x in s['al']], [fx(x) for x in s['o']])))
    return r


def check_pot_dump(t, p):
    L, J, n = int(t[0]), int(t[1]), int(t[2])
    got = [(int(t[3 + 3 * j]), float.fromhex(t[4 + 3 * j]), float.fromhex(t[5 + 3 * j])) for j in range(n)]
    want = [(x['n'], fx(x['c']), fx(x['z'])) for x in p['t']]
    if (L, J) != (p['L'], p['J']) or got != want:
        return [('object', 'potential content %s, specified %s' % ((L, J, got), (p['L'], p['J'], want)))]
    return []


def base_of(a):
    op = a['key']['op']
    return op[1:] if op[0] == 'g' else op


class Session:
    """replay of one behaviour; problems: list of (class, text, log position)
    classes: state, params, order, object, same, near, event, leak, badfree, crash"""
    def __init__(self, drvpath, acts, twice=True, fresh=None, check_near=True, first=(), env=None):
        self.acts, self.problems, self.calls = acts, [], 0
        self.results = []
        self.keys = {}
        self.check_near = check_near
        self.first, self.fcalls = first, 0
        d = Driver(drvpath, timeout=600, env=env)
        self.d = d
        try:
            self.go(twice)
            if fresh:
                self.fresh(drvpath)
        except Crash as e:
            self.problems.append(('crash', str(e)))
        finally:
            d.p.kill(); d.close()
        self.log = d.log

    def bad(self, cls, text):
        self.problems.append((cls, text))

    def go(self, twice):
        d = self.d
        d.many(self.first)
        live = {'sh': set(), 'pt': set(), 'gr': set()}
        order = 0
        if twice:
            d.cmd('twice 1')
        # what the library allocates for itself is allocated by the first initialization
        d.cmd('init')
        base = None
        d.cmd('finalize')
        base = d.cmd('mem')[0].split()
        for n, a in enumerate(self.acts):
            op = a['op']
            if op in ('start', 'idle'):
                continue
            pre, cmd, post = act_cmds(a, order)
            d.many(pre)
            out = d.cmd(cmd)
            d.many(post)
            i = a['i']
            if op == 'order':
                order = i[0]
            elif op == 'defaults':
                order = 0
            elif op in ('init', 'isinit', 'finalize'):
                if out[0] != 'R %d' % (1 if a['ok'] else 0):
                    self.bad('state', 'step %d: initialized-query after %s gives %s, specified %s' % (n, op, out[0], a['ok']))
            elif op == 'params':
                v = [float.fromhex(x) for x in out[0].split()[1:]]
                if v != [float('1e-%d' % k) for k in i]:
                    self.bad('params', 'step %d: settings %s, specified exponents %s' % (n, v, i))
            elif op in ('nsh', 'cpsh'):
                live['sh'].add(i[0])
            elif op == 'dsh':
                live['sh'].discard(i[0])
            elif op in ('npt', 'shpt'):
                live['pt'].add(i[0])
            elif op == 'dpt':
                live['pt'].discard(i[0])
            elif op == 'ngr':
                live['gr'].add(i[0])
            elif op == 'dgr':
                live['gr'].discard(i[0])
            elif op in ('gl', 'ga', 'gs'):
                live['pt'].discard(i[1])
            elif op == 'go':
                live['pt'].discard(i[1]); live['sh'].discard(i[2])
            elif op == 'dumps':
                for c, t in check_shell_dump(out[0].split()[1:], a['sh']):
                    self.bad(c, 'step %d: %s' % (n, t))
            elif op == 'dumpp':
                for c, t in check_pot_dump(out[0].split()[1:], a['pt']):
                    self.bad(c, 'step %d: %s' % (n, t))
            elif op == 'dumpg':
                self.check_grpp(n, out, a['gr'])
            elif op in ('call', 'again'):
                self.calls += 1
                m, ev = parse_M(out)
                self.fcalls += sum(1 for e in ev if e.startswith('F '))
                for e in ev:
                    if e.startswith('F '):
                        continue
                    self.bad('event', 'step %d: %s' % (n, e))
                self.results.append((a, m))
                if a['same'] >= 0:
                    m0 = self.results[a['same']][1]
                    df = diff(m, m0)
                    if df:
                        self.bad('same', 'step %d: call %s differs from the equal call %d: %s' % (n, a['key']['op'], a['same'], df))
                if a['near'] >= 0 and self.check_near:
                    self.near(n, a, m, self.results[a['near']][1])
                self.keys.setdefault(json.dumps(a['key'], sort_keys=True), (a['key'], m))
            if any(l.startswith('X') for l in out):
                raise RuntimeError('driver: %s -> %s' % (cmd, out))
        for i in live['sh']:
            d.cmd('dsh %d' % i)
        for i in live['pt']:
            d.cmd('dpt %d' % i)
        for i in live['gr']:
            d.cmd('dgr %d' % i)
        end = d.cmd('mem')[0].split()
        if end[1] != base[1]:
            self.bad('leak', 'all objects deleted: %d heap blocks more than before' % (int(end[1]) - int(base[1])))
        if end[2] != '0':
            self.bad('badfree', '%s releases of memory that was not allocated (or released twice)' % end[2])

    def check_grpp(self, n, out, g):
        h = [int(x) for x in out[0].split()[1:]]
        want = [1 if g['loc'] else 0, len(g['ar']), len(g['so']), len(g['ocp'])]
        if h != want:
            self.bad('object', 'step %d: container holds %s parts, specified %s' % (n, h, want))
            return
        rest = out[1:]
        parts = list(g['loc']) + list(g['ar']) + list(g['so'])
        for p in parts:
            for c, t in check_pot_dump(rest.pop(0).split()[1:], p):
                self.bad(c, 'step %d: container: %s' % (n, t))
        for p, s in zip(g['ocp'], g['ocs']):
            for c, t in check_pot_dump(rest.pop(0).split()[1:], p) + check_shell_dump(rest.pop(0).split()[1:], s):
                self.bad(c, 'step %d: container: %s' % (n, t))

    def near(self, n, a, m, m0):
        k = a['key']
        tr = [1e-16, 1e-12, 1e-9, 1e-20][k['tol'][0]]
        c = key_case(k)
        amp = amplification(c)
        tol = tolerance(c, amp, max([abs(v) for q in m0 for v in q] + [0.0]))
        nb = len(clists(k['b']))
        for q in range(len(m)):
            for x in range(len(m[q])):
                ij = (x // nb, x % nb)
                t = tol(ij, m0[q][x]) + tr * factor(c, ij) * 1e3
                if not abs(m[q][x] - m0[q][x]) <= t:
                    self.bad('near', 'step %d: %s with radial tolerance %g: %.15g, default settings: %.15g, admitted %g' %
                             (n, k['op'], tr, m[q][x], m0[q][x], t))
                    return

    def fresh(self, drvpath):
        """every distinct call made with default tolerances, alone in a new process"""
        for k, m in list(self.keys.values()):
            if k['tol'] != [0, 0, 0]:
                continue
            d = Driver(drvpath)
            d.cmd('init')
            pre, call, post = key_cmds(k, 0)
            d.many(pre)
            m1, ev = parse_M(d.cmd(call))
            d.many(post)
            d.close()
            df = diff(m, m1)
            if df:
                self.bad('fresh', '%s differs from the same call in a fresh process: %s' % (k['op'], df))


def key_case(k):
    """the key in the form the tolerance model expects"""
    c = dict(k)
    if k['op'] in ('full', 'gfull'):
        c['loc'], c['ar'], c['so'] = k['g']['loc'], k['g']['ar'], k['g']['so']
        c['p'], c['s'] = k['g']['ocp'], k['g']['ocs']
    c['oa'] = k['a']['ord'] if not k['a']['rot'] else 10 + k['a']['rot']
    c['ob'] = k['b']['ord'] if not k['b']['rot'] else 10 + k['b']['rot']
    f = lambda s: dict(s, c=[int(x * _norm(s['L'], fx(al)) ** s['norm']) for x, al in zip(s['c'], s['al'])])
    c['a'], c['b'] = f(k['a']), f(k['b'])
    return c


def factor(c, ij):
    """sum of the magnitudes with which radial integrals enter"""
    f = 16 * math.pi ** 2
    for s in (c['a'], c['b']):
        f *= (_dist(s['o'], c['C']) + 1) ** s['L'] * max(1.0, sum(abs(fx(x)) * _norm(s['L'], fx(al)) for x, al in zip(s['c'], s['al'])))
        if c['op'][0] == 'g':
            f *= 2 * max(map(fx, s['al'])) + 1
    return f


def diff(m, m0):
    if m is None or m0 is None:
        return 'no output'
    for q in range(len(m0)):
        for x in range(len(m0[q])):
            if m[q][x] != m0[q][x] and not (m[q][x] != m[q][x] and m0[q][x] != m0[q][x]):
                return 'matrix %d element %d: %.17g / %.17g' % (q, x, m[q][x], m0[q][x])
    return None


def load_sessions(path):
    return [s['act'] for s in itf_states(path)]
