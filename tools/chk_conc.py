"""C01, C02: the shared-state design (spec/tla/Library.tla) is model checked, its behaviours are replayed into
the real library as schedules, and every recorded trace of the library is checked against
spec/tla/LibraryTrace.tla (refinement of LibraryAbs plus the happens-before order of all shared accesses)."""
import concurrent.futures as cf
from concreplay import *
from sesreplay import key_cmds, shcmds, call_text, pt_cmd

EVT = {'acq': -2, 'rel': -3, 'ret': -4, 'up': -5, 'down': -5}
ALLOPS = ('ov', 'kin', 'mom', 't1', 't2', 'so', 'oc', 'gov', 'gt1', 'gt2', 'gso', 'goc', 'nuc')
LIGHT = 10 ** 7             # memory accesses of a call that is replayed under schedules
KINDS = {'C01': '{"comp", "init", "isinit"}', 'C02': '{"comp", "init", "finalize", "isinit"}'}


# ------------------------------------------------------------------ design
def cfg(d, name, pid, threads, ops, variant='none', start=None, props=True, parts=2, reads=3, kinds=None):
    p = os.path.join(d, name + '.cfg')
    start = (pid == 'C01') if start is None else start
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS Threads = {%s} MaxOps = %d Parts = %d Reads = %d Variant = "%s" StartUp = %s Kinds = %s\n'
                % (', '.join('"t%d"' % i for i in range(threads)), ops, parts, reads, variant, 'TRUE' if start else 'FALSE', kinds or KINDS[pid]))
        f.write('INVARIANT Safety\nCHECK_DEADLOCK FALSE\n')
        f.write('PROPERTIES Refines Returns\n' if props else 'VIEW noLast\n')
    return p


def design(pid, tier, rep, d):
    """(name, config, must hold)"""
    jobs = [('live', cfg(d, 'live', pid, 2, 2), True)]
    if tier == 'quick':
        jobs += [('safe', cfg(d, 'safe', pid, 3, 2, props=False), True)]
    else:
        jobs += [('safe', cfg(d, 'safe', pid, 3, 3, props=False), True), ('safe4', cfg(d, 'safe4', pid, 4, 2, props=False, reads=2), True),
                 ('live3', cfg(d, 'live3', pid, 3, 1), True), ('fresh', cfg(d, 'fresh', pid, 3, 2, props=False, start=pid != 'C01'), True),
                 ('free', cfg(d, 'free', 'C02', 3, 2, 'freeall', props=False), True)]
    for v in ('scratch', 'borrow') if pid == 'C01' else ('flagfirst', 'nolock', 'nocheck', 'stale', 'keeplock'):
        jobs.append((v, cfg(d, v, pid, 2, 3 if v == 'stale' else 2, v), False))

    def go(j):
        return j, tlc('Library.tla', j[1], d, j[0], workers=4 if j[2] else 1, timeout=3000)
    with cf.ThreadPoolExecutor(4) as ex:
        for (name, c, holds), (rc, out, gen, dist) in ex.map(go, jobs):
            good = 'No error has been found' in out
            if not good and 'is violated' not in out and 'was violated' not in out:
                raise RuntimeError('TLC failed on ' + name + ': ' + out[-2000:])
            if good != holds:
                raise RuntimeError('the design specification is wrong: variant %s %s' % (name, 'rejected' if holds else 'accepted'))
            if holds:
                rep.add('states', dist); rep.add('transitions', gen)
            else:
                rep.add('rejected_design_variants')


# ------------------------------------------------------------------ behaviours of the design -> programs, schedules
def behaviours(pid, d, num, depth, seed, threads, ops, start):
    pre = os.path.join(d, 'beh_%s_%d_%d' % (pid, threads, seed))
    os.makedirs(pre)
    c = cfg(pre, 'sim', pid, threads, ops, start=start, props=False, reads=4, kinds=KINDS[pid])
    tlc('Library.tla', c, pre, 'sim', ['-simulate', 'file=%s/b,num=%d' % (pre, num), '-depth', str(depth), '-seed', str(seed)], workers=1)
    r = []
    for f in sorted(glob.glob(pre + '/b*')):
        steps = re.findall(r'last = <<"t(\d)", "([^"]*)">>', open(f).read())
        if steps:
            r.append([(int(t), e) for t, e in steps])
    shutil.rmtree(pre, ignore_errors=True)
    return r


class Pool:
    """calls of one session behaviour; objects of equal content are shared"""
    def __init__(self, keys):
        self.setup, self.calls, self.ids = ['order 0'], [], {}
        n = [0]

        def obj(kind, s):
            k = kind + json.dumps(s, sort_keys=True)
            if k not in self.ids:
                i = n[0]; n[0] += 1
                self.setup += shcmds(i, s, 0) if kind == 's' else [pt_cmd(i, s)]
                self.ids[k] = i
            return self.ids[k]
        g = 0
        for k in keys:
            a, b = obj('s', k['a']), obj('s', k['b'])
            pid = [obj('p', p) for p in k['p']]
            sid = [obj('s', s) for s in k['s']]
            gi = 0
            if k['op'] in ('full', 'gfull'):
                gk = 'g' + json.dumps(k['g'], sort_keys=True)
                if gk not in self.ids:
                    self.ids[gk] = g; g += 1
                    gi = self.ids[gk]
                    self.setup.append('ngr %d' % gi)
                    for cmd, ps in (('gl', k['g']['loc']), ('ga', k['g']['ar']), ('gs', k['g']['so'])):
                        for p in ps:
                            self.setup += [pt_cmd(3000, p), '%s %d 3000' % (cmd, gi)]
                    for p, s in zip(k['g']['ocp'], k['g']['ocs']):
                        self.setup += [pt_cmd(3000, p)] + shcmds(3001, s, 0) + ['go %d 3000 3001' % gi]
                gi = self.ids[gk]
            self.calls.append(call_text(k, a, b, pid, sid, gi))
        self.setup += ['call %d %s' % (i, c) for i, c in enumerate(self.calls)]
        self.ops = [k['op'] for k in keys]


def all_keys(mixes=('stepPure', 'stepSettings', 'stepObjects', 'stepOrders')):
    """calls of the specification's behaviours, by routine"""
    by = {}
    for m in mixes:
        for s in load_corpus('ses_' + m):
            for a in s:
                if a['op'] in ('call', 'again'):
                    by.setdefault(a['key']['op'] + (str(a['key']['par'][1]) if a['key']['op'] == 'nuc' else ''), {})[json.dumps(a['key'], sort_keys=True)] = a['key']
    for name in ('overlap', 'kinmom', 'type1', 'type2', 'so', 'oc', 'gpp', 'gov', 'nuc'):
        for c in load_corpus(name):
            if c['a']['L'] + c['b']['L'] > COST.get(c['op'], 0):
                continue            # instrumented code is slow
            f = lambda s: {'L': s['L'], 'c': s['c'], 'al': s['al'], 'o': s['o'], 'ord': 0, 'rot': 0, 'norm': 0}
            k = {'op': c['op'], 'a': f(c['a']), 'b': f(c['b']), 'p': c['p'], 's': [f(s) for s in c['s']], 'C': c['C'], 'P': c['P'], 'par': c['par']}
            if c['op'] in ALLOPS:
                by.setdefault(c['op'] + (str(c['par'][1]) if c['op'] == 'nuc' else ''), {})[json.dumps(k, sort_keys=True)] = k
    return by


def pools(rng, count, per):
    """every operation occurs: calls drawn evenly over the routines"""
    by = all_keys()
    names = sorted(by)
    r = []
    for i in range(count):
        ks = []
        for j in range(per):
            c = sorted(by[names[(i * per + j) % len(names)]].items())
            ks.append(c[rng.randrange(len(c))][1])
        r.append(Pool(ks))
    return r


def programs(beh, light, rng, prof, threads, init_ev):
    """programs per thread and schedule entries of one behaviour of Library.tla"""
    progs = [[] for _ in range(threads)]
    sched = []
    for t, e in beh:
        if e.startswith('call '):
            o = e[5:]
            progs[t].append(rng.choice(light) if o == 'comp' else o)
            sched.append((t, -1))
        elif e == 'read':
            n = prof.get(progs[t][-1], 8)
            k = rng.choice([1, 2, max(1, n // 4), max(1, n // 4), max(1, n // 4), max(1, n // 2)])
            sched.append((t, k))
        elif e == 'build':
            sched.append((t, rng.choice([1, 50, init_ev // 4, init_ev // 4])))
        elif e in ('test', 'query'):
            sched.append((t, 1))
        else:
            sched.append((t, EVT[e]))
    m = []
    for s in sched:
        if m and m[-1][0] == s[0] and m[-1][1] > 0 and s[1] > 0:
            m[-1] = (s[0], m[-1][1] + s[1])
        else:
            m.append(s)
    return progs, m[:4000]


def one_pool(exe, pid, pool, behs, rng, threads, races):
    """runs behaviours in one process; -> (traces, problems, calls)"""
    drv = Driver(exe, timeout=800)
    traces, problems, ncalls = [], [], 0
    log = lambda: '\n'.join(drv.log)

    def execute(progs, sched, cmd='crun 0'):
        drv.cmd('threads %d' % len(progs))
        for t, p in enumerate(progs):
            for o in p:
                drv.cmd('prog %d %s' % (t, o))
        drv.cmd('sched %d %s' % (len(sched), ' '.join('%d %d' % s for s in sched)))
        return Run(drv.cmd(cmd))
    try:
        for c in pool.setup:
            drv.cmd(c)
        # the serial values, in a process where nothing else runs
        names = ['@%d' % i for i in range(len(pool.calls))]
        serial, prof, work = {}, {}, {}
        r = execute([['init']], [])
        init_ev = max(8, r.ops[0][3])
        base = r.initalloc
        for n in names:
            r = execute([[n]], [])
            serial[n], prof[n] = r.ops[0][5], r.ops[0][3]
            work[n] = r.work
            if r.leak or r.badfree:
                problems.append(('memory', 'a call of %s leaves %d blocks, frees %d wrongly' % (n, r.leak, r.badfree), log()))
        light = [n for n in names if work[n] < LIGHT] or sorted(names, key=lambda n: work[n])[:1]
        names = light
        if pid == 'C02':
            execute([['finalize']], [])
            r = execute([['init']], [])
            init_ev2 = max(8, r.ops[0][3])
            execute([['finalize']], [])
        else:
            init_ev2 = 8
        up = pid == 'C01'
        prev = None
        for b in behs:
            progs, sched = programs(b, light, rng, prof, threads, init_ev2)
            r = execute(progs, sched)
            ncalls += len(r.ops)
            if r.stuck:
                problems.append(('deadlock', 'threads wait for each other for ever: programs %s schedule %s' % (progs, sched[:60]), log()))
                return traces, problems, ncalls
            traces.append((trace_json(r, serial, progs), progs, sched, pool, list(drv.log[-12:])))
            if r.badfree or r.leak:
                problems.append(('memory', 'programs %s leave %d blocks, free %d wrongly' % (progs, r.leak, r.badfree), log()))
            if r.up1 != (1 if up else 0):           # back to the state the behaviours start from
                execute([['init' if up else 'finalize']], [])
        # free running on all cores
        for _ in range(races):
            execute([['init']], [])
            nt = 4
            progs = [[rng.choice(names) for _ in range(6)] for _ in range(nt)]
            if rng.random() < .5:
                progs = [progs[0]] * nt
            for p in progs:
                p = p.insert(0, 'init') if p is not progs[0] or p[0] != 'init' else None
            r = execute(progs, [], 'race 0')
            for t, k, kind, _, ret, h in r.ops:
                ncalls += 1
                o = progs[t][k]
                if o[0] == '@' and h != serial[o]:
                    problems.append(('serial', 'free-running threads: call %s of thread %d is not the serial value (%s)' % (pool.calls[int(o[1:])], t, kind), log()))
                    break
        # memory of init / finalize cycles
        if pid == 'C02':
            execute([['finalize']], [])
            tot = []
            for _ in range(3):
                a = execute([['init', 'init', 'finalize', 'finalize']], [])
                tot.append(a.initalloc)
            if any(tot):
                problems.append(('memory', 'init/finalize cycles change the number of live blocks: %s' % tot, log()))
        drv.close()
    except Crash as e:
        problems.append(('crash', str(e)[:800], log()))
    return traces, problems, ncalls


COST = {'ov': 20, 'kin': 18, 'mom': 18, 'gov': 16, 't1': 9, 'nuc': 7, 'gt1': 6, 't2': 4, 'so': 4, 'oc': 3, 'gt2': 3, 'gso': 3, 'goc': 2}


def sweep(exe, keys):
    """each call alone in the instrumented library: traces of its shared accesses"""
    traces, problems = [], []
    drv = Driver(exe, timeout=1500)
    try:
        drv.cmd('threads 1'); drv.cmd('prog 0 init'); drv.cmd('sched 0'); drv.cmd('crun 0')
        for k in keys:
            pre, call, post = key_cmds(k, 0)
            n0 = len(drv.log)
            for c in pre + ['call 0 ' + call, 'threads 1', 'prog 0 @0', 'sched 0']:
                drv.cmd(c)
            r = Run(drv.cmd('crun 0'))
            p = Pool([]); p.setup, p.calls = pre, [call]
            traces.append((trace_json(r, {'@0': r.ops[0][5]}, [['@0']]), [['@0']], [], p, None))
            if r.leak or r.badfree:
                problems.append(('memory', 'call leaves %d blocks, frees %d wrongly' % (r.leak, r.badfree), '\n'.join(drv.log[n0:])))
            drv.many(post)
        drv.close()
    except Crash as e:
        problems.append(('crash', str(e)[:800], '\n'.join(drv.log[-40:])))
    return traces, problems


def validate(traces, rep, d, name):
    """TLC decides every recorded trace"""
    if not traces:
        return
    p = os.path.join(d, name + '.ndjson')
    with open(p, 'w') as f:
        for t in traces:
            f.write(t[0] + '\n')
    rc, out, gen, dist = tlc('LibraryTrace.tla', 'LibraryTrace.cfg', d, name, env={'TRACES': p}, workers=4, timeout=3000)
    rep.add('trace_states', dist)
    if 'No error has been found' in out:
        rep.add('traces_validated_against_impl', len(traces))
        return
    if 'Deadlock reached' not in out and 'is violated' not in out:
        raise RuntimeError('TLC failed: ' + out[-3000:])
    last = out[out.rfind('/\\ n = '):] if '/\\ n = ' in out else out
    n = int(re.findall(r'/\\ n = (\d+)', out)[-1])
    i = int(re.findall(r'/\\ i = (\d+)', out)[-1])
    bad = re.findall(r'/\\ bad = "([^"]*)"', out)[-1]
    tr, progs, sched, pool, log = traces[n - 1]
    ev = json.loads(tr)['ev']
    if bad:
        i -= 1
    e = ev[i - 1]
    tl = [x for x in ev[:i] if x[1] in ('call', 'ret', 'up', 'acq', 'rel') or (len(x) > 2 and len(e) > 2 and x[1][1:] in ('r', 'w') and x[2] == e[2] and e[1][1:] in ('r', 'w'))][-12:]
    what = '%s: event %d %s of thread %d in %s' % (bad or 'event not allowed by the specification', i, e[1:], e[0],
                                                   ' | '.join('t%d: %s' % (t, ' '.join(pool.calls[int(o[1:])].split()[0] if o[0] == '@' else o for o in q)) for t, q in enumerate(progs)))
    rep.violation(what + ' (before it: %s)' % tl, '\n'.join(pool.setup + ['threads %d' % len(progs)] + ['prog %d %s' % (t, o) for t, q in enumerate(progs) for o in q]
                  + ['sched %d %s' % (len(sched), ' '.join('%d %d' % s for s in sched)), 'crun 0']))


def conc_part(pid, tier, rep, d):
    exe = build_conc(d)
    quick = tier == 'quick'
    threads = 3
    npool, nbeh = (12, 8) if quick else (60, 40)
    rng = random.Random(SEED * 7919 + (1 if pid == 'C01' else 2))
    with cf.ThreadPoolExecutor(2) as ex:
        des = ex.submit(design, pid, tier, rep, d)
        behs = behaviours(pid, d, npool * nbeh, 60 if pid == 'C01' else 90, SEED * 100 + 7, threads, 4 if pid == 'C01' else 6, pid == 'C01')
        ps = pools(rng, npool, 6 if pid == 'C01' else 2)
        jobs = [(exe, pid, p, behs[i * nbeh:(i + 1) * nbeh], random.Random(rng.random()), threads, 3 if quick else 20) for i, p in enumerate(ps)]
        traces = []
        with cf.ThreadPoolExecutor(NCPU) as ex2:
            for trs, problems, n in ex2.map(lambda j: one_pool(*j), jobs):
                rep.add('library_operations', n)
                traces += trs
                for c, t, log in problems:
                    rep.violation(c + ': ' + t, log)
        des.result()
    rep.add('schedules_replayed', len(traces))
    if pid == 'C01':
        by = all_keys()
        rng2 = random.Random(SEED * 31 + 5)
        ks = []
        for n in sorted(by):
            c = [by[n][k] for k in sorted(by[n])]
            rng2.shuffle(c)
            ks += c[:40 if quick else 1000]
        uniq = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for trs, problems in ex.map(lambda i: sweep(exe, ks[i::NCPU]), range(NCPU)):
                rep.add('single_calls_traced', len(trs))
                for t in trs:
                    uniq.setdefault(t[0], t)
                for c, t, log in problems:
                    rep.violation(c + ': ' + t, log)
        traces += list(uniq.values())
    for p in ps:
        for o in p.ops:
            rep.add('call_' + o)
    if traces:
        rep.samples.append({'programs': traces[0][1], 'calls': traces[0][3].calls, 'schedule': traces[0][2][:40]})
    step = 400
    for k in range(0, len(traces), step):
        validate(traces[k:k + step], rep, d, 'tr%d' % k)
        if rep.viol:
            break


ASSUME = ['gcc -fsanitize=thread instruments every memory access of the library; accesses made inside libc calls other than malloc/mem* are not seen',
          'sequential consistency between scheduled events (one thread runs at a time); unordered accesses are found by happens-before, not by reordering']


def run(pid, tier, rep):
    d = scratch()
    conc_part(pid, tier, rep, d)
    if pid == 'C02':
        import chk_ses
        chk_ses.ses_part(pid, tier, rep, d, build_driver(d))
    return {'level': 'model_checking', 'assumptions': ASSUME}
