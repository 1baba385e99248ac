"""C20: calls at the limits of the documented domain, under sanitizers."""
import concurrent.futures as cf, queue, threading, math
from sesreplay import *

RULE = ('evaluations are transitions of spec/limits.qnt (calls at the limits of the domain), of cases.qnt and sessions of session.qnt, executed by a library '
        'instrumented with AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer; distinct: different calls; non-trivial: some angular '
        'momentum of 5 or more, or 9 or more primitives, or a result that is not zero')
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1',
       'MSAN_OPTIONS': 'halt_on_error=1'}


def headline(text):
    for l in text.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'MemorySanitizer' in l or 'Assertion' in l:
            return l.strip()
    return text[:300]


def run(pid, tier, rep):
    d = scratch()
    big = tier != 'quick'
    lock = threading.Lock()

    def lims(x):
        step, n, sd = x
        out = os.path.join(d, 'k%d.json' % sd)
        r = [s['k'] for s in quint_run('limits.qnt', 'limits', step, n, sd, out, timeout=3000, invariant='domain') if s['k']['op'] != 'none']
        os.remove(out)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fa = ex.submit(build_driver, d, name='asan', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], defs=['-DNOWRAP', '-DWITH_FORTRAN'], wrap=False)
        fm = ex.submit(build_driver, d, name='msan', cc='clang', flags=['-fsanitize=memory', '-fno-sanitize-memory-param-retval', '-fno-omit-frame-pointer'], defs=['-DNOWRAP', '-DWITH_FORTRAN'], wrap=False, omp=None)
        jobs = [('step', 350, SEED * 1000 + q) for q in range(4)] if not big else [('step', 1500, SEED * 1000 + q) for q in range(8)] + [('stepDeep', 150, SEED * 1000 + 50 + q) for q in range(8)]
        calls = [c for r in ex.map(lims, jobs) for c in r]
        asan, msan = fa.result(), fm.result()

    work = []          # (driver, commands before, call, after, weight)
    for n, c in enumerate(calls):
        pre, call, post = key_cmds(c, 0)
        w = c['cost'] + (1 if c['op'] in ('t2', 'so') else 0)
        heavy = max(c['a']['L'], c['b']['L'], max([p['L'] for p in c['p']] + [0])) >= 5 or len(c['a']['c']) >= 9
        for drv, share in ((asan, 1), (msan, 3 if not big else 2)):
            if n % share == 0:
                work.append((w, drv, pre, call, post, heavy))
    ncorp = 0
    for name in ('overlap', 'kinmom', 'gov', 'type1', 'type2', 'so', 'oc', 'gpp', 'nuc'):
        for n, c in enumerate(load_corpus(name)):
            if c.get('t', 0.1) > (0.15 if not big else 2) or (not big and n % 4):
                continue
            pre, call, post = case_call(c)
            work.append((10, asan if n % 8 else msan, pre, call, post, False))
            ncorp += 1
    rep.add('limit_calls', len(calls))
    rep.add('corpus_calls', ncorp)
    work.sort(key=lambda w: -w[0])
    q = queue.Queue()
    for w in work:
        q.put(w)
    seen = set()

    def worker():
        drvs = {}
        while True:
            try:
                w, path, pre, call, post, heavy = q.get_nowait()
            except queue.Empty:
                break
            if len(rep.viol) > 30:
                continue
            drv = drvs.get(path)
            if drv is None:
                drv = drvs[path] = Driver(path, env=ENV, timeout=3000)
                drv.many(['init', 'both 1'])
            try:
                drv.many(pre)
                m, ev = parse_M(drv.cmd(call))
                drv.many(post)
            except Crash as e:
                with lock:
                    rep.violation('%s: %s' % (call[:120], headline(str(e))), '\n'.join(['init', 'both 1'] + pre + [call] + post) + '\n# ' + str(e).replace('\n', '\n# '))
                drvs[path] = None
                continue
            with lock:
                rep.add('evaluations')
                rep.add(('asan_' if path == asan else 'msan_') + call.split()[0])
                key = json.dumps([pre, call])
                if key not in seen:
                    seen.add(key)
                    if heavy or any(v != 0 for t in m for v in t):
                        rep.add('distinct')
                    if len(rep.samples) < 3 and heavy:
                        rep.samples.append({'call': pre + [call], 'largest': max(abs(v) for t in m for v in t)})
                bad = [e for e in ev if e.startswith('E guard') or e.startswith('E fortran guard')]
                if bad:
                    rep.violation('%s: %s' % (call[:120], bad[0]), '\n'.join(['init', 'both 1'] + pre + [call]))
                for i, t in enumerate(m):
                    x = [v for v in t if not math.isfinite(v)]
                    if x:
                        rep.violation('%s: matrix %d has a non-finite element (%r)' % (call[:120], i, x[0]), '\n'.join(['init'] + pre + [call]))
                        break
        for x in drvs.values():
            if x:
                x.close()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(worker) for _ in range(NCPU)]:
            f.result()

    # object operations and life cycle
    def ses(acts):
        return Session(asan, acts, twice=False, env=ENV)
    ss = [s for n in ('ses_stepObjects', 'ses_stepLife', 'ses_stepOrders') for s in load_corpus(n)[:None if big else 4]]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for s in ex.map(ses, ss):
            rep.add('sessions')
            rep.add('session_steps', len(s.acts))
            for c, t in s.problems:
                if c == 'crash':
                    rep.violation('session: ' + headline(t), '\n'.join(s.log) + '\n# ' + t.replace('\n', '\n# '))
    return {'rule': RULE, 'assumptions': ['stray accesses are observed by AddressSanitizer/UndefinedBehaviorSanitizer (gcc) and MemorySanitizer (clang, without OpenMP)',
                                          'semi-local and spin-orbit calls are limited to affordable combinations of angular momenta (cost model in spec/limits.qnt)']}
