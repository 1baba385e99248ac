"""C19: behaviours of the specifications taken through the Fortran interface as well as through the C interface."""
import concurrent.futures as cf, queue, threading
from sesreplay import *
import chk_models, chk_cases, chk_ses

RULE = ('evaluations are steps of cases.qnt, session.qnt, models.qnt and fortran.qnt taken through a Fortran entry point and compared with the '
        'same step through the C interface (bit for bit; sums over outercore parts to rounding) or, for routines that exist in Fortran only, with the '
        'exact value; distinct: different arguments; non-trivial: a Fortran entry point exists and the result is not all zero')
CORPORA = ('overlap', 'kinmom', 'type1', 'type2', 'so', 'oc', 'gpp', 'nuc')


def pool(items, drvp, fun, lock, rep, first=()):
    q = queue.Queue()
    for x in items:
        q.put(x)

    def work():
        drv = None
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                break
            if len(rep.viol) > 50:
                continue
            if drv is None:
                drv = Driver(drvp, timeout=800)
                drv.many(['init'] + list(first))
            try:
                fun(drv, x)
            except Crash as e:
                with lock:
                    rep.violation('call did not return: ' + str(e)[:800], '\n'.join(drv.log[-12:]))
                drv = None
        if drv:
            drv.close()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(work) for _ in range(NCPU)]:
            f.result()


def run(pid, tier, rep):
    d = scratch()
    big = tier != 'quick'
    lock = threading.Lock()

    def models(k):
        out = os.path.join(d, 'm%d.json' % k)
        r = [s['m'] for s in quint_run('models.qnt', 'models', 'step', 1200 if not big else 5000, SEED * 1000 + 40 + k, out, timeout=3000) if s['m']['f'] != 'none']
        os.remove(out)
        return r

    def entries(k):
        out = os.path.join(d, 'e%d.json' % k)
        r = [s['e'] for s in quint_run('fortran.qnt', 'fortran', 'step', 150 if not big else 800, SEED * 1000 + 80 + k, out, timeout=3000, invariant='unit') if s['e']['f'] != 'none']
        os.remove(out)
        return r

    def sessions(x):
        mix, k = x
        return chk_ses.live_sessions(mix, 1, 90 if not big else 200, SEED * 10 + k, d)[0]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fb = ex.submit(build_driver, d, defs=['-DWITH_FORTRAN'])
        fm = [ex.submit(models, k) for k in range(1 if not big else 8)]
        fe = [ex.submit(entries, k) for k in range(2 if not big else 12)]
        fs = [ex.submit(sessions, (m, 3 + k)) for m in ('stepSettings', 'stepOrders', 'stepLife') for k in range(1 if not big else 6)]
        fc = ex.submit(chk_cases.live_cases, [(s, n, 1) for s, n in (('stepKinMom', 20), ('stepLocal', 10), ('stepGT1', 5), ('stepNuc', 8))], SEED + 17, d, 1 if not big else 6)
        drvp = fb.result()
        ms = [m for f in fm for m in f.result()]
        es = [e for f in fe for e in f.result()]
        ses = [f.result() for f in fs]
        cases = fc.result()
    limit = 0.5 if not big else 1e9
    for n in CORPORA:
        cases += [c for c in load_corpus(n) if c.get('t', 0.1) <= limit]
    cases.sort(key=lambda c: -c.get('t', 0.1))
    seen = set()

    def one(drv, c):
        pre, call, post = case_call(c)
        drv.many(pre)
        out = drv.cmd(call)
        calls = [(call, out)]
        if c['op'] == 'nuc':
            call = 'nucs' + call[3:]
            calls.append((call, drv.cmd(call)))
        drv.many(post)
        for call, out in calls:
            m, ev = parse_M(out)
            if not any(e.startswith('F ') for e in ev):
                continue
            with lock:
                rep.add('evaluations')
                rep.add('entry_' + call.split()[0])
                key = json.dumps([pre, call])
                if key not in seen and m and any(v != 0 for q in m for v in q):
                    seen.add(key)
                    rep.add('distinct')
                for e in ev:
                    if e.startswith('E fortran') or e.startswith('E point'):
                        rep.violation('%s' % e, '\n'.join(['init', 'both 1'] + pre + [call]))
                        break
    for order in (0, 1):
        pool(cases if order == 0 else cases[::4], drvp, one, lock, rep, first=['both 1', 'order %d' % order])

    def entry(drv, e):
        pre = [sh_cmd(0, e['a']), sh_cmd(1, e['b'])]
        call = 'fnorm 0' if e['f'] == 'norm' else 'fovc 0 1 %d %d' % (e['i'], e['j'])
        drv.many(pre)
        out = drv.cmd(call)
        ref = drv.cmd('ov 0 1')
        drv.many(['dsh 0', 'dsh 1'])
        v = float.fromhex(out[-1].split()[1])
        x = float(Fraction(e['v'], S))
        if e['f'] == 'norm':
            tol = 1e-11 * x
        else:
            m, _ = parse_M(ref)
            tol = 1e-11 * max(1.0, max(abs(t) for t in m[0]))
        with lock:
            rep.add('evaluations')
            rep.add('entry_' + e['f'])
            if x != 0:
                rep.add('distinct')
            if not abs(v - x) <= tol:
                rep.violation('%s: library %.17g, exact %.17g' % (call, v, x), '\n'.join(['init'] + pre + [call, '# exact %.17g' % x]))
            elif len(rep.samples) < 3:
                rep.samples.append({'entry': e['f'], 'L': [e['a']['L'], e['b']['L']], 'library': v, 'specification': x})
            for t in out[:-1]:
                rep.violation('%s: %s' % (call, t), '\n'.join(['init'] + pre + [call]))
    pool(es, drvp, entry, lock, rep)

    def fun(drv, m):
        a = chk_models.args(m)
        call = 'fun %s %s' % (m['f'], ' '.join(a))
        integer = m['f'] in ('johnson', 'golovko', 'rms_fermi', 'rms_bubble')
        x = a[1:] if integer else a
        fcall = 'ffun %s %s %d %s' % (m['f'], a[0] if integer else '0', len(x), ' '.join(x))
        o, fo = drv.cmd(call), drv.cmd(fcall)
        with lock:
            rep.add('evaluations')
            rep.add('entry_' + m['f'])
            if call not in seen:
                seen.add(call)
                rep.add('distinct')
            if o[0] != fo[-1] or len(fo) > 1:
                rep.violation('%s: C %s, Fortran %s' % (call, o[0], fo), 'init\n%s\n%s' % (call, fcall))
    pool(ms, drvp, fun, lock, rep)

    # whole sessions with the life cycle, the settings and the calls made through Fortran
    ses += [s for n in ('ses_stepSettings', 'ses_stepOrders', 'ses_stepLife') for s in load_corpus(n)[:None if big else 6]]

    def go(acts):
        c = Session(drvp, acts, first=['both 1'])
        f = Session(drvp, acts, first=['lang 1', 'both 1'])
        return c, f
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, f in ex.map(go, ses):
            rep.add('sessions')
            rep.add('session_steps', len(f.acts))
            rep.add('evaluations', f.fcalls)
            own = set(x for x, t in c.problems if not t.split(': ', 1)[-1].startswith('E fortran'))
            for x, t in f.problems:
                fev = 'E fortran' in t or 'E point' in t
                if fev or (x not in own and x != 'event'):
                    rep.violation('session through the Fortran interface: %s: %s' % (x, t), '\n'.join(f.log))
                    break
            for q in range(min(len(c.results), len(f.results))):
                df = diff(f.results[q][1], c.results[q][1])
                if df:
                    rep.violation('call %d (%s) of a session driven through Fortran differs from the session driven through C: %s' %
                                  (q, f.results[q][0]['key']['op'], df), '\n'.join(f.log))
                    break
    return {'rule': RULE, 'assumptions': ['Fortran calls are made from C with the by-reference convention of the interface blocks in test_libgrpp_f90/libgrpp.f90']}
