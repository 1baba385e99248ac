"""Properties whose deciding oracle is the exact value computed by spec/cases.qnt."""
import concurrent.futures as cf, queue
from casereplay import *
import chk_rel

# property -> corpora, ops, live steps (step, number of transitions, runs)
PLAN = {
    'C05': (['overlap'], ('ov',), [('stepOverlap', 40, 2), ('stepWideOv', 15, 1)]),
    'C06': (['kinmom'], ('kin', 'mom'), [('stepKinetic', 30, 1), ('stepMomentum', 30, 1), ('stepWideKinMom', 12, 1)]),
    'C07': (['type1'], ('t1',), [('stepLocal', 16, 3), ('stepWideT1', 8, 1)]),
    'C08': (['type2'], ('t2',), [('stepSemi', 10, 2), ('stepSemiOdd', 6, 1), ('stepSemiHighProj', 6, 1), ('stepWideT2', 6, 1), ('stepSemiConc', 4, 1)]),
    'C09': (['so'], ('so',), [('stepSO', 8, 2), ('stepSOOdd', 5, 1), ('stepSOHighProj', 5, 1), ('stepWideSO', 4, 1), ('stepSOConc', 4, 1)]),
    'C10': (['oc'], ('oc',), [('stepOC', 12, 3), ('stepWideOC', 6, 1)]),
    'C15': (['gpp'], ('gt1', 'gt2', 'gso', 'goc'), [('stepGT1', 10, 1), ('stepGT2', 8, 1), ('stepGSO', 8, 1), ('stepGOC', 8, 1)]),
    'C16': (['gov'], ('gov',), [('stepGradOverlap', 30, 2)]),
    'C17': (['nuc'], ('nuc',), [('stepNuc', 14, 3)]),
}
RULE = ('cases are transitions of spec/cases.qnt (random walk over angular momenta, placement classes, contractions and '
        'potentials); each is a distinct library call whose listed elements are compared with the exact values of the '
        'specification; non-trivial: some expected element exceeds 1e-9 in magnitude')


def describe(c):
    s = lambda x: {'L': x['L'], 'o': [fx(v) for v in x['o']], 'prim': [[fx(p), fx(q)] for p, q in zip(x['c'], x['al'])]}
    return {'op': c['op'], 'bra': s(c['a']), 'ket': s(c['b']), 'C': [fx(v) for v in c['C']], 'P': [fx(v) for v in c['P']],
            'pot': [{'L': p['L'], 'J': p['J'], 'terms': [[t['n'], fx(t['c']), fx(t['z'])] for t in p['t']]} for p in c['p']],
            'oc': [s(x) for x in c['s']], 'par': [fx(v) if k > 1 else v for k, v in enumerate(c['par'])]}


def live_cases(steps, seed, d, mult=1):
    jobs = []
    for step, n, runs in steps:
        for k in range(runs * mult):
            jobs.append((step, n, seed * 1000 + len(jobs)))

    def go(j):
        step, n, sd = j
        out = os.path.join(d, 'live_%s_%d.json' % (step, sd))
        r = [s['c'] for s in quint_run('cases.qnt', 'cases', step, n, sd, out, timeout=3000) if s['c']['op'] != 'none']
        os.remove(out)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return [c for r in ex.map(go, jobs) for c in r]


def replay_all(rep, drvpath, cases, ops=None, ndrv=NCPU, env=None, values=True, events=(), timeout=700):
    """replay cases on ndrv drivers; violations of values / listed events / crashes are reported"""
    q = queue.Queue()
    for c in sorted(cases, key=lambda c: -c.get('t', 0.1)):
        q.put(c)
    seen = set()
    import threading
    lock = threading.Lock()

    def work():
        drv = None
        while True:
            try:
                c = q.get_nowait()
            except queue.Empty:
                break
            if len(rep.viol) > 50:
                continue
            if drv is None:
                drv = Driver(drvpath, env=env, timeout=timeout)
                drv.cmd('init')
            try:
                res, ev, (pre, call) = run_case(drv, c)
            except Crash as e:
                pre, call, _ = case_call(c)
                with lock:
                    rep.violation('call did not return: ' + str(e), '\n'.join(['init'] + pre + [call]))
                drv = None
                continue
            with lock:
                rep.add('evaluations')
                rep.add('elements_compared', len(res or []))
                key = json.dumps([pre, call])
                if key not in seen:
                    seen.add(key)
                    if res and max(abs(x[3]) for x in res) > 1e-9:
                        rep.add('distinct')
                    if len(rep.samples) < 3 and res:
                        rep.samples.append({'case': describe(c), 'element': list(res[-1][:2]), 'library': res[-1][2], 'specification': res[-1][3]})
            if values:
                if res is None:
                    rep.violation('no output', '\n'.join(['init'] + pre + [call])); continue
                bad = judge(c, res)
                if bad:
                    qn, ij, got, e, tol = bad[0]
                    with lock:
                        rep.violation('%s: matrix %d element %s: library %.15g, exact %.15g, tolerance %.2g (%d of %d elements wrong)' %
                                      (c['op'], qn, ij, got, e, tol, len(bad), len(res)),
                                      '\n'.join(['init'] + pre + [call, '# exact: matrix %d element %s = %.17g' % (qn, ij, e)]))
            for e in ev:
                if any(e.startswith('E ' + k) for k in events):
                    with lock:
                        rep.violation('%s: %s' % (c['op'], e), '\n'.join(['init'] + pre + [call]))
        if drv:
            drv.close()
    with cf.ThreadPoolExecutor(ndrv) as ex:
        for f in [ex.submit(work) for _ in range(ndrv)]:
            f.result()


def run(pid, tier, rep):
    corp, ops, steps = PLAN[pid]
    d = scratch()
    mult = 1 if tier == 'quick' else 12
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(build_driver, d)
        live = live_cases(steps, SEED, d, mult)
        drvp = fb.result()
    cases = []
    for n in corp:
        cases += [c for c in load_corpus(n) if c['op'] in ops]
    rep.add('corpus_behaviours', len(cases))
    live = [c for c in live if amplification(c) <= AMP_MAX]
    rep.add('live_behaviours', len(live))
    replay_all(rep, drvp, cases + live)
    if pid in chk_rel.PLAN:
        chk_rel.rel_part(pid, tier, rep, d, drvp, mult)
    return {'rule': RULE, 'assumptions': [
        'tolerance: 1e-10 relative to max(1,|value|), plus 1e-14 times the rounding amplification of the two-centre expansion '
        'and the 1e-16 screening threshold of the radial integrals (DESIGN.md, Accuracy)',
        'library compiled with gcc -O2 -fopenmp; elements sampled for large matrices']}
