"""Properties decided by the relations of spec/relations.qnt between results of different calls."""
import concurrent.futures as cf, queue, threading
from relreplay import *

# property -> (corpora, live steps (step, transitions, runs))
PLAN = {
    'C10': (['rel_pairs'], [('stepPairs', 15, 2)]),
    'C11': (['rel_parts'], [('stepParts', 25, 4)]),
    'C12': (['rel_symmetry'], [('stepSymmetry', 25, 6)]),
    'C13': (['rel_linear'], [('stepLinear', 25, 4)]),
    'C14': (['rel_order'], [('stepOrder', 25, 3)]),
    'C15': (['rel_centres'], [('stepCentres', 20, 3)]),
    'C16': (['rel_centres'], [('stepCentres', 20, 1)]),
    'C17': (['rel_nuc'], [('stepNucRel', 20, 2)]),
}
ONLY = {'C16': ('gov',), 'C15': ('gt1', 'gt2', 'gso', 'goc', 'gfull')}
RULE = ('relations are transitions of spec/relations.qnt: calls (drawn by operator, angular momenta, placement class, contraction) '
        'and a transformation of their arguments with a known effect on the result; all elements of all matrices are compared; '
        'distinct: the relation is between different sets of calls; non-trivial: some element exceeds 1e-9')


def live_rels(steps, seed, d, mult=1):
    jobs = []
    for step, n, runs in steps:
        for k in range(runs * mult):
            # the relations themselves are checked on the exact values of the specification (expensive)
            inv = k % runs == 0
            jobs.append((step, n, seed * 1000 + 500 + len(jobs), 'relationHolds' if inv else None))

    def go(j):
        step, n, sd, inv = j
        out = os.path.join(d, 'rel_%s_%d.json' % (step, sd))
        r = [s['r'] for s in quint_run('relations.qnt', 'relations', step, n, sd, out, timeout=3000, invariant=inv) if s['r']['kind'] != 'none']
        os.remove(out)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return [c for r in ex.map(go, jobs) for c in r]


def replay_rels(rep, drvpath, rels, ndrv=NCPU):
    q = queue.Queue()
    for r in sorted(rels, key=lambda r: -r.get('t', 0.1)):
        q.put(r)
    lock = threading.Lock()
    seen = set()

    def work():
        drv = None
        while True:
            try:
                r = q.get_nowait()
            except queue.Empty:
                break
            if len(rep.viol) > 50:
                continue
            if drv is None:
                drv = Driver(drvpath); drv.cmd('init')
            try:
                res, ev, txt = run_rel(drv, r)
            except Crash as e:
                with lock:
                    rep.violation('a call of relation %s did not return: %s' % (r['kind'], e), '\n'.join(['init'] + drv.log[-40:]))
                drv = None
                continue
            with lock:
                rep.add('evaluations')
                rep.add('calls', len(r['calls']))
                rep.add('elements_compared', len(res or []))
                rep.add('relations_' + r['kind'])
                key = '\n'.join(txt)
                if key not in seen:
                    seen.add(key)
                    if res and (max(abs(x[3]) for x in res) > 1e-9 or r['kind'] in ('zero-potential', 'no-centre', 'empty')):
                        rep.add('distinct')
                    if res and len(rep.samples) < 3:
                        x = res[-1]
                        rep.samples.append({'relation': r['kind'], 'calls': [c['op'] for c in r['calls']], 'L': [r['calls'][0]['a']['L'], r['calls'][0]['b']['L']],
                                            'matrix': x[0], 'element': list(x[1]), 'left': x[2], 'right': x[3]})
            if res is None:
                with lock:
                    rep.violation('no output', '\n'.join(txt))
                continue
            b = bad_of(res)
            if b:
                qn, ij, x, y, tol = b[0]
                with lock:
                    rep.violation('relation %s (%s): matrix %d element %s: %.15g, must equal %.15g of the transformed calls, tolerance %.2g (%d of %d elements)' %
                                  (r['kind'], r['calls'][0]['op'], qn, ij, x, y, tol, len(b), len(res)), '\n'.join(txt))
        if drv:
            drv.close()
    with cf.ThreadPoolExecutor(ndrv) as ex:
        for f in [ex.submit(work) for _ in range(ndrv)]:
            f.result()


def rel_part(pid, tier, rep, d, drvp, mult):
    corp, steps = PLAN[pid]
    live = live_rels(steps, SEED, d, mult)
    rels = [r for n in corp for r in load_corpus(n)] + [r for r in live if max(amplification(c) for c in r['calls']) <= AMP_MAX]
    if pid in ONLY:
        rels = [r for r in rels if r['calls'][0]['op'] in ONLY[pid]]
    replay_rels(rep, drvp, rels)


def run(pid, tier, rep):
    d = scratch()
    with cf.ThreadPoolExecutor(1) as ex:
        drvp = build_driver(d)
    rel_part(pid, tier, rep, d, drvp, 1 if tier == 'quick' else 15)
    return {'rule': RULE, 'assumptions': ['relations hold between results within the accuracy of the method (DESIGN.md, Accuracy)',
                                          'that the relations hold for the exact values is an invariant checked on the specification']}
