"""python3 gencorpus.py NAME SPEC MAIN STEP BATCHES STEPS SEED0 [--max-time S] [--calib]
Extends corpus/NAME.jsonl.xz with states of the specification generated by `quint run`."""
import sys, lzma, concurrent.futures as cf
from casereplay import *
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('name'); ap.add_argument('step'); ap.add_argument('batches', type=int); ap.add_argument('steps', type=int)
ap.add_argument('seed', type=int); ap.add_argument('--max-time', type=float, default=0.7); ap.add_argument('--jobs', type=int, default=7)
ap.add_argument('--out', default=os.path.join(VERIF, 'corpus'))
a = ap.parse_args()
d = scratch()
drvp = build_driver(d)


def batch(k):
    out = os.path.join(d, 'b%d.json' % k)
    try:
        st = quint_run('cases.qnt', 'cases', a.step, a.steps, a.seed + k, out, timeout=3600)
    except Exception as e:
        print('batch', k, 'failed', str(e)[:300]); return [], 0
    drv = Driver(drvp, timeout=3600); drv.cmd('init')
    r = []; skipped = [0, 0]; bad = []
    for s in st:
        c = s['c']
        if c['op'] == 'none':
            continue
        amp = amplification(c)
        if amp > AMP_MAX:
            skipped[0] += 1; continue
        c['amp'] = float('%.3g' % amp)
        t = time.time()
        try:
            res, ev, rep = run_case(drv, c)
        except Crash as e:
            print('CRASH', str(e)[:300]); drv = Driver(drvp, timeout=3600); drv.cmd('init'); bad.append(('crash',)); r.append(c); continue
        t = time.time() - t
        if t > a.max_time:
            skipped[1] += 1; continue
        c['t'] = round(t, 3)
        b = judge(c, res)
        if b or ev:
            bad.append((c['op'], c['a']['L'], c['b']['L'], [(p['L'], [(x['n'], fx(x['z'])) for x in p['t']]) for p in c['p']], _dist_(c), c['par'][:3], '%.1e' % amp, b[:1], ev, '#%d' % len(r)))
        r.append(c)
    drv.close()
    os.remove(out)
    return r, (skipped, bad)


def _dist_(c):
    from casereplay import _dist
    return round(_dist(c['a']['o'], c['C']), 2), round(_dist(c['b']['o'], c['C']), 2), round(_dist(c['a']['o'], c['b']['o']), 2)


os.makedirs(a.out, exist_ok=True)
path = os.path.join(a.out, a.name + '.jsonl.xz')
old = []
if os.path.exists(path):
    with lzma.open(path, 'rt') as f:
        old = f.read().splitlines()
tot = [0, 0]; allbad = []
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for r, x in ex.map(batch, range(a.batches)):
        for c in r:
            c.pop('nm', None); c.pop('scale', None)
            old.append(json.dumps(c, separators=(',', ':')))
        if x:
            tot[0] += x[0][0]; tot[1] += x[0][1]; allbad += x[1]
with lzma.open(path, 'wt') as f:
    f.write('\n'.join(old) + '\n')
print(a.name, a.step, 'cases', len(old), 'ill', tot[0], 'slow', tot[1], 'bad', len(allbad))
for b in allbad[:12]:
    print('   BAD', b)
