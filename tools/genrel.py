"""python3 genrel.py NAME STEP BATCHES STEPS SEED0: extends corpus/NAME.jsonl.xz with behaviours of relations.qnt"""
import sys, lzma, concurrent.futures as cf, argparse
from relreplay import *
ap = argparse.ArgumentParser()
ap.add_argument('name'); ap.add_argument('step'); ap.add_argument('batches', type=int); ap.add_argument('steps', type=int)
ap.add_argument('seed', type=int); ap.add_argument('--max-time', type=float, default=1.0); ap.add_argument('--jobs', type=int, default=3)
ap.add_argument('--out', default=os.path.join(VERIF, 'corpus'))
a = ap.parse_args()
d = scratch()
drvp = build_driver(d)


def batch(k):
    out = os.path.join(d, 'b%d.json' % k)
    st = quint_run('relations.qnt', 'relations', a.step, a.steps, a.seed + k, out, timeout=3600)
    drv = Driver(drvp, timeout=3600); drv.cmd('init')
    res, sk, bad = [], [0, 0], []
    for s in st:
        r = s['r']
        if r['kind'] == 'none':
            continue
        r['amp'] = [float('%.3g' % amplification(c)) for c in r['calls']]
        if max(r['amp']) > AMP_MAX:
            sk[0] += 1; continue
        t = time.time()
        x, ev, txt = run_rel(drv, r)
        t = time.time() - t
        if t > a.max_time:
            sk[1] += 1; continue
        r['t'] = round(t, 3)
        b = bad_of(x)
        if b or ev:
            bad.append((r['kind'], r['calls'][0]['op'], r['calls'][0]['a']['L'], r['calls'][0]['b']['L'], r['amp'], b[:1], ev, len(res)))
        res.append(r)
    drv.close()
    os.remove(out)
    return res, sk, bad


os.makedirs(a.out, exist_ok=True)
path = os.path.join(a.out, a.name + '.jsonl.xz')
old = []
if os.path.exists(path):
    with lzma.open(path, 'rt') as f:
        old = f.read().splitlines()
tot = [0, 0]; ab = []
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for r, s, b in ex.map(batch, range(a.batches)):
        old += [json.dumps(x, separators=(',', ':')) for x in r]
        tot[0] += s[0]; tot[1] += s[1]; ab += b
with lzma.open(path, 'wt') as f:
    f.write('\n'.join(old) + '\n')
print(a.name, a.step, 'relations', len(old), 'ill', tot[0], 'slow', tot[1], 'bad', len(ab))
for b in ab[:15]:
    print('   BAD', str(b)[:500])
