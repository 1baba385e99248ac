"""python3 genses.py MIX RUNS LENGTH SEED0: adds to corpus/ses_MIX.jsonl.xz (one behaviour per line)"""
import lzma
from chk_ses import *
mix, runs, length, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
d = scratch()
drvp = build_driver(d)
ss = live_sessions(mix, runs, length, seed, d)
old = load_corpus('ses_' + mix)
with lzma.open(os.path.join(VERIF, 'corpus', 'ses_%s.jsonl.xz' % mix), 'wt') as f:
    for s in old + ss:
        f.write(json.dumps(s, separators=(',', ':')) + '\n')
rep = Report('gen', 'quick', '')
replay_sessions(rep, drvp, ss, ('state', 'params', 'order', 'object', 'same', 'near', 'event', 'leak', 'badfree', 'crash', 'fresh'), True)
print(mix, rep.counts)
for w, r in rep.viol[:8]:
    print('  BAD', w[:600])
