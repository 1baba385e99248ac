"""Properties decided by replaying behaviours of spec/session.qnt: each step of the library's life is
compared with what the specification says a user may rely on."""
import concurrent.futures as cf
from sesreplay import *
import chk_rel

# property -> (mix, live behaviours, length, problem classes that break the property, fresh process check)
PLAN = {
    'C02': ('stepLife', 4, 90, ('state', 'same', 'fresh', 'leak', 'badfree', 'crash'), True),
    'C03': ('stepPure', 6, 100, ('event', 'same', 'fresh', 'leak', 'crash'), True),
    'C04': ('stepObjects', 6, 120, ('object', 'order', 'leak', 'badfree', 'crash'), False),
    'C14': ('stepOrders', 4, 90, ('order', 'same', 'crash'), False),
    'C21': ('stepSettings', 4, 90, ('params', 'order', 'same', 'near', 'fresh', 'crash'), True),
}
RULE = ('behaviours are random walks of spec/session.qnt (life cycle, settings, object operations, calls with their history); '
        'every step is one library operation and every observable the state determines is compared; distinct: different actions; '
        'non-trivial: the action has an observable (dump, query, call)')


def live_sessions(mix, runs, length, seed, d):
    def go(k):
        out = os.path.join(d, 'ses_%s_%d.json' % (mix, k))
        quint_run('session.qnt', 'session', mix, length, seed * 1000 + 700 + k, out, timeout=3000)
        r = load_sessions(out)
        os.remove(out)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(go, range(runs)))


def replay_sessions(rep, drvp, sessions, classes, fresh):
    seen = set()

    def go(acts):
        return Session(drvp, acts, fresh=fresh)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for s in ex.map(go, sessions):
            rep.add('behaviours')
            rep.add('library_calls', s.calls)
            for a in s.acts:
                rep.add('evaluations')
                rep.add('act_' + a['op'])
                k = json.dumps(a, sort_keys=True)
                if k not in seen and a['op'] in ('dumps', 'dumpp', 'dumpg', 'isinit', 'init', 'finalize', 'params', 'call', 'again'):
                    seen.add(k)
                    rep.add('distinct')
            rep.add('repeated_calls_compared', sum(1 for a in s.acts if a['same'] >= 0))
            rep.add('settings_comparisons', sum(1 for a in s.acts if a['near'] >= 0))
            if len(rep.samples) < 2:
                rep.samples.append({'actions': [a['op'] for a in s.acts[:40]], 'calls': [a['key']['op'] for a in s.acts if a['op'] in ('call', 'again')][:20]})
            for c, t in s.problems:
                if c in classes:
                    rep.violation('%s: %s' % (c, t), '\n'.join(s.log))
                    break


def ses_part(pid, tier, rep, d, drvp):
    mix, runs, length, classes, fresh = PLAN[pid]
    live = live_sessions(mix, runs if tier == 'quick' else 10 * runs, length if tier == 'quick' else 2 * length, SEED, d)
    sessions = load_corpus('ses_' + mix) + live
    replay_sessions(rep, drvp, sessions, classes, fresh)


def run(pid, tier, rep):
    d = scratch()
    drvp = build_driver(d)
    ses_part(pid, tier, rep, d, drvp)
    if pid in chk_rel.PLAN:
        chk_rel.rel_part(pid, tier, rep, d, drvp, 1 if tier == 'quick' else 15)
    return {'rule': RULE, 'assumptions': ['the driver projects library objects through their public structures (libgrpp.h)',
                                          'heap accounting wraps malloc/calloc/realloc/free of the library and the driver']}
