"""Evidence files (schema: /root/.vp/EVIDENCE.schema.json)."""
import json, os, time


def make(rep, rc, extra):
    import lib
    extra = dict(extra or {})
    level = extra.pop('level', 'exploration')
    assumptions = extra.pop('assumptions', [])
    cov = {}
    if level == 'exploration':
        cov['evaluations'] = rep.counts.get('evaluations', 0)
        cov['distinct_nontrivial'] = rep.counts.get('distinct', 0)
        cov['rule'] = extra.pop('rule', '')
        cov['samples'] = rep.samples[:4]
    else:
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov[k] = rep.counts.get(k, 0)
        cov['samples'] = rep.samples[:4]
    cov.update({k: v for k, v in rep.counts.items() if k not in ('evaluations', 'distinct', 'states', 'transitions',
                                                                 'traces_validated_against_impl')})
    cov.update(extra)
    if rep.notes:
        cov['notes'] = rep.notes[:20]
    d = {'property': rep.pid, 'tier': rep.tier, 'seed': lib.SEED, 'level': level, 'coverage': cov,
         'assumptions': assumptions, 'wall_s': round(time.time() - rep.t0, 2), 'violations': len(rep.viol)}
    p = os.path.join(lib.VERIF, 'evidence', rep.pid + '.json')
    with open(p, 'w') as f:
        json.dump(d, f, indent=1)
