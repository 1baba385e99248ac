"""Replays behaviours of spec/relations.qnt into the library."""
from casereplay import *


def sh_cmds(i, s, order):
    r = []
    if 0 < order < 10:
        r.append('order %d' % order)
    r.append(sh_cmd(i, s))
    if 0 < order < 10:
        r.append('order 0')
    if order >= 10:
        r.append('setlist %d %d' % (i, order - 10))
    return r


def rel_call(c):
    pre = sh_cmds(0, c['a'], c['oa']) + sh_cmds(1, c['b'], c['ob'])
    post = ['dsh 0', 'dsh 1']
    for i, p in enumerate(c['p']):
        pre.append(pt_cmd(100 + i, p))
    for i, s in enumerate(c['s']):
        pre += sh_cmds(200 + i, s, c['os'][i])
    op = c['op']
    base = op[1:] if op[0] == 'g' else op
    call = op + ' 0 1'
    n = len(c['p'])
    if base == 'full':
        pre.append('ngr 0')
        k = 300
        for cmd, ps in (('gl', c['loc']), ('ga', c['ar']), ('gs', c['so'])):
            for p in ps:
                pre += [pt_cmd(k, p), '%s 0 %d' % (cmd, k)]
                k += 1
        for i in range(n):
            pre.append('go 0 %d %d' % (100 + i, 200 + i))
        call += ' %s 0' % v3(c['C'])
        post.append('dgr 0')
    else:
        if base in ('t1', 't2', 'so'):
            call += ' %s 100' % v3(c['C'])
        elif base == 'oc':
            call += ' %s %d %s' % (v3(c['C']), n, ' '.join('%d %d' % (100 + i, 200 + i) for i in range(n)))
        elif base[:3] == 'nuc':
            call += ' %s %d %d %s' % (v3(c['C']), c['par'][0], c['par'][1], ' '.join(hx(x) for x in c['par'][2:]))
        post += ['dpt %d' % (100 + i) for i in range(n)] + ['dsh %d' % (200 + i) for i in range(len(c['s']))]
    if op[0] == 'g':
        call += ' ' + v3(c['P'])
    return pre, call, post


def run_rel(drv, r):
    """list of residuals (matrix, (i, j), target value, sum of terms, tolerance), events, replay text"""
    ms, evs, txt = [], [], ['init']
    for c in r['calls']:
        pre, call, post = rel_call(c)
        for x in pre:
            drv.cmd(x)
        m, ev = parse_M(drv.cmd(call))
        drv.many(post)
        txt += pre + [call] + post
        ms.append(m); evs += ev
    if any(m is None for m in ms):
        return None, evs, txt
    c0 = r['calls'][0]
    amps = r.get('amp') or [amplification(c) for c in r['calls']]
    tols = [tolerance(c, a, max([abs(v) for q in m for v in q] + [0.0])) for c, a, m in zip(r['calls'], amps, ms)]
    ncols = [(c['b']['L'] + 1) * (c['b']['L'] + 2) // 2 for c in r['calls']]
    exact = r['kind'] in ('specific', 'zero-potential', 'no-centre', 'empty')
    res = []
    for q, links in enumerate(r['target']):
        for i in range(len(r['ri'])):
            for j in range(len(r['ci'])):
                sg = r['rs'][i] * r['cs'][j]
                si, sj = (r['ci'][j], r['ri'][i]) if r['tr'] else (r['ri'][i], r['ci'][j])
                x = ms[0][q][i * ncols[0] + j]
                s, tol = 0.0, tols[0]((i, j), x)
                for t in links:
                    w = fx(t['w'])
                    v = ms[t['k']][t['q']][si * ncols[t['k']] + sj]
                    s += sg * w * v
                    if r['kind'] != 'scale':  # the magnitude of everything computed on the way is the same
                        tol += abs(w) * tols[t['k']]((si, sj), v)
                if exact:  # nothing but rounding may differ
                    tol = 1e-14 + 1e-13 * abs(s)
                res.append((q, (i, j), x, s, tol))
    return res, evs, txt


def bad_of(res):
    return [x for x in res if not abs(x[2] - x[3]) <= x[4]]
