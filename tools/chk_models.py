"""C18: functions of the nuclear charge models against the exact values of spec/models.qnt."""
import concurrent.futures as cf
from casereplay import *

RULE = ('evaluations are transitions of spec/models.qnt: one function of the public interface (density, potential, rms radius, estimator) '
        'with arguments in every regime (inside, at and outside the surface, all ranges of c/a, bubble parameters, fm and atomic units); '
        'distinct function/argument tuples are counted; non-trivial: a non-zero value')
EXACT = ('v_point', 'johnson', 'golovko', 'rho_ball', 'v_ball', 'rho_gauss', 'v_gauss')


def args(m):
    x = [hx(v) for v in m['x']]
    f = m['f']
    if f == 'est_fermi':
        return x
    if f in ('johnson', 'golovko'):
        return [str(m['n'])]
    if f.startswith('rms'):
        return [str(m['n'])] + x
    return [x[0], float(m['n']).hex()] + x[1:]


def scale(m):
    # the specification is exact to 1e-79 of the largest value
    return max(1.0, m['n'] / fx(m['x'][-1 if m['f'] in EXACT else 1]) ** 3) if m['f'].startswith('rho') else 1.0


def tolerance(m, e):
    f = m['f']
    if f in EXACT:
        # arguments of exp reach a few hundred
        return 1e-12 * abs(e) + 1e-70 * scale(m)
    t = 1e-10 * abs(e) + 1e-70 * scale(m)
    if f in ('v_fermi', 'v_bubble'):
        r, c, a = (fx(v) for v in m['x'][:3])
        k = fx(m['x'][3]) if f == 'v_bubble' else 0.0
        # S_k is tabulated to a few 1e-12: the terms cancel for r << c, and the sum is divided by r
        t += 5e-11 * m['n'] / r * (a / c) ** 2 * (1 + abs(k))
    return t


def judge(m, line):
    v = line.split()
    if m['f'] == 'est_fermi':
        rc, c, a = int(v[1]), float.fromhex(v[2]), float.fromhex(v[3])
        ec, ea = (fx(x) for x in m['v'])
        R = fx(m['x'][0])
        # decision boundary: c^2 is a difference of numbers of the size of R^2
        if abs((ec * ec if m['ok'] else -1.0)) < 1e-13 * R * R:
            return None
        if not m['ok']:
            return None if rc == -1 else 'no parameters exist for R = %.17g but %d is returned' % (R, rc)
        if rc != 1:
            return 'parameters exist for R = %.17g but %d is returned' % (R, rc)
        if abs(a - ea) > 1e-13 * ea or abs(c * c - ec * ec) > 1e-13 * R * R:
            return 'R = %.17g: c, a = %.17g, %.17g; exact %.17g, %.17g' % (R, c, a, ec, ea)
        return None
    got = float.fromhex(v[1])
    e = float(Fraction(m['v'][0], S))
    t = tolerance(m, e)
    if not abs(got - e) <= t:
        return 'library %.17g, exact %.17g, tolerance %.2g' % (got, e, t)
    return None


def run(pid, tier, rep):
    d = scratch()
    n, runs = (1500, 7) if tier == 'quick' else (6000, 32)

    def go(k):
        out = os.path.join(d, 'm%d.json' % k)
        r = [s['m'] for s in quint_run('models.qnt', 'models', 'step', n, SEED * 1000 + k, out, timeout=3000, invariant='signs') if s['m']['f'] != 'none']
        os.remove(out)
        return r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fb = ex.submit(build_driver, d)
        ms = [m for r in ex.map(go, range(runs)) for m in r]
        drvp = fb.result()
    drv = Driver(drvp)
    seen = set()
    byfun = {}
    for m in ms:
        call = 'fun %s %s' % (m['f'], ' '.join(args(m)))
        if m['f'] == 'rho_ball' and abs(fx(m['x'][0]) - fx(m['x'][1]) * (5 / 3) ** 0.5) < 1e-14 * fx(m['x'][0]):
            continue
        try:
            o = drv.cmd(call)
        except Crash as e:
            rep.violation('call did not return: ' + str(e), 'init\n' + call)
            drv = Driver(drvp)
            continue
        rep.add('evaluations')
        if call not in seen:
            seen.add(call)
            if m['v'][0] != 0 or not m['ok']:
                rep.add('distinct')
                byfun[m['f']] = byfun.get(m['f'], 0) + 1
        bad = judge(m, o[0])
        if bad:
            rep.violation('%s: %s' % (call, bad), 'init\n%s\n# %s' % (call, bad))
        elif byfun.get(m['f']) == 3 and len(rep.samples) < 6:
            rep.samples.append({'call': call, 'library': o[0], 'specification': [float(Fraction(v, S)) for v in m['v']], 'ok': m['ok']})
    drv.close()
    for k, v in sorted(byfun.items()):
        rep.add('fun_' + k, v)
    return {'rule': RULE, 'assumptions': ['relative tolerance 1e-12 for closed formulae, 1e-10 for Fermi models plus the accuracy of the S_k tables '
                                          '(DESIGN.md, Accuracy); arguments in the physical range c/a >= 2.5']}
