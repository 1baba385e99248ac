"""Replays behaviours of spec/cases.qnt into the library."""
import sys, math
from lib import *


def sh_cmd(i, s):
    return 'nsh %d %d %d %s %s' % (i, s['L'], len(s['c']), ' '.join(hx(c) + ' ' + hx(a) for c, a in zip(s['c'], s['al'])),
                                   ' '.join(hx(x) for x in s['o']))


def pt_cmd(i, p):
    # the potential's term is c r^(n-2); the library's power is n
    return 'npt %d %d %d %d %s' % (i, p['L'], p['J'], len(p['t']),
                                   ' '.join('%d %s %s' % (t['n'], hx(t['c']), hx(t['z'])) for t in p['t']))


def v3(v):
    return ' '.join(hx(x) for x in v)


def case_call(c):
    """(setup commands, call command, teardown commands)"""
    pre = [sh_cmd(0, c['a']), sh_cmd(1, c['b'])]
    post = ['dsh 0', 'dsh 1']
    for i, p in enumerate(c['p']):
        pre.append(pt_cmd(i, p)); post.append('dpt %d' % i)
    for i, s in enumerate(c['s']):
        pre.append(sh_cmd(10 + i, s)); post.append('dsh %d' % (10 + i))
    op = c['op']
    base = op[1:] if op[0] == 'g' else op
    call = op + ' 0 1'
    if base in ('t1', 't2', 'so'):
        call += ' %s 0' % v3(c['C'])
    elif base == 'oc':
        call += ' %s %d %s' % (v3(c['C']), len(c['p']), ' '.join('%d %d' % (i, 10 + i) for i in range(len(c['p']))))
    elif base == 'nuc':
        call += ' %s %d %d %s' % (v3(c['C']), c['par'][0], c['par'][1], ' '.join(hx(x) for x in c['par'][2:]))
    if op[0] == 'g':
        call += ' ' + v3(c['P'])
    return pre, call, post


def expected(c):
    return [[e / OUT for e in m] for m in c['exp']]


def run_case(drv, c):
    """returns list of (matrix, element, got, expected) and events"""
    pre, call, post = case_call(c)
    for x in pre:
        drv.cmd(x)
    m, ev = parse_M(drv.cmd(call))
    drv.many(post)
    if m is None:
        return None, ev, (pre, call)
    nb = (c['b']['L'] + 1) * (c['b']['L'] + 2) // 2
    res = []
    for q, e in enumerate(expected(c)):
        for (i, j), x in zip(c['elems'], e):
            res.append((q, (i, j), m[q][i * nb + j], x))
    return res, ev, (pre, call)


# ------------------------------------------------------------------ admitted error
# The library expands both functions about the potential's centre (the method of
# McMurchie-Davidson / the binomial expansion of the semi-local integrals): the result is a sum of
# terms that are as large as the integral over absolute values below, so that rounding of the
# working precision is amplified by that amount.  It only depends on the arguments of the call.
def _gl(n):
    xs, ws = [], []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(50):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-15:
                break
        xs.append(x); ws.append(2 / ((1 - x * x) * dp * dp))
    return xs, ws


_XS, _WS = _gl(60)


def _dist(a, b):
    return math.sqrt(sum((fx(x) - fx(y)) ** 2 for x, y in zip(a, b)))


def _norm(L, al):
    return (2 * al / math.pi) ** .75 * (4 * al) ** (L / 2)


def amplification(c):
    op = c['op']
    grad = op[0] == 'g'
    base = op[1:] if grad else op
    if base in ('ov', 'kin', 'mom'):
        return 0.0
    A, B = c['a'], c['b']
    if base[:3] == 'nuc':
        return _amp(A, B, c['C'], [(1, float(c['par'][0]), 0.0)], grad)
    pt = lambda ps: [[(t['n'], abs(fx(t['c'])), fx(t['z'])) for t in q['t']] for q in ps]
    terms = pt(c['p'])
    more = pt(c.get('loc', []) + c.get('ar', []) + c.get('so', []))
    tot = _amp(A, B, c['C'], [t for q in terms + more for t in q], grad)
    if base in ('oc', 'full') and terms:
        # overlaps and local integrals with the outercore shells, times overlaps
        for q, s in zip(terms, c['s']):
            s = dict(s, o=c['C'])
            tot += _amp(A, s, c['C'], q, grad) + _amp(s, B, c['C'], q, grad)
        tot *= 5
    return tot


def _amp(A, B, C, terms, grad):
    ca, cb = _dist(A['o'], C), _dist(B['o'], C)
    la, lb = A['L'], B['L']
    tot = 0.0
    for c1, a1 in zip(map(fx, A['c']), map(fx, A['al'])):
        for c2, a2 in zip(map(fx, B['c']), map(fx, B['al'])):
            for n, cu, z in terms:
                if c1 * c2 * cu == 0:
                    continue
                p = a1 + a2 + z
                r0 = (a1 * ca + a2 * cb) / p
                w = max(6, la + lb) / math.sqrt(2 * p) * 2
                lo, hi = max(0.0, r0 - w), r0 + w
                h, m = (hi - lo) / 2, (hi + lo) / 2
                v = 0.0
                for x, wt in zip(_XS, _WS):
                    r = h * x + m
                    v += wt * r ** n * (r + ca) ** la * (r + cb) ** lb * math.exp(-a1 * (r - ca) ** 2 - a2 * (r - cb) ** 2 - z * r * r)
                v *= h * abs(c1 * c2 * cu) * _norm(la, a1) * _norm(lb, a2) * 12.57
                if grad:
                    v *= max(1, 2 * a1 * (ca + 1), 2 * a2 * (cb + 1)) * 2
                tot += v
    return tot


ABS_TOL = 1e-10
AMP_TOL = 1e-14
AMP_MAX = 1e5          # worse-conditioned cases are not used


def dirac(L):
    return [(i, j, L - i - j) for i in range(L, -1, -1) for j in range(L - i, -1, -1)]


def clist(order, L):
    d = dirac(L)
    if order == 2:
        return [(L - s - t, s, t) for t in range(L + 1) for s in range(L - t + 1)]
    if order >= 10:
        k = order - 10
        return [d[(i + k) % len(d)] for i in range(len(d))]
    return d


# the radial integrals of the semi-local expansion are themselves only computed to 1e-16 (documented
# screening threshold); each enters with the binomial factors below
def screening(c, ij):
    op = c['op']
    grad = op[0] == 'g'
    base = op[1:] if grad else op
    if base not in ('t2', 'so', 'full'):
        return 0.0
    f = 1.5e-14 * 16 * math.pi ** 2
    for s, i, o in ((c['a'], ij[0], c.get('oa', 0)), (c['b'], ij[1], c.get('ob', 0))):
        e = clist(o, s['L'])[i]
        for k in range(3):
            f *= (abs(fx(s['o'][k] - c['C'][k])) + 0.5) ** e[k]
        if grad:
            f *= max(1.0, 2 * max(map(fx, s['al'])) * (_dist(s['o'], c['C']) + 1))
    return f


# overlap, kinetic energy and momentum: the exponent mu R^2 and the lever arms to the product's centre
# are rounded before they are used, and the kinetic energy is a difference of larger terms
def two_centre(c):
    op = c['op']
    base = op[1:] if op[0] == 'g' else op
    if base not in ('ov', 'kin', 'mom'):
        return 0.0
    A, B = c['a'], c['b']
    R, l = _dist(A['o'], B['o']), A['L'] + B['L']
    far = max([1.0] + [abs(fx(x)) for x in A['o'] + B['o']])
    tot = 0.0
    for c1, a1 in zip(map(fx, A['c']), map(fx, A['al'])):
        for c2, a2 in zip(map(fx, B['c']), map(fx, B['al'])):
            p = a1 + a2
            mu = a1 * a2 / p
            w = 1 / math.sqrt(2 * p)
            ra, rb = R * a2 / p + w * (1 + l / math.e) ** .5, R * a1 / p + w * (1 + l / math.e) ** .5
            v = abs(c1 * c2) * _norm(A['L'], a1) * _norm(B['L'], a2) * (math.pi / p) ** 1.5 * math.exp(-mu * R * R) * ra ** A['L'] * rb ** B['L']
            cond = 1 + l + 2 * mu * R * R + far * (2 * mu * R + A['L'] / ra + B['L'] / rb)
            if base == 'kin':
                v *= 3 * mu * (2 * l + 3 + 2 * mu * R * R)
            elif base == 'mom':
                v *= 2 * mu * R + (l + 1) / w
            if op[0] == 'g':
                v *= 2 * mu * R + (l + 1) / w
            tot += v * cond
    return tot


def tolerance(c, amp, big):
    """tolerance of element ij with value e, as a function"""
    t0 = AMP_TOL * amp + 1e-11 * big + 1e-16 * two_centre(c)
    return lambda ij, e: ABS_TOL * max(1.0, abs(e)) + t0 + screening(c, ij)


def judge(c, res):
    """list of (matrix, element, got, expected, tolerance) that fail"""
    amp = c.get('amp')
    if amp is None:
        amp = amplification(c)
    tol = tolerance(c, amp, max([abs(x[3]) for x in res] + [0.0]))
    bad = []
    for q, ij, got, e in res:
        t = tol(ij, e)
        if not abs(got - e) <= t:
            bad.append((q, ij, got, e, t))
    return bad
