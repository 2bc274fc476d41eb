"""P11: binned observables agree with their differential counterparts."""
import re
import numpy as np
from lib import obs as O
from lib import npwc

RULE = ('every binned observable: bins of random position and width, narrow bins, bins split in two, bins across the kinematic limits, full range; Standard Model and random new physics, '
        'compared with averages of the differential observable from an independent 32-point Gauss-Legendre quadrature weighted with the predicted rate; distinct by (observable, bin, new physics)')
ASSUMPTIONS = ['the adaptive quadrature of the library aims at 0.5% per integral; averages are compared within 1.5% (of the sum of absolute values for quantities that change sign)',
               'bins of b->sll modes stay on one side of the narrow charmonium resonances, as the theory input requires']
MIN = {'average': 400, 'narrow': 400, 'split': 400, 'limits': 100, 'angle': 60}

X, W = np.polynomial.legendre.leggauss(32)


def nodes(a, b):
    return 0.5 * (b - a) * X + 0.5 * (a + b), 0.5 * (b - a) * W


def diffname(n):
    """name of the differential observable"""
    if n.startswith('<BR>('):
        return 'dBR/dq2' + n[4:]
    if n.startswith('<BR_'):
        return 'd' + n[1:5] + '/dq2' + n[6:]
    if '/<' in n:
        return n.replace('<BR>/<', 'dBR/d').replace('>(', '(', 1)
    return n[1:].replace('>(', '(', 1)


def sub(n, f):
    i = n.index('(')
    return f + n[i:]


def lepmode(n, i, lep):
    """rate observable(s) for a definite lepton flavour of a ratio observable"""
    import flavio
    proc = n[n.index('('):]
    new = proc[:-len(i.lep) - 1] + {'ll': lep * 2, 'lnu': lep + 'nu'}[i.lep] + ')'
    import flavio
    if 'dBR/dq2' + new not in flavio.Observable.instances and new.startswith('(B->'):
        new = '(B0' + new[2:]       # isospin-symmetric name: the prediction is the one of the neutral mode
    return 'dBR/dq2' + new


def breaks(i, lo, hi):
    """points where a differential observable may be discontinuous"""
    return [x for x in (6., 8.7, 9., 14.) if lo < x < hi]


def bins(rng, n, i):
    a, b = O.draw_args(n, rng, i)
    return a, b


class Ev:
    def __init__(self, wc):
        self.wc = wc
        self.par = O.par()
        self.memo = {}

    def __call__(self, name, *a):
        k = (name, a)
        if k not in self.memo:
            import flavio
            self.memo[k] = float(flavio.Observable[name].prediction_par(self.par, self.wc, *a))
        return self.memo[k]


def rate_of(n, i):
    """(numerator, denominator) as functions f(ev, q2), so that <n> = int num / int den; None if not of this kind"""
    import flavio
    pre = i.pre.strip('<>')
    d = diffname(n)
    if pre in ('Rmue', 'Rtaumu'):
        hi, lo = ('mu', 'e') if pre == 'Rmue' else ('tau', 'mu')
        nu, de = lepmode(n, i, hi), lepmode(n, i, lo)
        if nu in flavio.Observable.instances and de in flavio.Observable.instances:
            return (lambda ev, q: ev(nu, q)), (lambda ev, q: ev(de, q))
        return None
    if pre == 'Rtaul':
        nu, d1, d2 = [lepmode(n, i, x) for x in ('tau', 'e', 'mu')]
        return (lambda ev, q: ev(nu, q)), (lambda ev, q: .5 * (ev(d1, q) + ev(d2, q)))
    if re.match(r'S\d|S_|A\d|A_|A6s|FL$|AFB|ACP$|FH$', pre):
        r = 'dBR/dq2' + n[n.index('('):]
        if d in flavio.Observable.instances and r in flavio.Observable.instances:
            return (lambda ev, q: ev(d, q) * ev(r, q)), (lambda ev, q: ev(r, q))
    return None


def integral(f, a, b, i):
    tot = tabs = 0.
    edges = [a] + breaks(i, a, b) + [b]
    for x, y in zip(edges[:-1], edges[1:]):
        q, w = nodes(x, y)
        v = np.array([f(float(t)) for t in q])
        tot += float(np.sum(w * v))
        tabs += float(np.sum(w * abs(v)))
    return tot, tabs


def averages(m, rng, names, reps):
    import flavio
    evs = [Ev(flavio.physics.eft._wc_sm)] + [Ev(npwc.wet(rng, 4.8, density=d)) for d in (1., .3)]
    for n in names:
        i = O.info(n)
        pre = i.pre
        d = diffname(n)
        for rep in range(reps):
            k = int(rng.integers(len(evs)))
            ev = evs[k]
            ev.memo.clear()
            a, b = bins(rng, n, i)
            w = dict(observable=n, args=(a, b), np=k)
            try:
                got = ev(n, a, b)
                if re.match(r'<(dBR|BR)', pre):
                    tot, ta = integral(lambda q: ev(d, q), a, b, i)
                    if pre.startswith('<dBR'):
                        tot, ta = tot / (b - a), ta / (b - a)
                    m.check(abs(got - tot) <= .01 * ta, 'average', 'binned rate is %r, integrating the differential rate gives %r' % (got, tot), **w)
                    m.event('average', (n, a, b, k))
                else:
                    f = rate_of(n, i)
                    if f:
                        nu, na = integral(lambda q: f[0](ev, q), a, b, i)
                        de, da = integral(lambda q: f[1](ev, q), a, b, i)
                        m.check(abs(got - nu / de) <= .015 * na / de + 1e-7, 'average', 'binned observable is %r, the ratio of integrals of the differential one is %r' % (got, nu / de), **w)
                        m.event('average', (n, a, b, k))
                # adjacent bins
                if rep < 2:
                    c = float(rng.uniform(a + .25 * (b - a), b - .25 * (b - a)))
                    x, y = ev(n, a, c), ev(n, c, b)
                    if pre.startswith('<BR'):
                        m.check(abs(x + y - got) <= .01 * (abs(x) + abs(y)), 'split', 'bins %r + %r do not add up to %r' % (x, y, got), cut=c, **w)
                        m.event('split', (n, a, b, k))
                    elif pre.startswith('<dBR'):
                        t = (x * (c - a) + y * (b - c)) / (b - a)
                        m.check(abs(t - got) <= .01 * abs(t), 'split', 'bin averages %r, %r do not combine to %r' % (x, y, got), cut=c, **w)
                        m.event('split', (n, a, b, k))
                    elif rate_of(n, i) or pre in ('<Rmue>', '<Rtaumu>'):
                        lo, hi = min(x, y), max(x, y)
                        m.check(lo - .02 * (hi - lo) - .005 * max(abs(lo), abs(hi)) - 1e-7 <= got <= hi + .02 * (hi - lo) + .005 * max(abs(lo), abs(hi)) + 1e-7, 'split',
                                'the observable in the joint bin, %r, is not between those in its parts, %r and %r' % (got, x, y), cut=c, **w)
                        m.event('split', (n, a, b, k))
                # narrow bins
                if d in flavio.Observable.instances and flavio.Observable[d].arguments == ['q2']:
                    q = float(rng.uniform(a, b))
                    if not breaks(i, q, q + .011):
                        e = 2e-3
                        nb, df = ev(n, q, q + e), ev(d, q + e / 2)
                        if pre.startswith('<BR'):
                            nb /= e
                        lo, hi = sorted((ev(d, q), ev(d, q + e)))
                        tol = .006 * abs(df) + 2 * (hi - lo) + 1e-6 * (0 if 'BR' in pre else 1)
                        m.check(abs(nb - df) <= tol, 'narrow', 'observable in the narrow bin [%r,%r] is %r, at its centre %r' % (q, q + e, nb, df), observable=n, np=k)
                        m.event('narrow', (n, q, k))
            except Exception as x:
                m.violate('raised', 'prediction raised %r' % x, **w)
    m.sample({'observable': n, 'bin': (a, b), 'value': got})


ANG = {'<cl>': (-1., 1.), '<cV>': (-1., 1.), '<phi>': (0., 2 * np.pi)}


def angles(m, rng, names):
    """Angular bins of B->Vlnu."""
    import flavio
    evs = [Ev(flavio.physics.eft._wc_sm), Ev(npwc.wet(rng, 4.8, density=.5))]
    for n in names:
        i = O.info(n)
        lo, hi = ANG[i.pre.split('/')[1]]
        d = diffname(n)
        tot = 'BR' + n[n.index('('):]
        k = int(rng.integers(2))
        ev = evs[k]
        ev.memo.clear()
        w = dict(observable=n, np=k)
        full, t = ev(n, lo, hi), ev(tot)
        m.check(abs(full - t) <= .01 * t, 'angle:full', 'the full angular range gives %r, the total rate is %r' % (full, t), **w)
        a, b = sorted(float(x) for x in rng.uniform(lo, hi, 2))
        if b - a < .1 * (hi - lo):
            a, b = lo + .1 * (hi - lo), lo + .6 * (hi - lo)
        c = float(rng.uniform(a, b))
        x, y, z = ev(n, a, c), ev(n, c, b), ev(n, a, b)
        m.check(abs(x + y - z) <= .01 * abs(z) + 2e-3 * abs(t) * 0, 'angle:split', 'bins %r + %r do not add up to %r' % (x, y, z), args=(a, c, b), **w)
        q, wt = np.polynomial.legendre.leggauss(8)
        q, wt = .5 * (b - a) * q + .5 * (a + b), .5 * (b - a) * wt
        s = float(sum(wt[j] * ev(d, float(q[j])) for j in range(8)))
        m.check(abs(s - z) <= .01 * abs(s), 'angle:average', 'binned rate %r, integral of the differential rate %r' % (z, s), args=(a, b), **w)
        m.event('angle', (n, a, b, c, k))
    m.sample({'observable': n, 'full': full, 'total': t})


def limits(m, rng, names):
    """Bins reaching outside the kinematic range; full range = total rate."""
    import flavio
    evs = [Ev(flavio.physics.eft._wc_sm), Ev(npwc.wet(rng, 4.8, density=.5))]
    for n in names:
        i = O.info(n)
        pre = i.pre
        if i.had in ('Xs', 'Xd') or i.lep in ('eegamma', 'mumugamma') or (i.lep == 'tautau'):
            continue
        k = int(rng.integers(2))
        ev = evs[k]
        ev.memo.clear()
        lo, hi = O.q2range(i)
        w = dict(observable=n, np=k)
        a = float(rng.uniform(max(lo, .62 * hi), .9 * hi))
        rate = re.match(r'<(dBR|BR)', pre)
        try:
            inside, outer = ev(n, a, hi), ev(n, a, hi + .3 * (hi - a))
        except Exception as x:
            m.violate('limits:raised', 'bin across the kinematic end point raised %r' % x, args=(a, hi + .3 * (hi - a)), **w)
            continue
        if pre.startswith('<dBR'):
            outer *= 1.3
        tol = .02 if rate else .03
        m.check(abs(inside - outer) <= tol * abs(inside) + (0 if rate else 3e-3), 'limits', 'bin up to the kinematic end point %r, beyond it %r (rates multiplied by the bin width)' % (inside, outer), args=(a, hi), **w)
        m.event('limits', (n, a, k))
        tot = 'BR' + n[n.index('('):]
        if pre == '<BR>' and tot in flavio.Observable.instances:
            t = ev(tot)
            m.check(abs(ev(n, lo, hi) - t) <= .02 * t, 'limits:total', 'bin over the whole range %r, total rate %r' % (ev(n, lo, hi), t), **w)
            if lo > 0:
                m.check(abs(ev(n, lo * .3, hi * 1.01) - t) <= .02 * t, 'limits:total', 'bin beyond the whole range %r, total rate %r' % (ev(n, lo * .3, hi * 1.01), t), **w)
        if pre == '<dBR/dq2>' and tot in flavio.Observable.instances and i.lep == 'nunu':
            t = ev(tot)
            m.check(abs(ev(n, 0., hi) * hi - t) <= .02 * t, 'limits:total', 'bin over the whole range %r, total rate %r' % (ev(n, 0., hi) * hi, t), **w)
        for base in ('FLtot', 'AFBtot'):
            tn = base + n[n.index('('):]
            if pre == '<%s>' % base[:-3] and tn in flavio.Observable.instances:
                m.check(abs(ev(n, lo, hi) - ev(tn)) <= .02 * abs(ev(tn)) + 1e-3, 'limits:total', 'bin over the whole range %r, total %r' % (ev(n, lo, hi), ev(tn)), **w)
    m.sample({'observable': n, 'inside': inside, 'outer': outer})


def jobs(tier, seed):
    t = tier == 'thorough'
    names = [n for n in O.usable() if n.startswith('<') and 'ee->WW' not in n and not n.startswith('<BR>/BR')]
    names = [names[int(i)] for i in np.random.default_rng(seed).permutation(len(names))]
    q2 = [n for n in names if '/<' not in n]
    out = [{'name': 'average#%d' % i, 'fn': averages, 'args': {'names': q2[i::24], 'reps': 10 if t else 1}} for i in range(24)]
    ang = [n for n in names if '/<' in n]
    for r in range(4 if t else 1):
        out += [{'name': 'angle-%d#%d' % (r, i), 'fn': angles, 'args': {'names': ang[i::4]}} for i in range(4)]
        out += [{'name': 'limits-%d#%d' % (r, i), 'fn': limits, 'args': {'names': q2[i::8]}} for i in range(8)]
    return out
