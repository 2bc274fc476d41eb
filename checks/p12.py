"""P12: related observables satisfy their defining relations."""
import re
import math
import numpy as np
from lib import obs as O
from lib import npwc

RULE = ('every family of observables defined from one another (exhaustively over the registry): lepton ratios, flavour sums and averages, polarised rates, angular observables and their optimised combinations, '
        'distributions in angles, isospin partners, lifetimes, Z, W, Higgs and neutron observables; random arguments, random parameter points, Standard Model and random new physics; distinct by (relation, observable, arguments, new physics)')
ASSUMPTIONS = ['ratios of separately integrated rates are compared within the tolerance of the numerical integration (1%)',
               'optimised angular observables are compared with the massless-lepton combinations (within 3% for muons above 1 GeV^2, 0.2% for electrons)',
               'isospin partners are compared within the size of the isospin breaking of masses and spectator effects (5% for tree decays, 20% for loop decays)']
MIN = {'ratio': 100, 'sum': 60, 'average': 60, 'polarisation': 60, 'angular': 60, 'shape': 60, 'isospin': 60, 'isoexact': 200, 'ew': 5, 'neutron': 5}


class Ev:
    def __init__(self, wc, par=None):
        self.wc = wc
        self.par = par or O.par()
        self.memo = {}

    def __call__(self, name, *a):
        k = (name, tuple(a))
        if k not in self.memo:
            import flavio
            self.memo[k] = float(flavio.Observable[name].prediction_par(self.par, self.wc, *a))
        return self.memo[k]


def has(n):
    import flavio
    return n in flavio.Observable.instances


LEPR = {'Rmue': ('mu', 'e'), 'Rtaumu': ('tau', 'mu'), 'Rtaue': ('tau', 'e'), 'Remu': ('e', 'mu'), 'Rtaul': ('tau', 'l')}


def find(pre, proc):
    """registered rate for a process, where 'B->' stands for the neutral meson"""
    for p in (proc, proc.replace('(B->', '(B0->')):
        if has(pre + p):
            return pre + p
    return None


def lep(proc, l):
    m = re.match(r'(.*?)(ll|lnu)\)$', proc)
    return m.group(1) + (l * 2 if m.group(2) == 'll' else l + 'nu') + ')'


def rel_ratio(n):
    """[(kind, function(ev, args) -> (lhs, rhs, atol), rtol)]"""
    k = n.index('(') if '(' in n else len(n)
    pre, proc = n[:k], n[k:]
    br = pre.strip('<>')
    out = []
    if br in LEPR and re.search(r'(ll|lnu)\)$', proc):
        rp = '<BR>' if pre[0] == '<' else ('BR' if not O.info(n).args else 'dBR/dq2')
        up, lo = LEPR[br]
        get = lambda x: find(rp, lep(proc, x)) or (find('<dBR/dq2>', lep(proc, x)) if rp == '<BR>' else None)
        hi = get(up)
        los = [get(x) for x in (['e', 'mu'] if lo == 'l' else [lo])]
        if hi and all(los):
            out.append(('ratio', lambda ev, a: (ev(n, *a), ev(hi, *a) / np.mean([ev(x, *a) for x in los]), 0.), .012 if pre[0] == '<' or rp == 'BR' else 1e-6))
    return out


def rel_average(n):
    """'l' modes are averages of e and mu; charge sums"""
    k = n.index('(') if '(' in n else len(n)
    pre, proc = n[:k], n[k:]
    out = []
    if re.search(r'(ll|lnu)\)$', proc) and re.match(r'(<BR>|BR|dBR/dq2|<dBR/dq2>|<?BR_L>?|<?BR_T>?|dBR_[LT]/dq2|dBR/d(cl|cV|phi)|<BR>/<\w+>)$', pre):
        es = [pre + lep(proc, x) for x in ('e', 'mu')]
        if all(has(x) for x in es):
            out.append(('average', lambda ev, a: (ev(n, *a), .5 * sum(ev(x, *a) for x in es), 0.), .012 if pre != 'dBR/dq2' else 1e-6))
    if pre in ('lnC', 'RT') and 'lnu' in proc:
        es = [pre + lep(proc, x) for x in ('e', 'mu')]
        out.append(('average', lambda ev, a: (ev(n, *a), .5 * sum(ev(x, *a) for x in es), 0.), 1e-9))
    if pre in ('FLtot', 'AFBtot', 'I3tot', 'FLttot') and 'lnu' in proc:
        es = [(pre + lep(proc, x), 'BR' + lep(proc, x)) for x in ('e', 'mu')]
        if all(has(x) for y in es for x in y):
            def f(ev, a):
                r = [ev(b) for x, b in es]
                return ev(n), sum(ev(x) * y for (x, b), y in zip(es, r)) / sum(r), 2e-3
            out.append(('average', f, .012))
    m = re.match(r'^(BR|R)\((.*)->(.*?)((?:emu|mue|etau|taue|mutau|taumu)),((?:emu|mue|etau|taue|mutau|taumu))(gamma)?\)$', n)
    if m:
        p, ini, h, x, y, g = m.groups()
        es = ['%s(%s->%s%s%s)' % (p, ini, h, z, g or '') for z in (x, y)]
        if all(has(e) for e in es):
            out.append(('sum', lambda ev, a: (ev(n, *a), sum(ev(e, *a) for e in es), 0.), 1e-6))
    return out


def rel_pol(n):
    k = n.index('(') if '(' in n else len(n)
    pre, proc = n[:k], n[k:]
    out = []
    P = {'dBR_L/dq2': ('dBR_T/dq2', 'dBR/dq2', 1e-9), 'BR_L': ('BR_T', 'BR', .012), '<BR_L>': ('<BR_T>', '<BR>', .012)}
    if pre in P:
        t, s, tol = P[pre]
        if has(t + proc) and has(s + proc):
            out.append(('polarisation', lambda ev, a: (ev(n, *a) + ev(t + proc, *a), ev(s + proc, *a), 0.), tol))
    F = {'FL': 'dBR%s/dq2', '<FL>': '<BR%s>', 'FLtot': 'BR%s'}
    if pre in F:
        num, den = F[pre] % '_L' + proc, F[pre] % '' + proc
        if has(num) and has(den):
            out.append(('polarisation', lambda ev, a: (ev(n, *a), ev(num, *a) / ev(den, *a), 1e-6), 1e-9 if pre == 'FL' else .012))
    return out


def rel_angular(n):
    k = n.index('(') if '(' in n else len(n)
    pre, proc = n[:k], n[k:]
    b = pre.strip('<>')
    out = []
    br = (lambda x: '<' + x + '>' + proc) if pre[:1] == '<' else (lambda x: x + proc)
    m = re.match(r'Dmue_(\w+)$', b)
    if m:
        x = m.group(1)
        out.append(('angular', lambda ev, a: (ev(n, *a), ev(br(x).replace('ll)', 'mumu)'), *a) - ev(br(x).replace('ll)', 'ee)'), *a), 2e-4 if pre[:1] == '<' else 1e-9), .01))
    if proc.endswith(('ee)', 'mumu)')) and not proc.startswith('(Lambda') and 'K*' in proc and has(br('FL')):
        r = .002 if proc.endswith('ee)') else .03
        at = .002 if proc.endswith('ee)') else .015
        D = {'P1': (lambda ev, a: 2 * ev(br('S3'), *a) / (1 - ev(br('FL'), *a))),
             'P2': (lambda ev, a: 2 / 3. * ev(br('AFB'), *a) / (1 - ev(br('FL'), *a))),
             'P3': (lambda ev, a: -ev(br('S9'), *a) / (1 - ev(br('FL'), *a))),
             'ATIm': (lambda ev, a: 2 * ev(br('A9'), *a) / (1 - ev(br('FL'), *a)))}
        for j, s in (('P4p', 'S4'), ('P5p', 'S5'), ('P6p', 'S7'), ('P8p', 'S8')):
            D[j] = lambda ev, a, s=s: ev(br(s), *a) / math.sqrt(ev(br('FL'), *a) * (1 - ev(br('FL'), *a)))
        if b in D:
            M = (lambda ev, a: 12 * ev.par['m_mu']**2 / a[0] / (1 - ev(br('FL'), *a))) if 'mumu' in proc else (lambda ev, a: 0.)     # mass corrections relative to the small transverse rate
            out.append(('angular', lambda ev, a: (ev(n, *a), D[b](ev, a), at + M(ev, a) * abs(ev(n, *a))), r))
        # observables with the same normalisation: exact for any lepton mass
        G = [{'P1': ('S3', 2.), 'P2': ('AFB', 2 / 3.), 'P3': ('S9', -1.), 'ATIm': ('A9', 2.)}, {'P4p': ('S4', 1.), 'P5p': ('S5', 1.), 'P6p': ('S7', 1.), 'P8p': ('S8', 1.)}]
        for g in G:
            if b in g:
                for o in g:
                    if o != b:
                        out.append(('angular', lambda ev, a, g=g, o=o: (ev(n, *a) * g[o][1] * ev(br(g[o][0]), *a), ev(br(o), *a) * g[b][1] * ev(br(g[b][0]), *a), 2e-4 if pre[:1] == '<' else 1e-8), .02 if pre[:1] == '<' else 1e-6))
        if b == 'AFB' and has(br('A6s')) and has(br('S6c')):
            pass
    return out


def rel_shape(n):
    """angular distributions of B->Vlnu determine the integrated angular observables"""
    k = n.index('(') if '(' in n else len(n)
    pre, proc = n[:k], n[k:]
    out = []
    if pre == 'AFBtot':
        c = '<BR>/<cl>' + proc
        out.append(('shape', lambda ev, a: (ev(n), (ev(c, 0., 1.) - ev(c, -1., 0.)) / ev('BR' + proc), 3e-3), .012))
        d = 'dBR/dcl' + proc       # quadratic in cos(theta): odd part is linear
        out.append(('shape', lambda ev, a: (ev(n), (ev(d, .7) - ev(d, -.7)) / 1.4 / ev('BR' + proc), 3e-3), .012))
    if pre == 'FLtot':
        c = 'dBR/dcV' + proc
        out.append(('shape', lambda ev, a: (ev(n), ev(c, 1.) / ev('BR' + proc) / 1.5, 2e-3), .012))
        out.append(('shape', lambda ev, a: (1 - ev(n), ev(c, 0.) / ev('BR' + proc) / .75, 2e-3), .012))
    if pre == 'FLttot':
        c = 'dBR/dcl' + proc
        out.append(('shape', lambda ev, a: (ev('BR' + proc), (ev(c, 1.) + 4 * ev(c, 0.) + ev(c, -1.)) / 3, 0.), .012))
    if pre == 'I3tot':
        c = 'dBR/dphi' + proc
        out.append(('shape', lambda ev, a: (2 * ev('BR' + proc), 2 * np.pi * (ev(c, 0.) + ev(c, np.pi / 2)), 0.), .012))
        out.append(('shape', lambda ev, a: (abs(ev(n)), abs((ev(c, 0.) - ev(c, np.pi / 2)) * np.pi / 2 / ev('BR' + proc) * I3NORM), 2e-3), .012))
    m = re.match(r'<BR>/BR$', pre)
    if m:
        p = proc.replace('(B->', '(B0->')
        out.append(('ratio', lambda ev, a: (ev(n, *a), ev('<BR>' + p, *a) / ev('BR' + p), 0.), .012))
    return out


I3NORM = 2.

FAMILIES = [rel_ratio, rel_average, rel_pol, rel_angular, rel_shape]


def relations(n):
    out = []
    for f in FAMILIES:
        out += f(n)
    return out


def evs(rng, eft=True):
    import flavio
    return [Ev(flavio.physics.eft._wc_sm), Ev(npwc.wet(rng, 4.8, density=1.)), Ev(npwc.wet(rng, 4.8, density=.3)),
            Ev(npwc.wet(rng, 4.8, density=.5, real=True), O.random_par())]


VA = re.compile(r'^C(7|8|9|10)p?_(bs|bd)')


def run(m, rng, names, reps):
    np.random.seed(int(rng.integers(2**31)))
    E = evs(rng)
    EA = [E[0]] + [Ev(npwc.wet(rng, 4.8, select=lambda c, s: VA.match(c), real=r)) for r in (True, False)]
    EW = [E[0], Ev(npwc.smeft(rng, 1000.))]
    got = None
    for n in names:
        i = O.info(n)
        rels = relations(n)
        for rep in range(reps):
            for kind, f, tol in rels:
                F = EA if kind == 'angular' else EW if '(W->' in n else E      # optimised observables are defined without scalar operators
                k = int(rng.integers(len(F)))
                ev = F[k]
                ev.memo.clear()
                a = O.draw_args(n, rng, i) if i.args else ()
                if kind == 'angular' and 'mumu' in n and a and a[0] < 1.2:
                    a = (a[0] + 1.3, ) + tuple(x + 1.3 for x in a[1:])
                if kind == 'ratio' and 'tau' in n[:6] and a:
                    a = fixtau(a, i)
                w = dict(observable=n, args=a, np=k)
                try:
                    l, r, at = f(ev, a)
                except Exception as x:
                    m.violate(kind + ':raised', 'prediction raised %r' % x, **w)
                    continue
                got = (l, r)
                m.check(abs(l - r) <= at + tol * max(abs(l), abs(r)), kind, 'observable is %r, from its definition in terms of other observables %r' % (l, r), **w)
                m.event(kind, (n, a, k))
    if got:
        m.sample({'observable': n, 'values': got})


def fixtau(a, i):
    lo, hi = O.q2range(i)
    if a[0] > lo:
        return a
    return (lo + .1 * (hi - lo),) + tuple(lo + .8 * (hi - lo) for x in a[1:])


def isopairs():
    """(charged, neutral, factor of rates beyond lifetimes, tolerance)"""
    import flavio
    out = []
    for n in O.usable():
        i = O.info(n)
        if i.ini != 'B+' or i.had is None:
            continue
        other = n.replace('(B+->', '(B0->')
        if not has(other):
            continue
        pre = i.pre.strip('<>')
        if 'gamma' in n and 'nu' not in n:
            continue
        rate = pre.startswith(('BR', 'dBR'))
        f = 1.
        if rate:
            if i.lep in ('enu', 'munu', 'taunu', 'lnu'):
                f = .5 if i.had in ('pi', 'rho') else 1.
                tol = .05
            elif i.lep == 'nunu':
                f = 2. if i.had in ('pi', 'rho') else 1.
                tol = .03
            else:
                f = 2. if i.had in ('pi', 'rho') else 1.
                tol = .25
            out.append((n, other, 'rate', f, tol))
        elif i.lep in ('enu', 'munu', 'taunu', 'lnu', 'nunu'):
            out.append((n, other, 'same', 1., .02))
    return out


def isospin(m, rng, pairs, reps):
    E = evs(rng)
    for n, o, kind, f, tol in pairs:
        i = O.info(n)
        for rep in range(reps):
            k = int(rng.integers(len(E)))
            ev = E[k]
            a = O.draw_args(n, rng, i) if i.args else ()
            if a and O.q2range(i)[1] > 3 and a[0] > .8 * O.q2range(i)[1]:
                a = tuple(x * .85 for x in a)
            w = dict(observable=n, partner=o, args=a, np=k)
            try:
                l, r = ev(n, *a), ev(o, *a)
            except Exception as x:
                m.violate('isospin:raised', 'prediction raised %r' % x, **w)
                continue
            at = 0.
            t = tol
            if kind == 'rate':
                l, r = l / ev.par['tau_B+'], f * r / ev.par['tau_B0']
                if '/d' in n and 'mu' in n and a and a[0] < 1.1 and i.lep in ('mumu', 'ee'):
                    t = .5
            else:
                at = .02
            m.check(abs(l - r) <= at + t * max(abs(l), abs(r)), 'isospin', 'isospin partners differ: %r and %r (without the lifetimes)' % (l, r), **w)
            m.event('isospin', (n, a, k))
    m.sample({'pair': (n, o), 'values': (l, r)})


PARTNER = re.compile(r'^(m|tau|f|f_perp|a[12]_para|a[12]_perp)_(B|D\*?|K|pi|rho|K\*)\+$|^B\+->K\*?\+ ')


def isoexact(m, rng, pairs, reps):
    """equal masses, decay constants and lifetimes of isospin partners, no contributions that depend on the spectator quark:
    rates of partners are related by Clebsch-Gordan coefficients exactly, apart from the corrections included as parameters"""
    import flavio
    from checks.p13 import spectator, zero_spectator
    zero_spectator()
    spectator('verif none')
    np.random.seed(int(rng.integers(2**31)))
    E = evs(rng)
    for ev in E:
        ev.par = p = dict(ev.par)
        for k in p:
            if PARTNER.search(k):
                o = k.split(' ')[0].replace('+', '0') + k[len(k.split(' ')[0]):] if '->' in k else k[:-1] + '0'
                p[k] = p.get(o, p[k])
        for x in ('KL', 'KS', 'K+'):
            p['m_' + x] = p['m_K0']
        for k in ('K->pi delta_K+pi0',) + tuple('K%s%s3 delta_EM' % (c, l) for c in '+0' for l in ('e', 'mu')):
            p[k] = float(rng.uniform(-.1, .1))
    for n, o, f in pairs:
        i = O.info(n)
        for rep in range(reps):
            k = int(rng.integers(len(E)))
            ev = E[k]
            a = O.draw_args(n, rng, i) if i.args else ()
            w = dict(observable=n, partner=o, args=a, np=k)
            try:
                l, r = ev(n, *a), ev(o, *a)
            except Exception as x:
                m.violate('isoexact:raised', 'prediction raised %r' % x, **w)
                continue
            p = ev.par
            if f != 'same':
                r *= f * p['tau_' + i.ini] / p['tau_' + o.split('(')[1].split('->')[0]]
            if i.ini == 'K+':
                if i.lep == 'lnu':
                    continue
                lep = i.lep[:-2]
                r *= ((1 + p['K->pi delta_K+pi0']) * (1 + p['K+%s3 delta_EM' % lep]) / (1 + p['K0%s3 delta_EM' % lep]))**2
            m.close(l, r, 'isoexact:' + i.ini, 'isospin partners with equal masses differ', rtol=1e-5 if a and len(a) > 1 else 1e-7, atol=1e-9 if f == 'same' else 0, **w)
            m.event('isoexact', (n, a, k))


def exactpairs():
    import flavio
    out = [(n, o, f if kind == 'rate' else 'same') for n, o, kind, f, tol in isopairs()]
    for n in O.usable():
        i = O.info(n)
        if i.lep in ('enu', 'munu', 'taunu', 'lnu') and i.had:
            o = n.replace('(D+->', '(D0->').replace('(K+->', '(KL->')
            if o != n and has(o):
                out.append((n, o, .5 if i.had == 'pi' else 1.))
    return out


def chargedlep(m, rng, reps):
    """B -> K(*) l l' etc.: isospin partners of lepton flavour violating modes and neutrino sums are covered by 'isospin'; here lifetimes and mixing."""
    import flavio
    for rep in range(reps):
        E = evs(rng)
        for k, ev in enumerate(E):
            p = ev.par
            for l in ('ee', 'mumu', 'tautau'):
                A = ev('ADeltaGamma(Bs->%s)' % l)
                y = p['DeltaGamma/Gamma_Bs'] / 2
                tb = p['tau_Bs']
                tau = tb / (1 - y**2) * (1 + 2 * A * y + y**2) / (1 + A * y)
                m.close(ev('tau_' + l), tau, 'lifetime', 'effective lifetime and mass-eigenstate rate asymmetry disagree', rtol=1e-6, lepton=l, np=k)
                m.event('lifetime', (l, A))
            m.close(ev('DeltaM_d/DeltaM_s'), ev('DeltaM_d') / ev('DeltaM_s'), 'mixing-ratio', 'DeltaM_d/DeltaM_s', rtol=1e-9, np=k)
            m.event('ratio', ('DeltaM', k, rep))
            m.close(ev('Remu(K+->lnu)'), 1.00055 * ev('BR(K+->enu)') / ev('BR(K+->munu)'), 'Remu', 'Remu(K+->lnu)', rtol=1e-9, np=k)
            for l in ('e', 'mu'):
                n = 'RKpi(P+->%snu)' % l
                got = ev(n)
                ref = ev('BR(K+->%snu)' % l) / p['tau_K+']
                pi = ev('Gamma(pi+->munu)') if l == 'mu' else None
                if pi:
                    m.close(got, ref / pi, 'RKpi', n + ' is not the ratio of rates', rtol=1e-9, np=k)
                m.event('ratio', (n, k, rep))
            # time-integrated rates: (1 + A y)/(1 - y^2) times the rate without mixing; the library converts it for Bs->ll and B0->ll
            for x, q in (('Bs', 's'), ('B0', 'd')):
                pass
            for n, base in (('BR_LHCb(Bs->K*0mumu)', None),):
                m.check(np.isfinite(ev(n)) and ev(n) > 0, 'finite', n)
            # neutron
            z = float(rng.uniform(.4, .9))
            m.close(ev('atilde_n', z) / ev('a_n'), ev('Atilde_n', z) / ev('A_n'), 'neutron', 'atilde/a and Atilde/A differ', rtol=1e-9, np=k, me_E=z)
            m.close(ev('Btilde_n', z) / ev('B_n', z), ev('Atilde_n', z) / ev('A_n'), 'neutron', 'Btilde/B and Atilde/A differ', rtol=1e-9, np=k, me_E=z)
            m.close(ev('lambdaAB_n', z), (ev('A_n') - ev('B_n', z)) / (ev('A_n') + ev('B_n', z)), 'neutron', 'lambdaAB', rtol=1e-9, np=k, me_E=z)
            m.event('neutron', (k, rep))
            # radiative
            g0 = ev('BR(B0->K*gamma)/BR(Bs->phigamma)')
            m.close(g0, ev('BR(B0->K*gamma)') / ev('BR(Bs->phigamma)'), 'ratio', 'ratio of radiative rates', rtol=1e-6, np=k)
            m.event('ratio', ('gamma', k, rep))
    # R(V->l l') and BR(V->l l')
    for n in O.usable():
        mm = re.match(r'R\((\S+)->(\S+)\)$', n)
        if mm and 'gamma' not in n and has('BR' + n[1:]):
            V = mm.group(1)
            ref = 'BR(%s->ee)' % V
            ev = E[1]
            if has(ref) and ev('BR' + n[1:]) > 0:
                m.close(ev(n), ev('BR' + n[1:]) / ev(ref), 'ratio', 'ratio of quarkonium rates', rtol=1e-2, observable=n)
                m.event('ratio', n)
    m.sample({'tau_mumu': ev('tau_mumu')})


def electroweak(m, rng, reps):
    import flavio
    for rep in range(reps):
        E = [Ev(flavio.physics.eft._wc_sm), Ev(npwc.smeft(rng, 1000.)), Ev(npwc.smeft(rng, 91.2, density=.4)), Ev(npwc.smeft(rng, 3000., amount=.3), O.random_par())]
        for k, ev in enumerate(E):
            w = dict(np=k)
            p = ev.par
            G = {f: ev('Gamma(Z->%s)' % f) for f in ('uu', 'dd', 'ss', 'cc', 'bb', 'ee', 'mumu', 'tautau', 'nunu')}
            had = sum(G[f] for f in ('uu', 'dd', 'ss', 'cc', 'bb'))
            lp = sum(G[f] for f in ('ee', 'mumu', 'tautau'))
            for f, l in (('e', 'ee'), ('mu', 'mumu'), ('tau', 'tautau')):
                m.close(ev('R_' + f), had / G[l], 'ew', 'R_' + f, rtol=1e-9, **w)
            m.close(ev('R_l'), np.mean([had / G[l] for l in ('ee', 'mumu', 'tautau')]), 'ew', 'R_l', rtol=2e-3, **w)
            for q in 'udscb':
                m.close(ev('R_' + q), G[2 * q] / had, 'ew', 'R_' + q, rtol=1e-9, **w)
            m.close(ev('R_uc'), (G['uu'] + G['cc']) / (2 * had), 'ew', 'R_uc', rtol=1e-9, **w)
            for inv in (1, 3):
                if abs(ev('GammaZ') / (had + lp + inv * G['nunu']) - 1) < 1e-9:
                    break
            else:
                m.violate('ew', 'total Z width %r is not the sum of partial widths %r + %r + invisible %r' % (ev('GammaZ'), had, lp, G['nunu']), **w)
            m.close(ev('sigma_had'), 12 * np.pi / p['m_Z']**2 * G['ee'] * had / ev('GammaZ')**2, 'ew', 'sigma_had', rtol=1e-9, **w)
            for f in ('ee', 'mumu', 'tautau', 'cc', 'bb', 'ss', 'uu', 'dd'):
                n = 'AFB(Z->%s)' % f
                if has(n) and has('A(Z->%s)' % f):
                    m.close(ev(n), .75 * ev('A(Z->ee)') * ev('A(Z->%s)' % f), 'ew', n, rtol=1e-9, **w)
            # W
            b = {l: ev('BR(W->%snu)' % l) for l in ('e', 'mu', 'tau')}
            m.close(ev('Rmue(W->lnu)'), b['mu'] / b['e'], 'ew', 'Rmue(W->lnu)', rtol=1e-9, **w)
            m.close(ev('Rtaue(W->lnu)'), b['tau'] / b['e'], 'ew', 'Rtaue(W->lnu)', rtol=1e-9, **w)
            m.close(ev('Rtaumu(W->lnu)'), b['tau'] / b['mu'], 'ew', 'Rtaumu(W->lnu)', rtol=1e-9, **w)
            if has('BR(W->cX)'):
                rest = 1 - sum(b.values())
                m.check(0 < ev('BR(W->cX)') < rest * 1.0001, 'ew', 'BR(W->cX) = %r although leptonic modes leave %r' % (ev('BR(W->cX)'), rest), **w)
            m.event('ew', (k, rep))
            # Higgs: signal strengths factorise into production and decay
            prod = ['gg', 'VBF', 'Wh', 'Zh', 'Vh', 'tth']
            dec = ['WW', 'ZZ', 'VV', 'bb', 'cc', 'tautau', 'mumu', 'gammagamma', 'Zgamma']
            M = np.array([[ev('mu_%s(h->%s)' % (a, d)) for d in dec] for a in prod])
            for a in range(len(prod)):
                for d in range(len(dec)):
                    m.close(M[a, d] * M[0, 0], M[a, 0] * M[0, d], 'higgs', 'signal strengths do not factorise into production and decay', rtol=1e-9, production=prod[a], decay=dec[d], **w)
            lo, hi = sorted((M[2, 0], M[3, 0]))
            m.check(lo - 1e-12 <= M[4, 0] <= hi + 1e-12, 'higgs', 'Vh is not between Wh and Zh', **w)
            if k == 0:
                m.check(np.all(abs(M - 1) < 1e-9), 'higgs', 'signal strengths are not one in the Standard Model')
            lo, hi = sorted((M[0, 0], M[0, 1]))
            m.check(lo - 1e-12 <= M[0, 2] <= hi + 1e-12, 'higgs', 'VV is not between WW and ZZ', **w)
            m.event('higgs', (k, rep))
    m.sample({'mu': M[0].tolist()})


def jobs(tier, seed):
    t = tier == 'thorough'
    rng = np.random.default_rng(seed)
    names = [n for n in O.usable() if relations(n)]
    names = [names[int(i)] for i in rng.permutation(len(names))]
    out = [{'name': 'relations#%d' % i, 'fn': run, 'args': {'names': names[i::24], 'reps': 8 if t else 1}} for i in range(24)]
    pairs = isopairs()
    ex = exactpairs()
    ex = [ex[int(x)] for x in np.random.default_rng(seed + 77).permutation(len(ex))]
    out += [{'name': 'isoexact#%d' % i, 'fn': isoexact, 'args': {'pairs': ex[i::4], 'reps': 10 if t else 2}} for i in range(4)]
    out += [{'name': 'isospin#%d' % i, 'fn': isospin, 'args': {'pairs': pairs[i::8], 'reps': 8 if t else 1}} for i in range(8)]
    out += [{'name': 'misc#%d' % i, 'fn': chargedlep, 'args': {'reps': 6 if t else 1}} for i in range(2)]
    out += [{'name': 'ew#%d' % i, 'fn': electroweak, 'args': {'reps': 12 if t else 2}} for i in range(2)]
    return out
