"""P10: predictions are finite and physical everywhere."""
import re
import numpy as np
from lib import obs as O
from lib import npwc
from lib.util import split_jobs

RULE = ('every observable at random physical arguments for the Standard Model and random new physics (real and complex coefficients in all sectors, WET and SMEFT) and random parameters: '
        'finite, real, inside the bounds of its kind; positivity of angular distributions built from the predicted coefficients at random angles; rates outside the kinematic range; '
        'distinct by (observable, arguments, new-physics point)')
ASSUMPTIONS = ['new physics is moderate: comparable with the Standard Model amplitudes; electroweak and Higgs observables, which are partly linearised in the coefficients, see coefficients of about 1/(10 TeV)^2']
MIN = {'range': 6000, 'positivity': 100, 'outside': 100}

TINY = 1e-9


def bounds(n, i):
    """Physical bounds (lo, hi) of an observable or None."""
    pre = (i.pre or '').strip('<>')
    if i.pre is None:
        if re.match(r'tau_(ee|mumu|tautau|Bc|n)$|DeltaM_|m_W|GammaW|GammaZ|sigma_had|R_|Ft\(|q/p_D|x12_D|x_D|y12_D', n) and n != 'R_n':
            if n in ('x_D',):
                return None
            return (0, None)
        if n.startswith('S_'):
            return (-1, 1)
        if n in ('a_n', 'A_n', 'B_n', 'atilde_n', 'Atilde_n', 'D_n', 'R_n'):
            return (-1, 1)
        return None
    if re.match(r'(BR|dBR|<BR|<dBR|BR_|Gamma|CR|mu_|R|RT|Rmue|Rtau|dR|<dR)', i.pre) and pre not in ('RT', 'RKpi'):
        return (0, None)
    if pre == 'FLttot':     # defined by an angular coefficient to which tensor operators contribute with the opposite sign
        return (-1, 1)
    if pre in ('FL', 'FLtot'):
        return (0, 1)
    if pre == 'FH':
        return (0, 3)
    if pre in ('ACP', 'AFB', 'AFBtot', 'AFBl', 'AFBh', 'AFBlh', 'ADeltaGamma', 'A', 'P1', 'ATIm'):
        return (-1, 1)
    if re.match(r'S_?\d|A_?\d|A6s|I3tot', pre):
        return (-1.5, 1.5)
    if pre[0] == 'P' and i.lep == 'tautau':
        return None     # normalised to combinations that are not positive definite for heavy leptons
    if pre in ('P2', 'P3'):
        return (-.5, .5) if i.lep == 'ee' else (-1, 1)
    if re.match(r'P\dp', pre):
        return (-1.5, 1.5)
    if pre.startswith('Dmue_'):
        return (-3, 3)
    return None


def points(rng, n):
    """new-physics points: (label, object or None)"""
    out = []
    for k in range(n):
        r = k % 4
        if r == 0:
            out.append(('wet', npwc.wet(rng, float(rng.choice([4.2, 4.8, 80.])), amount=float(rng.choice([.3, 1.]))), 'b'))
        elif r == 1:
            out.append(('wet-sparse', npwc.wet(rng, 4.8, density=.15), 'b'))
        elif r == 2:
            out.append(('smeft', npwc.smeft(rng, float(rng.choice([91.1876, 1000.])), amount=.6), 'ew'))
        else:
            out.append(('wet-real', npwc.wet(rng, 160., amount=.5, real=True), 'b'))
    return out


def judge(m, n, i, a, v, label, **w):
    ok = isinstance(v, (float, int, np.floating, np.integer)) or (isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind == 'f')
    m.check(ok and np.isfinite(v), 'finite', 'prediction %r is not a finite real number' % (v,), observable=n, args=a, np=label, **w)
    b = bounds(n, i)
    if not ok or b is None:
        return
    lo, hi = b
    if lo is not None:
        m.check(v >= lo - TINY * max(1, abs(lo)) * (1 if lo else min(1, abs(v)) * 1e-3), 'below:%s' % i.pre, 'prediction %r is below its physical bound %g' % (v, lo), observable=n, args=a, np=label, **w)
    if hi is not None:
        m.check(v <= hi * (1 + 1e-6), 'above:%s' % i.pre, 'prediction %r exceeds its physical bound %g' % (v, hi), observable=n, args=a, np=label, **w)


def ranges(m, rng, names, npts, per):
    import flavio
    central = flavio.default_parameters.get_central_all()
    np.random.seed(int(rng.integers(2**31)))
    pts = points(rng, npts)
    rpar = O.random_par()
    pars = [central, rpar]
    par_of = [central if rng.random() < .6 else pars[1] for _ in pts]
    for n in names:
        i = O.info(n)
        o = flavio.Observable[n]
        a = O.draw_args(n, rng, i)
        v = o.prediction_par(pars[1] if rng.random() < .5 else central, flavio.physics.eft._wc_sm, *a)
        judge(m, n, i, a, v, 'sm')
        m.event('range', (n, a, 'sm'))
        for k in rng.permutation(len(pts))[:per]:
            label, w, _ = pts[int(k)]
            a = O.draw_args(n, rng, i)
            try:
                v = o.prediction_par(par_of[int(k)], w, *a)
            except Exception as x:
                if 'Running from WET to SMEFT not implemented' in str(x):
                    continue
                m.violate('raised:%s' % i.pre, 'prediction raised %r' % x, observable=n, args=a, np=label)
                continue
            judge(m, n, i, a, v, label, coefficients=relevant(w, i))
            m.event('range', (n, a, label, int(k)))
    m.sample({'observable': n, 'args': a, 'value': float(v), 'np': label})


def relevant(w, i):
    d = w.wc.dict
    if i.lep is None:
        return {k: str(v) for k, v in list(d.items())[:12]}
    return {k: str(v) for k, v in d.items() if re.search(r'_(bs|bd|bc|bu)?.*', k) and ('_' + {'Xs': 'bs', 'Xd': 'bd'}.get(i.had, 'b')) in k}if len(d) < 60 else len(d)


def coeffs(name_of, pred):
    return {k: pred(name_of(k)) for k in ('FL', 'AFB', 'S3', 'S4', 'S5', 'S7', 'S8', 'S9')}


def angular(c, cl, ck, phi):
    """Angular distribution of B->V(->PP)ll for massless leptons from the CP-averaged observables (arbitrary consistent sign convention)."""
    sl2, sk2 = 1 - cl**2, 1 - ck**2
    sl, sk = np.sqrt(sl2), np.sqrt(sk2)
    s2l, s2k, c2l = 2 * sl * cl, 2 * sk * ck, 2 * cl**2 - 1
    FL = c['FL']
    return (.75 * (1 - FL) * sk2 + FL * ck**2 + .25 * (1 - FL) * sk2 * c2l - FL * ck**2 * c2l + c['S3'] * sk2 * sl2 * np.cos(2 * phi)
            + c['S4'] * s2k * s2l * np.cos(phi) + c['S5'] * s2k * sl * np.cos(phi) + c['S6s'] * sk2 * cl
            + c['S7'] * s2k * sl * np.sin(phi) + c['S8'] * s2k * s2l * np.sin(phi) + c['S9'] * sk2 * sl2 * np.sin(2 * phi))


def positivity(m, rng, n):
    """The angular distribution implied by the observables is nowhere negative."""
    import flavio
    for case in range(n):
        B, had = [('B0', 'K*'), ('B+', 'K*')][int(rng.integers(2))]
        lep = 'ee'
        # vector and dipole operators only: with massless leptons the six transversity amplitudes remain
        sel = lambda c, s: bool(re.match(r'^C(7p?|8p?|9p?|10p?)_bs(ee|mumu)?$', c))
        w = npwc.wet(rng, 4.8, select=sel, amount=float(rng.choice([0, .5, 1., 2.]))) if rng.random() < .85 else flavio.WilsonCoefficients()
        lo, hi = (1., 6.) if rng.random() < .6 else (15.5, 18.5)
        if rng.random() < .5:
            q = (float(rng.uniform(lo, hi)),)
            f = '%s(%s->%s%s)'
        else:
            q0 = float(rng.uniform(lo, hi - .6))
            q = (q0, float(rng.uniform(q0 + .5, hi)))
            f = '<%s>(%s->%s%s)'
        try:
            c = {k: float(flavio.np_prediction(f % (k, B, had, lep), w, *q)) for k in ('FL', 'AFB', 'S3', 'S4', 'S5', 'S7', 'S8', 'S9')}
        except Exception as x:
            m.violate('positivity:raised', 'prediction raised %r' % x, observable=f % ('*', B, had, lep), args=q)
            continue
        c['S6s'] = 4 / 3 * c['AFB']
        N = 4000
        cl, ck, phi = rng.uniform(-1, 1, N), rng.uniform(-1, 1, N), rng.uniform(0, 2 * np.pi, N)
        # either sign of the two relative orientations is a convention
        best = max(min(angular(dict(c, S6s=s * c['S6s']), cl, ck, phi)) for s in (1, -1))
        m.check(best > -2e-3, 'positivity', 'the angular distribution becomes negative (%g)' % best, mode=f % ('*', B, had, lep), args=q, observables=c,
                coefficients={k: str(v) for k, v in w.wc.dict.items()} if w.wc else {})
        # interference terms are bounded by the geometric mean of the squared amplitudes
        s2s, s1c = .25 * (1 - c['FL']), c['FL']
        for k, lim in (('S3', 2 * s2s), ('S9', 2 * s2s), ('S6s', 4 * s2s), ('S4', np.sqrt(2 * s1c * s2s)), ('S8', np.sqrt(2 * s1c * s2s)), ('S5', np.sqrt(8 * s1c * s2s)), ('S7', np.sqrt(8 * s1c * s2s))):
            m.check(abs(c[k]) <= lim * 1.01 + 1e-4, 'interference', '|%s|=%g exceeds its bound %g' % (k, abs(c[k]), lim), mode=f % ('*', B, had, lep), args=q, observables=c)
        m.event('positivity', (f, B, q, case))
        m.sample({'mode': f % ('*', B, had, lep), 'args': q, 'minimum': float(best)})


def outside(m, rng, names):
    """Differential rates outside the kinematic range."""
    import flavio
    from lib import npwc
    w = npwc.wet(rng, 4.8)
    for n in names:
        i = O.info(n)
        lo, hi = O.q2range(i)
        for q2, side in ((hi * 1.02 + .1, 'above'), (hi * 1.5, 'above'), (lo * .95, 'below'), (lo * .2, 'below')):
            if side == 'below' and lo < 1e-5:
                continue
            if i.lep == 'lnu' or i.lep == 'll' or i.had in ('Xs', 'Xd') or i.lep in ('eegamma', 'mumugamma'):
                continue
            for lab, wc in (('sm', flavio.physics.eft._wc_sm), ('wet', w)):
                try:
                    v = flavio.Observable[n].prediction_par(O.par(), wc, q2)
                except Exception as x:
                    m.violate('outside:raised', 'prediction outside the kinematic range raised %r' % x, observable=n, args=(q2,), np=lab)
                    continue
                m.check(v == 0, 'outside', 'rate outside the kinematic range is %r' % (v,), observable=n, args=(q2,), np=lab, range=(lo, hi))
                m.event('outside', (n, q2, lab))
    m.sample({'observable': n, 'range': (lo, hi)})


def jobs(tier, seed):
    t = tier == 'thorough'
    names = O.usable()
    names = [names[int(i)] for i in np.random.default_rng(seed).permutation(len(names))]
    out = []
    for i in range(16):
        out.append({'name': 'range#%d' % i, 'fn': ranges, 'args': {'names': names[i::16], 'npts': 12 if t else 4, 'per': 12 if t else 3}})
    out += split_jobs('positivity', positivity, 1600 if t else 160, 8)
    rate = [n for n in names if re.match(r'dBR(_L|_T)?/dq2', n)]
    for i in range(2):
        out.append({'name': 'outside#%d' % i, 'fn': outside, 'args': {'names': rate[i::2]}})
    return out
