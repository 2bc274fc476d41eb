"""P09: vanishing new physics is exactly the Standard Model."""
import re
import numpy as np
from lib import obs as O
from lib.util import split_jobs

RULE = ('every observable at random physical arguments and at central and random parameters, with every coefficient zero (empty, explicit zeros, set and then reset) and with '
        'infinitesimal coefficients in every sector, for several theories, bases and scales; sequences of coefficients shrinking to zero along random directions; '
        'forbidden processes and signal strengths; distinct by (observable, arguments, representation)')
ASSUMPTIONS = ['infinitesimal coefficients are 1e-50; predictions then equal the Standard Model within 1e-8',
               'shrinking coefficients start from values for which the deviation is below the prediction itself']
MIN = {'zero': 2500, 'forbidden': 300, 'strength': 20, 'shrink': 300}

BASES = [('WET', 'flavio', 4.8), ('WET', 'flavio', 80.), ('WET', 'flavio', 160.), ('WET', 'JMS', 91.1876), ('WET', 'JMS', 4.8),
         ('WET', 'Bern', 91.1876), ('SMEFT', 'Warsaw', 1000.), ('SMEFT', 'Warsaw', 91.1876), ('SMEFT', 'Warsaw up', 300.), ('SMEFT', 'Warsaw', 10000.)]

LEPS = '(?:e|mu|tau)'
FORBIDDEN = [re.compile(x) for x in (
    r'->.*(?:emu|mue|etau|taue|mutau|taumu)\)$',          # charged-lepton flavour violation
    r'^BR\((?:mu|tau)->(?:egamma|mugamma|eee|mumumu|emumu|muee|eemu|mumue|.*(?:rho|phi|omega|pi|K|eta).*)\)$',
    r'^BR\((?:mu->eee|mu->egamma|tau->.*gamma|tau->mumumu|tau->eee|tau->muee|tau->emumu)\)$',
    r'^CR\(mu->e', )]
ALLOWED = re.compile(r'nu|^R|tau->.*nunu|->Xc|^mu_|^<?(?:FL|AFB|D|Q|P|S|A)')


def forbidden(n):
    if '/' in n and 'd' not in n.split('(')[0]:
        return False
    if 'nu' in n:
        return False
    if not re.match(r'^(<)?(BR|dBR/dq2|Gamma|CR|R|BR_L|tau)', n):
        return False
    if n.startswith(('Rmue', 'Rtau', 'R(', 'R_', 'R9')):
        return False
    return any(p.search(n) for p in FORBIDDEN)


def zero_objects(eft, basis, scale, rng):
    """Objects that all represent the absence of new physics."""
    import flavio
    import wilson
    from wilson import wcxf
    allw = wcxf.Basis[eft, basis].all_wcs
    names = [allw[int(i)] for i in rng.integers(0, len(allw), 6)]

    def w(d):
        x = flavio.WilsonCoefficients()
        x.set_initial(d, scale, eft=eft, basis=basis)
        return x
    out = [('empty', w({})), ('zeros', w({n: 0 for n in names})), ('floats', w({n: 0. for n in names})),
           ('wilson', wilson.Wilson({n: 0. for n in names}, scale, eft, basis)), ('unset', flavio.WilsonCoefficients()), ('none', None)]
    x = w({names[0]: 1e-9})
    x.set_initial({}, scale, eft=eft, basis=basis)
    out.append(('reset', x))
    return out


def close(a, b, tol):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) or (a != a and b != b)


def zero(m, rng, names, nb, per=2):
    import flavio
    par = flavio.default_parameters.get_central_all()
    np.random.seed(int(rng.integers(2**31)))
    pars = [par, flavio.default_parameters.get_random_all()]
    pick = [BASES[int(i)] for i in rng.permutation(len(BASES))[:nb]]
    objs = []
    for e, b, s in pick:
        objs += [(k, e, b, s, w) for k, w in zero_objects(e, b, s, rng)]
    for n in names:
        o = flavio.Observable[n]
        a = O.draw_args(n, rng)
        p = pars[int(rng.random() < .35)]
        ref = float(o.prediction_par(p, flavio.physics.eft._wc_sm, *a))
        if p is par and rng.random() < .4:
            m.check(ref == float(flavio.sm_prediction(n, *a)), 'zero:sm', 'sm_prediction differs from the prediction without coefficients', observable=n, args=a)
        mine = [x for j, x in enumerate(objs) if (j % 3 == 0) == (p is not par)]   # objects meet one parameter point only: fewer repeated matchings
        for i in rng.permutation(len(mine))[:per]:
            k, e, b, s, w = mine[int(i)]
            try:
                if p is par:
                    v = float(flavio.np_prediction(n, w, *a)) if w is not None else ref
                else:
                    v = float(o.prediction_par(p, flavio.WilsonCoefficients.from_wilson(w, p) if w is not None else flavio.physics.eft._wc_sm, *a))
            except Exception as x:
                if 'Running from WET to SMEFT not implemented' in str(x):
                    continue
                m.violate('zero:raised', 'prediction with vanishing coefficients raised %r' % x, observable=n, args=a, kind=k, eft=e, basis=b, scale=s)
                continue
            m.check(close(v, ref, 1e-10), 'zero', 'prediction with vanishing coefficients is %r instead of %r' % (v, ref), observable=n, args=a, kind=k, eft=e, basis=b, scale=s)
            m.event('zero', (n, a, k, e, b, s))
    m.sample({'observable': n, 'args': a, 'value': ref, 'objects': [x[:4] for x in objs[:3]]})


def infinitesimal(m, rng, names, eft, basis, scale, dense=True):
    """Tiny but non-vanishing coefficients: exercises matching and running."""
    import flavio
    from wilson import wcxf
    B = wcxf.Basis[eft, basis]
    size = 1e-50
    d = {}
    for sec in B.sectors.values():
        for c, prop in sec.items():
            if rng.random() < (1 if dense else .2):
                d[c] = size * rng.normal() + (0 if prop and prop.get('real') else 1j * size * rng.normal())
    w = flavio.WilsonCoefficients()
    w.set_initial(d, scale, eft=eft, basis=basis)
    for n in names:
        a = O.draw_args(n, rng)
        ref = float(flavio.sm_prediction(n, *a))
        try:
            v = float(flavio.np_prediction(n, w, *a))
        except Exception as x:
            if 'Running from WET to SMEFT not implemented' in str(x):
                continue
            m.violate('zero:raised', 'prediction with infinitesimal coefficients raised %r' % x, observable=n, args=a, eft=eft, basis=basis, scale=scale)
            continue
        tol = 1e-30 if ref == 0 else 1e-8 * abs(ref)
        m.check(abs(v - ref) <= tol, 'infinitesimal', 'prediction with infinitesimal coefficients is %r instead of %r' % (v, ref), observable=n, args=a, eft=eft, basis=basis, scale=scale)
        m.event('zero', (n, a, 'inf', eft, basis, scale))


def shrink(m, rng, n, names):
    """Deviations from the Standard Model vanish with the coefficients."""
    import flavio
    from checks import p08
    for case in range(n):
        kind = str(rng.choice(['wet', 'wet2', 'wet3', 'smeft', 'smeft2']))
        c = p08.WCS[kind]
        ph = {k: complex(rng.normal(), rng.normal()) if eftcomplex(c, k) else float(rng.normal()) for k in c['d']}
        ws = []
        for eps in (1e-2, 1e-3, 1e-4, 1e-6):
            w = flavio.WilsonCoefficients()
            w.set_initial({k: abs(v) * ph[k] * eps for k, v in c['d'].items()}, c['scale'], eft=c['eft'], basis=c['basis'])
            ws.append(w)
        for x in [names[int(i)] for i in rng.permutation(len(names))[:24]]:
            a = O.draw_args(x, rng)
            ref = float(flavio.sm_prediction(x, *a))
            try:
                d = [abs(float(flavio.np_prediction(x, w, *a)) - ref) for w in ws]
            except Exception as ex:
                if 'Running from WET to SMEFT not implemented' in str(ex):
                    continue
                m.violate('shrink:raised', 'prediction raised %r' % ex, observable=x, args=a, kind=kind)
                continue
            noise = max(1e-7 * abs(ref), 1e-5 * d[0])
            if max(d) > noise:
                m.event('shrink', (x, a, kind))
            # at the small end the deviation is linear (or of higher order) in the coefficients
            ok = d[3] <= 0.02 * d[2] + noise and d[2] <= 0.3 * max(d[0], d[1]) + noise
            m.check(ok, 'shrink', 'deviations %r from the Standard Model value %r do not shrink with the coefficients (1e-2, 1e-3, 1e-4, 1e-6)' % (d, ref), observable=x, args=a, kind=kind,
                    coefficients={k: str(v) for k, v in ph.items()})
    m.sample({'kind': kind, 'last': x, 'deviations': d, 'sm': ref})


def eftcomplex(c, k):
    from wilson import wcxf
    for sec in wcxf.Basis[c['eft'], c['basis']].sectors.values():
        if k in sec:
            p = sec[k]
            return not (p and p.get('real'))
    raise KeyError(k)


def special(m, rng, names, npar):
    """Forbidden processes and signal strengths, for random parameters."""
    import flavio
    np.random.seed(int(rng.integers(2**31)))
    fb = [n for n in names if forbidden(n)]
    st = [n for n in names if re.match(r'^mu_', n)]
    for k in range(npar):
        p = flavio.default_parameters.get_random_all() if k else flavio.default_parameters.get_central_all()
        for n in fb:
            a = O.draw_args(n, rng)
            if a and isinstance(O.info(n).args, (list, tuple)) and O.info(n).args[0].startswith('Ce'):
                a = (0,) * len(a)     # these arguments are themselves new physics
            v = float(flavio.Observable[n].prediction_par(p, flavio.physics.eft._wc_sm, *a))
            m.check(v == 0, 'forbidden', 'forbidden process has the Standard Model value %r' % v, observable=n, args=a)
            m.event('forbidden', (n, a, k))
        for n in st:
            v = float(flavio.Observable[n].prediction_par(p, flavio.physics.eft._wc_sm, *O.draw_args(n, rng)))
            m.check(abs(v - 1) < 1e-9, 'strength', 'signal strength is %r in the Standard Model' % v, observable=n)
            m.event('strength', (n, k))
    m.sample({'forbidden': fb[:5], 'n': len(fb), 'strengths': st[:5]})


def jobs(tier, seed):
    t = tier == 'thorough'
    names = O.usable()
    out = []
    names = [names[int(i)] for i in np.random.default_rng(seed).permutation(len(names))]
    for i in range(16):
        out.append({'name': 'zero#%d' % i, 'fn': zero, 'args': {'names': names[i::16], 'nb': 6 if t else 3, 'per': 6 if t else 2}})
    inf = [('WET', 'flavio', 4.8), ('WET', 'flavio', 160.), ('SMEFT', 'Warsaw', 1000.), ('WET', 'JMS', 91.1876)]
    for j, (e, b, s) in enumerate(inf):
        for i in range(4):
            nm = names[i::4]
            if not t:
                nm = [x for k, x in enumerate(nm) if (k + seed + j) % 5 == 0]
            out.append({'name': 'infinitesimal-%d#%d' % (j, i), 'fn': infinitesimal, 'args': {'names': nm, 'eft': e, 'basis': b, 'scale': s, 'dense': bool((seed + i) % 2)}})
    out += split_jobs('shrink', shrink, 160 if t else 28, 14, names=names)
    out += [{'name': 'special#%d' % i, 'fn': special, 'args': {'names': names, 'npar': 8 if t else 2}} for i in range(2)]
    return out
