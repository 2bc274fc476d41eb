"""P13: CP conjugation acts on predictions as physics demands."""
import re
import warnings
import numpy as np
from lib import obs as O
from lib import npwc
from lib.util import split_jobs

RULE = ('every observable at random arguments, a random parameter point (CKM phase anywhere on the circle, four CKM parametrizations) and random complex Wilson coefficients in all sectors, compared with the CP mirror '
        '(all weak phases conjugated): even, odd, inverted or phi-mirrored according to the kind of observable; CP-odd quantities without weak phases; conjugation of parameters and coefficients; '
        'distinct by (observable, parametrization, new-physics point)')
ASSUMPTIONS = ['B->X ll, B->ll gamma and Lambdab->Lambda ll are computed for one of the two conjugate decays only and are left out',
               'B->V ll: QCD factorization computed for the differential observables, spectator scattering off for the bins (its interpolation tables are for fixed CKM parameters)',
               'mixing-induced asymmetries of radiative decays are defined for |q/p|=1 and compared within the deviation of |q/p| from one']
MIN = {'even': 600, 'odd': 60, 'vanishing': 40, 'conjugate': 30}

ODD = re.compile(r'(<?ACP>?\(|<?A\d|<?A6s|<?A_\d|<?ATIm|S_psiK|S_psiphi|S_K\*gamma|S_phigamma|a_fs|phi_D|phi12_D|x12Im_D|eps_K|epsp/eps|d_Tl|omega_\+|omega_|D_n|R_n$)')
SKIP = re.compile(r'->X[sd](ee|mumu|tautau|ll)\)|->(ee|mumu)gamma\)$|Lambdab->Lambda(ee|mumu)\)')
RAD = re.compile(r'S_K\*gamma|S_phigamma|ADeltaGamma\(Bs->phigamma|BR\(.*Bs->phigamma')
SPECT = ('B0->K*0', 'B+->K*+', 'Bs->phi', 'Bs->K*0')
CKMS = {'Tree': ('gamma',), 'Standard': ('delta',), 'Wolfenstein': ('etabar',), 'beta gamma': ('beta', 'gamma')}


def parity(n):
    if n == 'q/p_D':
        return 'inverse'
    return 'odd' if ODD.match(n) and n not in ('DeltaM_d', 'DeltaM_s') else 'even'


def set_ckm(name):
    import flavio
    impl = [i for i in flavio.config['implementation'] if i.startswith('CKM')][0]
    flavio.config['implementation'][impl] = 'Tree' if name == 'Tree' else name


def zero_spectator():
    import flavio
    from flavio.classes import Implementation
    for p in SPECT:
        Implementation(name=p + 'll verif none', quantity=p + 'll spectator scattering',
                       function=lambda wc_obj, par_dict, q2, cp_conjugate: {(h, x): 0 for h in ('0', 'pl', 'mi') for x in 'VA'})


def spectator(which):
    import flavio
    for p in SPECT:
        flavio.config['implementation'][p + 'll spectator scattering'] = p + 'll ' + which


def full_par(rng, ckm):
    """random parameters, including consistent ones for every CKM parametrization, and the mirror"""
    p = O.random_par()
    p['gamma'] = float(rng.uniform(-np.pi, np.pi)) if rng.random() < .5 else p['gamma']
    p['delta'] = float(rng.uniform(-np.pi, np.pi)) if rng.random() < .5 else 1.2
    p['t12'], p['t13'], p['t23'] = .2270 + 1e-4 * rng.normal(), .0037 + 1e-4 * rng.normal(), .042 + 1e-4 * rng.normal()
    p['laC'], p['A'], p['rhobar'], p['etabar'] = .225 + 1e-4 * rng.normal(), .82 + .01 * rng.normal(), .14 + .02 * rng.normal(), float(rng.choice([-1, 1])) * (.36 + .02 * rng.normal())
    p['beta'] = .39 + .02 * rng.normal()
    if ckm == 'beta gamma':
        p['gamma'] = abs(p['gamma']) if .5 < abs(p['gamma']) < 2 else 1.2
        if rng.random() < .5:
            p['beta'], p['gamma'] = -p['beta'], -p['gamma']
    c = dict(p)
    for k in CKMS[ckm]:
        c[k] = -p[k]
    return p, c


def mirror_args(n, i, a):
    if i.args and i.args[0] == 'phi':
        return (2 * np.pi - a[0],)
    if i.args and i.args[0] == 'phimin':
        return (2 * np.pi - a[1], 2 * np.pi - a[0])
    if i.args and i.args[0] == 'CeFFij':
        return (a[0], a[1], -a[2], -a[3])       # the dual field strength is CP odd
    if i.args and i.args[0].startswith('CeGG'):
        return a
    return a


def draw_wc(rng, k):
    import flavio
    w, c = flavio.WilsonCoefficients(), flavio.WilsonCoefficients()
    if k % 5 == 4:
        return w, c, 'sm'
    d = npwc.draw(rng, amount=float(rng.choice([.3, 1.])), density=float(rng.choice([.4, 1.])))
    scale = float(rng.choice([4.2, 4.8, 80.]))
    w.set_initial(d, scale)
    c.set_initial({k: np.conj(v) for k, v in d.items()}, scale)
    return w, c, 'wet%g' % scale


def bvll(n):
    return bool(re.search(r'->(K\*|phi)(ee|mumu|ll|gamma)', n) or re.search(r'[KX]\*?gamma|phigamma', n))


def compare(m, n, par, cpar, w, c, a, am, label, qop):
    import flavio
    o = flavio.Observable[n]
    try:
        x, y = float(o.prediction_par(par, w, *a)), float(o.prediction_par(cpar, c, *am))
    except ValueError as e:
        if 'Running from WET to SMEFT' in str(e):
            return False
        raise
    kind = parity(n)
    tol = 3e-5
    if RAD.match(n):
        tol = 3e-4 + 4 * qop
    floor = 1e-11 if kind == 'odd' and '_n' not in n and 'd_' not in n else 0
    ref = {'even': x, 'odd': -x, 'inverse': 1 / x if x else x}[kind]
    fam = n.split('(')[0] if '(' in n else n
    m.close(y, ref, 'mirror:' + fam, 'CP mirror of a CP-%s quantity' % kind, rtol=tol, atol=floor + (tol if RAD.match(n) else 0), obs=n, args_=a, point=label)
    m.event('odd' if kind == 'odd' else 'even', (n, label))
    if kind == 'odd' and abs(x) > 1e-6:
        m.event('nonzero', (n, label))
    m.sample((n, a, label, x, y))
    return True


def qop_dev(par, w):
    from flavio.physics.mesonmixing.observables import q_over_p
    return max(abs(abs(q_over_p(w, par, b)) - 1) for b in ('B0', 'Bs'))


def mirror(m, rng, names, n, seed):
    import flavio
    zero_spectator()
    cks = list(CKMS)
    for k in range(n):
        ck = cks[0] if rng.random() < .4 else cks[int(rng.integers(4))]
        flavio.config['implementation']['CKM matrix'] = ck
        np.random.seed(int(rng.integers(2**31)))
        par, cpar = full_par(rng, ck)
        w, c, lab = draw_wc(rng, int(rng.integers(5)))
        qop = qop_dev(par, w)
        for nm in names:
            i = O.info(nm)
            a = O.draw_args(nm, rng, i)
            spectator('verif none')
            compare(m, nm, par, cpar, w, c, a, mirror_args(nm, i, a), '%s %s %d/%d' % (ck, lab, seed, k), qop)
    flavio.config['implementation']['CKM matrix'] = 'Tree'


def qcdf(m, rng, names, seed):
    """computed (not interpolated) spectator scattering"""
    import flavio
    spectator('QCDF')
    np.random.seed(int(rng.integers(2**31)))
    par, cpar = full_par(rng, 'Tree')
    w, c, lab = draw_wc(rng, int(rng.integers(4)))
    qop = qop_dev(par, w)
    for nm in names:
        i = O.info(nm)
        a = (float(rng.uniform(.3, 5.9)),) if i.args else ()
        compare(m, nm, par, cpar, w, c, a, a, 'QCDF %s %d' % (lab, seed), qop)


NULL = re.compile(r'(<?ACP>?\(|<?A[345789]>?\(|<?A6s|<?A_\d|a_fs|eps_K|epsp/eps|phi_D|phi12_D|x12Im_D|d_n|d_Tl|omega_|D_n|R_n$|BR\(KL->pi0?nunu\)|S_psi)')


def vanish(m, rng, n, seed):
    """no weak phases: real coefficients and a real CKM matrix"""
    import flavio
    zero_spectator()
    names = [x for x in O.usable() if NULL.match(x)]
    for k in range(n):
        np.random.seed(int(rng.integers(2**31)))
        par = O.random_par()
        pr = dict(par, gamma=0.)
        if k % 2:
            w, lab = flavio.WilsonCoefficients(), 'sm'
        else:
            w, lab = npwc.wet(rng, 4.8, amount=.5, density=.6, real=True), 'real'
        for nm in names:
            i = O.info(nm)
            a = O.draw_args(nm, rng, i)
            spectator('verif none')
            o = flavio.Observable[nm]
            x = float(o.prediction_par(pr, w, *a))
            ref = abs(float(o.prediction_par(par, w, *a)))
            fam = nm.split('(')[0] if '(' in nm else nm
            if nm == 'phi12_D':
                x = np.sin(x)
            if nm in ('D_n', 'R_n'):
                ref = 1
            m.check(abs(x) <= 1e-9 * ref + (1e-12 if ref > 1e-9 or fam.strip('<>')[0] == 'A' else 0) or abs(x) < 1e-25, 'vanish:' + fam, 'CP-odd quantity without weak phases', obs=nm, args_=a, value=x, with_phase=ref, point=lab)
            m.event('vanishing', (nm, lab, seed, k))


def conj(m, rng, n, seed):
    """conjugation of parameters and coefficients"""
    import flavio
    from flavio.physics.common import conjugate_par, conjugate_wc
    from flavio.physics import ckm
    for k in range(n):
        for ck in CKMS:
            flavio.config['implementation']['CKM matrix'] = ck
            par, cpar = full_par(rng, ck)
            before = dict(par)
            c = m.call('conjugate', conjugate_par, par)
            m.check(par == before, 'conjugate:input', 'conjugate_par changes its argument', ckm=ck)
            m.close(ckm.get_ckm(c), np.conj(ckm.get_ckm(par)), 'conjugate:ckm', 'CKM matrix of conjugated parameters', rtol=1e-9, atol=1e-12, ckm=ck)
            m.close(ckm.get_ckm(c), ckm.get_ckm(cpar), 'conjugate:ckm', 'CKM matrix of conjugated parameters', rtol=1e-9, atol=1e-12, ckm=ck)
            m.check(conjugate_par(c) == before, 'conjugate:twice', 'conjugating twice', ckm=ck)
            same = {q for q in par if c[q] == par[q]}
            m.check(set(par) - same <= {'gamma', 'delta', 'etabar', 'beta'}, 'conjugate:other', 'conjugate_par changes %s' % sorted(set(par) - same), ckm=ck)
            m.event('conjugate', (ck, seed, k))
        wc = {'C%d' % j: complex(*rng.normal(size=2)) for j in range(4)}
        before = dict(wc)
        c = conjugate_wc(wc)
        m.check(wc == before and c == {q: v.conjugate() for q, v in wc.items()}, 'conjugate:wc', 'conjugate_wc', wc=wc)
        m.event('conjugate', ('wc', seed, k))
    flavio.config['implementation']['CKM matrix'] = 'Tree'


def jobs(tier, seed):
    t = tier == 'thorough'
    names = [n for n in O.usable() if not SKIP.search(n)]
    names = [names[int(i)] for i in np.random.default_rng(seed).permutation(len(names))]
    out = []
    for i in range(16):
        out.append({'name': 'mirror#%d' % i, 'fn': mirror, 'args': {'names': names[i::16], 'n': 12 if t else 2, 'seed': seed}})
    dec = [n for n in names if O.info(n).args in (None, [], ('q2',), ['q2']) and re.search(r'(B0->K\*|B\+->K\*|Bs->phi)(mumu|ee|gamma)|S_K\*|S_phig', n)]
    dec = dec if t else dec[:40]
    for i in range(8):
        out.append({'name': 'qcdf#%d' % i, 'fn': qcdf, 'args': {'names': dec[i::8], 'seed': seed}})
    out += split_jobs('vanish', vanish, 24 if t else 4, 4, seed=seed)
    out += split_jobs('conj', conj, 400 if t else 40, 1, seed=seed)
    return out
