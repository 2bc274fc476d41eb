"""P17: meson mixing."""
import cmath
import math
import numpy as np
from lib import obs as O, npwc
from lib.util import split_jobs, logu

RULE = ('mixing functions at random dispersive and absorptive amplitudes of all relative sizes and phases; every mixing observable of all four meson systems at random parameters and complex coefficients against an independent diagonalisation of the Hamiltonian; '
        'the same after rephasing the quark fields; distinct by (observable, point)')
ASSUMPTIONS = ['absorptive amplitudes are those of the Standard Model, as documented', 'the flavour-specific asymmetry is defined in the small-width limit, as documented']
MIN = {'functions': 2000, 'observables': 600, 'amplitude': 150, 'phases': 150, 'limits': 100}
SYS = {'B0': ('bd', 'd'), 'Bs': ('bs', 's'), 'K0': ('sd', None), 'D0': ('uc', None)}
ME = {'VLL': lambda B, r: B[1] / 3, 'VRR': lambda B, r: B[1] / 3, 'SLR': lambda B, r: r * B[4] / 4, 'VLR': lambda B, r: -r * B[5] / 6, 'SLL': lambda B, r: -5 * r * B[2] / 24, 'SRR': lambda B, r: -5 * r * B[2] / 24,
      'TLL': lambda B, r: r * (5 * B[2] / 3 - 2 * B[3] / 3) / 2, 'TRR': lambda B, r: r * (5 * B[2] / 3 - 2 * B[3] / 3) / 2}


def eigen(M, G):
    """[(mass, width, q/p)] of the two states p|M> + q|Mbar>"""
    H = np.array([[0, M - .5j * G], [np.conj(M) - .5j * np.conj(G), 0]], complex)
    s = abs(H).max()
    val, vec = np.linalg.eig(H / s)
    return [(float(v.real * s), float(-2 * v.imag * s), complex(vec[1, i] / vec[0, i])) for i, v in enumerate(val)]


def cplx(rng, size):
    return size * cmath.exp(1j * rng.uniform(0, 2 * math.pi))


def functions(m, rng, n, seed):
    from flavio.physics.mesonmixing import common as c
    for k in range(n):
        M = cplx(rng, logu(rng, 1e-16, 1e-10))
        G = cplx(rng, abs(M) * logu(rng, 1e-4, 1e2))
        if rng.random() < .1:
            M = complex(abs(M) * rng.choice([-1, 1]))
        if rng.random() < .05:
            G = 0j
        e = eigen(M, G)
        e.sort(key=lambda x: x[2].real)      # state 1: negative real part of q/p
        if abs(e[0][2].real) < 1e-6 * abs(e[0][2]):
            continue
        (m1, g1, qp), (m2, g2, _) = e
        big = abs(M) + abs(G)
        m.close(complex(c.q_over_p(M, G)), qp, 'q/p', 'not the mixing coefficient of the eigenstate', rtol=1e-8, M12=M, G12=G)
        m.close(c.DeltaM(M, G), m2 - m1, 'DeltaM', 'not the difference of the eigenvalues', rtol=1e-8, atol=1e-9 * big, M12=M, G12=G)
        m.close(c.DeltaGamma(M, G), g1 - g2, 'DeltaGamma', 'not the difference of the widths', rtol=1e-8, atol=1e-9 * big, M12=M, G12=G)
        if G != 0:
            m.close(c.a_fs(M, G), (G / M).imag, 'a_fs', 'not Im(G12/M12)', rtol=1e-9, atol=1e-9 * abs(G / M), M12=M, G12=G)
        # phase convention
        a = cmath.exp(1j * rng.uniform(0, 6.28))
        m.close(abs(c.DeltaM(M * a, G * a)), abs(m2 - m1), 'rephase:DeltaM', 'depends on the phase convention', rtol=1e-7, atol=1e-9 * big, M12=M, G12=G, phase=a)
        m.close(abs(c.q_over_p(M * a, G * a)), abs(qp), 'rephase:q/p', 'modulus depends on the phase convention', rtol=1e-8, M12=M, G12=G)
        m.close(c.DeltaM(M * a, G * a) * c.DeltaGamma(M * a, G * a), (m2 - m1) * (g1 - g2), 'rephase:product', 'sign of Delta M Delta Gamma depends on the phase convention', rtol=1e-6, atol=1e-9 * big**2, M12=M, G12=G)
        m.close(c.DeltaM(M, G) * c.DeltaGamma(M, G), -4 * (M.real * G.real + M.imag * G.imag), 'identity', 'Delta M Delta Gamma = -4 Re(M12 G12*)', rtol=1e-7, atol=1e-9 * big**2, M12=M, G12=G)
        m.close(c.DeltaM(M, G)**2 - c.DeltaGamma(M, G)**2 / 4, 4 * abs(M)**2 - abs(G)**2, 'identity', 'Delta M^2 - Delta Gamma^2/4 = 4|M12|^2 - |G12|^2', rtol=1e-7, atol=1e-9 * big**2, M12=M, G12=G)
        m.event('functions', (seed, k))


def point(rng, meson, sizes=(0., .3, 1., 3.)):
    import flavio
    np.random.seed(int(rng.integers(2**31)))
    p = O.random_par() if rng.random() < .8 else dict(O.par())
    q = SYS[meson][0]
    f = float(rng.choice(sizes))
    sc = flavio.config['renormalization scale'][meson + ' mixing']
    d = {}
    if f:
        lab = {'K0': 'sdsd', 'D0': 'ucuc'}.get(meson, q + q)
        for c, s, real in npwc.coefficients():
            if c.endswith('_' + lab) and rng.random() < .7:
                d[c] = f * npwc.size(c) * complex(rng.normal(), rng.normal())
    w = flavio.WilsonCoefficients()
    eft = {'K0': 'WET-3', 'D0': 'WET-4'}.get(meson, 'WET')
    if d:
        w.set_initial(d, sc, eft=eft, basis='flavio')
    return p, w, d


def mass_at_scale(q, p, sc):
    from flavio.physics.running import running as r
    return r.get_mq(q, p, sc)


def amplitude(m, rng, n, seed):
    """the dispersive amplitude is SM + sum of coefficient times matrix element"""
    import flavio
    from flavio.physics.mesonmixing import observables as ob
    for k in range(n):
        meson = ('B0', 'Bs', 'K0', 'D0')[k % 4]
        p, w, d = point(rng, meson, (.3, 1., 3.))
        sc = flavio.config['renormalization scale'][meson + ' mixing']
        M0, G0 = ob.get_M12_G12(flavio.WilsonCoefficients(), p, meson)
        M1, G1 = m.call('amplitude', ob.get_M12_G12, w, p, meson)
        q = SYS[meson][0]
        r = (p['m_' + meson] / (mass_at_scale(q[0], p, sc) + mass_at_scale(q[1], p, sc)))**2
        B = {i: p['bag_%s_%d' % (meson, i)] for i in range(1, 6)}
        e = 0
        for c, v in d.items():
            e -= v * ME[c[1:4]](B, r) * p['m_' + meson] * p['f_' + meson]**2
        m.close(M1 - M0, e, 'linear:' + meson, 'new-physics amplitude is not the sum of coefficient times matrix element', rtol=1e-7, atol=1e-9 * (abs(M0) + abs(e)), meson=meson, coefficients=d)
        m.close(complex(G1), complex(G0), 'absorptive', 'absorptive amplitude changed', rtol=0, meson=meson)
        # sum of two sets
        _, w2, d2 = point(rng, meson, (1.,))
        both = {c: d.get(c, 0) + d2.get(c, 0) for c in set(d) | set(d2)}
        wb = flavio.WilsonCoefficients()
        if both:
            wb.set_initial(both, sc, eft={'K0': 'WET-3', 'D0': 'WET-4'}.get(meson, 'WET'), basis='flavio')
        m.close(ob.get_M12_G12(wb, p, meson)[0], M1 + ob.get_M12_G12(w2, p, meson)[0] - M0, 'linear:' + meson, 'amplitude is not linear', rtol=1e-9, atol=1e-12 * abs(M0), meson=meson)
        m.event('amplitude', (meson, seed, k))


def expected(meson, p, M, G):
    """all observables of one system from the mixing amplitudes"""
    from flavio.physics import ckm
    e = eigen(M, G) if G != 0 else eigen(M, 0j)
    V = np.array(ckm.get_ckm(p))
    out = {}
    if meson in ('B0', 'Bs'):
        q = SYS[meson][1]
        (ml, gl, qp), (mh, gh, _) = sorted(e)
        out['DeltaM_' + q] = mh - ml
        out['DeltaGamma_' + q] = gl - gh
        out['a_fs_' + q] = (G / M).imag
        i = {'d': 0, 's': 1}[q]
        A = V[1, 2] * np.conj(V[1, i])
        lam = (-1 if q == 'd' else 1) * qp * A / np.conj(A)
        out['S_psiK' if q == 'd' else 'S_psiphi'] = float(-2 * lam.imag / (1 + abs(lam)**2))
    elif meson == 'K0':
        out['eps_K'] = p['kappa_epsilon'] * M.imag / p['DeltaM_K0'] / math.sqrt(2)
    else:
        t = p['tau_D0']
        (m1, g1, qp), (m2, g2, _) = sorted(e, key=lambda x: x[2].real)
        out['x_D'], out['y_D'] = (m1 - m2) * t, (g1 - g2) * t / 2
        out['q/p_D'], out['phi_D'] = abs(qp), cmath.phase(-qp)
        out['x12_D'], out['y12_D'] = 2 * abs(M) * t, abs(G) * t
        out['phi12_D'] = cmath.phase(M / G)
        out['x12Im_D'] = 2 * abs(M) * t * math.sin(cmath.phase(M / G))
    return out


def observables(m, rng, n, seed):
    import flavio
    from flavio.physics.mesonmixing import observables as ob
    for k in range(n):
        meson = ('B0', 'Bs', 'K0', 'D0')[k % 4]
        p, w, d = point(rng, meson)
        M, G = ob.get_M12_G12(w, p, meson)
        M, G = complex(M), complex(G)
        if meson in ('B0', 'Bs'):
            lo = min(abs(x[2].real) for x in eigen(M, G))
        for nm, v in expected(meson, p, M, G).items():
            x = float(m.call('observables', flavio.Observable[nm].prediction_par, p, w))
            if 'phi' in nm and nm[0] == 'p':
                m.check(abs(math.remainder(x - v, 2 * math.pi)) < 1e-7, 'observable:' + nm, 'not the function of the mixing amplitudes', observed=x, expected=v, M12=M, G12=G)
            else:
                m.close(x, v, 'observable:' + nm, 'not the function of the mixing amplitudes', rtol=1e-7, atol=1e-10 * abs(G / M) if nm.startswith('a_fs') else 1e-10 if nm[0] in 'Sxy' else 1e-9 * (abs(M) + abs(G)) if 'Delta' in nm else 0, M12=M, G12=G, d=d)
            m.event('observables', (nm, seed, k))
            m.sample((nm, x))
        if meson == 'B0' and k % 3 == 0:
            a = flavio.Observable['DeltaM_d'].prediction_par(p, w)
            b = flavio.Observable['DeltaM_s'].prediction_par(p, w)
            m.close(flavio.Observable['DeltaM_d/DeltaM_s'].prediction_par(p, w), a / b, 'observable:ratio', 'ratio of mass differences', rtol=1e-12)


def limits(m, rng, n, seed):
    """Standard Model and small-width limits"""
    import flavio
    from flavio.physics import ckm
    from flavio.physics.mesonmixing import observables as ob
    sm = flavio.WilsonCoefficients()
    for k in range(n):
        p, w, d = point(rng, 'B0', (0., 1.))
        par = dict(p)
        for me in ('B0', 'Bs'):
            for x in 'ac':
                par['Gamma12_%s_%s' % (me, x)] = 1e-7 * p['Gamma12_%s_%s' % (me, x)]
        V = np.array(ckm.get_ckm(p))
        for q, i, S, eta in (('d', 0, 'S_psiK', 1), ('s', 1, 'S_psiphi', -1)):
            me = {'d': 'B0', 's': 'Bs'}[q]
            M, G = ob.get_M12_G12(w, par, me)
            get = lambda o: float(flavio.Observable[o].prediction_par(par, w))
            m.close(get('DeltaM_' + q), 2 * abs(M), 'limit:DeltaM', 'small-width limit 2|M12|', rtol=1e-8)
            m.close(get('DeltaGamma_' + q), -2 * (G * np.conj(M)).real / abs(M), 'limit:DeltaGamma', 'small-width limit', rtol=1e-6, atol=1e-5 * abs(G) + 1e-14 * abs(M))
            A = V[1, 2] * np.conj(V[1, i])
            e = eta * (M * np.conj(A)**2 / abs(M * A**2)).imag
            m.close(get(S), e, 'limit:' + S, 'mixing-induced asymmetry is not the sine of the mixing phase', rtol=1e-7, atol=1e-8)
        b = ckm.get_ckmangle_beta(p)
        m.close(float(flavio.Observable['S_psiK'].prediction_par(p, sm)), math.sin(2 * b), 'limit:sin2beta', 'Standard Model asymmetry is not sin 2 beta', rtol=0, atol=4e-3)
        bs = float(np.angle(-V[2, 1] * np.conj(V[2, 2]) / V[1, 1] / np.conj(V[1, 2])))
        m.close(float(flavio.Observable['S_psiphi'].prediction_par(p, sm)), math.sin(2 * bs), 'limit:sin2betas', 'Standard Model asymmetry is not sin 2 beta_s', rtol=0, atol=4e-3)
        m.event('limits', (seed, k))


def phases(m, rng, n, seed):
    """quark rephasing"""
    import flavio
    from flavio.classes import Implementation
    from checks.p15 import use
    from flavio.physics import ckm
    cur = {}

    def V(wc_obj, par):
        base = ckm._func_tree(wc_obj, par) if hasattr(ckm, '_func_tree') else ckm.ckm_tree(par['Vus'], par['Vub'], par['Vcb'], par['gamma'])
        ph = cur['phases'] if par['gamma'] == cur['gamma'] else np.conj(cur['phases'])
        return np.array(base) * ph
    Implementation(name='verif rephased', quantity='CKM matrix', function=V)
    names = {'B0': ['DeltaM_d', 'DeltaGamma_d', 'a_fs_d', 'S_psiK'], 'Bs': ['DeltaM_s', 'DeltaGamma_s', 'a_fs_s', 'S_psiphi'], 'D0': ['x12_D', 'y12_D', 'phi12_D', 'q/p_D', 'x12Im_D']}
    for k in range(n):
        meson = ('B0', 'Bs', 'D0')[k % 3]
        p, w, d = point(rng, meson)
        pu, pd = rng.uniform(0, 6.28, 3), rng.uniform(0, 6.28, 3)
        cur.update(gamma=p['gamma'], phases=np.exp(1j * (pu[:, None] + pd[None, :])))
        f = {'B0': pd[2] - pd[0], 'Bs': pd[2] - pd[1], 'D0': pu[0] - pu[1]}[meson]
        w2 = flavio.WilsonCoefficients()
        sc = flavio.config['renormalization scale'][meson + ' mixing']
        if d:
            w2.set_initial({c: v * cmath.exp(2j * f) for c, v in d.items()}, sc, eft='WET-4' if meson == 'D0' else 'WET', basis='flavio')
        with use('Tree'):
            a = {o: float(flavio.Observable[o].prediction_par(p, w)) for o in names[meson]}
        with use('verif rephased'):
            b = {o: float(m.call('phases', flavio.Observable[o].prediction_par, p, w2)) for o in names[meson]}
        for o in a:
            if o == 'phi12_D':
                m.check(abs(math.remainder(a[o] - b[o], 2 * math.pi)) < 1e-6, 'phases:' + o, 'depends on the phase convention of the quarks', before=a[o], after=b[o])
            else:
                m.close(b[o], a[o], 'phases:' + o, 'depends on the phase convention of the quarks', rtol=1e-6, atol=1e-9 if o[0] in 'Sax' else 0, d=d)
        m.event('phases', (meson, seed, k))


def jobs(tier, seed):
    t = tier == 'thorough'
    f = 15 if t else 1
    return (split_jobs('functions', functions, 4000 * f, 4, seed=seed) + split_jobs('observables', observables, 480 * f, 6, seed=seed) + split_jobs('amplitude', amplitude, 240 * f, 4, seed=seed)
            + split_jobs('limits', limits, 160 * f, 3, seed=seed) + split_jobs('phases', phases, 240 * f, 4, seed=seed))
