"""P15: the quark mixing matrix."""
import math
import numpy as np
from lib import obs as O
from lib.util import split_jobs, logu

RULE = ('the matrix of every registered parametrisation at random admissible inputs, alternating parameter points and parametrisations; the same point through every parametrisation; derived angles and combinations in random phase conventions; '
        'observables under every parametrisation; distinct by (parametrisation, point)')
ASSUMPTIONS = ['inputs inside the range in which the expansion behind the tree-level parametrisation is exact to 1e-9: Vus in (0.15, 0.35), Vcb in (0.02, 0.08), Vub in (0.0005, 0.02), gamma unrestricted']
MIN = {'matrix': 800, 'agree': 150, 'angles': 150, 'observables': 30, 'history': 200}

PARAMS = {'Standard': ('t12', 't13', 't23', 'delta'), 'Tree': ('Vus', 'Vub', 'Vcb', 'gamma'), 'Wolfenstein': ('laC', 'A', 'rhobar', 'etabar'), 'beta gamma': ('Vus', 'Vcb', 'beta', 'gamma')}


def V_from_angles(s12, s13, s23, d):
    """independent construction: product of three rotations"""
    c12, c13, c23 = (math.sqrt(1 - s * s) for s in (s12, s13, s23))
    e = complex(math.cos(d), math.sin(d))
    R23 = np.array([[1, 0, 0], [0, c23, s23], [0, -s23, c23]], complex)
    R13 = np.array([[c13, 0, s13 / e], [0, 1, 0], [-s13 * e, 0, c13]], complex)
    R12 = np.array([[c12, s12, 0], [-s12, c12, 0], [0, 0, 1]], complex)
    return R23 @ R13 @ R12


def angles(V):
    a = np.angle(-V[2, 0] * V[2, 2].conj() / V[0, 0] / V[0, 2].conj())
    b = np.angle(-V[1, 0] * V[1, 2].conj() / V[2, 0] / V[2, 2].conj())
    g = np.angle(-V[0, 0] * V[0, 2].conj() / V[1, 0] / V[1, 2].conj())
    return float(a), float(b), float(g)


def inputs(V):
    """the inputs of every parametrisation that describe the matrix V"""
    s13 = abs(V[0, 2])
    c13 = math.sqrt(1 - s13**2)
    s12, s23 = abs(V[0, 1]) / c13, abs(V[1, 2]) / c13
    # phase convention independent: J and real quartet
    q = V[0, 0] * V[2, 2] * V[0, 2].conj() * V[2, 0].conj()
    c12, c23 = math.sqrt(1 - s12**2), math.sqrt(1 - s23**2)
    J = (V[0, 1] * V[1, 2] * V[0, 2].conj() * V[1, 1].conj()).imag
    sd = J / (c12 * c23 * c13**2 * s12 * s23 * s13)
    # |Vcd|^2 = s12^2 c23^2 + c12^2 s23^2 s13^2 + 2 s12 c23 c12 s23 s13 cos d
    cd = (abs(V[1, 0])**2 - (s12 * c23)**2 - (c12 * s23 * s13)**2) / (2 * s12 * c12 * c23 * s23 * s13)
    lam = s12
    A = s23 / lam**2
    rho = -V[0, 0] * V[0, 2].conj() / (V[1, 0] * V[1, 2].conj())
    # the Wolfenstein parameters are defined without the cos(theta13) factors
    lam = abs(V[0, 1]) / math.hypot(abs(V[0, 0]), abs(V[0, 1]))
    A = abs(V[1, 2]) / abs(V[0, 1]) / lam
    _, b, g = angles(V)
    return {'t12': math.asin(s12), 't13': math.asin(s13), 't23': math.asin(s23), 'delta': math.atan2(sd, cd) if q is not None else 0,
            'Vus': abs(V[0, 1]), 'Vub': abs(V[0, 2]), 'Vcb': abs(V[1, 2]), 'gamma': g, 'beta': b, 'laC': lam, 'A': A, 'rhobar': rho.real, 'etabar': rho.imag}


def draw(rng):
    """matrix at a random point; the phase takes all values including the special ones"""
    vus, vcb = rng.uniform(.15, .35), rng.uniform(.02, .08)
    vub = logu(rng, 5e-4, .02)
    d = float(rng.choice([rng.uniform(-math.pi, math.pi), rng.uniform(.9, 1.4), rng.choice([1e-3, -1e-3, math.pi / 2, -math.pi / 2, math.pi - 1e-3, .5])], p=[.6, .2, .2]))
    c13 = math.sqrt(1 - vub**2)
    return V_from_angles(vus / c13, vub, vcb / c13, d)


class use:
    """select a parametrisation"""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        import flavio
        self.old = flavio.config['implementation']['CKM matrix']
        flavio.config['implementation']['CKM matrix'] = self.name

    def __exit__(self, *a):
        import flavio
        flavio.config['implementation']['CKM matrix'] = self.old


def dphi(a, b):
    return abs(math.remainder(a - b, 2 * math.pi))


def matrix(m, rng, n, seed):
    from flavio.physics import ckm
    for k in range(n):
        name = str(rng.choice(list(PARAMS)))
        if name == 'Standard' and rng.random() < .5:      # no restriction at all here
            par = {'t12': rng.uniform(.01, 1.5), 't13': rng.uniform(.001, 1.5), 't23': rng.uniform(.01, 1.5), 'delta': rng.uniform(-math.pi, math.pi)}
            tol = 1e-9
        else:
            V0 = draw(rng)
            i0 = inputs(V0)
            if name == 'beta gamma' and (abs(i0['beta']) < 1e-3 or abs(math.sin(i0['beta'] + i0['gamma'])) < .05):
                continue
            par = {p: i0[p] for p in PARAMS[name]}
            tol = 2e-8
        with use(name):
            V = np.array(m.call('matrix', ckm.get_ckm, par))
        m.close(V @ V.conj().T, np.eye(3), 'unitary', 'V V+ is not one', rtol=0, atol=1e-9, parametrisation=name, par=par, V=V)
        m.close(V.conj().T @ V, np.eye(3), 'unitary', 'V+ V is not one', rtol=0, atol=1e-9, parametrisation=name, par=par, V=V)
        got = inputs(V)
        for p in PARAMS[name]:
            if p in ('delta', 'gamma', 'beta'):
                m.check(dphi(got[p], par[p]) < 1e-5, 'reproduces:' + name, 'input phase %s is not that of the matrix' % p, par=par, got=got[p])
            else:
                m.close(got[p], par[p], 'reproduces:' + name, 'input %s is not that of the matrix' % p, rtol=1e-6, atol=1e-9, par=par)
        # phase convention of the standard form
        for (i, j) in ((0, 0), (0, 1), (1, 2), (2, 2)):
            m.check(abs(V[i, j].imag) <= 1e-12 and V[i, j].real >= 0, 'convention', 'element %d%d is not real and positive' % (i, j), parametrisation=name, par=par, V=V)
        if name == 'Standard':
            m.close(V, V_from_angles(math.sin(par['t12']), math.sin(par['t13']), math.sin(par['t23']), par['delta']), 'standard', 'not the product of the three rotations', rtol=0, atol=1e-12, par=par)
        else:
            m.close(V, V0, 'value:' + name, 'not the matrix the inputs were computed from', rtol=0, atol=2e-7, par=par)
        m.event('matrix', (name, seed, k, round(par[PARAMS[name][0]], 6)))
        m.sample((name, par))


def agree(m, rng, n, seed):
    """one physical point through all parametrisations, alternating with another point"""
    from flavio.physics import ckm
    for k in range(n):
        pts = [draw(rng) for _ in range(3)]
        ins = [inputs(V) for V in pts]
        ref = {}
        for _ in range(14):
            q, name = int(rng.integers(3)), str(rng.choice(list(PARAMS)))
            if name == 'beta gamma' and (abs(ins[q]['beta']) < 1e-3 or abs(math.sin(ins[q]['beta'] + ins[q]['gamma'])) < .05):
                continue
            with use(name):
                V = np.array(m.call('agree', ckm.get_ckm, dict(ins[q])))
            m.close(V, pts[q], 'agree', 'parametrisations disagree about the same point', rtol=0, atol=2e-7, parametrisation=name, par=ins[q])
            if (q, name) in ref:
                m.close(V, ref[q, name], 'history', 'the matrix depends on what was computed before', rtol=0, atol=0, parametrisation=name)
                m.event('history', (seed, k, q, name))
            ref[q, name] = V
        m.event('agree', (seed, k))
        t = ins[0]
        w = [float(x) for x in m.call('wolfenstein', ckm.tree_to_wolfenstein, t['Vus'], t['Vub'], t['Vcb'], t['gamma'])]
        m.close(w, [t[p] for p in PARAMS['Wolfenstein']], 'wolfenstein', 'conversion to Wolfenstein parameters', rtol=1e-6, atol=2e-7, par=t)
        x = np.array([i[p] for i in ins for p in PARAMS['Tree']]).reshape(3, 4)
        w = np.array(m.call('wolfenstein', ckm.tree_to_wolfenstein, *x.T)).T
        m.close(w, [[i[p] for p in PARAMS['Wolfenstein']] for i in ins], 'wolfenstein', 'vectorised conversion', rtol=1e-6, atol=2e-7)


def combos(m, rng, n, seed):
    """angles and combinations of elements, in arbitrary phase conventions"""
    import flavio
    from flavio.classes import Implementation
    from flavio.physics import ckm
    cur = {}
    Implementation(name='verif rephased', quantity='CKM matrix', function=lambda wc_obj, par: cur['V'])
    U, D = 'uct', 'dsb'
    try:
        with use('verif rephased'):
            for k in range(n):
                V0 = draw(rng)
                a, b, g = angles(V0)
                pu, pd = np.exp(1j * rng.uniform(0, 6.28, 3)), np.exp(1j * rng.uniform(0, 6.28, 3))
                V = V0 * np.outer(pu, pd)
                cur['V'] = V.copy()
                par = {}
                got = ckm.get_ckmangle_alpha(par), ckm.get_ckmangle_beta(par), ckm.get_ckmangle_gamma(par)
                for nm, x, y in zip(('alpha', 'beta', 'gamma'), got, (a, b, g)):
                    m.check(dphi(x, y) < 1e-9, 'angle:' + nm, 'angle of the unitarity triangle depends on the phase convention or is wrong', got=x, expected=y, V=V0)
                m.check(dphi(sum(got), math.pi) < 1e-9, 'closure', 'the angles do not add up to pi', got=got)
                for pair in ('bs', 'bd', 'sd', 'sb', 'db', 'ds', 'bb'):
                    x = [ckm.xi(q, pair)(par) for q in U]
                    e = [V[U.index(q), D.index(pair[0])] * np.conj(V[U.index(q), D.index(pair[1])]) for q in U]
                    m.close(x, e, 'xi', 'combination of elements', rtol=1e-12, atol=1e-15, pair=pair)
                    m.check(abs(sum(x) - (1 if pair == 'bb' else 0)) < 1e-9, 'triangle', 'the unitarity triangle does not close', pair=pair, x=x)
                for pair in ('cu', 'uc', 'tc', 'tu', 'tt'):
                    x = [ckm.xi(q, pair)(par) for q in D]
                    e = [V[U.index(pair[0]), D.index(q)] * np.conj(V[U.index(pair[1]), D.index(q)]) for q in D]
                    m.close(x, e, 'xi', 'combination of elements', rtol=1e-12, atol=1e-15, pair=pair)
                    m.check(abs(sum(x) - (1 if pair == 'tt' else 0)) < 1e-9, 'triangle', 'the unitarity triangle does not close', pair=pair, x=x)
                # changing the point changes the answer of a function obtained before
                f = ckm.xi('t', 'bs')
                f(par)
                cur['V'] = draw(rng)
                m.close(f(par), cur['V'][2, 2] * np.conj(cur['V'][2, 1]), 'xi', 'stale combination', rtol=1e-12)
                m.check(np.array_equal(cur['V'], np.array(ckm.get_ckm(par))), 'implementation', 'the selected implementation is not used')
                m.event('angles', (seed, k))
    finally:
        for r in (getattr(Implementation, '_instances', None), getattr(Implementation, 'instances', None)):
            if isinstance(r, dict):
                r.pop('verif rephased', None)
    bad = [('x', 'bs'), ('t', 'bx')]
    for q, pair in bad:
        m.raises((KeyError, ValueError, IndexError), 'xi:unknown', lambda: ckm.xi(q, pair)({}))


def observables(m, rng, n, seed):
    import flavio
    names = ['DeltaM_s', 'DeltaM_d', 'eps_K', 'S_psiK', 'S_psiphi', 'a_fs_d', 'a_fs_s', 'DeltaGamma_d', 'BR(Bs->mumu)', 'BR(B0->mumu)', 'BR(K+->pinunu)', 'BR(KL->pinunu)', 'BR(B->Xsgamma)', 'BR(B->Xdgamma)', 'S_K*gamma', 'S_phigamma',
             'BR(B+->taunu)', 'BR(K+->munu)', 'BR(D+->munu)', 'BR(Ds->munu)', 'BR(B->Xcenu)', 'BR(B+->Denu)', 'BR(B0->pienu)', 'epsp/eps', 'x12_D', 'phi12_D', 'BR(KS->mumu)', 'ACP(B->Xgamma)', 'BR(B+->K+nunu)', 'BR(tau->Knu)', 'Remu(K+->lnu)', 'tau_Bc']
    names = [x for x in names if x in flavio.Observable.instances]
    c = O.par()
    for k in range(n):
        V = draw(rng)
        i0 = inputs(V)
        if abs(i0['beta']) < 1e-3 or abs(math.sin(i0['beta'] + i0['gamma'])) < .05:
            continue
        np.random.seed(int(rng.integers(2**31)))
        par = O.random_par()
        w = flavio.WilsonCoefficients()
        if k % 2:
            from lib import npwc
            w = npwc.wet(rng, amount=.3)
        for nm in names:
            o = flavio.Observable[nm]
            v = {}
            for p in PARAMS:
                q = dict(par)
                for x in set(sum(PARAMS.values(), ())):
                    q.pop(x, None)
                q.update({x: i0[x] for x in PARAMS[p]})
                with use(p):
                    v[p] = float(m.call('observables', o.prediction_par, q, w))
            for p in v:
                m.close(v[p], v['Standard'], 'observables', 'prediction depends on the parametrisation of the quark mixing matrix', rtol=2e-5, atol=1e-8 if nm[0] in 'Saex' or nm.startswith(('ACP', 'phi')) and abs(v[p]) < .1 else 0, obs=nm, parametrisation=p, point=i0)
            m.event('observables', (nm, seed, k))


def jobs(tier, seed):
    t = tier == 'thorough'
    return (split_jobs('matrix', matrix, 60000 if t else 4000, 8, seed=seed) + split_jobs('agree', agree, 4000 if t else 300, 4, seed=seed)
            + split_jobs('combos', combos, 10000 if t else 600, 3, seed=seed) + split_jobs('observables', observables, 64 if t else 8, 8, seed=seed))
