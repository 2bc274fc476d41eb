"""P16: running couplings, masses and coefficients."""
import math
import numpy as np
from scipy.integrate import solve_ivp
from lib import obs as O, npwc
from lib.util import split_jobs, logu

RULE = ('couplings and masses at random scales, numbers of flavours and parameter points, against the published renormalisation group equations (slope, independent integration, reference point); the evolution routine with solvable equations across all thresholds; '
        'Wilson coefficients of every sector through random intermediate scales; distinct by (quantity, scale, point)')
ASSUMPTIONS = ['three-loop beta function and mass anomalous dimension; truncation differences below 1 per cent above 2 GeV',
               'running of Wilson coefficients is provided by the wilson package and judged through the library interface only']
MIN = {'alpha_s': 300, 'alpha_e': 300, 'mass': 400, 'scheme': 150, 'evolve': 400, 'f_perp': 100, 'wilson': 60, 'sm': 60, 'memory': 20}
LEPTONIC = {'dF=0', 'mue', 'mutau', 'taue'}     # mix with masses and the electromagnetic coupling at low order
Z3 = 1.2020569031595942


def beta(a, nf, loops=3):
    """d alpha / d ln mu"""
    x = a / (4 * math.pi)
    b = [11 - 2 * nf / 3, 102 - 38 * nf / 3, 2857 / 2 - 5033 * nf / 18 + 325 * nf**2 / 54][:loops]
    return -2 * a * sum(c * x**(i + 1) for i, c in enumerate(b))


def gamma(a, nf, loops=3):
    """d ln m / d ln mu"""
    x = a / math.pi
    g = [1, (202 / 3 - 20 * nf / 9) / 16, (1249 + (-2216 / 27 - 160 * Z3 / 3) * nf - 140 * nf**2 / 81) / 64][:loops]
    return -2 * sum(c * x**(i + 1) for i, c in enumerate(g))


def thresholds():
    import flavio
    t = flavio.config['RGE thresholds']
    return t['mc'], t['mb'], t['mt']


def nf_of(s):
    return 3 + sum(s >= x for x in thresholds())


def randpar(rng):
    p = dict(O.par())
    p['alpha_s'] = float(rng.uniform(.11, .125))
    p['alpha_e'] = float(1 / rng.uniform(125, 131))
    p['m_b'], p['m_c'] = float(rng.uniform(4, 4.5)), float(rng.uniform(1.15, 1.4))
    p['m_t'] = float(rng.uniform(168, 178))
    for q in 'uds':
        p['m_' + q] *= float(rng.uniform(.7, 1.3))
    return p


def couplings(m, rng, n, seed):
    from flavio.physics.running import running as r
    MZ = 91.1876
    for k in range(n):
        p = randpar(rng)
        s = logu(rng, 1.3, 500.)
        nf = int(rng.integers(3, 7)) if rng.random() < .5 else nf_of(s)
        m.check(r.get_nf(s) == nf_of(s), 'nf', 'number of flavours', scale=s)
        for e in thresholds():
            m.check(r.get_nf(e) == nf_of(e) and r.get_nf(np.nextafter(e, 0)) == nf_of(e) - 1, 'nf', 'number of flavours at a threshold', scale=e)
        a = m.call('alpha_s', r.get_alpha_s, p, s, nf_out=nf)
        m.check(r.get_alpha_s(p, MZ, nf_out=5) == p['alpha_s'], 'reference:alpha_s', 'input value not reproduced at mZ')
        h = 1e-3
        d = (r.get_alpha_s(p, s * math.exp(h), nf_out=nf) - r.get_alpha_s(p, s * math.exp(-h), nf_out=nf)) / 2 / h
        m.close(d, beta(a, nf), 'slope:alpha_s', 'does not obey the beta function', rtol=.003 if s > 2 else .03, scale=s, nf=nf)
        m.check(d < 0, 'monotone:alpha_s', 'strong coupling does not fall', scale=s, nf=nf)
        if nf == 5:
            sol = solve_ivp(lambda t, y: [beta(y[0], 5)], [math.log(MZ), math.log(s)], [p['alpha_s']], rtol=1e-9, atol=1e-12)
            m.close(a, sol.y[0, -1], 'integral:alpha_s', 'independent integration of the beta function', rtol=2e-4, scale=s)
        if nf == nf_of(s):
            m.close(r.get_alpha_s(p, s), a, 'default:alpha_s', 'default number of flavours', rtol=0, scale=s)
            al = r.get_alpha(p, s)
            m.check(al['alpha_s'] == a and al['alpha_e'] == r.get_alpha_e(p, s), 'get_alpha', 'differs from the separate functions')
        al = r.get_alpha(p, s, nf_out=nf)
        m.check(al['alpha_s'] == a and al['alpha_e'] == r.get_alpha_e(p, s, nf_out=nf), 'get_alpha', 'differs from the separate functions', scale=s, nf=nf)
        m.event('alpha_s', (seed, k))
        # electromagnetic coupling: one loop, exactly solvable
        mc, mb, mt = thresholds()
        b = {3: (1, 2, 2), 4: (2, 2, 3), 5: (2, 3, 3), 6: (3, 3, 3)}

        def step(inv, s0, s1, f):
            u, dn, e = b[f]
            return inv - 2 / (3 * math.pi) * (4 * u / 3 + dn / 3 + e) * math.log(s1 / s0)
        inv, at = 1 / p['alpha_e'], MZ
        path = {5: [], 6: [(mt, 5)], 4: [(mb, 5)], 3: [(mb, 5), (mc, 4)]}[nf]
        for t, f in path:
            inv, at = step(inv, at, t, f), t
        inv = step(inv, at, s, nf)
        m.close(r.get_alpha_e(p, s, nf_out=nf), 1 / inv, 'alpha_e', 'one-loop evolution', rtol=1e-12, scale=s, nf=nf)
        m.check(r.get_alpha_e(p, MZ) == p['alpha_e'], 'reference:alpha_e', 'input value not reproduced at mZ')
        for t in thresholds():
            m.close(r.get_alpha_e(p, t), r.get_alpha_e(p, t * (1 - 1e-12)), 'continuity:alpha_e', 'jumps at a threshold', rtol=1e-10, threshold=t)
        s2 = s * float(rng.uniform(1.01, 3))
        m.check(r.get_alpha_e(p, s2) > r.get_alpha_e(p, s), 'monotone:alpha_e', 'electromagnetic coupling does not rise', scale=s)
        x, u, v, w = p['alpha_e'], logu(rng, .5, 300), logu(rng, .5, 300), logu(rng, .5, 300)
        N = {'n_u': int(rng.integers(0, 4)), 'n_d': int(rng.integers(0, 4)), 'n_e': int(rng.integers(0, 4))}
        y = r.run_alpha_e(x, u, v, **N)
        m.close(r.run_alpha_e(y, v, w, **N), r.run_alpha_e(x, u, w, **N), 'group:alpha_e', 'two steps differ from one', rtol=1e-12, N=N, scales=(u, v, w))
        m.close(r.run_alpha_e(y, v, u, **N), x, 'group:alpha_e', 'there and back', rtol=1e-12)
        m.check(r.run_alpha_e(x, u, u, **N) == x, 'group:alpha_e', 'evolving by nothing changes the value')
        m.event('alpha_e', (seed, k))
        m.raises(ValueError, 'nf:invalid', r.get_alpha_e, p, s, nf_out=7)


def mass(m, rng, n, seed):
    from flavio.physics.running import running as r
    fn = {'u': r.get_mu, 'd': r.get_md, 's': r.get_ms, 'c': r.get_mc, 'b': r.get_mb}
    ref = {'u': (2., 3), 'd': (2., 3), 's': (2., 3), 'c': (None, 4), 'b': (None, 5)}
    for k in range(n):
        p = randpar(rng)
        q = str(rng.choice(list(fn)))
        s = logu(rng, 1.5, 400.)
        nf = int(rng.integers(3, 7)) if rng.random() < .5 else nf_of(s)
        if nf == 6 and q in 'udsc':
            nf = 5       # not provided
        s = min(s, 160.) if q in 'udsc' else s
        v = m.call('mass', fn[q], p, s, nf_out=nf)
        s0, f0 = ref[q]
        s0 = s0 or p['m_' + q]
        m.close(fn[q](p, s0, nf_out=f0), p['m_' + q], 'reference:m_' + q, 'input value not reproduced at the reference scale', rtol=1e-12)
        h = 1e-3
        a = r.get_alpha_s(p, s, nf_out=nf)
        d = (math.log(fn[q](p, s * math.exp(h), nf_out=nf)) - math.log(fn[q](p, s * math.exp(-h), nf_out=nf))) / 2 / h
        m.close(d, gamma(a, nf), 'slope:m_' + q, 'does not obey the mass anomalous dimension', rtol=.01 if s > 2 else .08, scale=s, nf=nf)
        m.check(d < 0, 'monotone:m_' + q, 'mass does not fall', scale=s)
        m.close(r.get_mq(q, p, s, nf_out=nf), v, 'get_mq', 'differs from the function of the quark', rtol=0, quark=q)
        m.close(r.get_mq(q, p, s), fn[q](p, s, nf_out=nf_of(s)), 'get_mq', 'default number of flavours', rtol=0, quark=q, scale=s)
        if q in 'uds':
            o = str(rng.choice([x for x in 'uds' if x != q]))
            m.close(v / fn[o](p, s, nf_out=nf), p['m_' + q] / p['m_' + o], 'ratio', 'ratio of light masses depends on the scale', rtol=1e-9, quarks=(q, o), scale=s)
        # ratio of masses of different quarks run alike within one flavour window
        s2 = s * float(rng.uniform(1.1, 1.5))
        if q in 'cb' and nf < 6:
            o = 's'
            m.close(fn[q](p, s2, nf_out=nf) / v, fn[o](p, s2, nf_out=nf) / fn[o](p, s, nf_out=nf), 'universal', 'evolution depends on the flavour of the quark', rtol=2e-4, quark=q, scales=(s, s2), nf=nf)
        m.event('mass', (seed, k, q))


def scheme(m, rng, n, seed):
    """mass definitions"""
    import flavio
    from flavio.physics.running import running as r, masses
    for k in range(n):
        p = randpar(rng)
        for q, get, nl_ in (('b', r.get_mb_pole, 4), ('c', r.get_mc_pole, 3)):
            mm = p['m_' + q]
            a = r.get_alpha_s(p, mm, nf_out=nl_ + 1) if r.get_nf(mm) == nl_ + 1 else r.get_alpha_s(p, mm)
            x = a / math.pi
            one = mm * (1 + 4 / 3 * x)
            two = mm * (1 + 4 / 3 * x + x * x * (13.4434 - 1.0414 * nl_))
            m.close(get(p, nl=1), one, 'pole', 'one-loop pole mass', rtol=1e-3, quark=q)
            m.close(get(p, nl=2), two, 'pole', 'two-loop pole mass', rtol=2e-2, quark=q)
            m.close(get(p), get(p, nl=2), 'pole', 'default order', rtol=0, quark=q)
            m.check(get(p, nl=2) > get(p, nl=1) > mm, 'pole', 'order of the pole masses', quark=q)
        mu = float(rng.uniform(.7, 1.3))
        kb, kc = r.get_mb_KS(p, mu), r.get_mc_KS(p, mu)
        ab, ac = r.get_alpha_s(p, p['m_b']), r.get_alpha_s(p, p['m_c'])
        # the kinetic mass solves the documented relation, and converts back
        for M, ms, Nf, a in ((kb, p['m_b'], 4, ab),):
            m.close(masses.mKS2mMS(M, Nf, a, mu, 3), ms, 'kinetic', 'kinetic mass does not convert back', rtol=.02, M=M, mu=mu)
            x = a / math.pi
            lo = ms * (1 + x * 4 / 3 * (1 - 4 / 3 * mu / M - mu**2 / 2 / M**2))
            m.close(masses.mMS2mKS(ms, Nf, a, mu, 1), lo, 'kinetic', 'one-loop relation', rtol=5e-3, M=M, mu=mu)
        # small coupling: the conversion becomes exact order by order
        e = float(rng.uniform(.01, .03))
        M1 = masses.mMS2mKS(p['m_b'], 4, e, mu, 2)
        m.close(masses.mKS2mMS(M1, 4, e, mu, 2), p['m_b'], 'kinetic', 'conversion not inverse to second order', rtol=30 * (e / math.pi)**3 * 10, coupling=e)
        m.check(p['m_b'] < kb < r.get_mb_pole(p), 'kinetic', 'kinetic mass not between running and pole mass', kb=kb)
        m.check(r.get_mb_KS(p, mu) > r.get_mb_KS(p, mu + .2), 'kinetic', 'kinetic mass does not fall with the cutoff')
        m.check(p['m_b'] < r.get_mb_1S(p) < r.get_mb_pole(p), '1S', '1S mass not between running and pole mass')
        m.close(masses.mMS2mKS(p['m_b'], 4, 1e-12, mu, 3), p['m_b'], 'kinetic', 'free limit', rtol=1e-9)
        # top
        t = r.get_mt_mt(p)
        m.close(r.get_mt(p, t), t, 'top', 'mt(mt) is not a fixed point', rtol=2e-3)
        a6 = r.get_alpha_s(p, t)
        m.close(t, p['m_t'] * (1 - 4 / 3 * a6 / math.pi - 8.2366 * (a6 / math.pi)**2 - 73.638 * (a6 / math.pi)**3), 'top', 'three-loop relation of pole and running mass', rtol=5e-3)
        import rundec
        s1 = max(float(flavio.config['RGE thresholds']['mt']) * 1.001, logu(rng, 175, 1000))
        m.close(r.get_mt(p, s1), rundec.CRunDec().mOS2mMS(p['m_t'], None, r.get_alpha_s(p, s1, nf_out=6), s1, 6, 3), 'top', 'running mass above threshold', rtol=1e-5, scale=s1)
        s1, s2 = sorted(rng.uniform(80, 400, 2))
        m.check(r.get_mt(p, float(s2)) < r.get_mt(p, float(s1)), 'monotone:m_t', 'top mass does not fall', scales=(s1, s2))
        s1 = logu(rng, 178, 400)
        h = 1e-3
        d = (math.log(r.get_mt(p, s1 * math.exp(h))) - math.log(r.get_mt(p, s1 * math.exp(-h)))) / 2 / h
        m.close(d, gamma(r.get_alpha_s(p, s1), 6), 'slope:m_t', 'does not obey the mass anomalous dimension', rtol=.15, scale=s1)
        q = dict(p)
        q['m_t'] = p['m_t'] * 1.01
        m.close(r.get_mt_mt(q) / t, 1.01, 'top', 'running mass not proportional to the pole mass', rtol=1e-3)
        m.event('scheme', (seed, k))


def evolve(m, rng, n, seed):
    """the evolution routine with exactly solvable equations"""
    from flavio.physics.running import running as r
    mc, mb, mt = thresholds()

    def exact(x, A, s0, s1):
        edges = [mc, mb, mt]
        up = s1 > s0
        pts = [s0] + (sorted if up else lambda z: sorted(z)[::-1])([e for e in edges if min(s0, s1) < e < max(s0, s1)]) + [s1]
        x = np.array(x, float)
        for u, v in zip(pts, pts[1:]):
            nf = nf_of(math.sqrt(u * v))
            x = x * (v / u)**A[nf]
        return x
    for k in range(n):
        dim = int(rng.integers(1, 5))
        A = {f: rng.uniform(-1, 1, dim) for f in (3, 4, 5, 6)}

        def der(nf):
            return lambda x, mu: A[nf] * x / mu
        s = [logu(rng, .3, 800) for _ in range(3)]
        if rng.random() < .3:
            s[1] = float(rng.choice([mc, mb, mt]))
        if rng.random() < .15:
            s[0] = float(rng.choice([mc, mb, mt]))
        x0 = rng.normal(size=dim)
        keep = x0.copy()
        x1 = np.array(m.call('evolve', r.rg_evolve_sm, x0, der, s[0], s[1]))
        m.check(np.array_equal(x0, keep), 'evolve:mutates', 'initial condition changed')
        m.close(x1, exact(x0, A, s[0], s[1]), 'evolve', 'solution of the evolution across thresholds', rtol=1e-4, atol=1e-4, scales=s, A={f: list(v) for f, v in A.items()})
        x2 = np.array(r.rg_evolve_sm(x1, der, s[1], s[2]))
        m.close(x2, np.array(r.rg_evolve_sm(x0, der, s[0], s[2])), 'evolve:group', 'two steps differ from one', rtol=1e-4, atol=1e-4, scales=s)
        m.close(np.array(r.rg_evolve_sm(x1, der, s[1], s[0])), x0, 'evolve:back', 'there and back', rtol=1e-4, atol=1e-4, scales=s)
        y = r.rg_evolve_sm(x0, der, s[0], s[0])
        m.check(np.array_equal(y, x0) and y is not x0, 'evolve:nothing', 'evolving by nothing')
        m.raises(ValueError, 'evolve:low', r.rg_evolve_sm, x0, der, s[0], .05)
        nfo = int(rng.integers(3, 6))
        hi, lo = max(s[0], s[1]), min(s[0], s[1])
        if hi > (mc, mb)[nfo - 4] if nfo > 3 else True:
            # stop decoupling at nf_out flavours
            if nf_of(hi) >= nfo and nf_of(lo) <= nfo and hi not in (mc, mb, mt):
                z = np.array(x0, float)
                at = hi
                for f, e in ((6, mt), (5, mb), (4, mc)):
                    if f > nfo and at > e:
                        z, at = z * (e / at)**A[f], e
                z = z * (lo / at)**A[nfo]
                m.close(np.array(r.rg_evolve_sm(x0, der, hi, lo, nf_out=nfo)), z, 'evolve:nf_out', 'evolution with a fixed final number of flavours', rtol=1e-4, atol=1e-4, scales=(hi, lo), nf_out=nfo)
        m.event('evolve', (seed, k))
        # vector of complex coefficients along with the couplings
        if k % 10 == 0:
            p = randpar(rng)
            D = rng.normal(size=(dim, dim)) * .3

            def derw(nf):
                f = r.make_wilson_rge_derivative(lambda nf, a, e: D)
                return f(nf)
            from scipy.linalg import expm
            c = rng.normal(size=dim) + 1j * rng.normal(size=dim)
            a, b = logu(rng, 5, 150), logu(rng, 5, 150)
            out = m.call('get_wilson', r.get_wilson, p, c, derw, a, b)
            m.close(out, expm(D.T * math.log(b / a)) @ c, 'get_wilson', 'solution for a constant anomalous dimension', rtol=1e-5, atol=1e-6, scales=(a, b))
    # beta functions used with it
    from flavio.physics.running import betafunctions as bf
    for k in range(n):
        a, e, mu, nf = float(rng.uniform(.08, .4)), float(rng.uniform(.007, .008)), logu(rng, 1, 300), int(rng.integers(3, 7))
        m.close(bf.beta_qcd(a, 0., mu, nf) * mu, beta(a, nf), 'beta_qcd', 'QCD beta function', rtol=1e-9, nf=nf)
        x = bf.betafunctions_qcd_qed_nf(nf)([a, e], mu)
        m.close(x, [bf.beta_qcd(a, e, mu, nf), bf.beta_qed(e, a, mu, nf)], 'beta_qcd_qed', 'combined beta function', rtol=1e-12)
        m.close(bf.beta_qed(e, 0., mu, 5) * mu, e * e / 2 / math.pi * (80 / 9 + 464 / 27 * e / 4 / math.pi), 'beta_qed', 'QED beta function', rtol=1e-9)


def fperp(m, rng, n, seed):
    from flavio.physics.running import running as r
    mc, mb, mt = thresholds()
    for k in range(n):
        p = randpar(rng)
        mes = str(rng.choice(['rho0', 'rho+', 'K*0', 'K*+', 'omega', 'phi']))
        s = logu(rng, 2.01, 300.)
        f, at = p['f_perp_' + mes], 2.
        m.check(r.get_f_perp(p, mes, 2) == f, 'f_perp:reference', 'input value not reproduced')
        for nf, e in ((3, mc), (4, mb), (5, mt), (6, math.inf)):
            stop = min(e, s)
            f *= (r.get_alpha_s(p, stop, nf_out=nf) / r.get_alpha_s(p, at, nf_out=nf))**(4 / 3 / (11 - 2 * nf / 3))
            if stop == s:
                break
            at = stop
        m.close(r.get_f_perp(p, mes, s), f, 'f_perp', 'leading-order evolution of the transverse decay constant', rtol=1e-10, meson=mes, scale=s)
        nf = int(rng.integers(3, 7)) if s > mt else 3
        if nf == 3:
            m.close(r.get_f_perp(p, mes, s, nf_out=3), p['f_perp_' + mes] * (r.get_alpha_s(p, s, nf_out=3) / r.get_alpha_s(p, 2, nf_out=3))**(4 / 27), 'f_perp:nf_out', 'three-flavour evolution', rtol=1e-10, scale=s)
        m.check(r.get_f_perp(p, mes, s) < p['f_perp_' + mes], 'f_perp:falls', 'transverse decay constant does not fall')
        m.event('f_perp', (seed, k))


def memory(m, rng, n, seed):
    """Inputs that differ in a single value: the results do not depend on what was computed before."""
    import flavio
    from flavio.physics.running import running as r
    from checks.p24 import forked
    fs = ['get_mb_1S', 'get_mb_pole', 'get_mc_pole', 'get_mt_mt']
    fq = ['get_mb', 'get_mc', 'get_ms', 'get_mu', 'get_md', 'get_alpha_s', 'get_alpha_e', 'get_mt', 'get_mb_KS', 'get_mc_KS']
    for k in range(n):
        p1 = randpar(rng)
        sc = float(rng.uniform(1.3, 1.9)), float(rng.uniform(2.1, 4)), float(logu(rng, 5, 150)), float(rng.uniform(180, 300))
        for key in ('alpha_s', 'alpha_e', 'm_b', 'm_c', 'm_s', 'm_t', 'm_u', 'm_d', 'f_perp_K*0', None):
            p2 = dict(p1)
            if key is not None:
                p2[key] = p1[key] * (1 + float(rng.choice([-1, 1])) * .01)

            def ev(p, second=False):
                x = {f: float(getattr(r, f)(p)) for f in fs}
                for s in sc:
                    if second:
                        s *= 1.01
                    for f in fq:
                        if f in ('get_mb_KS', 'get_mc_KS') and s > 2 or f == 'get_mt' and s < 80 or f in fq[:5] and s > 150:
                            continue
                        x['%s %.4f' % (f, s)] = float(getattr(r, f)(p, s))
                    x['f_perp %.4f' % s] = float(r.get_f_perp(p, 'K*0', s)) if s > 2 else 0.
                return x
            ref = forked(lambda: ev(p2, key is None))

            def after():
                ev(p1)
                return ev(p2, key is None)
            got = forked(after)
            bad = sorted(f for f in ref if got[f] != ref[f])
            m.check(not bad, 'memory', 'result depends on an earlier computation with another value of %s' % key, functions=bad, got=[got[f] for f in bad[:3]], expected=[ref[f] for f in bad[:3]])
            m.event('memory', (seed, k, key))


def wilson(m, rng, n, seed):
    """coefficients through intermediate scales"""
    import flavio
    secs = sorted({s for c, s, r in npwc.coefficients()})
    p = O.par()
    for k in range(n):
        pick = [str(x) for x in rng.choice(secs, size=6, replace=False)]
        d = npwc.draw(rng, select=lambda c, s: s in pick)
        if not d:
            continue
        hi, mid, lo = [float(x) for x in sorted(rng.uniform(4.3, 80., 3))[::-1]]
        w = flavio.WilsonCoefficients()
        w.set_initial(d, hi)
        for s in pick:
            own = {c for c, t, r in npwc.coefficients() if t == s} & set(d)
            if not own:
                continue
            x = m.call('wilson', w.get_wc, s, hi, p)
            for c in own:
                m.close(complex(x[c]), complex(d[c]), 'wilson:identity', 'coefficient changes without evolution', rtol=1e-10, coefficient=c)
            y = w.get_wc(s, mid, p)
            w2 = flavio.WilsonCoefficients()
            names = {c for c, t, r in npwc.coefficients() if t == s}
            w2.set_initial({c: v for c, v in y.items() if c in names and v != 0}, mid)
            z, direct = w2.get_wc(s, lo, p), w.get_wc(s, lo, p)
            big = max(abs(v) / (npwc.size(c) or 1) for c, v in direct.items())
            for c in names:
                m.close(complex(z[c]) / (npwc.size(c) or 1), complex(direct[c]) / (npwc.size(c) or 1), 'wilson:group', 'two steps differ from one', rtol=.06 if s in LEPTONIC else 5e-3, atol=(.03 if s in LEPTONIC else 5e-3) * big, coefficient=c, scales=(hi, mid, lo))
            # linear
            f = float(rng.uniform(-2, 2))
            w3 = flavio.WilsonCoefficients()
            w3.set_initial({c: f * v for c, v in d.items()}, hi)
            z = w3.get_wc(s, lo, p)
            for c in names:
                m.close(complex(z[c]) / (npwc.size(c) or 1), f * complex(direct[c]) / (npwc.size(c) or 1), 'wilson:linear', 'evolution is not linear', rtol=1e-6, atol=1e-8 * big, coefficient=c)
            m.event('wilson', (seed, k, s))


def sm(m, rng, n, seed):
    """scale independence of Standard Model combinations"""
    import flavio
    from flavio.physics.bdecays import wilsoncoefficients as bw
    from flavio.physics.running import running as r
    w0 = flavio.WilsonCoefficients()
    for k in range(n):
        p = randpar(rng)
        s1, s2 = float(rng.uniform(2.1, 5.4)), float(rng.uniform(2.1, 5.4))
        m.close(bw.CL_SM(p, s1) * r.get_alpha_e(p, s1), bw.CL_SM(p, s2) * r.get_alpha_e(p, s2), 'sm:CL', 'C_L alpha_e depends on the scale', rtol=1e-12)
        m.close(bw.CL_SM(p, 91.1876), -p['Xt_di->djnunu'] / p['s2w'], 'sm:CL', 'C_L at mZ', rtol=1e-10)
        a = bw.wctot_dict(w0, 'bsmumu', s1, p, nf_out=5)
        h = 1e-4
        b, c = bw.wctot_dict(w0, 'bsmumu', s1 + h, p, nf_out=5), bw.wctot_dict(w0, 'bsmumu', s1 - h, p, nf_out=5)
        # logarithmic evolution: smooth and slow
        for x in ('C1_bs', 'C2_bs', 'C7eff_bs', 'C8eff_bs', 'C9_bsmumu', 'C10_bsmumu'):
            if x in a:
                m.check(abs(b[x] - c[x]) / 2 / h * s1 <= .8 * abs(a[x]) + .15, 'sm:smooth', 'Standard Model coefficient jumps', coefficient=x, scale=s1)
        m.close(a['C10_bsmumu'], bw.wctot_dict(w0, 'bsmumu', s2, p, nf_out=5)['C10_bsmumu'], 'sm:C10', 'C10 depends on the scale', rtol=.02)
        # new physics adds to the Standard Model
        d = npwc.draw(rng, select=lambda cc, ss: ss == 'sb')
        w = flavio.WilsonCoefficients()
        w.set_initial(d, s1)
        t = bw.wctot_dict(w, 'bsmumu', s1, p, nf_out=5)
        for x in ('C9_bsmumu', 'C10_bsmumu', 'C9p_bsmumu', 'C10p_bsmumu', 'CS_bsmumu', 'CSp_bsmumu', 'CP_bsmumu', 'CPp_bsmumu'):
            m.close(complex(t[x]) - complex(a.get(x, 0)), d.get(x, 0), 'sm:adds', 'total is not the sum of Standard Model and new physics', rtol=1e-9, atol=1e-12, coefficient=x)
        m.event('sm', (seed, k))


def jobs(tier, seed):
    t = tier == 'thorough'
    f = 10 if t else 1
    return (split_jobs('couplings', couplings, 600 * f, 4, seed=seed) + split_jobs('mass', mass, 700 * f, 3, seed=seed) + split_jobs('scheme', scheme, 240 * f, 3, seed=seed)
            + split_jobs('evolve', evolve, 640 * f, 5, seed=seed) + split_jobs('fperp', fperp, 200 * f, 2, seed=seed) + split_jobs('wilson', wilson, 24 * f, 4, seed=seed) + split_jobs('sm', sm, 120 * f, 2, seed=seed) + split_jobs('memory', memory, 6 * f, 2, seed=seed))
