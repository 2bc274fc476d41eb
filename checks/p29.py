"""P29: decay rates equal the standard theoretical expressions."""
import re
import numpy as np
from lib import obs as O
from lib import npwc
from lib.util import split_jobs

RULE = ('random parameters, kinematics and complex Wilson coefficients of every operator of the process (all neutrino flavours); distinct by (observable, point); predicted rate against an expression of the '
        'literature in other variables, or against a numerical evaluation of the tree diagram with explicit spinors and Gauss quadrature over phase space; angular coefficients for arbitrary helicity amplitudes; time averages over the mass eigenstates of the Bs')
ASSUMPTIONS = ['Standard Model Wilson coefficients, running couplings and quark masses, CKM elements and form factors are taken from flavio (properties P15, P16, P18 and P26 are about them)',
               'masses of the charged leptons in the final state of LFV three-body decays are neglected outside the logarithm, as documented there',
               'sign conventions of lepton angles are taken as defined by flavio']
MIN = {'leptonic': 100, 'PlnU': 100, 'VlnU': 100, 'neutral': 60, 'bgamma': 60, 'angles': 100, 'untagged': 60, 'bvgamma': 60, 'bpll': 60, 'bxll': 50, 'kaonll': 50, 'nunu': 60, 'lfv': 60, 'taudec': 40}

LEP = ('e', 'mu', 'tau')


def setup(rng, select, scale, amount=None, density=None):
    import flavio
    np.random.seed(int(rng.integers(2**31)))
    par = O.random_par()
    w = flavio.WilsonCoefficients()
    amount = amount if amount is not None else float(rng.choice([0., .3, 1., 3.]))
    density = density if density is not None else float(rng.choice([.3, 1., 1.]))
    c = npwc.draw(rng, amount=amount, select=select, density=density) if amount else {}
    if c:
        w.set_initial(c, scale)
    return par, w, c


def cfg(name):
    import flavio
    return flavio.config['renormalization scale'][name]


def lam(x, y, z):
    return x * x + y * y + z * z - 2 * (x * y + y * z + z * x)


def val(name, par, w, *args):
    import flavio
    return float(np.real(flavio.Observable[name].prediction_par(par, w, *args)))


def ccwc(par, w, qq, lep, nu, scale, nf, rGF=1):
    from flavio.physics.bdecays.wilsoncoefficients import get_CVLSM
    c = w.get_wc(qq + lep + 'nu' + nu, scale, par, nf_out=nf)
    k = '_' + qq + lep + 'nu' + nu
    sm = get_CVLSM(par, scale, nf) * rGF if lep == nu else 0
    return c['CVL' + k] + sm, c['CVR' + k], c['CSL' + k], c['CSR' + k], c['CT' + k]


CKM = {'bu': (0, 2), 'bc': (1, 2), 'dc': (1, 0), 'sc': (1, 1), 'su': (0, 1), 'du': (0, 0)}


def vij(par, qq):
    import flavio
    return abs(flavio.physics.ckm.get_ckm(par)[CKM[qq]])


def qmass(par, q, scale, nf=None):
    from flavio.physics.running import running as R
    if q == 'u0':
        return 0.
    f = {'b': R.get_mb, 'c': R.get_mc, 's': R.get_ms, 'd': R.get_md, 'u': R.get_mu}[q]
    return f(par, scale) if nf is None else f(par, scale, nf_out=nf)


def sel(qq, leps=LEP):
    pat = re.compile(r'C(VL|VR|SL|SR|T)_' + qq + r'(' + '|'.join(leps) + r')nu(e|mu|tau)$')
    return lambda c, s: bool(pat.match(c))


def rgf(par, w):
    """Fermi constant from muon decay when it is affected by new physics, relative to the nominal one."""
    c = w.get_wc('nunumue', cfg('mudecays'), par, eft='WET-3')
    L, R = c['CVLL_numunueemu'], c['CVLR_numunueemu']
    sm = -4 * par['GF'] / np.sqrt(2)
    x = (par['m_e'] / par['m_mu'])**2
    return 1 / np.sqrt(mich(x, sm + L, R) / mich(x, sm, 0))


_quad = {}


def gauss(n, lo, hi):
    if n not in _quad:
        _quad[n] = np.polynomial.legendre.leggauss(n)
    x, w = _quad[n]
    return lo + (x + 1) / 2 * (hi - lo), w / 2 * (hi - lo)


def mich(x, CL, CR):
    """Rate of l -> l' nu nubar (charge retention form) over its massless limit, by integrating over the energy of l'."""
    r = np.sqrt(x)
    eta, wt = gauss(200, 0., np.arccosh((1 + x) / 2 / r))     # rapidity of the lepton
    y = 2 * r * np.cosh(eta)                                # 2 E / M
    p = 2 * r * np.sinh(eta)
    # neutrino tensor: q2 g - q q ; q2 = 1 - y + x
    q2 = 1 - y + x
    k1 = y / 2                        # l.P
    qP, ql = 1 - y / 2, y / 2 - x     # q.P, q.l
    vv = 2 * qP * ql + q2 * k1
    mix = 3 * q2 * r
    dg = p * p * ((abs(CL)**2 + abs(CR)**2) * vv - 2 * (CL * np.conj(CR)).real * mix)
    return 2 * float(np.sum(wt * dg)) * 2


# --------------------------------------------------------------------------- P -> l nu

LEPTONIC = [('B+', 'bu', 'bll', 5, 'b', 'u0'), ('Bc', 'bc', 'bll', 5, 'b', 'c'), ('D+', 'dc', 'dll', 4, 'c', 'd'), ('Ds', 'sc', 'dll', 4, 'c', 's')]


def plnu_rate(par, P, V, lep, cs, msum):
    """|<0|H|P>|^2 phase space, from the axial and pseudoscalar matrix elements."""
    M, ml = par['m_' + P], par['m_' + lep]
    p = (M * M - ml * ml) / 2 / M
    tot = 0
    for L, R, SL, SR, T in cs:
        # i f p_mu (R - L)/2 and -i f M^2/msum (SR - SL)/2 between spinors
        A = par['f_' + P] / 2 * ((L - R) * ml + (SR - SL) * M * M / msum)
        tot += abs(4 * par['GF'] / np.sqrt(2) * V * A)**2
    spin = 2 * (M * M - ml * ml) / 2 * 1.      # Tr[(l+m) PL nu PR] = 2 l.nu
    return par['tau_' + P] * tot * spin * p / (8 * np.pi * M * M)


def leptonic(m, rng, n, seed):
    import flavio
    for k in range(n):
        for P, qq, sc, nf, q1, q2 in LEPTONIC:
            par, w, c = setup(rng, sel(qq), 4.8 if nf == 5 else 2., amount=float(rng.choice([0., .001, .1, 1.])))
            s = cfg(sc)
            for lep in LEP:
                name = 'BR({}->{}nu)'.format(P, lep)
                cs = [ccwc(par, w, qq, lep, nu, s, nf) for nu in LEP]
                want = plnu_rate(par, P, vij(par, qq), lep, cs, qmass(par, q1, s) + qmass(par, q2, s))
                got = val(name, par, w)
                m.close(got, want, 'leptonic:{}:{}'.format(P, lep), 'rate of the leptonic decay', rtol=1e-7, obs=name, coef=c)
                m.event('leptonic', (name, seed, k))
        for P, qq, q1 in (('K+', 'su', 's'), ('pi+', 'du', 'd')):
            par, w, c = setup(rng, lambda co, sn, f=sel(qq): f(co, sn) or sn == 'nunumue', 2., amount=float(rng.choice([0., 1e-3, .01])))
            if c and rng.random() < .5:     # new physics of the order of the Fermi constant in muon decay
                c = {a: b * (par['GF'] * 100 if 'numunuee' in a else 1) for a, b in c.items()}
                w = flavio.WilsonCoefficients()
                w.set_initial(c, 2.)
            s, r = par['m_rho0'], rgf(par, w)
            v = {}
            for lep in ('e', 'mu'):
                cs = [ccwc(par, w, qq, lep, nu, s, 3, r) for nu in LEP]
                v[lep] = plnu_rate(par, P, vij(par, qq), lep, cs, qmass(par, q1, s) + qmass(par, 'u', s)) * (1 + radiative(par, P, lep))
            sh = P[:-1]
            for name, want in (('BR(K+->munu)', v['mu']), ('BR(K+->enu)', v['e']), ('Remu(K+->lnu)', 1.00055 * v['e'] / v['mu'])) if P == 'K+' else (('BR(pi+->enu)', v['e'] / v['mu'] * 1.00055), ('Gamma(pi+->munu)', v['mu'] / par['tau_pi+'])):
                got = val(name, par, w)
                m.close(got, want, 'leptonic:{}'.format(name), 'rate of the leptonic decay', rtol=1e-6, obs=name, coef=c)
                m.event('leptonic', (name, seed, k))
            # tau -> P nu: the crossed process
            s = cfg('taudecays')
            M, mt, f = par['m_' + P], par['m_tau'], par['f_' + P]
            want = 0
            for nu in LEP:
                L, R, SL, SR, T = ccwc(par, w, qq, 'tau', nu, s, 4, r)
                a = 4 * par['GF'] / np.sqrt(2) * vij(par, qq) * f / 2 * ((L - R) * mt + (SR - SL) * M * M / (qmass(par, q1, s) + qmass(par, 'u', s)))
                p = (mt * mt - M * M) / 2 / mt
                want += abs(a)**2 / 2 * 2 * (mt * p) * p / (8 * np.pi * mt * mt)
            name = 'BR(tau+->{}+nu)'.format(sh)
            name = name if name in flavio.Observable.instances else 'BR(tau->{}nu)'.format(sh)
            got = val(name, par, w)
            m.close(got, want * par['tau_tau'], 'leptonic:tau-' + sh, 'rate of tau to meson and neutrino', rtol=1e-6, obs=name, coef=c)
            m.event('taudec', (name, seed, k))


def radiative(par, P, lep):
    """Marciano-Sirlin structure-independent part plus chiral coefficients."""
    from scipy.special import spence
    M, ml, mr = par['m_' + P], par['m_' + lep], par['m_rho0']
    z = (ml / M)**2
    F = (1.5 * np.log(z) + (13 - 19 * z) / 8 / (1 - z) - (8 - 5 * z) / 4 / (1 - z)**2 * z * np.log(z)
         - (2 + (1 + z) / (1 - z) * np.log(z)) * np.log(1 - z) - 2 * (1 + z) / (1 - z) * spence(z))
    n = P + 'lnu'
    c4 = par['c4_' + P + 'munu'] if lep == 'mu' else 0
    lg = np.log(mr**2 / ml**2)
    return 1 / 137.035999139 / np.pi * (F - 1.5 * np.log(mr / M) - par['c1_' + n] - ml**2 / mr**2 * (par['c2_' + n] * lg + par['c3_' + n] + c4) + M**2 / mr**2 * par['c2t_' + n] * lg)


# --------------------------------------------------------------------------- semileptonic

def parts(q2, ml, hel, cv, ct, cs, hv, ht, hvt, hs):
    """Lepton-helicity amplitudes: spin conserving N, spin flipping F (per polarisation) and timelike."""
    r = ml / np.sqrt(q2)
    N = {h: cv[h] * hv[h] - 4 * ct * r * ht[h] for h in hel}
    F = {h: r * cv[h] * hv[h] - 4 * ct * ht[h] for h in hel}
    Ft = r * cv['t'] * hvt + cs * hs
    return N, F, Ft


def rate(par, mB, q2, l, ml, V, N, F, Ft):
    k = par['GF']**2 * V**2 / (192 * np.pi**3 * mB**3) * q2 * np.sqrt(l) * (1 - ml**2 / q2)**2
    return k * (sum(abs(x)**2 for x in N.values()) + sum(abs(x)**2 for x in F.values()) / 2 + 1.5 * abs(Ft)**2)


def ff_of(name, par, q2):
    import flavio
    return flavio.classes.AuxiliaryQuantity[name + ' form factor'].prediction(par_dict=par, wc_obj=None, q2=q2)


def p_dbr(par, w, B, P, qq, lep, q2, scale, nf, ff, heavy, light):
    """heavy - light: mass difference in the divergence of the vector current q_up gamma q_down."""
    mB, mP, ml = par['m_' + B], par['m_' + P], par['m_' + lep]
    l = lam(mB**2, mP**2, q2)
    s = np.sqrt(q2)
    tot, afb = 0, 0
    for nu in LEP:
        L, R, SL, SR, T = ccwc(par, w, qq, lep, nu, scale, nf)
        N, F, Ft = parts(q2, ml, ('0',), {'0': L + R, 't': L + R}, T, SL + SR, {'0': np.sqrt(l) / s * ff['f+']}, {'0': -np.sqrt(l) / (mB + mP) * ff['fT']},
                         (mB**2 - mP**2) / s * ff['f0'], (mB**2 - mP**2) / (heavy - light) * ff['f0'])
        tot += rate(par, mB, q2, l, ml, vij(par, qq), N, F, Ft)
    return par['tau_' + B] * tot


def v_dbr(par, w, B, V, qq, lep, q2, scale, nf, ff, heavy, light):
    mB, mV, ml = par['m_' + B], par['m_' + V], par['m_' + lep]
    l = lam(mB**2, mV**2, q2)
    s = np.sqrt(q2)
    a, b = (mB + mV) * ff['A1'], np.sqrt(l) / (mB + mV) * ff['V']
    hR = {'+': a - b, '-': a + b, '0': -8 * mB * mV / s * ff['A12']}
    t1, t2 = np.sqrt(l) / s * ff['T1'], (mB**2 - mV**2) / s * ff['T2']
    ht = {'+': t1 + t2, '-': -(t1 - t2), '0': -4 * mB * mV / (mB + mV) * ff['T23']}
    flip = {'+': '-', '-': '+', '0': '0'}
    out = np.zeros(3)
    for nu in LEP:
        L, R, SL, SR, T = ccwc(par, w, qq, lep, nu, scale, nf)
        cv = {h: L - R * hR[flip[h]] / hR[h] for h in hR}
        cv['t'] = L - R
        N, F, Ft = parts(q2, ml, ('+', '-', '0'), cv, T, SR - SL, hR, ht, -np.sqrt(l / q2) * ff['A0'], -np.sqrt(l) / (heavy + light) * ff['A0'])
        tot = rate(par, mB, q2, l, ml, vij(par, qq), N, F, Ft)
        lon = rate(par, mB, q2, l, ml, vij(par, qq), {'0': N['0']}, {'0': F['0']}, Ft)
        k = par['GF']**2 * vij(par, qq)**2 / (192 * np.pi**3 * mB**3) * q2 * np.sqrt(l) * (1 - ml**2 / q2)**2
        fb = k * (.75 * (abs(N['-'])**2 - abs(N['+'])**2) - 1.5 * (Ft * np.conj(F['0'])).real)
        out += [tot, lon, fb]
    return par['tau_' + B] * out


PP = [('B+', 'D0', 'bc', 'B+->D', 'B->D', 1), ('B0', 'D+', 'bc', 'B0->D', 'B->D', 1), ('B0', 'pi+', 'bu', 'B0->pi', 'B->pi', 1), ('B+', 'pi0', 'bu', 'B+->pi', 'B->pi', .5)]
DP = [('D+', 'pi0', 'dc', 'D+->pi', 'D->pi', .5), ('D0', 'pi+', 'dc', 'D0->pi', 'D->pi', 1), ('D+', 'K0', 'sc', 'D+->K', 'D->K', 1), ('D0', 'K+', 'sc', 'D0->K', 'D->K', 1)]
VV = [('B0', 'D*+', 'bc', 'B0->D*', 'B->D*', 1), ('B+', 'D*0', 'bc', 'B+->D*', 'B->D*', 1), ('B0', 'rho+', 'bu', 'B0->rho', 'B->rho', 1), ('B+', 'rho0', 'bu', 'B+->rho', 'B->rho', .5),
      ('B+', 'omega', 'bu', 'B+->omega', 'B->omega', .5), ('Bs', 'K*+', 'bu', 'Bs->K*', 'Bs->K*', 1)]


def qpoint(rng, lo, hi):
    u = rng.random() if rng.random() < .7 else float(rng.choice([1e-4, 1e-2, .99, .9999]))
    return float(lo + u * (hi - lo))


def semi_p(m, rng, n, seed):
    import flavio
    for k in range(n):
        for B, P, qq, tag, ffn, iso in PP + DP:
            beauty = qq[0] == 'b'
            par, w, c = setup(rng, sel(qq), 4.8 if beauty else 2.)
            s, nf = cfg('bpll' if beauty else 'dpll'), 5 if beauty else 4
            up = qmass(par, 'u0' if qq == 'bu' else qq[1], s)
            for lep in LEP:
                name = 'dBR/dq2({}{}nu)'.format(tag, lep)
                ml, top = par['m_' + lep], (par['m_' + B] - par['m_' + P])**2
                if ml**2 > top:
                    continue
                q2 = qpoint(rng, ml**2, top)
                want = iso * p_dbr(par, w, B, P, qq, lep, q2, s, nf, ff_of(ffn, par, q2), qmass(par, qq[0], s), up)
                got = val(name, par, w, q2)
                m.close(got, want, 'semileptonic:{}:{}'.format(tag, 'np' if c else 'sm'), 'differential rate of the semileptonic decay to a pseudoscalar', rtol=1e-6, obs=name, q2=q2, coef=c)
                m.event('PlnU', (name, seed, k))
        for K, iso in (('KL', 1), ('KS', 1), ('K+', 1)):
            P = 'pi0' if K == 'K+' else 'pi+'
            par, w, c = setup(rng, sel('su'), 2., amount=float(rng.choice([0., .01, .3])))
            s = par['m_rho0']
            for lep in ('e', 'mu'):
                name = 'BR({}->pi{}nu)'.format(K, lep)
                lo, hi = par['m_' + lep]**2, (par['m_' + K] - par['m_' + P])**2
                ms = qmass(par, 's', s)
                tot = 0
                # smooth variable at both ends
                t, wt = gauss(60, 0., 1.)
                x = t * t * (3 - 2 * t)
                jac = 6 * t * (1 - t)
                for xi, wi in zip(x, wt * jac):
                    if lep == 'e':
                        q2 = lo * (hi / lo)**xi
                        dq = q2 * np.log(hi / lo)
                    else:
                        q2, dq = lo + xi * (hi - lo), hi - lo
                    ff = ff_of('K->pi', par, q2)
                    if K == 'K+':
                        ff = {a: b * (1 + par['K->pi delta_K+pi0']) for a, b in ff.items()}
                    tot += wi * dq * p_dbr(par, w, K, P, 'su', lep, q2, s, 3, ff, ms, 0.)
                em = par[('K+' if K == 'K+' else 'K0') + lep + '3 delta_EM']
                want = tot * (1 + em)**2 / (2 if K == 'K+' else 1)
                got = val(name, par, w)
                m.close(got, want, 'semileptonic:{}'.format(name), 'rate of the semileptonic kaon decay', rtol=2e-3, obs=name, coef=c, ratio=got / want)
                m.event('PlnU', (name, seed, k))


def semi_v(m, rng, n, seed):
    import flavio
    for k in range(n):
        for B, V, qq, tag, ffn, iso in VV:
            par, w, c = setup(rng, sel(qq), 4.8)
            s = cfg('bvll')
            up = qmass(par, 'u0' if qq == 'bu' else qq[1], s)
            for lep in LEP:
                ml, top = par['m_' + lep], (par['m_' + B] - par['m_' + V])**2
                q2 = qpoint(rng, ml**2, top)
                tot, lon, fb = iso * v_dbr(par, w, B, V, qq, lep, q2, s, 5, ff_of(ffn, par, q2), qmass(par, 'b', s), up)
                t = tag + lep + 'nu)'
                kind = 'np' if c else 'sm'
                for name, want, scale in (('dBR/dq2(' + t, tot, tot), ('dBR_L/dq2(' + t, lon, tot), ('dBR_T/dq2(' + t, tot - lon, tot), ('FL(' + t, lon / tot, 1)):
                    got = val(name, par, w, q2)
                    m.close(got, want, 'vector:{}:{}:{}'.format(name.split('(')[0], tag, kind), 'semileptonic decay to a vector meson', rtol=1e-6, atol=1e-8 * abs(scale), obs=name, q2=q2, coef=c)
                    m.event('VlnU', (name, seed, k))
                # forward-backward asymmetry of the full angular coefficients
                from flavio.physics.bdecays import bvlnu
                J = bvlnu.get_angularcoeff(q2, w, par, B, V, lep)
                got = iso * par['tau_' + B] * 3 / 8 * (J['6c'] + 2 * J['6s'])
                m.close(abs(got), abs(fb), 'vector:AFB:{}:{}'.format(tag, kind), 'forward-backward difference of the semileptonic decay to a vector meson', rtol=1e-6, atol=1e-8 * tot, q2=q2, coef=c)
                m.event('VlnU', ('AFB', t, seed, k))


# --------------------------------------------------------------------------- neutral leptonic

def neutral(m, rng, n, seed):
    import flavio
    from flavio.physics.running import running as R
    from flavio.physics.bdecays.wilsoncoefficients import wctot_dict
    for k in range(n):
        for B, qq, q in (('Bs', 'bs', 's'), ('B0', 'bd', 'd')):
            pat = re.compile(r'C(9|10|S|P)p?_' + qq + r'(e|mu|tau)(e|mu|tau)$')
            par, w, c = setup(rng, lambda co, s: bool(pat.match(co)), 4.8)
            s = cfg('bll')
            mB, mb = par['m_' + B], R.get_mb(par, s, nf_out=5)
            red = mb / (mb + qmass(par, q, s, 5))
            N = abs(flavio.physics.ckm.xi('t', qq)(par)) * 4 * par['GF'] / np.sqrt(2) * R.get_alpha(par, 4.8)['alpha_e'] / 4 / np.pi
            y = par['DeltaGamma/Gamma_' + B] / 2

            def amp(l1, l2):
                lab = qq + l1 + l2
                wc = wctot_dict(w, lab, s, par) if l1 == l2 else w.get_wc(lab, s, par)
                d = {x: wc['C' + x + '_' + lab] - wc['C' + x + 'p_' + lab] for x in ('9', '10', 'S', 'P')}
                m1, m2 = par['m_' + l1], par['m_' + l2]
                S = (m2 - m1) * d['9'] + mB**2 * red * d['S']       # ubar v
                P = (m2 + m1) * d['10'] + mB**2 * red * d['P']      # ubar gamma5 v
                p = np.sqrt(lam(mB**2, m1**2, m2**2)) / 2 / mB
                rs, rp = 2 * (mB**2 - (m1 + m2)**2), 2 * (mB**2 - (m1 - m2)**2)
                br = par['tau_' + B] * p / (8 * np.pi * mB**2) * N**2 * par['f_' + B]**2 / 4 * (rs * abs(S)**2 + rp * abs(P)**2)
                a = (rp * P**2 - rs * S**2).real / (rs * abs(S)**2 + rp * abs(P)**2) if br else 0
                return br, a
            for l in LEP:
                br, a = amp(l, l)
                name = 'BR({}->{}{})'.format(B, l, l)
                m.close(val(name, par, w), br * (1 + a * y) / (1 - y * y) if B == 'Bs' else br, 'neutral:' + B, 'rate of the neutral leptonic decay (time-integrated for Bs)', rtol=1e-6, obs=name, coef=c)
                m.event('neutral', (name, seed, k))
                name = 'tau_{}{}'.format(l, l)
                if B == 'Bs' and name in flavio.Observable.instances:
                    t = par['tau_Bs']
                    want = t / (1 - y * y) * (1 + 2 * a * y + y * y) / (1 + a * y)
                    m.close(val(name, par, w), want, 'neutral:lifetime', 'effective lifetime', rtol=1e-9, obs=name)
                    m.event('neutral', (name, seed, k))
            for l1, l2 in (('e', 'mu'), ('mu', 'e'), ('e', 'tau'), ('tau', 'e'), ('mu', 'tau'), ('tau', 'mu')):
                b12, b21 = amp(l1, l2)[0], amp(l2, l1)[0]
                for name, want in (('BR({}->{}{})'.format(B, l1, l2), b12), ('BR({}->{}{},{}{})'.format(B, l1, l2, l2, l1), b12 + b21)):
                    if name in flavio.Observable.instances:
                        m.close(val(name, par, w), want, 'neutral:lfv', 'rate of the lepton flavour violating decay', rtol=1e-6, obs=name, coef=c)
                        m.event('neutral', (name, seed, k))


# --------------------------------------------------------------------------- angular distributions

def angles(m, rng, n, seed):
    """angular coefficients of B->V(->PP)ll' and B->Pll' for arbitrary helicity amplitudes against explicit spinors;
    interference terms of B and anti-B by polarisation of the quadratic form"""
    from lib import angdist as D
    from flavio.physics.bdecays import angular as A
    masses = (.0005, .1057, 1.777, .4)
    sub = [D.KEYS, [k for k in D.KEYS if k[-1] in 'VA'], D.KEYS, [k for k in D.KEYS if k[-1] != 'A'], [('0', 'V'), ('pl', 'T'), ('mi', 'Tt'), 'S', 'P']]
    for i in range(n):
        mB, mV, mb, mq = rng.uniform(4.9, 6.4), rng.uniform(.1, 2.2), 4.2, float(rng.choice([0, 1.2]))
        m1 = float(rng.choice(masses))
        m2 = m1 if rng.random() < .4 else float(rng.choice(masses + (0,)))
        lo, hi = (m1 + m2)**2 * 1.01 + 1e-3, (mB - mV)**2 * .999
        if lo >= hi:
            continue
        q2 = qpoint(rng, lo, hi)
        ks = sub[int(rng.integers(len(sub)))]

        def draw():
            return {k: complex(*rng.normal(size=2)) * 10**rng.uniform(-1, 1) if k in ks else 0 for k in D.KEYS}
        H, Ht = draw(), draw()
        args = (q2, mB, mV, mb, mq, m1, m2)
        ref, res = D.vector(rng, H, q2, m1, m2)
        N = 8 / 3 * np.sqrt(lam(mB**2, mV**2, q2) * lam(q2, m1**2, m2**2)) / (2**9 * np.pi**3 * mB**3 * q2)
        if res > 1e-9:
            raise RuntimeError('projection failed')
        J = m.call('angles:v', A.angularcoeffs_general_v, H, *args)
        if J is None:
            continue
        top = max(abs(v) for v in ref.values()) * N
        m.check(set(J) == set(ref), 'angles:keys', 'set of angular coefficients', got=sorted(map(str, J)))
        for k in ref:
            m.close(J[k], ref[k] * N, 'angles:J%s' % k, 'angular coefficient of B->V l l\' from the helicity amplitudes', rtol=1e-9, atol=1e-10 * top, key=k, q2=q2, m1=m1, m2=m2)
        m.event('angles', (seed, i, 'V'))
        phi = rng.uniform(-np.pi, np.pi)
        Jh = m.call('angles:h', A.angularcoeffs_h_v, phi, H, Ht, *args)
        rot = {k: H[k] + np.exp(1j * phi) * Ht[k] for k in D.KEYS}
        Js, Jt = A.angularcoeffs_general_v(rot, *args), A.angularcoeffs_general_v(Ht, *args)
        top = max(max(abs(v) for v in x.values()) for x in (J, Js, Jt))
        for k in ref:
            m.close(Jh[k], Js[k] - J[k] - Jt[k], 'angles:h%s' % k, 'interference of the amplitudes of B and anti-B in the angular coefficient', rtol=1e-9, atol=1e-10 * top, key=k, q2=q2, phi=phi)
        m.event('angles', (seed, i, 'h'))
        h = {k: complex(*rng.normal(size=2)) * 10**rng.uniform(-1, 1) for k in ('V', 'A', 'S', 'P', 'T', 'Tt')}
        J = m.call('angles:p', A.angularcoeffs_general_p, h, *args)
        a, b, c = D.scalar(h, q2, m1, m2)
        N *= 3 / 8
        top = N * max(abs(a), abs(b), abs(c))
        for k, v in (('a', a), ('b', -b), ('c', c)):
            m.close(J[k], v * N, 'angles:' + k, 'angular coefficient of B->P l l\' from the helicity amplitudes', rtol=1e-9, atol=1e-10 * top, key=k, q2=q2, m1=m1, m2=m2)
        m.event('angles', (seed, i, 'P'))
        t = {k + '_' + x: complex(*rng.normal(size=2)) for k in ('0', 'perp', 'para') for x in 'LR'}
        H = A.transversity_to_helicity(t)
        # sum over chiralities is unitary up to the convention: |H_V|^2 + |H_A|^2 = 2 (|L|^2 + |R|^2)
        for lamb, keys in (('0', ('0',)), ('pm', ('perp', 'para'))):
            hs = [H['0', X] for X in 'VA'] if lamb == '0' else [H[x, X] for x in ('pl', 'mi') for X in 'VA']
            m.close(sum(abs(x)**2 for x in hs), 2 * sum(abs(t[k + '_' + x])**2 for k in keys for x in 'LR'), 'angles:transversity', 'norm of transversity and helicity amplitudes', rtol=1e-10, which=lamb)
        for X, sg in (('V', 1), ('A', -1)):
            par, perp = t['para_R'] + sg * t['para_L'], t['perp_R'] + sg * t['perp_L']
            m.close(abs(H['pl', X] + H['mi', X]), np.sqrt(2) * abs(par), 'angles:transversity', 'parallel amplitude', rtol=1e-10, which=X)
            m.close(abs(H['pl', X] - H['mi', X]), np.sqrt(2) * abs(perp), 'angles:transversity', 'perpendicular amplitude', rtol=1e-10, which=X)


# --------------------------------------------------------------------------- B -> l l gamma

def bgamma(m, rng, n, seed):
    """structure-dependent transverse amplitudes plus exact bremsstrahlung of a pseudoscalar decay
    (|M|^2 integrated over the lepton angle; verified with explicit spinors)"""
    import flavio
    from flavio.physics.running import running as R
    from flavio.physics.bdecays.wilsoncoefficients import wctot_dict
    em = {'phi': -1 / 3, 'rho0': 2**-.5, 'omega': 2**-.5 / 3}
    g = {'phi': ('Bs->phi', -1), 'rho0': ('B->rho', 2**-.5), 'omega': ('B->omega', -2**-.5)}
    for k in range(n):
        for B, qq, res in (('Bs', 'bs', ('phi',)), ('B0', 'bd', ('rho0', 'omega'))):
            pat = re.compile(r'C((9|10)_' + qq + r'(ee|mumu)|7_' + qq + ')$')
            par, w, c = setup(rng, lambda co, s: bool(pat.match(co)), 4.8, amount=float(rng.choice([0., .3, 1., 8.])))
            sc = cfg('bllgamma')
            M = par['m_' + B]
            mb = R.get_mb(par, sc, nf_out=5)
            al = R.get_alpha(par, sc)['alpha_e']
            P = par['GF']**2 * al**3 * abs(flavio.physics.ckm.xi('t', qq)(par))**2 * M**5 / (2**10 * np.pi**4) * par['tau_' + B]
            F = flavio.classes.AuxiliaryQuantity['B->gamma form factor']
            f0 = F.prediction(par_dict=par, wc_obj=None, q2=0, B=B)

            def rate(l, q2):
                lab = qq + l + l
                wc = wctot_dict(w, lab, sc, par)
                f = F.prediction(par_dict=par, wc_obj=None, q2=q2, B=B)
                c7, c9, c10 = wc['C7_' + qq], wc['C9_' + lab], wc['C10_' + lab]
                pole = sum(-2 * em[V] * par['f_' + V] * g[V][1] * par[g[V][0] + ' BSZ a0_T1'] * q2 / par['m_' + V]
                           / (q2 - par['m_' + V]**2 + 1j * par['m_' + V] / par['tau_' + V]) for V in res)
                tv = f['tv'] + f0['tv'] + pole + 16 / 3 * (-wc['C1_' + qq] - wc['C2_' + qq] / 3) / c7 * par['f_' + B] / mb
                ta = f['ta'] + f0['ta'] + pole
                s, r = q2 / M**2, (par['m_' + l] / M)**2
                b = np.sqrt(1 - 4 * r / s)
                L = .5 * np.log((1 + b) / (1 - b))
                AV, AA = c9 * f['v'] + 2 * mb / M / s * c7 * tv, c9 * f['a'] + 2 * mb / M / s * c7 * ta
                sd = (1 - s)**3 * b * 4 / 3 * ((s + 2 * r) * (abs(AV)**2 + abs(AA)**2) + (s - 4 * r) * abs(c10)**2 * (f['v']**2 + f['a']**2))
                br = 128 * par['f_' + B]**2 / M**2 * r * abs(c10)**2 / (1 - s) * ((1 + s * s - 4 * r) * L - s * b)
                mix = -64 * par['f_' + B] / M * r * (1 - s)**2 * L * (AV * np.conj(c10)).real
                return P * (sd + br + mix)
            for l in ('e', 'mu'):
                for lo, hi in ((4 * par['m_' + l]**2 + 1e-4, .6), (1.2, 8.), (14.5, .99 * M**2)):
                    q2 = qpoint(rng, lo, hi)
                    name = 'dBR/dq2({}->{}{}gamma)'.format(B, l, l)
                    m.close(val(name, par, w, q2), rate(l, q2), 'bgamma:' + B, 'differential rate of the radiative leptonic decay', rtol=1e-6, obs=name, q2=q2, coef=c)
                    m.event('bgamma', (name, seed, k, lo))
            l = str(rng.choice(['e', 'mu']))
            a, d = sorted(rng.uniform(14.5, 25., 2))
            x, wt = gauss(24, a, d)
            name = '<dBR/dq2>({}->{}{}gamma)'.format(B, l, l)
            m.close(val(name, par, w, a, d), sum(wi * rate(l, xi) for xi, wi in zip(x, wt)) / (d - a), 'bgamma:bin', 'binned rate of the radiative leptonic decay', rtol=.012, obs=name, bin=(a, d))
            m.event('bgamma', (name, seed, k))


# --------------------------------------------------------------------------- b -> s nu nu

def untagged(m, rng, n, seed):
    """Bs -> V l l without flavour tag: decays of the two mass eigenstates, each with its own lifetime.
    Bs -> phi: the amplitudes of the eigenstates p |Bs> -+ q |Bs-bar> to states of definite CP;  Bs -> K*: no interference"""
    import warnings
    from flavio.physics.bdecays import angular as A
    from flavio.physics.bdecays.bvll import amplitudes as AM
    from flavio.physics.mesonmixing.observables import get_M12_G12
    warnings.simplefilter('ignore')
    for i in range(n):
        par, w, c = setup(rng, lambda c, s: re.match(r'C(7|8|9|10|S|P)p?_b[sd]|C[VST][LR][LR]_bsbs', c) is not None, float(rng.choice([4.8, 80.])))
        if rng.random() < .5:
            from lib import npwc
            w = type(w)()
            c = dict(c, CVLL_bsbs=complex(*rng.normal(size=2)) * 1e-10)
            w.set_initial(c, 4.8)
        par['DeltaGamma/Gamma_Bs'] = float(rng.uniform(-.5, .8))
        y = par['DeltaGamma/Gamma_Bs'] / 2
        V = 'K*0' if rng.random() < .3 else 'phi'
        lep = str(rng.choice(LEP))
        ml, mB, mV = par['m_' + lep], par['m_Bs'], par['m_' + V]
        q2 = float(rng.choice([rng.uniform(1.1, 6.), rng.uniform(15.5, (mB - mV)**2 - .1)])) if lep != 'tau' else float(rng.uniform(15.5, (mB - mV)**2 - .1))
        ff = AM.get_ff(q2, par, 'Bs', V)
        h, hb = AM.helicity_amps(q2, ff, w, par, 'Bs', V, lep), AM.helicity_amps_bar(q2, ff, w, par, 'Bs', V, lep)
        mb = qmass(par, 'b', cfg('bvll'))

        def J(x):
            return A.angularcoeffs_general_v(x, q2, mB, mV, mb, 0, ml, ml)
        if V == 'phi':
            M, G = (complex(z) for z in get_M12_G12(w, par, 'Bs'))
            qp = np.sqrt((2 * M.conjugate() - 1j * G.conjugate()) / (2 * M - 1j * G))
            if (qp * (M - .5j * G)).real > 0:           # q/p of the convention in which the heavy state is p B - q B-bar, M = 2 Re(-q/p (M12 - i/2 G12)) > 0
                qp = -qp
            r = -abs(qp) / qp
            other = {'pl': 'mi', 'mi': 'pl'}
            # the CP conjugate of the amplitudes: helicities of the vector exchanged, and the transverse scalar is CP odd
            hc = {k: r * (-hb[k] if k == 'S' else hb[(other.get(k[0], k[0]),) + tuple(k[1:])] if isinstance(k, tuple) else hb[k]) for k in h}
            even, odd = J({k: (h[k] + hc[k]) / np.sqrt(2) for k in h}), J({k: (h[k] - hc[k]) / np.sqrt(2) for k in h})
            S = {k: even[k] / (1 + y) + odd[k] / (1 - y) for k in even}
        else:
            a, b = J(h), J(hb)
            S = {k: (a[k] + b[k]) / (1 - y**2) for k in a}
        tot = .75 * (2 * S['1s'] + S['1c']) - .25 * (2 * S['2s'] + S['2c'])
        exp = {'dBR/dq2': par['tau_Bs'] * tot / 2, 'FL': -S['2c'] / tot, 'S3': S[3] / tot, 'S4': -S[4] / tot, 'S7': -S[7] / tot}
        for k, v in exp.items():
            nm = '%s(Bs->%s%s%s)' % (k, V, lep, lep)
            m.close(val(nm, par, w, q2), v, 'untagged:' + k, 'time average is not the one over the two mass eigenstates', rtol=1e-7, atol=1e-9 if k[0] == 'S' else 0, obs=nm, q2=q2, y=y, wc=c)
            m.event('untagged', (nm, q2))


def bpll(m, rng, n, seed):
    """B -> P l l: rate, flat term and forward-backward asymmetry from helicity amplitudes with explicit spinors"""
    import warnings
    from lib import angdist as D
    from flavio.physics.bdecays import bpll as BP
    warnings.simplefilter('ignore')
    for i in range(n):
        par, w, c = setup(rng, lambda c, s: re.match(r'C(7|8|9|10|S|P)p?_b[sd]', c) is not None, 4.8)
        B, P = [('B0', 'K0'), ('B+', 'K+'), ('B+', 'pi+'), ('B0', 'pi0')][int(rng.integers(4))]
        lep = str(rng.choice(LEP))
        ml, mB, mP = par['m_' + lep], par['m_' + B], par['m_' + P]
        q2 = float(rng.choice([rng.uniform(.1, 8.), rng.uniform(14.5, (mB - mP)**2 - .1)])) if lep != 'tau' else float(rng.uniform(14.5, (mB - mP)**2 - .1))
        try:
            hs = [f(q2, w, par, B, P, lep) for f in (BP.helicity_amps, BP.helicity_amps_bar)]
        except KeyError:
            continue
        N = np.sqrt(lam(mB**2, mP**2, q2) * lam(q2, ml**2, ml**2)) / (2**9 * np.pi**3 * mB**3 * q2)
        (a, b, c2), (ab, bb, cb) = (D.scalar({k: h.get(k, 0) for k in ('V', 'A', 'S', 'P', 'T', 'Tt')}, q2, ml, ml) * N for h in hs)
        G, Gb = 2 * (a + c2 / 3), 2 * (ab + cb / 3)
        exp = {'FH': 2 * (a + c2 + ab + cb) / (G + Gb), 'AFB': -(b + bb) / (G + Gb), 'dBR/dq2': par['tau_' + B] * (G + Gb) / 2 / (2 if P == 'pi0' else 1),
               'ACP': (G - Gb) / (G + Gb)}
        for k, v in exp.items():
            nm = '%s(%s->%s%s%s)' % (k, B, P.rstrip('+0'), lep, lep)
            try:
                got = val(nm, par, w, q2)
            except KeyError:
                continue
            m.close(got, v, 'bpll:' + k, 'angular distribution of B -> P l l', rtol=1e-8, atol=1e-12 if k[0] in 'AF' else 0, obs=nm, q2=q2, wc=c)
            m.event('bpll', (nm, q2))


def kaonll(m, rng, n, seed):
    """K_L,S -> l l': the CP-odd (even) state decays through the real (imaginary) part of the pseudoscalar and the imaginary
    (real) part of the scalar amplitude into l+ l-; different flavours by superposing K0 and anti-K0 amplitudes"""
    from flavio.physics import ckm
    from flavio.physics.kdecays import kll
    from flavio.physics.kdecays.wilsoncoefficients import wilsoncoefficients_sm_sl
    mu = cfg('kdecays')
    for i in range(n):
        par, w, c = setup(rng, lambda c, s: re.match(r'C(9|10|S|P)p?_sd(ee|mumu|emu|mue)$', c) is not None, mu, amount=float(rng.choice([0., 1., 10.])))
        mK = par['m_K0']
        xt, xc = ckm.xi('t', 'sd')(par), ckm.xi('c', 'sd')(par)

        def amp(l1, l2):
            x = w.get_wc('sd' + l1 + l2, mu, par)
            d = {o: x['C%s_sd%s%s' % (o, l1, l2)] - x['C%sp_sd%s%s' % (o, l1, l2)] for o in ('9', '10', 'S', 'P')}
            if l1 == l2:
                sm = wilsoncoefficients_sm_sl(par, mu)
                d['10'] = d['10'] + sm['C10_t'] + xc / xt * sm['C10_c']
            m1, m2 = par['m_' + l1], par['m_' + l2]
            return xt * ((m1 + m2) / mK * d['10'] + mK * d['P']), xt * ((m2 - m1) / mK * d['9'] + mK * d['S'])
        for K in ('KL', 'KS'):
            for l1, l2 in (('e', 'e'), ('mu', 'mu'), ('e', 'mu')):
                m1, m2 = par['m_' + l1], par['m_' + l2]
                k = np.sqrt(lam(mK**2, m1**2, m2**2))
                N = 8 * par['GF']**2 * (par['alpha_e'] / (4 * np.pi))**2 * par['f_K0']**2 * par['tau_' + K] * k * mK / (16 * np.pi)
                tot = 0.
                for a, b in ((l1, l2),) if l1 == l2 else ((l1, l2), (l2, l1)):
                    (P, S), (Q, T) = amp(a, b), amp(b, a)
                    sl, pl = kll.amplitudes_LD(par, K, a) if a == b else (0, 0)
                    if K == 'KL':
                        p, s = (P + np.conj(Q)) / 2 + pl, (S - np.conj(T)) / 2
                    else:
                        p, s = (P - np.conj(Q)) / 2, (S + np.conj(T)) / 2 + sl
                    tot += N * ((1 - (m1 - m2)**2 / mK**2) * abs(p)**2 + (1 - (m1 + m2)**2 / mK**2) * abs(s)**2)
                nm = 'BR(%s->%s)' % (K, l1 + l2 if l1 == l2 else 'emu,mue')
                m.close(val(nm, par, w), tot, 'kaonll:' + nm, 'leptonic decay of the neutral kaon', rtol=1e-6, obs=nm, coef=c)
                m.event('kaonll', (nm, seed, i))


def bxll(m, rng, n, seed):
    """inclusive b -> q l l: decay of a free quark with explicit spinors, one-gluon corrections from the literature; vector and
    axial couplings of the right-handed current contribute equally to massless leptons"""
    import warnings
    from lib import inclusive as I
    from flavio.physics.bdecays import bxll as X
    warnings.simplefilter('ignore')
    keys = [k + t for k in ('7', 'v', 'a', 's', 'p') for t in ('', 'p')]
    for i in range(n):
        s = float(rng.choice([rng.uniform(.03, .95), rng.uniform(.3, .37)]))
        ml, al = float(rng.uniform(0, np.sqrt(s) / 2)), float(rng.choice([0., .2]))
        if al:
            ml = 1e-9
        on = [k for k in keys if rng.random() < .6]
        C = {k: complex(*rng.normal(size=2)) if k in on else 0j for k in keys}
        t = I.taus(s)
        a, b, c = I.free(s, ml, C)
        want = .75 * 2 * (a + c / 3)
        ha = -I.free(s, 1e-9, C)[1]
        if al:
            f = (1 - s)**2 * al / np.pi
            for q in ('', 'p'):
                c7, c9, c10 = (C[x + q] for x in ('7', 'v', 'a'))
                want += f * (4 * abs(c7)**2 * (1 + 2 / s) * t['77'] + 12 * (c7 * c9.conjugate()).real * t['7v'] + (abs(c9)**2 + abs(c10)**2) * (1 + 2 * s) * t['vv'])
                ha += (-1 if q == '' else 1) * 4 * f * (s * (c9 * c10.conjugate()).real * t['va'] + 2 * (c7 * c10.conjugate()).real * t['7a'])
        got = sum(X.f_ll(s, ml, al, *(C[k + q] for k in ('7', 'v', 'a', 's', 'p'))) for q in ('', 'p'))
        scale = sum(abs(v)**2 for v in C.values()) / s
        m.close(got, want, 'bxll:rate', 'rate of the free quark decay', rtol=1e-7, atol=1e-9 * scale, s=s, ml=ml, alpha_s=al, C=on)
        m.close(X.f_ll_ha(s, ml, al, C), ha, 'bxll:asymmetry', 'forward-backward asymmetry of the free quark decay', rtol=1e-7, atol=1e-9 * scale, s=s, alpha_s=al, C=on)
        m.event('bxll', (seed, i))
    for i in range(max(n // 20, 2)):
        import flavio
        np.random.seed(int(rng.integers(2**31)))
        par = O.random_par()
        q, q2 = str(rng.choice(['s', 'd'])), float(rng.choice([rng.uniform(1, 6), rng.uniform(14.5, 19)]))
        nm = 'dBR/dq2(B->X%see)' % q

        def at(**c):
            w = flavio.WilsonCoefficients()
            if c:
                w.set_initial(c, cfg('bxll'))
            return val(nm, par, w, q2)
        x = complex(*rng.normal(size=2)) * 20
        Q = {k: at(**{k: x}) + at(**{k: -x}) - 2 * at() for k in ('C9p_b%see' % q, 'C10p_b%see' % q)}
        a, b = Q.values()
        m.close(a, b, 'bxll:chirality', 'vector and axial right-handed currents contribute differently', rtol=1e-4, obs=nm, q2=q2, x=x)
        m.event('bxll', (nm, q2))


def bvgamma(m, rng, n, seed):
    """B -> V gamma: chirality amplitudes, and the mass eigenstates of the Bs, without spectator scattering and subleading terms"""
    import flavio
    from flavio.physics import ckm
    from flavio.physics.bdecays import matrixelements
    from flavio.physics.bdecays.common import meson_ff
    from flavio.physics.bdecays.wilsoncoefficients import wctot_dict
    from flavio.physics.common import conjugate_par, conjugate_wc
    from flavio.physics.mesonmixing.observables import get_M12_G12
    from checks.p13 import spectator, zero_spectator
    zero_spectator()
    spectator('verif none')
    for i in range(n):
        par, w, c = setup(rng, lambda c, s: re.match(r'C(7|8)p?_bs', c) is not None, 4.8)
        c = dict(c, CVLL_bsbs=complex(*rng.normal(size=2)) * 5e-11, CVLL_bdbd=complex(*rng.normal(size=2)) * 5e-12)
        w = type(w)()
        w.set_initial(c, 4.8)
        par['DeltaGamma/Gamma_Bs'] = float(rng.uniform(-.5, .8))
        for k in par:
            if 'deltaC7' in k or 'deltaC9' in k:
                par[k] = 0.
        mu = cfg('bvgamma')
        al, mb = flavio.physics.running.running.get_alpha(par, mu)['alpha_e'], qmass(par, 'b', mu)
        for B, V in (('B+', 'K*+'), ('B0', 'K*0'), ('Bs', 'phi')):
            mB, mV = par['m_' + B], par['m_' + V]
            T1 = ff_of(meson_ff[(B, V)], par, 0.)['T1']
            amp = []
            for cp in (False, True):
                p = conjugate_par(par) if cp else par
                wc = wctot_dict(w, 'bsee', mu, p)
                wc = conjugate_wc(wc) if cp else wc
                N = par['GF'] * np.sqrt(al * (mB**2 - mV**2)**3 / (2 * np.pi**4) / mB**3) * mb / 4 * ckm.xi('t', 'bs')(p) * T1
                d = matrixelements.delta_C7(par=p, wc=wc, q2=0, scale=mu, qiqj='bs')
                amp.append((N * (wc['C7eff_bs'] + d), N * wc['C7effp_bs']))
            (aL, aR), (bR, bL) = amp
            g, gb = abs(aL)**2 + abs(aR)**2, abs(bL)**2 + abs(bR)**2
            exp = {'ACP': (g - gb) / (g + gb)}
            if B == 'B+':
                exp['BR'] = par['tau_' + B] * (g + gb) / 2
            else:
                M, G = (complex(z) for z in get_M12_G12(w, par, B))
                qp = np.sqrt((2 * M.conjugate() - 1j * G.conjugate()) / (2 * M - 1j * G))
                if (qp * (M - .5j * G)).real > 0:
                    qp = -qp
                if B == 'B0':
                    exp['BR'] = par['tau_' + B] * (g + gb) / 2
                    exp['S_K*gamma'] = 2 * (-qp * (aL * np.conj(bL) + aR * np.conj(bR))).imag / (g + gb)
                else:
                    y = par['DeltaGamma/Gamma_Bs'] / 2
                    x = 2 * (-qp * (aL * np.conj(bL) + aR * np.conj(bR))).imag / (g + gb)
                    exp['S_phigamma'] = x
                    e = [sum(abs(u - sg * np.conj(qp) * v)**2 for u, v in ((aL, bL), (aR, bR))) / 2 for sg in (1, -1)]
                    if abs(abs(qp) - 1) < 1e-3:
                        exp['BR'] = par['tau_Bs'] / 2 * (e[0] / (1 + y) + e[1] / (1 - y))
            for k, v in exp.items():
                nm = k if k.startswith('S_') else '%s(%s->%sgamma)' % (k, B, V.rstrip('+0'))
                m.close(val(nm, par, w), v, 'bvgamma:' + k, 'radiative decay', rtol=1e-7 if k != 'BR' or B != 'Bs' else 3e-3, atol=1e-9 if k != 'BR' else 0, obs=nm, wc=c)
                m.event('bvgamma', (nm, seed, i))


def dinu(m, rng, n, seed):
    import flavio
    from flavio.physics.bdecays.wilsoncoefficients import CL_SM
    from flavio.physics.running import running as R
    from flavio.physics.bdecays.common import meson_ff
    modes = [('B+', 'K+', 'B+->K', 'bs', 1), ('B0', 'K0', 'B0->K', 'bs', 1), ('B+', 'pi+', 'B+->pi', 'bd', 1), ('B0', 'pi0', 'B0->pi', 'bd', .5),
             ('B0', 'K*0', 'B0->K*', 'bs', 1), ('B+', 'K*+', 'B+->K*', 'bs', 1), ('B+', 'rho+', 'B+->rho', 'bd', 1), ('B0', 'rho0', 'B0->rho', 'bd', .5)]
    for k in range(n):
        for B, X, tag, qq, iso in modes:
            pat = re.compile(r'C[LR]_' + qq + r'nu(e|mu|tau)nu(e|mu|tau)$')
            par, w, c = setup(rng, lambda co, s: bool(pat.match(co)), 4.8, amount=float(rng.choice([0., 1., 5.])))
            name = 'dBR/dq2({}nunu)'.format(tag)
            vec = '*' in X or 'rho' in X
            s = cfg('bvll' if vec else 'bpll')
            mB, mX = par['m_' + B], par['m_' + X]
            q2 = qpoint(rng, 0., (mB - mX)**2)
            ff = flavio.classes.AuxiliaryQuantity[meson_ff[(B, X)] + ' form factor'].prediction(par_dict=par, wc_obj=None, q2=q2)
            l = lam(mB**2, mX**2, q2)
            N = abs(flavio.physics.ckm.xi('t', qq)(par)) * R.get_alpha(par, s)['alpha_e'] / 2 / np.pi * par['GF']
            pre = N**2 / (192 * np.pi**3 * mB**3) * np.sqrt(l) * par['tau_' + B] * iso
            tot = lon = 0
            for n1 in LEP:
                for n2 in LEP:
                    lab = qq + 'nu' + n1 + 'nu' + n2
                    wc = w.get_wc(lab, s, par)
                    L, Rr = wc['CL_' + lab] + (CL_SM(par, s) if n1 == n2 else 0), wc['CR_' + lab]
                    if not vec:
                        tot += pre * l * ff['f+']**2 * abs(L + Rr)**2
                    else:
                        a, v = (mB + mX) * ff['A1'], np.sqrt(l) / (mB + mX) * ff['V']
                        lo = 64 * mB**2 * mX**2 * ff['A12']**2 * abs(L - Rr)**2
                        lon += pre * lo
                        tot += pre * (lo + 2 * q2 * (a * a * abs(L - Rr)**2 + v * v * abs(L + Rr)**2))
            m.close(val(name, par, w, q2), tot, 'nunu:' + tag, 'differential rate with two neutrinos', rtol=1e-6, obs=name, q2=q2, coef=c)
            m.event('nunu', (name, seed, k))
            name = 'FL({}nunu)'.format(tag)
            if vec and iso == 1 and name in flavio.Observable.instances:
                m.close(val(name, par, w, q2), lon / tot, 'nunu:FL:' + tag, 'longitudinal polarisation with two neutrinos', rtol=1e-6, obs=name, q2=q2, coef=c)
                m.event('nunu', (name, seed, k))


# --------------------------------------------------------------------------- four-lepton and tau decays

I2, Z2 = np.eye(2), np.zeros((2, 2))
SIG = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
G0 = np.block([[I2, Z2], [Z2, -I2]]).astype(complex)
GAM = [G0] + [np.block([[Z2, s], [-s, Z2]]) for s in SIG]
G5 = 1j * GAM[0] @ GAM[1] @ GAM[2] @ GAM[3]
CH = {'L': (np.eye(4) - G5) / 2, 'R': (np.eye(4) + G5) / 2}
MET = np.diag([1., -1, -1, -1])


def spinors(p, mass, anti=False):
    """u or v spinors of both spins for the momentum p, as columns."""
    E, v = p[0], p[1:]
    ps = sum(v[i] * SIG[i] for i in range(3))
    f = np.sqrt(E + mass)
    out = []
    for chi in (np.array([1, 0]), np.array([0, 1])):
        low = ps @ chi / (E + mass)
        out.append(f * np.concatenate([low, chi] if anti else [chi, low]))
    return out


def points(M, n=5):
    """Dalitz plot of a decay into three massless particles: momenta and weights of ds12 ds23."""
    x, wx = gauss(n, 0., 1.)
    for a, wa in zip(x, wx):
        for b, wb in zip(x, wx):
            s12, s23 = a * M * M, b * (1 - a) * M * M
            s13 = M * M - s12 - s23
            E1, E2, E3 = (M * M - s23) / 2 / M, (M * M - s13) / 2 / M, (M * M - s12) / 2 / M
            c12 = 1 - s12 / (2 * E1 * E2)
            p1 = np.array([E1, 0, 0, E1])
            sn = np.sqrt(max(0, 1 - c12 * c12))
            p2 = np.array([E2, E2 * sn, 0, E2 * c12])
            p3 = np.array([M, 0, 0, 0]) - p1 - p2
            yield p1, p2, p3, wa * wb * (1 - a) * M**4


def fourlepton(M, l0, l1, l2, l3, ops):
    """Width of l0- -> l1- l2+ l3- from operators {name: coefficient} in the flavio basis."""
    terms = []
    for name, c in ops.items():
        if not c:
            continue
        kind, fl = name.split('_')
        a, b, d, e = re.findall('tau|mu|e', fl)
        t, h1, h2 = kind[1], kind[2], kind[3]
        # (bbar Gamma_h1 a)(ebar Gamma_h2 d)
        terms.append((t, c, b, h1, a, e, h2, d))
        o = {'L': 'R', 'R': 'L'} if t == 'S' else {'L': 'L', 'R': 'R'}
        terms.append((t, np.conj(c), a, o[h1], b, d, o[h2], e))
    if len(set(x[:1] + x[2:] for x in terms)) != len(terms):
        raise RuntimeError('hermitian operator')
    use = []
    for t, c, b, h1, a, e, h2, d in terms:
        for (o1, f1), s1 in ((((b, 1), (e, 3)), 1), (((b, 3), (e, 1)), -1)):
            for (i1, i2), s2 in ((((a, 0), (d, 2)), 1), (((a, 2), (d, 0)), -1)):
                fl = {0: l0, 1: l1, 2: l2, 3: l3}
                if fl[o1[1]] == o1[0] and fl[f1[1]] == f1[0] and fl[i1[1]] == i1[0] and fl[i2[1]] == i2[0]:
                    use.append((t, c * s1 * s2, o1[1], h1, i1[1], f1[1], h2, i2[1]))
    tot = 0
    for p1, p2, p3, wt in points(M):
        sp = {0: spinors(np.array([M, 0, 0, 0.]), M), 1: spinors(p1, 0.), 2: spinors(p2, 0., True), 3: spinors(p3, 0.)}
        for s0 in sp[0]:
            for s1 in sp[1]:
                for s2 in sp[2]:
                    for s3 in sp[3]:
                        x = {0: s0, 1: s1, 2: s2, 3: s3}
                        amp = 0
                        for t, c, o1, h1, i1, o2, h2, i2 in use:
                            u1, u2 = x[o1].conj() @ G0, x[o2].conj() @ G0
                            if t == 'V':
                                j1 = [u1 @ g @ CH[h1] @ x[i1] for g in GAM]
                                j2 = [u2 @ g @ CH[h2] @ x[i2] for g in GAM]
                                amp += c * (j1[0] * j2[0] - j1[1] * j2[1] - j1[2] * j2[2] - j1[3] * j2[3])
                            else:
                                amp += c * (u1 @ CH[h1] @ x[i1]) * (u2 @ CH[h2] @ x[i2])
                        tot += wt * abs(amp)**2 / 2
    return tot / ((2 * np.pi)**3 * 32 * M**3) * (.5 if l1 == l3 else 1)


FOUR = [('tau', 'mu', 'mu', 'mu', 'mutau', 'BR(tau->mumumu)'), ('tau', 'e', 'e', 'e', 'taue', 'BR(tau->eee)'), ('tau', 'mu', 'e', 'e', 'mutau', 'BR(tau->muee)'),
        ('tau', 'e', 'mu', 'mu', 'taue', 'BR(tau->emumu)'), ('mu', 'e', 'e', 'e', 'mue', 'BR(mu->eee)'), ('tau', 'e', 'mu', 'e', 'etauemu', 'BR(tau->emue)'), ('tau', 'mu', 'e', 'mu', 'muemutau', 'BR(tau->muemu)')]
REAL = re.compile(r'C[VS](LL|LR|RR|RL)_((?:e|mu|tau){4})$')


def lfv(m, rng, n, seed):
    import flavio
    from flavio.physics.running import running as R
    secs = {s for x in FOUR for s in x[4:5]}
    obs = {re.sub(r'[+-]', '', o): o for o in flavio.Observable.instances}
    for k in range(n):
        dip = bool(rng.random() < .4)
        par, w, c = setup(rng, lambda co, s: s in secs and bool(REAL.match(co) or (dip and 'gamma' in co)), 2., amount=1., density=float(rng.choice([.2, 1.])))
        for l0, l1, l2, l3, sec, name in FOUR:
            if name not in flavio.Observable.instances:
                raise RuntimeError(name)
            s = cfg(l0 + 'decays')
            M = par['m_' + l0]
            wc = w.get_wc(sec, s, par, nf_out=4)
            want4 = {x[-1]: 0 for x in FOUR}
            ops = {a: b for a, b in wc.items() if REAL.match(a) and sorted(re.findall('tau|mu|e', a.split('_')[1])) == sorted((l0, l1, l2, l3))}
            if len(ops) < 4:
                raise RuntimeError('operators of ' + name)
            g = fourlepton(M, l0, l1, l2, l3, ops)
            if l2 == l3 and (wc['Cgamma_' + l0 + l1] or wc['Cgamma_' + l1 + l0]):
                # dipole contribution, hep-ph/0404211 (22), (23)
                e = np.sqrt(4 * np.pi * R.get_alpha_e(par, s, nf_out=4))
                A, Ap = e / M * wc['Cgamma_' + l0 + l1], e / M * np.conj(wc['Cgamma_' + l1 + l0])
                L = np.log(M**2 / par['m_' + l3]**2)

                def cw(a, b):     # coefficient of (l1bar a l0)(l3bar b l3)
                    pair, d = l0 + l1, l3 + l3
                    if a == b:
                        for nm in ('CV{}{}_{}{}'.format(a, b, pair, d), 'CV{}{}_{}{}'.format(a, b, d, pair), 'CV{}{}_{}{}{}{}'.format(a, b, l3, l1, l0, l3)):
                            if nm in wc:
                                return wc[nm]
                    return wc['CVLR_' + pair + d] if a == 'L' else wc['CVLR_' + d + pair]
                same = l1 == l3
                f = 2 if same else 1
                inter = 8 * (A * np.conj(f * cw('L', 'L') + cw('L', 'R')) + Ap * np.conj(cw('R', 'L') + f * cw('R', 'R'))).real
                g += M**5 / 1536 / np.pi**3 * (inter + 32 * (abs(A)**2 + abs(Ap)**2) * (L - (11 / 4 if same else 3)))
            tau = par['tau_' + l0]
            want = g * tau
            if l0 == 'mu':        # normalised to the rate of muon decay
                want = g * 192 * np.pi**3 / par['GF']**2 / M**5
            got = val(name, par, w)
            m.close(got, want, 'lfv:' + name, 'rate of the decay to three leptons', rtol=2e-6 if l0 != 'mu' else 1e-5, obs=name, coef={a: b for a, b in ops.items()}, ratio=got / want if want else None)
            m.event('lfv', (name, seed, k))
        for l0, l1, sec in (('tau', 'mu', 'mutau'), ('tau', 'e', 'taue'), ('mu', 'e', 'mue')):
            wc = w.get_wc(sec, cfg(l0 + 'decays'), par, nf_out=4)
            M, r = par['m_' + l0], (par['m_' + l1] / par['m_' + l0])**2
            want = par['tau_' + l0] * M**3 / 4 / np.pi * (1 - r)**3 * (abs(wc['Cgamma_' + l0 + l1])**2 + abs(wc['Cgamma_' + l1 + l0])**2)
            name = 'BR({}->{}gamma)'.format(l0, l1)
            m.close(val(name, par, w), want, 'lfv:gamma', 'rate of the radiative lepton decay', rtol=1e-9, obs=name)
            m.event('lfv', (name, seed, k))


def tau(m, rng, n, seed):
    import flavio
    from flavio.physics.running import running as R
    for k in range(n):
        par, w, c = setup(rng, lambda co, s: s in ('nunutaue', 'nunumutau', 'nunumue'), 2., amount=1.)
        big = float(rng.choice([1e-3, .1, 1.])) * par['GF']
        c = {a: b / max(map(abs, c.values())) * big for a, b in c.items()}
        w = flavio.WilsonCoefficients()
        w.set_initial(c, 2.)
        s = cfg('taudecays')
        r = rgf(par, w)
        for lep, sec in (('e', 'nunutaue'), ('mu', 'nunumutau')):
            wc = w.get_wc(sec, s, par, eft='WET-4')
            M, x = par['m_tau'], (par['m_' + lep] / par['m_tau'])**2
            tot = 0
            for n1 in LEP:          # neutrino
                for n2 in LEP:      # antineutrino: (n1bar n2)(lepbar tau)
                    a, b = 'nu{}nu{}tau{}'.format(n2, n1, lep), 'nu{}nu{}{}tau'.format(n1, n2, lep)
                    if 'CVLL_' + a in wc:
                        L, Rr = wc['CVLL_' + a], wc['CVLR_' + a]
                    else:
                        L, Rr = np.conj(wc['CVLL_' + b]), np.conj(wc['CVLR_' + b])
                    if (n1, n2) == ('tau', lep):
                        L = L - 4 * par['GF'] * r / np.sqrt(2)
                    tot += mich(x, L, Rr)
            em = 1 + R.get_alpha_e(par, s, nf_out=4) / 2 / np.pi * (25 / 4 - np.pi**2)
            want = par['tau_tau'] * M**5 / 1536 / np.pi**3 * tot * em
            name = 'BR(tau->{}nunu)'.format(lep)
            got = val(name, par, w)
            m.close(got, want, 'taulnunu:' + lep, 'rate of the leptonic tau decay', rtol=1e-6, obs=name, coef=c, ratio=got / want)
            m.event('taudec', (name, seed, k))
        # tau -> P l, tau -> V l
        pat = re.compile(r'C[VS](LL|LR|RR|RL)_(tau(mu|e)(uu|dd|ss)|(uu|dd|ss)tau(mu|e))$|C(9|10|S|P)p?_sdtau(e|mu)$')
        par, w, c = setup(rng, lambda co, s: bool(pat.match(co)), 2., amount=1., density=float(rng.choice([.2, 1.])))
        M = par['m_tau']

        def two(mX, ml, av):
            p = np.sqrt(lam(M**2, mX**2, ml**2)) / 2 / M
            return par['tau_tau'] * p / (8 * np.pi * M**2) * av

        for lep, sec in (('e', 'taue'), ('mu', 'mutau')):
            wc = w.get_wc(sec, s, par, nf_out=4)
            ml = par['m_' + lep]
            tl = 'tau' + lep

            def V(h, hq, q):      # (lbar h tau)(qbar hq q)
                return wc['CV{}{}_{}{}'.format(h, h, tl, q)] if h == hq else wc['CVLR_' + (tl + q if h == 'L' else q + tl)]

            def S(h, hq, q):      # (lbar P_h tau)(qbar P_hq q)
                if h == 'R':
                    return wc['CSRR_' + tl + q] if hq == 'R' else wc['CSRL_' + tl + q]
                cc = q + 'tau' + lep
                ops = {'L': 'CSRR_' + lep + 'tau' + q, 'R': 'CSRL_' + lep + 'tau' + q}
                return np.conj(wc[ops[hq]]) if ops[hq] in wc else np.conj(wc[('CSRR_' if hq == 'L' else 'CSRL_') + cc])
            # pi0: <pi|ubar g g5 u|0> = -i f/sqrt2 p, <pi|ubar g5 u|0> = -i f/sqrt2 m^2/(mu+md)
            f, mP = par['f_pi0'], par['m_pi0']
            v = {h: sum(sg * (V(h, 'R', q) - V(h, 'L', q)) / 2 for q, sg in (('uu', 1), ('dd', -1))) * f / np.sqrt(2) for h in 'LR'}
            sc = {h: sum(sg * (S(h, 'R', q) - S(h, 'L', q)) / 2 for q, sg in (('uu', 1), ('dd', -1))) * f / np.sqrt(2) * mP**2 / (par['m_u'] + par['m_d']) for h in 'LR'}
            gR = sc['R'] + M * v['L'] - ml * v['R']
            gL = sc['L'] + M * v['R'] - ml * v['L']
            av = ((abs(gL)**2 + abs(gR)**2) * (M**2 + ml**2 - mP**2) + 4 * M * ml * (gL * np.conj(gR)).real) / 2
            name = 'BR(tau->pi{})'.format(lep)
            got = val(name, par, w)
            m.close(got, two(mP, ml, av), 'taupl:pi' + lep, 'rate of tau to pion and lepton', rtol=1e-6, obs=name, coef=c)
            m.event('taudec', (name, seed, k))
            # K0
            lab = 'sdtau' + lep
            wk = w.get_wc(lab, s, par, nf_out=4)
            d = {x: wk['C' + x + '_' + lab] - wk['C' + x + 'p_' + lab] for x in ('9', '10', 'S', 'P')}
            N = flavio.physics.ckm.xi('t', 'ds')(par) * 4 * par['GF'] / np.sqrt(2) * R.get_alpha(par, 4.8)['alpha_e'] / 4 / np.pi
            mK, ms, md = par['m_K0'], qmass(par, 's', s), qmass(par, 'd', s)
            F = par['f_K0'] * abs(N) / 2
            # lbar (a + b g5) tau
            a = F * (-d['9'] * (M - ml) + d['S'] * ms * mK**2 / (ms + md))
            b = F * (d['10'] * (M + ml) + d['P'] * ms * mK**2 / (ms + md))
            gL, gR = a - b, a + b
            av = ((abs(gL)**2 + abs(gR)**2) * (M**2 + ml**2 - mK**2) + 4 * M * ml * (gL * np.conj(gR)).real) / 2
            name = 'BR(tau->K{})'.format(lep)
            got = val(name, par, w)
            m.close(got, two(mK, ml, av), 'taupl:K' + lep, 'rate of tau to kaon and lepton', rtol=1e-6, obs=name, coef=c, ratio=got / two(mK, ml, av) if av else None)
            m.event('taudec', (name, seed, k))
        par, w, c = setup(rng, lambda co, s: bool(pat.match(co)) and co.startswith('CV'), 2., amount=1., density=float(rng.choice([.2, 1.])))
        for lep, sec in (('e', 'taue'), ('mu', 'mutau')):
            wc = w.get_wc(sec, s, par, nf_out=4)
            ml, tl = par['m_' + lep], 'tau' + lep
            M = par['m_tau']
            for X, comb in (('rho0', (('uu', 1 / np.sqrt(2)), ('dd', -1 / np.sqrt(2)))), ('phi', (('ss', 1),))):
                mX, fX = par['m_' + X], par['f_' + X]
                g = {h: mX * fX / 2 * sum(x * (V(h, 'L', q) + V(h, 'R', q)) for q, x in comb) for h in 'LR'}
                p = np.sqrt(lam(M**2, mX**2, ml**2)) / 2 / M
                pt, pl, pv = np.array([M, 0, 0, 0]), np.array([np.hypot(ml, p), 0, 0, p]), np.array([np.hypot(mX, p), 0, 0, -p])
                pols = [np.array([0, 1, 0, 0]), np.array([0, 0, 1, 0]), np.array([-p, 0, 0, pv[0]]) / mX]
                av = 0
                for e in pols:
                    vert = sum(MET[i, i] * e[i] * GAM[i] for i in range(4)) @ (g['L'] * CH['L'] + g['R'] * CH['R'])
                    for u in spinors(pt, M):
                        for ub in spinors(pl, ml):
                            av += abs(ub.conj() @ G0 @ vert @ u)**2 / 2
                name = 'BR(tau->{}{})'.format(X.replace('rho0', 'rho'), lep)
                got = val(name, par, w)
                m.close(got, two(mX, ml, av), 'tauvl:' + X + lep, 'rate of tau to vector meson and lepton', rtol=1e-6, obs=name, coef=c, ratio=got / two(mX, ml, av) if av else None)
                m.event('taudec', (name, seed, k))


def onium(m, rng, n, seed):
    import flavio
    from flavio.physics.running import running as R
    pat = re.compile(r'CV(LL|LR|RR)_(mue|taue|taumu)(cc|bb)$|CV(LL|LR|RR)_(cc|bb)(mue|taue|taumu)$')
    for k in range(n):
        par, w, c = setup(rng, lambda co, s: bool(pat.match(co)), 4.8, amount=1.)
        for X, q, Q in (('J/psi', 'c', 2 / 3), ('psi(2S)', 'c', 2 / 3), ('Upsilon(1S)', 'b', -1 / 3), ('Upsilon(2S)', 'b', -1 / 3), ('Upsilon(3S)', 'b', -1 / 3)):
            s = cfg(X)
            M, f = par['m_' + X], par['f_' + X]
            for l1, l2 in (('e', 'e'), ('mu', 'mu'), ('tau', 'tau'), ('e', 'mu'), ('mu', 'e'), ('tau', 'e'), ('mu', 'tau')):
                m1, m2 = par['m_' + l1], par['m_' + l2]
                if m1 + m2 > M:
                    continue
                if l1 == l2:
                    g = [-f / M * Q * 4 * np.pi * R.get_alpha_e(par, s)] * 2
                else:
                    sec, pair = {'emu': ('mue', 'mue'), 'etau': ('taue', 'taue'), 'mutau': ('mutau', 'taumu')}[''.join(sorted((l1, l2)))]
                    wc = w.get_wc(sec, s, par)
                    d = 2 * q
                    g = [f * M / 2 * (wc['CVLL_' + pair + d] + wc['CVLR_' + pair + d]), f * M / 2 * (wc['CVRR_' + pair + d] + wc['CVLR_' + d + pair])]
                p = np.sqrt(lam(M**2, m1**2, m2**2)) / 2 / M
                a, b = np.array([np.hypot(m1, p), 0, 0, p]), np.array([np.hypot(m2, p), 0, 0, -p])
                av = 0
                for e in (np.array([0, 1, 0, 0]), np.array([0, 0, 1, 0]), np.array([0, 0, 0, 1])):
                    vert = sum(MET[i, i] * e[i] * GAM[i] for i in range(4)) @ (g[0] * CH['L'] + g[1] * CH['R'])
                    for u in spinors(a, m1):
                        for v in spinors(b, m2, True):
                            av += abs(u.conj() @ G0 @ vert @ v)**2 / 3
                want = par['tau_' + X] * p / (8 * np.pi * M**2) * av
                name = 'BR({}->{}{})'.format(X, l1, l2)
                m.close(val(name, par, w), want, 'onium:' + ('lfc' if l1 == l2 else 'lfv'), 'leptonic rate of the vector quarkonium', rtol=1e-6, obs=name, coef=c)
                m.event('neutral', (name, seed, k))
                if l1 != l2 and l1 + l2 in ('emu', 'mutau'):
                    name = 'BR({}->{}{},{}{})'.format(X, l1, l2, l2, l1)
                    m.close(val(name, par, w), 2 * want, 'onium:lfv', 'leptonic rate of the vector quarkonium, both charges', rtol=1e-6, obs=name, coef=c)
        # neutrino trident: vector and axial couplings of the muon current
        par, w, c = setup(rng, lambda co, s: s == 'ffnunu', 2., amount=1.)
        w.set_initial({a: b * (3 / max(map(abs, c.values()))) for a, b in c.items()} if c else {}, 2.)
        wc = w.get_wc(sector='ffnunu', scale=1, par=par, eft='WET-3', basis='flavio')
        gl, gr = 1 / 2 + par['s2w'], par['s2w']      # left- and right-handed muon couplings, W and Z
        tot = 0
        for nm, sm in (('nuenumumumu', 0), ('numunumumumu', 1), ('numunutaumumu', 0)):
            l, r = sm * gl - wc['CVLL_' + nm], sm * gr - wc['CVLR_' + nm]
            tot += abs(l)**2 + abs(r)**2
        # V = L + R, A = L - R: |V|^2 + |A|^2 = 2 (|L|^2 + |R|^2); standard model 2 gl = 1 + 2 s2w
        m.close(val('R_trident', par, w), tot / (gl * gl + gr * gr), 'trident', 'neutrino trident production', rtol=1e-9, coef=c)
        m.event('neutral', ('trident', seed, k))


def jobs(tier, seed):
    q = tier == 'quick'
    out = []
    out += split_jobs('leptonic', leptonic, 12 if q else 200, 2 if q else 6, seed=seed)
    out += split_jobs('semi_p', semi_p, 12 if q else 200, 2 if q else 8, seed=seed)
    out += split_jobs('semi_v', semi_v, 12 if q else 200, 2 if q else 8, seed=seed)
    out += split_jobs('neutral', neutral, 6 if q else 100, 2 if q else 4, seed=seed)
    out += split_jobs('angles', angles, 60 if q else 2000, 2 if q else 4, seed=seed)
    out += split_jobs('bgamma', bgamma, 6 if q else 100, 1 if q else 3, seed=seed)
    out += split_jobs('untagged', untagged, 40 if q else 1000, 1 if q else 3, seed=seed)
    out += split_jobs('bpll', bpll, 60 if q else 2000, 1 if q else 3, seed=seed)
    out += split_jobs('kaonll', kaonll, 12 if q else 300, 1 if q else 3, seed=seed)
    out += split_jobs('bxll', bxll, 60 if q else 3000, 1 if q else 3, seed=seed)
    out += split_jobs('bvgamma', bvgamma, 12 if q else 300, 1 if q else 3, seed=seed)
    out += split_jobs('dinu', dinu, 12 if q else 200, 2 if q else 4, seed=seed)
    out += split_jobs('lfv', lfv, 12 if q else 160, 4 if q else 8, seed=seed)
    out += split_jobs('onium', onium, 6 if q else 100, 1 if q else 3, seed=seed)
    out += split_jobs('tau', tau, 12 if q else 160, 2 if q else 6, seed=seed)
    return out
