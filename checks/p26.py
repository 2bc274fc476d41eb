"""P26: form factors and switching of implementations."""
import math
import os
import sys
import warnings
import numpy as np
from lib.util import split_jobs
from checks.p24 import forked

RULE = ('every registered form factor implementation with random parameters and momentum transfers: exact relations, independent formulas of the series expansions, finiteness, continuity; '
        'random histories of switching implementations against forked processes with only that implementation; distinct by (implementation, parameters, q2) or history')
ASSUMPTIONS = ['an implementation for which no process is defined (KeyError naming the process) is not usable and not judged; the set of those is fixed']
MIN = {'relation': 300, 'reference': 500, 'continuity': 500, 'switch': 150, 'unrelated': 100, 'spectator': 60, 'registry': 30}
UNUSABLE = {'B->rho SSE', 'B->omega SSE', 'B->D* SSE', 'B->K BCL4-LMVD', 'B->D BCL4-LMVD', 'B->gamma KM'}
MES = {'B->K': ('m_B0', 'm_K0'), 'B->D': ('m_B+', 'm_D0'), 'B->pi': ('m_B+', 'm_pi0'), 'D->K': ('m_D0', 'm_K+'), 'D->pi': ('m_D0', 'm_pi+'),
       'B->K*': ('m_B0', 'm_K*0'), 'B->rho': ('m_B0', 'm_rho0'), 'B->omega': ('m_B0', 'm_omega'), 'Bs->phi': ('m_Bs', 'm_phi'), 'Bs->K*': ('m_Bs', 'm_K*0'), 'B->D*': ('m_B0', 'm_D*0'),
       'Lambdab->Lambda': ('m_Lambdab', 'm_Lambda'), 'Lambdab->Lambda(1520)': ('m_Lambdab', 'm_Lambda(1520)'), 'K->pi': ('m_KL', 'm_pi+')}
VFF = ('A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23')
SSEMASS = {'b->d': {'A0': 5.279, 'V': 5.324, 'T1': 5.324, 'A1': 5.716, 'A12': 5.716, 'T2': 5.716, 'T23': 5.716},
           'b->s': {'A0': 5.366, 'V': 5.414, 'T1': 5.414, 'A1': 5.829, 'A12': 5.829, 'T2': 5.829, 'T23': 5.829}}
LMASS = {'fV0': 5.416, 'fVperp': 5.416, 'fT0': 5.416, 'fTperp': 5.416, 'fVt': 5.711, 'fA0': 5.750, 'fAperp': 5.750, 'fT50': 5.750, 'fT5perp': 5.750, 'fAt': 5.367}


def implementations():
    from flavio.classes import Implementation
    return {k: i for k, i in Implementation.instances.items() if i.quantity.endswith(' form factor') and k not in UNUSABLE}


def draw(rng, inst, q2):
    """Random parameters, also those without a default value."""
    import flavio
    from lib.obs import random_par
    np.random.seed(int(rng.integers(2**31)))
    par = {k: float(v) for k, v in random_par().items()}
    proc = inst.quantity[:-len(' form factor')]
    for t in range(300):
        try:
            inst.get(dict(par), None, q2=q2)
            break
        except KeyError as e:
            k = e.args[0]
            if not isinstance(k, str) or not k.startswith(proc + ' '):
                raise
            if k.endswith(('m0', 'm+', 'm1-', 'm1+')):
                par[k] = float(rng.uniform(5.4, 7.))
            else:
                par[k] = float(rng.normal())
    # also far away from the defaults
    if rng.random() < .5:
        for k in list(par):
            if k.startswith(proc + ' ') and any(x in k for x in (' BCL a', ' BSZ a', ' SSE ', ' IW ', ' CLN ', ' BCL b')):
                par[k] *= float(rng.normal()) * 2
    return par


def zz(mi, mf, q2, t0=None):
    tp, tm = (mi + mf)**2, (mi - mf)**2
    if t0 is None:
        t0 = (mi + mf) * (math.sqrt(mi) - math.sqrt(mf))**2
    x, y = math.sqrt(tp - q2), math.sqrt(tp - t0)
    return (x - y) / (x + y)


def reference(name, proc, par, q2):
    """Independent formula of a series expansion, None if not covered."""
    scheme = name[len(proc) + 1:]
    if proc in ('B->K', 'B->D', 'B->pi', 'D->K', 'D->pi'):
        mi, mf = par[MES[proc][0]], par[MES[proc][1]]
        if scheme.startswith('BSZ'):
            n = int(scheme[3])
            mp, m0 = par[proc + ' BCL m+'], par[proc + ' BCL m0']
            dz = zz(mi, mf, q2) - zz(mi, mf, 0)
            out = {}
            for f, mr in (('f+', mp), ('f0', m0), ('fT', mp)):
                a = [par['%s BSZ a%d_%s' % (proc, j, 'f+' if (f == 'f0' and j == 0) else f)] for j in range(n)]
                pole = 1 if not mr else 1 / (1 - q2 / mr**2)
                out[f] = pole * sum(x * dz**j for j, x in enumerate(a))
            return out
        if scheme.startswith('BCL') and 'LMVD' not in scheme:
            n = int(scheme[3])
            t0 = None
            if 't0=0' in scheme:
                t0 = 0
            if 't0max' in scheme:
                t0 = (mi - mf)**2
            mp, m0 = par[proc + ' BCL m+'], par[proc + ' BCL m0']
            Z, Z0 = zz(mi, mf, q2, t0), zz(mi, mf, 0, t0)
            P = lambda mr: 1 if not mr else 1 / (1 - q2 / mr**2)

            def fp(f, z):
                return sum(par['%s BCL a%d_%s' % (proc, j, f)] * (z**j - (-1)**(j - n) * j / n * z**n) for j in range(n))
            chl = par.get(proc + ' BCL chL', 1) if 'IW' not in scheme and proc[0] != 'D' else 1
            out = {'f+': chl * P(mp) * fp('f+', Z)}
            out['fT'] = out['f+'] * (1 + par[proc + ' IW a_T']) if 'IW' in scheme else chl * P(mp) * fp('fT', Z)
            if t0 == 0:
                c = [par[proc + ' BCL a0_f+']] + [par['%s BCL a%d_f0' % (proc, j)] for j in range(1, n)]
                out['f0'] = chl * P(m0) * sum(x * Z**j for j, x in enumerate(c))
            else:
                c = [par['%s BCL a%d_f0' % (proc, j)] for j in range(n - 1)]
                last = (fp('f+', Z0) - sum(x * Z0**j for j, x in enumerate(c))) / Z0**(n - 1)
                out['f0'] = chl * P(m0) * sum(x * Z**j for j, x in enumerate(c + [last]))
            return out
        if 'LMVD' in scheme:
            mi, mf = par[proc + ' BCL LMVD m_B+'], par[proc + ' BCL LMVD m_pi0']
            Z, Z0 = zz(mi, mf, q2), zz(mi, mf, 0)
            n = 4
            out = {}
            for f, mr in (('+', par[proc + ' BCL LMVD m+']), ('T', par[proc + ' BCL LMVD m+'])):
                s = 1 + sum(par['%s BCL b%s^%d' % (proc, '_' + f, k)] * (Z**k - Z0**k - (-1)**(k - n) * k / n * (Z**n - Z0**n)) for k in range(1, n))
                out['f' + f] = par['%s BCL f_%s(0)' % (proc, f)] * s / (1 - q2 / mr**2)
            s = 1 + sum(par['%s BCL b_0^%d' % (proc, k)] * (Z**k - Z0**k) for k in range(1, n + 1))
            mr = par[proc + ' BCL LMVD m0']
            out['f0'] = par[proc + ' BCL f_+(0)'] * s / ((1 - q2 / mr**2) if mr else 1)
            return out
    if proc in ('B->K*', 'B->rho', 'B->omega', 'Bs->phi', 'Bs->K*', 'B->D*'):
        mi, mf = par[MES[proc][0]], par[MES[proc][1]]
        if scheme.startswith('BSZ'):
            n = int(scheme[3])
            dz = zz(mi, mf, q2) - zz(mi, mf, 0)
            m = {'A0': 'm0', 'V': 'm1-', 'T1': 'm1-'}
            out = {}
            for f in VFF:
                a = [par.get('%s BSZ a%d_%s' % (proc, j, f)) for j in range(n)]
                if f == 'A12':
                    a[0] = par[proc + ' BSZ a0_A0'] * (mi**2 - mf**2) / (8 * mi * mf)
                if f == 'T2':
                    a[0] = par[proc + ' BSZ a0_T1']
                out[f] = sum(x * dz**j for j, x in enumerate(a)) / (1 - q2 / par['%s BCL %s' % (proc, m.get(f, 'm1+'))]**2)
            return out
        if scheme == 'SSE':
            z = zz(mi, mf, q2, 12.)
            mr = SSEMASS['b->d' if proc == 'Bs->K*' else 'b->s']
            return {f: (par['%s SSE %s_a0' % (proc, f.lower())] + par['%s SSE %s_a1' % (proc, f.lower())] * z) / (1 - q2 / mr[f]**2) for f in VFF}
    if proc == 'Lambdab->Lambda':
        n = int(scheme[3])
        ml, mx = par['m_Lambdab'], par['m_Lambda']
        z = zz(par['m_B+'], par['m_K+'], q2, (ml - mx)**2)
        out = {}
        for f, mr in LMASS.items():
            a = [par['%s SSE a%d_%s' % (proc, j, f)] if not (j == 0 and f in ('fAperp', 'fT5perp')) else par['%s SSE a0_%s' % (proc, {'fAperp': 'fA0', 'fT5perp': 'fT50'}[f])] for j in range(n)]
            out[f] = sum(x * z**j for j, x in enumerate(a)) / (1 - q2 / mr**2)
        return out
    if scheme == 'LatticeQCD':
        ml, mx = par['m_Lambdab'], par['m_Lambda(1520)']
        w = (ml**2 + mx**2 - q2) / (2 * ml * mx) - 1
        sp, sm = (ml + mx)**2 - q2, (ml - mx)**2 - q2
        F = lambda e: par['%s %s F' % (proc, e)] + par['%s %s A' % (proc, e)] * w
        return {'fVt': mx / sp * F('f0'), 'fV0': mx / sm * F('fplus'), 'fVperp': mx / sm * F('fperp'), 'fVg': F('fperpPrim'),
                'fAt': mx / sm * F('g0'), 'fA0': mx / sp * F('gplus'), 'fAperp': mx / sp * F('gperp'), 'fAg': -F('gperpPrim'), 'fTt': 0.,
                'fT0': mx / sm * F('hplus'), 'fTperp': mx / sm * F('hperp'), 'fTg': (ml + mx) * F('hperpPrim'), 'fT5t': 0.,
                'fT50': mx / sp * F('hTplus'), 'fT5perp': mx / sp * F('hTperp'), 'fT5g': -(ml - mx) * F('hTperpPrim')}
    if proc == 'K->pi':
        mK, mpi = par['m_KL'], par['m_pi+']
        x = q2 / (mK - mpi)**2
        G = x * par['K->pi D'] + (1 - x) * par['K->pi d'] + x * (1 - x) * par['K->pi k']
        H = par['K->pi H1'] * x + par['K->pi H2'] * x**2
        return {'f+': par['K->pi f+(0)'] * math.exp(q2 / mpi**2 * (par['K->pi Lambda_+'] + H)),
                'f0': par['K->pi f+(0)'] * math.exp(q2 / (mK**2 - mpi**2) * (par['K->pi ln(C)'] - G)),
                'fT': par['K->pi fT(0)'] / (1 - par['K->pi sT'] * q2)}
    return None


def eq(m, a, b, scale, sig, msg, tol=1e-9, **w):
    return m.check(abs(a - b) <= tol * max(abs(a), abs(b), scale), sig, msg, observed=a, expected=b, **w)


def formfactors(m, rng, n, seed):
    import flavio
    warnings.simplefilter('ignore')
    imps = implementations()
    names = sorted(imps)
    missing = sorted(set(flavio.classes.Implementation.instances) & UNUSABLE)
    for k in range(n):
        name = names[(k + int(seed) * 7 + int(rng.integers(len(names)))) % len(names)] if k >= len(names) else names[k]
        inst = imps[name]
        proc = inst.quantity[:-len(' form factor')]
        mi, mf = MES[proc]
        try:
            par = draw(rng, inst, 16.2 if '1520' in proc else 0.)
        except Exception as e:
            m.violate('usable:' + name, 'no form factors: %s %s' % (type(e).__name__, str(e)[:200]), implementation=name)
            continue
        mi, mf = par[mi], par[mf]
        if name == 'B->D* CLN' or name == 'B->D CLN':
            mi, mf = par['m_B0'], par['m_D*+' if '*' in name else 'm_D+']
        qm = (mi - mf)**2
        lo = 16. if name.endswith('LatticeQCD') else 0.
        before = dict(par)

        def ff(q2):
            return m.call('formfactor:' + name, inst.get, par, None, q2=q2)
        f0 = ff(lo)
        w = dict(implementation=name)
        # values
        qs = [lo, float(rng.uniform(lo, qm)), float(rng.uniform(lo, qm)), lo + (qm - lo) * 10 ** float(rng.uniform(-6, -1)), qm * (1 - 1e-6)]
        typ = {x: max(abs(float(np.real(ff(q)[x]))) for q in qs[:-1]) for x in f0}
        for q2 in qs:
            f = ff(q2)
            for x, v in f.items():
                ok = isinstance(v, (float, int, np.floating, np.integer)) and math.isfinite(v)
                if not m.check(ok, 'value:' + name, 'not a finite real number', formfactor=x, q2=q2, got=repr(v), **w):
                    break
            r = reference(name, proc, par, q2)
            if r is not None:
                m.check(set(r) == set(f), 'reference:' + name.replace(' ', '_'), 'other form factors', got=sorted(f), expected=sorted(r), **w)
                for x in r:
                    if x in f:
                        eq(m, float(f[x]), r[x], 1e-3 * typ[x], 'reference:' + name.replace(' ', '_'), 'differs from the parametrisation', formfactor=x, q2=q2, **w)
                m.event('reference', (name, q2))
            # continuity
            if 1e-9 < q2 < qm * (1 - 1e-5) or q2 == lo:
                h = 1e-7 * qm
                g = ff(q2 + h)
                for x in f:
                    sc = abs(f[x]) + typ[x]
                    if '1520' in proc:
                        sc *= 1 / max(1 - q2 / qm, 1e-6)
                    m.check(abs(g[x] - f[x]) <= 2e-4 * sc + 1e-12, 'continuous:%s:%s' % (name.replace(' ', '_'), x), 'not continuous', formfactor=x, q2=q2, observed=g[x], expected=f[x], **w)
                m.event('continuity', (name, q2))
        m.check(par == before, 'modified', 'the parameters were modified', **w)
        # relations at zero momentum transfer
        if 'f+' in f0:
            eq(m, f0['f+'], f0['f0'], typ['f+'], 'f+(0)=f0(0):' + name, 'kinematic relation at zero momentum transfer', par={p: par[p] for p in par if p.startswith(proc + ' ')} if proc[0] == 'B' else None, **w)
            m.event('relation', (name, 'f+(0)'))
        if 'T1' in f0 and 'SSE' not in name:
            if 'IW' not in name:
                eq(m, f0['T1'], f0['T2'], typ['T1'], 'T1(0)=T2(0):' + name, 'kinematic relation at zero momentum transfer', **w)
            eq(m, f0['A12'], f0['A0'] * (mi**2 - mf**2) / (8 * mi * mf), typ['A12'], 'A12(0):' + name, 'kinematic relation at zero momentum transfer', **w)
            m.event('relation', (name, 'T1(0)'))
        if name.startswith('B->D* CLN'):
            q = qm * (1 - 1e-13)
            f = ff(q)
            eq(m, f['A12'], (mi + mf) * (mi**2 - mf**2 - q) / (16 * mi * mf**2) * f['A1'], typ['A12'], 'A12(max):' + name, 'kinematic relation at maximal momentum transfer', tol=1e-5, **w)
            if 'IW' not in name:
                eq(m, f['T23'], (mi + mf) * (mi**2 + 3 * mf**2 - q) / (8 * mi * mf**2) * f['T2'], typ['T23'], 'T23(max):' + name, 'kinematic relation at maximal momentum transfer', tol=1e-5, **w)
            else:
                eq(m, f['A1'], par['B->D* CLN h_A1(1)'] * 2 * math.sqrt(mi * mf) / (mi + mf), typ['A1'], 'A1(max):' + name, 'normalisation at zero recoil', tol=1e-5, **w)
                R = f['V'] / f['A1'] * ((mi + mf)**2 - q) / (mi + mf)**2
                eq(m, R, par['B->D* CLN R_1(1)'], 1., 'R1:' + name, 'ratio at zero recoil', tol=1e-5, **w)
            m.event('relation', (name, 'max'))
        if proc == 'Lambdab->Lambda':
            f = ff(qm)
            for x, y in (('fAperp', 'fA0'), ('fT5perp', 'fT50')):
                eq(m, f[x], f[y], typ[x], 'max:' + name, 'kinematic relation at maximal momentum transfer', formfactor=x, **w)
            m.event('relation', (name, 'max'))
        if name.endswith('1520) MCN'):
            p1 = dict(par)
            for p in p1:
                if p.startswith(proc) and p.endswith('uncertainty'):
                    p1[p] = 1.
            f = inst.get(p1, None, q2=0.)
            eq(m, f['fVt'], f['fV0'], typ['fV0'], 'fVt(0):' + name, 'kinematic relation at zero momentum transfer', **w)
            eq(m, f['fAt'], f['fA0'], typ['fA0'], 'fAt(0):' + name, 'kinematic relation at zero momentum transfer', **w)
            m.event('relation', (name, '0'))
        if name == 'B->D CLN':
            # the vector form factor at zero recoil does not depend on the slopes
            p1 = dict(par)
            p1['CLN rho2_xi'] += 1.
            f = ff(qm)
            g = inst.get(p1, None, q2=qm)
            eq(m, g['f+'], f['f+'], typ['f+'], 'zero recoil:' + name, 'value at zero recoil depends on the slope', tol=1e-5, **w)


PROBES = {'B->K* form factor': [('dBR/dq2(B0->K*mumu)', 3.), ('P5p(B0->K*mumu)', 17.), ('BR(B0->K*nunu)',), ('dBR/dq2(B+->K*enu)',)],
          'B->rho form factor': [('dBR/dq2(B0->rhomunu)', 5.), ('BR(B+->rhonunu)',)],
          'B->omega form factor': [('dBR/dq2(B+->omegamunu)', 5.)],
          'Bs->K* form factor': [('dBR/dq2(Bs->K*munu)', 5.)],
          'Bs->phi form factor': [('dBR/dq2(Bs->phimumu)', 3.), ('BR(Bs->phigamma)',)],
          'B->D* form factor': [('dBR/dq2(B0->D*taunu)', 6.), ('dBR/dq2(B+->D*munu)', 2.)],
          'B->K form factor': [('dBR/dq2(B+->Kmumu)', 3.), ('FH(B+->Kmumu)', 3.), ('dBR/dq2(B0->Kmumu)', 17.)],
          'B->D form factor': [('dBR/dq2(B+->Dtaunu)', 6.), ('dBR/dq2(B0->Dmunu)', 2.)],
          'B->pi form factor': [('dBR/dq2(B0->pitaunu)', 6.), ('dBR/dq2(B+->pimumu)', 3.)],
          'D->K form factor': [('dBR/dq2(D+->Kmunu)', .5)], 'D->pi form factor': [('dBR/dq2(D+->pimunu)', .5)],
          'Lambdab->Lambda form factor': [('dBR/dq2(Lambdab->Lambdamumu)', 16.)],
          'Lambdab->Lambda(1520) form factor': [('dBR/dq2(Lambdab->Lambda(1520)mumu)', 16.2)],
          'B0->K*0ll spectator scattering': [('P5p(B0->K*mumu)', 3.)], 'B+->K*+ll spectator scattering': [('P5p(B+->K*mumu)', 3.)], 'Bs->phill spectator scattering': [('FL(Bs->phimumu)', 3.)],
          'B0->K0ll subleading effects at low q2': [('dBR/dq2(B0->Kmumu)', 3.)], 'B+->K+ll subleading effects at low q2': [('dBR/dq2(B+->Kmumu)', 3.)],
          'CKM matrix': [('BR(B+->taunu)',), ('BR(K+->pinunu)',), ('DeltaM_d',)]}
OTHER = [('BR(Bs->mumu)',), ('BR(tau->mugamma)',), ('m_W',), ('BR(B->Xsgamma)',), ('dBR/dq2(K+->pimunu)', .05)]


def probe(p):
    import flavio
    try:
        v = np.ravel(flavio.sm_prediction(p[0], *p[1:]))[0]
        return ['value', float(np.real(v)), float(np.imag(v))]
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:100]]


def switching(m, rng, n, seed, part, parts):
    """Histories of switching against fresh processes."""
    import flavio
    from flavio.classes import Implementation, AuxiliaryQuantity
    warnings.simplefilter('ignore')
    conf = flavio.config['implementation']
    quant = [q for i, q in enumerate(sorted(PROBES)) if i % parts == part and q in conf]
    probes = {q: [p for p in PROBES[q] if p[0] in flavio.Observable.instances] for q in quant}
    quant = [q for q in quant if probes[q]]
    ref = {}
    for q in quant:
        for name in [k for k, i in Implementation.instances.items() if i.quantity == q]:
            def run(q=q, name=name):
                flavio.config['implementation'][q] = name
                return [probe(p) for p in probes[q]]
            ref[q, name] = forked(run)
    other = forked(lambda: [probe(p) for p in OTHER])
    default = dict(conf)
    sel = dict(conf)
    hist = []
    par = flavio.default_parameters.get_central_all()
    for k in range(n):
        q = quant[int(rng.integers(len(quant)))]
        names = [nm for (qq, nm) in ref if qq == q]
        r = rng.random()
        if r < .12:
            old = conf[q]
            bad = str(rng.choice(['no such implementation', '', old + ' ']))
            conf[q] = bad
            try:
                m.raises(KeyError, 'unknown', AuxiliaryQuantity[q].get_implementation)
                res = probe(probes[q][0])
                m.check(res[0] == 'error', 'unknown', 'prediction with an unknown implementation', quantity=q, implementation=bad, got=res) if q != 'CKM matrix' or True else None
            finally:
                conf[q] = old
            hist.append((q, bad))
        elif r < .17:
            old = conf.pop(q)
            m.raises(KeyError, 'unspecified', AuxiliaryQuantity[q].get_implementation)
            conf[q] = old
        else:
            name = names[int(rng.integers(len(names)))] if r < .75 else default[q]
            conf[q] = sel[q] = name
            hist.append((q, name))
        for qq in {q, quant[int(rng.integers(len(quant)))]}:
            j = int(rng.integers(len(probes[qq])))
            got, exp = probe(probes[qq][j]), ref[qq, sel[qq]][j]
            ok = got[0] == exp[0] and (got[1:] == exp[1:] or (got[0] == 'value' and all(abs(a - b) <= 1e-13 * abs(b) or a != a for a, b in zip(got[1:], exp[1:]))))
            # quantities can depend on each other: compare only when the others are at their default
            if all(sel[z] == default[z] for z in quant if z != qq):
                m.check(ok, 'switch', 'prediction differs from that of a process in which only this implementation was selected', quantity=qq, implementation=sel[qq], probe=probes[qq][j], observed=got, expected=exp, history=hist[-8:])
                m.event('switch', (qq, sel[qq], j))
            inst = AuxiliaryQuantity[qq].get_implementation()
            m.check(inst is Implementation[sel[qq]], 'selected', 'another implementation is selected', quantity=qq)
        if rng.random() < .5:
            j = int(rng.integers(len(OTHER)))
            if sel.get('CKM matrix') == default.get('CKM matrix'):
                got = probe(OTHER[j])
                m.check(got == other[j], 'unrelated', 'unrelated prediction changed', probe=OTHER[j], observed=got, expected=other[j], history=hist[-8:])
                m.event('unrelated', (j, k))
        # mostly one non-default at a time
        if rng.random() < .7:
            conf[q] = sel[q] = default[q]
    for q in quant:
        conf[q] = sel[q] = default[q]
    for q in quant:
        for j, p in enumerate(probes[q]):
            got, exp = probe(p), ref[q, default[q]][j]
            m.check(got == exp or (got[0] == 'value' and abs(got[1] - exp[1]) <= 1e-13 * abs(exp[1])), 'restored', 'selecting the default again does not restore the prediction', quantity=q, probe=p, observed=got, expected=exp)
            m.event('switch', (q, 'restored', j))


def registry(m, rng, n, seed):
    import flavio
    from flavio.classes import Implementation, AuxiliaryQuantity
    warnings.simplefilter('ignore')
    conf = flavio.config['implementation']
    for q, name in conf.items():
        if q == 'K mixing unitarity':
            continue
        m.check(q in AuxiliaryQuantity.instances, 'registry', 'configured quantity does not exist', quantity=q)
        m.check(name in Implementation.instances and Implementation[name].quantity == q, 'registry', 'configured implementation is not one of the quantity', quantity=q, implementation=name)
        m.event('registry', q)
    for q in AuxiliaryQuantity.instances:
        ims = [k for k, i in Implementation.instances.items() if i.quantity == q]
        shown = Implementation.show_all().get(q, {})
        m.check(set(shown) == set(ims), 'show_all', 'not all implementations are shown', quantity=q, shown=sorted(shown), expected=sorted(ims))
        for k in ims:
            m.check(shown.get(k) == Implementation[k].description, 'show_all', 'description', quantity=q, implementation=k)
        m.event('registry', 'show ' + q)
    m.raises(ValueError, 'registry:unknown quantity', Implementation, 'verif26', 'no such quantity', lambda: 0)
    for k in list(Implementation.instances):
        if k.startswith('verif26'):
            Implementation.del_instance(k)
    # a user implementation
    par = flavio.default_parameters.get_central_all()
    for k in range(n):
        q = str(rng.choice(['B->K form factor', 'B->pi form factor', 'B->D form factor', 'D->K form factor']))
        old = conf[q]
        base = AuxiliaryQuantity[q].get_implementation()
        fac = float(rng.uniform(.5, 2))
        seen = []

        def fn(wc_obj, par_dict, q2):
            seen.append(q2)
            return {x: fac * v for x, v in base.function(wc_obj, par_dict, q2).items()}
        Implementation('verif26 user', q, fn)
        o = {'B->K form factor': 'dBR/dq2(B+->Knunu)', 'B->pi form factor': 'dBR/dq2(B0->pimunu)', 'B->D form factor': 'dBR/dq2(B+->Dmunu)', 'D->K form factor': 'dBR/dq2(D+->Kmunu)'}[q]
        q2 = float(rng.uniform(.2, 1.5))
        if o not in flavio.Observable.instances:
            o = 'dBR/dq2(B+->Dmunu)'
        a = flavio.sm_prediction(o, q2)
        try:
            conf[q] = 'verif26 user'
            b = flavio.sm_prediction(o, q2)
        finally:
            conf[q] = old
        c = flavio.sm_prediction(o, q2)
        m.check(abs(b - fac**2 * a) <= 1e-9 * abs(b) and q2 in seen, 'user', 'rate does not scale with the square of the form factors', observable=o, observed=b, expected=fac**2 * a)
        m.check(a == c, 'user', 'prediction is not restored', observable=o)
        Implementation.del_instance('verif26 user')
        m.event('registry', (q, fac))


def spectator(m, rng, n, seed):
    """Interpolated and direct spectator scattering agree."""
    import flavio
    from flavio.classes import Implementation
    warnings.simplefilter('ignore')
    par = flavio.default_parameters.get_central_all()
    wc = flavio.physics.eft._wc_sm
    for k in range(n):
        p = str(rng.choice(['B0->K*0ll', 'B+->K*+ll', 'Bs->phill', 'Bs->K*0ll']))
        q2 = float(rng.uniform(.3, 5.9))
        cp = bool(rng.random() < .5)
        a = m.call('spectator', Implementation[p + ' QCDF'].get, par, wc, q2=q2, cp_conjugate=cp)
        b = m.call('spectator', Implementation[p + ' QCDF interpolated'].get, par, wc, q2=q2, cp_conjugate=cp)
        m.check(set(b) <= set(a) and all(a[x] == 0 for x in set(a) - set(b)), 'spectator', 'other amplitudes', process=p)
        sc = max(abs(v) for v in a.values())
        for x in set(a) & set(b):
            m.check(abs(a[x] - b[x]) <= 0.3 * abs(a[x]) + .05 * sc, 'spectator:' + p + (':conjugate' if cp else ''), 'interpolation differs from the direct calculation', process=p, q2=q2, cp_conjugate=cp, amplitude=x, observed=b[x], expected=a[x])
        m.event('spectator', (p, q2))


def jobs(tier, seed):
    T = tier != 'quick'
    out = split_jobs('formfactors', formfactors, 6000 if T else 480, 4, seed=seed)
    out += [{'name': 'switching#%d' % i, 'fn': switching, 'args': dict(n=400 if T else 40, seed=seed, part=i, parts=6)} for i in range(6)]
    out += [{'name': 'registry', 'fn': registry, 'args': dict(n=100 if T else 20, seed=seed)}]
    out += split_jobs('spectator', spectator, 2000 if T else 120, 2, seed=seed)
    return out
