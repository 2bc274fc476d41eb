"""P18: specification of Wilson coefficients."""
import json
import os
import tempfile
import warnings
import numpy as np
from lib import obs as O, npwc
from lib.util import logu, split_jobs

RULE = ('random points set through every interface (dictionary, exchange object, YAML and JSON files, legacy setters) in several theories, bases and scales; read back, compared with each other, with fresh objects after random histories, '
        'and with linear combinations; distinct by (interface, point)')
ASSUMPTIONS = ['for SMEFT points the quark mixing matrix used in the translation to the WET is that of the predictions when the point is given as wilson.Wilson, and that of the options of the object when it is given as WilsonCoefficients; comparisons are made with equal matrices',
               'evolution and translation between bases are delegated to the package wilson; agreement between different routes is required to 1e-6 of the largest coefficient, agreement between equal routes exactly']
MIN = {'readback': 60, 'equivalent': 60, 'history': 60, 'invalid': 60, 'linear': 40, 'legacy': 100, 'nf_out': 60, 'zero': 60, 'image': 2, 'par history': 8}
OBS = ['BR(Bs->mumu)', 'BR(B+->taunu)', 'eps_K', 'DeltaM_s', 'S_psiK', 'BR(B->Xsgamma)', 'BR(B+->Knunu)', 'BR(tau->mugamma)', 'a_mu', 'BR(K+->pinunu)', 'BR(KL->mumu)', 'Rtaul(B->Dlnu)', 'x12_D', 'BR(tau->rhonu)', 'BR(Bs->mutau)', 'a_CPmixD' ]
Q2OBS = [('<Rmue>(B+->Kll)', (1.1, 6.)), ('<P5p>(B0->K*mumu)', (4., 6.)), ('dBR/dq2(B0->K*mumu)', (17.,))]


def obslist():
    import flavio
    return [(o, ()) for o in OBS if o in flavio.Observable.instances] + Q2OBS


def wilson_obj(d, scale, eft='WET', basis='flavio'):
    import wilson
    return wilson.Wilson(d, scale=scale, eft=eft, basis=basis)


def legacy_obj(d, scale, eft='WET', basis='flavio'):
    import flavio
    w = flavio.WilsonCoefficients()
    w.set_initial(d, scale, eft=eft, basis=basis)
    return w


def same_ckm(w, basis):
    """WilsonCoefficients with the mixing matrix of the predictions in translations from other bases."""
    import flavio
    par = flavio.default_parameters.get_central_all()
    w.set_option('parameters', {x: par[x] for x in ['Vus', 'Vcb', 'Vub', 'gamma']})
    return w


def wcxf_obj(d, scale, eft='WET', basis='flavio'):
    from wilson import wcxf
    return wcxf.WC(eft=eft, basis=basis, scale=scale, values=wcxf.WC.dict2values(d))


def some(rng, k, eft='WET', basis='flavio'):
    """k random coefficients"""
    if (eft, basis) == ('WET', 'flavio'):
        d = npwc.draw(rng)
        names = rng.permutation(sorted(d))[:k]
        return {str(n): d[str(n)] for n in names}
    cs = npwc.coefficients(eft, basis)
    d = {}
    for i in rng.permutation(len(cs))[:k]:
        c, sec, real = cs[i]
        v = 1e-9 * rng.normal()
        d[c] = float(v) if real else complex(v, 1e-9 * rng.normal())
    return d


def predictions(wc, which):
    import flavio
    return {(o,) + a: flavio.np_prediction(o, wc, *a) for o, a in which}


def pick(rng, n):
    l = obslist()
    return [l[i] for i in rng.permutation(len(l))[:n]]


def readback(m, rng, n, seed):
    """What was set is what is reported at the same scale, in the same basis; nothing else."""
    from wilson import wcxf
    pb = [('WET', 'flavio'), ('WET-4', 'flavio'), ('WET-3', 'flavio'), ('WET', 'JMS'), ('WET', 'Bern'), ('SMEFT', 'Warsaw'), ('SMEFT', 'Warsaw up'), ('WET', 'EOS')]
    pb = [p for p in pb if p in wcxf.Basis.instances]
    for k in range(n):
        eft, basis = pb[int(rng.integers(len(pb)))]
        try:
            cs = npwc.coefficients(eft, basis)
        except KeyError:
            continue
        d = some(rng, int(rng.integers(1, 8)), eft, basis) if (eft, basis) != ('WET', 'flavio') else some(rng, int(rng.integers(1, 30)))
        scale = {'WET': logu(rng, 3., 160.), 'WET-4': logu(rng, 1.4, 5.), 'WET-3': logu(rng, 1., 2.), 'SMEFT': logu(rng, 100, 1e4)}[eft]
        if eft == 'WET-3' and basis == 'flavio' or eft == 'WET-4':
            pass
        for kind, w in (('set_initial', legacy_obj(d, scale, eft, basis)),):
            allw = m.call('get_wc', w.get_wc, 'all', scale, {}, eft, basis)
            m.check(set(allw) == set(wcxf.Basis[eft, basis].all_wcs), 'keys:all', 'coefficients reported are not those of the basis', eft=eft, basis=basis)
            big = max(abs(v) for v in d.values())
            for c in allw:
                m.close(complex(allw[c]), complex(d.get(c, 0)), 'readback:%s' % eft, 'value read at the initial scale is not the value set', rtol=1e-9, atol=1e-14 * big, coefficient=c, basis=basis, scale=scale)
            m.check(all(c in allw for c in d), 'readback:missing', 'coefficient not reported', d=d)
            for sec in {s for c, s, r in cs if c in d} | {cs[int(rng.integers(len(cs)))][1]}:
                r = m.call('get_wc', w.get_wc, sec, scale, {}, eft, basis)
                exp = wcxf.Basis[eft, basis].sectors[sec]
                m.check(set(r) >= set(exp), 'keys:sector', 'not all coefficients of the sector are reported', sector=sec, eft=eft, basis=basis)
                for c in r:
                    m.close(complex(r[c]), complex(d.get(c, 0)), 'readback:sector', 'value read at the initial scale is not the value set', rtol=1e-9, atol=1e-14 * big, coefficient=c, basis=basis, sector=sec)
            ini = w.get_initial_wcxf
            m.check((ini.eft, ini.basis, ini.scale) == (eft, basis, scale), 'initial', 'initial values reported for another theory, basis or scale', got=(ini.eft, ini.basis, ini.scale), expected=(eft, basis, scale))
            for c, v in d.items():
                m.close(complex(ini.dict.get(c, 0)), complex(v), 'initial:values', 'initial value not the value set', rtol=1e-13, coefficient=c)
            m.event('readback', (seed, k, eft, basis))


def equivalent(m, rng, n, seed):
    """Equivalent specifications give the same coefficients and predictions."""
    import flavio
    import wilson
    from wilson import wcxf
    for k in range(n):
        eft, basis = [('WET', 'flavio'), ('WET', 'flavio'), ('WET', 'JMS'), ('WET', 'Bern')][int(rng.integers(4))]
        if eft == 'WET' and basis == 'flavio':
            d, scale = some(rng, int(rng.integers(1, 40))), float(rng.choice([4.2, 4.8, 91.1876, 160.]))
        else:
            # image of a point of the flavio basis
            w0 = wilson_obj(some(rng, int(rng.integers(1, 20))), 91.1876)
            w = w0.match_run(91.1876, 'WET', basis)
            d, scale = {c: complex(v) for c, v in w.dict.items()}, 91.1876
            d = {c: v for c, v in d.items() if v}
            if not d:
                continue
        before = dict(d)
        which = pick(rng, 4)
        wx = wcxf_obj(d, scale, eft, basis)
        specs = {'Wilson': lambda: wilson_obj(d, scale, eft, basis), 'set_initial': lambda: same_ckm(legacy_obj(d, scale, eft, basis), basis), 'from_wc': lambda: wilson.Wilson.from_wc(wx)}

        def sw():
            w = flavio.WilsonCoefficients()
            w.set_initial_wcxf(wx)
            return same_ckm(w, basis)
        specs['set_initial_wcxf'] = sw
        tmp = tempfile.mkdtemp()

        def dumped(fmt):
            fn = os.path.join(tmp, 'w.' + fmt)
            with open(fn, 'w') as f:
                wx.dump(f, fmt=fmt)
            with open(fn) as f:
                return wilson.Wilson.load_wc(f)
        specs['yaml'] = lambda: dumped('yaml')
        specs['json'] = lambda: dumped('json')
        specs['legacy dict'] = lambda: wilson_obj(dict(reversed(list(d.items()))), scale, eft, basis)
        ref = None
        mu = float(rng.choice([4.8, 4.2, 2., 91.1876, scale]))
        for s in specs:
            w = m.call('specify:' + s, specs[s])
            p = m.call('predict:' + s, predictions, w, which)
            fw = flavio.WilsonCoefficients.from_wilson(w, flavio.default_parameters.get_central_all())
            m.check(isinstance(fw, flavio.WilsonCoefficients), 'from_wilson', 'not converted')
            sec = [c[1] for c in npwc.coefficients(*(('WET',) if mu > 3 else ('WET-4',)))]
            sec = sec[int(rng.integers(len(sec)))] if ref is None else ref[2]
            g = m.call('get_wc:' + s, fw.get_wc, sec, mu, {}, *(('WET',) if mu > 3 else ('WET-4',)))
            if ref is None:
                ref = p, g, sec
                continue
            for o in p:
                m.close(p[o], ref[0][o], 'equivalent:' + s, 'prediction differs from that of the same point given as dictionary', rtol=1e-8, atol=1e-30, observable=o, d=d, scale=scale, basis=basis)
            for c in g:
                m.close(complex(g[c]), complex(ref[1][c]), 'equivalent:get_wc:' + s, 'coefficient differs from that of the same point given as dictionary', rtol=1e-8, atol=1e-30, coefficient=c)
        m.check(d == before, 'input', 'the dictionary given was modified', before=before, after=d)
        # later changes of the dictionary have no effect
        w = wilson_obj(d, scale, eft, basis) if rng.random() < .5 else same_ckm(legacy_obj(d, scale, eft, basis), basis)
        for c in d:
            d[c] = d[c] * 2 + 1e-3
        p = m.call('predict', predictions, w, which)
        for o in p:
            m.close(p[o], ref[0][o], 'aliasing', 'changing the dictionary after setting changed the prediction', rtol=1e-8, observable=o)
        if basis != 'flavio':
            # the same point translated to the flavio basis
            g = same_ckm(wilson_obj(before, scale, eft, basis), basis).match_run(scale, 'WET', 'flavio').dict
            p = m.call('predict', predictions, wilson_obj(g, scale), which)
            for o in p:
                m.close(p[o], ref[0][o], 'basis:' + basis, 'prediction in another basis differs', rtol=1e-6, atol=1e-30, observable=o)
        import shutil
        shutil.rmtree(tmp)
        m.event('equivalent', (seed, k))


def history(m, rng, n, seed):
    """Setting replaces everything set before; reading disturbs nothing."""
    import flavio
    for k in range(n):
        w = flavio.WilsonCoefficients()
        log = []
        cur = None
        for step in range(6):
            a = rng.random()
            if a < .45 or cur is None:
                if rng.random() < .15:
                    d = {}
                    if rng.random() < .5:
                        d = {'C9_bsmumu': 0.}
                else:
                    d = some(rng, int(rng.integers(1, 20)))
                    if rng.random() < .4 and cur:
                        # same names, other values
                        d = {c: complex(v * 1.5) for c, v in cur[0].items() if v}
                scale = float(rng.choice([4.2, 4.8, 91.1876]))
                cur = d, scale
                if rng.random() < .5:
                    w.set_initial(d, scale)
                else:
                    w.set_initial_wcxf(wcxf_obj(d, scale))
                log.append(('set', d, scale))
            sec = str(rng.choice(['sb', 'sbsb', 'cbtaunu', 'db', 'mue', 'sdsd', 'cucu', 'sbnunu', 'mutau', 'dF=0', 'sd']))
            mu = float(rng.choice([4.8, 4.2, 2., 91.1876, 4.8])) if sec in ('sdsd', 'cucu', 'dF=0', 'sd', 'mutau', 'mue') else 4.8
            eft = 'WET' if mu > 3 else 'WET-4'
            if a > .3:
                g = m.call('get_wc', w.get_wc, sec, mu, {}, eft)
                f = legacy_obj(cur[0], cur[1]).get_wc(sec, mu, {}, eft)
                for c in f:
                    m.close(complex(g.get(c, np.nan)), complex(f[c]), 'history:get_wc', 'depends on what was set or read before', rtol=1e-10, atol=1e-40, coefficient=c, log=log)
                for c in g:
                    g[c] = 77.     # the dictionary belongs to the caller
                log.append(('get', sec, mu))
            else:
                which = pick(rng, 2)
                p = m.call('predict', predictions, w, which)
                f = predictions(legacy_obj(cur[0], cur[1]), which)
                for o in p:
                    m.close(p[o], f[o], 'history:predict', 'depends on what was set or read before', rtol=1e-10, observable=o, log=log)
                log.append(('predict', which))
            m.event('history', (seed, k, step))


def invalid(m, rng, n, seed):
    """Unknown coefficients, theories, bases and sectors are rejected."""
    import flavio
    from wilson import wcxf
    import wilson
    names = [c[0] for c in npwc.coefficients()]
    smeft = [c[0] for c in npwc.coefficients('SMEFT', 'Warsaw')]
    for k in range(n):
        a = names[int(rng.integers(len(names)))]
        bad = [a.upper() + 'x', a[:-1] + '9', 'C9_bsnunununu', smeft[int(rng.integers(len(smeft)))] + '_0', '', ' ' + a, a + ' '][int(rng.integers(7))]
        if bad in names:
            continue
        d = {a: .1, bad: .2}
        val = float(rng.choice([.2, 0.]))
        d[bad] = val
        for kind in ('set_initial', 'Wilson', 'wcxf'):
            def f():
                if kind == 'set_initial':
                    return legacy_obj(d, 4.8)
                if kind == 'Wilson':
                    return wilson_obj(d, 4.8)
                w = flavio.WilsonCoefficients()
                w.set_initial_wcxf(wcxf_obj(d, 4.8))
                return w
            m.raises(Exception, 'invalid:coefficient:' + kind, f)
        # coefficient of another theory
        s = smeft[int(rng.integers(len(smeft)))]
        m.raises(Exception, 'invalid:theory', legacy_obj, {s: 1e-9}, 4.8)
        m.raises(Exception, 'invalid:theory', legacy_obj, {a: 1e-9}, 1000., 'SMEFT', 'Warsaw')
        m.raises(Exception, 'invalid:basis', legacy_obj, {a: 1e-9}, 4.8, 'WET', 'no such basis')
        m.raises(Exception, 'invalid:eft', legacy_obj, {a: 1e-9}, 4.8, 'no such eft', 'flavio')
        w = legacy_obj({a: 1e-3}, 4.8)
        m.raises(Exception, 'invalid:sector', w.get_wc, 'nosuchsector', 4.8, {})
        m.raises(Exception, 'invalid:sector', w.get_wc, 'sb', 4.8, {}, 'WET', 'no such basis')
        m.raises(ValueError, 'invalid:nf_out', w.get_wcxf, 'sb', 4.8, {}, nf_out=int(rng.choice([0, 1, 2, 6, 7])))
        m.raises(Exception, 'invalid:nf_out', w.get_wc, 'sb', 4.8, {}, nf_out=int(rng.choice([0, 1, 2, 6, 7])))
        m.raises(ValueError, 'invalid:unset', lambda: flavio.WilsonCoefficients().get_initial_wcxf)
        # a failed setting is not taken for a success: the object either keeps the old point or reports the error
        m.event('invalid', (seed, k))


def linear(m, rng, n, seed):
    """Contributions add linearly, at every scale."""
    for k in range(n):
        a, b = some(rng, int(rng.integers(1, 25))), some(rng, int(rng.integers(1, 25)))
        s, t = rng.normal(size=2)
        scale = float(rng.choice([91.1876, 160.]))
        c = {x: s * a.get(x, 0) + t * b.get(x, 0) for x in set(a) | set(b)}
        mu = float(rng.choice([4.8, 4.2, 2., 1.3, 91.1876, 30.]))
        eft = 'WET' if mu > 3 else 'WET-4'
        import wilson.wcxf as wcxf
        secs = sorted(wcxf.Basis[eft, 'flavio'].sectors)
        for sec in [secs[i] for i in rng.permutation(len(secs))[:4]] + (['sb'] if mu > 3 else []):
            x, y, z = (legacy_obj(d, scale).get_wc(sec, mu, {}, eft) for d in (a, b, c))
            for q in z:
                v = abs(s * x.get(q, 0)) + abs(t * y.get(q, 0))
                m.close(complex(z[q]), complex(s * x.get(q, 0) + t * y.get(q, 0)), 'linear', 'evolution is not linear', rtol=1e-9, atol=1e-9 * v + 1e-40, coefficient=q, mu=mu, first=a, second=b)
        m.event('linear', (seed, k))


def legacy(m, rng, seed):
    """Sector names of earlier versions denote sectors containing the coefficients they did."""
    from flavio.physics.eft import sectors_flavio2wcxf as S
    from wilson import wcxf
    d = npwc.draw(rng)
    w = legacy_obj(d, 4.8)
    B = wcxf.Basis['WET', 'flavio']
    for old, new in S.items():
        m.check(new in B.sectors, 'legacy:exists', 'no such sector', old=old, new=new)
        x = m.call('legacy:get_wc', w.get_wc, old, 4.8, {})
        y = w.get_wc(new, 4.8, {})
        m.check(x.keys() == y.keys() and all(x[c] == y[c] for c in y), 'legacy:same', 'legacy sector gives other coefficients', old=old, new=new)
        # the coefficients whose names end with the legacy sector are part of it
        own = [c for c in B.all_wcs if c.endswith('_' + old)]
        m.check(bool(own) and all(c in x for c in own), 'legacy:coefficients', 'the coefficients of the sector are not in it', old=old, own=own, got=sorted(x))
        for c in own:
            m.close(complex(x[c]), complex(d.get(c, 0)), 'legacy:value', 'wrong value', rtol=1e-9, atol=1e-25, coefficient=c)
        m.event('legacy', old)


def nf_out(m, rng, n, seed):
    for k in range(n):
        w = legacy_obj(some(rng, 25), 91.1876)
        nf, eft, mu = [(5, 'WET', 4.8), (4, 'WET-4', 2.), (3, 'WET-3', 2.), (4, 'WET-4', 1.3), (3, 'WET-3', 1.)][int(rng.integers(5))]
        sec = str(rng.choice(['mue', 'sd', 'sdsd', 'usmunu', 'dF=0', 'sdnunu']))
        x = m.call('nf_out', w.get_wc, sec, mu, {}, nf_out=nf)
        y = m.call('nf_out', w.get_wc, sec, mu, {}, eft=eft)
        for c in y:
            m.close(complex(x.get(c, np.nan)), complex(y[c]), 'nf_out', 'not the same as the theory with that many flavours', rtol=1e-10, atol=1e-40, nf=nf, coefficient=c)
        z = m.call('nf_out', w.get_wcxf, sec, mu, {}, nf_out=nf)
        m.check(z.eft == eft, 'nf_out:eft', 'another theory', nf=nf, eft=z.eft)
        m.event('nf_out', (seed, k))


def zero(m, rng, n, seed):
    """Nothing set, or zero everywhere, is the Standard Model, exactly."""
    import flavio
    import wilson
    usable = O.usable()
    for k in range(n):
        name = usable[int(rng.integers(len(usable)))]
        try:
            args = O.draw_args(name, rng)
        except KeyError:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sm = flavio.sm_prediction(name, *args)
            some_ = some(rng, 3)
            kinds = {'unset': flavio.WilsonCoefficients(), 'empty': legacy_obj({}, 4.8), 'zero': legacy_obj({c: 0 for c in some_}, float(rng.choice([4.8, 91.1876]))), 'Wilson zero': wilson_obj({c: 0. for c in some_}, 91.1876),
                     'SMEFT zero': legacy_obj({'lq1_2223': 0.}, 1000., 'SMEFT', 'Warsaw'), 'SMEFT Wilson zero': wilson_obj({'lq3_2223': 0., 'phiG': 0}, 1000., 'SMEFT', 'Warsaw')}
            for kind, w in kinds.items():
                try:
                    v = flavio.np_prediction(name, w, *args)
                except ValueError as e:
                    if 'Running from WET to SMEFT' in str(e):
                        continue        # the low-energy theory has no Higgs boson, Z or W
                    raise
                m.close(v, sm, 'zero:' + kind, 'vanishing coefficients do not give the Standard Model', rtol=1e-12, atol=1e-300, observable=name, args=args)
        m.event('zero', (seed, k, name))


def image(m, rng, n, seed):
    """A SMEFT point and its image in the low-energy theory are the same point."""
    import flavio
    for k in range(n):
        d = some_smeft(rng)
        par = flavio.default_parameters.get_central_all()
        w = wilson_obj(d, 1000., 'SMEFT', 'Warsaw')
        fw = flavio.WilsonCoefficients.from_wilson(w, par)
        low = fw.match_run(91.1876, 'WET', 'flavio')
        lw = wilson_obj({c: complex(v) for c, v in low.dict.items()}, 91.1876)
        lo, = [legacy_obj(d, 1000., 'SMEFT', 'Warsaw')]
        lo.set_option('parameters', {x: par[x] for x in ['Vus', 'Vcb', 'Vub', 'gamma']})
        which = [o for o in obslist() if o[0] not in ()]
        p = m.call('image', predictions, w, which)
        q = m.call('image', predictions, lw, which)
        r = m.call('image', predictions, lo, which)
        sm = {(o,) + a: flavio.sm_prediction(o, *a) for o, a in which}
        for o in p:
            size = abs(p[o] - sm[o]) + abs(sm[o])
            m.close(p[o], q[o], 'image', 'prediction at the SMEFT point and at its low-energy image differ', rtol=1e-5, atol=1e-6 * size, observable=o, d=d)
            m.close(p[o], r[o], 'image:legacy', 'prediction for wilson.Wilson and WilsonCoefficients with equal mixing matrices differ', rtol=1e-6, atol=1e-30, observable=o, d=d)
        m.event('image', (seed, k))


def some_smeft(rng):
    d = {}
    cs = [c for c in npwc.coefficients('SMEFT', 'Warsaw') if c[1] == 'dB=dL=0' or c[1].startswith('dB=de=dmu=dtau=0')]
    for i in rng.permutation(len(cs))[:12]:
        d[cs[i][0]] = float(1e-9 * rng.normal())
    for c in ('lq1_2223', 'lq3_3323', 'phiq3_33'):
        d[c] = float(1e-9 * rng.normal())
    return d


def mixing_matrix(m, rng, seed):
    """The same SMEFT point given as wilson.Wilson and as WilsonCoefficients."""
    import flavio
    d = {'lq1_2223': 1e-9}
    a = flavio.np_prediction('BR(Bs->mumu)', wilson_obj(d, 1000., 'SMEFT', 'Warsaw'))
    b = flavio.np_prediction('BR(Bs->mumu)', legacy_obj(d, 1000., 'SMEFT', 'Warsaw'))
    m.close(a, b, 'legacy_SMEFT:BR(Bs->mumu):lq1_2223', 'prediction differs between wilson.Wilson and WilsonCoefficients', rtol=1e-6, d=d)
    m.event('mixing matrix', seed)


def par_history(m, rng, n, seed):
    """One object used with changing parameters and predictions, in the SMEFT."""
    import flavio
    par0 = flavio.default_parameters.get_central_all()
    d = some_smeft(rng)
    w = wilson_obj(d, 1000., 'SMEFT', 'Warsaw')
    lst = []
    for i in range(2):
        p = dict(par0)
        if i:
            p['Vcb'] *= 1 + .1 * rng.uniform(.5, 1)
            p['Vub'] *= 1.3
            p['gamma'] *= 1.2
        lst.append(p)
    which = [o for o in obslist() if o[0] in ('BR(Bs->mumu)', 'eps_K', 'DeltaM_s', 'BR(B+->Knunu)', 'BR(K+->pinunu)', 'BR(KL->mumu)')]

    def pred(w, p):
        return {(o,) + a: flavio.Observable[o].prediction_par(p, w, *a) for o, a in which}
    fresh = [pred(wilson_obj(d, 1000., 'SMEFT', 'Warsaw'), p) for p in lst]
    m.check(any(abs(fresh[0][o] - fresh[1][o]) > 1e-3 * abs(fresh[0][o]) for o in fresh[0]), 'control', 'parameters do not matter')
    for step in range(n):
        i = int(rng.integers(2))
        x = m.call('par history', pred, w, lst[i])
        for o in x:
            m.close(x[o], fresh[i][o], 'par history', 'prediction depends on the parameters used before with the same object', rtol=1e-9, atol=1e-40, observable=o, d=d)
        m.event('par history', (seed, step, i))


def jobs(tier, seed):
    f = 1 if tier == 'quick' else 12
    j = (split_jobs('image', image, 2 * f, 2, seed=seed) + split_jobs('par_history', par_history, 8 * f, 1, seed=seed) + split_jobs('equivalent', equivalent, 80 * f, 4, seed=seed) + split_jobs('zero', zero, 120 * f, 4, seed=seed)
         + split_jobs('readback', readback, 90 * f, 2, seed=seed) + split_jobs('invalid', invalid, 80 * f, 2, seed=seed) + split_jobs('linear', linear, 50 * f, 2, seed=seed) + split_jobs('history', history, 20 * f, 2, seed=seed)
         + split_jobs('nf_out', nf_out, 80 * f, 2, seed=seed))
    return j + [{'name': 'mixing_matrix', 'fn': mixing_matrix, 'args': {'seed': seed}}, {'name': 'legacy', 'fn': legacy, 'args': {'seed': seed}}]
