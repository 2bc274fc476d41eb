"""P14: predictions depend on new physics as amplitudes prescribe."""
import re
import numpy as np
from lib import obs as O
from lib import npwc, sectors
from lib.util import split_jobs

RULE = ('every rate along random lines through the space of complex Wilson coefficients (third difference, sign of the quadratic term and of the minimum); every observable of known quantum numbers with coefficients of all other sectors '
        'switched on on top of its own; every observable after rephasing the lepton fields of all coefficients, and after rephasing the quark fields of the CKM matrix and all coefficients; distinct by (observable, line or point)')
ASSUMPTIONS = ['neutral kaon and charm mixing are written in the phase convention of real V_us V_ud* and V_cs V_us*: phases of s and d, and of u and c, are rotated together; CKM-normalised coefficients are unchanged by the rotation',
               'the sectors of a process follow from its flavour quantum numbers (lib/sectors.py); electroweak and Higgs observables, which depend on all sectors through running, are judged by the rephasing only',
               'corrections of relative order alpha_s may make the quadratic form of inclusive and radiative rates slightly indefinite']
MIN = {'quadratic': 300, 'independent': 500, 'responds': 120, 'rephasing': 400, 'quarkphase': 600}

RATE = re.compile(r'(<?d?BR(_[LT])?(/dq2|/dcl|/dcV|/dphi|/dE)?>?(/<\w+>)?\(|<BR>|<dBR|dBR|CR\(|Gamma\()')
POINT = re.compile(r'dBR/dq2\(|BR\((Bs|B0|KL|KS)->(ee|mumu|tautau|emu|mue|etau|taue|mutau|taumu)|BR\((B\+|D\+|Ds|Bc|K\+|J/psi|psi.2S.|Upsilon.*)->(e|mu|tau)\w+\)|tau_Bc')
MIXING = {'sbsb', 'dbdb', 'sdsd', 'cucu', 'nunumue'}
INVERSE = ('tau_Bc',)


def rates():
    out = []
    for n in O.usable():
        if n in INVERSE:
            out.append(n)
        elif RATE.match(n) and n != 'BR(pi+->enu)' and ')/BR' not in n and '/BR(' not in n:
            s = sectors.involved(n)
            if s and s - MIXING:
                out.append(n)
    return out


class Line:
    """Coefficients w0 + t d in some sectors, as WilsonCoefficients at several t."""

    def __init__(self, rng, secs, scale, amount):
        import flavio
        a = npwc.draw(rng, amount=amount, select=lambda c, s: s in secs)
        b = npwc.draw(rng, amount=amount, select=lambda c, s: s in secs, density=float(rng.choice([.3, 1.])))
        self.w = {}
        for t in (-1, 0, 1, 2):
            w = flavio.WilsonCoefficients()
            w.set_initial({c: v + t * b.get(c, 0) for c, v in a.items()}, scale)
            self.w[t] = w


def quadratic(m, rng, names, n, seed):
    import flavio
    secs = {s for c, s, r in npwc.coefficients()} - MIXING
    for k in range(n):
        np.random.seed(int(rng.integers(2**31)))
        par = O.random_par()
        scale, amount = float(rng.choice([4.8, 4.8, 80.])), float(rng.choice([.2, 1., 5.]))
        ln = Line(rng, secs, scale, amount)
        for nm in names:
            a = O.draw_args(nm, rng)
            o = flavio.Observable[nm]
            f = {t: float(o.prediction_par(par, w, *a)) for t, w in ln.w.items()}
            if nm in INVERSE:
                f = {t: 1 / v for t, v in f.items()}
            big = max(abs(v) for v in f.values())
            if big == 0:
                continue
            fam = nm.split('(')[0]
            third = f[2] - 3 * f[1] + 3 * f[0] - f[-1]
            tol = 1e-8 if POINT.match(nm) else 5e-3     # adaptive integration
            m.check(abs(third) <= tol * big, 'quadratic:' + fam, 'rate is not a quadratic polynomial of the coefficients', obs=nm, args_=a, f=f, third=third / big, scale=scale, amount=amount)
            c2 = (f[1] - 2 * f[0] + f[-1]) / 2
            c1 = (f[1] - f[-1]) / 2
            soft = 1e-2 if re.search(r'X[sd]?(ee|mumu|tautau|ll|gamma)|gamma', nm) else 1e-9
            m.check(c2 >= -soft * big, 'negative:' + fam, 'new physics alone gives a negative rate', obs=nm, args_=a, f=f, c2=c2)
            if c2 > 1e-5 * big:       # otherwise the minimum is too far away to be extrapolated
                low = f[0] - c1 * c1 / 4 / c2
                m.check(low >= -soft * big, 'minimum:' + fam, 'rate becomes negative along a line', obs=nm, args_=a, f=f, low=low)
            m.event('quadratic', (nm, seed, k))
            m.sample((nm, a, f))


def independent(m, rng, names, n, seed):
    import flavio
    allsecs = sorted({s for c, s, r in npwc.coefficients()})
    par0 = O.par()
    sm = flavio.WilsonCoefficients()
    for k in range(n):
        scale = float(rng.choice([4.8, 80.]))
        amount = (2., .5)[k % 2]
        full = npwc.draw(rng, amount=amount)
        sec = {c: s for c, s, r in npwc.coefficients()}
        cache = {}

        def only(ss):
            if ss not in cache:
                w = flavio.WilsonCoefficients()
                w.set_initial({c: v for c, v in full.items() if sec[c] in ss}, scale)
                cache[ss] = w
            return cache[ss]
        wall = only(frozenset(allsecs))
        for nm in names:
            s = sectors.involved(nm)
            if s is None:
                continue
            a = O.draw_args(nm, rng)
            o = flavio.Observable[nm]
            x = float(o.prediction_par(par0, wall, *a))
            y = float(o.prediction_par(par0, only(frozenset(s)), *a))
            fam = nm.split('(')[0]
            m.close(x, y, 'independent:' + fam, 'depends on coefficients of sectors it does not involve', rtol=1e-10, atol=0 if abs(y) > 1e-200 else 1e-200, obs=nm, args_=a, involved=sorted(s), scale=scale)
            m.event('independent', (nm, seed, k))
            # responds to what it involves (mixing apart)
            if RATE.match(nm) and amount > 1:
                z = float(o.prediction_par(par0, sm, *a))
                if not (z == 0 and y == 0):
                    m.check(abs(y - z) > 1e-7 * abs(z) or nm.startswith(('BR(J/psi->', 'BR(psi(2S)->', 'BR(Upsilon', 'BR(KL', 'BR(KS')), 'responds:' + fam, 'does not react to the coefficients of its process', obs=nm, args_=a, value=y, sm=z)
                    m.event('responds', (nm, seed, k))


def charges():
    """lepton flavour numbers of every coefficient, from the definitions of the operators"""
    from wilson import wcxf
    tex = {c: (p or {}).get('tex', '') for d in wcxf.Basis['WET', 'flavio'].sectors.values() for c, p in d.items()}

    def phases(c):
        t = re.sub(r'\\gamma_?\^?\\mu|\\gamma_\\mu|\\sigma[_^]\{\\mu ?\\nu\}|F_\{\\mu ?\\nu\}|\\gamma_5|_\{?[LR]\}?', ' ', tex[c])
        t = re.sub(r'\\nu_\{?(e|\\mu|\\tau) ?[LR]?\}?', lambda g: ' N%s ' % g.group(1).strip('\\'), t)
        q = []
        for bil in re.findall(r'\(([^()]*\\bar[^()]*)\)|(\\bar e .*|\\bar \\(?:mu|tau) .*)', t):
            b = bil[0] or bil[1]
            tok = re.findall(r'\\bar\s*\{?\s*(N?\\?[a-z]+)|(N[a-z]+|\\mu|\\tau|(?<![A-Za-z\\])[eudscb](?![A-Za-z]))', b)
            bars = [x[0].replace('\\', '').strip() for x in tok if x[0]]
            flds = [x[1].replace('\\', '') for x in tok if x[1]]
            q.append((bars[:1], flds[-1:]))
        return q
    charge = {}
    for c, s, r in npwc.coefficients():
        v = {'e': 0, 'mu': 0, 'tau': 0}
        for b, f in phases(c):
            for x in b:
                x = x.lstrip('N')
                if x in v:
                    v[x] += 1
            for x in f:
                x = x.lstrip('N')
                if x in v:
                    v[x] -= 1
        charge[c] = v
    return charge


def rephasing(m, rng, names, n, seed):
    """unobservable lepton phases"""
    import flavio
    charge = charges()
    for k in range(n):
        ph = {l: float(rng.uniform(0, 2 * np.pi)) for l in ('e', 'mu', 'tau')}
        d = npwc.draw(rng, amount=float(rng.choice([.5, 1.])))
        scale = float(rng.choice([4.8, 80.]))
        w, r = flavio.WilsonCoefficients(), flavio.WilsonCoefficients()
        w.set_initial(d, scale)
        e = {}
        for c, v in d.items():
            t = sum(charge[c][l] * ph[l] for l in ph)
            e[c] = v * complex(np.cos(t), np.sin(t)) if abs(t) > 0 else v
        r.set_initial(e, scale)
        np.random.seed(int(rng.integers(2**31)))
        par = O.random_par()
        for nm in names:
            a = O.draw_args(nm, rng)
            o = flavio.Observable[nm]
            if o.arguments and any(x.startswith('Ce') for x in o.arguments):
                a = [0] * len(a)        # these carry lepton number as well
            try:
                x, y = float(o.prediction_par(par, w, *a)), float(o.prediction_par(par, r, *a))
            except ValueError as ex:
                if 'Running from WET to SMEFT' in str(ex):
                    continue
                raise
            m.close(x, y, 'rephasing:' + (nm.split('(')[0] if '(' in nm else nm), 'changes under a rephasing of the lepton fields', rtol=1e-7, atol=1e-11 if abs(x) < 1e-4 and re.match(r'<?[AS]', nm) else 0, obs=nm, args_=a, phases=ph, scale=scale)
            m.event('rephasing', (nm, seed, k))


TOP = re.compile(r'(_bsbs|_bdbd)$')


def quarkphase(m, rng, names, n, seed):
    """unobservable quark phases: those of the top, of the beauty, of both lighter down-type and of both lighter
    up-type quarks (neutral kaon and charm mixing are written in a convention where the latter are equal)"""
    import flavio
    from flavio.classes import Implementation
    from checks.p24 import forked
    from checks.p13 import spectator, zero_spectator
    zero_spectator()
    spectator('verif none')              # the tables of this contribution contain the CKM elements
    usual = flavio.config['implementation']['CKM matrix']
    matrix = Implementation[usual].function
    q = {}

    def V(wc_obj, par):
        x = matrix(wc_obj, par)
        cp = (x[0, 1] * x[1, 2] * x[0, 2].conj() * x[1, 1].conj()).imag < 0     # the conjugate phases for the conjugate process
        ph = np.array([[q['u'] + q['d'], q['u'] + q['d'], q['u'] + q['b']]] * 2 + [[q['t'] + q['d'], q['t'] + q['d'], q['t'] + q['b']]])
        return x * np.exp(-1j * ph if cp else 1j * ph)
    for k in range(n):
        q.update({x: float(rng.uniform(0, 2 * np.pi)) for x in 'utdb'})
        d = npwc.draw(rng, amount=float(rng.choice([.3, 1.]))) if rng.random() < .75 else {}
        scale = float(rng.choice([4.8, 80.]))
        np.random.seed(int(rng.integers(2**31)))
        par = O.random_par()
        args = {nm: O.draw_args(nm, rng) for nm in names}

        def values(rephased):
            w = flavio.WilsonCoefficients()
            f = np.exp(2j * (q['b'] - q['d']) * SIGN) if rephased else 1
            if d:
                w.set_initial({c: v * f if TOP.search(c) else v for c, v in d.items()}, scale)
            if rephased:
                Implementation(name='verif phased', quantity='CKM matrix', function=V)
                flavio.config['implementation']['CKM matrix'] = 'verif phased'
            out = {}
            for nm in names:
                try:
                    out[nm] = float(np.real(flavio.Observable[nm].prediction_par(par, w, *args[nm])))
                except ValueError as ex:
                    if 'Running from WET to SMEFT' not in str(ex):
                        raise
            return out
        a, b = forked(lambda: values(False)), forked(lambda: values(True))
        for nm in names:
            if nm in a:
                x, y = a[nm], b[nm]
                tiny = 1e-11 if nm in ZERO or abs(x) < 1e-4 and re.match(r'<?[ASPD]', nm) else 0
                m.close(x, y, 'quarkphase:' + (nm.split('(')[0] if '(' in nm else nm), 'changes under a rephasing of the quark fields', rtol=1e-7, atol=tiny, obs=nm, args_=args[nm], phases=q, wc=len(d), scale=scale)
                m.event('quarkphase', (nm, seed, k))


SIGN = 1
ZERO = ('phi12_D', 'x12Im_D')


def jobs(tier, seed):
    t = tier == 'thorough'
    r = np.random.default_rng(seed)

    def shuffled(x):
        return [x[int(i)] for i in r.permutation(len(x))]
    names = shuffled(O.usable())
    rt = shuffled(rates())
    out = []
    for i in range(8):
        out.append({'name': 'quadratic#%d' % i, 'fn': quadratic, 'args': {'names': rt[i::8], 'n': 12 if t else 1, 'seed': seed}})
    for i in range(8):
        out.append({'name': 'independent#%d' % i, 'fn': independent, 'args': {'names': names[i::8 if t else 13], 'n': 10 if t else 1, 'seed': seed}})
        out.append({'name': 'rephasing#%d' % i, 'fn': rephasing, 'args': {'names': names[i::8] if t else names[i + 5::13], 'n': 8 if t else 1, 'seed': seed}})
        out.append({'name': 'quarkphase#%d' % i, 'fn': quarkphase, 'args': {'names': names[i::8], 'n': 8 if t else 1, 'seed': seed}})
    mixing = [x for x in names if re.match(r'DeltaM|DeltaGamma|S_|a_fs|eps_K|ADelta|phi_|[xy]12|q/p|BR\(Bs->phigamma|(FL|dBR/dq2|S\d)\(Bs->', x)]
    for i in range(2):
        out.append({'name': 'mixingphase#%d' % i, 'fn': quarkphase, 'args': {'names': mixing[i::2], 'n': 60 if t else 10, 'seed': seed}})
    return out
