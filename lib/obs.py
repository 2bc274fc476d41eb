"""The registry of observables: parsing of names, physical ranges of arguments."""
import re
import collections

SKIP = re.compile(r'^R_13|pp->')      # need PDF tables that are downloaded
DEC = re.compile(r'^(?P<pre>.*?)\((?P<ini>[^()]*(?:\([^()]*\))?[^()]*?)->(?P<fin>[^()]*(?:\([^()]*\))?[^()]*)\)$')
HAD = ['Xs', 'Xd', 'Lambda(1520)', 'Lambda', 'K*0', 'K*', 'K', 'phi', 'D*', 'Ds', 'D', 'rho', 'omega', 'pi']
LEP = {'ee': ('e', 'e'), 'mumu': ('mu', 'mu'), 'tautau': ('tau', 'tau'), 'll': ('l', 'l'), 'enu': ('e', 'nu'), 'munu': ('mu', 'nu'), 'taunu': ('tau', 'nu'),
       'lnu': ('l', 'nu'), 'nunu': ('nu', 'nu'), 'eegamma': ('e', 'e'), 'mumugamma': ('mu', 'mu')}
MASS = {'D+': 'm_D+', 'D0': 'm_D0', 'B': 'm_B0', 'B0': 'm_B0', 'B+': 'm_B+', 'Bs': 'm_Bs', 'Lambdab': 'm_Lambdab', 'Lambda': 'm_Lambda', 'Lambda(1520)': 'm_Lambda(1520)',
        'K*': 'm_K*0', 'K*0': 'm_K*0', 'K': 'm_K0', 'phi': 'm_phi', 'D*': 'm_D*+', 'D': 'm_D+', 'rho': 'm_rho+', 'omega': 'm_omega', 'pi': 'm_pi+',
        'e': 'm_e', 'mu': 'm_mu', 'tau': 'm_tau'}

Info = collections.namedtuple('Info', 'name pre ini had lep args')


def info(name):
    import flavio
    o = flavio.Observable[name]
    mm = DEC.match(name)
    if not mm:
        return Info(name, None, None, None, None, o.arguments)
    fin = mm.group('fin')
    for h in HAD + ['']:
        if fin.startswith(h) and fin[len(h):] in LEP:
            return Info(name, mm.group('pre'), mm.group('ini'), h, fin[len(h):], o.arguments)
    return Info(name, mm.group('pre'), mm.group('ini'), None, None, o.arguments)


def usable():
    import flavio
    return [n for n in flavio.Observable.instances if not SKIP.search(n)]


_par = {}


def par():
    if not _par:
        import flavio
        _par.update(flavio.default_parameters.get_central_all())
    return _par


def q2range(i):
    """(lowest, highest) physical q2, from the masses (within per mille)."""
    p = par()
    pre = i.pre.strip('<>')
    l1, l2 = LEP[i.lep]
    heavy = l1
    if l1 == 'l':
        heavy = 'mu'
        if 'tau' in pre:
            heavy = 'tau'
    ml = {'nu': 0.}.get(heavy, None)
    if ml is None:
        ml = p[MASS[heavy]]
    lo = ml**2 if l2 == 'nu' and l1 != 'nu' else 4 * ml**2
    mh = p[MASS[i.had]] if i.had and i.had[0] != 'X' else 0.
    if i.had == 'K*' and i.ini == 'B+':
        mh = p['m_K*+']
    if i.ini in ('B+', 'D+') and i.had in ('D', 'D*', 'rho', 'pi', 'K'):
        mh = p[{'D': 'm_D0', 'D*': 'm_D*0', 'rho': 'm_rho0', 'pi': 'm_pi0', 'K': 'm_K0'}[i.had]]
        if i.ini == 'B+' and l1 not in ('l', 'e', 'mu', 'tau') or l2 != 'nu':
            mh = p[{'D': 'm_D0', 'D*': 'm_D*0', 'rho': 'm_rho+', 'pi': 'm_pi+', 'K': 'm_K+'}[i.had]]
    hi = (p[MASS[i.ini]] - mh)**2
    return lo, hi


EWW = [161.3, 172.1, 182.7, 188.6, 191.6, 195.5, 199.5, 201.6, 204.9, 206.6]
EWWD = [182.66, 189.09, 198.38, 205.92]


def draw_args(name, rng, i=None, narrow=False):
    """Random physical values for the arguments of an observable."""
    i = i or info(name)
    a = tuple(i.args) if i.args is not None else ()
    if a == ():
        return ()
    if a in (('q2',), ('q2min', 'q2max')):
        lo, hi = q2range(i)
        w = hi - lo
        lo, hi = lo + 0.01 * w, hi - 0.03 * w
        if i.lep in ('eegamma', 'mumugamma'):
            # only defined below the resonances and above the open-charm threshold
            if rng.random() < 0.5:      # bins avoid the light resonances, for which the library disclaims its integration
                lo, hi = (max(lo, 0.1), 8.0) if a == ('q2',) else (1.2, 8.0)
            else:
                lo, hi = 15.5, 0.9 * hi
        elif i.had in ('Xs', 'Xd'):
            if i.lep == 'tautau' or 'tau' in i.pre:
                lo, hi = max(lo, 15.), 20.
            elif rng.random() < 0.6:
                lo, hi = 1.05, 6.0
            else:
                lo, hi = 14.5, 20.
        elif i.lep in ('ee', 'mumu', 'll') and lo < 6:
            if rng.random() < 0.6:
                lo, hi = max(lo, 0.1), 6.0
            else:
                lo, hi = min(15.0, 0.9 * hi), hi
        if a == ('q2',):
            return (float(rng.uniform(lo, hi)),)
        if narrow:
            x = float(rng.uniform(lo, hi * .98))
            return (x, x + 0.01)
        x, y = sorted(rng.uniform(lo, hi, 2))
        if y - x < 0.05 * (hi - lo):
            x, y = lo + 0.2 * (hi - lo), lo + 0.7 * (hi - lo)
        return (float(x), float(y))
    if a in (('cl',), ('cV',)):
        return (float(rng.uniform(-.95, .95)),)
    if a in (('clmin', 'clmax'), ('cVmin', 'cVmax')):
        x, y = sorted(rng.uniform(-1, 1, 2))
        return (float(x), float(y) + 0.01 if y < .98 else float(y))
    if a == ('phi',):
        return (float(rng.uniform(0.1, 6.2)),)
    if a == ('phimin', 'phimax'):
        x, y = sorted(rng.uniform(0, 6.283, 2))
        return (float(x), float(y) + 0.001)
    if a == ('me_E',):
        return (float(rng.uniform(0.4, 0.9)),)
    if a == ('E',):
        return (EWW[int(rng.integers(len(EWW)))],)
    if a == ('E', 'thetamin', 'thetamax'):
        k = int(rng.integers(10))
        return (EWWD[int(rng.integers(len(EWWD)))], round(-1 + 0.2 * k, 1), round(-0.8 + 0.2 * k, 1))
    if a[0].startswith('CeFF'):
        return tuple(float(x) for x in rng.normal(size=4) * 1e-6)
    if a[0].startswith('CeGG'):
        return tuple(float(x) for x in rng.normal(size=2) * 1e-9)
    raise KeyError(name)


def predict(name, args, wc=None):
    import flavio
    if wc is None:
        return flavio.sm_prediction(name, *args)
    return flavio.np_prediction(name, wc, *args)


def random_par(size=None):
    """Random parameters (seed np.random first); positive quantities whose Gaussian tail was drawn negative keep their central value."""
    import flavio
    c = flavio.default_parameters.get_central_all()
    p = flavio.default_parameters.get_random_all()
    return {k: (c[k] if c[k] > 0 and v <= 0 and k.startswith(('tau_', 'm_', 'Gamma', 'f_')) else v) for k, v in p.items()}
