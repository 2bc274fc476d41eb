"""P22: averages of measurements."""
import math
import warnings
import numpy as np
from scipy import stats
from lib.util import split_jobs, random_corr
from checks.p19 import Fam

RULE = ('random sets of synthetic measurements of several families, one- and many-dimensional, in random orders and selections, and all combinable sets of shipped measurements; the combination against the pointwise product of the densities; distinct by (observable, set of measurements)')
ASSUMPTIONS = ['members of correlated measurements enter with their marginal distribution, as documented', 'combinations including a distribution that is not Gaussian are numerical: 2e-3 of the peak density, where the parts overlap within 4 standard deviations']
MIN = {'gaussian': 80, 'numerical': 60, 'shipped': 120, 'errors': 40, 'warning': 20}
N = [0]


def vlog(f, pos, x):
    """log-density of a member of a family, for arrays"""
    x = np.asarray(x, float)
    with np.errstate(all='ignore'):
        if f.kind == 'mvn':
            return stats.norm(f.mean[pos], math.sqrt(f.cov[pos, pos])).logpdf(x)
        c, s, t = f.p
        if f.kind == 'normal':
            return stats.norm(c, s).logpdf(x)
        if f.kind == 'asym':
            return math.log(2 / (s + t)) - .5 * math.log(2 * math.pi) - (x - c)**2 / 2 / np.where(x > c, s, t)**2
        if f.kind == 'half':
            return np.where(x >= c, math.log(2) + stats.norm(c, s).logpdf(x), -np.inf)
        if f.kind == 'limit':
            return np.where(x >= 0, math.log(2) + stats.norm(0, 5 * s / stats.norm.ppf(.975)).logpdf(x), -np.inf)
        return stats.gamma(2.5 + t, c, s).logpdf(x)


def product(m, dist, parts, sig, rtol, **w):
    """dist is the normalised product of the functions in parts (log-densities)"""
    lo, hi = dist.support
    x = np.linspace(lo, hi, 1201)
    with np.errstate(all='ignore'):
        lp = sum(f(x) for f in parts)
    lp = np.where(np.isnan(lp), -np.inf, lp)
    p = np.exp(lp - lp.max())
    p /= np.trapz(p, x)
    q = np.exp(np.array([float(np.ravel(dist.logpdf(v))[0]) for v in x]))
    peak = p.max()
    # the neighbourhood of jumps is not compared
    jump = np.zeros(len(x), bool)
    j = np.where(abs(np.diff(p)) > .02 * peak)[0]
    for d in (-3, -2, -1, 0, 1, 2, 3, 4):
        jump[np.clip(j + d, 0, len(x) - 1)] = True
    ok = ~jump
    m.check(np.all(abs(p - q)[ok] <= rtol * peak), sig, 'not the product of the densities', worst=float((abs(p - q)[ok]).max() / peak) if ok.any() else None, **w)
    return x[np.argmax(p)], x, p


def lots(rng, n, common):
    """n measurements of the same quantity"""
    out = []
    for i in range(n):
        d = 1 if rng.random() < .6 else int(rng.integers(2, 4))
        f = Fam(rng, d, None if not common else 'normal')
        out.append((f, int(rng.integers(d))))
    return out


def world(rng, fam, unrelated=True):
    """registers measurements; returns names, observable, kwargs"""
    from flavio.classes import Observable, Measurement
    N[0] += 1
    t = 'verif avg%d' % N[0]
    arg = rng.random() < .5
    Observable(t, **({'arguments': ['q2min', 'q2max']} if arg else {}))
    Observable(t + ' other')
    obs = (t, 1., 6.) if arg else t
    kw = {'q2min': 1, 'q2max': 6.} if arg else {}
    names = []
    for i, (f, pos) in enumerate(fam):
        nm = '%s m%d' % (t, i)
        M = Measurement(nm)
        oo = [(t, float(10 + j), 20.) if arg else '%s aux%d' % (t, j) for j in range(f.dim)]
        for o in oo:
            if isinstance(o, str):
                Observable(o)
        oo[pos] = obs
        if rng.random() < .3:
            M.add_constraint([t + ' other'], Fam(rng, 1).dist)
        M.add_constraint(oo, f.dist)
        names.append(nm)
    extra = []
    if unrelated:
        nm = t + ' unrelated'
        Measurement(nm).add_constraint([t + ' other'], Fam(rng, 1).dist)
        extra.append(nm)
        if arg:
            nm = t + ' other bin'
            Measurement(nm).add_constraint([(t, 1., 7.)], Fam(rng, 1).dist)
            extra.append(nm)
        nm = 'Pseudo-measurement ' + t
        Measurement(nm).add_constraint([obs], Fam(rng, 1).dist)
        extra.append(nm)
    return t, obs, kw, names, extra


def clean(t):
    from flavio.classes import Observable, Measurement
    for nm in [x for x in Measurement.instances if t in x]:
        Measurement.del_instance(nm)
    for nm in [x for x in Observable.instances if x.startswith(t)]:
        Observable.del_instance(nm)


def synthetic(m, rng, n, seed):
    import flavio
    for k in range(n):
        gauss = k % 2 == 0
        fam = lots(rng, int(rng.integers(1, 6)), gauss)
        t, obs, kw, names, extra = world(rng, fam)
        try:
            sel = list(range(len(fam)))
            inc = {}
            if rng.random() < .5:
                sel = [i for i in sel if rng.random() < .6] or [0]
                inc = {'include_measurements': [names[i] for i in rng.permutation(sel)] + ([extra[0]] if rng.random() < .5 else [])}
                if rng.random() < .3:
                    inc['include_measurements'] = set(inc['include_measurements'])
            multi = sum(fam[i][0].dim > 1 for i in sel)
            parts = [(lambda x, f=fam[i][0], p=fam[i][1]: vlog(f, p, x)) for i in sel]
            # is there a region where all of them have a non-negligible density?
            with warnings.catch_warnings(record=True) as wn:
                warnings.simplefilter('always')
                if not gauss and any(fam[i][0].kind not in ('normal', 'mvn') for i in sel) and len(sel) > 1:
                    x = np.linspace(-30, 30, 6001)
                    rel = [f(x) for f in parts]
                    best = np.min([r - r.max() for r in rel], axis=0).max()
                    if not best > -4:
                        continue
                d = m.call('combine_measurements', flavio.combine_measurements, t, **inc, **kw)
                if isinstance(obs, tuple):
                    d2 = flavio.combine_measurements(obs, **inc)
                    m.close(d2.central_value, d.central_value, 'tuple', 'observable given as tuple gives another average', rtol=1e-12)
            txt = [str(w.message) for w in wn if 'multivariate' in str(w.message)]
            m.check(bool(txt) == (multi > 1), 'warning', 'warning about several correlated measurements', expected=multi, got=txt[:1])
            m.event('warning', (seed, k))
            if all(fam[i][0].kind in ('normal', 'mvn') for i in sel):
                mu = np.array([fam[i][0].p[0] if fam[i][0].dim == 1 else fam[i][0].mean[fam[i][1]] for i in sel])
                s = np.array([fam[i][0].p[1] if fam[i][0].dim == 1 else math.sqrt(fam[i][0].cov[fam[i][1], fam[i][1]]) for i in sel])
                w = 1 / s**2
                c, e = (w * mu).sum() / w.sum(), 1 / math.sqrt(w.sum())
                m.close(float(d.central_value), c, 'gaussian', 'not the inverse-variance average', rtol=1e-9, atol=1e-10, mu=mu, s=s)
                m.close(float(d.error_left), e, 'gaussian:error', 'not the error of the inverse-variance average', rtol=1e-9, mu=mu, s=s)
                m.close(float(d.error_right), e, 'gaussian:error', 'not the error of the inverse-variance average', rtol=1e-9, mu=mu, s=s)
                for x in c + e * rng.normal(size=4):
                    m.close(float(d.logpdf(x)), stats.norm(c, e).logpdf(x), 'gaussian:logpdf', 'not the product of the densities', rtol=1e-8, atol=1e-8)
                m.event('gaussian', (seed, k))
            else:
                mode, x, p = product(m, d, parts, 'numerical', 1.2e-2, kinds=[fam[i][0].kind for i in sel], params=[fam[i][0].p if fam[i][0].dim == 1 else None for i in sel])
                m.close(float(d.central_value), mode, 'numerical:central', 'central value is not the maximum of the product', rtol=0, atol=.02 * (x[-1] - x[0]))
                m.event('numerical', (seed, k))
            # the order in which the measurements are known does not matter
            perm = [names[i] for i in rng.permutation(len(names))]
            inst = flavio.Measurement.instances
            saved = {nm: inst[nm] for nm in perm}
            for nm in perm:
                del inst[nm]
            for nm in perm:
                inst[nm] = saved[nm]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                e = flavio.combine_measurements(t, **inc, **kw)
            m.close(float(e.central_value), float(d.central_value), 'order', 'depends on the order of the measurements', rtol=1e-6, atol=1e-3 * abs(float(d.error_right)))
            m.close(float(e.error_right), float(d.error_right), 'order', 'depends on the order of the measurements', rtol=3e-3)
        finally:
            clean(t)


def errors(m, rng, n, seed):
    import flavio
    warnings.simplefilter('ignore')
    for k in range(n):
        fam = lots(rng, 2, True)
        t, obs, kw, names, extra = world(rng, fam)
        try:
            m.raises(ValueError, 'errors:none included', flavio.combine_measurements, t, include_measurements=[], **kw)
            m.raises(ValueError, 'errors:none included', flavio.combine_measurements, t, include_measurements=[extra[0]], **kw)
            m.raises(ValueError, 'errors:pseudo', flavio.combine_measurements, t, include_measurements=[extra[-1]], **kw)
            if kw:
                m.raises(ValueError, 'errors:bin', flavio.combine_measurements, t, q2min=1, q2max=6.5)
                m.raises(ValueError, 'errors:arguments', flavio.combine_measurements, t)
                m.raises(KeyError, 'errors:arguments', flavio.combine_measurements, t, q2min=1)
                m.close(float(flavio.combine_measurements(t, q2max=7, q2min=1).central_value), float(flavio.Measurement[t + ' other bin'].get_central_all()[(t, 1., 7.)]), 'bin', 'not the measurement in that bin', rtol=1e-9)
            before = {nm: list(flavio.Measurement[nm]._constraints) for nm in names}
            a = flavio.combine_measurements(t, **kw)
            b = flavio.combine_measurements(t, **kw)
            m.close(float(a.central_value), float(b.central_value), 'repeat', 'repeated combination differs', rtol=1e-14)
            m.check({nm: list(flavio.Measurement[nm]._constraints) for nm in names} == before, 'input', 'measurements were modified')
            m.event('errors', (seed, k))
        finally:
            clean(t)


def shipped(m, rng, seed, part, parts):
    import flavio
    warnings.simplefilter('ignore')
    table = {}
    for nm, x in flavio.Measurement.instances.items():
        for o in x.all_parameters:
            table.setdefault(o, []).append(nm)
    keys = sorted(table, key=str)
    keys = [o for i, o in enumerate(keys) if i % parts == part]
    for o in [keys[i] for i in rng.permutation(len(keys))]:
        names = [nm for nm in table[o] if not nm.startswith('Pseudo-measurement')]
        if not names:
            continue
        if len(names) == 1 and rng.random() < .8:
            continue
        cons = []
        for nm in names:
            pos, c = flavio.Measurement[nm]._parameters[o]
            cons.append((pos, c, nm))
        kinds = [type(c).__name__ for _, c, _ in cons]
        name, args = (o, ()) if isinstance(o, str) else (o[0], o[1:])
        kw = dict(zip(flavio.Observable[name].arguments or (), args))
        d = m.call('shipped', flavio.combine_measurements, name, **kw)
        if all(x in ('NormalDistribution', 'MultivariateNormalDistribution') for x in kinds):
            mu = np.array([c.central_value if kd[0] == 'N' else c.central_value[pos] for (pos, c, nm), kd in zip(cons, kinds)], float)
            s = np.array([c.standard_deviation if kd[0] == 'N' else math.sqrt(c.covariance[pos][pos]) for (pos, c, nm), kd in zip(cons, kinds)], float)
            w = 1 / s**2
            m.close(float(d.central_value), (w * mu).sum() / w.sum(), 'shipped:gaussian', 'not the inverse-variance average', rtol=1e-8, observable=o, names=names)
            m.close(float(d.error_right), 1 / math.sqrt(w.sum()), 'shipped:gaussian', 'not the error of the inverse-variance average', rtol=1e-8, observable=o, names=names)
        elif len(cons) == 1:
            pos, c, nm = cons[0]
            cv = np.ravel(c.central_value)
            m.close(float(d.central_value), float(cv[pos if len(cv) > 1 else 0]), 'shipped:single', 'not the measurement', rtol=1e-9, observable=o)
        else:
            lo, hi = d.support
            one = []
            for pos, c, nm in cons:
                if np.size(c.central_value) > 1:
                    c = c.reduce_dimension(exclude=tuple(i for i in range(np.size(c.central_value)) if i != pos))
                one.append(c)
            xs = np.linspace(lo + 1e-6 * (hi - lo), hi - 1e-6 * (hi - lo), 301)
            lp = np.zeros(len(xs))
            with np.errstate(all='ignore'):
                for c in one:
                    lp = lp + np.array([float(np.ravel(c.logpdf(x))[0]) for x in xs])
                q = np.exp(np.array([float(np.ravel(d.logpdf(x))[0]) for x in xs]))
            p = np.exp(lp - np.nanmax(lp))
            sel = (p > .05) & (q > 0)
            if sel.sum() < 5:
                continue
            r = np.log(q[sel] / p[sel])
            m.check(r.std() < .02, 'shipped:numerical', 'not proportional to the product of the densities', observable=o, names=names, spread=float(r.std()))
        m.event('shipped', str(o))


def jobs(tier, seed):
    f = 1 if tier == 'quick' else 15
    return (split_jobs('synthetic', synthetic, 260 * f, 6, seed=seed) + split_jobs('errors', errors, 60 * f, 1, seed=seed)
            + [{'name': 'shipped#%d' % i, 'fn': shipped, 'args': {'seed': seed, 'part': i, 'parts': 4}} for i in range(4)])
