"""P19: likelihoods."""
import collections
import math
import re
import warnings
import numpy as np
from scipy import stats
from lib import obs as O, npwc
from lib.util import split_jobs, random_corr, logu

RULE = ('random worlds of synthetic observables (with and without arguments), measurements of several families and correlated parameters: selections by inclusion and exclusion, log-likelihoods, priors and differences against direct sums of densities; '
        'histories of evaluations of one object; dump and load; random sets of shipped measurements; distinct by (world, selection, point)')
ASSUMPTIONS = ['observables of a measurement that are not part of the likelihood are marginalised over, as documented in reduce_dimension', 'new-physics points given as objects of the package wilson that are replaced, not modified through private attributes']
MIN = {'sum': 400, 'warning': 20, 'selection': 150, 'history': 600, 'yaml': 60, 'shipped': 40, 'prior': 60, 'invalid': 30}

COUNT = [0]


class Fam:
    """distribution with an independent log-density"""

    def __init__(self, rng, dim, kind=None):
        from flavio.statistics import probability as P
        self.dim = dim
        self.scale = 1.
        if dim > 1:
            self.mean = rng.normal(size=dim)
            s = np.exp(rng.normal(size=dim) * .5)
            self.cov = random_corr(rng, dim) * np.outer(s, s)
            self.dist = P.MultivariateNormalDistribution(self.mean, self.cov)
            self.kind = 'mvn'
            return
        self.kind = kind or str(rng.choice(['normal', 'asym', 'half', 'limit', 'gamma']))
        c, s, t = rng.normal(), math.exp(.5 * rng.normal()), math.exp(.5 * rng.normal())
        if self.kind == 'gamma':
            c = -abs(c)
        self.p = c, s, t
        if self.kind == 'normal':
            self.dist = P.NormalDistribution(c, s)
        elif self.kind == 'asym':
            self.dist = P.AsymmetricNormalDistribution(c, s, t)
        elif self.kind == 'half':
            self.dist = P.HalfNormalDistribution(c, s)
        elif self.kind == 'limit':
            self.dist = P.GaussianUpperLimit(5 * s, .95)
        else:
            self.dist = P.GammaDistribution(a=2.5 + t, loc=c, scale=s)

    def logpdf(self, x, keep):
        """x: values of the kept components"""
        if self.kind == 'mvn':
            k = list(keep)
            return float(stats.multivariate_normal(self.mean[k], self.cov[np.ix_(k, k)]).logpdf(x))
        c, s, t = self.p
        x = x[0]
        if self.kind == 'normal':
            return float(stats.norm(c, s).logpdf(x))
        if self.kind == 'asym':
            w = s if x > c else t
            return math.log(2 / (s + t)) - .5 * math.log(2 * math.pi) - (x - c)**2 / 2 / w**2
        if self.kind == 'half':
            return math.log(2) + float(stats.norm(c, s).logpdf(x)) if x >= c else -math.inf
        if self.kind == 'limit':
            s = 5 * s / stats.norm.ppf(.975)
            return math.log(2) + float(stats.norm(0, s).logpdf(x)) if x >= 0 else -math.inf
        return float(stats.gamma(2.5 + t, c, s).logpdf(x))

    def best(self, keep):
        if self.kind == 'mvn':
            return self.logpdf(self.mean[list(keep)], keep)
        c, s, t = self.p
        m = {'limit': 0., 'gamma': c + s * (1.5 + t)}.get(self.kind, c)
        return self.logpdf([m], (0,))


class World:
    def __init__(self, rng):
        import flavio
        from flavio.classes import Observable, Prediction, Measurement, ParameterConstraints
        COUNT[0] += 1
        self.tag = t = 'verif%d' % COUNT[0]
        # parameters
        self.pars = ['%s p%d' % (t, i) for i in range(6)]
        self.par_obj = ParameterConstraints()
        self.pcons = []
        i = 0
        while i < 6:
            d = min(int(rng.integers(1, 4)), 6 - i)
            f = Fam(rng, d, 'normal' if rng.random() < .5 else None)
            self.par_obj.add_constraint(self.pars[i:i + d], f.dist)
            self.pcons.append((f, self.pars[i:i + d]))
            i += d
        # observables: linear and quadratic in the parameters, linear in Wilson coefficients
        self.obs, self.fn = [], {}
        for j in range(int(rng.integers(3, 7))):
            name = '%s obs%d' % (t, j)
            a, b, c = rng.normal(size=6), rng.normal(size=6) * .2, rng.normal(size=2)
            witharg = rng.random() < .35
            if witharg:
                Observable(name, arguments=['q2min', 'q2max'])
            else:
                Observable(name)

            def g(wc, par, x=0., y=0., a=a, b=b, c=c):
                v = 0.
                for k, p in enumerate(self.pars):
                    v += a[k] * par[p] + b[k] * par[p]**2
                if wc is not None:
                    w = wc.get_wc('sb', 4.8, par)
                    v += c[0] * w['C9_bsmumu'].real + c[1] * w['C10_bsmumu'].real
                return v + .3 * x - .1 * y * x
            if witharg:
                Prediction(name, lambda wc, par, q2min, q2max, g=g: g(wc, par, q2min, q2max))
                for k in range(2):
                    x, y = float(rng.integers(0, 5)), float(rng.integers(5, 9))
                    o = (name, x, y)
                    if o in self.fn:
                        continue
                    self.obs.append(o)
                    self.fn[o] = lambda wc, par, g=g, x=x, y=y: g(wc, par, x, y)
            else:
                Prediction(name, lambda wc, par, g=g: g(wc, par))
                self.obs.append(name)
                self.fn[name] = g
        # measurements
        self.meas = {}
        for k in range(int(rng.integers(3, 8))):
            name = '%s meas%d' % (t, k)
            m = Measurement(name)
            left = list(rng.permutation(len(self.obs)))
            cons = []
            for _ in range(int(rng.integers(1, 4))):
                d = min(int(rng.integers(1, 4)), len(left))
                if d < 1:
                    break
                oo = [self.obs[left.pop()] for _ in range(d)]
                f = Fam(rng, d)
                if d == 1 and cons and rng.random() < .5 and cons[-1][0].dim == 1:
                    f = cons[-1][0]         # the same distribution object for two observables
                m.add_constraint(oo, f.dist)
                cons.append((f, oo))
            self.meas[name] = cons
        if rng.random() < .5:
            name = 'Pseudo-measurement for ' + t
            m = Measurement(name)
            f = Fam(rng, 1, 'normal')
            m.add_constraint([self.obs[0]], f.dist)
            self.pseudo = {name: [(f, [self.obs[0]])]}
        else:
            self.pseudo = {}

    def close(self):
        from flavio.classes import Observable, Measurement
        for n in list(self.meas) + list(self.pseudo):
            Measurement.del_instance(n)
        for n in {o if isinstance(o, str) else o[0] for o in self.obs}:
            Observable.del_instance(n)

    def measured(self, selected=None):
        return {o for n in (selected if selected is not None else self.meas) for f, oo in self.meas.get(n, self.pseudo.get(n, [])) for o in oo}

    def select(self, rng):
        """random selection -> (observables, kwargs, names of the measurements that enter)"""
        meas = sorted(self.meas)
        while True:
            kw = {}
            a = rng.random()
            sub = [n for n in meas if rng.random() < .5]
            if a < .35 and sub:
                kw['include_measurements'] = sub
                pool = set(sub)
            elif a < .7 and sub:
                kw['exclude_measurements'] = sub
                pool = set(meas) - set(sub)
            else:
                pool = set(meas)
            if rng.random() < .2:
                kw['include_pseudo_measurements'] = True
                if 'include_measurements' not in kw:
                    pool |= set(self.pseudo)
            cand = sorted(self.measured(pool), key=str)
            if not cand:
                continue
            obs = [cand[i] for i in rng.permutation(len(cand))[:int(rng.integers(1, len(cand) + 1))]]
            names = {n for n in pool if any(o in obs for f, oo in {**self.meas, **self.pseudo}[n] for o in oo)}
            return obs, kw, names

    def point(self, rng, near=None):
        import flavio
        if near is not None:
            par = dict(near[0])
            p = self.pars[int(rng.integers(6))]
            par[p] = float(rng.choice([-1., -2., 0., 1., par[p] + .1, par[p], -par[p]]))
            return par, near[1]
        return dict({p: float(rng.normal()) if rng.random() < .7 else float(rng.integers(-3, 3)) for p in self.pars}, Vus=.22, Vcb=.04, Vub=.004, gamma=1.2), None

    def wc(self, rng):
        import flavio
        import wilson
        a = rng.random()
        if a < .25:
            return None, (0., 0.)
        v = float(rng.choice([-1., -2., 1., .5])), float(rng.choice([-1., -2., 0., .25]))
        d = {'C9_bsmumu': v[0], 'C10_bsmumu': v[1]}
        if a < .6:
            return wilson.Wilson(d, 4.8, 'WET', 'flavio'), v
        w = flavio.WilsonCoefficients()
        w.set_initial(d, 4.8)
        return w, v

    def loglike(self, names, obs, pred, exclude=(), delta=False):
        tot = 0.
        for n in names:
            for f, oo in {**self.meas, **self.pseudo}[n]:
                keep = [i for i, o in enumerate(oo) if o in obs and o not in exclude]
                if keep:
                    tot += f.logpdf([pred[oo[i]] for i in keep], keep) - (f.best(keep) if delta else 0.)
        return tot

    def prior(self, fit, par, delta=False):
        tot = 0.
        for f, pp in self.pcons:
            keep = [i for i, p in enumerate(pp) if p in fit]
            if keep:
                tot += f.logpdf([par[pp[i]] for i in keep], keep) - (f.best(keep) if delta else 0.)
        return tot


def agree(m, got, exp, sig, msg, **w):
    got = float(np.ravel(got)[0]) if np.size(got) == 1 else math.nan
    return m.close(got, exp, sig, msg, rtol=1e-8, atol=1e-7, **w)


def direct(w, obs, par, v):
    """predictions computed without the library's caches"""
    class Stub:
        def get_wc(self, *a, **k):
            return {'C9_bsmumu': complex(v[0]), 'C10_bsmumu': complex(v[1])}
    return {o: w.fn[o](Stub(), par) for o in obs}


def sums(m, rng, n, seed):
    from flavio.statistics.likelihood import MeasurementLikelihood, ParameterLikelihood, Likelihood
    warnings.simplefilter('ignore')
    for k in range(n):
        w = World(rng)
        try:
            for r in range(3):
                obs, kw, names = w.select(rng)
                fit = [w.pars[i] for i in rng.permutation(6)[:int(rng.integers(0, 7))]]
                given = list(obs), {a: (list(b) if isinstance(b, list) else b) for a, b in kw.items()}, list(fit)
                with warnings.catch_warnings(record=True) as wn:
                    warnings.simplefilter('always')
                    ml = m.call('MeasurementLikelihood', MeasurementLikelihood, obs, **kw)
                # correlations with quantities that are not included are announced
                count = collections.Counter()
                for x in names:
                    for f, oo in {**w.meas, **w.pseudo}[x]:
                        count.update((o1, o2) for o1 in oo if o1 not in obs for o2 in oo if o2 in obs)
                expw = sorted((n, str(a), str(b)) for (a, b), n in count.items() if n > 1)
                gotw = sorted((int(z.group(1)), z.group(2), z.group(3)) for z in (re.match(r"(\d+) of the measurements in the likelihood constrain both '(.*)' and '(.*)', but only", str(x.message)) for x in wn) if z)
                m.check(gotw == expw, 'warning', 'not the correlations with quantities that are not included', got=gotw, expected=expw, obs=obs, kw=kw)
                if expw:
                    m.event('warning', (seed, k, r))
                m.check(set(ml.get_measurements) == names and len(ml.get_measurements) == len(names), 'selection', 'not exactly the selected measurements', got=ml.get_measurements, expected=sorted(names), kw=kw, obs=obs)
                nobs = sum(1 for x in names for f, oo in {**w.meas, **w.pseudo}[x] for o in oo if o in obs)
                m.check(ml.get_number_observations() == nobs, 'number', 'number of observations', got=ml.get_number_observations(), expected=nobs)
                ex = [o for o in w.obs if rng.random() < .3]
                nobs = sum(1 for x in names for f, oo in {**w.meas, **w.pseudo}[x] for o in oo if o in obs and o not in ex)
                m.check(ml.get_number_observations(exclude_observables=ex) == nobs, 'number:exclude', 'number of observations without excluded ones', expected=nobs, exclude=ex)
                m.event('selection', (seed, k, r))
                L = m.call('Likelihood', Likelihood, par_obj=w.par_obj, fit_parameters=fit, observables=obs, **kw)
                for _ in range(3):
                    par, _w = w.point(rng)
                    wc, v = w.wc(rng)
                    pred = direct(w, obs, par, v)
                    p = m.call('predictions', ml.get_predictions_par, par, wc)
                    m.check(set(p) == set(obs), 'predictions:keys', 'not the observables of the likelihood', got=list(p), expected=obs)
                    for o in obs:
                        m.close(p[o], pred[o], 'predictions', 'wrong prediction', rtol=1e-10, atol=1e-12, obs=o)
                    for delta in (False, True):
                        exp = w.loglike(names, obs, pred, (), delta)
                        agree(m, m.call('log_likelihood_pred', ml.log_likelihood_pred, pred, delta=delta), exp, 'sum:pred', 'not the sum of the log-probabilities of the measurements', delta=delta, kw=kw, obs=obs)
                        agree(m, m.call('log_likelihood_par', ml.log_likelihood_par, par, wc, delta=delta), exp, 'sum:par', 'not the sum of the log-probabilities of the measurements', delta=delta, kw=kw, obs=obs)
                        e2 = w.loglike(names, obs, pred, ex, delta)
                        agree(m, m.call('log_likelihood_par', ml.log_likelihood_par, par, wc, exclude_observables=ex, delta=delta), e2, 'sum:exclude', 'not the sum over the observables that are not excluded', delta=delta, exclude=ex, obs=obs)
                        pr = w.prior(fit, par, delta)
                        agree(m, m.call('log_prior', L.log_prior_fit_parameters, par, delta=delta), pr, 'sum:prior', 'not the sum of the constraints on the fit parameters', delta=delta, fit=fit)
                        agree(m, m.call('log_likelihood_exp', L.log_likelihood_exp, par, wc, delta=delta), exp, 'sum:exp', 'not the sum of the log-probabilities of the measurements', delta=delta)
                        agree(m, m.call('log_likelihood', L.log_likelihood, par, wc, delta=delta), exp + pr, 'sum:total', 'not the sum of measurements and parameters', delta=delta)
                        agree(m, m.call('log_likelihood', L.log_likelihood, par, wc, exclude_observables=ex, delta=delta), e2 + pr, 'sum:total', 'not the sum of measurements and parameters', delta=delta, exclude=ex)
                    m.event('sum', (seed, k, r))
                m.check((list(obs), {a: (list(b) if isinstance(b, list) else b) for a, b in kw.items()}, list(fit)) == given, 'input', 'arguments were modified')
        finally:
            w.close()


def history(m, rng, n, seed):
    """One object, many evaluations."""
    from flavio.statistics.likelihood import Likelihood
    warnings.simplefilter('ignore')
    for k in range(n):
        w = World(rng)
        try:
            obs, kw, names = w.select(rng)
            fit = w.pars[:3]
            L = Likelihood(par_obj=w.par_obj, fit_parameters=fit, observables=obs, **kw)
            par, _ = w.point(rng)
            wc, v = w.wc(rng)
            seen = []
            log = []
            for step in range(20):
                a = rng.random()
                if a < .35:
                    p = w.pars[int(rng.integers(6))]
                    val = float(rng.choice([-1., -2., 0., 1., par[p] + .1, -par[p]]))
                    if rng.random() < .5:
                        par[p] = val                    # in place
                        log.append(('par in place', p, val))
                    else:
                        par = dict(par, **{p: val})
                        log.append(('par', p, val))
                elif a < .5:
                    wc, v = w.wc(rng)
                    log.append(('wc', v))
                elif a < .65 and hasattr(wc, 'set_initial'):
                    v = float(rng.choice([-1., -2., 3.])), float(rng.choice([-1., -2.]))
                    wc.set_initial({'C9_bsmumu': v[0], 'C10_bsmumu': v[1]}, 4.8)
                    log.append(('wc in place', v))
                elif a < .8 and seen:
                    par, wc, v = seen[int(rng.integers(len(seen)))]
                    par = dict(par)
                    log.append(('revisit', v))
                elif a < .9 and len(w.meas) > 1 and not kw:
                    # a new measurement of an observable of the likelihood: measurements "currently defined"
                    from flavio.classes import Measurement
                    f = Fam(rng, 1)
                    name = '%s extra %d' % (w.tag, step)
                    Measurement(name).add_constraint([obs[0]], f.dist)
                    w.meas[name] = [(f, [obs[0]])]
                    names = names | {name}
                    log.append(('new measurement',))
                if not hasattr(wc, 'set_initial'):
                    seen.append((dict(par), wc, v))
                pred = direct(w, obs, par, v)
                exp = w.loglike(names, obs, pred) + w.prior(fit, par)
                agree(m, m.call('log_likelihood', L.log_likelihood, par, wc), exp, 'history', 'log-likelihood does not belong to the current point', log=log[-6:])
                m.event('history', (seed, k, step))
        finally:
            w.close()


def text(m, rng, n, seed):
    """Likelihoods written to and read from text."""
    import flavio
    import yaml
    from flavio.statistics.likelihood import MeasurementLikelihood, ParameterLikelihood, Likelihood, FastLikelihood
    warnings.simplefilter('ignore')
    default = flavio.default_parameters
    names = ['m_b', 'm_c', 'Vcb', 'Vub', 'gamma', 'f_B0', 'f_Bs', 'alpha_s']
    for k in range(n):
        w = World(rng)
        try:
            obs, kw, sel = w.select(rng)
            kw.pop('include_pseudo_measurements', None)
            par_obj = default.copy()
            changed = {}
            for p in names:
                if rng.random() < .3:
                    c = default.get_central(p)
                    changed[p] = c * (1 + .1 * rng.normal()), abs(c) * .05 * math.exp(rng.normal())
                    par_obj.set_constraint(p, '%.30f +- %.30f' % changed[p])
            fit = [p for p in names if rng.random() < .5]
            par = default.get_central_all()
            for p in names:
                par[p] *= 1 + .02 * rng.normal()
            par.update(w.point(rng)[0])
            wc, v = w.wc(rng)
            # measurements
            a = MeasurementLikelihood(obs, **kw)
            t = m.call('dump:MeasurementLikelihood', a.dump)
            b = m.call('load:MeasurementLikelihood', MeasurementLikelihood.load, t)
            agree(m, b.log_likelihood_par(par, wc), float(np.ravel(a.log_likelihood_par(par, wc))[0]), 'yaml:MeasurementLikelihood', 'another function after writing and reading', text=t)
            m.check(set(b.get_measurements) == set(a.get_measurements), 'yaml:measurements', 'other measurements after writing and reading', text=t, got=sorted(b.get_measurements), expected=sorted(a.get_measurements))
            # the documented text forms of observables
            forms = []
            for o in obs:
                if isinstance(o, str):
                    forms.append([o, {'name': o}][int(rng.integers(2))])
                else:
                    forms.append([list(o), {'name': o[0], 'q2min': o[1], 'q2max': o[2]}][int(rng.integers(2))])
            if rng.random() < .5:
                forms.append(forms[0])       # duplicates are dropped
            t2 = yaml.dump(dict(observables=forms, **kw))
            c = m.call('load:MeasurementLikelihood', MeasurementLikelihood.load, t2)
            agree(m, c.log_likelihood_par(par, wc), float(np.ravel(a.log_likelihood_par(par, wc))[0]), 'yaml:forms', 'another function when written in text form', text=t2)
            # parameters
            if fit:
                a = ParameterLikelihood(par_obj, fit)
                t = m.call('dump:ParameterLikelihood', a.dump)
                b = m.call('load:ParameterLikelihood', ParameterLikelihood.load, t)
                agree(m, b.log_likelihood_par(par), float(np.ravel(a.log_likelihood_par(par))[0]), 'yaml:ParameterLikelihood', 'another function after writing and reading', text=t)
                m.close(b.get_central, a.get_central, 'yaml:central', 'other central values', rtol=1e-12)
            # both
            a = Likelihood(par_obj, fit, obs, **kw)
            t = m.call('dump:Likelihood', a.dump)
            b = m.call('load:Likelihood', Likelihood.load, t)
            agree(m, b.log_likelihood(par, wc), float(np.ravel(a.log_likelihood(par, wc))[0]), 'yaml:Likelihood', 'another function after writing and reading', text=t, changed=changed)
            m.check(list(b.fit_parameters) == fit, 'yaml:fit_parameters', 'other fit parameters', got=b.fit_parameters, expected=fit)
            for p in changed:
                m.close(b.parameters_central[p], changed[p][0], 'yaml:par_obj', 'changed parameter was lost', rtol=1e-10, par=p, text=t)
            t2 = yaml.dump(dict(par_obj=[{p: '%.30f +- %.30f' % x} for p, x in changed.items()], fit_parameters=fit, observables=forms, **kw))
            c = m.call('load:Likelihood', Likelihood.load, t2)
            agree(m, c.log_likelihood(par, wc), float(np.ravel(a.log_likelihood(par, wc))[0]), 'yaml:Likelihood:forms', 'another function when written in text form', text=t2)
            # fast
            nm = '%s fast' % w.tag
            a = FastLikelihood(nm, par_obj, fit, names[:2], obs, **kw)
            t = m.call('dump:FastLikelihood', a.dump)
            FastLikelihood.del_instance(nm)
            b = m.call('load:FastLikelihood', FastLikelihood.load, t)
            FastLikelihood.del_instance(nm)
            m.check((b.name, list(b.observables), list(b.fit_parameters), list(b.nuisance_parameters), set(b.full_measurement_likelihood.get_measurements)) ==
                    (nm, list(obs), fit, names[:2], set(a.full_measurement_likelihood.get_measurements)), 'yaml:FastLikelihood', 'another configuration after writing and reading', text=t)
            for p in changed:
                m.close(b.parameters_central[p], changed[p][0], 'yaml:FastLikelihood:par_obj', 'changed parameter was lost', rtol=1e-10, par=p, text=t)
            m.event('yaml', (seed, k))
        finally:
            w.close()


def prior(m, rng, n, seed):
    """Constraints on the shipped parameters."""
    import flavio
    from flavio.statistics.likelihood import ParameterLikelihood
    par_obj = flavio.default_parameters
    cons = [(c, pp) for c, pp in par_obj._constraints if type(c).__name__ != 'DeltaDistribution']
    allp = [p for c, pp in cons for i, p in enumerate(pp) if par_obj._parameters[p] == (i, c)]
    for k in range(n):
        fit = [allp[i] for i in rng.permutation(len(allp))[:int(rng.integers(1, 40))]]
        L = ParameterLikelihood(par_obj, fit)
        par = par_obj.get_random_all()
        exp = 0.
        for c, pp in cons:
            keep = [i for i, p in enumerate(pp) if p in fit and par_obj._parameters[p] == (i, c)]
            if not keep:
                continue
            if len(pp) == 1:
                exp += float(c.logpdf(par[pp[0]]))
            else:
                cov, mean = np.asarray(c.covariance), np.asarray(c.central_value)
                cov = cov[np.ix_(keep, keep)]
                e = np.sqrt(np.diag(cov))
                z = (np.array([par[pp[i]] for i in keep]) - mean[keep]) / e
                C = cov / np.outer(e, e)
                if np.linalg.cond(C) > 1e9:
                    break
                exp += float(-.5 * z @ np.linalg.solve(C, z) - .5 * np.linalg.slogdet(C)[1] - np.log(e).sum() - len(keep) / 2 * math.log(2 * math.pi))
        else:
            agree(m, m.call('prior', L.log_likelihood_par, par), exp, 'prior', 'not the sum of the constraints', fit=fit)
        central = par_obj.get_central_all()
        m.close(L.get_central, [central[p] for p in fit], 'prior:central', 'not the central values in the order of the parameters', rtol=1e-14)
        st = np.random.get_state()
        np.random.seed(k)
        r = L.get_random
        np.random.seed(k)
        ra = par_obj.get_random_all()
        np.random.set_state(st)
        m.close(r, [float(ra[p]) for p in fit], 'prior:random', 'not random values of the parameters in their order', rtol=1e-12)
        m.event('prior', (seed, k))


FAST = ['BR(Bs->mumu)', 'BR(B0->mumu)', 'BR(B+->taunu)', 'eps_K', 'DeltaM_s', 'DeltaM_d', 'S_psiK', 'BR(B->Xsgamma)', 'BR(K+->pinunu)', 'BR(KL->mumu)', 'BR(K+->munu)', 'Rmue(K+->lnu)', 'BR(Ds->taunu)', 'BR(D+->munu)', 'BR(tau->munununu)', 'a_mu', 'BR(tau->mugamma)',
        'S_psiphi', 'a_fs_s', 'a_fs_d', 'BR(Bs->taumu)', 'x12_D', 'BR(KS->mumu)', 'ADeltaGamma(Bs->mumu)', 'tau_mumu']


def shipped(m, rng, n, seed):
    import flavio
    from flavio.statistics.likelihood import Likelihood
    warnings.simplefilter('ignore')
    meas = {nm: o for nm, o in flavio.Measurement.instances.items() if not nm.startswith('Pseudo-measurement')}
    cand = [o for o in FAST if o in flavio.Observable.instances and any(o in x.all_parameters for x in meas.values())]
    binned = sorted({o for x in meas.values() for o in x.all_parameters if not isinstance(o, str) and o[0] in ('<dBR/dq2>(B+->Kmumu)', '<P5p>(B0->K*mumu)', '<FL>(B0->K*mumu)', '<Rmue>(B+->Kll)', '<BR>(B+->Dmunu)')}, key=str)
    for k in range(n):
        obs = [cand[i] for i in rng.permutation(len(cand))[:int(rng.integers(1, 8))]] + [binned[i] for i in rng.permutation(len(binned))[:int(rng.integers(0, 3))]]
        par = flavio.default_parameters.get_random_all()
        par = {p: float(x) for p, x in par.items()}
        wc = npwc.wet(rng, amount=.2) if rng.random() < .6 else flavio.WilsonCoefficients()
        L = m.call('Likelihood', Likelihood, observables=obs)
        exp = 0.
        pred = {o: (flavio.Observable[o].prediction_par(par, wc) if isinstance(o, str) else flavio.Observable[o[0]].prediction_par(par, wc, *o[1:])) for o in obs}
        used = 0
        for nm, x in meas.items():
            for i, (c, pp) in enumerate(x._constraints):
                keep = [j for j, p in enumerate(pp) if p in obs and x._parameters[p] == (j, c)]
                if not keep:
                    continue
                used += 1
                if len(pp) == 1:
                    exp += float(np.ravel(c.logpdf(pred[pp[0]]))[0])
                elif len(keep) == len(pp):
                    exp += float(np.ravel(c.logpdf([pred[p] for p in pp]))[0])
                else:
                    r = c.reduce_dimension(exclude=[j for j in range(len(pp)) if j not in keep])
                    exp += float(np.ravel(r.logpdf([pred[pp[j]] for j in keep] if len(keep) > 1 else pred[pp[keep[0]]]))[0])
        if math.isnan(exp):
            continue
        agree(m, m.call('log_likelihood', L.log_likelihood, par, wc), exp, 'shipped', 'not the sum over the shipped measurements', obs=obs, terms=used)
        m.event('shipped', (seed, k, used))


def invalid(m, rng, n, seed):
    from flavio.statistics.likelihood import MeasurementLikelihood, Likelihood
    warnings.simplefilter('ignore')
    for k in range(n):
        w = World(rng)
        try:
            names = sorted(w.meas)
            o = sorted(w.measured(), key=str)
            for cls in (MeasurementLikelihood, lambda obs, **kw: Likelihood(observables=obs, **kw)):
                m.raises(ValueError, 'invalid:both', cls, o[:1], include_measurements=names, exclude_measurements=names[:1])
                m.raises(AssertionError, 'invalid:excluded', cls, o, exclude_measurements=names)
                m.raises(Exception, 'invalid:unmeasured', cls, o[:1] + ['%s nothing' % w.tag])
                lone = [x for x in o if sum(x in w.measured([nm]) for nm in names) == 1]
                if lone:
                    only = next(nm for nm in names if lone[0] in w.measured([nm]))
                    m.raises(AssertionError, 'invalid:its only measurement excluded', cls, [lone[0]], exclude_measurements=[only])
                    if len(names) > 1:
                        m.raises(AssertionError, 'invalid:its only measurement not included', cls, [lone[0]], include_measurements=[nm for nm in names if nm != only])
            m.event('invalid', (seed, k))
        finally:
            w.close()


def jobs(tier, seed):
    f = 1 if tier == 'quick' else 15
    return (split_jobs('shipped', shipped, 60 * f, 4, seed=seed) + split_jobs('sums', sums, 60 * f, 3, seed=seed) + split_jobs('history', history, 60 * f, 3, seed=seed) + split_jobs('text', text, 80 * f, 6, seed=seed)
            + split_jobs('prior', prior, 80 * f, 2, seed=seed) + split_jobs('invalid', invalid, 40 * f, 1, seed=seed))
