"""P20: uncertainties and covariances of predictions."""
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
from lib import obs as O, npwc
from lib.util import split_jobs, random_corr, logu

RULE = ('uncertainties, covariances and error budgets of random sets of shipped observables recomputed from the intercepted parameter draws; the same with other orders, process counts and subsets of parameters; '
        'synthetic linear observables against exact error propagation; saved and reloaded covariances; distinct by (observables, options, seed)')
ASSUMPTIONS = ['the normalisation of the sample variance is 1/N or 1/(N-1)', 'statistical comparisons allow 6.5 standard deviations of the sampling error']
MIN = {'uncertainty': 40, 'covariance': 25, 'threads': 8, 'order': 20, 'vary': 20, 'linear': 30, 'budget': 8, 'save': 40, 'cache': 20}
FAST = [('BR(Bs->mumu)',), ('BR(B0->mumu)',), ('BR(B+->taunu)',), ('eps_K',), ('DeltaM_s',), ('DeltaM_d',), ('S_psiK',), ('BR(B->Xsgamma)',), ('BR(K+->pinunu)',), ('BR(KL->mumu)',), ('BR(K+->munu)',), ('BR(Ds->taunu)',), ('BR(D+->munu)',), ('S_psiphi',), ('a_fs_s',),
        ('BR(KS->mumu)',), ('ADeltaGamma(Bs->mumu)',), ('dBR/dq2(B+->Kmumu)', 3.), ('P5p(B0->K*mumu)', 4.), ('FL(B0->K*mumu)', 2.), ('dBR/dq2(B0->K*mumu)', 17.), ('<dBR/dq2>(B+->Dmunu)', 5., 5.2), ('tau_mumu',), ('BR(B0->K*gamma)',), ('dBR/dq2(B0->pitaunu)', 8.),
        ('dBR/dq2(Bs->Kmunu)', 10.), ('BR(tau->pinu)',), ('FL(Bs->phimumu)', 3.), ('P5p(B0->K*mumu)', 6.), ('AFB(B0->K*mumu)', 1.), ('P4p(B0->K*mumu)', 5.)]


def draw_obs(rng, k):
    import flavio
    l = [o for o in FAST if o[0] in flavio.Observable.instances]
    return [l[i] if len(l[i]) > 1 else l[i][0] for i in rng.permutation(len(l))[:k]]


def name_args(o):
    return (o, ()) if isinstance(o, str) else (o[0], o[1:])


class Draws:
    """records the random parameters that are drawn"""

    def __enter__(self):
        from flavio.classes import ParameterConstraints
        self.calls = []
        self.cls = ParameterConstraints
        owner = next(c for c in ParameterConstraints.__mro__ if 'get_random_all' in c.__dict__)
        self.owner, self.orig = owner, owner.__dict__['get_random_all']
        orig, calls = self.orig, self.calls

        def rec(s, *a, **k):
            r = orig(s, *a, **k)
            calls.append((s, {p: np.array(v, copy=True) for p, v in r.items()}))
            return r
        owner.get_random_all = rec
        return self

    def __exit__(self, *a):
        self.owner.get_random_all = self.orig

    def points(self, par_obj):
        out = []
        for s, r in self.calls:
            if s is not par_obj:
                continue
            n = max(np.size(v) for v in r.values())
            if any(np.size(v) not in (1, n) for v in r.values()):
                return None
            for i in range(n):
                out.append({p: float(np.ravel(v)[i if np.size(v) == n else 0]) for p, v in r.items()})
        return out


def spread(m, got, preds, sig, **w):
    """standard deviation with either normalisation"""
    a, b = np.std(preds), np.std(preds, ddof=1)
    tol = 1e-9 * abs(np.mean(preds))
    ok = abs(got - a) <= 1e-8 * a + tol or abs(got - b) <= 1e-8 * b + tol
    return m.check(ok, sig, 'not the standard deviation of the predictions for the parameters drawn', observed=float(got), expected=float(a), **w)


def uncertainty(m, rng, n, seed):
    """sm_uncertainty and np_uncertainty are the spread of the predictions."""
    import flavio
    warnings.simplefilter('ignore')
    par_obj = flavio.default_parameters
    for k in range(n):
        o, = draw_obs(rng, 1)
        name, args = name_args(o)
        N = int(rng.integers(5, 25))
        wc = None if rng.random() < .4 else npwc.wet(rng, amount=.3)
        names = flavio.Observable[name].arguments
        a, kw = (args, {}) if rng.random() < .6 or not args else ((), dict(zip(names, args)))
        before = par_obj.get_central_all()
        with Draws() as d:
            if wc is None:
                u = m.call('sm_uncertainty', flavio.sm_uncertainty, name, *a, N=N, **kw)
            else:
                u = m.call('np_uncertainty', flavio.np_uncertainty, name, wc, *a, N=N, **kw)
        pts = d.points(par_obj)
        if not m.check(pts is not None and len(pts) == N, 'draws', 'number of parameter draws is not N', drawn=None if pts is None else len(pts), N=N):
            continue
        m.check(len({tuple(p.values()) for p in pts}) == N, 'draws:distinct', 'draws are not independent', observable=o)
        w = wc or flavio.WilsonCoefficients()
        preds = [float(flavio.Observable[name].prediction_par(p, w, *args)) for p in pts]
        spread(m, float(u), preds, 'uncertainty', observable=o, N=N, np=wc is not None)
        m.check(par_obj.get_central_all() == before, 'input', 'parameters were modified')
        m.event('uncertainty', (seed, k, name))


def covariance(m, rng, n, seed):
    import flavio
    warnings.simplefilter('ignore')
    par_obj = flavio.default_parameters
    allp = sorted(par_obj._parameters)
    for k in range(n):
        obs = draw_obs(rng, int(rng.integers(2, 5)))
        N = int(rng.integers(8, 20))
        mode = ['all', 'some'][k % 2]
        vary = 'all'
        if mode == 'some':
            dep = sorted({p for o in obs for p in flavio.functions.get_dependent_parameters_sm(name_args(o)[0], *name_args(o)[1])})
            vary = [dep[i] for i in rng.permutation(len(dep))[:int(rng.integers(0, len(dep)))]]
            if rng.random() < .2:
                vary = tuple(vary)
        po = par_obj
        if rng.random() < .4:
            po = par_obj.copy()
            po.set_constraint('Vcb', '0.041 +- 0.002')
            po.set_constraint('m_b', '4.1 +- 0.1')
        given = list(obs)
        with Draws() as d:
            C = m.call('sm_covariance', flavio.sm_covariance, obs, N=N, par_vary=vary, **({} if po is par_obj and rng.random() < .5 else {'par_obj': po}))
        pts = d.points(po)
        if not m.check(pts is not None and len(pts) == N, 'draws:cov', 'number of draws of the given parameters is not N', drawn=None if pts is None else len(pts), N=N):
            continue
        central = po.get_central_all()
        if mode == 'some':
            pts = [dict(central, **{p: q[p] for p in vary}) for q in pts]
        w = flavio.WilsonCoefficients()
        preds = np.array([[float(flavio.Observable[name_args(o)[0]].prediction_par(p, w, *name_args(o)[1])) for o in obs] for p in pts])
        exp = np.atleast_2d(np.cov(preds.T))
        s = np.sqrt(np.diag(exp)) + 1e-9 * abs(preds.mean(axis=0))
        C = np.asarray(C)
        if not m.check(C.shape == exp.shape, 'covariance:shape', 'not a square matrix of the observables', shape=C.shape):
            continue
        m.check(np.all(abs(C - exp) <= 1e-7 * np.outer(s, s)) or np.all(abs(C - exp * (N - 1) / N) <= 1e-7 * np.outer(s, s)), 'covariance' if mode == 'all' else 'vary', 'not the covariance of the predictions for the parameters drawn', obs=obs, vary=vary, got=C, expected=exp)
        m.check(np.array_equal(C, C.T), 'symmetric', 'not symmetric', C=C)
        m.check(np.linalg.eigvalsh(C / np.outer(s, s)).min() > -1e-8, 'positive', 'not positive', C=C)
        m.check(obs == given, 'input', 'list of observables modified')
        if mode == 'some':
            m.event('vary', (seed, k, len(vary)))
        m.event('covariance', (seed, k))


def threads(m, rng, n, seed):
    """Independence of the number of processes; order; agreement with single uncertainties."""
    import flavio
    warnings.simplefilter('ignore')
    for k in range(n):
        obs = draw_obs(rng, int(rng.integers(2, 5)))
        N = int(rng.integers(6, 16))
        sd = int(rng.integers(2**31))

        def seeded(f, *a, **kw):
            np.random.seed(sd)
            return f(*a, **kw)
        C = seeded(flavio.sm_covariance, obs, N=N)
        t = int(rng.integers(2, 5))
        if k % 2 == 0:
            Ct = seeded(flavio.sm_covariance, obs, N=N, threads=t)
            m.close(Ct, C, 'threads:covariance', 'depends on the number of processes', rtol=1e-10, atol=1e-60, threads=t, obs=obs)
            name, args = name_args(obs[0])
            wc = npwc.wet(rng, amount=.3)
            a = seeded(flavio.np_uncertainty, name, wc, *args, N=N)
            b = m.call('threads', seeded, flavio.np_uncertainty, name, wc, *args, N=N, threads=t)
            m.close(a, b, 'threads:np_uncertainty', 'depends on the number of processes', rtol=1e-10, threads=t, obs=obs[0])
            kw = dict(zip(flavio.Observable[name].arguments or (), args))
            a = seeded(flavio.sm_uncertainty, name, N=N, threads=t, **kw)
            b = seeded(flavio.sm_uncertainty, name, *args, N=N)
            m.close(a, b, 'threads:sm_uncertainty', 'depends on the number of processes', rtol=1e-10, threads=t, obs=obs[0])
            m.event('threads', (seed, k, t))
        perm = rng.permutation(len(obs))
        Cp = seeded(flavio.sm_covariance, [obs[i] for i in perm], N=N)
        m.close(Cp, C[np.ix_(perm, perm)], 'order', 'depends on the order of the observables', rtol=1e-9, atol=1e-9 * np.sqrt(np.outer(np.diag(C), np.diag(C))).max(), obs=obs, perm=perm)
        sub = sorted(perm[:int(rng.integers(1, len(obs)))])
        Cs = seeded(flavio.sm_covariance, [obs[i] for i in sub], N=N)
        m.close(np.atleast_2d(Cs), C[np.ix_(sub, sub)], 'subset', 'depends on the other observables', rtol=1e-9, atol=1e-9 * np.sqrt(np.outer(np.diag(C), np.diag(C))).max(), obs=obs, sub=sub)
        for i, o in enumerate(obs):
            name, args = name_args(o)
            u = seeded(flavio.sm_uncertainty, name, *args, N=N)
            r = u**2 / C[i, i] if C[i, i] else 1.
            m.check(abs(r - 1) < 1e-6 or abs(r - (N - 1) / N) < 1e-6, 'consistent', 'single-observable uncertainty is not the root of the diagonal element', ratio=r, observable=o)
        m.event('order', (seed, k))


def linear(m, rng, n, seed):
    """Exact error propagation for synthetic linear observables."""
    import flavio
    from flavio.classes import Observable, Prediction, ParameterConstraints
    from flavio.statistics import probability as P
    for k in range(n):
        pars = ['verif lin%d' % i for i in range(7)]
        po = ParameterConstraints()
        d = int(rng.integers(2, 5))
        s = np.exp(rng.normal(size=d))
        cov = random_corr(rng, d) * np.outer(s, s)
        S = np.zeros((7, 7))
        S[:d, :d] = cov
        mean = rng.normal(size=7)
        po.add_constraint(pars[:d], P.MultivariateNormalDistribution(mean[:d], cov))
        i = d
        kurt = 0.
        while i < 7:
            c, e = mean[i], math.exp(rng.normal() * .5)
            t = int(rng.integers(4))
            if t == 0:
                po.add_constraint([pars[i]], P.NormalDistribution(c, e))
                S[i, i] = e**2
            elif t == 1:
                po.add_constraint([pars[i]], P.UniformDistribution(c, e))
                S[i, i] = e**2 / 3
            elif t == 2:
                po.add_constraint([pars[i]], P.DeltaDistribution(c))
            else:
                po.add_constraint([pars[i]], P.HalfNormalDistribution(c, e))
                S[i, i] = e**2 * (1 - 2 / math.pi)
            i += 1
        nobs = int(rng.integers(1, 5))
        A = rng.normal(size=(nobs, 7))
        obs = []
        for j in range(nobs):
            if j % 2:
                Observable('verif linobs%d' % j, arguments=['q2'])
                Prediction('verif linobs%d' % j, lambda wc, par, q2, a=A[j].copy(): q2 * sum(a[i] * par[p] for i, p in enumerate(pars)))
                A[j] *= 1.5
                obs.append(('verif linobs%d' % j, 1.5))
            else:
                Observable('verif linobs%d' % j)
                Prediction('verif linobs%d' % j, lambda wc, par, a=A[j]: sum(a[i] * par[p] for i, p in enumerate(pars)))
                obs.append('verif linobs%d' % j)
        vary = 'all'
        T = S.copy()
        if rng.random() < .5:
            vary = [p for p in pars if rng.random() < .5]
            for i, p in enumerate(pars):
                if p not in vary:
                    T[i, :] = 0
                    T[:, i] = 0
        N = 3000
        C = np.atleast_2d(m.call('sm_covariance', flavio.sm_covariance, obs, N=N, par_vary=vary, par_obj=po))
        E = A @ T @ A.T
        for i in range(nobs):
            for j in range(nobs):
                err = math.sqrt((E[i, j]**2 + E[i, i] * E[j, j]) / N) * 1.3
                m.check(abs(C[i, j] - E[i, j]) <= 6.5 * err + 1e-12, 'linear', 'not the covariance of error propagation', got=C, expected=E, vary=vary)
        for j in range(nobs):
            Observable.del_instance('verif linobs%d' % j)
        m.event('linear', (seed, k))


def budget(m, rng, n, seed):
    import flavio
    warnings.simplefilter('ignore')
    par_obj = flavio.default_parameters
    for k in range(n):
        o, = draw_obs(rng, 1)
        name, args = name_args(o)
        N = int(rng.integers(4, 8))
        with Draws() as d:
            b = m.call('sm_error_budget', flavio.sm_error_budget, name, *args, N=N)
        pts = d.points(par_obj)
        if not m.check(pts is not None and len(pts) == N, 'draws:budget', 'number of parameter draws is not N', drawn=None if pts is None else len(pts), N=N):
            continue
        central = par_obj.get_central_all()
        w = flavio.WilsonCoefficients()
        inst = flavio.Observable[name]
        c = float(inst.prediction_par(central, w, *args))
        dep = flavio.functions.get_dependent_parameters_sm(name, *args)
        listed = [p for key in b for p in ((key,) if isinstance(key, str) else key)]
        m.check(len(listed) == len(set(listed)) and set(listed) == set(dep), 'budget:parameters', 'parameters of the budget are not those the observable depends on, each once', observable=o, missing=sorted(set(dep) - set(listed)), extra=sorted(set(listed) - set(dep)))
        for key, val in b.items():
            keys = (key,) if isinstance(key, str) else key
            ids = {id(par_obj._parameters[p][1]) for p in keys}
            m.check(len(ids) == 1, 'budget:groups', 'parameters of different constraints are grouped', key=key)
            others = [p for p in listed if p not in keys and id(par_obj._parameters[p][1]) in ids]
            m.check(not others, 'budget:groups', 'correlated parameters in different groups', key=key, others=others)
            preds = [float(inst.prediction_par(dict(central, **{p: q[p] for p in keys}), w, *args)) for q in pts]
            e = np.std(preds) / abs(c)
            m.check(abs(val - e) <= 1e-7 * e + 1e-9 or abs(val - e * math.sqrt(N / (N - 1))) <= 1e-7 * e + 1e-9, 'budget', 'not the relative spread of the prediction', key=key, observable=o, got=float(val), expected=float(e))
        m.event('budget', (seed, k, name))


def save(m, rng, n, seed):
    """Saving and loading with other orders; caching."""
    import flavio
    from flavio.statistics.likelihood import SMCovariance, MeasurementCovariance, MeasurementLikelihood
    from flavio.classes import Observable, Prediction, Measurement, ParameterConstraints
    from flavio.statistics import probability as P
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp()
    try:
        for k in range(n):
            po = ParameterConstraints()
            pars = ['verif s%d' % i for i in range(4)]
            cov = random_corr(rng, 4)
            po.add_constraint(pars, P.MultivariateNormalDistribution(rng.normal(size=4), cov))
            nobs = int(rng.integers(1, 6))
            A = rng.normal(size=(nobs, 4))
            obs = []
            for j in range(nobs):
                nm = 'verif sobs%d' % j
                if rng.random() < .4:
                    Observable(nm, arguments=['q2'])
                    Prediction(nm, lambda wc, par, q2, a=A[j].copy(): q2 * sum(a[i] * par[p] for i, p in enumerate(pars)))
                    obs.append((nm, float(j + 1)))
                else:
                    Observable(nm)
                    Prediction(nm, lambda wc, par, a=A[j]: sum(a[i] * par[p] for i, p in enumerate(pars)))
                    obs.append(nm)
            vary = pars[:3] if rng.random() < .5 else 'all'
            a = SMCovariance(obs, vary_parameters=vary, par_obj=po)
            sd = int(rng.integers(2**31))
            m.raises(ValueError, 'save:not computed', a.save, os.path.join(tmp, 'x'))
            np.random.seed(sd)
            C = m.call('SMCovariance.get', a.get, N=40)
            np.random.seed(sd)
            m.close(C, flavio.sm_covariance(obs, N=40, par_vary=vary, par_obj=po), 'save:get', 'not the covariance for the given options', rtol=1e-12)
            m.close(a.get(force=False), C, 'cache:force=False', 'recomputed although a value exists', rtol=0)
            m.close(a.get(N=30, force=False), C, 'cache:force=False', 'recomputed although a value exists', rtol=0)
            fn = os.path.join(tmp, 'c%d' % k)
            a.save(fn)
            perm = [obs[i] for i in rng.permutation(nobs)][:int(rng.integers(1, nobs + 1))]
            idx = [obs.index(o) for o in perm]
            b = SMCovariance(perm, vary_parameters=vary, par_obj=po)
            m.call('SMCovariance.load', b.load, fn)
            m.close(np.atleast_2d(b.get(force=False)), np.atleast_2d(C)[np.ix_(idx, idx)], 'save:order', 'reloaded covariance does not belong to the observables', rtol=1e-14, saved=obs, loaded=perm)
            if len(perm) == 1:
                m.check(np.ndim(b.get(force=False)) == 0, 'save:single', 'covariance of a single observable is not a number', got=b.get(force=False))
            np.random.seed(sd)
            D = b.get(N=40, force=True)
            m.close(np.atleast_2d(D), np.atleast_2d(C)[np.ix_(idx, idx)], 'cache:force', 'forced computation differs', rtol=1e-8, atol=1e-12)
            np.random.seed(sd + 1)
            D2 = b.get(N=40)
            m.check(not np.array_equal(np.atleast_2d(D2), np.atleast_2d(D)), 'cache:default', 'not recomputed by default')
            m.event('cache', (seed, k))
            Observable('verif sobs other')
            m.raises(ValueError, 'save:missing', SMCovariance(perm + ['verif sobs other']).load, fn)
            # experimental covariance
            meas = []
            left = set(range(nobs))
            for j in range(int(rng.integers(1, 4))):
                nm = 'verif smeas%d' % j
                M = Measurement(nm)
                use = [i for i in range(nobs) if rng.random() < .6] or [0]
                if j == 0:
                    use = list(range(nobs))
                left -= set(use)
                if len(use) == 1:
                    M.add_constraint([obs[use[0]]], P.NormalDistribution(rng.normal(), math.exp(rng.normal())))
                else:
                    s = np.exp(rng.normal(size=len(use)))
                    M.add_constraint([obs[i] for i in use], P.MultivariateNormalDistribution(rng.normal(size=len(use)), random_corr(rng, len(use)) * np.outer(s, s)))
                meas.append(nm)
            ml = MeasurementLikelihood(obs)
            x = MeasurementCovariance(ml)
            m.raises(ValueError, 'save:not computed', x.save, os.path.join(tmp, 'y'))
            cen, cov = m.call('MeasurementCovariance.get', x.get, N=200)
            c2, v2 = x.get(force=False)
            m.check(np.array_equal(cen, c2) and np.array_equal(cov, v2), 'cache:exp', 'recomputed although a value exists')
            fn = os.path.join(tmp, 'm%d' % k)
            x.save(fn)
            y = MeasurementCovariance(MeasurementLikelihood(perm))
            m.call('MeasurementCovariance.load', y.load, fn)
            c3, v3 = y.get(force=False)
            m.close(np.atleast_1d(c3), np.atleast_1d(cen)[idx], 'save:exp:order', 'reloaded central values do not belong to the observables', rtol=1e-14, saved=obs, loaded=perm)
            m.close(np.atleast_2d(v3), np.atleast_2d(cov)[np.ix_(idx, idx)], 'save:exp:order', 'reloaded covariance does not belong to the observables', rtol=1e-14, saved=obs, loaded=perm)
            for nm in meas:
                Measurement.del_instance(nm)
            for o in obs:
                Observable.del_instance(o if isinstance(o, str) else o[0])
            Observable.del_instance('verif sobs other')
            m.event('save', (seed, k))
    finally:
        shutil.rmtree(tmp)


def jobs(tier, seed):
    f = 1 if tier == 'quick' else 15
    return (split_jobs('threads', threads, 24 * f, 4, seed=seed) + split_jobs('budget', budget, 16 * f, 4, seed=seed) + split_jobs('uncertainty', uncertainty, 60 * f, 4, seed=seed) + split_jobs('covariance', covariance, 60 * f, 5, seed=seed)
            + split_jobs('linear', linear, 40 * f, 2, seed=seed) + split_jobs('save', save, 60 * f, 2, seed=seed))
