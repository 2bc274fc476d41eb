"""P21: fast likelihoods."""
import math
import os
import shutil
import tempfile
import warnings
import numpy as np
from lib import npwc
from lib.util import split_jobs, random_corr

RULE = ('fast likelihoods of random sets of synthetic observables with random (correlated, overlapping, partially measured) Gaussian and other measurements and random parameter distributions: mean and covariance of the pseudo-measurement against '
        'independent Gaussian algebra, values against the Gaussian density, options and file round trips; distinct by (world, options)')
ASSUMPTIONS = ['statistical comparisons allow 6.5 standard deviations of the sampling error for the number of random values requested', 'measurements of several families are represented by mean and covariance of their probability distribution, as documented']
MIN = {'combination': 60, 'sum': 60, 'value': 300, 'options': 60, 'files': 60, 'shipped': 3}
K = [0]


class W:
    def __init__(self, rng, gauss=True):
        from flavio.classes import Observable, Prediction, ParameterConstraints, Measurement
        from flavio.statistics import probability as P
        K[0] += 1
        t = self.t = 'verif fl%d' % K[0]
        self.pars = ['%s p%d' % (t, i) for i in range(5)]
        self.po = ParameterConstraints()
        s = np.exp(rng.normal(size=3)) * .5
        self.S = np.zeros((5, 5))
        self.S[:3, :3] = random_corr(rng, 3) * np.outer(s, s)
        self.mean = rng.normal(size=5)
        self.po.add_constraint(self.pars[:3], P.MultivariateNormalDistribution(self.mean[:3], self.S[:3, :3]))
        for i in (3, 4):
            e = math.exp(rng.normal()) * .5
            self.S[i, i] = e**2
            self.po.add_constraint([self.pars[i]], P.NormalDistribution(self.mean[i], e))
        # parameters of the mixing matrix used in the conversion of Wilson objects
        for q, v in (('Vus', .22), ('Vcb', .04), ('Vub', .004), ('gamma', 1.2)):
            self.po.add_constraint([q], P.DeltaDistribution(v))
        self.n = n = int(rng.integers(1, 6))
        self.A = rng.normal(size=(n, 5))
        self.c = rng.normal(size=n)
        self.obs = []
        for j in range(n):
            nm = '%s o%d' % (t, j)

            def g(wc, par, j=j):
                v = sum(self.A[j, i] * par[p] for i, p in enumerate(self.pars))
                if wc is not None:
                    v += self.c[j] * wc.get_wc('sb', 4.8, par)['C9_bsmumu'].real
                return v
            if rng.random() < .4:
                Observable(nm, arguments=['q2'])
                Prediction(nm, lambda wc, par, q2, g=g: g(wc, par) * q2 / 2.)
                self.obs.append((nm, 2.))
            else:
                Observable(nm)
                Prediction(nm, lambda wc, par, g=g: g(wc, par))
                self.obs.append(nm)
        # measurements: list of (name, [(indices, mean, covariance)])
        self.meas = {}
        for k in range(int(rng.integers(1, 5))):
            nm = '%s m%d' % (t, k)
            M = Measurement(nm)
            left = [int(i) for i in rng.permutation(n)]
            if k and n > 1:
                left = left[:int(rng.integers(1, n + 1))]
            cons = []
            while left:
                d = min(int(rng.integers(1, 4)), len(left))
                idx = [left.pop() for _ in range(d)]
                if d == 1:
                    c, e, f = rng.normal(), math.exp(rng.normal()), math.exp(rng.normal())
                    typ = 'normal' if gauss else str(rng.choice(['normal', 'half', 'uniform']))
                    if typ == 'normal':
                        M.add_constraint([self.obs[idx[0]]], P.NormalDistribution(c, e))
                        cons.append((idx, np.array([c]), np.array([[e**2]])))
                    elif typ == 'half':
                        M.add_constraint([self.obs[idx[0]]], P.HalfNormalDistribution(c, e))
                        cons.append((idx, np.array([c + e * math.sqrt(2 / math.pi)]), np.array([[e**2 * (1 - 2 / math.pi)]])))
                    else:
                        M.add_constraint([self.obs[idx[0]]], P.UniformDistribution(c, e))
                        cons.append((idx, np.array([c]), np.array([[e**2 / 3]])))
                else:
                    # possibly together with an observable that is not part of the likelihood
                    extra = rng.random() < .3
                    s = np.exp(rng.normal(size=d + extra))
                    C = random_corr(rng, d + extra) * np.outer(s, s)
                    mu = rng.normal(size=d + extra)
                    oo = [self.obs[i] for i in idx]
                    if extra:
                        oo.append(t + ' aux')
                        if t + ' aux' not in Observable.instances:
                            Observable(t + ' aux')
                        if any(t + ' aux' in (o for o in M.all_parameters) for _ in [0]):
                            oo.pop()
                            extra = False
                            mu, C = mu[:d], C[:d, :d]
                    M.add_constraint(oo, P.MultivariateNormalDistribution(mu, C))
                    cons.append((idx, mu[:d], C[:d, :d]))
            self.meas[nm] = cons

    def exp(self, names, sel):
        """mean and covariance of the combination of the measurements for the observables sel"""
        pos = {j: i for i, j in enumerate(sel)}
        H = np.zeros((len(sel), len(sel)))
        b = np.zeros(len(sel))
        for nm in names:
            for idx, mu, C in self.meas[nm]:
                k = [i for i, j in enumerate(idx) if j in pos]
                if not k:
                    continue
                p = [pos[idx[i]] for i in k]
                w = np.linalg.inv(C[np.ix_(k, k)])
                H[np.ix_(p, p)] += w
                b[p] += w @ mu[k]
        V = np.linalg.inv(H)
        return V @ b, V

    def clean(self):
        from flavio.classes import Observable, Measurement
        for nm in [x for x in Measurement.instances if self.t in x]:
            Measurement.del_instance(nm)
        for nm in [x for x in Observable.instances if x.startswith(self.t)]:
            Observable.del_instance(nm)


def select(w, rng):
    names = sorted(w.meas)
    kw = {}
    use = set(names)
    if rng.random() < .5 and len(names) > 1:
        sub = [x for x in names if rng.random() < .5]
        if sub and len(sub) < len(names):
            if rng.random() < .5:
                kw, use = {'include_measurements': sub}, set(sub)
            else:
                kw, use = {'exclude_measurements': sub}, set(names) - set(sub)
    measured = {j for x in use for idx, _, _ in w.meas[x] for j in idx}
    sel = [int(j) for j in rng.permutation(w.n) if int(j) in measured]
    sel = sel[:int(rng.integers(1, len(sel) + 1))]
    return sel, kw, sorted(use)


def close_stat(m, got, exp, err, sig, msg, **w):
    got, exp, err = np.atleast_1d(got), np.atleast_1d(exp), np.atleast_1d(err)
    if not m.check(got.shape == exp.shape, sig, msg + ' [shape]', got=got, expected=exp):
        return
    m.check(np.all(abs(got - exp) <= 6.5 * err + 1e-9 * abs(exp)), sig, msg, got=got, expected=exp, tolerance=6.5 * err, **w)


def synthetic(m, rng, n, seed):
    import flavio
    from flavio.statistics.likelihood import FastLikelihood
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp()
    for k in range(n):
        w = W(rng, gauss=k % 3 != 0)
        try:
            sel, kw, names = select(w, rng)
            obs = [w.obs[j] for j in sel]
            nuis = 'all' if rng.random() < .4 else [p for p in w.pars if rng.random() < .6]
            fit = [p for p in w.pars if nuis != 'all' and p not in nuis][:2]
            nm = w.t + ' fast'
            fl = m.call('FastLikelihood', FastLikelihood, nm, par_obj=w.po, fit_parameters=fit, nuisance_parameters=nuis, observables=obs, **kw)
            m.raises(ValueError, 'not made', fl.log_likelihood, {}, None)
            N, Nexp = int(rng.choice([60, 200])), int(rng.choice([4000, 8000]))
            np.random.seed(int(rng.integers(2**31)))
            m.call('make_measurement', fl.make_measurement, N=N, Nexp=Nexp, threads=int(rng.choice([1, 1, 2])))
            mean, cov = w.exp(names, sel)
            c, V = fl.exp_covariance.get(force=False)
            c, V = np.atleast_1d(c), np.atleast_2d(V)
            # sampling error of the combination
            sd = np.sqrt(np.diag(cov))
            q = sum(len(w.meas[x]) for x in names) + 1
            close_stat(m, c, mean, sd * math.sqrt(q / Nexp) * 2, 'combination:mean', 'mean is not the combination of the measurements', obs=obs, kw=kw)
            close_stat(m, V, cov, np.outer(sd, sd) * math.sqrt(2. / Nexp) * 2.5, 'combination:covariance', 'covariance is not that of the combination of the measurements', obs=obs, kw=kw)
            m.event('combination', (seed, k))
            A = w.A[sel]
            T = w.S.copy()
            if nuis != 'all':
                off = [i for i, p in enumerate(w.pars) if p not in nuis]
                T[off, :] = 0
                T[:, off] = 0
            th = A @ T @ A.T
            S = np.atleast_2d(fl.sm_covariance.get(force=False))
            ts = np.sqrt(np.diag(th))
            close_stat(m, S, th, np.outer(ts, ts) * math.sqrt(2. / N) + 1e-12, 'theory', 'theory covariance is not that of the nuisance parameters', nuisance=nuis)
            # the pseudo-measurement
            pm = fl.pseudo_measurement
            m.check(pm.name in flavio.Measurement.instances and flavio.Measurement[pm.name] is pm, 'registered', 'pseudo-measurement not registered')
            m.check(list(pm.all_parameters) == list(obs) and len(pm._constraints) == 1, 'observables', 'pseudo-measurement is not for the observables of the likelihood', got=list(pm.all_parameters), expected=obs)
            d = pm._constraints[0][0]
            pc, pV = np.atleast_1d(d.central_value), np.atleast_2d(d.covariance if hasattr(d, 'covariance') else d.standard_deviation**2)
            m.close(pc, c, 'sum:mean', 'mean of the pseudo-measurement is not the experimental one', rtol=1e-12)
            m.close(pV, V + S, 'sum:covariance', 'covariance is not the sum of experimental and theoretical covariance', rtol=1e-10)
            m.event('sum', (seed, k))
            # values
            pts = []
            for _ in range(6):
                par = dict({p: float(w.mean[i] + rng.normal()) for i, p in enumerate(w.pars)}, Vus=.22, Vcb=.04, Vub=.004, gamma=1.2)
                v = float(rng.choice([0, -1., -2., .7]))
                wc = flavio.WilsonCoefficients()
                if v:
                    wc.set_initial({'C9_bsmumu': v}, 4.8)
                pred = np.array([w.A[j] @ [par[p] for p in w.pars] + w.c[j] * v for j in sel])
                z = pred - pc
                chi = z @ np.linalg.solve(pV, z)
                norm = -.5 * np.linalg.slogdet(pV)[1] - len(sel) / 2 * math.log(2 * math.pi)
                ll = float(np.ravel(m.call('log_likelihood', fl.log_likelihood, par, wc))[0])
                m.close(ll, -chi / 2 + norm, 'value', 'not the Gaussian log-density of the pseudo-measurement at the predictions', rtol=1e-7, atol=1e-6, par=par, C9=v)
                dl = float(np.ravel(m.call('log_likelihood', fl.log_likelihood, par, wc, delta=True))[0])
                m.close(dl, -chi / 2, 'value:delta', 'not minus half of chi-squared', rtol=1e-7, atol=1e-6, par=par, C9=v)
                if len(sel) > 1:
                    ex = obs[:int(rng.integers(1, len(obs)))]
                    keep = [i for i, o in enumerate(obs) if o not in ex]
                    z = z[keep]
                    chi = z @ np.linalg.solve(pV[np.ix_(keep, keep)], z)
                    dl2 = float(np.ravel(m.call('log_likelihood', fl.log_likelihood, par, wc, exclude_observables=ex, delta=True))[0])
                    m.close(dl2, -chi / 2, 'value:exclude', 'not minus half of chi-squared without the excluded observables', rtol=1e-7, atol=1e-6, exclude=ex)
                m.event('value', (seed, k, _))
                pts.append((par, wc, ll))
            # the full likelihood does not see the pseudo-measurement
            m.check(pm.name not in fl.full_measurement_likelihood.get_measurements, 'double counting', 'the full likelihood contains the pseudo-measurement')
            m.check(set(fl.full_measurement_likelihood.get_measurements) == {x for x in names if any(j in sel for idx, _, _ in w.meas[x] for j in idx)}, 'measurements', 'full likelihood does not have the selected measurements')
            # options: nothing is recomputed unless requested
            m.call('make_measurement', fl.make_measurement, N=100, Nexp=5000)
            c1, V1 = fl.exp_covariance.get(force=False)
            S1 = np.atleast_2d(fl.sm_covariance.get(force=False))
            m.check(np.array_equal(np.atleast_1d(c1), c) and np.array_equal(np.atleast_2d(V1), V) and np.array_equal(S1, S), 'options:cache', 'recomputed without being asked to')
            for par, wc, ll in pts[:2]:
                m.close(float(np.ravel(fl.log_likelihood(par, wc))[0]), ll, 'options:repeat', 'repeating make_measurement changed the likelihood', rtol=1e-12)
            fn, fx = os.path.join(tmp, 'sm%d' % k), os.path.join(tmp, 'exp%d' % k)
            fl.sm_covariance.save(fn)
            fl.exp_covariance.save(fx)
            if rng.random() < .5:
                fl.make_measurement(N=30, force=True)
                S2 = np.atleast_2d(fl.sm_covariance.get(force=False))
                m.check((nuis != 'all' and not nuis) or not np.array_equal(S2, S), 'options:force', 'theory covariance not recomputed')
                m.check(np.array_equal(np.atleast_1d(fl.exp_covariance.get(force=False)[0]), c), 'options:force', 'experimental covariance recomputed')
            else:
                fl.make_measurement(Nexp=100, force_exp=True)
                m.check(not np.array_equal(np.atleast_1d(fl.exp_covariance.get(force=False)[0]), c), 'options:force_exp', 'experimental covariance not recomputed')
                m.check(np.array_equal(np.atleast_2d(fl.sm_covariance.get(force=False)), S), 'options:force_exp', 'theory covariance recomputed')
            m.event('options', (seed, k))
            FastLikelihood.del_instance(nm)
            # reload, with the observables in another order, possibly fewer of them
            perm = [int(i) for i in rng.permutation(len(obs))]
            if rng.random() < .4:
                perm = perm[:int(rng.integers(1, len(perm) + 1))]
            f2 = FastLikelihood(nm + ' 2', par_obj=w.po, fit_parameters=fit, nuisance_parameters=nuis, observables=[obs[i] for i in perm], **kw)
            f2.sm_covariance.load(fn)
            f2.exp_covariance.load(fx)
            m.call('make_measurement:loaded', f2.make_measurement)
            d = f2.pseudo_measurement._constraints[0][0]
            m.close(np.atleast_1d(d.central_value), c[perm], 'files:mean', 'reloaded pseudo-measurement differs', rtol=1e-12, perm=perm)
            m.close(np.atleast_2d(d.covariance if hasattr(d, 'covariance') else d.standard_deviation**2), (V + S)[np.ix_(perm, perm)], 'files:covariance', 'reloaded pseudo-measurement differs', rtol=1e-10, perm=perm)
            if len(perm) == len(obs):
                for par, wc, ll in pts:
                    m.close(float(np.ravel(m.call('log_likelihood:loaded', f2.log_likelihood, par, wc))[0]), ll, 'files:value', 'reloaded likelihood differs', rtol=1e-9, atol=1e-8)
            else:
                m.call('log_likelihood:loaded', f2.log_likelihood, *pts[0][:2])
            FastLikelihood.del_instance(nm + ' 2')
            m.event('files', (seed, k))
        finally:
            w.clean()
    shutil.rmtree(tmp)


def shipped(m, rng, n, seed):
    """With shipped observables and measurements the covariances are those of the predictions."""
    import flavio
    from flavio.statistics.likelihood import FastLikelihood
    from checks.p20 import Draws
    warnings.simplefilter('ignore')
    pool = ['BR(Bs->mumu)', 'DeltaM_s', 'DeltaM_d', 'S_psiK', 'BR(B->Xsgamma)', 'BR(B+->taunu)', 'eps_K', 'BR(K+->munu)']
    for k in range(n):
        obs = [pool[i] for i in rng.permutation(len(pool))[:int(rng.integers(2, 5))]]
        nm = 'verif shipped %d %d' % (seed, k)
        fl = FastLikelihood(nm, observables=obs)
        with Draws() as d:
            m.call('make_measurement', fl.make_measurement, N=15, Nexp=4000)
        pts = d.points(flavio.default_parameters)
        wc = flavio.WilsonCoefficients()
        pred = np.array([[float(flavio.Observable[o].prediction_par(p, wc)) for o in obs] for p in pts])
        S = fl.sm_covariance.get(force=False)
        E = np.cov(pred.T)
        s = np.sqrt(np.diag(E))
        m.check(len(pts) == 15 and np.all(abs(S - E) <= 1e-6 * np.outer(s, s)), 'shipped:theory', 'not the covariance of the predictions for the parameters drawn', obs=obs)
        c, V = fl.exp_covariance.get(force=False)
        dd = fl.pseudo_measurement._constraints[0][0]
        m.close(np.asarray(dd.covariance) / np.outer(s, s), (V + S) / np.outer(s, s), 'shipped:sum', 'not the sum of experimental and theoretical covariance', rtol=1e-9, atol=1e-9)
        par = flavio.default_parameters.get_central_all()
        wc = npwc.wet(rng, amount=.2)
        z = np.array([float(flavio.np_prediction(o, wc)) for o in obs]) - c
        e = np.sqrt(np.diag(V + S))
        chi = (z / e) @ np.linalg.solve((V + S) / np.outer(e, e), z / e)
        m.close(float(np.ravel(fl.log_likelihood(par, wc, delta=True))[0]), -chi / 2, 'shipped:value', 'not minus half of chi-squared', rtol=1e-6, atol=1e-5, obs=obs)
        flavio.Measurement.del_instance(fl.pseudo_measurement.name)
        FastLikelihood.del_instance(nm)
        m.event('shipped', (seed, k))


def jobs(tier, seed):
    f = 1 if tier == 'quick' else 15
    return split_jobs('shipped', shipped, 6 * f, 3, seed=seed) + split_jobs('synthetic', synthetic, 120 * f, 6, seed=seed)
