"""P06: constraint containers follow their model under every history."""
import math
import pickle
import warnings
import numpy as np
from lib.util import logu, sgn, random_corr, split_jobs, norm_pdf
from lib.mon import CodeRaised

RULE = ('random histories of add / replace / remove / set (text, dictionary) / copy / failing operations on parameter, measurement and generic containers; '
        'after every operation the full report of the container (members, central values, errors, log-probabilities with every kind of exclusion) is judged '
        'against a reference model holding the raw numbers; distinct by (operation kinds, state shape); non-trivial when the container is not empty')
ASSUMPTIONS = ['one distribution object is used for one constraint only', 'a list of parameters of one constraint has no repeated entries']
MIN = {'state': 1500, 'draws': 30, 'failing': 200, 'copy': 100}


# ---- raw model of one constraint ------------------------------------------
class Uni:
    d = 1

    def __init__(self, rng):
        self.kind = str(rng.choice(['normal', 'asym', 'delta', 'uniform', 'halfnormal', 'gul']))
        s = logu(rng, 1e-3, 1e3)
        self.c = float(rng.normal() * s * 3)
        self.a, self.b = logu(rng, .3, 3) * s, logu(rng, .3, 3) * s

    def build(self):
        import flavio.statistics.probability as p
        return {'normal': lambda: p.NormalDistribution(self.c, self.a),
                'asym': lambda: p.AsymmetricNormalDistribution(self.c, self.a, self.b),
                'delta': lambda: p.DeltaDistribution(self.c),
                'uniform': lambda: p.UniformDistribution(self.c, self.a),
                'halfnormal': lambda: p.HalfNormalDistribution(self.c, self.a),
                'gul': lambda: p.GaussianUpperLimit(self.a, 0.9)}[self.kind]()

    def central(self, i):
        return 0. if self.kind == 'gul' else self.c

    def sig(self):
        from scipy.stats import norm
        return self.a / norm.ppf(0.95)

    def errors(self, i):
        q = 0.6826894921370859
        g = 0.4753 if 0 else None
        return {'normal': (self.a, self.a), 'asym': (self.a, self.b), 'delta': (0, 0),
                'uniform': (q * self.a, q * self.a), 'halfnormal': (self.a, 0), 'gul': (self.sig(), 0)}[self.kind]

    def logpdf(self, x, keep):
        x = x[0]
        k = self.kind
        ln = lambda z, s: -0.5 * (z / s)**2 - math.log(s * math.sqrt(2 * math.pi))
        with np.errstate(all='ignore'):
            if k == 'normal':
                return ln(x - self.c, self.a)
            if k == 'asym':
                return -0.5 * ((x - self.c) / (self.a if x > self.c else self.b))**2 + math.log(math.sqrt(2 / math.pi) / (self.a + self.b))
            if k == 'delta':
                return 0. if x == self.c else -math.inf
            if k == 'uniform':
                return -math.log(2 * self.a) if abs(x - self.c) <= self.a else -math.inf
            if k == 'halfnormal':
                return ln(x - self.c, self.a) + math.log(2) if (x - self.c) * self.a >= 0 else -math.inf
            return ln(x, self.sig()) + math.log(2) if x >= 0 else -math.inf

    def delta(self, x, keep):
        return self.logpdf(x, keep) - self.logpdf([self.central(0)], keep)

    def near(self, rng):
        if self.kind == 'delta':
            return [self.c if rng.random() < 0.7 else self.c + 1.]
        if self.kind == 'gul':
            return [float(rng.normal() * self.a)]
        return [self.c + float(rng.normal() * self.a * 0.7)]

    def moments(self):
        if self.kind == 'normal':
            return np.array([self.c]), np.array([[self.a**2]])
        if self.kind == 'delta':
            return np.array([self.c]), np.array([[0.]])
        if self.kind == 'uniform':
            return np.array([self.c]), np.array([[self.a**2 / 3]])
        if self.kind == 'asym':
            a, b = self.a, self.b
            mu = math.sqrt(2 / math.pi) * (a - b)
            return np.array([self.c + mu]), np.array([[a * a - a * b + b * b - mu * mu]])
        if self.kind == 'halfnormal':
            return np.array([self.c + self.a * math.sqrt(2 / math.pi)]), np.array([[self.a**2 * (1 - 2 / math.pi)]])
        s = self.sig()
        return np.array([s * math.sqrt(2 / math.pi)]), np.array([[s**2 * (1 - 2 / math.pi)]])


class Multi:
    def __init__(self, rng):
        self.kind = 'mvn'
        self.d = int(rng.integers(2, 5))
        self.c = rng.normal(size=self.d) * 3
        self.s = np.array([logu(rng, .1, 10) for _ in range(self.d)])
        self.rho = random_corr(rng, self.d, 0.8)
        self.cov = self.rho * np.outer(self.s, self.s)

    def build(self):
        import flavio.statistics.probability as p
        return p.MultivariateNormalDistribution(self.c.copy(), covariance=self.cov.copy())

    def central(self, i):
        return float(self.c[i])

    def errors(self, i):
        return (self.s[i], self.s[i])

    def logpdf(self, x, keep):
        k = list(keep)
        C = self.cov[np.ix_(k, k)]
        z = np.asarray(x) - self.c[k]
        return float(-0.5 * z @ np.linalg.solve(C, z) - 0.5 * np.linalg.slogdet(2 * np.pi * C)[1])

    def delta(self, x, keep):
        return self.logpdf(x, keep) - self.logpdf(self.c[list(keep)], keep)

    def near(self, rng):
        return list(self.c + self.s * rng.normal(size=self.d))

    def moments(self):
        return self.c, self.cov


class Other:
    """Any other family: the container must report what the distribution itself says."""

    def __init__(self, rng):
        import flavio.statistics.probability as p
        k = int(rng.integers(5))
        self.kind = 'other%d' % k
        self.d = 2 if k == 4 else 1
        if k == 0:
            x = np.linspace(-1, 2, 60)
            self.dist = p.NumericalDistribution(x, np.exp(-(x - rng.normal() * .3)**2), central_value=0.25)
        elif k == 1:
            self.dist = p.LogNormalDistribution(float(rng.uniform(.5, 3)), 1.5)
        elif k == 2:
            self.dist = p.GammaDistributionPositive(a=float(rng.uniform(1.5, 9)), loc=float(-rng.uniform(0, 1)), scale=float(rng.uniform(.1, 2)))
        elif k == 3:
            self.dist = p.KernelDensityEstimate(rng.normal(size=50), p.NormalDistribution(0, .4))
        else:
            x = np.linspace(-2, 2, 41)
            X, Y = np.meshgrid(x, x, indexing='ij')
            self.dist = p.MultivariateNumericalDistribution((x, x), np.exp(-X**2 - Y**2 - rng.uniform(-1, 1) * X * Y), central_value=np.array([0., 0.]))

    def build(self):
        import copy
        return copy.deepcopy(self.dist)

    def central(self, i):
        return float(np.ravel(self.dist.central_value)[i])

    def errors(self, i):
        return np.ravel(self.dist.error_right)[i], np.ravel(self.dist.error_left)[i]

    def _ev(self, f, x, keep):
        if self.d == 1:
            return f(x[0])
        if len(keep) == 2:
            return f(x)
        return f(x, exclude=tuple(i for i in range(2) if i not in keep))

    def logpdf(self, x, keep):
        return float(np.ravel(self._ev(self.dist.logpdf, x, keep))[0])

    def delta(self, x, keep):
        return float(np.ravel(self._ev(self.dist.delta_logpdf, x, keep))[0])

    def near(self, rng):
        if self.d == 2:
            return [float(v) for v in rng.uniform(-1.5, 1.5, 2)]
        return [float(rng.uniform(.3, 1.8))]

    def moments(self):
        return None, None


class Model:
    def __init__(self):
        self.groups = []   # [raw, names, active, dist object or None]

    def owner(self, name):
        for g in self.groups:
            if name in g[2]:
                return g, g[1].index(name)
        return None

    def remove(self, name):
        for g in self.groups:
            g[2].discard(name)
        self.groups = [g for g in self.groups if g[2]]

    def add(self, names, raw):
        for n in names:
            self.remove(n)
        self.groups.append([raw, list(names), set(names)])

    def copy(self):
        m = Model()
        m.groups = [[g[0], list(g[1]), set(g[2])] for g in self.groups]
        return m

    def names(self):
        return {n for g in self.groups for n in g[2]}


# ---- judging the state ----------------------------------------------------
def judge(m, rng, c, mod, hist, full=True):
    w = dict(history=hist[-14:])
    names = mod.names()
    m.check(set(c.all_parameters) == names and len(c.all_parameters) == len(names), 'members', 'constrained names differ',
            got=sorted(map(str, c.all_parameters)), expected=sorted(map(str, names)), **w)
    if set(c.all_parameters) != names:
        return
    ca = m.call('get_central_all', c.get_central_all)
    if any(g[0].kind == 'other4' for g in mod.groups):
        er = dict.fromkeys(names)   # not implemented for tabulated multivariate distributions
    else:
        er = m.call('get_1d_errors_rightleft', c.get_1d_errors_rightleft)
    m.check(set(ca) == names and set(er) == names, 'members:reports', 'reports cover other names', **w)
    point = {}
    for g in mod.groups:
        x = g[0].near(rng)
        for n, v in zip(g[1], x):
            if n in g[2]:
                point[n] = float(v)
    for n in names:
        g, i = mod.owner(n)
        m.close(ca[n], g[0].central(i), 'central:all', parameter=str(n), **w)
        m.close(c.get_central(n), g[0].central(i), 'central', parameter=str(n), **w)
        m.check(np.ndim(ca[n]) == 0, 'central:scalar', 'central value is not a number', got=ca[n], **w)
        er[n] is None or m.close(er[n], g[0].errors(i), 'errors', rtol=2e-4, parameter=str(n), kind=g[0].kind, **w)
        if g[0].kind != 'delta' or point[n] == g[0].c:
            for dl in (False, True):
                got = m.call('logp_single', c.get_logprobability_single, n, point[n], delta=dl)
                f = g[0].delta if dl else g[0].logpdf
                m.close(got, f([point[n]], [i]), 'logp:single', rtol=1e-6, atol=1e-6, parameter=str(n), delta=dl, kind=g[0].kind, **w)
    # log-probabilities of everything / with exclusions
    ns = sorted(names, key=str)
    for excl in ([], [n for n in ns if rng.random() < 0.4], ns):
        for dl in (False, True):
            par = dict(point)
            for n in excl:
                if rng.random() < 0.5:
                    par.pop(n)
            for n in ('unrelated', 'p0', 'p1'):
                par.setdefault(n, 1.234)
            if rng.random() < 0.6:      # the order of the values is irrelevant
                par = {k: par[k] for k in (list(par)[int(j)] for j in rng.permutation(len(par)))}
            before = dict(par)
            ex = list(excl)
            if rng.random() < 0.5:
                ex = tuple(ex) if rng.random() < 0.5 else set(ex)
            got = m.call('logp_all', c.get_logprobability_all, par, exclude_parameters=ex, delta=dl)
            m.check(par == before and set(ex) == set(excl), 'logp:inputs', 'inputs changed', **w)
            exp = []
            for g in mod.groups:
                keep = [i for i, n in enumerate(g[1]) if n in g[2] and n not in excl]
                if keep:
                    f = g[0].delta if dl else g[0].logpdf
                    exp.append(f([point[g[1][i]] for i in keep], keep))
            g_ = sorted(float(v) for v in got.values())
            m.check(len(g_) == len(exp), 'logp:count', 'number of contributions', got=g_, expected=sorted(exp), excluded=[str(e) for e in excl], **w)
            if len(g_) == len(exp):
                m.close(g_, sorted(exp), 'logp:all', rtol=1e-6, atol=1e-6, excluded=[str(e) for e in excl], delta=dl, **w)
    m.event('state', (tuple(h[0] for h in hist[-3:]), tuple(sorted((g[0].kind, g[0].d, len(g[2])) for g in mod.groups))))


def judge_draws(m, rng, c, mod, hist, N):
    w = dict(history=hist[-14:])
    names = sorted(mod.names(), key=str)
    # two copies draw independently of each other; the same seed gives the same draws
    a, b = c.copy(), c.copy()
    ra, rb = a.get_random_all(size=9), b.get_random_all(size=9)
    for n in names:
        if mod.owner(n)[0][0].kind != 'delta':
            m.check(not np.any(np.ravel(ra[n]) == np.ravel(rb[n])), 'draws:copies', 'two copies give the same draws', parameter=str(n), kind=mod.owner(n)[0][0].kind, **w)
    seed = int(rng.integers(2**31))
    np.random.seed(seed)
    r0 = c.copy().get_random_all(size=9)
    np.random.seed(seed)
    r1 = c.get_random_all(size=9)
    for n in names:
        m.check(np.all(np.ravel(r0[n]) == np.ravel(r1[n])), 'draws:seed', 'copy and original draw differently from the same seed', parameter=str(n), kind=mod.owner(n)[0][0].kind, **w)
    np.random.seed(seed)
    r = m.call('get_random_all', c.get_random_all, size=N)
    one = m.call('get_random_all', c.get_random_all)
    m.check(set(r) == set(names) and set(one) == set(names), 'draws:names', 'draws for other names', **w)
    if set(r) != set(names):
        return
    for n in names:
        m.check(np.shape(one[n]) == () and math.isfinite(float(one[n])), 'draws:single', 'single draw is not a number', got=repr(one[n])[:200], **w)
        m.check(np.shape(r[n]) == (N,), 'draws:shape', 'draws have shape %s' % (np.shape(r[n]),), **w)
    Z = np.zeros((len(names), N))
    for k, n in enumerate(names):
        g, i = mod.owner(n)
        mu, cov = g[0].moments()
        if mu is None:
            lo, hi = np.broadcast_to(np.asarray(g[0].dist.support, float).T, (g[0].d, 2))[i] if g[0].d == 1 else (-2.0501, 2.0501)
            m.check(np.all((np.asarray(r[n]) >= lo) & (np.asarray(r[n]) <= hi)) and np.std(r[n]) > 0 or g[0].kind in ('other1', 'other3', 'other2'), 'draws:range', 'draws outside the domain', kind=g[0].kind, **w)
            x = np.asarray(r[n], float)
            Z[k] = (x - x.mean()) / x.std()
            continue
        sd = math.sqrt(cov[i, i])
        x = np.asarray(r[n], float)
        if sd == 0:
            m.check(np.all(x == mu[i]), 'draws:delta', 'exact value fluctuates', parameter=str(n), **w)
            continue
        z = (x - mu[i]) / sd
        Z[k] = z
        m.check(abs(z.mean()) < 7 / math.sqrt(N), 'draws:mean', 'mean of draws', parameter=str(n), mean_z=z.mean(), N=N, kind=g[0].kind, **w)
        m.check(abs((z**2).mean() - 1) < 7 * 2.5 / math.sqrt(N), 'draws:variance', 'variance of draws', parameter=str(n), var=(z**2).mean(), N=N, kind=g[0].kind, **w)
    for a in range(len(names)):
        for b in range(a):
            ga, ia = mod.owner(names[a])
            gb, ib = mod.owner(names[b])
            if ga is gb and ga[0].kind == 'other4':
                continue
            rho = ga[0].rho[ia, ib] if (ga is gb and ga[0].d > 1) else 0.
            if not (Z[a].any() and Z[b].any()):
                continue
            got = (Z[a] * Z[b]).mean()
            m.check(abs(got - rho) < 7 * 1.5 / math.sqrt(N), 'draws:correlation', 'correlation of draws', parameters=[str(names[a]), str(names[b])],
                    got=got, expected=rho, N=N, **w)
    m.event('draws', (len(names), len(mod.groups)))


# ---- operations -----------------------------------------------------------
PNAMES = ['p%d' % i for i in range(7)] + [('obs', 1.0, 2.0), ('obs', 2.0, 4.0), ('obs', 1), ('other', 0.5)]


def set_spec(rng):
    """-> (raw, kwargs) for set_constraint"""
    raw = Uni(rng)
    k = str(rng.choice(['normal', 'asym', 'delta', 'uniform', 'sum']))
    raw.c = round(float(rng.normal() * 3), 4)
    raw.a, raw.b = round(logu(rng, .1, 5), 3), round(logu(rng, .1, 5), 3)
    text = rng.random() < 0.5
    if k == 'sum':
        raw.kind = 'normal'
        a, b = raw.a, raw.b
        raw.a = math.hypot(a, b)
        if text:
            return raw, {'constraint_string': '%r ± %r +- %r' % (raw.c, a, b)}
        return raw, {'constraint_dict': [{'distribution': 'normal', 'central_value': raw.c, 'standard_deviation': a},
                                         {'distribution': 'normal', 'central_value': raw.c, 'standard_deviation': b}]}
    raw.kind = k
    if text:
        return raw, {'constraint_string': {'normal': '%r ± %r' % (raw.c, raw.a), 'asym': '%r + %r - %r' % (raw.c, raw.a, raw.b), 'delta': '%r' % raw.c,
                                           'uniform': '[%r, %r]' % (raw.c - raw.a, raw.c + raw.a)}[k]}
    return raw, {'constraint_dict': {'normal': {'distribution': 'normal', 'central_value': raw.c, 'standard_deviation': raw.a},
                                     'asym': {'distribution': 'asymmetric_normal', 'central_value': raw.c, 'right_deviation': raw.a, 'left_deviation': raw.b},
                                     'delta': {'distribution': 'delta', 'central_value': raw.c},
                                     'uniform': {'distribution': 'uniform', 'central_value': raw.c, 'half_range': raw.a}}[k]}


def fail(m, rng, c, names, hist):
    n = names[int(rng.integers(len(names)))]
    k = int(rng.integers(8))
    bad = [lambda: m.raises(ValueError, 'fail', c.set_constraint, n, 'garbage'),
           lambda: m.raises(ValueError, 'fail', c.set_constraint, n, '1 ± -2'),
           lambda: m.raises(ValueError, 'fail', c.set_constraint, n, '1 ± 1', {'distribution': 'delta', 'central_value': 1}),
           lambda: m.raises(TypeError, 'fail', c.set_constraint, n),
           lambda: m.raises(Exception, 'fail', c.set_constraint, n, constraint_dict={'distribution': 'no_such_distribution', 'central_value': 1}),
           lambda: m.raises(Exception, 'fail', c.set_constraint, n, constraint_dict={'distribution': 'normal', 'central_value': 1, 'standard_deviation': -1}),
           lambda: m.raises(ValueError, 'fail', c.get_central, 'never constrained'),
           lambda: m.raises(KeyError, 'fail', c.get_logprobability_single, 'never constrained', 1.)]
    bad[k]()
    hist.append(('fail', k))
    m.event('failing', k)


def histories(m, rng, n, length):
    import flavio
    from flavio.classes import Constraints, ParameterConstraints, Measurement, WilsonCoefficientPriors, Parameter
    for case in range(n):
        kind = int(rng.integers(4))
        mk = [Constraints, ParameterConstraints, WilsonCoefficientPriors, lambda: Measurement('P06 %s %d' % (m.name, case))][kind]
        objs = [(mk(), Model())]
        hist = []
        for step in range(int(rng.integers(3, length))):
            i = int(rng.integers(len(objs)))
            c, mod = objs[i]
            r = rng.random()
            try:
                if r < 0.36:
                    u = rng.random()
                    raw = Uni(rng) if u < 0.4 else Other(rng) if u < 0.55 else Multi(rng)
                    idx = rng.choice(len(PNAMES), raw.d, replace=False)
                    names = [PNAMES[j] for j in idx]
                    arg = list(names) if rng.random() < 0.7 else tuple(names)
                    kw = {}
                    if kind == 1 and rng.random() < 0.5 and all(isinstance(x, str) for x in names):
                        kw = {'is_parameter_constraint': True}
                    hist.append(('add', i, [str(x) for x in names], raw.kind))
                    m.call('add_constraint', c.add_constraint, arg, raw.build(), **kw)
                    mod.add(names, raw)
                    if isinstance(arg, list) and rng.random() < 0.5:
                        arg.clear()     # the caller's list is the caller's
                elif r < 0.56:
                    nm = PNAMES[int(rng.integers(len(PNAMES)))]
                    raw, kw = set_spec(rng)
                    before = repr(kw)
                    hist.append(('set', i, str(nm), before))
                    m.call('set_constraint', c.set_constraint, nm, **kw)
                    m.check(repr(kw) == before, 'set:inputs', 'specification changed', spec=before)
                    mod.add([nm], raw)
                elif r < 0.70:
                    nm = PNAMES[int(rng.integers(len(PNAMES)))]
                    hist.append(('remove', i, str(nm)))
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        m.call('remove_constraint', c.remove_constraint if rng.random() < 0.8 else c.remove_constraints, nm)
                    mod.remove(nm)
                elif r < 0.82:
                    if len(objs) < 4:
                        hist.append(('copy', i))
                        objs.append((m.call('copy', c.copy), mod.copy()))
                        m.check(type(objs[-1][0]) is type(c), 'copy:type', 'copy has another type')
                        m.event('copy', len(mod.groups))
                else:
                    fail(m, rng, c, PNAMES, hist)
                for c2, mod2 in objs:
                    judge(m, rng, c2, mod2, hist)
            except CodeRaised:
                return
        if case < 1:
            m.sample([list(map(str, h)) for h in hist[:6]])
        for c2, mod2 in objs[-2:]:
            if mod2.groups:
                try:
                    judge_draws(m, rng, c2, mod2, hist, 4000)
                except CodeRaised:
                    return


def defaults(m, rng, n):
    """Copies of the shipped parameter set under replacement of members."""
    import flavio
    base = flavio.default_parameters
    snap = dict(base.get_central_all())
    for case in range(n):
        c = base.copy()
        names = list(snap)
        groups = [(d, p) for d, p in c._constraints if len(p) > 1]
        d, plist = groups[int(rng.integers(len(groups)))]
        act = [p for i, p in enumerate(plist) if c._parameters.get(p) == (i, d)]
        if len(act) < 2:
            continue
        old = c.get_1d_errors_rightleft()
        x = act[int(rng.integers(len(act)))]
        v = float(rng.normal())
        if rng.random() < 0.5:
            c.set_constraint(x, '%r ± 0.25' % v)
            expect = 0.25
        else:
            c.set_constraint(x, repr(v))
            expect = 0.
        ca = c.get_central_all()
        er = c.get_1d_errors_rightleft()
        for p in names:
            if p == x:
                m.close(ca[p], v, 'defaults:replaced', parameter=p)
                m.close(er[p], (expect, expect), 'defaults:replaced-error', parameter=p)
            else:
                if ca[p] != snap[p] or er[p] != old[p]:
                    m.violate('defaults:others', 'another parameter changed', parameter=p, replaced=x)
        N = 300
        np.random.seed(int(rng.integers(2**31)))
        r = c.get_random_all(size=N)
        z = (np.asarray(r[x]) - v)
        m.check(abs(z.mean()) <= 7 * expect / math.sqrt(N) and abs(z.std() - expect) <= 7 * expect / math.sqrt(N), 'defaults:draws', 'draws of the replaced parameter', parameter=x)
        for p in act:
            if p != x:
                i = plist.index(p)
                s = math.sqrt(d.covariance[i, i])
                y = (np.asarray(r[p]) - d.central_value[i]) / s
                m.check(abs(y.mean()) < 7 / math.sqrt(N) and abs(y.std() - 1) < 7 / math.sqrt(N), 'defaults:marginal', 'marginal of a remaining member', parameter=p, replaced=x)
        m.check(base.get_central_all() == snap, 'defaults:base', 'the default parameters changed')
        m.event('state', ('defaults', x))


def jobs(tier, seed):
    t = tier == 'thorough'
    return (split_jobs('hist', histories, 20000 if t else 900, 14, length=18) + split_jobs('long', histories, 1600 if t else 48, 8, length=60)
            + split_jobs('defaults', defaults, 200 if t else 16, 8))
