"""P04: serialisation round trips preserve meaning and never mutate."""
import copy
import io
import json
import os
import shutil
import tempfile
import warnings
import numpy as np
import yaml
from lib.util import logu, sgn, split_jobs, random_corr
from lib.mon import CodeRaised

RULE = ('random instances of every distribution class with Python and numpy argument types, random containers of parameters and measurements '
        'after random histories, and all shipped parameters and measurements; distinct by content; non-trivial when a text or dictionary form was read back and compared')
ASSUMPTIONS = ['objects are compared by class, arguments, central values, errors, support, log-densities at probe points and draws from the same random state']
MIN = {'dist': 300, 'container': 60, 'measurement': 60, 'shipped': 200}


def P():
    import flavio.statistics.probability as p
    return p


def num(rng, v):
    """One of the ways a user holds a real number."""
    k = int(rng.integers(4))
    v = float(v)
    if k == 0:
        return np.float64(v)
    if k == 1 and abs(v) < 1e6 and rng.random() < 0.5:
        return int(round(v)) if round(v) != 0 else v
    return v


def integer(rng, v):
    return np.int64(v) if rng.random() < 0.4 else int(v) if rng.random() < 0.6 else float(v)


def seq(rng, a):
    a = np.asarray(a)
    k = int(rng.integers(4))
    if k == 0:
        return a.tolist()
    if k == 1:
        return tuple(a.tolist()) if a.ndim == 1 else a
    if k == 2 and a.ndim == 2:
        return [np.array(r) for r in a]
    if k == 2 and a.ndim == 1:
        return [np.float64(x) for x in a]
    return a


def gen(rng, cname):
    u = lambda a, b: float(rng.uniform(a, b))
    s = logu(rng, 1e-9, 1e4)
    c = sgn(rng) * s * logu(rng, 1e-3, 1e3)
    if cname == 'UniformDistribution':
        return dict(central_value=num(rng, c), half_range=num(rng, s))
    if cname == 'DiscreteUniformDistribution':
        a = int(rng.integers(-20, 20))
        b = a + int(rng.integers(0, 30))
        d = dict(lowest_value=integer(rng, a), highest_value=integer(rng, b))
        if rng.random() < 0.6:
            d['central_value'] = integer(rng, rng.integers(a, b + 1))
        return d
    if cname == 'DeltaDistribution':
        return dict(central_value=num(rng, c))
    if cname == 'NormalDistribution':
        return dict(central_value=num(rng, c), standard_deviation=num(rng, s))
    if cname == 'LogNormalDistribution':
        return dict(central_value=num(rng, c), factor=1 + logu(rng, 1e-2, 3) if rng.random() < 0.8 else 2)
    if cname == 'AsymmetricNormalDistribution':
        return dict(central_value=num(rng, c), right_deviation=num(rng, s), left_deviation=num(rng, s * logu(rng, 0.1, 10)))
    if cname == 'HalfNormalDistribution':
        return dict(central_value=num(rng, c), standard_deviation=num(rng, sgn(rng) * s))
    if cname == 'GaussianUpperLimit':
        return dict(limit=num(rng, s), confidence_level=u(0.3, 0.99) if rng.random() < 0.8 else 0.9)
    if cname in ('GammaDistribution', 'GammaDistributionPositive', 'GeneralGammaDistributionPositive'):
        sc = s
        d = dict(a=num(rng, 1 + logu(rng, 0.1, 50)), loc=-sc * u(0, 3) * (rng.random() < 0.8), scale=sc)
        if cname == 'GeneralGammaDistributionPositive':
            d['gaussian_standard_deviation'] = num(rng, u(0.0, 5)) if rng.random() < 0.7 else u(0, 0.01)
        return d
    if cname in ('GammaCountingProcess', 'GammaUpperLimit', 'GeneralGammaCountingProcess', 'GeneralGammaUpperLimit'):
        tot = float(rng.integers(0, 40))
        bg = u(0, 40) if rng.random() < 0.6 else float(rng.integers(0, 40))
        if rng.random() < 0.4:
            bg = round(bg, 1)
        k = int(rng.integers(3))
        bg = min(bg, tot + 2 * np.sqrt(tot + 1))    # not an absurd downward fluctuation
        general = cname.startswith('General')
        if general:
            tot, bg = tot + 3, min(bg, 30.)
        kw = [dict(counts_total=integer(rng, tot), counts_background=num(rng, bg)),
              dict(counts_total=integer(rng, tot), counts_signal=tot - bg),
              dict(counts_background=num(rng, bg), counts_signal=num(rng, tot - bg) if tot - bg > 0 else tot - bg)][k]
        if k == 2 and kw['counts_background'] + kw['counts_signal'] < 0:
            kw['counts_signal'] = -kw['counts_background']
        if 'UpperLimit' in cname:
            kw.update(limit=num(rng, s), confidence_level=u(0.5, 0.97))
        else:
            kw.update(scale_factor=num(rng, s))
        if general:
            sd = u(0.2, 5) if rng.random() < 0.7 else u(0, 0.02)
            if 'UpperLimit' in cname and rng.random() < 0.4:
                kw['background_variance'] = num(rng, sd)
            else:
                kw['background_std'] = num(rng, sd)
        return kw
    if cname == 'NumericalDistribution':
        n = int(rng.integers(5, 60))
        x = c + s * np.sort(rng.uniform(-3, 3, n)) if rng.random() < 0.5 else np.linspace(c - 3 * s, c + 3 * s, n)
        x = np.unique(x)
        y = rng.uniform(0.05, 1, len(x)) * np.exp(-((x - c) / s)**2)
        d = dict(x=seq(rng, x), y=seq(rng, y))
        if rng.random() < 0.5:
            d['central_value'] = float(rng.uniform(x[0], x[-1]))
        return d
    if cname in ('KernelDensityEstimate', 'GaussianKDE'):
        data = c + s * rng.normal(size=int(rng.integers(40, 200)))
        d = dict(data=seq(rng, data))
        if rng.random() < 0.5:
            d['n_bins'] = int(rng.integers(20, 60))
        if cname == 'GaussianKDE':
            if rng.random() < 0.6:
                d['bandwidth'] = num(rng, s * u(0.2, 1.5))
        else:
            k = int(rng.integers(3))
            w = s * u(0.3, 1)
            d['kernel'] = [P().NormalDistribution(0, w), P().UniformDistribution(0, np.float64(w)),
                           P().AsymmetricNormalDistribution(0, w, 0.5 * w)][k]
        return d
    if cname == 'MultivariateNormalDistribution':
        n = int(rng.integers(2, 6))
        sd = s * np.exp(rng.uniform(-4, 4, n))
        mu = sd * rng.normal(size=n) * 5
        R = random_corr(rng, n, rng.uniform(0.2, 0.95))
        C = R * np.outer(sd, sd)
        k = int(rng.integers(5))
        d = dict(central_value=seq(rng, mu))
        if k == 0:
            d['covariance'] = seq(rng, C)
        elif k == 1:
            d['covariance'] = seq(rng, np.triu(C))
        elif k == 2:
            d.update(standard_deviation=seq(rng, sd), correlation=seq(rng, R))
        elif k == 3:
            d.update(standard_deviation=seq(rng, sd), correlation=np.float64(u(0.05, 0.9)) if rng.random() < 0.7 else 0)
        else:
            d.update(standard_deviation=seq(rng, sd))
        return d
    if cname == 'MultivariateNumericalDistribution':
        n = int(rng.integers(2, 4))
        xi = []
        shape = []
        for _ in range(n):
            w = logu(rng, 1e-6, 1e3)
            o = w * rng.normal()
            m_ = int(rng.integers(4, 9))
            shape.append(m_)
            xi.append(seq(rng, [o, o + w]) if rng.random() < 0.4 else seq(rng, np.linspace(o, o + w, m_)))
        y = rng.uniform(0, 1, shape)
        if rng.random() < 0.3:
            y[rng.random(shape) < 0.3] = 0
        d = dict(xi=xi, y=y.tolist() if rng.random() < 0.4 else y)
        if rng.random() < 0.5:
            d['central_value'] = seq(rng, [float(rng.uniform(x[0], x[-1])) for x in xi])
        return d
    raise KeyError(cname)


CLASSES = ['UniformDistribution', 'DiscreteUniformDistribution', 'DeltaDistribution', 'NormalDistribution', 'LogNormalDistribution',
           'AsymmetricNormalDistribution', 'HalfNormalDistribution', 'GaussianUpperLimit', 'GammaDistribution', 'GammaDistributionPositive',
           'GammaCountingProcess', 'GammaUpperLimit', 'NumericalDistribution', 'GeneralGammaDistributionPositive', 'GeneralGammaCountingProcess',
           'GeneralGammaUpperLimit', 'KernelDensityEstimate', 'GaussianKDE', 'MultivariateNormalDistribution', 'MultivariateNumericalDistribution']
HEAVY = {'KernelDensityEstimate', 'GaussianKDE', 'GeneralGammaDistributionPositive', 'GeneralGammaCountingProcess', 'GeneralGammaUpperLimit'}


def freeze(o, depth=0):
    """Deep structural snapshot with types."""
    if isinstance(o, np.ndarray):
        return ('nd', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return (type(o).__name__, tuple((repr(k), freeze(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v, depth + 1) for v in o))
    if isinstance(o, P().ProbabilityDistribution):
        return (type(o).__name__, tuple(sorted((k, freeze(v, depth + 1)) for k, v in o.__dict__.items()
                                               if not k.endswith('_interp') and k not in ('_y_flat', '_cdf_flat'))))
    return (type(o).__name__, repr(o))


def structure(d):
    """Freezes the dictionary form independent of sequence types."""
    if isinstance(d, dict):
        return {str(k): structure(v) for k, v in d.items()}
    if isinstance(d, (list, tuple, np.ndarray)):
        return [structure(v) for v in (d.tolist() if isinstance(d, np.ndarray) else d)]
    if isinstance(d, P().ProbabilityDistribution):
        return structure(d.get_dict(distribution=True))
    if isinstance(d, (bool, str)) or d is None:
        return d
    return float(d)


def span(d):
    cv = np.atleast_1d(np.asarray(d.central_value, float))
    try:
        el = np.atleast_1d(np.asarray(d.error_left, float))
        er = np.atleast_1d(np.asarray(d.error_right, float))
        w = el + er
    except Exception:
        sup = np.asarray(d.support, float)
        w = np.abs(sup[1] - sup[0]) / 6
    w = np.where(np.asarray(w) > 0, w, np.maximum(np.abs(cv), 1))
    return cv, w


def equivalent(m, sig, a, b, rng, rtol=1e-9, **wit):
    if not m.check(type(a) is type(b), sig + ':class', '%s became %s' % (type(a).__name__, type(b).__name__), **wit):
        return False
    ok = m.close(np.asarray(a.central_value, float).ravel(), np.asarray(b.central_value, float).ravel(), sig + ':central', rtol=1e-12, **wit)
    cv, w = span(a)
    sa, sb = np.asarray(a.support, float), np.asarray(b.support, float)
    ok &= m.close(sa, sb, sig + ':support', rtol=1e-9, atol=1e-9 * float(np.max(w)), **wit)
    pts = [cv + t * w for t in rng.uniform(-1.5, 1.5, 6)] + [cv + w * rng.uniform(-0.7, 0.7, len(cv)) for _ in range(4)] + [cv]
    for p in pts:
        x = p if len(cv) > 1 else float(p[0])
        if isinstance(a, P().DiscreteUniformDistribution):
            x = round(x)
        with np.errstate(all='ignore'):
            la, lb = a.logpdf(x), b.logpdf(x)
        ok &= m.close(la, lb, sig + ':logpdf', rtol=rtol, atol=1e-8, x=x, **wit)
    if not isinstance(a, P().MultivariateNumericalDistribution):
        ok &= m.close(a.error_left, b.error_left, sig + ':errors', rtol=1e-5, atol=1e-9 * float(np.max(w)) if np.size(w) == 1 else 0, **wit)
        ok &= m.close(a.error_right, b.error_right, sig + ':errors', rtol=1e-5, atol=1e-9 * float(np.max(w)) if np.size(w) == 1 else 0, **wit)
    st = np.random.get_state()
    ra = a.get_random(5)
    np.random.set_state(st)
    rb = b.get_random(5)
    np.random.set_state(st)
    ok &= m.close(ra, rb, sig + ':draws', rtol=1e-6, atol=1e-7 * float(np.max(w)), **wit)
    return ok


def dist(m, rng, n):
    p = P()
    for i in range(n):
        for cname in CLASSES:
            if cname in HEAVY and i % 4:
                continue
            kw = gen(rng, cname)
            cls = getattr(p, cname)
            wit = dict(cls=cname, kwargs={k: v for k, v in kw.items() if len(repr(v)) < 300})
            sig = 'dist:' + cname
            keep = freeze(kw)
            try:
                d = m.call(sig + ':init', cls, **kw)
                m.check(freeze(kw) == keep, sig + ':init-mutates', 'constructing changed its arguments', **wit)
                st = np.random.get_state()
                rng0 = freeze([st[1], st[2]])
                before = freeze(d)
                plain = m.call(sig + ':get_dict', d.get_dict)
                full = m.call(sig + ':get_dict', d.get_dict, distribution=True, iterate=True, arraytolist=True)
                named = m.call(sig + ':get_dict', d.get_dict, distribution=True)
                text = m.call(sig + ':get_yaml', d.get_yaml)
                m.check(freeze(d) == before, sig + ':write-mutates', 'writing changed the distribution', **wit)
                m.check(freeze([np.random.get_state()[1], np.random.get_state()[2]]) == rng0, sig + ':rng', 'writing used the random state', **wit)
                m.check(full.get('distribution') == cls.class_to_string(), sig + ':name', 'wrong distribution name', got=full.get('distribution'))
                # text form must be plain YAML with the same content
                try:
                    back = yaml.safe_load(text)
                except yaml.YAMLError as e:
                    m.violate(sig + ':yaml-not-plain', 'text form is not readable: %s' % str(e)[:200], text=text[:400], **wit)
                    raise CodeRaised()
                m.check(structure(back) == structure(full), sig + ':yaml-content', 'YAML and dictionary forms differ', **wit)
                k1 = freeze(full)
                for form, src in (('dict', full), ('yaml', back), ('named', named)):
                    k = freeze(src)
                    r = m.call(sig + ':dict2dist', p.dict2dist, src)
                    m.check(freeze(src) == k, sig + ':read-mutates', 'reading changed the dictionary', form=form, **wit)
                    m.check(isinstance(r, list) and len(r) == 1, sig + ':dict2dist-list', 'one dictionary must give one distribution', **wit)
                    equivalent(m, sig + ':' + form, d, r[0], rng, **wit)
                    again = r[0].get_dict(distribution=True, iterate=True, arraytolist=True)
                    m.check(structure(again) == structure(full) or
                            np.allclose(flat(structure(again)), flat(structure(full)), rtol=1e-12, atol=0), sig + ':second',
                            'second round trip differs', first=full, second=again)
                # direct construction from the dictionary of arguments
                e = m.call(sig + ':from-args', cls, **plain)
                equivalent(m, sig + ':args', d, e, rng, **wit)
                # a list of dictionaries gives the list of distributions
                o = p.NormalDistribution(1, 2)
                both = p.dict2dist([full, o.get_dict(distribution=True)])
                m.check(len(both) == 2 and type(both[0]) is cls and type(both[1]) is p.NormalDistribution, sig + ':list', 'list order not preserved')
                # aliasing: changing what was written must not change the object
                for v in plain.values():
                    pass
                scribble(full)
                m.check(freeze(d) == before, sig + ':alias', 'the written list form shares storage with the distribution', **wit)
                m.event('dist', (cname, repr(wit['kwargs'])))
                if i == 0:
                    m.sample({'class': cname, 'yaml': text[:200]}, limit=2)
            except CodeRaised:
                continue


def flat(s):
    out = []

    def rec(v):
        if isinstance(v, dict):
            for k in sorted(v):
                rec(v[k])
        elif isinstance(v, list):
            for x in v:
                rec(x)
        elif isinstance(v, float):
            out.append(v)
    rec(s)
    return np.array(out)


def scribble(d):
    if isinstance(d, dict):
        for k in list(d):
            if isinstance(d[k], (list, dict)):
                scribble(d[k])
    elif isinstance(d, list):
        for i, v in enumerate(d):
            if isinstance(v, list):
                scribble(v)
            elif isinstance(v, float):
                d[i] = v + 1e9


SIMPLE = ['UniformDistribution', 'DeltaDistribution', 'NormalDistribution', 'LogNormalDistribution', 'AsymmetricNormalDistribution',
          'HalfNormalDistribution', 'GaussianUpperLimit', 'GammaDistribution', 'GammaCountingProcess', 'GammaUpperLimit', 'NumericalDistribution',
          'MultivariateNormalDistribution', 'MultivariateNormalDistribution', 'MultivariateNumericalDistribution']
NAMES = ['m_b', 'yes', 'null', '1e5', 'B->K* a0_V', 'x: y', '# hash', 'α_s', "it's", '"q"', '- dash', 'a b', '{c}', '[d]', '~', '12', 'on', 'tab\tb', '%p', '&amp', '*star', '!bang', '@at', 'Vub', 'τ']


def fill(rng, c, tuples=False, k=None):
    p = P()
    pool = list(NAMES)
    rng.shuffle(pool)
    def name():
        nm = pool.pop()
        if tuples and rng.random() < 0.5:
            args = [float(np.round(rng.uniform(0, 22), 2)) if rng.random() < 0.6 else int(rng.integers(0, 22)) for _ in range(int(rng.integers(1, 3)))]
            if rng.random() < 0.2:
                args = [np.float64(a) for a in args]
            return tuple([nm] + args)
        return nm
    for _ in range(k or int(rng.integers(1, 6))):
        if len(pool) < 6:
            break
        r = rng.random()
        if r < 0.25:
            s = rng.choice(['1.5(3)', '2.0 ± 0.1 ± 0.3', '4 +0.3 -0.2', '< 3e-8 @ 90% CL', '[1,2]e-3', '3.1 */ 1.2', '5', '-1.2(1)(2) e-4'])
            c.set_constraint(name(), str(s))
        else:
            cname = SIMPLE[int(rng.integers(len(SIMPLE)))]
            d = getattr(p, cname)(**gen(rng, cname))
            n = len(d.central_value) if cname.startswith('Multi') else 1
            c.add_constraint([name() for _ in range(n)], d)
    # history: removals and replacements
    for par in list(c.all_parameters):
        r = rng.random()
        if r < 0.1 and len(c.all_parameters) > 1:
            c.remove_constraint(par)
        elif r < 0.2:
            c.set_constraint(par, constraint_dict={'distribution': 'normal', 'central_value': '4.5', 'standard_deviation': 0.1})
    return c


def container_state(c, rng):
    st = np.random.get_state()
    cen = c.get_central_all()
    err = c.get_1d_errors_rightleft() if not any(type(d).__name__ == 'MultivariateNumericalDistribution' for d, _ in c._constraints) else None
    np.random.set_state(st)
    return cen, err


def cfreeze(c):
    return (tuple((freeze(d), freeze(list(p))) for d, p in c._constraints),
            tuple((repr(k), v[0], id(v[1])) for k, v in c._parameters.items()),
            freeze({k: v for k, v in c.__dict__.items() if not k.startswith('_')}))


def same_container(m, sig, a, b, rng, **wit):
    ka, kb = set(map(repr_key, a.all_parameters)), set(map(repr_key, b.all_parameters))
    if not m.check(ka == kb, sig + ':names', 'constrained names differ', missing=sorted(map(str, ka - kb)), extra=sorted(map(str, kb - ka)), **wit):
        return False
    ca, ea = container_state(a, rng)
    cb, eb = container_state(b, rng)
    kbmap = {repr_key(k): k for k in cb}
    ok = True
    for k in ca:
        ok &= m.close(float(ca[k]), float(cb[kbmap[repr_key(k)]]), sig + ':central', rtol=1e-12, par=k, **wit)
        if ea is not None and eb is not None:
            ok &= m.close(ea[k], eb[kbmap[repr_key(k)]], sig + ':errors', rtol=1e-5, atol=1e-8 * max(map(float, ea[k])), par=k, **wit)
    # total log probability at common points (sums, independent of grouping order)
    for _ in range(4):
        x = {}
        for k in ca:
            w = 1.
            num_, con = a._parameters[k]
            cv, ww = span(con)
            x[k] = float(ca[k]) + (float(np.ravel(ww)[num_ if np.size(ww) > 1 else 0]) * rng.uniform(-0.6, 0.6))
        xb = {kbmap[repr_key(k)]: v for k, v in x.items()}
        with np.errstate(all='ignore'):
            la = sorted(float(v) for v in a.get_logprobability_all(x).values())
            lb = sorted(float(v) for v in b.get_logprobability_all(xb).values())
        if not m.check(len(la) == len(lb), sig + ':count', '%d terms became %d' % (len(la), len(lb)), **wit):
            return False
        ok &= m.close(la, lb, sig + ':logprob', rtol=1e-9, atol=1e-6, **wit)
    return ok


def repr_key(k):
    if isinstance(k, tuple):
        return (k[0],) + tuple(float(a) for a in k[1:])
    return k


def containers(m, rng, n):
    import flavio
    from flavio.classes import ParameterConstraints, Constraints
    tmp = tempfile.mkdtemp(prefix='vp04')
    try:
        for i in range(n):
            c = fill(rng, ParameterConstraints())
            pname = 'parameters' if rng.random() < 0.7 else str(rng.choice(['observables', 'stuff']))
            wit = dict(names=[str(p) for p in c.all_parameters])
            try:
                before = cfreeze(c)
                d = m.call('cont:get_yaml_dict', c.get_yaml_dict, pname=pname)
                t = m.call('cont:get_yaml', c.get_yaml, pname=pname)
                m.check(cfreeze(c) == before, 'cont:write-mutates', 'writing changed the container', **wit)
                try:
                    data = yaml.safe_load(t)
                except yaml.YAMLError as e:
                    m.violate('cont:yaml-not-plain', str(e)[:200], text=t[:500], **wit)
                    raise CodeRaised()
                for form, src in (('dict', d), ('yaml', data)):
                    keep = freeze(src)
                    r = m.call('cont:from_yaml_dict', ParameterConstraints.from_yaml_dict, src, pname=pname)
                    m.check(freeze(src) == keep, 'cont:read-mutates', 'reading changed the data', form=form, **wit)
                    same_container(m, 'cont:' + form, c, r, rng, **wit)
                    again = r.get_yaml_dict(pname=pname)
                    m.check(structure_sorted(again) == structure_sorted(d), 'cont:second', 'second round trip differs', **wit)
                r = m.call('cont:from_yaml', ParameterConstraints.from_yaml, t, pname=pname)
                same_container(m, 'cont:text', c, r, rng, **wit)
                if pname == 'parameters':
                    fn = os.path.join(tmp, 'p%d.yml' % i)
                    m.call('cont:write_file', flavio.parameters.write_file, fn, c)
                    r = m.call('cont:read_file', flavio.parameters.read_file, fn)
                    same_container(m, 'cont:file', c, r, rng, **wit)
                    os.remove(fn)
                # reading into an existing container keeps what is not overridden
                base = ParameterConstraints()
                base.set_constraint('zz_other', '1(1)')
                r = m.call('cont:instance', ParameterConstraints.from_yaml_dict, d, pname=pname, instance=base)
                m.check(r is base and set(r.all_parameters) == set(c.all_parameters) | {'zz_other'}, 'cont:instance', 'instance not extended', **wit)
                r.remove_constraint('zz_other')
                same_container(m, 'cont:instance', c, r, rng, **wit)
                # documented dictionary form and strings
                r = m.call('cont:dictform', ParameterConstraints.from_yaml_dict, {'constraints': d}, pname=pname)
                same_container(m, 'cont:dictform', c, r, rng, **wit)
                # a wrong key is an error
                if d:
                    m.raises(ValueError, 'cont:wrong-pname', ParameterConstraints.from_yaml_dict, d, pname='nonsense')
                # deep copy
                k = c.copy()
                same_container(m, 'cont:copy', c, k, rng, **wit)
                m.event('container', tuple(wit['names']))
            except CodeRaised:
                continue
        # short string form
        for s in ['1.0 ± 0.2 ± 0.1 e-3', '4.2(1)', '< 1e-8 @ 95% CL']:
            src = [{'my_parameter': s}, {'other': '3(1)'}]
            keep = freeze(src)
            r = m.call('cont:short', ParameterConstraints.from_yaml_dict, src)
            q = ParameterConstraints()
            q.set_constraint('my_parameter', s)
            q.set_constraint('other', '3(1)')
            m.check(freeze(src) == keep, 'cont:read-mutates', 'reading changed the data')
            same_container(m, 'cont:short', q, r, rng)
            m.event('container', s)
    finally:
        shutil.rmtree(tmp)


def structure_sorted(d):
    if isinstance(d, list):
        return json.dumps([structure_round(x) for x in d], sort_keys=True)
    return json.dumps(structure_round(d), sort_keys=True)


def structure_round(v):
    if isinstance(v, dict):
        return {str(k): structure_round(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [structure_round(x) for x in v]
    if isinstance(v, (bool, str)) or v is None:
        return v
    return float('%.11g' % float(v))


def measurements(m, rng, n):
    import flavio
    from flavio.classes import Measurement
    import flavio.measurements as fm
    tmp = tempfile.mkdtemp(prefix='vp04')
    try:
        for i in range(n):
            k = int(rng.integers(1, 4))
            ms = []
            for j in range(k):
                me = Measurement('verif %d %d: [x]' % (i, j))
                fill(rng, me, tuples=True)
                for a in ('inspire', 'experiment', 'url', 'hepdata', 'description'):
                    if rng.random() < 0.5:
                        setattr(me, a, str(rng.choice(['Aaij:2020nrf', 'LHCb', 'http://a.b/?c=d&e', 'a: b # c', 'ünïcode', '12'])))
                ms.append(me)
            snap = [cfreeze(me) for me in ms]
            keepreg = list(Measurement.instances)
            fn = os.path.join(tmp, 'm%d.yml' % i)
            try:
                arg = [me.name for me in ms] if rng.random() < 0.5 else ms
                m.call('meas:write', fm.write_file, fn, arg)
                m.check([cfreeze(me) for me in ms] == snap, 'meas:write-mutates', 'writing changed a measurement')
                m.check(list(Measurement.instances) == keepreg, 'meas:write-registers', 'writing changed the registry')
                text = open(fn).read()
                for me in ms:
                    Measurement.del_instance(me.name)
                names = m.call('meas:read', fm.read_file, fn)
                m.check(names == [me.name for me in ms], 'meas:names', 'names differ', got=names)
                m.check(open(fn).read() == text, 'meas:file-changed', 'reading changed the file')
                for me in ms:
                    r = Measurement[me.name]
                    m.check(r is not me, 'meas:new', 'same object')
                    same_container(m, 'meas', me, r, rng, measurement=me.name)
                    for k in [r0 for r0 in r.all_parameters]:
                        if isinstance(k, tuple):
                            m.check(isinstance(k[0], str) and len(k) > 1, 'meas:tuple', 'observable tuple lost', got=k)
                    ka = {k: v for k, v in me.__dict__.items() if not k.startswith('_')}
                    kb = {k: v for k, v in r.__dict__.items() if not k.startswith('_')}
                    m.check({k: v for k, v in ka.items() if v != ''} == {k: v for k, v in kb.items() if v != ''}, 'meas:metadata', 'metadata differ', a=ka, b=kb)
                    d1 = me.get_yaml_dict(pname='observables')
                    d2 = r.get_yaml_dict(pname='observables')
                    m.check(structure_sorted(d1) == structure_sorted(d2), 'meas:second', 'second round trip differs', measurement=me.name)
                # single measurement in a file
                t = m.call('meas:get_yaml', ms[0].get_yaml, pname='observables')
                r = m.call('meas:from_yaml', Measurement.from_yaml, t, pname='observables')
                same_container(m, 'meas:single', ms[0], r, rng)
                fn2 = fn + '.single'
                with open(fn2, 'w') as f:
                    f.write(t)
                nm = m.call('meas:read-single', fm.read_file, fn2)
                m.check(nm == [ms[0].name], 'meas:single-name', 'wrong name', got=nm)
                m.event('measurement', tuple(map(repr, snap))[:2])
            except CodeRaised:
                pass
            finally:
                for me in ms:
                    Measurement.instances.pop(me.name, None)
                m.check([k for k in keepreg if not k.startswith('verif ')] == list(Measurement.instances), 'meas:registry', 'registry differs afterwards')
    finally:
        shutil.rmtree(tmp)


def shipped(m, rng, part, parts, text):
    import flavio
    from flavio.classes import Measurement, ParameterConstraints
    if part == 0:
        d = flavio.default_parameters
        before = cfreeze(d)
        t = m.call('shipped:par', d.get_yaml)
        r = m.call('shipped:par', ParameterConstraints.from_yaml, t)
        m.check(cfreeze(d) == before, 'shipped:par:mutated', 'writing changed the default parameters')
        same_container(m, 'shipped:par', d, r, rng)
        m.check(structure_sorted(d.get_yaml_dict()) == structure_sorted(r.get_yaml_dict()), 'shipped:par:second', 'second round trip differs')
        m.event('shipped', 'parameters', n=len(d.all_parameters))
        k = d.copy()
        same_container(m, 'shipped:copy', d, k, rng)
    names = [n for n in Measurement.instances][part::parts]
    for n in names:
        a = Measurement[n]
        before = cfreeze(a)
        dd = m.call('shipped:meas', a.get_yaml_dict, pname='observables')
        if text or sum(np.size(p) + len(repr(d)) / 20 for d, p in a._constraints) < 2500:
            t = m.call('shipped:meas', a.get_yaml, pname='observables')
            r = m.call('shipped:meas', Measurement.from_yaml, t, pname='observables')
        else:
            r = m.call('shipped:meas', Measurement.from_yaml_dict, dd, pname='observables')
        m.check(cfreeze(a) == before, 'shipped:meas:mutated', 'writing changed the measurement', name=n)
        same_container(m, 'shipped:meas', a, r, rng, name=n)
        m.check(r.name == n and all(getattr(a, k) == getattr(r, k) for k in ('inspire', 'experiment', 'url', 'description')), 'shipped:meta', 'metadata differ', name=n)
        m.event('shipped', n)


def jobs(tier, seed):
    t = tier == 'thorough'
    j = split_jobs('dist', dist, 320 if t else 40, 8)
    j += split_jobs('container', containers, 900 if t else 80, 6)
    j += split_jobs('meas', measurements, 900 if t else 80, 6)
    return [{'name': 'shipped#%d' % i, 'fn': shipped, 'args': dict(part=i, parts=12, text=t)} for i in range(12)] + j
