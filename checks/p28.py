"""P28: shipped data and user files are loaded completely and consistently."""
import collections
import math
import os
import re
import shutil
import tempfile
import warnings
import numpy as np
import yaml
from lib.util import split_jobs
from checks.p24 import forked

RULE = ('every entry of every shipped data file against an independent strict reading (duplicate keys refused); random user files with measurements, parameters, correlations and nested includes; '
        'loading again and in random orders in forked processes; distinct by (file, entry) or user file')
ASSUMPTIONS = ['errors of correlated entries are symmetrised to the geometric mean (rule of the loader)', 'a correlation matrix that is not positive definite as published is scaled by 0.99 (rule of the loader)',
               'the grammar of values as strings is decided by P19']
MIN = {'measurement': 300, 'constraint': 1500, 'parameter': 600, 'metadata': 600, 'external': 150, 'reload': 8, 'user measurement': 40, 'user parameter': 40, 'correlation': 100, 'include': 60, 'text': 800}
DATA = '/repo/flavio/data/'
KEYS = {'inspire', 'hepdata', 'experiment', 'url', 'description', 'observables', 'values', 'correlation'}
NUM = r'\d+\.?\d*|\.\d+'


class Strict(yaml.SafeLoader):
    pass


DUP = []


def _map(loader, node):
    ks = [loader.construct_object(k, deep=True) for k, _ in node.value]
    for k, c in collections.Counter(map(repr, ks)).items():
        if c > 1:
            DUP.append((k, node.start_mark.line))
    return {k: loader.construct_object(v, deep=True) for k, (_, v) in zip(ks, node.value)}


Strict.add_constructor('tag:yaml.org,2002:map', _map)


def strict(text):
    DUP.clear()
    return yaml.load(text, Strict)


def numbers(s):
    """(central, [symmetric], [(right, left)]) of a value string, None if of another form"""
    if isinstance(s, (int, float)):
        return float(s), [], []
    t = s.replace('\u2009', ' ').replace('+-', '±').replace('+/-', '±').strip()
    m = re.fullmatch(r'(-?(?:%s))\s*\((\d+)\)(?:\((\d+)\))?\s*(?:[eE]([-+]?\d+))?' % NUM, t)
    if m:
        dec = len(m.group(1).split('.')[1]) if '.' in m.group(1) else 0
        f = 10. ** int(m.group(4) or 0)
        return float(m.group(1)) * f, [int(g) * 10. ** -dec * f for g in m.groups()[1:3] if g], []
    m = re.fullmatch(r'\(?\s*(-?(?:%s))((?:\s*±\s*(?:%s)|\s*\+\s*(?:%s)\s*-\s*(?:%s))+)\s*\)?\s*(?:[eE]([-+]?\d+))?' % (NUM, NUM, NUM, NUM), t)
    if not m:
        return None
    f = 10. ** int(m.group(3) or 0)
    sym = [float(v) * f for v in re.findall(r'±\s*(%s)' % NUM, m.group(2))]
    asym = [(float(a) * f, float(b) * f) for a, b in re.findall(r'\+\s*(%s)\s*-\s*(%s)' % (NUM, NUM), m.group(2))]
    return float(m.group(1)) * f, sym, asym


def sigma(n):
    return math.sqrt(sum(v * v for v in n[1]) + sum(a * b for a, b in n[2]))


def corrmat(c, n):
    if not isinstance(c, list):
        return np.eye(n) + (1 - np.eye(n)) * float(c)
    M = np.eye(n)
    if all(len(r) == n for r in c):
        A = np.array(c, float)
        if np.allclose(A, A.T):
            return A
        # only the upper triangle is filled
        return np.triu(A) + np.triu(A, 1).T + (np.tril(A, -1) + np.tril(A, -1).T)
    for i, r in enumerate(c):
        for j, v in enumerate(r if len(r) == n - i else r[i:]):
            M[i, i + j] = M[i + j, i] = v
    return M


def okey(v, value_key='value'):
    import flavio
    if isinstance(v, str):
        return v
    a = flavio.Observable[v['name']].arguments or []
    extra = set(v) - {'name', value_key} - set(a)
    if extra or not set(a) <= set(v):
        raise ValueError('arguments %s of %s' % (sorted(set(v) - {'name', value_key}), v['name']))
    t = tuple([v['name']] + [v[x] for x in a])
    return t


def rel(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-300


def check_dist(m, dist, value, sig, **w):
    """One-dimensional constraint against the value as written."""
    import flavio.statistics.probability as pr
    lim = re.fullmatch(r'<\s*([-+0-9.eE]+)\s*@\s*([0-9.]+)\s*%\s*(?:CL)?', value.strip()) if isinstance(value, str) else None
    if lim:
        x, cl = float(lim.group(1)), float(lim.group(2)) / 100
        from scipy import stats
        m.check(isinstance(dist, pr.GaussianUpperLimit) and rel(dist.limit, x) and rel(dist.confidence_level, cl), sig, 'upper limit', value=value, got=repr(dist), **w)
        s = x / stats.norm.ppf((1 + cl) / 2)
        m.check(abs(float(dist.cdf(x)) - cl) < 1e-6, sig, 'upper limit: probability below the limit', value=value, **w)
        return
    if isinstance(value, (dict, list)):
        vals = value if isinstance(value, list) else [value]
        if len(vals) == 1:
            v = dict(vals[0])
            cls = pr.class_from_string[v.pop('distribution')]
            m.check(type(dist) is cls, sig, 'class of the distribution', got=type(dist).__name__, expected=cls.__name__, **w)
            for k, x in v.items():
                g = getattr(dist, k, None)
                if g is not None and isinstance(x, (int, float)):
                    m.check(rel(float(g), float(x)), sig, 'parameter of the distribution', attribute=k, got=g, expected=x, **w)
            if 'x' in v and 'y' in v and 'central_value' not in v and vals[0]['distribution'] == 'numerical':
                i = int(np.argmax(v['y']))
                h = max(np.diff(np.asarray(v['x'], float)))
                m.check(abs(dist.central_value - v['x'][i]) <= 1.01 * h, sig, 'mode of the distribution', got=dist.central_value, expected=v['x'][i], **w)
        return
    n = numbers(value)
    if n is None:
        from flavio._parse_errors import errors_from_string
        try:
            e = errors_from_string(value)
        except Exception:
            return
        n = e['central_value'], e['symmetric_errors'], e['asymmetric_errors']
        m.event('other form', value)
    c, s, a = n
    if not s and not a:
        m.check(type(dist).__name__ == 'DeltaDistribution' and rel(dist.central_value, c), sig, 'number', value=value, got=repr(dist), **w)
    elif not a:
        m.check(isinstance(dist, pr.NormalDistribution) and rel(dist.central_value, c) and rel(dist.standard_deviation, sigma(n)), sig, 'central value or standard deviation', value=value, got=repr(dist), expected=[c, sigma(n)], **w)
    elif len(a) == 1 and not s:
        if a[0][0] == a[0][1]:
            m.check(rel(dist.central_value, c) and rel(dist.error_right, a[0][0]) and rel(dist.error_left, a[0][1]), sig, 'central value or error', value=value, got=repr(dist), **w)
        else:
            m.check(isinstance(dist, pr.AsymmetricNormalDistribution) and rel(dist.central_value, c) and rel(dist.right_deviation, a[0][0]) and rel(dist.left_deviation, a[0][1]), sig, 'central value or asymmetric errors', value=value, got=repr(dist), **w)
    else:
        r = math.sqrt(sum(v * v for v in s) + sum(x[0]**2 for x in a))
        l = math.sqrt(sum(v * v for v in s) + sum(x[1]**2 for x in a))
        m.check(abs(dist.central_value - c) < .35 * (r + l) / 2, sig, 'central value of a convolution', value=value, got=dist.central_value, **w)
        # the 68 % interval about the central value contains about that
        p = float(dist.cdf(c + r)) - float(dist.cdf(c - l))
        m.check(abs(p - .6827) < .06, sig, 'probability of the interval of the quoted errors', value=value, got=p, **w)


def measurements(m, rng, n, seed, part, parts):
    import flavio
    import flavio.statistics.probability as pr
    warnings.simplefilter('ignore')
    M = strict(open(DATA + 'measurements.yml').read())
    if part == 0:
        m.check(not DUP, 'duplicate:measurements', 'entry given twice', got=DUP[:5])
        m.check(set(M) == set(flavio.Measurement.instances), 'complete:measurements', 'the measurements are not those of the file', only_file=sorted(set(M) - set(flavio.Measurement.instances))[:5], only_loaded=sorted(set(flavio.Measurement.instances) - set(M))[:5])
        m.event('measurement', 'all')
    for name in sorted(M)[part::parts]:
        d = M[name]
        w = dict(measurement=name)
        if name not in flavio.Measurement.instances:
            continue
        ms = flavio.Measurement[name]
        m.check(set(d) <= KEYS, 'keys', 'unknown key in the entry of a measurement', keys=sorted(set(d) - KEYS), **w)
        for k in ('inspire', 'hepdata', 'experiment', 'url', 'description'):
            m.check((getattr(ms, k, None) or '') == (d.get(k) or ''), 'attribute', 'attribute of a measurement', attribute=k, got=getattr(ms, k, None), expected=d.get(k), **w)
        cons = ms._constraints
        seen = collections.Counter(p for _, ps in cons for p in ps)
        for p in seen:
            o = p if isinstance(p, str) else p[0]
            if m.check(o in flavio.Observable.instances, 'observable', 'observable does not exist', observable=o, **w):
                na = len(flavio.Observable[o].arguments or [])
                m.check((0 if isinstance(p, str) else len(p) - 1) == na, 'observable', 'number of arguments', observable=p, **w)
                m.check(flavio.Observable[o].prediction is not None, 'observable', 'observable has no prediction', observable=o, **w)
        try:
            if 'observables' in d:
                keys = [okey(o) for o in d['observables']]
                if m.check(len(cons) == 1 and list(cons[0][1]) == keys, 'multivariate', 'observables of a multivariate measurement', **w):
                    dist = cons[0][0]
                    vals = d['values'] if isinstance(d['values'], list) else [d['values']]
                    m.check(np.size(dist.central_value) == len(keys), 'multivariate', 'dimension', **w)
                    if all(v['distribution'] == 'multivariate_normal' for v in vals):
                        cov = 0
                        cen = 0
                        for v in vals:
                            cen = np.asarray(v['central_value'], float)
                            m.check(np.allclose(cen, vals[0]['central_value']), 'multivariate', 'central values of the parts differ', **w)
                            if 'covariance' in v and v['covariance'] is not None:
                                cov = cov + np.asarray(v['covariance'], float)
                            else:
                                sd = np.asarray(v['standard_deviation'], float)
                                cov = cov + np.outer(sd, sd) * corrmat(v.get('correlation', 0.), len(keys))
                        m.check(np.allclose(dist.central_value, cen, rtol=1e-9), 'multivariate', 'central values', got=np.asarray(dist.central_value), expected=cen, **w)
                        sc = np.sqrt(np.diag(cov))
                        m.check(np.allclose(dist.covariance / np.outer(sc, sc), cov / np.outer(sc, sc), atol=1e-6), 'multivariate', 'covariance', **w)
                        e = np.linalg.eigvalsh(cov / np.outer(sc, sc))
                        m.check(e.min() > 0, 'admissible', 'covariance is not positive definite', smallest=float(e.min()), **w)
                    elif len(vals) == 1 and vals[0]['distribution'] == 'multivariate_numerical':
                        v = vals[0]
                        y = np.asarray(v['y'], float)
                        m.check(y.ndim == len(keys) and np.all(y >= 0) and np.all(np.isfinite(y)), 'multivariate', 'densities', **w)
                        xi = v['xi']
                        i = np.unravel_index(np.argmax(y), y.shape)
                        grid = [np.linspace(x[0], x[1], y.shape[j]) if len(x) == 2 and y.shape[j] != 2 else np.asarray(x, float) for j, x in enumerate(xi)]
                        exp = [g[j] for g, j in zip(grid, i)] if v.get('central_value') is None else v['central_value']
                        m.check(np.allclose(np.asarray(dist.central_value, float), exp, rtol=1e-9), 'multivariate', 'mode', got=np.asarray(dist.central_value), expected=exp, **w)
                    m.event('constraint', name)
            else:
                items = [(okey(v), v['value']) for v in d['values']] if isinstance(d['values'], list) else list(d['values'].items())
                m.check(seen == collections.Counter({k: 1 for k, _ in items}) and len({k for k, _ in items}) == len(items), 'entries', 'observables of a measurement', got=sorted(map(str, seen - collections.Counter(k for k, _ in items)))[:5], missing=sorted(map(str, collections.Counter(k for k, _ in items) - seen))[:5], **w)
                if 'correlation' not in d:
                    for k, v in items:
                        c = [c for c, ps in cons if list(ps) == [k]]
                        if m.check(len(c) == 1, 'entries', 'number of constraints', observable=k, got=len(c), **w):
                            check_dist(m, c[0], v, 'value', observable=str(k), **w)
                            m.event('constraint', (name, str(k)))
                else:
                    if not m.check(len(cons) == 1 and list(cons[0][1]) == [k for k, _ in items], 'correlated', 'observables of a correlated measurement', **w):
                        continue
                    dist = cons[0][0]
                    N = [numbers(v) for _, v in items]
                    C = corrmat(d['correlation'], len(items))
                    m.check(C.shape == (len(items),) * 2 and np.allclose(C, C.T) and np.allclose(np.diag(C), 1) and np.all(abs(C) <= 1 + 1e-12), 'admissible', 'correlation matrix', **w)
                    ev = np.linalg.eigvalsh(C).min()
                    m.check(ev > 0, 'admissible', 'correlation matrix is not positive definite', smallest=float(ev), **w)
                    for i, ((k, v), x) in enumerate(zip(items, N)):
                        if x is None:
                            continue
                        m.check(rel(dist.central_value[i], x[0]) and rel(math.sqrt(dist.covariance[i, i]), sigma(x), 1e-7), 'correlated', 'central value or error', observable=str(k), value=v, got=[float(dist.central_value[i]), math.sqrt(dist.covariance[i, i])], expected=[x[0], sigma(x)], **w)
                        m.event('constraint', (name, str(k)))
                    sd = np.sqrt(np.diag(dist.covariance))
                    m.check(np.allclose(dist.covariance / np.outer(sd, sd), C, atol=1e-9), 'correlated', 'correlations', **w)
        except ValueError as e:
            m.violate('arguments', str(e)[:200], **w)
        m.event('measurement', name)


def parameters(m, rng, n, seed):
    import flavio
    import flavio.statistics.probability as pr
    warnings.simplefilter('ignore')
    meta = strict(open(DATA + 'parameters_metadata.yml').read())
    m.check(not DUP, 'duplicate:metadata', 'parameter defined twice', got=DUP[:5])
    unc = strict(open(DATA + 'parameters_uncorrelated.yml').read())
    m.check(not DUP, 'duplicate:uncorrelated', 'value given twice', got=DUP[:5])
    cor = strict(open(DATA + 'parameters_correlated.yml').read())
    D = flavio.default_parameters
    for p, v in meta.items():
        if not m.check(p in flavio.Parameter.instances, 'metadata', 'parameter does not exist', parameter=p):
            continue
        q = flavio.Parameter[p]
        own = 'm_' in p or 'tau_' in p
        for k in ('tex', 'description'):
            if v.get(k) is not None and not own:
                m.check(getattr(q, k) == v[k], 'metadata', k, parameter=p, got=getattr(q, k), expected=v[k])
        m.event('metadata', p)
    # particle data
    import csv
    from particle import data as pdata
    from flavio.parameters import FlavioParticle
    pdg = {}
    with open(str(pdata.basepath / 'particle2022.csv')) as f:
        rows = csv.DictReader(l for l in f if not l.startswith('#'))
        tab = {int(r['ID']): r for r in rows}
    for nm, i in FlavioParticle.PDG_PARTICLES.items():
        if i not in tab:
            continue
        r = tab[i]
        pdg['m_' + nm] = [float(r[k]) * 1e-3 for k in ('Mass', 'MassUpper', 'MassLower')]
        G = [float(r[k]) * 1e-3 if r[k] not in ('', None) else 0. for k in ('Width', 'WidthUpper', 'WidthLower')]
        if all(x > 0 for x in G):
            # a larger width is a shorter lifetime
            pdg['tau_' + nm] = [1 / G[0], G[2] / G[0]**2, G[1] / G[0]**2]
    m.check(len(pdg) > 60, 'external', 'particle data not found', got=len(pdg))
    owner = {}
    for k in list(meta) + list(unc) + [list(x)[0] for g in cor for x in g['values']] + list(pdg):
        owner[k] = None
    for k in unc:
        owner[k] = 'unc'
    for g in cor:
        for x in g['values']:
            m.check(len(x) == 1, 'correlated parameters', 'entry with several names', entry=x)
            m.check(owner.get(list(x)[0]) != 'cor', 'duplicate:values', 'parameter has two values', parameter=list(x)[0])
            owner[list(x)[0]] = 'cor'
    for k in pdg:
        owner[k] = 'pdg'
    # form factor fits loaded last
    ff = [p for p in D._parameters if re.match(r'B->(omega|rho|K\*) BSZ a|Bs->(phi|K\*) BSZ a|B->K BSZ a|B->pi BCL|Lambdab->Lambda SSE a', p)]

    def con(p):
        return D._parameters[p]
    for p, o in owner.items():
        if o is None or p in ff:
            continue
        if not m.check(p in D._parameters and p in flavio.Parameter.instances, 'complete:parameters', 'no value loaded', parameter=p):
            continue
        i, dist = con(p)
        if o == 'unc':
            m.check(i == 0, 'value:parameter', 'position', parameter=p)
            check_dist(m, dist, unc[p], 'value:parameter', parameter=p)
        elif o == 'pdg':
            c, r, l = pdg[p]
            if r == l:
                m.check(isinstance(dist, pr.NormalDistribution) and rel(dist.central_value, c) and rel(dist.standard_deviation, r), 'particle data', 'mass or lifetime', parameter=p, got=repr(dist), expected=[c, r])
            else:
                m.check(isinstance(dist, pr.AsymmetricNormalDistribution) and rel(dist.central_value, c) and rel(dist.right_deviation, r) and rel(dist.left_deviation, l), 'particle data', 'mass or lifetime with asymmetric errors', parameter=p, got=repr(dist), expected=[c, r, l])
            m.event('external', p)
        m.event('parameter', p)
    for g in cor:
        names = [list(x)[0] for x in g['values']]
        if any(owner.get(p) != 'cor' or p in ff for p in names):
            for p in names:
                m.event('parameter', p)
            continue
        N = [numbers(list(x.values())[0]) for x in g['values']]
        C = corrmat(g['correlation'], len(names))
        m.check(np.allclose(C, C.T) and np.allclose(np.diag(C), 1) and np.all(abs(C) <= 1 + 1e-12), 'admissible:parameters', 'correlation matrix', parameters=names[:3])
        dists = [con(p)[1] for p in names if p in D._parameters]
        if not m.check(len(dists) == len(names) and all(x is dists[0] for x in dists) and [con(p)[0] for p in names] == list(range(len(names))), 'correlated parameters', 'not one joint distribution', parameters=names[:4]):
            continue
        dist = dists[0]
        sd = np.sqrt(np.diag(dist.covariance))
        for i, (p, x) in enumerate(zip(names, N)):
            if x is not None:
                m.check(rel(dist.central_value[i], x[0]) and rel(sd[i], sigma(x), 1e-7), 'correlated parameters', 'central value or error', parameter=p, got=[float(dist.central_value[i]), float(sd[i])], expected=[x[0], sigma(x)])
            m.event('parameter', p)
        R = dist.covariance / np.outer(sd, sd)
        S = np.array([sigma(x) if x else 1. for x in N])
        pd = np.all(np.linalg.eigvals(np.outer(S, S) * C) > 0)
        Cx = C if pd else (C - np.eye(len(names))) * .99 + np.eye(len(names))
        m.check(np.allclose(R, Cx, atol=1e-9), 'correlated parameters', 'correlations', parameters=names[:4], positive=bool(pd))
        m.check(np.linalg.eigvalsh(R).min() > 0, 'admissible:parameters', 'not positive definite', parameters=names[:4])
    # everything loaded exists as a parameter and comes from a file
    for p in D._parameters:
        m.check(p in flavio.Parameter.instances, 'complete:parameters', 'value of a parameter that does not exist', parameter=p)
        m.check(p in owner or p in ff, 'complete:parameters', 'value of unknown origin', parameter=p)
    # form factor files
    import json
    base = '/repo/flavio/physics/data/'
    for proc, f in {'B->K*': 'BKstar_LCSR-Lattice', 'Bs->phi': 'Bsphi_LCSR-Lattice', 'Bs->K*': 'BsKstar_LCSR-Lattice', 'B->rho': 'Brho_LCSR', 'B->omega': 'Bomega_LCSR'}.items():
        d = json.load(open(base + 'arXiv-1503-05534v2/' + f + '.json'))
        P = [(x, j) for x in ('A0', 'A1', 'A12', 'V', 'T1', 'T2', 'T23') for j in range(3) if (x, j) not in (('A12', 0), ('T2', 0))]
        nm = ['%s BSZ a%d_%s' % (proc, j, x) for x, j in P]
        if not m.check(all(p in D._parameters for p in nm), 'external', 'form factor parameters missing', process=proc):
            continue
        dist = con(nm[0])[1]
        m.check(all(con(p)[1] is dist for p in nm), 'external', 'not one joint distribution', process=proc)
        ix = [con(p)[0] for p in nm]
        cen = [d['central'][x]['a%d' % j] for x, j in P]
        u = [d['uncertainty'][x]['a%d' % j] for x, j in P]
        m.check(np.allclose(np.asarray(dist.central_value)[ix], cen, rtol=1e-12), 'external', 'central values of form factor parameters', process=proc)
        e = np.array([[d['correlation'][x + y]['a%da%d' % (i, j)] for y, j in P] for x, i in P])
        cov = np.asarray(dist.covariance)[np.ix_(ix, ix)]
        m.check(np.allclose(np.sqrt(np.diag(cov)), u, rtol=1e-9), 'external', 'errors of form factor parameters', process=proc)
        m.check(np.allclose(cov / np.outer(u, u), e, atol=1e-9), 'external', 'correlations of form factor parameters', process=proc)
        for p in nm:
            m.event('external', p)
    d = yaml.safe_load(open(base + 'arXiv-2102.07233v2/LCSR-LQCD_mod_BCL_params_K=4.yaml'))
    d = d[list(d)[0]]
    nm = [re.sub(r'(?=[fb])', ' BCL ', o.replace('::', '').replace('B->pi', ''), count=1) for o in d['observables']]
    nm = ['B->pi' + x for x in nm]
    if m.check(all(p in D._parameters for p in nm), 'external', 'B->pi form factor parameters missing', expected=nm[:4]):
        ix = [con(p)[0] for p in nm]
        dist = con(nm[0])[1]
        m.check(np.allclose(np.asarray(dist.central_value)[ix], d['medians'], rtol=1e-12) and np.allclose(np.asarray(dist.covariance)[np.ix_(ix, ix)], d['covariance'], rtol=1e-9, atol=1e-14), 'external', 'B->pi form factor parameters')
        for p in nm:
            m.event('external', p)
    res = {}
    for l in open(base + 'arXiv-1602-01399v1/LambdabLambda_HO_results.dat'):
        l = l.split()
        if l:
            res[l[0]] = float(l[1])
    cov = {}
    for l in open(base + 'arXiv-1602-01399v1/LambdabLambda_HO_covariance.dat'):
        l = l.split()
        if l:
            cov[l[0], l[1]] = float(l[2])
    import flavio.physics.bdecays.formfactors.lambdab_12.lattice_parameters as lp
    nm = {k: 'Lambdab->Lambda SSE ' + lp.translate_parameters(k) for k in res}
    m.check(len(set(nm.values())) == len(res), 'external', 'names of the Lambdab form factor parameters')
    dist = con(list(nm.values())[0])[1]
    for k, p in nm.items():
        i = con(p)[0]
        m.check(con(p)[1] is dist and rel(dist.central_value[i], res[k]), 'external', 'Lambdab form factor parameter', parameter=p)
        for k2, p2 in nm.items():
            j = con(p2)[0]
            m.check(abs(dist.covariance[i, j] - cov.get((k, k2), 0.)) <= 1e-9 * math.sqrt(dist.covariance[i, i] * dist.covariance[j, j]), 'external', 'Lambdab form factor covariance', parameters=[p, p2])
        m.event('external', p)
    # texts
    for what, reg in (('observable', flavio.Observable.instances), ('parameter', flavio.Parameter.instances)):
        for nm, o in reg.items():
            for k in ('tex', 'description'):
                t = getattr(o, k, None)
                if not isinstance(t, str):
                    continue
                ok = t.count('$') % 2 == 0 and t.count('{') == t.count('}')
                if k == 'tex' or '$' in t:
                    ok = ok and t.count('(') == t.count(')')
                m.check(ok, 'text', 'unbalanced delimiters', of=what, name=nm, attribute=k, text=t)
                m.event('text', (what, nm, k))


def snapshot():
    import flavio
    from checks.p24 import forked as _
    D = flavio.default_parameters

    def desc(d):
        r = [type(d).__name__, np.ravel(np.asarray(d.central_value, float)).tolist()]
        for k in ('covariance', 'error_right', 'error_left'):
            if True:
                try:
                    r.append(np.ravel(np.asarray(getattr(d, k), float)).tolist())
                except Exception:
                    pass
        return r
    mm = {n: [[desc(c), [str(p) for p in ps]] for c, ps in ms._constraints] + [[getattr(ms, a, None) for a in ('inspire', 'experiment', 'url')]] for n, ms in flavio.Measurement.instances.items()}
    pp = {p: [i, desc(d)] for p, (i, d) in D._parameters.items()}
    return mm, pp


def text(x):
    import hashlib
    import json
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()


def digest(snap):
    mm, pp = snap
    return [{k: text(v) for k, v in mm.items()}, {k: text(v) for k, v in pp.items()}, len(mm), len(pp)]


def reload_(m, rng, n, seed):
    import flavio
    warnings.simplefilter('ignore')
    ref = digest(snapshot())

    def again():
        flavio.measurements.read_default()
        flavio.default_parameters.read_default()
        return digest(snapshot())

    def fresh():
        c = flavio.classes.ParameterConstraints()
        c.read_default()
        flavio.default_parameters._parameters = c._parameters
        return digest(snapshot())

    def shuffled(s):
        r = np.random.default_rng(s)
        d = yaml.safe_load(open(DATA + 'measurements.yml'))
        names = list(d)
        r.shuffle(names)
        t = tempfile.mkdtemp(prefix='p28')
        try:
            flavio.Measurement.clear_all()
            k = 0
            out = []
            while k < len(names):
                j = k + int(r.integers(1, 60))
                f = os.path.join(t, 'm%d.yml' % k)
                with open(f, 'w') as g:
                    yaml.safe_dump({x: _plain(d[x]) for x in names[k:j]}, g, sort_keys=False)
                out += flavio.measurements.read_file(f)
                k = j
            assert out == names, 'names returned'
        finally:
            shutil.rmtree(t)
        return digest(snapshot())

    def changed(s):
        # the user's modifications are undone
        r = np.random.default_rng(s)
        D = flavio.default_parameters
        P = sorted(D._parameters)
        for p in r.choice(P, 12, replace=False):
            if r.random() < .4:
                D.remove_constraint(str(p))
            else:
                D.set_constraint(str(p), '%r ± 0.1' % float(r.normal()))
        flavio.Parameter('verif28 extra')
        D.set_constraint('verif28 extra', '1 ± 2')
        D.read_default()
        if 'verif28 extra' in D._parameters or any('verif28 extra' in p for _, p in D._constraints):
            raise RuntimeError('constraints set by the user survive')
        del flavio.Parameter.instances['verif28 extra']
        return digest(snapshot())

    def order(s):
        r = np.random.default_rng(s)
        D = flavio.default_parameters
        t = tempfile.mkdtemp(prefix='p28')
        try:
            u = yaml.safe_load(open(DATA + 'parameters_uncorrelated.yml'))
            u = [(k, _plain(v)) for k, v in u.items() if D._parameters[k][1].dimension in (None, 1)] if False else [(k, _plain(v)) for k, v in u.items()]
            own = {}
            from flavio.parameters import FlavioParticle
            for p in FlavioParticle.flavio_all():
                own[p.flavio_m[0]] = 1
                if p.flavio_tau:
                    own[p.flavio_tau[0]] = 1
            cor = {list(x)[0] for g in yaml.safe_load(open(DATA + 'parameters_correlated.yml')) for x in g['values']}
            u = [x for x in u if x[0] not in own and x[0] not in cor and not re.search(r' (BSZ|BCL|SSE) ', x[0])]
            r.shuffle(u)
            f = os.path.join(t, 'u.yml')
            with open(f, 'w') as g:
                yaml.safe_dump({k: v for k, v in u}, g, sort_keys=False, allow_unicode=True)
            flavio.parameters.read_file_values(f, D)
        finally:
            shutil.rmtree(t)
        return digest(snapshot())
    for name, f in [('again', again), ('fresh', fresh)] + [('changed %d' % i, (lambda i=i: changed(int(seed) * 100 + i))) for i in range(n)] + [('shuffled %d' % i, (lambda i=i: shuffled(int(seed) * 100 + i))) for i in range(n)] + [('order %d' % i, (lambda i=i: order(int(seed) * 100 + i))) for i in range(n)]:
        def safe(f=f):
            try:
                return f()
            except Exception as e:
                return {'error': '%s: %s' % (type(e).__name__, e)}
        got = forked(safe)
        if isinstance(got, dict) and 'error' in got:
            m.violate('reload:' + name.split()[0], 'loading failed', error=got)
            continue
        for i, what in ((0, 'measurements'), (1, 'parameters')):
            bad = sorted(k for k in set(got[i]) | set(ref[i]) if got[i].get(k) != ref[i].get(k))
            m.check(not bad, 'reload:%s:%s' % (name.split()[0], what), 'loading again changes the data', differing=bad[:6], number=len(bad))
        m.event('reload', name)


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return x


def rvalue(rng):
    """(text, central, sigma)"""
    c, s = float(round(rng.normal() * 3, 3)), float(round(rng.uniform(.1, 2), 3))
    k = int(rng.integers(5))
    if k == 0:
        return '%r ± %r' % (c, s), c, s
    if k == 1:
        t = float(round(rng.uniform(.1, 2), 3))
        return '%r ± %r ± %r' % (c, s, t), c, math.hypot(s, t)
    if k == 2:
        t = float(round(rng.uniform(.1, 2), 3))
        return '%r + %r - %r' % (c, s, t), c, math.sqrt(s * t)
    if k == 3:
        e = int(rng.integers(-9, 3))
        return '(%r ± %r) e%d' % (c, s, e), c * 10.**e, s * 10.**e
    return '%.2f(%d)' % (c, 7), round(c, 2), .07


def rcorr(rng, n):
    A = rng.normal(size=(n, n + 2))
    C = A @ A.T
    s = np.sqrt(np.diag(C))
    return np.round(C / np.outer(s, s), 4)


def wcorr(rng, C):
    """One of the documented ways of writing a correlation matrix."""
    n = len(C)
    k = int(rng.integers(3))
    C = [[float(v) for v in r] for r in C]
    if k == 0:
        return C
    if k == 1:
        return [[1.] + C[i][i + 1:] for i in range(n)]
    return [[0.] * i + [1.] + C[i][i + 1:] for i in range(n)]


def user(m, rng, n, seed):
    import flavio
    from flavio.measurements import _fix_correlation_matrix
    warnings.simplefilter('ignore')
    pool0 = ['BR(Bs->mumu)', 'BR(B0->mumu)', 'BR(B->Xsgamma)', 'DeltaM_s', 'DeltaM_d', 'BR(B+->taunu)', 'eps_K']
    pool2 = ['<P5p>(B0->K*mumu)', '<FL>(B0->K*mumu)', '<dBR/dq2>(B+->Kmumu)']
    t = tempfile.mkdtemp(prefix='p28u')
    try:
        for k in range(n):
            content, truth = {}, {}
            for i in range(int(rng.integers(1, 5))):
                name = 'verif28 %d %d' % (k % 3, i)
                nob = int(rng.integers(1, 6))
                tup = bool(rng.random() < .5)
                if tup:
                    e = sorted(set(np.round(rng.uniform(.1, 19, nob + 1), 2)))
                    obs = [(str(rng.choice(pool2)), float(a), float(b)) for a, b in zip(e, e[1:])]
                else:
                    obs = [str(v) for v in rng.choice(pool0, nob, replace=False)]
                vals = [rvalue(rng) for _ in obs]
                if tup:
                    v = [dict(name=o[0], q2min=o[1], q2max=o[2], value=x[0]) for o, x in zip(obs, vals)]
                else:
                    v = {o: x[0] for o, x in zip(obs, vals)}
                d = dict(experiment='verif', values=v)
                if rng.random() < .5:
                    d['inspire'] = 'Verif:%d' % k
                C = None
                if rng.random() < .5 and len(obs) > 1:
                    if rng.random() < .3:
                        r = float(np.round(rng.uniform(0, .9), 3))
                        C = np.eye(len(obs)) * (1 - r) + r
                        d['correlation'] = r
                    else:
                        C = rcorr(rng, len(obs))
                        d['correlation'] = wcorr(rng, C)
                content[name] = d
                truth[name] = (obs, vals, C, d.get('inspire', ''))
            f = os.path.join(t, 'm.yml')
            with open(f, 'w') as g:
                yaml.safe_dump(content, g, sort_keys=False, allow_unicode=True)
            out = m.call('user', flavio.measurements.read_file, f)
            m.check(list(out) == list(content), 'user', 'names returned', got=out)
            how = 'yaml'
            if rng.random() < .4:
                # the format written
                m.call('user', flavio.measurements.write_file, f, [flavio.Measurement[x] if rng.random() < .5 else x for x in content])
                for x in content:
                    flavio.Measurement.del_instance(x)
                out = m.call('user', flavio.measurements.read_file, f)
                m.check(list(out) == list(content), 'user', 'names returned', got=out)
                how = 'written'
            for name, (obs, vals, C, ins) in truth.items():
                ms = flavio.Measurement[name]
                w = dict(entry=content[name], how=how)
                m.check(sorted(map(str, ms.all_parameters)) == sorted(map(str, obs)), 'user', 'observables', got=ms.all_parameters, **w)
                m.check((ms.inspire or '') == ins and ms.experiment == 'verif', 'user', 'attributes', **w)
                if C is not None:
                    dist, ps = ms._constraints[0]
                    sg = np.array([x[2] for x in vals])
                    m.check(len(ms._constraints) == 1 and list(ps) == obs and np.allclose(dist.central_value, [x[1] for x in vals], rtol=1e-9, atol=1e-12 * sg.max()) and np.allclose(dist.covariance, C * np.outer(sg, sg), rtol=1e-7, atol=1e-12 * sg.min()**2), 'user:correlated', 'central values or covariance', **w)
                else:
                    for o, x in zip(obs, vals):
                        c = [c for c, ps in ms._constraints if list(ps) == [o]]
                        if m.check(len(c) == 1, 'user', 'constraints', **w):
                            if how == 'yaml':
                                check_dist(m, c[0], x[0], 'user:value', **w)
                            else:
                                m.check(abs(c[0].central_value - x[1]) <= 1e-9 * abs(x[1]) + 1e-9 * x[2], 'user:value', 'central value', **w)
                m.event('user measurement', (k, name, how))
            # parameters
            P = flavio.default_parameters.copy()
            names = [str(v) for v in rng.choice(['m_W', 'alpha_s', 'Vcb', 'Vub', 'f_B+', 'f_Bs', 'tau_Bs', 'm_t', 'bag_B0_1', 'B->K BSZ a0_f+', 'm_b', 'm_c'], int(rng.integers(2, 6)), replace=False)]
            other = [p for p in P._parameters if p not in names]
            c0 = {p: P.get_central(p) for p in other}
            new = names[0]
            if rng.random() < .5:
                new = 'verif28 par'
                with open(f, 'w') as g:
                    yaml.safe_dump({new: dict(tex='$p_%d$' % k, description='d %d' % k), names[0]: dict(description=flavio.Parameter[names[0]].description, tex=flavio.Parameter[names[0]].tex)}, g)
                m.call('user', flavio.parameters.read_file_metadata, f, P)
                m.check(flavio.Parameter[new].tex == '$p_%d$' % k and flavio.Parameter[new].description == 'd %d' % k, 'user:metadata', 'metadata')
                names = [new] + names[1:]
            hist = []
            cur = {}
            for step in range(int(rng.integers(1, 4))):
                sub = [p for p in names if rng.random() < .7] or names[:1]
                vals = [rvalue(rng) for _ in sub]
                if rng.random() < .5 or len(sub) == 1:
                    with open(f, 'w') as g:
                        yaml.safe_dump({p: x[0] for p, x in zip(sub, vals)}, g, sort_keys=False, allow_unicode=True)
                    m.call('user', flavio.parameters.read_file_values, f, P)
                    for p, x in zip(sub, vals):
                        cur[p] = ('one', x)
                else:
                    C = rcorr(rng, len(sub))
                    with open(f, 'w') as g:
                        yaml.safe_dump([dict(values=[{p: x[0]} for p, x in zip(sub, vals)], correlation=wcorr(rng, C))], g, sort_keys=False, allow_unicode=True)
                    m.call('user', flavio.parameters.read_file_values_correlated, f, P)
                    for i, (p, x) in enumerate(zip(sub, vals)):
                        cur[p] = ('corr', x, i, tuple(sub), C, [v[2] for v in vals])
                hist.append(sub)
            for p, c in cur.items():
                w = dict(parameter=p, text=c[1][0], history=hist)
                i, dist = P._parameters[p]
                cen = P.get_central(p)
                m.check(abs(cen - c[1][1]) <= 1e-9 * (abs(c[1][1]) + c[1][2]), 'user:parameter', 'central value is not the last one read', got=float(cen), expected=c[1][1], **w)
                if c[0] == 'one':
                    check_dist(m, dist, c[1][0], 'user:parameter', **w)
                else:
                    S = np.array(c[5])
                    m.check(i == c[2] and np.allclose(dist.covariance, c[4] * np.outer(S, S), rtol=1e-7, atol=1e-12 * S.min()**2), 'user:parameter', 'covariance', **w)
                m.event('user parameter', (k, p))
            bad = [p for p in c0 if P.get_central(p) != c0[p] and p not in cur]
            m.check(not bad, 'user:parameter', 'other parameters changed', parameters=bad[:5], history=hist)
            bad = [p for p in c0 if flavio.default_parameters.get_central(p) != c0[p]]
            m.check(not bad, 'user:parameter', 'reading into a copy changed the default parameters', parameters=bad[:5])
            with open(f, 'w') as g:
                yaml.safe_dump({'verif28 unknown': '1 ± 2'}, g, allow_unicode=True)
            m.raises(KeyError, 'user:unknown', flavio.parameters.read_file_values, f, P)
            # correlation matrices
            for _ in range(4):
                d = int(rng.integers(1, 7))
                C = rcorr(rng, d)
                if rng.random() < .3:
                    C = np.eye(d) + (C - np.eye(d)) * .01
                X = wcorr(rng, C)
                got = m.call('correlation', _fix_correlation_matrix, X, d)
                m.check(np.allclose(got, C, atol=1e-12), 'correlation', 'correlation matrix', written=X, got=got)
                r = float(rng.uniform(-1, 1))
                got = m.call('correlation', _fix_correlation_matrix, [r, str(r), int(r)][int(rng.integers(3))] if False else r, d)
                m.check(np.allclose(got, np.eye(d) * (1 - r) + r), 'correlation', 'uniform correlation', got=got, r=r)
                if d > 1:
                    bad = [list(q) for q in X]
                    i = int(rng.integers(d))
                    bad[i][i if len(bad[i]) == d else 0] = .5
                    m.raises(ValueError, 'correlation:diagonal', _fix_correlation_matrix, bad, d)
                    m.raises(ValueError, 'correlation:dimension', _fix_correlation_matrix, X[:-1], d)
                    m.raises(ValueError, 'correlation:line', _fix_correlation_matrix, X[:-1] + [[1.] * (d + 3)], d)
                    m.raises(TypeError, 'correlation:type', _fix_correlation_matrix, {'a': 1}, d)
                m.event('correlation', (k, d, r))
    finally:
        for x in [x for x in flavio.Measurement.instances if x.startswith('verif28')]:
            flavio.Measurement.del_instance(x)
        shutil.rmtree(t)


def userdict(m, rng, n, seed):
    """Measurements whose values are dictionaries of distributions, and multivariate distributions."""
    import flavio
    warnings.simplefilter('ignore')
    pool0 = ['BR(Bs->mumu)', 'BR(B0->mumu)', 'BR(B->Xsgamma)', 'DeltaM_s', 'DeltaM_d', 'BR(B+->taunu)', 'eps_K']
    pool2 = ['<P5p>(B0->K*mumu)', '<FL>(B0->K*mumu)', '<dBR/dq2>(B+->Kmumu)']
    t = tempfile.mkdtemp(prefix='p28d')

    def one():
        c, s = float(np.round(rng.normal(), 3)), float(np.round(rng.uniform(.1, 2), 3))
        r = rng.random()
        if r < .4:
            return {'distribution': 'normal', 'central_value': c, 'standard_deviation': s}, ('NormalDistribution', c, s)
        if r < .7:
            # the sum of several independent contributions
            p = [s] + [float(np.round(rng.uniform(.1, 2), 3)) for _ in range(int(rng.integers(1, 3)))]
            return [{'distribution': 'normal', 'central_value': c, 'standard_deviation': x} for i, x in enumerate(p)], ('NormalDistribution', c, math.sqrt(sum(x * x for x in p)))
        if r < .8:
            return {'distribution': 'uniform', 'central_value': c, 'half_range': s}, ('UniformDistribution', c, s)
        if r < .9:
            return {'distribution': 'asymmetric_normal', 'central_value': c, 'right_deviation': s, 'left_deviation': 2 * s}, ('AsymmetricNormalDistribution', c, s)
        return {'distribution': 'delta', 'central_value': c}, ('DeltaDistribution', c, 0)
    try:
        for k in range(n):
            f = os.path.join(t, 'm.yml')
            content, truth = {}, {}
            for i in range(int(rng.integers(1, 4))):
                nob = int(rng.integers(1, 5))
                tup = bool(rng.random() < .5)
                name = 'verif28d %d %d' % (k % 3, i)
                if tup:
                    e = sorted(set(np.round(rng.uniform(.1, 19, nob + 1), 2)))
                    obs = [(str(rng.choice(pool2)), float(a), float(b)) for a, b in zip(e, e[1:])]
                    yobs = [dict(name=o[0], q2min=o[1], q2max=o[2]) for o in obs]
                else:
                    yobs = obs = [str(v) for v in rng.choice(pool0, nob, replace=False)]
                nob = len(obs)
                if rng.random() < .5:
                    v = [one() for _ in obs]
                    content[name] = dict(values={o: x[0] for o, x in zip(obs, v)} if not tup else [dict(o, value=x[0]) for o, x in zip(yobs, v)])
                    truth[name] = (obs, [x[1] for x in v], None)
                    if tup:
                        # a list of contributions can only be given for names
                        for q, o, x in zip(content[name]['values'], obs, list(v)):
                            if isinstance(q['value'], list):
                                y = q['value'][0]
                                q['value'] = y
                        truth[name] = (obs, [x[1] if isinstance(x[0], dict) else ('NormalDistribution', x[0][0]['central_value'], x[0][0]['standard_deviation']) for x in v], None)
                elif nob > 1:
                    parts = int(rng.integers(1, 4))
                    cen = [float(np.round(x, 3)) for x in rng.normal(size=nob)]
                    cov, ys = np.zeros((nob, nob)), []
                    for j in range(parts):
                        C = rcorr(rng, nob)
                        sg = np.round(rng.uniform(.1, 2, nob), 3)
                        cov += np.array(C) * np.outer(sg, sg)
                        ys.append({'distribution': 'multivariate_normal', 'central_value': cen, 'standard_deviation': [float(x) for x in sg], 'correlation': [[float(x) for x in l] for l in C]})
                        if rng.random() < .4:
                            q = ys[-1]
                            q.pop('standard_deviation')
                            q['covariance'] = [[float(x) for x in l] for l in np.array(q.pop('correlation')) * np.outer(sg, sg)]
                    content[name] = dict(observables=yobs, values=ys if parts > 1 or rng.random() < .5 else ys[0])
                    truth[name] = (obs, cen, cov)
                    if not isinstance(content[name]['values'], list):
                        content[name]['values'] = [content[name]['values']]
            if not content:
                continue
            for d in content.values():
                d.update(description='verif', url='http://verif', hepdata='x1')
            with open(f, 'w') as g:
                yaml.safe_dump(content, g, sort_keys=False, allow_unicode=True)
            out = m.call('userdict', flavio.measurements.read_file, f)
            m.check(list(out) == list(content), 'userdict', 'names returned', got=out)
            for name, (obs, val, cov) in truth.items():
                ms = flavio.Measurement[name]
                w = dict(entry=content[name])
                m.check((ms.description, ms.url, ms.hepdata) == ('verif', 'http://verif', 'x1'), 'userdict', 'attributes', **w)
                m.check(sorted(map(str, ms.all_parameters)) == sorted(map(str, obs)), 'userdict', 'observables', got=ms.all_parameters, **w)
                if cov is not None:
                    if m.check(len(ms._constraints) == 1 and list(ms._constraints[0][1]) == obs, 'userdict:multivariate', 'constraints', **w):
                        x = ms._constraints[0][0]
                        m.check(np.allclose(x.central_value, val, atol=1e-9) and np.allclose(x.covariance, cov, rtol=1e-9, atol=1e-10), 'userdict:multivariate', 'central values or covariance are not those given', got=[np.asarray(x.central_value).tolist(), np.asarray(x.covariance).tolist()], expected=[val, cov.tolist()], **w)
                else:
                    for o, (cls, c, s) in zip(obs, val):
                        x = ms._parameters[o][1]
                        ok = type(x).__name__ == cls and abs(x.central_value - c) < 1e-9
                        if cls == 'NormalDistribution':
                            ok = ok and abs(x.standard_deviation - s) < 1e-9
                        elif cls == 'UniformDistribution':
                            ok = ok and abs(x.half_range - s) < 1e-9
                        elif cls == 'AsymmetricNormalDistribution':
                            ok = ok and abs(x.right_deviation - s) < 1e-9 and abs(x.left_deviation - 2 * s) < 1e-9
                        m.check(ok, 'userdict:value', 'not the distribution given', got=repr(x), expected=(cls, c, s), observable=o, **w)
            m.event('user distribution', (seed, k))
    finally:
        for x in [x for x in flavio.Measurement.instances if x.startswith('verif28d')]:
            flavio.Measurement.del_instance(x)
        shutil.rmtree(t)


def tree(rng, root, depth, cnt):
    """Write a random file with includes; returns (relative or absolute reference, content)"""
    cnt[0] += 1
    sub = os.path.join(root, *['d%d' % int(rng.integers(3)) for _ in range(int(rng.integers(0, 3)))])
    os.makedirs(sub, exist_ok=True)
    path = os.path.join(sub, 'f%d.yml' % cnt[0])
    kind = str(rng.choice(['map', 'list', 'scalar'] if depth else ['map', 'list']))
    lines = []

    def ref(p):
        return p if rng.random() < .3 else os.path.relpath(p, sub)

    def leaf():
        v = [int(rng.integers(100)), 'text%d' % int(rng.integers(100)), float(np.round(rng.normal(), 3)), True][int(rng.integers(4))]
        return v, yaml.safe_dump(v).split('\n')[0]
    if kind == 'scalar':
        v, s = leaf()
        content = v
        lines = [s]
    elif kind == 'list':
        content = []
        for i in range(int(rng.integers(1, 4))):
            if depth < 3 and rng.random() < .5:
                p, c = tree(rng, root, depth + 1, cnt)
                lines.append('- !include %s' % ref(p))
                content.append(c)
            else:
                v, s = leaf()
                lines.append('- ' + s)
                content.append(v)
    else:
        content = {}
        for i in range(int(rng.integers(1, 4))):
            r = rng.random()
            if depth < 3 and r < .4:
                p, c = tree(rng, root, depth + 1, cnt)
                lines.append('k%d: !include %s' % (i, ref(p)))
                content['k%d' % i] = c
            elif depth < 3 and r < .7:
                lines.append('k%d: !include_merge_list' % i)
                acc = []
                for j in range(int(rng.integers(1, 4))):
                    q = rng.random()
                    if q < .3:
                        v, s = leaf()
                        if s in os.listdir(sub):
                            continue
                        lines.append('  - ' + s)
                        acc.append(v)
                    else:
                        for _ in range(20):
                            p, c = tree(rng, root, depth + 1, cnt)
                            if isinstance(c, list):
                                break
                        else:
                            continue
                        lines.append('  - ' + ref(p))
                        acc += c
                if not acc and lines[-1].endswith('list'):
                    lines.append('  - 1')
                    acc = [1]
                content['k%d' % i] = acc
            else:
                v, s = leaf()
                lines.append('k%d: %s' % (i, s))
                content['k%d' % i] = v
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return path, content


def includes(m, rng, n, seed):
    import flavio
    from flavio.io import yaml as fy
    warnings.simplefilter('ignore')
    for k in range(n):
        t = tempfile.mkdtemp(prefix='p28i')
        cwd = os.getcwd()
        try:
            os.chdir(tempfile.gettempdir())
            cnt = [0]
            p, c = tree(rng, t, 0, cnt)
            with open(p) as f:
                got = m.call('include', fy.load_include, f)
            m.check(_plain(got) == _plain(c), 'include', 'contents differ', files=cnt[0], got=repr(_plain(got))[:300], expected=repr(c)[:300])
            # relative path of the outer file
            os.chdir(os.path.dirname(p))
            with open(os.path.basename(p)) as f:
                got = m.call('include', fy.load_include, f)
            m.check(_plain(got) == _plain(c), 'include', 'contents differ if opened by a relative path', files=cnt[0])
            # strings: absolute paths only
            got = m.call('include', fy.load_include, 'a: !include %s\n' % p)
            m.check(_plain(got) == {'a': _plain(c)}, 'include', 'contents included from a string')
            m.raises(ValueError, 'include:string', fy.load_include, 'a: !include %s\n' % os.path.basename(p))
            m.raises(FileNotFoundError, 'include:missing', fy.load_include, 'a: !include %s/missing.yml\n' % t)
            if isinstance(c, list):
                with warnings.catch_warnings(record=True) as wn:
                    warnings.simplefilter('always')
                    got = m.call('include', fy.load_include, 'a: !include_merge_list\n  - %s\n  - 3\n  - nofile\n' % p)
                m.check(_plain(got) == {'a': _plain(c) + [3, 'nofile']}, 'include', 'merged list from a string', got=repr(got)[:200])
                m.check(any('absolute' in str(x.message) for x in wn), 'include', 'no warning for a string')
            m.event('include', (k, cnt[0]))
        finally:
            os.chdir(cwd)
            shutil.rmtree(t)


def jobs(tier, seed):
    T = tier != 'quick'
    out = [{'name': 'measurements#%d' % i, 'fn': measurements, 'args': dict(n=1, seed=seed, part=i, parts=4)} for i in range(4)]
    out += [{'name': 'parameters', 'fn': parameters, 'args': dict(n=1, seed=seed)}]
    out += [{'name': 'reload', 'fn': reload_, 'args': dict(n=20 if T else 3, seed=seed)}]
    out += split_jobs('user', user, 1500 if T else 60, 2, seed=seed)
    out += split_jobs('userdict', userdict, 1500 if T else 60, 1, seed=seed)
    out += split_jobs('includes', includes, 3000 if T else 90, 1, seed=seed)
    return out
