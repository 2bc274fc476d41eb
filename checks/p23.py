"""P23: reported dependencies."""
import math
import warnings
import numpy as np
from lib import obs as O, npwc
from lib.util import split_jobs

RULE = ('every observable at random arguments: reported parameters against simultaneous perturbation of all other parameters and against an independent recorder; reported sectors against perturbation of all other Wilson coefficients and an independent recorder; '
        'the recording containers against plain ones; distinct by (observable, arguments)')
ASSUMPTIONS = ['dependencies on Wilson coefficients are reported at the level of sectors, as documented']
MIN = {'parameters': 200, 'wcs': 150, 'containers': 300, 'undisturbed': 200}
SLOW = ('Lambda(1520)',)


class Rec(dict):
    """independent recorder of reads"""

    def __init__(self, d, reads):
        super().__init__(d)
        self.reads = reads

    def __getitem__(self, k):
        self.reads.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, default=None):
        self.reads.add(k)
        return dict.get(self, k, default)

    def copy(self):
        return Rec(self, self.reads)

    __copy__ = copy


def same(m, a, b, sig, msg, **w):
    a, b = complex(np.ravel(a)[0]), complex(np.ravel(b)[0])
    if math.isnan(abs(a)) and math.isnan(abs(b)):
        return True
    return m.check(a == b or abs(a - b) <= 1e-12 * abs(b), sig, msg, observed=a, expected=b, **w)


def recorder(cls):
    class R(cls):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.log = set()

        def match_run(self, scale, eft, basis, sectors='all'):
            self.log.add((scale, eft, basis, sectors))
            return super().match_run(scale, eft, basis, sectors)
    return R


def observables(m, rng, seed, part, parts, frac):
    import flavio
    from wilson import wcxf
    warnings.simplefilter('ignore')
    from flavio.functions import get_dependent_parameters_sm, get_dependent_wcs
    names = [x for i, x in enumerate(sorted(O.usable())) if i % parts == part]
    R = recorder(flavio.WilsonCoefficients)
    B = wcxf.Basis['WET', 'flavio']
    sectors = set(B.sectors)
    par_obj = flavio.default_parameters
    for name in names:
        if rng.random() > frac:
            continue
        try:
            args = O.draw_args(name, rng, narrow=True)
        except KeyError:
            continue
        w = dict(observable=name, args=args)
        kw = dict(zip(flavio.Observable[name].arguments or (), args)) if rng.random() < .3 else {}
        a = () if kw else args
        par = par_obj.get_central_all()
        inst = flavio.Observable[name]
        sm = flavio.sm_prediction(name, *args)
        dep = m.call('get_dependent_parameters_sm', get_dependent_parameters_sm, name, *a, **kw)
        m.check(all(p in flavio.Parameter.instances for p in dep), 'names', 'not names of parameters', **w)
        # an independent record of what is read
        reads = set()
        smwc = flavio.WilsonCoefficients()
        v = inst.prediction_par(Rec(par, reads), smwc, *args)
        same(m, v, sm, 'recorder', 'prediction depends on the kind of dictionary', **w)
        known = {p for p in reads if p in flavio.Parameter.instances}
        m.check(dep <= known, 'never read', 'reported parameters are not read by the prediction', extra=sorted(dep - known), **w)
        # all others may change
        rnd = {p: float(x) for p, x in par_obj.get_random_all().items()}
        other = dict(par)
        for p in par:
            if p not in dep:
                x = par[p]
                other[p] = rnd[p] if rnd[p] != x else (x * 1.1 if x else .1)
        v = m.call('parameters', inst.prediction_par, other, smwc, *args)
        if not same(m, v, sm, 'missing parameter', 'prediction depends on parameters that are not reported', **w):
            # which one?
            for p in par:
                if p not in dep and complex(np.ravel(inst.prediction_par(dict(par, **{p: other[p]}), smwc, *args))[0]) != complex(np.ravel(sm)[0]):
                    m.violate('missing parameter', 'prediction depends on %s, which is not reported' % p, parameter=p, **w)
                    break
        m.event('parameters', (name, args))
        # Wilson coefficients
        tup = m.call('get_dependent_wcs', get_dependent_wcs, name, *a, **kw)
        for t in tup:
            ok = isinstance(t, tuple) and len(t) == 4 and (t[1], t[2]) in wcxf.Basis.instances and (t[3] == 'all' or all(s in wcxf.Basis[t[1], t[2]].sectors for s in t[3]))
            m.check(ok, 'tuples', 'not of the form (scale, eft, basis, sectors)', got=t, **w)
        if all(t[1].startswith('WET') and t[3] != 'all' for t in tup):
            used = {s for t in tup for s in t[3]}
            d = npwc.draw(rng, select=lambda c, s: s not in used)
            for c, s, real in npwc.coefficients():
                # also coefficients without a natural size
                if s not in used and c not in d and rng.random() < .5:
                    d[c] = 1e-4
            if d:
                x = R()
                x.set_initial(d, 91.1876)
                v = flavio.np_prediction(name, x, *args)
                same(m, v, sm, 'missing sector', 'prediction depends on sectors that are not reported', reported=sorted(used), **w)
                m.check(x.log == set(tup), 'other sectors', 'sectors used by the prediction are not those reported', used=sorted(x.log, key=str), reported=sorted(tup, key=str), **w)
            m.event('wcs', (name, args))
        elif any(t[1] == 'SMEFT' for t in tup):
            x = R()
            x.set_initial({'lq1_2223': 1e-12, 'phiG': 1e-12}, 91.1876, 'SMEFT', 'Warsaw')
            flavio.np_prediction(name, x, *args)
            m.check(x.log == set(tup), 'other sectors', 'sectors used by the prediction are not those reported', used=sorted(x.log, key=str), reported=sorted(tup, key=str), **w)
            m.event('wcs', (name, args))
        # later predictions
        same(m, flavio.sm_prediction(name, *args), sm, 'disturbed', 'asking for dependencies changed the prediction', **w)
        m.event('undisturbed', (name, args))


def containers(m, rng, n, seed):
    """Recording dictionaries behave like dictionaries."""
    from flavio.functions import AwareDict
    import copy
    for k in range(n):
        keys = ['k%d' % i for i in range(8)]
        plain = [{q: float(rng.normal()) for q in keys[:5]}]
        aware = [AwareDict(dict(plain[0]))]
        read = set()
        log = []
        for step in range(12):
            i = int(rng.integers(len(plain)))
            p, a = plain[i], aware[i]
            q = keys[int(rng.integers(8))]
            op = str(rng.choice(['get', 'set', 'copy', 'copycopy', 'update', 'in', 'del', 'values']))
            log.append((op, i, q))
            if op == 'get':
                if q in p:
                    m.check(a[q] == p[q], 'containers:get', 'another value than in a dictionary', log=log)
                    read.add(q)
                else:
                    m.raises(KeyError, 'containers:KeyError', a.__getitem__, q)
                    read.add(q)
            elif op == 'set':
                p[q] = a[q] = float(rng.normal())
            elif op == 'copy':
                plain.append(p.copy())
                aware.append(a.copy())
            elif op == 'copycopy':
                plain.append(copy.copy(p))
                aware.append(copy.copy(a))
            elif op == 'update':
                u = {x: float(rng.normal()) for x in keys[:2]}
                p.update(u)
                a.update(u)
            elif op == 'in':
                m.check((q in a) == (q in p), 'containers:in', 'membership differs', log=log)
            elif op == 'del' and q in p:
                del p[q]
                del a[q]
            elif op == 'values':
                m.check(sorted(a.values()) == sorted(p.values()), 'containers:values', 'values differ', log=log)
            for x, y in zip(plain, aware):
                m.check(dict(y) == x, 'containers:content', 'content differs from that of a dictionary', log=log, got=dict(y), expected=x)
                m.check(read <= set(y.akeys) or not isinstance(y, AwareDict), 'containers:akeys', 'reads were not recorded', log=log)
            m.event('containers', (seed, k, step))
        extra = set(aware[0].akeys) - read
        m.check(not extra, 'containers:akeys', 'keys recorded that were not read', extra=sorted(extra), log=log)


def jobs(tier, seed):
    t = tier == 'thorough'
    parts = 12
    return ([{'name': 'observables#%d' % i, 'fn': observables, 'args': {'seed': seed, 'part': i, 'parts': parts, 'frac': 1. if t else .15}} for i in range(parts)]
            + split_jobs('containers', containers, 3000 if t else 200, 1, seed=seed))
