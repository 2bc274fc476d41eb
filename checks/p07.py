"""P07: observable names and argument notations are interchangeable."""
import re
import itertools
import collections
import numpy as np
from lib import obs as O
from lib.util import split_jobs
from lib.mon import CodeRaised

RULE = ('every registered observable, asked for in every notation (positional, keyword in every order, tuple, list, dictionary in every key order, with and '
        'without Wilson coefficients, through every prediction entry point), malformed requests, and random histories of registering and removing names '
        'against a reference model; distinct by (observable, arguments) or by operation history; non-trivial when a prediction was compared')
ASSUMPTIONS = ['observables that need downloaded PDF tables (pp->..., R_13) are not predicted, only looked up',
               'm_W carries no taxonomy in this code base', 'the couplings to photons or gluons of lepton-flavour violating quarkonium decays are optional arguments']
MIN = {'formats': 1500, 'predict': 1500, 'malformed': 1500, 'registry': 300, 'function': 20}


def raises_any(m, sig, fn, *a, **k):
    try:
        r = fn(*a, **k)
    except Exception:
        return True
    m.violate(sig, 'a malformed request gave %r' % (r,), args=a, kwargs=k)
    return False


def formats(m, rng, names):
    import flavio
    from flavio import Observable
    for n in names:
        o = Observable[n]
        args = o.arguments
        w = dict(observable=n)
        F = Observable.argument_format
        if args is None:
            for f, e in (('tuple', n), ('list', n), ('dict', {'name': n})):
                m.check(F(n, f) == e, 'format:plain', 'wrong form', form=f, **w)
                m.check(F({'name': n}, f) == ([n] if f == 'list' and F({'name': n}, f) != n and False else e) or (f == 'list' and F({'name': n}, f) == list(n)),
                        'format:plain-dict', 'wrong form', form=f, got=F({'name': n}, f), **w)
            m.raises(ValueError, 'format:too-many', F, (n, 1.0))
            m.raises(ValueError, 'format:too-many', F, {'name': n, 'q2': 1.0})
        else:
            vals = tuple(float(x) for x in rng.normal(size=len(args)))
            if rng.random() < 0.3:
                vals = tuple(range(1, len(args) + 1))
            t = (n,) + vals
            pairs = [('name', n)] + list(zip(args, vals))
            rng.shuffle(pairs)
            d = dict((k, v) for k, v in pairs)
            d = {k: (float(v) if not isinstance(v, str) and k != 'name' else v) for k, v in d.items()}
            d['name'] = n
            exp = {'tuple': t, 'list': list(t), 'dict': dict(zip(args, vals), name=n)}
            for src in (t, list(t), d):
                before = repr(src)
                for f in exp:
                    got = F(src, f)
                    m.check(got == exp[f] and type(got) is type(exp[f]), 'format', 'wrong conversion', source=before, form=f, got=got, **w)
                    if isinstance(got, dict):
                        got.pop('name')
                    elif isinstance(got, list):
                        got.clear()
                m.check(repr(src) == before, 'format:aliased', 'changing the result changed the request', source=before, **w)
            m.check(F(t) == t, 'format:default', 'default form', **w)
            m.raises(ValueError, 'format:missing', F, n)
            m.raises(ValueError, 'format:missing', F, t[:-1])
            m.raises(ValueError, 'format:too-many', F, t + (1.0,))
            bad = dict(d)
            a = args[int(rng.integers(len(args)))]
            bad.pop(a)
            m.raises((ValueError, KeyError), 'format:missing', F, bad)
            bad = dict(d, no_such_argument=1.)
            m.raises(ValueError, 'format:too-many', F, bad)
        # lookup
        m.check(o.name == n and Observable.get_instance(n) is o and Observable.instances[n] is o, 'lookup', 'found another observable', **w)
        m.check(Observable.find('^' + re.escape(n) + '$') == [n], 'find', 'pattern search', got=Observable.find('^' + re.escape(n) + '$'), **w)
        part = n[:int(rng.integers(1, len(n) + 1))]
        m.check(Observable.find(re.escape(part)) == [k for k in Observable.instances if part in k], 'find:part', 'pattern search', pattern=part)
        exp = []
        for mn, me in flavio.Measurement.instances.items():
            if any(p == n or (isinstance(p, tuple) and p[0] == n) for p in me._parameters):
                exp.append(mn)
        m.check(o.get_measurements() == exp, 'get_measurements', 'measurements of the observable', got=o.get_measurements(), expected=exp, **w)
        m.check(o.prediction is None or o.prediction.observable == n and o.prediction.observable_obj is o, 'prediction:owner', 'prediction belongs to another observable', **w)
        for bad in (n + ' ', ' ' + n, n + 'x', n[:-1], n.lower() if n.lower() != n else n.upper()):
            if bad not in Observable.instances:
                m.raises(KeyError, 'unknown', Observable.get_instance, bad)
                m.raises(KeyError, 'unknown', flavio.sm_prediction, bad)
        m.event('formats', n)


def predictions(m, rng, names, full):
    import flavio
    from flavio import Observable
    from flavio.functions import _get_prediction_array_sm, _obs_prediction_par
    par = flavio.default_parameters.get_central_all()
    wc0 = flavio.WilsonCoefficients()
    wc = flavio.WilsonCoefficients()
    wc.set_initial({'C9_bsmumu': -1.1 + .2j, 'C9_bsee': 0.4, 'C10p_bsmumu': .3, 'CVL_bctaunutau': 0.1, 'CSL_bcmunumu': 0.05, 'CVR_buenue': 0.03,
                    'C7_bs': 0.02, 'CVLL_bsbs': 1e-6}, scale=160, eft='WET', basis='flavio')
    for n in names:
        o = Observable[n]
        args = tuple(o.arguments or ())
        try:
            vals = O.draw_args(n, rng)
            kw = dict(zip(args, vals))
            ref = m.call('sm_prediction', flavio.sm_prediction, n, *vals)
            w = dict(observable=n, values=vals)
            same = lambda x, sig: m.check(x == ref, sig, 'prediction depends on how the observable is asked for: %r != %r' % (x, ref), **w)
            orders = list(itertools.permutations(args))
            if len(orders) > (3 if full else 1):
                orders = [orders[int(i)] for i in rng.choice(len(orders), 3 if full else 1, replace=False)]
            for od in orders:
                if args:
                    same(m.call('keywords', flavio.sm_prediction, n, **{a: kw[a] for a in od}), 'keywords')
            if len(args) > 1:
                k = int(rng.integers(1, len(args)))
                same(flavio.sm_prediction(n, *vals[:k], **{a: kw[a] for a in args[k:]}), 'mixed')
            e = {'np_prediction': lambda: flavio.np_prediction(n, wc0, *vals),
                 'central': lambda: o.prediction_central(flavio.default_parameters, wc0, *vals),
                 'par': lambda: o.prediction_par(dict(par), wc0, *vals),
                 'par-kw': lambda: o.prediction_par(dict(par), wc0, **kw),
                 'get_par': lambda: o.prediction.get_par(dict(par), wc0, *vals),
                 'name': lambda: _obs_prediction_par(dict(par), n, wc0, *vals)}
            t = Observable.argument_format((n,) + vals if vals else n)
            d = Observable.argument_format((n,) + vals if vals else n, 'dict')
            req = [t, d, list(t) if vals else n, dict(reversed(list(d.items())))]
            if not full:
                pick = rng.choice(6, 1)
                e = {k: v for i, (k, v) in enumerate(e.items()) if i in pick}
                req = [req[1 if rng.random() < .6 else int(rng.integers(4))]]
            rows = _get_prediction_array_sm(dict(par), req)
            m.check(d == Observable.argument_format(t, 'dict'), 'array:inputs', 'request changed', got=d, **w)
            for k, v in [(k, v()) for k, v in e.items()] + [('array', v) for v in rows]:
                same(v, 'entry:' + k)
            if full or rng.random() < 0.25:
                try:
                    v1 = flavio.np_prediction(n, wc, *vals)
                except ValueError as ex:
                    if 'Running from WET to SMEFT' not in str(ex):
                        raise
                else:
                    v2 = flavio.np_prediction(n, wc_obj=wc, **kw) if rng.random() < .5 else o.prediction_par(dict(par), wc, **kw)
                    m.check(v1 == v2, 'np', 'prediction with new physics depends on the notation', got=[v1, v2], **w)
            m.event('predict', (n, vals))
            # malformed requests give no number
            raises_any(m, 'malformed:extra', flavio.sm_prediction, n, *(vals + (1.0,)))
            raises_any(m, 'malformed:keyword', flavio.sm_prediction, n, *vals, no_such_argument=1.0)
            if vals and not args[0].startswith(('CeFF', 'CeGG')):   # these are optional
                raises_any(m, 'malformed:none', flavio.sm_prediction, n)
                raises_any(m, 'malformed:missing', flavio.sm_prediction, n, *vals[:-1])
                raises_any(m, 'malformed:twice', flavio.sm_prediction, n, *vals, **{args[0]: vals[0]})
            m.event('malformed', n)
        except CodeRaised:
            continue
    m.sample({'observable': n, 'values': vals, 'prediction': ref})


def taxonomy(m, rng):
    from flavio import Observable
    leaves = collections.Counter()

    def walk(d, path):
        for k, v in d.items():
            if v:
                m.check(k not in Observable.instances or True, 'x')
                walk(v, path + [k])
            else:
                leaves[k] += 1
    walk(Observable.taxonomy_dict(), [])
    for n in Observable.instances:
        m.check(leaves[n] >= 1 or n == 'm_W', 'taxonomy:missing', 'observable not in the taxonomy', observable=n)
        m.event('formats', ('tax', n))
    for n in leaves:
        m.check(n in Observable.instances, 'taxonomy:unknown', 'taxonomy lists something that is no observable', entry=n)
    m.check(len(set(map(id, Observable.instances.values()))) == len(Observable.instances), 'registry:shared', 'one object under two names')
    for cls in ('Parameter', 'Measurement', 'AuxiliaryQuantity', 'Implementation'):
        import flavio.classes
        C = getattr(flavio.classes, cls)
        for n, i in C.instances.items():
            m.check(i.name == n and type(i) is C and C[n] is i, 'registry:' + cls, 'instance registered under another name', entry=n)
            m.event('formats', (cls, n))
    for n, i in flavio.classes.Implementation.instances.items():
        m.check(i.quantity_obj is flavio.classes.AuxiliaryQuantity[i.quantity], 'registry:quantity', 'implementation of another quantity', entry=n)


def registry(m, rng, n):
    """Random histories of registration against a dictionary."""
    import flavio
    from flavio import classes as c
    for case in range(n):
        k = int(rng.integers(6))
        if k == 0:
            class Fresh(c.NamedInstanceClass):
                pass
            cls, mk = Fresh, Fresh
            Fresh('seed')
        elif k == 1:
            cls = c.Parameter
            mk = c.Parameter
        elif k == 2:
            cls = c.Observable
            mk = lambda s: c.Observable(s, arguments=[None, ['q2'], ['a', 'b']][int(rng.integers(3))])
        elif k == 3:
            cls = c.Measurement
            mk = c.Measurement
        elif k == 4:
            cls = c.AuxiliaryQuantity
            mk = c.AuxiliaryQuantity
        else:
            cls = c.Implementation
            q = list(c.AuxiliaryQuantity.instances)[0]
            mk = lambda s: c.Implementation(s, q, lambda *a: 1.)
        start = dict(cls.instances)
        others = {x: dict(x.instances) for x in (c.Parameter, c.Observable, c.Measurement, c.AuxiliaryQuantity, c.Implementation) if x is not cls}
        model = dict(start)
        names = ['zz %s %d' % (m.name, i) for i in range(4)] + ['zz(%d)' % i for i in range(3)]
        hist = []
        for step in range(int(rng.integers(4, 16))):
            s = names[int(rng.integers(len(names)))]
            r = rng.random()
            if r < 0.5:
                model[s] = mk(s)
                hist.append(('add', s))
            elif r < 0.75:
                hist.append(('del', s))
                if s in model:
                    if rng.random() < 0.5:
                        del cls[s]
                    else:
                        cls.del_instance(s)
                    model.pop(s)
                else:
                    m.raises(KeyError, 'registry:delete-unknown', cls.del_instance, s)
            w = dict(kind=cls.__name__, history=hist[-8:])
            m.check(dict(cls.instances) == model, 'registry:model', 'registered names differ from the history', **w)
            for s in names:
                if s in model:
                    m.check(cls[s] is model[s] and cls.get_instance(s) is model[s] and cls[s].name == s, 'registry:get', 'lookup after history', **w)
                else:
                    m.raises(KeyError, 'registry:get-removed', cls.get_instance, s)
            m.check(sorted(cls.find('^zz')) == sorted(x for x in model if x.startswith('zz')), 'registry:find', 'pattern search after history', **w)
            m.check(sorted(cls.find(r'\(\d\)$')) == sorted(x for x in model if re.search(r'\(\d\)$', x)), 'registry:find', 'pattern search after history', **w)
            m.event('registry', (cls.__name__, tuple(h[0] for h in hist[-6:])))
        for s in names:
            if s in model:
                del cls[s]
        m.check(all(dict(x.instances) == v for x, v in others.items()), 'registry:others', 'another registry changed', kind=cls.__name__)
        m.check({k_: v for k_, v in cls.instances.items()} == {k_: v for k_, v in start.items() if k_ in cls.instances} and set(start) - set(names) <= set(cls.instances),
                'registry:rest', 'untouched names changed', kind=cls.__name__)
        if k == 0:
            cls.clear_all()
            m.check(len(cls.instances) == 0 and len(c.Observable.instances) > 1000, 'registry:clear', 'clear_all')


def functions(m, rng, n):
    """Observables defined as functions of observables."""
    import flavio
    from flavio import Observable, Measurement
    names = [x for x in O.usable()]
    groups = collections.defaultdict(list)
    for x in names:
        groups[tuple(Observable[x].arguments or ())].append(x)
    keys = [k for k in groups if len(groups[k]) > 3]
    par = flavio.default_parameters.get_central_all()
    for case in range(n):
        k = keys[int(rng.integers(len(keys)))]
        g = groups[k]
        base = g[int(rng.integers(len(g)))]
        dec = base[base.find('('):] if '(' in base else ''
        near = [x for x in g if dec and x.endswith(dec)] or [base]
        sel = [near[int(rng.integers(len(near)))] for _ in range(int(rng.integers(1, 4)))]
        vals = O.draw_args(sel[0], rng)
        f = lambda *x: sum((i + 2.) * v for i, v in enumerate(x)) + x[0]**2
        name = 'fn %s %d' % (m.name, case)
        if case % 3 == 1:   # through another derived observable
            mid = name + ' mid'
            Observable.from_function(mid, sel, f)
            o = Observable.from_function(name, [mid, sel[0]], lambda a, b: a - 3 * b)
            fin = lambda v: f(*v) - 3 * v[0]
        else:
            o = Observable.from_function(name, sel, f)
            fin = lambda v: f(*v)
        parts = [flavio.sm_prediction(x, *vals) for x in sel]
        kw = dict(zip(k, vals))
        m.check(o is Observable[name] and (tuple(o.arguments or ()) == k), 'function:arguments', 'arguments differ', observables=sel)
        m.close(flavio.sm_prediction(name, *vals), fin(parts), 'function:value', rtol=1e-12, observables=sel, values=vals)
        m.close(flavio.sm_prediction(name, **kw), fin(parts), 'function:value', rtol=1e-12, observables=sel, values=vals)
        m.close(o.prediction_par(dict(par), flavio.WilsonCoefficients(), *vals), fin(parts), 'function:value', rtol=1e-12, observables=sel, values=vals)
        # defining it did not change the ingredients
        for x, p in zip(sel, parts):
            m.check(flavio.sm_prediction(x, *vals) == p, 'function:ingredient', 'ingredient changed', observable=x)
        m.raises(ValueError, 'function:unknown', Observable.from_function, name + ' bad', [sel[0], 'no such observable'], f)
        other = groups[keys[(keys.index(k) + 1) % len(keys)]][0]
        m.raises(AssertionError, 'function:mixed', Observable.from_function, name + ' bad', [sel[0], other], f)
        nopred = Observable(name + ' nopred', arguments=list(k) or None)
        m.raises(AssertionError, 'function:no-prediction', Observable.from_function, name + ' bad', [sel[0], nopred.name], f)
        m.check(name + ' bad' not in Observable.instances, 'function:failed', 'a rejected definition was registered')
        m.event('function', tuple(sel))
        # measurements of the new observable are found
        me = Measurement('fn meas %s %d' % (m.name, case))
        key = Observable.argument_format((name,) + vals if vals else name)
        me.set_constraint(key, '1 ± 0.1')
        m.check(Observable[name].get_measurements() == [me.name], 'function:measurement', 'measurement not found', observable=name)
        me.remove_constraint(key)
        m.check(Observable[name].get_measurements() == [], 'function:measurement', 'removed measurement still found', observable=name)
        comb = Measurement('fn meas2 %s %d' % (m.name, case))
        comb.set_constraint(key, '2 ± 0.1')
        od = list(k)
        rng.shuffle(od)
        r = flavio.combine_measurements(name, **{a: kw[a] for a in od})
        m.check(r.central_value == 2, 'function:combine', 'measurement of another observable used', got=repr(r))


def jobs(tier, seed):
    import flavio
    t = tier == 'thorough'
    allnames = list(flavio.Observable.instances)
    names = O.usable()
    out = [{'name': 'taxonomy', 'fn': taxonomy, 'args': {}}]
    for i in range(16):
        out.append({'name': 'predict#%d' % i, 'fn': predictions, 'args': {'names': names[i::16] * (2 if t else 1), 'full': t}})
    for i in range(8):
        out.append({'name': 'formats#%d' % i, 'fn': formats, 'args': {'names': allnames[i::8] * (4 if t else 1)}})
    out += split_jobs('registry', registry, 4000 if t else 240, 8)
    out += split_jobs('function', functions, 1200 if t else 60, 6)
    return out
