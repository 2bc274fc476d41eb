"""P08: predictions are pure functions of parameters and new physics."""
import copy
import json
import os
import pickle
import re
import sys
import threading
import warnings
import numpy as np
from lib import obs as O
from lib import npwc
from lib.util import split_jobs

RULE = ('every observable predicted in two opposite orders in one process and in a freshly forked process; random histories of predictions (Standard Model, '
        'several kinds of new physics, several parameter points, failing requests, dependency and citation queries) with every value compared to the one of a '
        'freshly forked process; concurrent predictions in threads; snapshots of parameters, coefficients, configuration, registries and random state around '
        'each call; distinct by request or by history step')
ASSUMPTIONS = ['only the NumPy random generator, which flavio draws from, is judged: the wilson package uses the generator of the standard library when it loads bases', 'passing a plain wilson.Wilson object sets its "parameters" option to the CKM parameters by design; its coefficients must not change']
MIN = {'order': 1500, 'history': 300, 'threads': 100, 'snapshot': 2000, 'neighbour': 200}


# ---- fresh evaluation -----------------------------------------------------
def fresh(fn):
    """Result of fn() in a fork of this process (its effects stay there)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def value(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raised', type(e).__name__)


def eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'raised':
        return a[1] == b[1]
    return a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])


# ---- global state ---------------------------------------------------------
class Snapshot:
    def __init__(self):
        import flavio
        self.default = flavio.default_parameters.get_central_all()
        self.items = dict(flavio.default_parameters._parameters)
        self.ncons = len(flavio.default_parameters._constraints)
        self.config = copy.deepcopy(dict(flavio.config))
        self.reg = self._reg()
        self.light()

    @staticmethod
    def _reg():
        import flavio
        from flavio import classes as c
        return [(k, tuple(k.instances), tuple(map(id, k.instances.values()))) for k in (c.Observable, c.Measurement, c.Parameter, c.AuxiliaryQuantity, c.Implementation)] + \
               [tuple(id(o.prediction) for o in c.Observable.instances.values())]

    def light(self):
        s = np.random.get_state()
        self.rnd = (s[0], s[1].tobytes(), s[2:])

    def check_light(self, m, **w):
        s = np.random.get_state()
        m.check(self.rnd == (s[0], s[1].tobytes(), s[2:]), 'state:random', 'state of the NumPy random generator changed', **w)
        self.light()

    def check(self, m, **w):
        import flavio
        self.check_light(m, **w)
        m.check(flavio.default_parameters.get_central_all() == self.default and self.items == dict(flavio.default_parameters._parameters)
                and len(flavio.default_parameters._constraints) == self.ncons, 'state:parameters', 'default parameters changed', **w)
        m.check(dict(flavio.config) == self.config, 'state:config', 'configuration changed', **w)
        m.check(self._reg() == self.reg, 'state:registry', 'registered objects changed', **w)
        m.event('snapshot')


def wc_state(w):
    """what a user can see of an object holding Wilson coefficients"""
    if w is None or getattr(w, 'wc', None) is None:
        return None
    return (w.wc.eft, w.wc.basis, w.wc.scale, json.dumps(w.wc.values, sort_keys=True), str(sorted(w.wc.dict.items())))


# ---- jobs -----------------------------------------------------------------
def order(m, rng, names, wc):
    """All observables in two orders; every value must be the same."""
    import flavio
    wo = make_wc(wc, rng)
    req = []
    for n in names:
        req.append((n, O.draw_args(n, rng)))
    rng.shuffle(req)
    req = [(str(n), tuple(a)) for n, a in req]
    par = flavio.default_parameters.get_central_all()
    keep = dict(par)

    def ev(n, a, w):
        o = flavio.Observable[n]
        return value(lambda: float(o.prediction_par(par, w, *a)))
    # a fork sees the requests in the opposite order, with its own coefficients
    back = fresh(lambda: [ev(n, a, wo) for n, a in req[::-1]])[::-1]
    w0 = wc_state(wo)
    snap = Snapshot()
    first = []
    for i, (n, a) in enumerate(req):
        first.append(ev(n, a, wo))
        m.check(par == keep, 'state:par', 'the parameter dictionary was changed', observable=n, args=a,
                changed=[k for k in set(par) | set(keep) if par.get(k) != keep.get(k)][:5])
        if par != keep:
            par.clear()
            par.update(keep)
        snap.check_light(m, observable=n, args=a)
        m.check(wc_state(wo) == w0, 'state:wc', 'the Wilson coefficients were changed', observable=n, args=a)
        m.event('snapshot')
        if i % 40 == 39:
            snap.check(m, last=[x[0] for x in req[max(0, i - 39):i + 1]])
    snap.check(m)
    for (n, a), f, b in zip(req, first, back):
        m.check(eq(f, b), 'order', 'prediction depends on what was computed before: %r != %r' % (f, b), observable=n, args=a, wc=wc)
        if wc == 'sm':
            m.check(f[0] == 'ok', 'order:raised', 'prediction raised %s' % (f[1],), observable=n, args=a)
        m.event('order', (n, a, wc))
    # a second time, after everything else
    idx = rng.permutation(len(req))[:max(10, len(req) // 3)]
    for i in idx:
        n, a = req[int(i)]
        g = ev(n, a, wo)
        m.check(eq(g, first[int(i)]), 'repeat', 'repeating a prediction changes it: %r != %r' % (g, first[int(i)]), observable=n, args=a, wc=wc)
    m.sample({'request': req[0], 'value': first[0], 'coefficients': wc})


WCS = {
    'wet': dict(eft='WET', basis='flavio', scale=4.8, d={'C9_bsmumu': -1.2 + .3j, 'C10_bsmumu': .5, 'C7p_bs': .05j, 'C9p_bsee': .4, 'CVL_bctaunutau': .1, 'CT_bcmunumu': .05j,
                'CSL_bumunumu': .02, 'CVLL_bsbs': 2e-11, 'CVRR_sdsd': 1e-15j, 'CL_sdnumunumu': .5, 'CVR_suenue': .01, 'CSR_dumunumu': .01}),
    'wet2': dict(eft='WET', basis='flavio', scale=160., d={'C9_bsmumu': .7, 'CSL_bctaunutau': -.2, 'CT_buenue': .1, 'C7_bd': .1, 'CVLR_bdbd': 2e-12, 'CS_bsmumu': .01, 'CL_bsnumunumu': 1.}),
    'wet3': dict(eft='WET', basis='flavio', scale=91.1876, d={'C8_bs': .1, 'CP_bsmumu': .02j, 'CVL_bctaunumu': .3, 'C9_bsemu': .2, 'C10_bsmutau': .3, 'CVR_dcmunumu': .02}),
    'smeft': dict(eft='SMEFT', basis='Warsaw', scale=1000., d={'lq1_2223': 1e-9, 'lq3_3323': 2e-8, 'phiq1_23': 1e-9, 'phil3_22': 1e-8, 'phiG': 1e-9, 'uphi_33': 1e-8, 'dphi_33': 1e-8, 'll_1221': 1e-8,
                  'ledq_2222': 1e-8, 'phiWB': 1e-9, 'lq3_1111': 1e-8, 'W': 1e-8}),
    'smeft2': dict(eft='SMEFT', basis='Warsaw', scale=1000., d={'lq1_2223': -1e-9, 'phiq3_33': 2e-8, 'phie_33': 1e-8, 'phiW': 1e-9, 'ephi_33': 1e-8}),
}


def make_wc(kind, rng):
    import flavio
    import wilson
    if kind == 'sm':
        return flavio.physics.eft._wc_sm
    k, _, form = kind.partition(':')
    c = WCS[k]
    if form == 'wilson':
        return wilson.Wilson(dict(c['d']), scale=c['scale'], eft=c['eft'], basis=c['basis'])
    w = flavio.WilsonCoefficients()
    w.set_initial(dict(c['d']), scale=c['scale'], eft=c['eft'], basis=c['basis'])
    return w


def histories(m, rng, n, length):
    import flavio
    names = O.usable()
    groups = {}
    for x in names:
        i = O.info(x)
        groups.setdefault((i.ini, i.had), []).append(x)
    gk = [k for k in groups if k != (None, None)]
    central = flavio.default_parameters.get_central_all()
    pcons = list(flavio.default_parameters._parameters)
    for case in range(n):
        pool = []
        for _ in range(3):
            g = groups[gk[int(rng.integers(len(gk)))]]
            pool += [g[int(i)] for i in rng.integers(0, len(g), 3)]
        pool += [names[int(i)] for i in rng.integers(0, len(names), 4)]
        req = [(x, O.draw_args(x, rng)) for x in pool]
        if rng.random() < 0.5:
            req += [(x, O.draw_args(x, rng)) for x in pool[:4]]
        np.random.seed(int(rng.integers(2**31)))
        pars = [dict(central), flavio.default_parameters.get_random_all(), flavio.default_parameters.get_random_all()]
        # points that differ from the central one in few parameters the observables read
        deps = sorted(set().union(*[fresh(lambda x=x, a=a: flavio.functions.get_dependent_parameters_sm(x, *a)) for x, a in req[:6]]))
        for _ in range(2):
            p = dict(central)
            for k in rng.choice(deps, min(3, len(deps)), replace=False):
                p[str(k)] = float(pars[1][str(k)]) * (1 + .05 * rng.random())
            pars.append(p)
        kinds = ['sm', 'sm'] + [str(x) for x in rng.choice(['wet', 'wet2', 'wet3', 'wet:wilson', 'smeft2', 'smeft:wilson'], 2, replace=False)]
        wcs = [make_wc(k, rng) for k in kinds]
        pk = [dict(p) for p in pars]
        wk = [wc_state(w) for w in wcs]
        snap = Snapshot()
        memo = {}
        hist = []
        for step in range(length):
            r = rng.random()
            ri, pi, wi = int(rng.integers(len(req))), int(rng.integers(len(pars))), int(rng.integers(len(wcs)))
            if hist and rng.random() < 0.35:   # stay with the last observable, change one thing
                ri = hist[-1][1]
            x, a = req[ri]
            o = flavio.Observable[x]
            if r < 0.08:
                value(lambda: flavio.functions.get_dependent_parameters_sm(x, *a))
                hist.append(('deps', ri))
                continue
            if r < 0.14:
                value(lambda: flavio.functions.get_dependent_wcs(x, *a))
                snap.light()
                hist.append(('dep-wcs', ri))
                continue
            if r < 0.18:
                value(lambda: o.theory_citations(*a))
                hist.append(('cite', ri))
                continue
            if r < 0.24:     # a request that fails half way
                bad = dict(pars[pi])
                bad.pop(str(rng.choice(deps)), None)
                value(lambda: o.prediction_par(bad, wcs[wi], *a))
                hist.append(('fail', ri))
                continue
            if r < 0.27:
                w2 = make_wc('wet', rng)
                w2.set_initial({'C9_bsmumu': 1.}, 4.8)
                value(lambda: flavio.np_prediction(x, w2, *a))
                hist.append(('other', ri))
                continue
            key = (ri, pi, wi)
            if key not in memo:
                memo[key] = fresh(lambda: value(lambda: float(o.prediction_par(dict(pars[pi]), make_wc(kinds[wi], rng), *a))))
            if pi == 0 and rng.random() < 0.5:
                got = value(lambda: float(o.prediction_central(flavio.default_parameters, wcs[wi], *a)))
            else:
                got = value(lambda: float(o.prediction_par(pars[pi], wcs[wi], *a)))
            hist.append(('predict', ri, pi, kinds[wi]))
            w = dict(observable=x, args=a, point=pi, wc=kinds[wi], history=[(h[0], req[h[1]][0]) + tuple(h[2:]) for h in hist[-10:]])
            ref = memo[key]
            ok = eq(got, ref)
            if not ok and got[0] == 'ok' == ref[0] and 'wilson' not in kinds[wi] and kinds[wi] != 'sm':
                ok = False
            m.check(ok, 'history', 'prediction differs from the one of a fresh process: %r != %r' % (got, ref), **w)
            if pars[pi] != pk[pi]:
                m.violate('state:par', 'the parameter dictionary was changed', changed=[(k, pars[pi].get(k), pk[pi].get(k)) for k in set(pars[pi]) | set(pk[pi]) if not pars[pi].get(k) == pk[pi].get(k)][:5], **w)
                pars[pi] = dict(pk[pi])
            m.check(wc_state(wcs[wi]) == wk[wi], 'state:wc', 'the Wilson coefficients were changed', **w)
            m.event('history', (x, a, pi, kinds[wi], step))
            snap.check_light(m, **w)
            if step % 10 == 9:
                snap.check(m, history=[(h[0], req[h[1]][0]) + tuple(h[2:]) for h in hist[-12:]])
        snap.check(m)


def threads(m, rng, n):
    """The same requests from several threads at the same time."""
    import flavio
    names = O.usable()
    old = sys.getswitchinterval()
    for case in range(n):
        pool = [names[int(i)] for i in rng.integers(0, len(names), 24)]
        req = [(x, O.draw_args(x, rng)) for x in pool]
        np.random.seed(int(rng.integers(2**31)))
        pars = [flavio.default_parameters.get_central_all(), flavio.default_parameters.get_random_all()]
        jobs = [(i, j) for i in range(len(req)) for j in range(2)]
        ref = fresh(lambda: {k: value(lambda: float(flavio.Observable[req[k[0]][0]].prediction_par(dict(pars[k[1]]), flavio.physics.eft._wc_sm, *req[k[0]][1]))) for k in jobs})
        out = [dict() for _ in range(4)]

        def work(t, order_):
            for k in order_:
                out[t][k] = value(lambda: float(flavio.Observable[req[k[0]][0]].prediction_par(pars[k[1]], flavio.physics.eft._wc_sm, *req[k[0]][1])))
        sys.setswitchinterval(1e-5)
        th = [threading.Thread(target=work, args=(t, [jobs[int(i)] for i in rng.permutation(len(jobs))])) for t in range(4)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        sys.setswitchinterval(old)
        for t in range(4):
            for k in jobs:
                m.check(eq(out[t][k], ref[k]), 'threads', 'prediction in a thread differs: %r != %r' % (out[t][k], ref[k]), observable=req[k[0]][0], args=req[k[0]][1])
                m.event('threads', (req[k[0]], k[1]))


NEIGH = ['gamma', 'Vus', 'Vub', 'Vcb', 'alpha_s', 'alpha_e', 'm_b', 'm_c', 'm_t', 'm_s', 'm_Z', 'GF', 'm_B0', 'm_Bs', 'tau_B0', 'm_mu', 'm_K+', 'm_W', 'f_B0', 'lambda_B0']


def family(x):
    return re.sub(r'(mu|tau|e|nu|l)+', 'l', re.sub(r'[0+*-]', '', x))


def neighbours(m, rng, keys, n):
    """Points that differ in a single parameter or a single Wilson coefficient, in both orders."""
    import flavio
    names = O.usable()
    for key in keys:
        np.random.seed(int(rng.integers(2**31)))
        p1 = O.random_par()
        p2 = dict(p1)
        pk = key if key != '*' else sorted(p1)[int(rng.integers(len(p1)))]
        if key == 'wc':
            d1 = npwc.draw(rng, density=.3)
            d2 = dict(d1)
            for k in list(d2)[::7]:
                d2[k] = d2[k].conjugate() if isinstance(d2[k], complex) else -d2[k]
            ws = []
            for d in (d1, d2):
                w = flavio.WilsonCoefficients()
                w.set_initial(d, 4.8)
                ws.append(w)
        else:
            if pk not in p1:
                continue
            p2[pk] *= 1 + float(rng.choice([-1, 1])) * .02
            ws = [flavio.physics.eft._wc_sm] * 2
        req = []
        # different kinds of observables first: every kind has its own code
        fam = {}
        for j in rng.permutation(len(names)):
            x = str(names[int(j)])
            fam.setdefault(family(x), x)
        fam = list(fam.values())
        quick = [x for x in fam if x[0] != '<']
        for x in (quick + [x for x in fam if x[0] == '<'][:n])[:4 * n]:
            req.append((x, tuple(O.draw_args(x, rng))))

        def ev(i, x, a):
            o = flavio.Observable[x]
            return value(lambda: float(o.prediction_par((p1, p2)[i], ws[i], *a)))

        def both(order):
            r = {}
            for i in order:
                r[i] = [ev(i, x, a) for x, a in req]
            return r
        A, B = fresh(lambda: both((0, 1))), fresh(lambda: both((1, 0)))
        # alternating
        C = fresh(lambda: [(ev(0, x, a), ev(1, x, a)) for x, a in req])
        for j, (x, a) in enumerate(req):
            for i in (0, 1):
                m.check(eq(A[i][j], B[i][j]), 'neighbour', 'prediction depends on whether it was preceded by one with another value of %s: %r != %r' % (pk, A[i][j], B[i][j]), observable=x, args=a, changed=pk)
                m.check(eq(A[i][j], C[j][i]), 'neighbour', 'prediction depends on whether it was preceded by one with another value of %s: %r != %r' % (pk, A[i][j], C[j][i]), observable=x, args=a, changed=pk)
            m.event('neighbour', (key, x, a))


def jobs(tier, seed):
    t = tier == 'thorough'
    names = O.usable()
    out = []
    for wc in ['sm', 'wet'] + (['wet2', 'smeft', 'wet3', 'smeft2', 'wet:wilson'] if t else []):
        k = 8
        nm = names
        if wc != 'sm' and not t:
            nm = [x for i, x in enumerate(names) if (i + seed) % 4 == 0]
        for i in range(k):
            out.append({'name': 'order-%s#%d' % (wc, i), 'fn': order, 'args': {'names': nm[i::k], 'wc': wc}})
    out += split_jobs('history', histories, 240 if t else 24, 24 if t else 12, length=60 if t else 36)
    out += split_jobs('threads', threads, 40 if t else 4, 4)
    keys = (NEIGH + ['wc', '*', 'wc', '*']) * (5 if t else 1)
    out += [{'name': 'neighbour#%d' % i, 'fn': neighbours, 'args': {'keys': keys[i::8], 'n': 120 if t else 25}} for i in range(8)]
    return out
