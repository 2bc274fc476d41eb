"""P24: citations."""
import ast
import json
import os
import re
import sys
import warnings
import zlib
import numpy as np
from lib import obs as O
from lib.util import split_jobs

RULE = ('every observable at fixed arguments in a forked process with cold caches: papers registered against the code that was executed (profile hook) and against the committed table of papers per observable; '
        'random histories of predictions with warm caches against the cold sets; unions; register/clear/reset/collect against a set model; distinct by (observable, arguments) or history')
ASSUMPTIONS = ['the committed table of papers per observable was taken from the pinned commit (after the fixes) and reviewed against the docstrings']
MIN = {'cold': 150, 'warm': 150, 'union': 20, 'register': 50, 'processes': 3, 'keys': 90}
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'citations.json')
KEY = re.compile(r"^[A-Za-z][A-Za-z'\-]*:\d{4}[a-z]{2,3}$")


def declared():
    """{(file, first line): (keys registered unconditionally, all keys)} from the source."""
    import flavio
    root = os.path.dirname(os.path.abspath(flavio.__file__))
    out = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for r, d, fs in os.walk(root):
            for f in fs:
                if not f.endswith('.py') or f.startswith('test_') or f == 'citations.py':
                    continue
                path = os.path.join(r, f)
                for fn in ast.walk(ast.parse(open(path).read())):
                    if not isinstance(fn, ast.FunctionDef):
                        continue

                    def keys(node):
                        return {c.args[0].value for c in ast.walk(node)
                                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'register' and 'citations' in ast.dump(c.func)
                                and c.args and isinstance(c.args[0], ast.Constant)}
                    al = keys(fn)
                    if not al:
                        continue
                    sure = set()
                    for s in fn.body:
                        if isinstance(s, ast.Expr):
                            sure |= keys(s)
                        elif any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s)):
                            break
                    line = min([fn.lineno] + [x.lineno for x in fn.decorator_list])
                    out[(os.path.realpath(path), line)] = (sure, al)
    return out


def fixed_args(name):
    rng = np.random.default_rng(zlib.crc32(name.encode()))
    return O.draw_args(name, rng, narrow=True)


def own():
    """A register not shared with the other jobs (registers are shared between forked processes)."""
    import flavio
    flavio.citations = type(flavio.citations)(['Straub:2018kue'])


class ChildRaised(Exception):
    def __init__(self, out):
        super().__init__('in a child process: ' + out['__raised__'])
        self.repo = out['repo']


def from_repo(tb):
    from lib.runner import from_repo
    return from_repo(tb)


def forked(fn):
    """Result (JSON) of fn() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = json.dumps(fn()).encode()
            except Exception as e:
                out = json.dumps({'__raised__': '%s: %s' % (type(e).__name__, str(e)[:300]), 'repo': from_repo(e.__traceback__)}).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        s = f.read()
    os.waitpid(pid, 0)
    out = json.loads(s) if s else None
    if isinstance(out, dict) and '__raised__' in out:
        raise ChildRaised(out)
    return out


def cold(name, args, decl):
    """Papers and executed registering functions in a process that has predicted nothing before."""
    import flavio

    def run():
        seen = set()

        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                seen.add((c.co_filename, c.co_firstlineno))
        rp = {}
        with flavio.citations.collect() as c:
            sys.setprofile(prof)
            try:
                v = flavio.sm_prediction(name, *args)
            finally:
                sys.setprofile(None)
            got = sorted(c.set)
        sure, al = set(), set()
        for f, l in seen:
            if f not in rp:
                rp[f] = os.path.realpath(f)
            if (rp[f], l) in decl:
                sure |= decl[rp[f], l][0]
                al |= decl[rp[f], l][1]
        x = np.ravel(v)[0]
        return {'got': got, 'sure': sorted(sure), 'all': sorted(al), 'v': [float(np.real(x)), float(np.imag(x))]}
    return forked(run)


def observables(m, rng, seed, part, parts, frac):
    import flavio
    own()
    warnings.simplefilter('ignore')
    names = [x for i, x in enumerate(sorted(O.usable())) if i % parts == part]
    decl = declared()
    gold = json.load(open(TABLE))
    ref = {}
    for name in names:
        if rng.random() > frac:
            continue
        try:
            args = fixed_args(name)
        except KeyError:
            continue
        w = dict(observable=name, args=args)
        c = cold(name, args, decl)
        if not m.check(c is not None, 'crash', 'no prediction', **w):
            continue
        got, sure, al = set(c['got']), set(c['sure']), set(c['all'])
        m.check(sure <= got, 'ingredient not cited', 'an ingredient was used, its paper is not reported', missing=sorted(sure - got), **w)
        m.check(got <= al, 'unused cited', 'papers of ingredients that were not used', extra=sorted(got - al), **w)
        m.check(all(KEY.match(k) for k in got), 'key', 'not a literature key', got=sorted(got), **w)
        if name in gold:
            m.check(set(gold[name]) <= got, 'paper missing', 'papers of the table are not reported', missing=sorted(set(gold[name]) - got), **w)
        m.event('cold', (name, args))
        ref[name] = (args, got, c['v'])
    # histories with warm caches, in this process
    order = list(ref) * 2
    rng.shuffle(order)
    flavio.citations.reset()
    default = set(flavio.citations.set)
    for name in order:
        args, exp, v0 = ref[name]
        w = dict(observable=name, args=args)
        before = set(flavio.citations.set)
        how = rng.random()
        if how < .4:
            inst = flavio.Observable[name]
            got = m.call('theory_citations', inst.theory_citations, *args)
            m.check(set(flavio.citations.set) == before, 'scope leaks', 'theory_citations changed the global register', **w)
            form = 'theory_citations'
        elif how < .7:
            with flavio.citations.collect() as c:
                x = np.ravel(flavio.sm_prediction(name, *args))[0]
            got = set(c)
            m.check(abs(complex(*v0) - complex(x)) <= 1e-12 * abs(complex(*v0)) or complex(*v0) != complex(*v0), 'prediction', 'prediction depends on the collection', observed=complex(x), expected=complex(*v0), **w)
            m.check(set(flavio.citations.set) == before, 'scope leaks', 'collecting changed the global register', **w)
            form = 'collect'
        else:
            flavio.citations.clear()
            flavio.sm_prediction(name, *args)
            got = set(flavio.citations.set)
            form = 'clear'
            if rng.random() < .5:
                flavio.citations.reset()
                m.check(set(flavio.citations.set) == default, 'reset', 'reset does not restore the default', **w)
        m.check(got == exp, 'history', 'papers depend on earlier predictions', form=form, missing=sorted(exp - got), extra=sorted(got - exp), **w)
        m.event('warm', (name, form))
    # unions
    names = list(ref)
    for k in range(len(names) // 4):
        sel = [names[int(i)] for i in rng.choice(len(names), int(rng.integers(2, 5)), replace=False)]
        exp = set().union(*[ref[s][1] for s in sel])
        with flavio.citations.collect() as c:
            for s in sel:
                flavio.sm_prediction(s, *ref[s][0])
        m.check(set(c.set) == exp, 'union', 'papers of several observables are not the union', observables=sel, missing=sorted(exp - set(c.set)), extra=sorted(set(c.set) - exp))
        m.event('union', tuple(sel))


def register(m, rng, n, seed):
    """Random histories of the register against a set."""
    import flavio
    own()
    import yaml
    keys = yaml.safe_load(open(os.path.join(os.path.dirname(flavio.__file__), 'data', 'citations.yml')))
    m.check(len(keys) == len(set(keys)), 'file', 'a key is listed twice')
    for k in keys:
        m.check(bool(KEY.match(k)), 'file', 'not a literature key', key=k)
        with flavio.citations.collect() as c:
            flavio.citations.register(k)
        m.check(c.set == {k} and list(c) == [k] and str(c) == c.string == k, 'single', 'a registered key is not reported', key=k)
        m.event('keys', k)
    for t in range(n):
        top = flavio.citations
        top.reset()
        stack = [set(top.set)]
        objs = [top]
        scopes = []
        hist = []
        for s in range(40):
            r = rng.random()
            if r < .5:
                k = keys[int(rng.integers(len(keys)))]
                flavio.citations.register(k)
                stack[-1].add(k)
                hist.append(k)
            elif r < .6:
                flavio.citations.clear()
                stack[-1].clear()
                hist.append('clear')
            elif r < .68:
                flavio.citations.reset()
                stack[-1].clear()
                if len(stack) == 1:
                    stack[-1].add('Straub:2018kue')
                hist.append('reset')
            elif r < .74:
                bad = str(rng.choice(['nobody:2020abc', '', 'Straub', 'straub:2018kue']))
                m.raises(KeyError, 'unknown key', flavio.citations.register, bad)
                hist.append('bad')
            elif r < .87 and len(stack) < 4:
                sc = top.collect()
                objs.append(sc.__enter__())
                m.check(flavio.citations is objs[-1], 'enter', 'scope is not active')
                scopes.append(sc)
                stack.append(set())
                hist.append('(')
            elif scopes:
                sc = scopes.pop()
                e = (None, None, None) if rng.random() < .6 else (ValueError, ValueError('x'), None)
                r = sc.__exit__(*e)
                m.check(not r, 'swallow', 'exceptions are swallowed')
                o, st = objs.pop(), stack.pop()
                m.check(o.set == st, 'after scope', 'collected papers changed when leaving the scope', observed=sorted(o.set), expected=sorted(st))
                m.check(flavio.citations is objs[-1], 'leave', 'register is not restored')
                hist.append(')')
            c = flavio.citations
            m.check(c.set == stack[-1] and set(c) == stack[-1] and set(filter(None, str(c).split(','))) == stack[-1] and set(filter(None, c.string.split(','))) == stack[-1],
                    'model', 'register differs from a set', observed=sorted(c.set), expected=sorted(stack[-1]), history=hist)
            for o, st in zip(objs, stack):
                m.check(o.set == st, 'outer', 'outer register changed', history=hist)
        while scopes:
            scopes.pop().__exit__(None, None, None)
        m.event('register', tuple(hist))
        top.reset()


def processes(m, rng, n, seed):
    """Predictions in worker processes register as those in this one."""
    import flavio
    own()
    warnings.simplefilter('ignore')
    pool = ['DeltaGamma_s', 'm_W', 'BR(Bs->mumu)', 'BR(B->Xsgamma)', 'DeltaM_d', 'BR(tau->mugamma)', 'BR(B+->taunu)', 'eps_K', 'BR(B0->K*gamma)', 'BR(K+->pinunu)', 'S_psiphi']
    for k in range(n):
        sel = [str(s) for s in rng.choice(pool, int(rng.integers(2, 4)), replace=False)]
        if k % 2:
            sel.append(('<dBR/dq2>(B+->Kmumu)', 1.1, 1.2))
        exp = set()
        for s in sel:
            exp |= set(cold(s if isinstance(s, str) else s[0], () if isinstance(s, str) else s[1:], {})['got'])
        for threads in (1, 2):
            with flavio.citations.collect() as c:
                if rng.random() < .5:
                    flavio.sm_covariance(sel, N=4, threads=threads)
                    form = 'sm_covariance'
                else:
                    for s in sel:
                        a = (s,) if isinstance(s, str) else s
                        flavio.sm_uncertainty(*a, N=4, threads=threads)
                    form = 'sm_uncertainty'
            m.check(c.set == exp, 'processes', 'papers depend on the number of processes', form=form, threads=threads, observables=sel, missing=sorted(exp - c.set), extra=sorted(c.set - exp))
        m.event('processes', tuple(sel))


def implementations(m, rng, n, seed):
    """Papers of an implementation are reported exactly when it is selected."""
    import flavio
    own()
    warnings.simplefilter('ignore')
    decl = declared()
    cases = [('BR(D+->Kenu)', (), 'D->K form factor'), ('BR(D+->pienu)', (), 'D->pi form factor'), 
             ('<dBR/dq2>(B0->K*mumu)', (1.1, 1.2), 'B->K* form factor'), ('dBR/dq2(Bs->phimumu)', (3.,), 'Bs->phi form factor'), ('BR(B+->rholnu)', (), 'B->rho form factor'),
             ('BR(B+->omegalnu)', (), 'B->omega form factor'), ('<BR>(B0->pilnu)', (1., 2.), 'B->pi form factor'), ('dBR/dq2(B+->pimumu)', (3.,), 'B->pi form factor'),
             ('P4p(B0->K*mumu)', (3.,), 'B0->K*0ll spectator scattering'), ('P4p(B0->K*mumu)', (3.,), 'B0->K*0ll subleading effects at low q2'), ('P4p(B0->K*mumu)', (17.,), 'B0->K*0ll subleading effects at high q2'),
             ('dBR/dq2(Bs->phimumu)', (3.,), 'Bs->phill spectator scattering'), ('dBR/dq2(B+->Kmumu)', (3.,), 'B+->K+ll subleading effects at low q2'), ('A(Lambdab->Lambdamumu)', (3.,), 'Lambdab->Lambda form factor'),
             ('BR(B+->taunu)', (), 'CKM matrix'), ('dBR/dq2(B+->Kmumu)', (3.,), 'B->K form factor'), ('BR(B+->Dlnu)', (), 'B->D form factor'),
             ('BR(B+->D*taunu)', (), 'B->D* form factor'), ('dBR/dq2(Bs->mumugamma)', (4.,), 'B->gamma form factor'), ('BR(K+->pimunu)', (), 'K->pi form factor'),
             ('dBR/dq2(Lambdab->Lambdamumu)', (16.,), 'Lambdab->Lambda form factor')]
    conf = flavio.config['implementation']
    for name, args, q in cases:
        if name not in flavio.Observable.instances or (q and q not in conf):
            continue
        quantities = [q] if q else []
        for quantity in quantities:
            old = conf[quantity]
            names = [k for k, i in flavio.classes.Implementation.instances.items() if i.quantity == quantity]
            seq = [names[int(i)] for i in rng.integers(len(names), size=4)] + [old]
            for nm in seq:
                try:
                    conf[quantity] = nm
                    c = cold(name, args, decl)
                    if c is None:
                        continue
                    got = flavio.Observable[name].theory_citations(*args)
                    m.check(set(c['sure']) <= set(c['got']) <= set(c['all']) and got == set(c['got']), 'implementation', 'papers of the selected implementation', observable=name, implementation=nm,
                            cold=c['got'], executed=c['sure'], observed=sorted(got))
                    m.event('implementation', (name, nm))
                except Exception as e:
                    m.event('implementation-fails', (name, nm, type(e).__name__))
                finally:
                    conf[quantity] = old


def jobs(tier, seed):
    T = tier != 'quick'
    parts = 16
    out = [{'name': 'observables#%d' % i, 'fn': observables, 'args': dict(seed=seed, part=i, parts=parts, frac=1. if T else .35)} for i in range(parts)]
    out += split_jobs('register', register, 400 if T else 60, 2, seed=seed)
    out += split_jobs('processes', processes, 40 if T else 6, 3, seed=seed)
    out += [{'name': 'implementations', 'fn': implementations, 'args': dict(n=1, seed=seed)}]
    return out
