"""P25: significances and numerical helpers."""
import math
import warnings
import numpy as np
from lib.util import mpmath as mp
from lib.util import split_jobs, logu, random_corr

RULE = ('random arguments over many orders of magnitude against multi-precision references and inverses (significances, special functions); random smooth functions with exact integrals (integration); '
        'random smooth functions with hooked minimiser (start points, returned points); distinct by arguments')
ASSUMPTIONS = ['mpmath is exact', 'adaptive quadrature is judged on functions that are smooth on the scale of the interval']
MIN = {'significance': 2000, 'special': 2000, 'integral': 800, 'pole': 200, 'minimise': 150, 'restart': 60, 'maximise': 40}


def ref_cl(n):
    return mp.erf(mp.mpf(n) / mp.sqrt(2))


def ref_tail(n):
    return mp.erfc(mp.mpf(n) / mp.sqrt(2))


def ref_sf(x, dof):
    return mp.gammainc(mp.mpf(dof) / 2, mp.mpf(x) / 2, mp.inf, regularized=True)


def rel(m, sig, msg, got, exp, tol, **w):
    got = float(got)
    e = float(exp)
    return m.check(abs(got - e) <= tol * abs(e), sig, msg, observed=got, expected=e, **w)


def significances(m, rng, n, seed):
    import flavio.statistics.functions as F
    mp.mp.dps = 40
    for k in range(n):
        dof = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 20, 50, 100, 300]))
        ns = logu(rng, 1e-4, 12.) if rng.random() < .6 else float(rng.integers(1, 9))
        x = logu(rng, 1e-6, 200.) * (1 if rng.random() < .5 else dof)
        w = dict(dof=dof, nsigma=ns, chi2=x)
        rel(m, 'confidence_level', 'confidence level', m.call('confidence_level', F.confidence_level, ns), ref_cl(ns), max(1e-12, 3e-16 / ns), **w)
        # chi2 difference of so many standard deviations
        d = float(m.call('delta_chi2', F.delta_chi2, ns, dof))
        if m.check(math.isfinite(d) and d >= 0, 'delta_chi2', 'not a finite number', observed=d, **w):
            t, e = ref_sf(d, dof), ref_tail(ns)
            if ns > 1:
                m.check(abs(mp.log(t / e)) < 1e-7, 'delta_chi2', 'tail probability', observed=float(t), expected=float(e), **w)
            else:
                c = 1 - t
                ec = 1 - e
                m.check(abs(c - ec) < 1e-8 * ec + 1e-14, 'delta_chi2', 'probability', observed=float(c), expected=float(ec), **w)
            back = float(m.call('pull', F.pull, d, dof))
            m.check(abs(back - ns) < 1e-7 * ns + 1e-9, 'inverse', 'pull(delta_chi2(n)) is not n', observed=back, expected=ns, **w)
            if dof > 1:
                m.check(F.delta_chi2(ns * 1.01, dof) > d, 'monotonous', 'larger significance, smaller difference', **w)
                m.check(F.delta_chi2(ns, dof + 1) > d or ns < .01, 'monotonous', 'more degrees of freedom, smaller difference', **w)
        # pull
        t = ref_sf(x, dof)
        if t > mp.mpf('1e-250'):
            p = float(m.call('pull', F.pull, x, dof))
            if m.check(math.isfinite(p) and p >= 0, 'pull', 'not a finite number', observed=p, **w):
                e = ref_tail(p)
                if t < .3:
                    m.check(abs(mp.log(t / e)) < 1e-6, 'pull', 'tail probability', observed=float(e), expected=float(t), **w)
                else:
                    m.check(abs((1 - t) - (1 - e)) < 1e-9, 'pull', 'probability', observed=float(1 - e), expected=float(1 - t), **w)
                back = float(F.delta_chi2(p, dof))
                m.check(abs(back - x) < 1e-6 * x + 1e-9, 'inverse', 'delta_chi2(pull(x)) is not x', observed=back, expected=x, **w) if t < 1 - 1e-9 else None
            pv = float(m.call('pvalue', F.pvalue, x, dof))
            m.check(abs(pv - t) <= 1e-9 * t, 'pvalue', 'p-value', observed=pv, expected=float(t), **w)
            if dof == 1:
                m.check(abs(pv - ref_tail(math.sqrt(x))) <= 1e-9 * t, 'pvalue', 'one degree of freedom: Gaussian tail', **w)
        m.event('significance', (dof, ns, x))


def special(m, rng, n, seed):
    import flavio.math.functions as F
    mp.mp.dps = 30
    for k in range(n):
        r = rng.random()
        z = complex(rng.normal(), rng.normal()) * logu(rng, 1e-4, 1e3)
        x = 1 - logu(rng, 1e-6, 1e3)
        for v in (z, x):
            e = mp.polylog(2, v)
            g = complex(m.call('li2', F.li2, v))
            m.check(abs(g - complex(e)) <= 1e-11 * abs(complex(e)) + 3e-16, 'li2', 'dilogarithm', z=v, observed=g, expected=complex(e))
        # functional equation
        s = complex(F.li2(z)) + complex(F.li2(1 - z)) - math.pi**2 / 6 + complex(mp.log(z) * mp.log(1 - z))
        m.check(abs(s) < 1e-10 * (1 + abs(complex(F.li2(z)))), 'li2', 'reflection', z=z, observed=s)
        y = 1 + logu(rng, 1e-3, 1e2)
        rel(m, 'zeta', 'zeta function', F.zeta(y), mp.zeta(y), 1e-12, x=y)
        y = logu(rng, 1e-6, 300.) * (1 if rng.random() < .5 else -1)
        e = mp.ei(y)
        m.check(abs(float(F.ei(y)) - float(e)) <= 1e-12 * abs(float(e)) + 1e-15, 'ei', 'exponential integral', x=y, observed=float(F.ei(y)), expected=float(e))
        # normal distribution
        mu, sg = float(rng.normal()) * logu(rng, 1e-12, 1e6), logu(rng, 1e-12, 1e6)
        x = mu + sg * float(rng.normal()) * float(rng.choice([.1, 1, 10]))
        zz = (mp.mpf(x) - mp.mpf(mu)) / mp.mpf(sg)
        e = -zz * zz / 2 - mp.log(mp.sqrt(2 * mp.pi) * mp.mpf(sg))
        tol = 1e-12 * (1 + abs(float(zz * zz)) + abs(math.log(sg))) + 4e-16 * abs(float(zz)) * (abs(mu) + abs(x)) / sg
        for form, v in (('float', x), ('array', np.array([x, mu])), ('list', [x, mu]), ('numpy', np.float64(x))):
            g = m.call('normal', F.normal_logpdf, v, mu, sg)
            g1 = m.call('normal', F.normal_pdf, v, mu, sg)
            if form in ('array', 'list'):
                m.check(np.shape(g) == (2,) and np.shape(g1) == (2,), 'normal', 'shape', x=x)
                m.check(abs(g[1] + math.log(math.sqrt(2 * math.pi)) + math.log(sg)) < 1e-11, 'normal', 'at the centre', mu=mu, sigma=sg, observed=g[1])
                g, g1 = g[0], g1[0]
            m.check(abs(g - float(e)) < tol, 'normal', 'logarithm of the density', x=x, mu=mu, sigma=sg, observed=g, expected=float(e), form=form)
            m.check(abs(g1 - float(mp.exp(e))) <= 2 * tol * float(mp.exp(e)) + 1e-300, 'normal', 'density', x=x, mu=mu, sigma=sg, observed=g1, expected=float(mp.exp(e)), form=form)
        m.event('special', (z, mu, sg))


def draw_fn(rng):
    """Smooth function with its antiderivative."""
    kind = str(rng.choice(['poly', 'exp', 'sin', 'rational', 'mix', 'bump']))
    if kind == 'poly':
        c = rng.normal(size=int(rng.integers(1, 6)))
        p = np.polynomial.Polynomial(c)
        return kind, p, p.integ()
    if kind == 'exp':
        a, b = rng.normal(), rng.normal()
        return kind, lambda x: a * np.exp(b * x), lambda x: a / b * np.exp(b * x)
    if kind == 'sin':
        a, b, c = rng.normal(), rng.uniform(.2, 2), rng.uniform(0, 6)
        return kind, lambda x: a * np.sin(b * x + c), lambda x: -a / b * np.cos(b * x + c)
    if kind == 'rational':
        a, b = rng.uniform(3, 8), rng.normal()
        return kind, lambda x: b / (x + a + 8)**2, lambda x: -b / (x + a + 8)
    if kind == 'bump':
        a, s = rng.normal(), rng.uniform(.5, 2)
        return kind, lambda x: np.exp(-(x - a)**2 / s**2 / 2), lambda x: s * math.sqrt(math.pi / 2) * math.erf((x - a) / s / math.sqrt(2))
    a, b = rng.uniform(.3, 1.5), rng.normal()
    return kind, lambda x: 1 + a * x + b * np.cos(x), lambda x: x + a * x * x / 2 + b * np.sin(x)


def integrals(m, rng, n, seed):
    import flavio.math.integrate as I
    from flavio.physics.bdecays.bvll.observables import nintegrate_pole
    for k in range(n):
        kind, f, F = draw_fn(rng)
        a = float(rng.uniform(-4, 3))
        b = a + logu(rng, 1e-3, 4.)
        e = float(F(b) - F(a))
        xs = np.linspace(a, b, 400)
        ab = float(np.trapz(np.abs([f(x) for x in xs]), xs))
        eps = float(rng.choice([.005, 1e-3, 1e-6, 1e-9]))
        w = dict(kind=kind, interval=(a, b), epsrel=eps)
        scale = 10 ** float(rng.uniform(-30, 10)) if rng.random() < .5 else 1.
        g = lambda x: scale * f(x)
        if abs(e) < 1e-3 * ab:
            continue
        pts = []

        def spy(x):
            pts.append(float(np.ravel(x)[0]))
            return g(x)
        for nm, fn, tol in (('nintegrate', I.nintegrate, eps), ('nintegrate_quadrature', I.nintegrate_quadrature, eps * 10 * ab / abs(e))):
            v = m.call(nm, fn, spy, a, b, epsrel=eps)
            m.check(abs(v - scale * e) <= (tol + 1e-13 * ab / abs(e) + 1e-15 * (abs(F(a)) + abs(F(b))) / abs(e)) * abs(scale * e), nm, 'integral', observed=v, expected=scale * e, **w)
            if nm == 'nintegrate':
                v2 = fn(g, b, a, epsrel=eps)
                m.check(abs(v + v2) <= 1e-12 * abs(v), nm, 'exchanged bounds', observed=v2, expected=-v, **w)
        # integration in N points: cubic functions
        N = int(rng.choice([5, 7, 10, 20]))
        c = rng.normal(size=4)
        p = np.polynomial.Polynomial(c)
        ex = float(p.integ()(b) - p.integ()(a))
        v = m.call('nintegrate_fast', I.nintegrate_fast, lambda x: scale * p(x), a, b, N=N)
        h = (b - a) / (4 * N - 1)
        err = (b - a) * h * h / 12 * float(np.max(np.abs(p.deriv(2)(xs))))
        m.check(abs(v - scale * ex) <= scale * (err * 1.01 + 1e-11 * float(np.max(np.abs(p(xs)))) * (b - a)), 'nintegrate_fast', 'integral of a cubic', observed=v, expected=scale * ex, N=N, interval=(a, b))
        v = m.call('nintegrate_fast', I.nintegrate_fast, spy, a, b, N=20)
        m.check(abs(v - scale * e) <= 3e-2 * scale * ab, 'nintegrate_fast', 'integral', observed=v, expected=scale * e, **w)
        # complex
        kind2, f2, F2 = draw_fn(rng)
        e2 = float(F2(b) - F2(a))
        ab2 = float(np.trapz(np.abs([f2(x) for x in xs]), xs))
        if abs(e2) > 1e-3 * ab2:
            v = m.call('nintegrate_complex', I.nintegrate_complex, lambda x: scale * (f(x) + 1j * f2(x)), a, b, epsrel=eps)
            m.check(abs(v.real - scale * e) <= scale * (eps * abs(e) + 1e-14 * (ab + abs(F(a)) + abs(F(b)))) and abs(v.imag - scale * e2) <= scale * (eps * abs(e2) + 1e-14 * (ab2 + abs(F2(a)) + abs(F2(b)))), 'nintegrate_complex', 'integral',
                    observed=v, expected=scale * complex(e, e2), kind2=kind2, **w)
        m.check(all(a <= x <= b for x in pts), 'bounds', 'function evaluated outside the interval', interval=(a, b), outside=[x for x in pts if not a <= x <= b][:3])
        m.event('integral', (kind, a, b, eps))
        # pole at zero momentum transfer
        A, B, C = logu(rng, 1e-3, 10.), rng.uniform(.1, 1), rng.uniform(-.02, .05)
        lo = logu(rng, 1e-6, .1) if rng.random() < .8 else float(rng.uniform(.1, 2))
        hi = lo * logu(rng, 1.01, 5.) if rng.random() < .4 else max(float(rng.uniform(lo, 8.)), lo * 1.01)
        ex = A * math.log(hi / lo) + B * (hi - lo) + C * (hi**2 - lo**2) / 2
        ep = float(rng.choice([.005, 1e-3, 1e-5]))
        v = m.call('nintegrate_pole', nintegrate_pole, lambda q2: scale * (A / q2 + B + C * q2), lo, hi, epsrel=ep)
        m.check(abs(v - scale * ex) <= max(ep, .005 if lo > .1 else 0.) * 2 * abs(scale * ex), 'nintegrate_pole', 'integral', observed=v, expected=scale * ex, interval=(lo, hi), epsrel=ep, A=A, B=B, C=C)
        m.event('pole', (lo, hi, ep))


def objective(rng, d):
    kind = str(rng.choice(['quadratic', 'rosenbrock', 'logcosh', 'chi2']))
    x0 = rng.normal(size=d)
    if kind == 'quadratic' or (kind == 'rosenbrock' and d < 2):
        Cm = random_corr(rng, d, .8)
        s = np.exp(rng.uniform(-1.5, 1.5, d))
        H = np.linalg.inv(Cm * np.outer(s, s))
        c = float(rng.normal())
        return 'quadratic', x0, c, lambda x, *a: float((np.asarray(x) - x0) @ H @ (np.asarray(x) - x0)) + c
    if kind == 'rosenbrock':
        return kind, np.ones(d), 0., lambda x, *a: float(sum(20 * (x[i + 1] - x[i]**2)**2 + (1 - x[i])**2 for i in range(d - 1)))
    if kind == 'logcosh':
        return kind, x0, 0., lambda x, *a: float(np.sum(np.log(np.cosh(np.asarray(x) - x0))))
    w = np.exp(rng.uniform(-1, 1, d))
    return kind, x0, 0., lambda x, *a: float(np.sum(w * (np.expm1(.3 * (np.asarray(x) - x0)))**2))


def optimise(m, rng, n, seed):
    import flavio.math.optimize as Op
    warnings.simplefilter('ignore')
    orig = Op.minimize, Op.minimize_migrad
    log = []

    def minimize(fun, x0, *a, **k):
        r = orig[0](fun, x0, *a, **k)
        log.append((k.get('method'), np.array(x0, float), r))
        return r

    def migrad(fun, x0, *a, **k):
        r = orig[1](fun, x0, *a, **k)
        log.append(('MIGRAD', np.array(x0, float), r))
        return r
    Op.minimize, Op.minimize_migrad = minimize, migrad
    try:
        for k in range(n):
            d = int(rng.integers(1, 5))
            kind, xm, fm, f = objective(rng, d)
            x0 = list(xm + rng.normal(size=d))
            arg = float(rng.normal())
            w = dict(kind=kind, start=x0)
            for form in ('min', 'max'):
                sgn = 1 if form == 'min' else -1

                def fun(x, c):
                    if c != arg:
                        raise ValueError('wrong argument')
                    return sgn * (f(x) + c)
                meths = [None, ('SLSQP',), ('BFGS',), ('MIGRAD',), ('Nelder-Mead',), ('Nelder-Mead', 'BFGS')][int(rng.integers(6))]
                del log[:]
                start = list(x0)
                r = m.call(form + 'imize_robust', Op.minimize_robust if form == 'min' else Op.maximize_robust, fun, start, args=(arg,), methods=meths)
                m.check(start == x0, 'input', 'starting point was modified', **w)
                best, ex = sgn * (fm + arg), r.fun
                m.check(sgn * (ex - fun(x0, arg)) <= 1e-12 * abs(ex), 'worse than start', 'result is worse than the starting point', observed=ex, start_value=fun(x0, arg), methods=meths, **w)
                m.check(abs(fun(np.asarray(r.x), arg) - ex) <= 1e-9 * (1 + abs(ex)), 'value', 'reported value is not that at the reported point', observed=ex, expected=fun(np.asarray(r.x), arg), methods=meths, **w)
                if r.success:
                    m.check(abs(ex - best) <= 2e-3, 'minimum', 'successful, but not at the optimum', observed=ex, expected=best, methods=meths, **w)
                else:
                    m.event('no-success', None)
                m.event('minimise' if form == 'min' else 'maximise', (kind, d, meths))
            # few iterations: does not converge, must go on where it stopped
            del log[:]
            meths = [('Nelder-Mead',), ('BFGS',), ('SLSQP',), ('SLSQP', 'Nelder-Mead'), ('BFGS', 'Nelder-Mead')][int(rng.integers(5))]
            tries = int(rng.integers(1, 6))
            it = int(rng.integers(1, 5))
            r = m.call('restart', Op.minimize_robust, f, np.array(x0), methods=meths, tries=tries, maxiter=it)
            m.check(1 <= len(log) <= tries * len(meths), 'tries', 'number of tries', observed=len(log), tries=tries, methods=meths)
            m.check([l[0] for l in log] == list(meths * tries)[:len(log)], 'tries', 'order of methods', observed=[l[0] for l in log], methods=meths)
            bx, bv = np.array(x0), f(x0)
            for meth, s, res in log:
                m.check(np.array_equal(s, bx), 'restart', 'a new try does not start from the best end point of the unsuccessful tries', observed=s, expected=bx, methods=meths, maxiter=it, **w)
                if res.fun < bv:
                    bx, bv = np.array(res.x), res.fun
            m.check(r.fun <= f(x0) and r.fun <= min(bv, r.fun) + 1e-12 * abs(bv) and not any(l[2].success for l in log[:-1]), 'restart', 'result is worse than the starting points', observed=r.fun, expected=bv, methods=meths, maxiter=it, **w)
            m.check(log[-1][2].success or len(log) == tries * len(meths), 'tries', 'gave up early', observed=len(log), tries=tries)
            m.event('restart', (kind, meths, tries, it))
    finally:
        Op.minimize, Op.minimize_migrad = orig


def jobs(tier, seed):
    T = tier != 'quick'
    out = split_jobs('significances', significances, 60000 if T else 2600, 2, seed=seed)
    out += split_jobs('special', special, 40000 if T else 2400, 2, seed=seed)
    out += split_jobs('integrals', integrals, 20000 if T else 1600, 2, seed=seed)
    out += split_jobs('optimise', optimise, 4000 if T else 240, 2, seed=seed)
    return out
