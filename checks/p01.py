"""P01: every univariate probability distribution is one coherent object."""
import math
import warnings
import numpy as np
import scipy.stats as st
import scipy.special as sp
from lib.util import logu, sgn, cl_of, ks_stat, GridCDF, split_jobs
from lib.mon import CodeRaised

RULE = ('random parameters (scales log-uniform over many decades, both signs, skewed shapes, every '
        'documented way of giving counts) for each univariate distribution family; a case is non-trivial when '
        'pdf/cdf/ppf/draws/errors were all compared with an independently written density; distinct by '
        '(family, parameters)')
ASSUMPTIONS = ['numerical distributions use a left-sum CDF: compared within one grid cell of probability',
               'draws judged by a KS statistic sqrt(n)*D with false-alarm probability < 1e-9 per case']
MIN = {'pdf': 200, 'draws': 60, 'errors': 100}


def P():
    import flavio.statistics.probability as p
    return p


def _center(rng, width):
    """Central value of any size at which the width is still resolved by doubles."""
    if rng.random() < 0.1:
        return 0.
    return sgn(rng) * width * logu(rng, 1e-6, 1e5)


# --- families: gen(rng) -> (label, params, distribution, reference logpdf, range, hard limits, breaks)
def g_uniform(rng):
    h = logu(rng, 1e-8, 1e6)
    c = _center(rng, h)
    d = P().UniformDistribution(c, h)
    def lp(x):
        x = np.asarray(x, float)
        return np.where((x >= c - h) & (x <= c + h), -np.log(2 * h), -np.inf)
    return dict(par=(c, h), d=d, lp=lp, lo=c - h, hi=c + h, hard=(c - h, c + h), cen=c, edge=[c - h, c + h],
                err=lambda n: (cl_of(n) * h, cl_of(n) * h))


def g_normal(rng):
    s = logu(rng, 1e-10, 1e6)
    c = _center(rng, s)
    d = P().NormalDistribution(c, s)
    return dict(par=(c, s), d=d, lp=lambda x: st.norm.logpdf(x, c, s), lo=c - 9 * s, hi=c + 9 * s, cen=c,
                cdf=lambda x: st.norm.cdf(x, c, s), err=lambda n: (n * s, n * s))


def g_lognormal(rng):
    c = sgn(rng) * logu(rng, 1e-9, 1e5)
    f = 1 + logu(rng, 1e-3, 3)
    d = P().LogNormalDistribution(c, f)
    L = math.log(f)
    s = 1 if c > 0 else -1
    def lp(x):
        x = np.asarray(x, float) * s
        with np.errstate(all='ignore'):
            r = -0.5 * ((np.log(x) - math.log(abs(c))) / L)**2 - np.log(x * L * math.sqrt(2 * math.pi))
        return np.where(x > 0, r, -np.inf)
    def cdf(x):
        x = np.asarray(x, float) * s
        with np.errstate(all='ignore'):
            F = np.where(x > 0, st.norm.cdf((np.log(np.maximum(x, 1e-300)) - math.log(abs(c))) / L), 0.)
        return F if s > 0 else 1 - F
    def err(n):
        up = abs(c) * (f**n - 1)
        dn = abs(c) * (1 - f**(-n))
        return (dn, up) if s > 0 else (up, dn)
    a, b = abs(c) * math.exp(-9 * L), abs(c) * math.exp(9 * L)
    lo, hi = (a, b) if s > 0 else (-b, -a)
    return dict(par=(c, f), d=d, lp=lp, cdf=cdf, lo=lo, hi=hi, cen=c, err=err,
                hard=(0, np.inf) if s > 0 else (-np.inf, 0), logspace=True)


def g_asym(rng):
    r = logu(rng, 1e-8, 1e5)
    l = r * logu(rng, 0.02, 50)
    c = _center(rng, min(l, r))
    d = P().AsymmetricNormalDistribution(c, r, l)
    A = 2 / (r + l)
    def lp(x):
        x = np.asarray(x, float)
        s = np.where(x < c, l, r)
        return np.log(A / math.sqrt(2 * math.pi)) - 0.5 * ((x - c) / s)**2
    def cdf(x):
        x = np.asarray(x, float)
        F = np.where(x < c, A * l * st.norm.cdf((x - c) / l), A * l / 2 + A * r * (st.norm.cdf((x - c) / r) - 0.5))
        return F
    return dict(par=(c, r, l), d=d, lp=lp, cdf=cdf, lo=c - 9 * l, hi=c + 9 * r, cen=c,
                err=lambda n: (n * l, n * r))


def g_half(rng):
    s = sgn(rng) * logu(rng, 1e-8, 1e4)
    c = _center(rng, abs(s))
    d = P().HalfNormalDistribution(c, s)
    a = abs(s)
    def lp(x):
        x = np.asarray(x, float)
        return np.where(np.sign(s) * (x - c) < 0, -np.inf, math.log(2) + st.norm.logpdf(x, c, a))
    def cdf(x):
        z = (np.asarray(x, float) - c) / s
        F = np.where(z > 0, 2 * st.norm.cdf(z) - 1, 0.)
        return F if s > 0 else 1 - F
    lo, hi = (c, c + 9 * a) if s > 0 else (c - 9 * a, c)
    return dict(par=(c, s), d=d, lp=lp, cdf=cdf, lo=lo, hi=hi, cen=c, edge=[c],
                hard=(c, np.inf) if s > 0 else (-np.inf, c),
                err=lambda n: (0, n * a) if s > 0 else (n * a, 0))


def g_gul(rng):
    lim = logu(rng, 1e-12, 1e4)
    cl = float(rng.choice([0.68, 0.9, 0.95, rng.uniform(0.05, 0.999)]))
    d = P().GaussianUpperLimit(limit=lim, confidence_level=cl)
    s = lim / (math.sqrt(2) * sp.erfinv(cl))
    def lp(x):
        x = np.asarray(x, float)
        return np.where(x < 0, -np.inf, math.log(2) + st.norm.logpdf(x, 0, s))
    return dict(par=(lim, cl), d=d, lp=lp, cdf=lambda x: np.where(np.asarray(x) > 0, 2 * st.norm.cdf(np.asarray(x) / s) - 1, 0.),
                lo=0., hi=9 * s, cen=0., limit=(lim, cl), hard=(0, np.inf), edge=[0.], err=lambda n: (0, n * s))


def _gammaref(a, loc, scale, positive):
    def lpg(x):
        z = (np.asarray(x, float) - loc) / scale
        with np.errstate(all='ignore'):
            r = sp.xlogy(a - 1, z) - z - sp.gammaln(a) - math.log(scale)
        return np.where(z >= 0, r, -np.inf)
    def cg(x):
        z = np.maximum((np.asarray(x, float) - loc) / scale, 0)
        return sp.gammainc(a, z)
    if not positive:
        return lpg, cg
    S = sp.gammaincc(a, max(-loc / scale, 0))
    def lp(x):
        x = np.asarray(x, float)
        return np.where(x < 0, -np.inf, lpg(x) - math.log(S))
    def sfg(x):
        z = np.maximum((np.asarray(x, float) - loc) / scale, 0)
        return sp.gammaincc(a, z)
    def cdf(x):
        x = np.asarray(x, float)
        return np.where(x < 0, 0., 1 - sfg(np.maximum(x, 0)) / S)
    return lp, cdf


def g_gamma(rng):
    a = 1 + (0. if rng.random() < 0.08 else logu(rng, 0.3, 60))
    scale = logu(rng, 1e-8, 1e4)
    loc = -float(rng.choice([0, rng.uniform(0, 2 * a)])) * scale
    d = P().GammaDistribution(a, loc, scale)
    lp, cdf = _gammaref(a, loc, scale, False)
    return dict(par=(a, loc, scale), d=d, lp=lp, cdf=cdf, lo=loc, hi=loc + scale * (a + 14 * math.sqrt(a) + 40),
                cen=loc + (a - 1) * scale, hpd=True, hard=(loc, np.inf))


def _posgamma(rng, d, a, loc, scale, par, **kw):
    lp, cdf = _gammaref(a, loc, scale, True)
    mode = max(loc + (a - 1) * scale, 0.)
    hi = max(loc + scale * (a + 14 * math.sqrt(a) + 40), scale * 45)
    return dict(par=par, d=d, lp=lp, cdf=cdf, lo=0., hi=hi, cen=mode, hpd='pos', hard=(0, np.inf), edge=[0.], **kw)


def _gpar(rng):
    a = 1 + float(rng.choice([0, 1, 3, logu(rng, 0.2, 50)]))
    scale = logu(rng, 1e-10, 1e3)
    # keep the probability of x>0 away from numerical zero
    b = float(rng.choice([0, rng.uniform(0, a + 2 * math.sqrt(a))]))
    return a, b, scale


def g_gammapos(rng):
    a, b, scale = _gpar(rng)
    d = P().GammaDistributionPositive(a, -b * scale, scale)
    return _posgamma(rng, d, a, -b * scale, scale, (a, b, scale))


def _counts_kw(rng, tot, bg):
    sig = tot - bg
    mode = int(rng.integers(4))
    if mode == 0:
        return dict(counts_total=tot, counts_background=bg)
    if mode == 1:
        return dict(counts_total=tot, counts_signal=sig)
    if mode == 2 and sig >= 0:
        return dict(counts_background=bg, counts_signal=sig)
    # all three; choose numbers for which the relation holds exactly
    return dict(counts_total=tot, counts_background=bg, counts_signal=sig)


def _counts(rng):
    tot = float(rng.choice([0, 1, 3, 7, 20, 100]))
    bg = float(rng.choice([0, 0.5, 1.25, 2, tot, max(tot - 0.75, 0), 0.5 * tot]))
    bg = min(bg, tot + 3)
    return tot, bg


def g_counting(rng):
    tot, bg = _counts(rng)
    kw = _counts_kw(rng, tot, bg)
    scale = logu(rng, 1e-11, 10)
    d = P().GammaCountingProcess(scale_factor=scale, **kw)
    return _posgamma(rng, d, tot + 1, -bg * scale, scale, (scale, kw),
                     counts=(tot, bg))


def g_gammaul(rng):
    tot, bg = _counts(rng)
    kw = _counts_kw(rng, tot, bg)
    lim = logu(rng, 1e-11, 10)
    cl = float(rng.choice([0.9, 0.95, rng.uniform(0.5, 0.99)]))
    d = P().GammaUpperLimit(limit=lim, confidence_level=cl, **kw)
    # independent scale: quantile of the truncated unit-scale gamma
    S = sp.gammaincc(tot + 1, bg)
    q = sp.gammainccinv(tot + 1, (1 - cl) * S) - bg
    scale = lim / q
    r = _posgamma(rng, d, tot + 1, -bg * scale, scale, (lim, cl, kw), counts=(tot, bg))
    r['limit'] = (lim, cl)
    return r


FAM = {'uniform': g_uniform, 'normal': g_normal, 'lognormal': g_lognormal, 'asymmetric_normal': g_asym,
       'half_normal': g_half, 'gaussian_upper_limit': g_gul, 'gamma': g_gamma, 'gamma_positive': g_gammapos,
       'gamma_counting': g_counting, 'gamma_upper_limit': g_gammaul}


def probe_points(rng, c, n=25):
    lo, hi = c['lo'], c['hi']
    pts = list(rng.uniform(lo, hi, n))
    if c.get('logspace'):
        s = 1 if c['cen'] > 0 else -1
        L = math.log(c['par'][1])
        pts = list(s * np.exp(math.log(abs(c['cen'])) + L * rng.uniform(-5, 5, n)))
    if 'hard' in c:
        h = c['hard']
        w = abs(hi - lo)
        if np.isfinite(h[0]):
            pts += [h[0] - w * 1e-3, h[0] - 3 * w]
        if np.isfinite(h[1]):
            pts += [h[1] + w * 1e-3, h[1] + 3 * w]
    pts = [float(x) for x in pts]
    edges = c.get('edge', [])
    w = hi - lo
    return [x for x in pts if all(abs(x - e) > 1e-9 * w for e in edges)]


def analytic(m, rng, fam, n):
    for _ in range(n):
        try:
            c = m.call(fam + ':construct', FAM[fam], rng)
        except CodeRaised:
            continue
        try:
            judge(m, rng, fam, c)
        except CodeRaised:
            pass


def judge(m, rng, fam, c):
    d, lp = c['d'], c['lp']
    key = (fam, repr(c['par']))
    w = dict(family=fam, par=c['par'])
    scale = c['hi'] - c['lo']
    # central value
    m.close(d.central_value, c['cen'], fam + ':central', 'central value', rtol=1e-9, atol=1e-12 * scale, **w)
    m.check(d.get_central() == d.central_value, fam + ':get_central', **w)
    # log density, scalar and array calls, inside and outside
    pts = probe_points(rng, c)
    sc = np.array([float(m.call(fam + ':logpdf', d.logpdf, x)) for x in pts])
    ar = m.call(fam + ':logpdf-array', d.logpdf, np.array(pts))
    ref = lp(np.array(pts))
    tol = 1e-6 if fam.startswith('gamma') else 1e-7
    fin = ref > -60
    m.close(sc[fin], ref[fin], fam + ':logpdf', 'log density vs formula', rtol=tol, atol=tol, pts=pts[:5], **w)
    m.check(np.all(sc[ref == -np.inf] == -np.inf), fam + ':outside', 'density not zero outside', pts=pts, **w)
    m.close(ar, sc, fam + ':array', 'array call vs scalar call', rtol=1e-12, **w)
    k = len(pts) // 2 * 2
    m.close(m.call(fam + ':logpdf-2d', d.logpdf, np.array(pts[:k]).reshape(2, -1)), sc[:k].reshape(2, -1), fam + ':array2d',
            '2d array call', rtol=1e-12, **w)
    m.close(m.call(fam + ':logpdf-list', d.logpdf, np.array(pts[:3])), sc[:3], fam + ':array', rtol=1e-12, **w)
    if hasattr(d, 'pdf'):
        m.close([d.pdf(x) for x in pts], np.exp(sc), fam + ':pdf=exp(logpdf)', rtol=1e-7, atol=1e-290, **w)
    for x in pts[:5]:
        cvl = float(d.logpdf(d.central_value))
        if np.isfinite(cvl):
            m.close(d.delta_logpdf(x), float(d.logpdf(x)) - cvl, fam + ':delta_logpdf', rtol=1e-9, atol=1e-9, **w)
    m.event('pdf', key)
    # normalisation on the distribution's own density
    lo, hi = c['lo'], c['hi']
    if c.get('logspace'):
        s = 1 if c['cen'] > 0 else -1
        u = np.linspace(math.log(abs(c['cen'])) - 9 * math.log(c['par'][1]), math.log(abs(c['cen'])) + 9 * math.log(c['par'][1]), 4001)
        tot = np.trapezoid(np.exp(d.logpdf(s * np.exp(u)) + u), u) if hasattr(np, 'trapezoid') else np.trapz(np.exp(d.logpdf(s * np.exp(u)) + u), u)
    else:
        eps = 1e-12 * scale
        segs = sorted({lo + eps, hi - eps, min(max(d.central_value, lo + eps), hi - eps)})
        tot = 0.
        for a, b in zip(segs[:-1], segs[1:]):
            u = np.linspace(a, b, 20001)
            tot += np.trapz(np.exp(d.logpdf(u)), u)
    m.close(tot, 1., fam + ':normalised', 'probability does not integrate to one', rtol=3e-4, **w)
    # support
    sup = d.support
    if m.check(len(sup) == 2 and sup[0] <= sup[1], fam + ':support-order', 'support must be (lower, upper)', support=sup, **w):
        cdf = c.get('cdf') or (lambda x: np.clip((np.asarray(x) - c['par'][0] + c['par'][1]) / (2 * c['par'][1]), 0, 1))
        mass = float(cdf(sup[1]) - cdf(sup[0]))
        m.check(mass > 1 - 1e-6, fam + ':support-mass', 'support misses probability: %g' % mass, support=sup, **w)
        m.check(sup[0] - 1e-9 * scale <= d.central_value <= sup[1] + 1e-9 * scale, fam + ':support-central', support=sup, **w)
    # cdf / ppf
    if hasattr(d, 'cdf') and 'cdf' in c:
        m.close(d.cdf(np.array(pts)), c['cdf'](np.array(pts)), fam + ':cdf', 'cdf vs integral of density', rtol=1e-6, atol=2e-9, **w)
        xs = np.sort(pts)
        m.check(np.all(np.diff(d.cdf(xs)) >= -1e-12), fam + ':cdf-monotone', **w)
    if hasattr(d, 'ppf') and hasattr(d, 'cdf'):
        ps = rng.uniform(0.002, 0.998, 9)
        q = np.array([float(d.ppf(p)) for p in ps])
        m.close(d.cdf(q), ps, fam + ':cdf(ppf)', rtol=1e-6, atol=1e-7, **w)
        if 'cdf' in c:
            m.close(c['cdf'](q), ps, fam + ':ppf', 'quantile vs reference', rtol=1e-6, atol=1e-6, **w)
    if 'limit' in c:
        m.close(float(d.cdf(c['limit'][0])), c['limit'][1], fam + ':limit', 'probability below the limit', rtol=1e-6, **w)
    if 'counts' in c:
        t, b = c['counts']
        m.close([d.counts_total, d.counts_background, d.counts_signal], [t, b, t - b], fam + ':counts', rtol=1e-12, atol=1e-12, **w)
    # errors
    for ns in (1, 2, float(rng.uniform(0.3, 2.5))):
        if 'err' in c:
            l, r = c['err'](ns)
            m.close([m.call(fam + ':err', d.get_error_left, ns), m.call(fam + ':err', d.get_error_right, nsigma=ns)], [l, r],
                    fam + ':errors', 'errors at %g sigma' % ns, rtol=1e-7, atol=1e-12 * scale, nsigma=ns, **w)
        elif c.get('hpd'):
            judge_hpd(m, fam, c, d, ns, w)
    if 'err' in c or c.get('hpd'):
        m.close([d.error_left, d.error_right], [d.get_error_left(), d.get_error_right()], fam + ':error-props', rtol=1e-12, **w)
        m.close([d.error_left, d.error_right], [d.get_error_left(nsigma=1), d.get_error_right(nsigma=1)], fam + ':error-default', rtol=1e-12, **w)
        m.event('errors', key)
    draws(m, fam, d, c.get('cdf') or (lambda x: np.clip((np.asarray(x) - c['lo']) / (c['hi'] - c['lo']), 0, 1)), c.get('hard'), w, key)
    m.sample(dict(family=fam, parameters=c['par'], central=d.central_value, support=d.support,
                  logpdf=[[x, y] for x, y in zip(pts[:3], sc[:3])]))


def judge_hpd(m, fam, c, d, ns, w):
    cl = cl_of(ns)
    cdf, lp = c['cdf'], c['lp']
    l, r = float(d.get_error_left(ns)), float(d.get_error_right(ns))
    cen = d.central_value
    m.check(l >= -1e-9 and r >= -1e-9, fam + ':err-sign', l=l, r=r, **w)
    if c['hpd'] == 'pos':
        one = _quantile(cdf, cl, c['hi'])
        if lp(0.) > lp(one):
            # one-sided interval [0, q(cl)]
            m.close(l, cen, fam + ':hpd-left', 'one-sided left error', rtol=1e-9, nsigma=ns, **w)
            m.close(r, one, fam + ':hpd-right', 'one-sided right error', rtol=1e-5, nsigma=ns, **w)
            return
    mass = float(cdf(cen + r) - cdf(cen - l))
    m.close(mass, cl, fam + ':hpd-mass', 'probability in error interval', rtol=1e-5, nsigma=ns, **w)
    # highest density: no point outside is denser than the interval's edges
    a, b = float(lp(cen - l)), float(lp(cen + r))
    at_edge = abs((cen - l) - c['lo']) < 1e-6 * (l + r)
    if not at_edge:
        m.close(a, b, fam + ':hpd-density', 'density differs at the two interval ends', rtol=1e-4, atol=1e-4, nsigma=ns, **w)


def _quantile(cdf, p, hi):
    lo = 0.
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if cdf(mid) < p:
            lo = mid
        else:
            hi = mid
    return hi


def draws(m, fam, d, cdf, hard, w, key, N=4000, slack=0.):
    r0 = m.call(fam + ':random-scalar', d.get_random)
    m.check(np.ndim(r0) == 0 and np.isfinite(float(np.asarray(r0).ravel()[0]) if np.size(r0) else np.nan),
            fam + ':random-scalar', 'single draw must be one number, got %r' % (r0,), **w)
    r = m.call(fam + ':random', d.get_random, N)
    r = np.asarray(r, float)
    if not m.check(r.shape == (N,), fam + ':random-shape', shape=r.shape, **w):
        return
    m.check(d.get_random(1).shape == (1,) and d.get_random(size=3).shape == (3,), fam + ':random-shape', **w)
    s = ks_stat(r, cdf) - slack * math.sqrt(N)
    m.check(s < 3.3, fam + ':random-dist', 'draws do not follow the density, sqrt(n)*D=%.2f' % s,
            ks=s, mean=r.mean(), std=r.std(), **w)
    m.check(np.unique(r).size > 0.95 * N, fam + ':random-distinct', **w)
    if hard is not None:
        m.check(r.min() >= hard[0] and r.max() <= hard[1], fam + ':random-range', lo=r.min(), hi=r.max(), **w)
    m.worst['ks'] = max(m.worst.get('ks', 0), s)
    m.event('draws', key)


# --- numerically tabulated distributions -----------------------------------
def table(rng):
    n = int(rng.integers(60, 400))
    width = logu(rng, 1e-6, 1e4)
    lo = _center(rng, width)
    if rng.random() < 0.5:
        x = np.linspace(lo, lo + width, n)
    else:
        x = lo + width * np.sort(np.concatenate([[0, 1], rng.random(n - 2)]))
        x = np.unique(x)
    u = np.clip((x - x[0]) / (x[-1] - x[0]), 0, 1)
    k = int(rng.integers(3))
    if k == 0:
        y = np.exp(-0.5 * ((u - rng.uniform(0.2, 0.8)) / rng.uniform(0.08, 0.3))**2)
    elif k == 1:
        y = u**rng.uniform(0.5, 3) * (1 - u)**rng.uniform(0.5, 3)
    else:
        y = np.exp(-((u - 0.3) / 0.1)**2) + rng.uniform(0.1, 2) * np.exp(-((u - 0.7) / 0.08)**2)
    y = y * logu(rng, 1e-6, 1e6)
    if rng.random() < 0.3:
        return list(map(float, x)), list(map(float, y))
    return x, y


def judge_numerical(m, rng, fam, d, x, y, par, cv=None, hist=True):
    x, y = np.asarray(x, float), np.asarray(y, float)
    w = dict(family=fam, par=par)
    key = (fam, repr(par)[:300], float(x[0]), float(x[-1]), float(y.sum()))
    tr = float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))
    cell = float(np.max(np.maximum(y[1:], y[:-1]) * np.diff(x)) / tr)
    pts = rng.uniform(x[0], x[-1], 30)
    ref = np.interp(pts, x, y) / tr
    m.close(d.pdf(pts), ref, fam + ':pdf', 'density vs normalised table', rtol=1e-7, atol=1e-9 * y.max() / tr, **w)
    with np.errstate(all='ignore'):
        m.close(np.exp(d.logpdf(pts)), ref, fam + ':logpdf', rtol=1e-6, atol=1e-9 * y.max() / tr, **w)
    out = np.array([x[0] - 0.01 * (x[-1] - x[0]), x[-1] + 0.01 * (x[-1] - x[0])])
    m.check(np.all(d.pdf(out) == 0) and np.all(d.logpdf(out) == -np.inf), fam + ':outside', **w)
    m.check(d.support[0] == x[0] and d.support[1] == x[-1], fam + ':support', **w)
    want = x[np.argmax(y)] if cv is None else cv
    m.check(d.central_value == want, fam + ':central', got=d.central_value, want=want, **w)
    m.event('pdf', key)
    rc = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))]) / tr
    cdf = lambda t: np.interp(t, x, rc)
    # the code's CDF may be any quadrature accurate to about one cell
    tol = 2.5 * cell
    m.close(d.cdf(pts), cdf(pts), fam + ':cdf', 'cdf vs integral', rtol=0, atol=tol, **w)
    m.close([d.cdf(x[0]), d.cdf(x[-1])], [0, 1], fam + ':cdf-ends', rtol=0, atol=1e-9, **w)
    ps = rng.uniform(0, 1, 15)
    m.close(d.cdf(d.ppf(ps)), ps, fam + ':cdf(ppf)', rtol=1e-6, atol=1e-7, **w)
    m.check(np.all(np.diff(d.ppf(np.sort(ps))) >= 0), fam + ':ppf-monotone', **w)
    for ns in (1, 2, float(rng.uniform(0.3, 2.2))):
        cl = cl_of(ns)
        c0 = float(d.cdf(d.central_value))
        l, r = float(d.get_error_left(ns)), float(d.get_error_right(ns))
        cv_ = d.central_value
        m.close(float(d.cdf(cv_) - d.cdf(cv_ - l)), cl * c0, fam + ':central-left', rtol=1e-5, atol=1e-6, **w)
        m.close(float(d.cdf(cv_ + r) - d.cdf(cv_)), cl * (1 - c0), fam + ':central-right', rtol=1e-5, atol=1e-6, **w)
        m.close(float(d.cdf(cv_ + d.get_error_right(ns, method='limit'))), cl, fam + ':limit-right', rtol=1e-5, atol=1e-6, **w)
        m.close(float(d.cdf(cv_ - d.get_error_left(ns, method='limit'))), 1 - cl, fam + ':limit-left', rtol=1e-5, atol=1e-6, **w)
        hl, hr = float(d.get_error_left(ns, method='hpd')), float(d.get_error_right(ns, method='hpd'))
        if np.isfinite(hl) and np.isfinite(hr):
            same = abs(hl - l) <= 1e-12 * abs(l) and abs(hr - r) <= 1e-12 * abs(r)
            mass = float(d.cdf(cv_ + hr) - d.cdf(cv_ - hl))
            m.close(mass, cl, fam + ':hpd-mass', rtol=1e-4, atol=1e-5, same=same, **w)
            m.close(float(d.pdf(cv_ + hr)), float(d.pdf(cv_ - hl)), fam + ':hpd-density',
                    rtol=1e-3, atol=2e-2 * y.max() / tr, **w)
    m.raises(ValueError, fam + ':bad-method', d.get_error_left, 1, method='nonsense')
    m.raises(ValueError, fam + ':bad-method', d.get_error_right, 1, method='nonsense')
    m.event('errors', key)
    draws(m, fam, d, cdf, (x[0], x[-1]), w, key, slack=tol)


def numerical(m, rng, n):
    p = P()
    for _ in range(n):
        x, y = table(rng)
        cv = None
        if rng.random() < 0.4:
            cv = float(rng.uniform(x[0] + 0.2 * (x[-1] - x[0]), x[-1] - 0.2 * (x[-1] - x[0])))
        x0, y0 = np.array(x), np.array(y)
        try:
            d = m.call('numerical:construct', p.NumericalDistribution, x, y, central_value=cv)
            judge_numerical(m, rng, 'numerical', d, x, y, ('table', len(x), cv), cv)
        except CodeRaised:
            continue
        m.check(np.array_equal(np.array(x), x0) and np.array_equal(np.array(y), y0), 'numerical:input-mutated')
        m.raises(ValueError, 'numerical:central-outside', p.NumericalDistribution, x, y, central_value=x[-1] + abs(x[-1] - x[0]))


def tabulated(m, rng, n):
    """NumericalDistribution.from_pd reproduces the distribution it tabulates."""
    p = P()
    for _ in range(n):
        fam = str(rng.choice(['normal', 'asymmetric_normal', 'gamma', 'half_normal', 'gamma_positive', 'uniform', 'gaussian_upper_limit', 'lognormal']))
        c = FAM[fam](rng)
        if fam == 'lognormal' and not 1.08 < c['par'][1] < 1.5:
            continue
        d = c['d']
        try:
            t = m.call('from_pd:' + fam, p.NumericalDistribution.from_pd, d)
        except CodeRaised:
            continue
        w = dict(family=fam, par=c['par'])
        m.close(t.central_value, d.central_value, 'from_pd:central', rtol=1e-12, **w)
        lo, hi = t.support
        pts = rng.uniform(lo, hi, 20)
        edge = (hi - lo) / 400
        pts = [x for x in pts if all(abs(x - e) > edge for e in c.get('edge', []) + [c['lo'], lo])]
        pk = float(np.max(t.y_norm))
        m.close(t.pdf(pts), np.exp(c['lp'](np.array(pts))), 'from_pd:pdf', rtol=2e-2, atol=6e-3 * pk, **w)
        m.check(p.NumericalDistribution.from_pd(t) is t, 'from_pd:idempotent', **w)
        m.event('from_pd', (fam, repr(c['par'])))


def discrete(m, rng, n):
    p = P()
    for _ in range(n):
        a = int(rng.integers(-30, 30))
        b = a + int(rng.integers(1, 25))
        cv = None if rng.random() < 0.5 else int(rng.integers(a, b + 1))
        d = p.DiscreteUniformDistribution(a, b, cv)
        w = dict(par=(a, b, cv))
        if cv is None:
            m.check(a <= d.central_value <= b and abs(d.central_value - (a + b) / 2) < 1, 'discrete:central', **w)
        else:
            m.check(d.central_value == cv, 'discrete:central', got=d.central_value, **w)
        ks = np.arange(a - 3, b + 4)
        want = np.where((ks >= a) & (ks <= b), -math.log(b - a + 1), -np.inf)
        m.close([float(d.logpdf(k)) for k in ks], want, 'discrete:logpdf', rtol=1e-12, **w)
        m.close(d.logpdf(ks), want, 'discrete:logpdf-array', rtol=1e-12, **w)
        m.check(float(d.logpdf(a + 0.5)) == -np.inf, 'discrete:non-integer', **w)
        N = 3000
        r = d.get_random(N)
        m.check(r.min() >= a and r.max() <= b, 'discrete:range', **w)
        cnt = np.bincount(np.asarray(r) - a, minlength=b - a + 1)
        e = N / (b - a + 1)
        z = np.abs(cnt - e) / math.sqrt(e)
        m.check(z.max() < 7.5, 'discrete:frequencies', z=z.max(), **w)
        m.check(a <= int(d.get_random()) <= b, 'discrete:scalar', **w)
        for bad in (a - 1, b + 1, 0 if (a > 0 or b < 0) else b + 2):
            m.raises(ValueError, 'discrete:central-outside', p.DiscreteUniformDistribution, a, b, bad)
        m.event('pdf', ('discrete', a, b, cv))
        # delta
        c = sgn(rng) * logu(rng, 1e-9, 1e9)
        q = p.DeltaDistribution(c)
        m.check(q.logpdf(c) == 0 and q.logpdf(c * 1.5) == -np.inf and q.logpdf(-c) == -np.inf, 'delta:logpdf', c=c)
        m.check(list(q.logpdf(np.array([c, 2 * c]))) == [0, -np.inf], 'delta:array', c=c)
        m.check(q.get_random() == c and np.all(q.get_random(7) == c) and len(q.get_random(7)) == 7, 'delta:random', c=c)
        m.check(q.error_left == 0 and q.error_right == 0 and q.central_value == c, 'delta:errors', c=c)
        m.event('pdf', ('delta', c))


def invalid(m, rng, n):
    p = P()
    for _ in range(n):
        c = sgn(rng) * logu(rng, 1e-3, 1e3)
        s = logu(rng, 1e-3, 1e3)
        bad = [
            (p.NormalDistribution, (c, -s)), (p.NormalDistribution, (c, 0)),
            (p.LogNormalDistribution, (0, 1 + s)), (p.LogNormalDistribution, (c, 1)), (p.LogNormalDistribution, (c, 0.5)),
            (p.AsymmetricNormalDistribution, (c, -s, s)), (p.AsymmetricNormalDistribution, (c, s, 0)),
            (p.HalfNormalDistribution, (c, 0)),
            (p.GaussianUpperLimit, (-s, 0.9)), (p.GaussianUpperLimit, (s, 1.1)), (p.GaussianUpperLimit, (s, -0.1)),
            (p.GammaDistribution, (2, s, 1)), (p.GammaDistributionPositive, (2, s, 1)),
        ]
        for cls, args in bad:
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, *args)
        for cls in (p.GammaCountingProcess, p.GeneralGammaCountingProcess):
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, scale_factor=-1, counts_total=3, counts_background=1)
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, counts_total=-1, counts_background=1)
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, counts_total=1, counts_background=-1)
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, counts_total=4)
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, counts_total=5, counts_background=1, counts_signal=3)
        for cls in (p.GammaUpperLimit,):
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, limit=-s, confidence_level=0.9, counts_total=3, counts_background=1)
            m.raises(ValueError, 'invalid:' + cls.__name__, cls, limit=s, confidence_level=1.2, counts_total=3, counts_background=1)
        m.event('invalid', (round(c, 6), round(s, 6)), n=len(bad))


# --- background-smeared counting experiments ---------------------------------
def general_gamma(m, rng, n):
    p = P()
    warnings.simplefilter('ignore')
    for i in range(n):
        tot = float(rng.choice([1, 3, 10, 30]))
        bg = float(rng.choice([0.5, 1.5, 0.5 * tot, tot, tot + 1]))
        sd = float(rng.choice([0.3, 1., 0.5 * math.sqrt(tot + 1)])) * float(rng.uniform(0.5, 1.5))
        kw = _counts_kw(rng, tot, bg)
        kind = int(rng.integers(3))
        w = dict(counts=(tot, bg, sd), kw=kw, kind=kind)
        try:
            if kind == 0:
                scale = logu(rng, 1e-9, 10)
                d = m.call('general_gamma:construct', p.GeneralGammaCountingProcess, scale_factor=scale, background_std=sd, **kw)
            elif kind == 1:
                lim = logu(rng, 1e-9, 10)
                cl = float(rng.choice([0.9, 0.95]))
                arg = 'background_std' if rng.random() < 0.7 else 'background_variance'
                d = m.call('general_gamma_ul:construct', p.GeneralGammaUpperLimit, limit=lim, confidence_level=cl, **{arg: sd}, **kw)
                m.close(float(d.cdf(lim)), cl, 'general_gamma_ul:limit', rtol=2e-3, **w)
                scale = d.scale_factor
                m.check(scale > 0, 'general_gamma_ul:scale', scale=scale, **w)
            else:
                scale = logu(rng, 1e-9, 10)
                d = m.call('general_gamma_pos:construct', p.GeneralGammaDistributionPositive, a=tot + 1, loc=-bg * scale, scale=scale,
                           gaussian_standard_deviation=sd)
        except CodeRaised:
            continue
        # independent density: gamma smeared by the Gaussian, restricted to x>0
        lp, _ = _gammaref(tot + 1, -bg, 1., False)
        z = np.linspace(-bg, -bg + (tot + 1) + 12 * math.sqrt(tot + 1) + 30, 6001)
        gz = np.exp(lp(z))
        x = np.linspace(0, (tot + 1) + 8 * math.sqrt(tot + 1) + 8 * sd, 800)
        def smear(x):
            K = np.exp(-0.5 * ((x[:, None] - z[None, :]) / sd)**2) / (sd * math.sqrt(2 * math.pi))
            return np.trapz(K * gz[None, :], z, axis=1)
        y = smear(x) + smear(-2 * bg - x)   # smeared mass below x=-bg is reflected at that point
        y /= np.trapz(y, x)
        got = d.pdf(x * scale) * scale
        m.close(got[5:-5], y[5:-5], 'general_gamma:pdf', 'density vs direct convolution', rtol=0, atol=0.006 * y.max(), **w)
        rc = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])
        rc /= rc[-1]
        xin = x[(x * scale > d.support[0]) & (x * scale < d.support[1])]
        m.close(d.cdf(xin * scale), np.interp(xin, x, rc), 'general_gamma:cdf', rtol=0, atol=6e-3, **w)
        m.check(d.support[0] >= 0, 'general_gamma:support', support=d.support, **w)
        m.event('pdf', ('general_gamma', repr(w)))
        draws(m, 'general_gamma', d, lambda t: np.interp(np.asarray(t) / scale, x, rc), (0, np.inf), w, ('gg', repr(w)), slack=6e-3)
        for attr, v in (('counts_total', tot), ('counts_background', bg), ('counts_signal', tot - bg)):
            if kind < 2:
                m.close(getattr(d, attr), v, 'general_gamma:counts', rtol=1e-12, atol=1e-12, **w)
    # without smearing it is the analytic counting distribution
    for tot, bg in ((3., 1.), (10., 4.)):
        g = p.GeneralGammaCountingProcess(scale_factor=2., counts_total=tot, counts_background=bg, background_std=0)
        a = p.GammaCountingProcess(scale_factor=2., counts_total=tot, counts_background=bg)
        x = np.linspace(0.1, 2 * tot, 50)
        m.close(g.pdf(x), np.exp(a.logpdf(x)), 'general_gamma:no-smearing', rtol=1e-2, atol=2e-3 * np.exp(a.logpdf(a.central_value)))
        m.event('general_gamma', (tot, bg))


def kde(m, rng, n):
    p = P()
    for _ in range(n):
        N = int(rng.integers(200, 1500))
        loc, sc = sgn(rng) * logu(rng, 1e-3, 1e3), logu(rng, 1e-3, 1e3)
        data = loc + sc * (rng.normal(size=N) if rng.random() < 0.5 else rng.gamma(3, size=N))
        nb = None if rng.random() < 0.5 else int(rng.integers(50, 400))
        which = int(rng.integers(3))
        try:
            if which == 0:
                bw = N**(-0.2) * np.std(data)
                d = m.call('kde', p.GaussianKDE, data, n_bins=nb)
            elif which == 1:
                bw = sc * rng.uniform(0.1, 0.6)
                d = m.call('kde', p.GaussianKDE, data, bandwidth=bw, n_bins=nb)
            else:
                bw = sc * rng.uniform(0.1, 0.6)
                d = m.call('kde', p.KernelDensityEstimate, data, p.NormalDistribution(0, bw), n_bins=nb)
        except CodeRaised:
            continue
        w = dict(N=N, bw=bw, n_bins=nb, which=which)
        bins = nb or min(1000, N)
        dx = (data.max() - data.min()) / bins
        x = np.linspace(data.min() + 0.02 * sc, data.max() - 0.02 * sc, 60)
        ref = np.array([np.mean(np.exp(-0.5 * ((t - data) / bw)**2)) / (bw * math.sqrt(2 * math.pi)) for t in x])
        m.close(d.pdf(x), ref, 'kde:pdf', 'estimate vs direct kernel sum', rtol=0, atol=(0.012 + 0.5 * dx / bw) * ref.max(), **w)
        m.close(np.trapz(d.pdf(d.x), d.x), 1, 'kde:norm', rtol=1e-6, **w)
        m.check(abs(np.average(d.x, weights=d.y_norm) - data.mean()) < dx + 0.02 * bw + 0.02 * sc, 'kde:mean',
                got=np.average(d.x, weights=d.y_norm), want=data.mean(), **w)
        m.event('pdf', ('kde', repr(w)))
    m.raises(AssertionError, 'kde:kernel-offset', p.KernelDensityEstimate, np.arange(10.), p.NormalDistribution(1, 1))


def jobs(tier, seed):
    quick = tier == 'quick'
    k = 2 if quick else 80
    c = 2 if quick else 16
    out = []
    for fam in FAM:
        out += split_jobs('analytic-' + fam, analytic, 24 * k, c, fam=fam)
    out += split_jobs('numerical', numerical, 24 * k, c)
    out += split_jobs('tabulated', tabulated, 60 * k, c)
    out += split_jobs('discrete', discrete, 30 * k, c)
    out += split_jobs('invalid', invalid, 5 * k, 1)
    out += split_jobs('general_gamma', general_gamma, 14 * k, 2 * c)
    out += split_jobs('kde', kde, 10 * k, c)
    return out
