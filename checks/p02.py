"""P02: convolution and combination of distributions."""
import math
import itertools
import numpy as np
from lib.util import logu, sgn, split_jobs, random_corr
from lib.mon import CodeRaised

RULE = ('random pairs and triples of distribution families with random centres, widths and overall scale; distinct by '
        '(operation, families, parameters); non-trivial when the result was compared with an independently computed '
        'product or convolution of independently written densities')
ASSUMPTIONS = ['numerical results are judged within the resolution of 1000-point tables (CDF tolerance 3e-3..6e-3)']
MIN = {'combine': 100, 'convolve': 60, 'multivariate': 10}


def P():
    import flavio.statistics.probability as p
    return p


# each: (name, loc, width) -> dict(d, f(density), lo, hi, cen)
def mk_normal(rng, c, w):
    return dict(d=P().NormalDistribution(c, w), f=lambda x: np.exp(-0.5 * ((x - c) / w)**2) / w, lo=c - 8 * w, hi=c + 8 * w, cen=c, kind='normal', par=(c, w))


def mk_uniform(rng, c, w):
    return dict(d=P().UniformDistribution(c, 2 * w), f=lambda x: ((x >= c - 2 * w) & (x <= c + 2 * w)) / (4 * w), lo=c - 2 * w, hi=c + 2 * w, cen=c,
                kind='uniform', par=(c, 2 * w))


def mk_asym(rng, c, w):
    r = w * rng.uniform(0.4, 1.6)
    l = w * rng.uniform(0.4, 1.6)
    return dict(d=P().AsymmetricNormalDistribution(c, r, l),
                f=lambda x: np.exp(-0.5 * ((x - c) / np.where(x < c, l, r))**2), lo=c - 8 * l, hi=c + 8 * r, cen=c, kind='asym', par=(c, r, l))


def mk_half(rng, c, w):
    s = w * sgn(rng)
    return dict(d=P().HalfNormalDistribution(c, s),
                f=lambda x: np.where((x - c) * s >= 0, np.exp(-0.5 * ((x - c) / s)**2), 0.), lo=min(c, c + 8 * s), hi=max(c, c + 8 * s), cen=c,
                kind='half', par=(c, s))


def mk_gamma(rng, c, w):
    # mode at c, needs loc<=0: only used with c small enough
    a = 1 + logu(rng, 1, 20)
    scale = w / math.sqrt(a)
    loc = c - (a - 1) * scale
    if loc > 0:
        return None
    d = P().GammaDistribution(a, loc, scale)
    def f(x):
        z = (x - loc) / scale
        with np.errstate(all='ignore'):
            return np.where(z > 0, np.exp((a - 1) * np.log(np.maximum(z, 1e-300)) - z - (a - 1) * (math.log(a - 1) - 1)), 0.)
    return dict(d=d, f=f, lo=loc, hi=loc + scale * (a + 12 * math.sqrt(a) + 25), cen=d.central_value, kind='gamma', par=(a, loc, scale))


def mk_numerical(rng, c, w):
    n = int(rng.integers(400, 900))
    lo, hi = c - w * rng.uniform(3, 5), c + w * rng.uniform(3, 5)
    x = np.linspace(lo, hi, n)
    b = rng.uniform(0.2, 0.9)
    sh = rng.uniform(-1, 1)
    y = np.exp(-0.5 * ((x - c - sh * w) / w)**2) * (1 + b * np.sin((x - c) / w * 1.5)) * logu(rng, 1e-3, 1e3)
    cen = c if rng.random() < 0.6 else None
    d = P().NumericalDistribution(x, y, central_value=cen)
    return dict(d=d, f=lambda t: np.interp(t, x, y, left=0., right=0.), lo=lo, hi=hi, cen=d.central_value, kind='numerical', par=(c, w, n, sh))


def mk_gul(rng, c, w):
    lim = w * 1.6448536269514722
    d = P().GaussianUpperLimit(limit=lim, confidence_level=0.9)
    return dict(d=d, f=lambda x: np.where(x >= 0, np.exp(-0.5 * (x / w)**2), 0.), lo=0., hi=8 * w, cen=0., kind='gul', par=(lim,))


MK = [mk_normal, mk_uniform, mk_asym, mk_half, mk_gamma, mk_numerical, mk_normal]
SAME = [mk_normal, mk_uniform, mk_asym, mk_half, mk_numerical, mk_normal]


def snap(d):
    r = {}
    for k, v in d.__dict__.items():
        if isinstance(v, np.ndarray):
            r[k] = v.copy()
        elif isinstance(v, (int, float, tuple, list)):
            r[k] = repr(v)
    return r


def unchanged(m, ds, before, sig):
    for d, b in zip(ds, before):
        a = snap(d)
        for k, v in b.items():
            same = np.array_equal(a[k], v) if isinstance(v, np.ndarray) else a[k] == v
            m.check(same, sig, 'attribute %s of an input distribution changed' % k, dist=repr(d)[:200])


def pdf_of(d, x):
    with np.errstate(all='ignore'):
        return np.exp(d.logpdf(x))


def compare(m, d, ref_x, ref_y, sig, tol, w):
    """distance between CDFs of the result and of the reference density."""
    tot = np.trapz(ref_y, ref_x)
    rc = np.concatenate([[0], np.cumsum(0.5 * (ref_y[1:] + ref_y[:-1]) * np.diff(ref_x))]) / tot
    s = d.support
    xs = np.linspace(min(s[0], ref_x[0]), max(s[-1], ref_x[-1]), 40001)
    y = pdf_of(d, xs)
    y = np.where(np.isfinite(y), y, 0.)
    c = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(xs))])
    m.close(c[-1], 1, sig + '-norm', 'result is not normalised', rtol=5e-3, **w)
    dist = float(np.max(np.abs(c / c[-1] - np.interp(xs, ref_x, rc, left=0, right=1))))
    m.worst[sig] = max(m.worst.get(sig, 0), dist / tol)
    m.check(dist <= tol, sig, 'CDF of the result differs by %.4g' % dist, distance=dist, tol=tol, **w)
    mean = np.trapz(y * xs, xs) / c[-1]
    sd = math.sqrt(max(np.trapz(y * (xs - mean)**2, xs) / c[-1], 0))
    rm = np.trapz(ref_y * ref_x, ref_x) / tot
    rs = math.sqrt(np.trapz(ref_y * (ref_x - rm)**2, ref_x) / tot)
    m.close(mean, rm, sig + '-mean', rtol=0, atol=8 * tol * rs, **w)
    m.close(sd, rs, sig + '-width', rtol=8 * tol, **w)


def combine(m, rng, n):
    p = P()
    for _ in range(n):
        S = logu(rng, 1e-9, 1e6)
        O = sgn(rng) * S * logu(rng, 0.1, 50)
        k = int(rng.integers(2, 4))
        parts = []
        while len(parts) < k:
            mk = MK[int(rng.integers(len(MK)))]
            w = S * logu(rng, 0.3, 3)
            off = 0.9 * S * rng.uniform(-1, 1)
            r = mk(rng, O + off, w)
            if r is not None:
                parts.append(r)
        lo = max(q['lo'] for q in parts)
        hi = min(q['hi'] for q in parts)
        if hi - lo < 0.5 * S:
            continue
        x = np.linspace(lo, hi, 60001)
        y = np.prod([q['f'](x) for q in parts], axis=0)
        tot = np.trapz(y / max(y.max(), 1e-300), x)
        mx = [np.max(q['f'](np.linspace(q['lo'], q['hi'], 4001))) for q in parts]
        if y.max() < 1e-3 * np.prod(mx) or tot < 0.02 * S:
            continue   # hardly compatible: the table resolution would dominate
        ds = [q['d'] for q in parts]
        w = dict(families=[q['kind'] for q in parts], par=[q['par'] for q in parts])
        before = [snap(d) for d in ds]
        try:
            r = m.call('combine', p.combine_distributions, list(ds))
        except CodeRaised:
            continue
        unchanged(m, ds, before, 'combine:input-changed')
        hard = any(q['kind'] in ('uniform', 'half') for q in parts)
        compare(m, r, x, y, 'combine:density-edge' if hard else 'combine:density', 1.2e-2 if hard else 4e-3, w)
        if all(q['kind'] == 'normal' for q in parts):
            W = [1 / q['par'][1]**2 for q in parts]
            m.close(r.central_value, sum(a * q['par'][0] for a, q in zip(W, parts)) / sum(W), 'combine:normal-mean', rtol=1e-9, **w)
            m.close(r.standard_deviation, sum(W)**-0.5, 'combine:normal-sd', rtol=1e-9, **w)
        # order does not matter
        perm = list(rng.permutation(k))
        r2 = p.combine_distributions([ds[i] for i in perm])
        xx = x[::3000]
        pk = pdf_of(r, x).max()
        m.close(pdf_of(r2, xx), pdf_of(r, xx), 'combine:order', rtol=1e-6, atol=1e-6 * pk, perm=perm, **w)
        # exact values win
        q = p.DeltaDistribution(float(O))
        z = p.combine_distributions(list(ds[:1]) + [q] + list(ds[1:]))
        m.check(z.central_value == O and z.logpdf(O) == 0 and z.logpdf(O + S) == -np.inf, 'combine:delta', got=repr(z), **w)
        m.event('combine', (repr(w)))
        m.sample(dict(w, result_central=r.central_value))


def weighted(m, rng, n):
    p = P()
    for _ in range(n):
        k = int(rng.integers(1, 7))
        S = logu(rng, 1e-9, 1e9)
        c = S * rng.normal(size=k)
        s = S * np.exp(rng.normal(size=k))
        wt = 1 / s**2
        a, u = m.call('weighted_average', p.weighted_average, c, s)
        m.close(a, np.sum(wt * c) / np.sum(wt), 'weighted_average:mean', rtol=1e-9, atol=1e-12 * S, c=c, s=s)
        m.close(u, np.sum(wt)**-0.5, 'weighted_average:sd', rtol=1e-9, c=c, s=s)
        r = p.combine_distributions([p.NormalDistribution(x, y) for x, y in zip(c, s)])
        m.close([r.central_value, r.standard_deviation], [np.sum(wt * c) / np.sum(wt), np.sum(wt)**-0.5], 'combine:normals', rtol=1e-9, atol=1e-12 * S)
        r = p.convolve_distributions([p.NormalDistribution(x, y) for x, y in zip(c, s)], 'sum')
        m.close([r.central_value, r.standard_deviation], [c.sum(), math.sqrt((s**2).sum())], 'convolve:normals', rtol=1e-9, atol=1e-12 * S)
        r = p.convolve_distributions([p.NormalDistribution(c[0], y) for y in s])
        m.close([r.central_value, r.standard_deviation], [c[0], math.sqrt((s**2).sum())], 'convolve:normals-same', rtol=1e-9)
        m.event('combine', ('w', k, S))


def convolve(m, rng, n):
    p = P()
    for _ in range(n):
        S = logu(rng, 1e-9, 1e6)
        mode = 'same' if rng.random() < 0.5 else 'sum'
        k = int(rng.integers(2, 4))
        parts = []
        C = float(sgn(rng) * S * logu(rng, 0.1, 30))
        if mode == 'same' and rng.random() < 0.15:
            C = 0.
        while len(parts) < k:
            w = S * logu(rng, 0.15, 4)
            if mode == 'same':
                mk = SAME[int(rng.integers(len(SAME)))]
                r = mk(rng, C, w)
                if r['d'].central_value != C:
                    continue
            else:
                mk = (MK + [mk_gul])[int(rng.integers(len(MK) + 1))]
                r = mk(rng, C + S * rng.normal(), w)
            if r is not None:
                parts.append(r)
        ds = [q['d'] for q in parts]
        w = dict(mode=mode, families=[q['kind'] for q in parts], par=[q['par'] for q in parts])
        # reference: densities in deviations from the central value on a common fine grid
        a = min(q['lo'] - q['cen'] for q in parts)
        b = max(q['hi'] - q['cen'] for q in parts)
        L = sum(max(abs(q['lo'] - q['cen']), abs(q['hi'] - q['cen'])) for q in parts)
        N = 2**16
        t = np.linspace(-L, L, N + 1)
        dx = t[1] - t[0]
        F = None
        for q in parts:
            # cell averages, so that edges are exact to second order
            fine = np.mean([q['f'](q['cen'] + t + dx * e) for e in (-0.375, -0.125, 0.125, 0.375)], axis=0)
            fine = fine / fine.sum()
            F = fine if F is None else _conv(F, fine)
        cen = C if mode == 'same' else sum(q['cen'] for q in parts)
        before = [snap(d) for d in ds]
        try:
            r = m.call('convolve', p.convolve_distributions, list(ds), mode)
        except CodeRaised:
            continue
        unchanged(m, ds, before, 'convolve:input-changed')
        m.close(r.central_value, cen, 'convolve:central', rtol=1e-9, atol=1e-12 * S, **w)
        compare(m, r, cen + t, F, 'convolve:density', 6e-3, w)
        perm = list(rng.permutation(k))
        r2 = p.convolve_distributions([ds[i] for i in perm], mode)
        m.close(r2.central_value, r.central_value, 'convolve:order-central', rtol=1e-9, atol=1e-12 * S)
        xx = np.linspace(r.support[0], r.support[-1], 200)
        pk = np.nanmax(pdf_of(r, xx))
        if all(q['kind'] in ('normal', 'asym', 'gamma', 'numerical') for q in parts):
            m.close(pdf_of(r2, xx), pdf_of(r, xx), 'convolve:order', rtol=1e-2, atol=1e-2 * pk, **w)
        if mode == 'same':
            # an exact value adds no uncertainty
            z = p.convolve_distributions(list(ds) + [p.DeltaDistribution(C)], 'same')
            m.close(pdf_of(z, xx), pdf_of(r, xx), 'convolve:delta', rtol=1e-6, atol=1e-6 * pk, **w)
        m.event('convolve', repr(w))
        m.sample(dict(w, central=r.central_value))


def _conv(F, G):
    n = len(F)
    f = np.fft.rfft(F, 2 * n)
    g = np.fft.rfft(G, 2 * n)
    full = np.fft.irfft(f * g, 2 * n)[:2 * n - 1]
    h = (n - 1) // 2
    out = full[h:h + n]
    return np.maximum(out, 0)


def errors(m, rng, n):
    p = P()
    for _ in range(n):
        c = sgn(rng) * logu(rng, 1e-3, 1e3)
        s = logu(rng, 1e-3, 1e3)
        N, U, D = p.NormalDistribution, p.UniformDistribution, p.DeltaDistribution
        m.raises(ValueError, 'combine:contradiction', p.combine_distributions, [D(c), D(c + s), N(c, s)])
        m.raises(ValueError, 'combine:disjoint', p.combine_distributions, [U(c, s), U(c + 3 * s, s)])
        m.raises(ValueError, 'convolve:mode', p.convolve_distributions, [N(c, s), N(c, s)], 'product')
        m.raises(AssertionError, 'convolve:centres', p.convolve_distributions, [N(c, s), N(c + s, s)])
        m.raises(AssertionError, 'convolve:centres', p.convolve_distributions, [N(c, s), U(c + s, s)])
        m.raises(NotImplementedError, 'convolve:delta-sum', p.convolve_distributions, [N(c, s), D(c)], 'sum')
        M = p.MultivariateNormalDistribution([c, c], standard_deviation=[s, s])
        m.raises(AssertionError, 'combine:dimension', p.combine_distributions, [M, N(c, s)])
        m.raises(AssertionError, 'convolve:dimension', p.convolve_distributions, [M, N(c, s)])
        M2 = p.MultivariateNormalDistribution([c, c + s], standard_deviation=[s, s])
        m.raises(AssertionError, 'convolve:mv-centres', p.convolve_distributions, [M, M2])
        z = p.combine_distributions([D(c), D(c)])
        m.check(z.central_value == c, 'combine:two-deltas')
        z = p.convolve_distributions([D(c), D(c)])
        m.check(z.central_value == c and z.logpdf(c) == 0, 'convolve:two-deltas')
        one = N(c, s)
        m.check(p.combine_distributions([one]) is one and p.convolve_distributions([one]) is one, 'single:identity')
        m.event('errors', (c, s), n=9)
    x = [np.linspace(-1, 1, 9)] * 2
    y = np.exp(-np.add.outer(x[0]**2, x[1]**2))
    Q = p.MultivariateNumericalDistribution(x, y)
    m.raises(NotImplementedError, 'convolve:mv-numerical', p.convolve_distributions, [Q, Q, p.MultivariateNormalDistribution([0., 0.], standard_deviation=[1, 1])])
    m.event('errors', 'mvnum')


def multivariate(m, rng, n):
    p = P()
    for _ in range(n):
        d = int(rng.integers(2, 5))
        S = np.exp(rng.uniform(-12, 8, size=d))
        mu = S * rng.normal(size=d) * 3
        k = int(rng.integers(2, 4))
        covs = []
        means = []
        for _i in range(k):
            s = S * np.exp(rng.uniform(-0.7, 0.7, d))
            covs.append(random_corr(rng, d, 0.9) * np.outer(s, s))
            means.append(mu + S * rng.normal(size=d) * 0.7)
        ds = [p.MultivariateNormalDistribution(a, covariance=c) for a, c in zip(means, covs)]
        w = dict(d=d, S=S)
        try:
            r = m.call('mv:combine', p.combine_distributions, ds)
            # in units of S to keep the reference algebra well conditioned
            W = [np.linalg.inv(c / np.outer(S, S)) for c in covs]
            C = np.linalg.inv(sum(W))
            mm = C @ sum(a @ (b / S) for a, b in zip(W, means))
            m.close(np.asarray(r.central_value) / S, mm, 'mv:combine-mean', rtol=1e-6, atol=1e-8, **w)
            m.close(r.covariance / np.outer(S, S), C, 'mv:combine-cov', rtol=1e-6, atol=1e-8, **w)
            r = m.call('mv:convolve', p.convolve_distributions, ds, 'sum')
            m.close(r.central_value, np.sum(means, axis=0), 'mv:convolve-mean', rtol=1e-9, **w)
            m.close(r.covariance / np.outer(S, S), np.sum(covs, axis=0) / np.outer(S, S), 'mv:convolve-cov', rtol=1e-9, atol=1e-12, **w)
            conv = (lambda v: v) if rng.random() < 0.5 else (lambda v: list(v))
            same = [p.MultivariateNormalDistribution(conv(mu), covariance=c) for c in covs]
            r = m.call('mv:convolve-same', p.convolve_distributions, same)
            m.close(r.central_value, mu, 'mv:same-mean', rtol=1e-12, **w)
            m.close(r.covariance / np.outer(S, S), np.sum(covs, axis=0) / np.outer(S, S), 'mv:same-cov', rtol=1e-9, atol=1e-12, **w)
            m.event('multivariate', ('gauss', d, k, float(S[0])))
        except CodeRaised:
            pass


def mvnumerical(m, rng, n):
    p = P()
    for _ in range(n):
        S = np.exp(rng.uniform(-6, 6, size=2))
        mu = S * rng.normal(size=2) * 2
        n1, n2 = int(rng.integers(50, 90)), int(rng.integers(50, 90))
        h = rng.uniform(3.5, 5, size=2)
        off = rng.uniform(-1.2, 1.2, size=2) * (rng.random() < 0.7)
        skew = rng.random() < 0.4
        xi = [np.linspace(mu[i] - S[i] * (h[i] + off[i]), mu[i] + S[i] * (h[i] - off[i]), [n1, n2][i]) for i in (0, 1)]
        rho = rng.uniform(-0.7, 0.7)
        sk = rng.uniform(-0.5, 0.5, 2)
        def f(a, b):
            u, v = (a - mu[0]) / S[0], (b - mu[1]) / S[1]
            q = (u**2 - 2 * rho * u * v + v**2) / (1 - rho**2)
            return np.exp(-0.5 * q) * (1 + sk[0] * np.tanh(u)) * (1 + sk[1] * np.tanh(v))
        if skew:
            # long one-sided tail: the most probable point sits at the edge of the table
            xi = [np.linspace(mu[i], mu[i] + S[i] * rng.uniform(9, 12), [n1, n2][i]) for i in (0, 1)]
            lam = rng.uniform(1.0, 1.6, 2)
            def f(a, b):
                u, v = (a - mu[0]) / S[0], (b - mu[1]) / S[1]
                return u * v * np.exp(-u * lam[0] - v * lam[1])
        y = f(*np.meshgrid(*xi, indexing='ij'))
        given = skew or rng.random() < 0.5
        d = p.MultivariateNumericalDistribution(xi, y * logu(rng, 1e-3, 1e3), central_value=list(mu) if given else None)
        sg = S * np.exp(rng.uniform(-0.5, 0.5, 2))
        R = random_corr(rng, 2, 0.7)
        w = dict(S=S, mu=mu, sg=sg, rho=rho, off=off)
        # product with a Gaussian
        g0 = mu + S * rng.uniform(-0.6, 0.6, 2)
        cov = R * np.outer(sg, sg)
        g = p.MultivariateNormalDistribution(g0, covariance=cov)
        fx = [np.linspace(x[0], x[-1], 300) for x in xi]
        A, B = np.meshgrid(*fx, indexing='ij')
        ic = np.linalg.inv(cov / np.outer(S, S))
        def gauss(a, b, c):
            u, v = (a - c[0]) / S[0], (b - c[1]) / S[1]
            return np.exp(-0.5 * (ic[0, 0] * u * u + 2 * ic[0, 1] * u * v + ic[1, 1] * v * v))
        order = [d, g] if rng.random() < 0.5 else [g, d]
        try:
            r = m.call('mvnum:combine', p.combine_distributions, order)
            if not skew:
                mv_moments(m, r, A, B, f(A, B) * gauss(A, B, g0), S, 'mvnum:combine', w)
            m.event('multivariate', ('num-combine', repr(w)))
        except CodeRaised:
            pass
        # convolution
        for mode in ('sum', 'same'):
            c0 = np.asarray(d.central_value) if mode == 'same' else g0
            g = p.MultivariateNormalDistribution(list(c0), covariance=cov)
            order = [d, g] if rng.random() < 0.5 else [g, d]
            try:
                r = m.call('mvnum:convolve-' + mode, p.convolve_distributions, order, mode)
            except CodeRaised:
                continue
            # moments add under convolution
            W = f(A, B)
            W = W / W.sum()
            mean = np.array([(W * A).sum(), (W * B).sum()])
            C = np.array([[(W * (A - mean[0])**2).sum(), (W * (A - mean[0]) * (B - mean[1])).sum()],
                          [0, (W * (B - mean[1])**2).sum()]])
            C[1, 0] = C[0, 1]
            C = C + cov
            m.close((np.asarray(r.central_value) - np.asarray(d.central_value) - (g0 if mode == 'sum' else 0)) / S, [0, 0],
                    'mvnum:convolve-central', rtol=0, atol=1e-9, mode=mode, **w)
            wm = mean + (g0 if mode == 'sum' else 0)
            gx = np.meshgrid(*r.xi, indexing='ij')
            V = r.y_norm / r.y_norm.sum()
            gm = np.array([(V * gx[0]).sum(), (V * gx[1]).sum()])
            gc = np.array([[(V * (gx[0] - gm[0])**2).sum(), (V * (gx[0] - gm[0]) * (gx[1] - gm[1])).sum()], [0, (V * (gx[1] - gm[1])**2).sum()]])
            gc[1, 0] = gc[0, 1]
            sd = np.sqrt(np.diag(C))
            m.close((gm - wm) / sd, [0, 0], 'mvnum:convolve-mean', rtol=0, atol=0.2 if skew else 0.06, mode=mode, got=gm, want=wm, **w)
            m.close(gc / np.outer(sd, sd), C / np.outer(sd, sd), 'mvnum:convolve-cov', rtol=0, atol=0.15 if skew else 0.05, mode=mode, **w)
            m.event('multivariate', ('num-convolve', mode, repr(w)))


def mv_moments(m, r, A, B, W, S, sig, w):
    W = W / W.sum()
    mean = np.array([(W * A).sum(), (W * B).sum()])
    C = [(W * (A - mean[0])**2).sum(), (W * (B - mean[1])**2).sum(), (W * (A - mean[0]) * (B - mean[1])).sum()]
    gx = np.meshgrid(*r.xi, indexing='ij')
    V = r.y_norm / r.y_norm.sum()
    gm = np.array([(V * gx[0]).sum(), (V * gx[1]).sum()])
    gC = [(V * (gx[0] - gm[0])**2).sum(), (V * (gx[1] - gm[1])**2).sum(), (V * (gx[0] - gm[0]) * (gx[1] - gm[1])).sum()]
    s1, s2 = math.sqrt(C[0]), math.sqrt(C[1])
    m.close((gm - mean) / np.array([s1, s2]), [0, 0], sig + '-mean', rtol=0, atol=0.02, **w)
    m.close(np.array(gC) / np.array([s1 * s1, s2 * s2, s1 * s2]), np.array(C) / np.array([s1 * s1, s2 * s2, s1 * s2]), sig + '-cov', rtol=0, atol=0.02, **w)


def jobs(tier, seed):
    k, c = (1, 4) if tier == 'quick' else (40, 24)
    out = split_jobs('combine', combine, 200 * k, c)
    out += split_jobs('weighted', weighted, 40 * k, 1)
    out += split_jobs('convolve', convolve, 120 * k, c)
    out += split_jobs('errors', errors, 4 * k, 1)
    out += split_jobs('multivariate', multivariate, 30 * k, 2)
    out += split_jobs('mvnumerical', mvnumerical, 14 * k, c)
    return out
