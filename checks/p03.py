"""P03: multivariate distributions."""
import itertools
import math
import numpy as np
import scipy.stats as st
from lib.util import logu, sgn, split_jobs, random_corr, ks_stat
from lib.mon import CodeRaised

RULE = ('random multivariate normals (dimension 2-5, per-dimension scales over 16 decades, all ways of giving the matrix) and '
        'random tables (2-3 dimensions, including empty regions); distinct by parameters; non-trivial when density, reductions '
        'and draws were compared with closed forms')
ASSUMPTIONS = ['draws judged by KS/chi-square statistics with false-alarm probability < 1e-9 per case']
MIN = {'normal': 60, 'table': 20, 'draws': 40}


def P():
    import flavio.statistics.probability as p
    return p


def ref_logpdf(x, mu, cov):
    s = np.sqrt(np.diag(cov))
    C = cov / np.outer(s, s)
    L = np.linalg.cholesky(C)
    z = np.linalg.solve(L, ((np.atleast_2d(x) - mu) / s).T)
    return -0.5 * (z**2).sum(axis=0) - np.log(np.diag(L)).sum() - np.log(s).sum() - 0.5 * len(mu) * math.log(2 * math.pi)


def normal(m, rng, n):
    p = P()
    for _ in range(n):
        d = int(rng.integers(2, 6))
        s = np.exp(rng.uniform(-18, 18, d))
        if rng.random() < 0.5:
            s = np.exp(rng.uniform(-20, 10)) * np.exp(rng.uniform(-1, 1, d))
        mu = s * rng.normal(size=d) * np.exp(rng.uniform(-3, 5))
        R = random_corr(rng, d, rng.uniform(0.3, 0.98))
        cov = R * np.outer(s, s)
        form = int(rng.integers(6))
        aslist = rng.random() < 0.4
        cvt = (lambda a: np.asarray(a).tolist()) if aslist else (lambda a: np.array(a))
        if form == 0:
            kw = dict(covariance=cvt(cov))
        elif form == 1:
            kw = dict(covariance=cvt(np.triu(cov)))
        elif form == 2:
            kw = dict(standard_deviation=cvt(s), correlation=cvt(R))
        elif form == 3:
            kw = dict(standard_deviation=cvt(s), correlation=cvt(np.triu(R)))
        elif form == 4:
            r = float(rng.uniform(-0.9 / (d - 1), 0.95))
            if rng.random() < 0.2:
                r = 0
            R = np.eye(d) * (1 - r) + r
            cov = R * np.outer(s, s)
            kw = dict(standard_deviation=cvt(s), correlation=r)
        else:
            R = np.eye(d)
            cov = np.diag(s**2)
            kw = dict(standard_deviation=cvt(s))
        import copy
        kw0 = copy.deepcopy(kw)
        cv = cvt(mu)
        w = dict(form=form, d=d, s=s, mu=mu, aslist=aslist)
        try:
            D = m.call('mvn:construct', p.MultivariateNormalDistribution, cv, **kw)
            m.close(np.asarray(D.central_value), mu, 'mvn:central', rtol=1e-14, **w)
            m.close(D.covariance / np.outer(s, s), R, 'mvn:covariance', rtol=1e-9, atol=1e-12, **w)
            m.close(D.correlation, R, 'mvn:correlation', rtol=1e-9, atol=1e-12, **w)
            m.close(D.standard_deviation, s, 'mvn:sd', rtol=1e-9, **w)
            m.close([D.error_left, D.error_right], [s, s], 'mvn:errors', rtol=1e-9, **w)
            ns = float(rng.uniform(0.5, 4))
            m.close([D.get_error_left(ns), D.get_error_right(nsigma=ns)], [ns * s, ns * s], 'mvn:errors', rtol=1e-9, **w)
            sup = np.asarray(D.support)
            m.check(sup.shape == (2, d) and np.all(sup[0] < mu) and np.all(sup[1] > mu), 'mvn:support', **w)
            m.check(np.all(mu - sup[0] > 4.99 * s) and np.all(sup[1] - mu > 4.99 * s), 'mvn:support-width', **w)
            z = rng.normal(size=(8, d)) * rng.uniform(0.3, 3)
            x = mu + z * s
            want = ref_logpdf(x, mu, cov)
            cond = np.linalg.cond(R)
            tol = 1e-9 * cond + 1e-8
            # rounding of (x-mu)/s when |mu|>>s
            tol += 1e-13 * float(np.max(np.abs(mu) / s)) * 20 * cond
            m.close(D.logpdf(x), want, 'mvn:logpdf', rtol=tol, atol=tol, **w)
            m.close([float(D.logpdf(v)) for v in x], want, 'mvn:logpdf-single', rtol=tol, atol=tol, **w)
            m.close(float(D.logpdf(list(x[0]))), want[0], 'mvn:logpdf-list', rtol=tol, atol=tol, **w)
            m.close(float(D.delta_logpdf(x[1])), want[1] - ref_logpdf(mu, mu, cov)[0], 'mvn:delta', rtol=tol, atol=tol, **w)
            m.close(float(D.delta_logpdf(D.central_value)), 0., 'mvn:delta-central', atol=1e-9, **w)
            # marginals
            for ex in subsets(rng, d):
                keep = [i for i in range(d) if i not in ex]
                sub = cov[np.ix_(keep, keep)]
                exarg = [tuple(ex), list(ex), np.array(ex)][int(rng.integers(3))]
                pt = x[2][keep]
                arg = float(pt[0]) if len(keep) == 1 else pt
                got = float(np.asarray(D.logpdf(arg, exclude=exarg)).ravel()[0])
                m.close(got, ref_logpdf(pt, mu[keep], sub)[0], 'mvn:marginal', 'ignoring dimensions %s' % (ex,), rtol=tol, atol=tol, **w)
                g = D.delta_logpdf(arg, exclude=exarg)
                m.check(np.ndim(g) == 0, 'mvn:delta-marginal-shape', got=g, exclude=ex, **w)
                m.close(float(np.asarray(g).ravel()[0]), ref_logpdf(pt, mu[keep], sub)[0] - ref_logpdf(mu[keep], mu[keep], sub)[0],
                        'mvn:delta-marginal', rtol=tol, atol=tol, exclude=ex, **w)
                red = D.reduce_dimension(exclude=ex)
                if len(keep) == 1:
                    m.close([red.central_value, red.standard_deviation], [mu[keep[0]], s[keep[0]]], 'mvn:reduce', rtol=1e-9, **w)
                else:
                    m.close(np.asarray(red.central_value), mu[keep], 'mvn:reduce', rtol=1e-12, **w)
                    m.close(red.covariance / np.outer(s[keep], s[keep]), R[np.ix_(keep, keep)], 'mvn:reduce', rtol=1e-9, atol=1e-12, **w)
            m.check(D.reduce_dimension() is D or np.array_equal(D.reduce_dimension().covariance, D.covariance), 'mvn:reduce-none', **w)
            m.check(same_kw(kw, kw0), 'mvn:input-changed', before=kw0, after=kw, **w)
            m.event('normal', (form, d, float(s[0]), float(mu[0])))
            # draws
            N = 3000
            r0 = np.asarray(D.get_random())
            m.check(r0.shape == (d,), 'mvn:draw-shape', shape=r0.shape)
            X = np.asarray(m.call('mvn:draws', D.get_random, N))
            if m.check(X.shape == (N, d), 'mvn:draw-shape', shape=X.shape):
                m.check(np.asarray(D.get_random(1)).shape == (1, d), 'mvn:draw-shape')
                L = np.linalg.cholesky(R)
                Z = np.linalg.solve(L, ((X - mu) / s).T)
                q = (Z**2).sum(axis=0)
                if np.max(np.abs(mu) / s) < 1e6:
                    v = ks_stat(q, lambda t: st.chi2.cdf(t, d))
                    m.worst['ks'] = max(m.worst.get('ks', 0), v)
                    m.check(v < 3.4, 'mvn:draw-dist', 'squared distances not chi-square distributed', ks=v, **w)
                    for i in range(d):
                        v = ks_stat(Z[i], st.norm.cdf)
                        m.check(v < 3.4, 'mvn:draw-dist', 'whitened component not standard normal', ks=v, comp=i, **w)
            m.event('draws', ('n', d, float(s[0])))
            m.sample(dict(form=form, dim=d, logpdf=want[:2], sd=s))
        except CodeRaised:
            continue


def same_kw(a, b):
    return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) and type(a[k]) is type(b[k]) for k in b)


def subsets(rng, d):
    out = []
    for k in range(1, d):
        c = list(itertools.combinations(range(d), k))
        for i in rng.permutation(len(c))[:3]:
            out.append(list(c[i]))
    return out


def bad(m, rng, n):
    p = P()
    for _ in range(n):
        d = int(rng.integers(2, 5))
        s = np.exp(rng.uniform(-9, 9, d))
        i, j = rng.choice(d, 2, replace=False)
        R = np.eye(d)
        r = float(sgn(rng) * rng.uniform(1.01, 2))
        R[i, j] = R[j, i] = r
        M = p.MultivariateNormalDistribution
        m.raises(AssertionError, 'mvn:not-positive', M, np.zeros(d), covariance=R * np.outer(s, s))
        m.raises(AssertionError, 'mvn:not-positive', M, np.zeros(d), standard_deviation=s, correlation=R)
        m.raises(AssertionError, 'mvn:not-positive', M, np.zeros(d), standard_deviation=s, correlation=1.02)
        m.raises(ValueError, 'mvn:no-errors', M, np.zeros(d))
        m.raises(ValueError, 'mvn:no-errors', M, np.zeros(d), correlation=np.eye(d))
        x = np.array([0, 1, 2, 4.])
        m.raises(ValueError, 'table:uneven', p.MultivariateNumericalDistribution, [x, np.arange(3.)], np.ones((4, 3)))
        m.event('rejected', (d, r), n=6)


def maketable(rng, d):
    n = [int(rng.integers(6, 14 if d == 3 else 30)) for _ in range(d)]
    S = np.exp(rng.uniform(-10, 8, d))
    lo = S * rng.normal(size=d) * 3
    xi = [np.linspace(lo[i], lo[i] + S[i], n[i]) for i in range(d)]
    G = np.meshgrid(*[np.linspace(0, 1, k) for k in n], indexing='ij')
    c = rng.uniform(0.2, 0.8, d)
    y = np.exp(-sum(((g - a) / rng.uniform(0.15, 0.6))**2 for g, a in zip(G, c)))
    if rng.random() < 0.5:
        y = y + rng.uniform(0, 1) * np.exp(-sum(((g - a) / 0.15)**2 for g, a in zip(G, rng.uniform(0.1, 0.9, d))))
    if rng.random() < 0.3:
        y = rng.random(size=y.shape) + 0.05
    holes = rng.random() < 0.6
    if holes:
        k = int(rng.integers(3))
        if k == 0:
            y[rng.random(size=y.shape) < 0.3] = 0
        elif k == 1:
            y[G[0] + G[1] < 0.7] = 0
        else:
            y[G[0] > 0.6] = 0
    if rng.random() < 0.3:   # plateaus: many cells with equal value
        y = np.ceil(y / y.max() * 4) / 4
    if y.sum() == 0:
        y += 1
    return xi, y * logu(rng, 1e-6, 1e6), S


def ref_interp(xi, val, pt):
    """multilinear interpolation at one point."""
    idx, fr = [], []
    for x, t in zip(xi, pt):
        u = (t - x[0]) / (x[1] - x[0])
        i = int(min(max(math.floor(u), 0), len(x) - 2))
        idx.append(i)
        fr.append(u - i)
    tot = 0.
    for corner in itertools.product((0, 1), repeat=len(xi)):
        wt = np.prod([f if c else 1 - f for c, f in zip(corner, fr)])
        tot += wt * val[tuple(i + c for i, c in zip(idx, corner))]
    return tot


def table(m, rng, n):
    p = P()
    for _ in range(n):
        d = int(rng.choice([2, 2, 3]))
        xi, y, S = maketable(rng, d)
        cv = None
        if rng.random() < 0.4:
            cv = np.array([x[0] + (x[-1] - x[0]) * rng.uniform(0.2, 0.8) for x in xi])
        short = rng.random() < 0.3
        arg = [[x[0], x[-1]] if (short and rng.random() < 0.6) else x for x in xi]
        if rng.random() < 0.3:
            arg = [list(map(float, a)) for a in arg]
        y0 = y.copy()
        w = dict(d=d, shape=y.shape, cv=cv, S=S)
        try:
            D = m.call('table:construct', p.MultivariateNumericalDistribution, arg, y, central_value=cv)
        except CodeRaised:
            continue
        try:
            vol = np.prod([x[1] - x[0] for x in xi])
            yn = y0 / y0.sum() / vol
            want = np.array([x[i] for x, i in zip(xi, np.unravel_index(np.argmax(y0), y0.shape))]) if cv is None else cv
            m.close((np.asarray(D.central_value) - want) / S, np.zeros(d), 'table:central', atol=1e-9, **w)
            m.check(D.support is not None, 'table:support-missing', **w)
            sup = np.asarray(D.support)
            m.close((sup - np.array([[x[0] for x in xi], [x[-1] for x in xi]])) / S, np.zeros((2, d)), 'table:support', atol=1e-9, **w)
            # grid points
            for _j in range(12):
                ix = tuple(int(rng.integers(k)) for k in y.shape)
                pt = np.array([x[i] for x, i in zip(xi, ix)])
                # stay inside despite rounding at the boundary
                pt = np.clip(pt, [x[0] for x in xi], [x[-1] for x in xi])
                g = float(D.logpdf(pt))
                if yn[ix] > 0:
                    m.close(g, math.log(yn[ix]), 'table:grid', 'log density at a grid point', rtol=1e-7, atol=1e-6, **w) \
                        if not near_zero(yn, ix) else None
                else:
                    m.check(g < -1e10, 'table:zero', 'density at an empty grid point', got=g, **w)
            with np.errstate(all='ignore'):
                ly = np.where(yn > 0, np.log(np.maximum(yn, 1e-300)), -1e100)
            pts = np.array([[rng.uniform(x[0], x[-1]) for x in xi] for _j in range(12)])
            for pt in pts:
                ref = ref_interp(xi, ly, pt)
                g = float(D.logpdf(pt))
                if ref > -1e3:
                    m.close(g, ref, 'table:interpolation', rtol=1e-6, atol=1e-6, **w)
                else:
                    m.check(g < -1e3, 'table:zero-region', got=g, ref=ref, **w)
            m.close(D.logpdf(pts), [float(D.logpdf(q)) for q in pts], 'table:array', rtol=1e-12, **w)
            out = np.array([x[0] + 0.5 * (x[-1] - x[0]) for x in xi])
            for i in range(d):
                o = out.copy()
                o[i] = xi[i][-1] + S[i] * 0.01 if rng.random() < 0.5 else xi[i][0] - S[i] * 0.01
                m.check(float(D.logpdf(o)) == -np.inf, 'table:outside', **w)
            m.raises(NotImplementedError, 'table:errors', D.get_error_left)
            # profiles
            for ex in subsets(rng, d):
                keep = [i for i in range(d) if i not in ex]
                prof = yn.max(axis=tuple(ex))
                red = m.call('table:reduce', D.reduce_dimension, exclude=ex)
                if len(keep) == 1:
                    x = xi[keep[0]]
                    pn = prof / np.trapz(prof, x)
                    pt = float(rng.uniform(x[0], x[-1]))
                    ref = math.log(max(np.interp(pt, x, pn), 1e-300))
                    got = float(np.asarray(D.logpdf(pt, exclude=ex)).ravel()[0])
                else:
                    pn = prof / prof.sum() / np.prod([xi[i][1] - xi[i][0] for i in keep])
                    pt = np.array([rng.uniform(xi[i][0], xi[i][-1]) for i in keep])
                    with np.errstate(all='ignore'):
                        ref = ref_interp([xi[i] for i in keep], np.where(pn > 0, np.log(np.maximum(pn, 1e-300)), -1e100), pt)
                    got = float(D.logpdf(pt, exclude=ex))
                if ref > -600:
                    m.close(got, ref, 'table:profile', rtol=1e-6, atol=1e-6, exclude=ex, **w)
                m.close((np.asarray(red.central_value) - np.asarray(D.central_value)[keep]) / S[keep], np.zeros(len(keep)), 'table:profile-central', atol=1e-9, **w)
            m.check(np.array_equal(y, y0), 'table:input-changed')
            m.event('table', (d, y.shape, float(S[0])))
            # draws
            N = 2500 if d == 2 else 2000
            m.check(np.asarray(D.get_random()).shape == (d,), 'table:draw-shape')
            X = np.asarray(m.call('table:draws', D.get_random, N))
            if m.check(X.shape == (N, d), 'table:draw-shape', shape=X.shape):
                idx = np.stack([np.rint((X[:, i] - xi[i][0]) / (xi[i][1] - xi[i][0])).astype(int) for i in range(d)])
                ok = np.all((idx >= 0) & (idx < np.array(y.shape)[:, None]))
                if m.check(ok, 'table:draw-range', 'draw outside the table', **w):
                    pr = (y0 / y0.sum())
                    hit = pr[tuple(idx)]
                    m.check(np.mean(hit == 0) < 1e-9, 'table:draw-empty', 'draws in cells of zero probability: %d' % (hit == 0).sum(), **w)
                    # frequencies, cells grouped so that each group expects >= 25 draws
                    flat = pr.ravel()
                    cnt = np.bincount(np.ravel_multi_index(tuple(idx), y.shape), minlength=flat.size)
                    perm = rng.permutation(flat.size)
                    grp, acc, chi, ng, c0 = 0., 0., 0., 0, 0
                    for t in perm:
                        acc += flat[t] * N
                        c0 += cnt[t]
                        if acc >= 25:
                            chi += (c0 - acc)**2 / acc
                            ng += 1
                            acc, c0 = 0., 0
                    if ng > 2:
                        z = (chi - ng) / math.sqrt(2 * ng)
                        m.worst['chi2z'] = max(m.worst.get('chi2z', 0), z / 9)
                        m.check(z < 9, 'table:draw-frequency', 'draws do not follow the table: z=%.1f' % z, **w)
                    for i in range(d):
                        # each marginal, and uniformity inside the cells
                        fr = (X[:, i] - xi[i][0]) / (xi[i][1] - xi[i][0])
                        u = fr - np.rint(fr) + 0.5
                        v = ks_stat(u, lambda t: np.clip(t, 0, 1))
                        m.check(v < 3.4, 'table:draw-cell', 'draws not uniform inside cells', ks=v, **w)
                        for k in range(i):
                            f2 = (X[:, k] - xi[k][0]) / (xi[k][1] - xi[k][0])
                            u2 = f2 - np.rint(f2) + 0.5
                            co = 12 * np.mean((u - .5) * (u2 - .5)) * math.sqrt(N)
                            m.check(abs(co) < 7, 'table:draw-cell', 'coordinates inside a cell are not independent', correlation_z=co, **w)
                        mg = pr.sum(axis=tuple(k for k in range(d) if k != i))
                        ccum = np.cumsum(mg)
                        ec = np.cumsum(np.bincount(idx[i], minlength=len(mg))) / N
                        v = np.max(np.abs(ec - ccum)) * math.sqrt(N)
                        m.check(v < 3.4, 'table:draw-marginal', 'marginal of the draws', ks=v, **w)
            m.event('draws', ('t', d, float(S[0])))
        except CodeRaised:
            continue


def near_zero(yn, ix):
    """a neighbouring cell is empty: rounding in the position is amplified by log(0)."""
    sl = tuple(slice(max(i - 1, 0), i + 2) for i in ix)
    return bool((yn[sl] == 0).any())


def tabulated(m, rng, n):
    p = P()
    for _ in range(n):
        S = np.exp(rng.uniform(-8, 8, 2))
        mu = S * rng.normal(size=2)
        R = random_corr(rng, 2, 0.8)
        g = p.MultivariateNormalDistribution(mu, covariance=R * np.outer(S, S))
        t = m.call('from_pd', p.MultivariateNumericalDistribution.from_pd, g, nsteps=120)
        x = mu + S * rng.normal(size=(10, 2))
        m.close(t.logpdf(x), ref_logpdf(x, mu, R * np.outer(S, S)), 'from_pd:density', rtol=0, atol=0.03, mu=mu, S=S)
        m.close(np.asarray(t.central_value), mu, 'from_pd:central', rtol=1e-12)
        m.check(p.MultivariateNumericalDistribution.from_pd(t) is t, 'from_pd:idempotent')
        m.event('table', ('from_pd', float(S[0])))


def jobs(tier, seed):
    k, c = (1, 4) if tier == 'quick' else (40, 24)
    out = split_jobs('normal', normal, 120 * k, c)
    out += split_jobs('bad', bad, 10 * k, 1)
    out += split_jobs('table', table, 60 * k, c)
    out += split_jobs('tabulated', tabulated, 8 * k, 1)
    return out
