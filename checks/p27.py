"""P27: data prepared and drawn by the plot functions."""
import copy
import math
import warnings
import numpy as np
from scipy import stats
from lib.util import split_jobs

RULE = ('random functions, ranges, numbers of steps, levels and styles; the drawn artists (lines, collections, error bars, patches) against the functions and numbers given; distinct by all arguments')
ASSUMPTIONS = ['the drawing library draws what its artists contain', 'uncertainties by 400 random draws are known to 20 %', 'contours of a density of points are smoothed by a kernel: 3 % in the contained fraction']
MIN = {'likelihood contour data': 80, 'contour': 60, 'density': 16, 'lines': 80, 'pdf': 60, 'theory': 30, 'binned theory': 12, 'binned experiment': 30, 'experiment': 30, 'pie': 20, 'band': 20}
PC = [0., 0., 1., 1., 0., 0]


def loglike(xy):
    x, y = (xy[0] - PC[0]) / PC[2], (xy[1] - PC[1]) / PC[3]
    r = PC[4]
    return -.5 * (x * x - 2 * r * x * y + y * y) / (1 - r * r)


def loglike_int(xy):
    """Integer for some of the points."""
    v = loglike(xy)
    return 0 if v > -1 else v


class Frozen:
    """Deep comparison of all inputs before and after a call."""

    def __init__(self, m, what, **objs):
        self.m, self.what, self.objs = m, what, objs

    def __enter__(self):
        self.before = copy.deepcopy(self.objs)

    def __exit__(self, t, *a):
        if t is None:
            for k, v in self.objs.items():
                b = self.before[k]
                same = same_(b, v)
                self.m.check(same, 'input:' + self.what, 'plotting modified its input', argument=k, before=repr(b)[:200], after=repr(v)[:200])


def same_(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_(p, q) for p, q in zip(a, b))
    return a == b or a is b


def fresh():
    import matplotlib.pyplot as plt
    plt.rcParams['text.usetex'] = False
    plt.close('all')
    return plt.figure().gca()


def near(m, got, exp, sig, msg, tol=1e-9, **w):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    if not m.check(got.shape == exp.shape, sig, msg + ': other number of points', got=got.shape, expected=exp.shape, **w):
        return False
    sc = np.abs(exp[np.isfinite(exp)]).max() if np.isfinite(exp).any() else 1.
    bad = ~(np.abs(got - exp) <= tol * (np.abs(exp) + .01 * sc) + 1e-300) & ~(got == exp)
    i = int(np.argmax(bad.ravel()))
    return m.check(not bad.any(), sig, msg, worst=[float(got.ravel()[i]), float(exp.ravel()[i])] if bad.any() else None, **w)


def rnd_range(rng):
    lo = float(rng.normal() * 10 ** rng.uniform(-2, 2))
    if rng.random() < .2:
        lo = 0.
    return lo, lo + float(10 ** rng.uniform(-2, 2))


def setpc(rng, x0, x1, y0, y1):
    PC[:] = [float(rng.uniform(x0, x1)), float(rng.uniform(y0, y1)), float((x1 - x0) * rng.uniform(.1, .6)), float((y1 - y0) * rng.uniform(.1, .6)), float(rng.uniform(-.9, .9)), 0]


def likelihood_data(m, rng, n, seed):
    from flavio.plots import plotfunctions as pf
    warnings.simplefilter('ignore')
    for k in range(n):
        (x0, x1), (y0, y1) = rnd_range(rng), rnd_range(rng)
        xs, ys = [str(v) for v in rng.choice(['linear', 'log'], 2)]
        if xs == 'log':
            x0, x1 = abs(x0) + 1e-3, abs(x0) + 1e-3 + (x1 - x0)
        if ys == 'log':
            y0, y1 = abs(y0) + 1e-3, abs(y0) + 1e-3 + (y1 - y0)
        setpc(rng, x0, x1, y0, y1)
        steps = int(rng.integers(2, 24))
        ns = [1, 2., (1, 2), (1, 2, 3), (.5, 1.7)][int(rng.integers(5))]
        f = [loglike, loglike_int][int(rng.integers(2))]
        par = k % 6 == 0
        kw = dict(xscale=xs, yscale=ys, n_sigma=ns, steps=steps)
        if rng.random() < .3 and xs == ys == 'linear':
            kw = dict(n_sigma=ns, steps=steps)
        calls = []

        def g(p):
            calls.append((float(p[0]), float(p[1])))
            return f(p)
        w = dict(args=[x0, x1, y0, y1], function=f.__name__, **kw)
        d = m.call('data', pf.likelihood_contour_data, g, x0, x1, y0, y1, **kw)
        xg = np.linspace(x0, x1, steps) if xs == 'linear' else np.exp(np.linspace(math.log(x0), math.log(x1), steps))
        yg = np.linspace(y0, y1, steps) if ys == 'linear' else np.exp(np.linspace(math.log(y0), math.log(y1), steps))
        X = np.tile(xg, (steps, 1))
        Y = np.tile(yg, (steps, 1)).T
        near(m, d['x'], X, 'data:grid', 'x grid', **w)
        near(m, d['y'], Y, 'data:grid', 'y grid', **w)
        Z = np.array([[-2 * f((a, b)) for a in d['x'][0]] for b in d['y'][:, 0]], float)
        near(m, d['z'], Z, 'data:z', 'not -2 times the log-likelihood', tol=1e-12, **w)
        pts = {(float(a), float(b)) for a in d['x'][0] for b in d['y'][:, 0]}
        m.check(set(calls) == pts, 'data:calls', 'evaluated at other points', got=len(set(calls)), expected=len(pts))
        L = [stats.chi2(2).ppf(stats.chi2(1).cdf(s * s)) for s in (ns if isinstance(ns, tuple) else [ns])]
        near(m, d['levels'], L, 'data:levels', 'levels', tol=1e-7, **w)
        m.event('likelihood contour data', (x0, y0, steps, ns, xs, ys))
        if par:
            p = m.call('data', pf.likelihood_contour_data, f, x0, x1, y0, y1, threads=int(rng.integers(2, 4)), **kw)
            for q in d:
                near(m, p[q], d[q], 'data:parallel', 'parallel evaluation differs', tol=0, key=q, **w)
            if k % 12 == 0:
                from multiprocessing import Pool
                p = m.call('data', pf.likelihood_contour_data, f, x0, x1, y0, y1, pool=Pool(2), **dict(kw, **({'threads': 2} if rng.random() < .5 else {})))
                for q in d:
                    near(m, p[q], d[q], 'data:parallel', 'evaluation with a pool differs', tol=0, key=q, **w)
            m.event('likelihood contour data', (x0, 'parallel'))
        for bad in (dict(xscale='log', x=(-1., 1.)), dict(yscale='log', y=(0., 1.)), dict(xscale='lin')):
            bx, by = bad.pop('x', (.1, 1.)), bad.pop('y', (.1, 1.))
            m.raises(ValueError, 'data:refused', pf.likelihood_contour_data, f, *bx, *by, steps=2, **bad)


def segs(cs):
    """Contour lines per level."""
    return [[np.asarray(s) for s in lv if len(s)] for lv in cs.allsegs]


def contours(m, rng, n, seed):
    import matplotlib
    from matplotlib.colors import to_rgba
    from flavio.plots import plotfunctions as pf
    warnings.simplefilter('ignore')
    for k in range(n):
        ax = fresh()
        (x0, x1), (y0, y1) = rnd_range(rng), rnd_range(rng)
        setpc(rng, x0, x1, y0, y1)
        steps = int(rng.integers(12, 45))
        ns = [1, (1, 2), (1, 2, 3), (.5, 1.7)][int(rng.integers(4))]
        fac = int(rng.choice([1, 1, 3, 5]))
        off = float(rng.choice([0., 0., -7.5, 113.]))
        mode = ['function', 'data', 'band'][k % 3]

        def f(p):
            return loglike(p) + off
        zmin = -2 * off
        kw = dict(filled=bool(rng.random() < .6))
        if fac > 1:
            kw['interpolation_factor'] = fac
        r = rng.random()
        if r < .4:
            kw['col'] = int(rng.integers(0, 10))
        elif r < .7:
            kw['color'] = str(rng.choice(['k', 'C3', '#FF8800', 'red']))
        if rng.random() < .3:
            kw['label'] = 'verif27 %d' % k
        known = rng.random() < .7
        if known:
            kw['z_min'] = zmin - 1e-12
        cargs = {'linewidths': 1.7} if rng.random() < .4 else {}
        cfargs = {'alpha': .3} if rng.random() < .4 else {}
        if rng.random() < .5:
            kw['contour_args'], kw['contourf_args'] = cargs, cfargs
        else:
            cargs, cfargs = {}, {}
        w = dict(args=[x0, x1, y0, y1], steps=steps, pars=list(PC), n_sigma=ns, mode=mode, kw={a: b for a, b in kw.items() if a != 'pool'})
        ref = pf.likelihood_contour_data(f, x0, x1, y0, y1, steps=steps, n_sigma=ns)
        with Frozen(m, 'contour', ca=cargs, cf=cfargs, ns=ns, x=ref['x'], y=ref['y'], z=ref['z'], levels=ref['levels']):
            if mode == 'function':
                cs = m.call('contour', pf.likelihood_contour, f, x0, x1, y0, y1, n_sigma=ns, steps=steps, **kw)
            elif mode == 'data':
                cs = m.call('contour', pf.contour, **dict(ref, **kw))
            else:
                if rng.random() < .5:
                    out = m.call('contour', pf.band_plot, f, x0, x1, y0, y1, n_sigma=ns, steps=steps, **kw)
                else:
                    out = m.call('contour', pf.band_plot, f, x0, x1, y0, y1, n_sigma=ns, pre_calculated_z=ref['z'], **kw)
                near(m, out[2], ref['z'], 'band', 'returned values', **w)
                near(m, out[0], ref['x'], 'band', 'returned grid', **w)
                near(m, out[1], ref['y'], 'band', 'returned grid', **w)
                m.event('band', (x0, k))
                sets = [c for c in ax.collections if type(c).__name__ == 'QuadContourSet' and not c.filled]
                cs = sets[-1] if sets else None
        if not m.check(cs is not None and type(cs).__name__ == 'QuadContourSet', 'contour', 'no contour lines', **w):
            continue
        L = ref['levels']
        if mode == 'band' and k % 2:
            # a grid that is not square
            ny, nx = int(rng.integers(5, 30)), int(rng.integers(5, 30))
            X, Y = np.meshgrid(np.linspace(x0, x1, nx), np.linspace(y0, y1, ny))
            Zr = np.array([[-2 * f((u, v)) for u, v in zip(*r)] for r in zip(X, Y)])
            import matplotlib.pyplot as plt
            plt.figure()
            out = m.call('band:rectangular', pf.band_plot, None, x0, x1, y0, y1, n_sigma=ns, pre_calculated_z=Zr, z_min=float(Zr.min()), filled=False)
            near(m, out[0], X, 'band:rectangular', 'grid', **w)
            near(m, out[1], Y, 'band:rectangular', 'grid', **w)
            near(m, out[2], Zr, 'band:rectangular', 'values', **w)
            plt.figure(1)
        near(m, cs.levels, L, 'contour:levels', 'levels of the contour lines', tol=1e-9, **w)
        base = zmin if known else float(ref['z'].min())
        hx, hy = (x1 - x0) / (steps - 1) / PC[2], (y1 - y0) / (steps - 1) / PC[3]
        tol = max(hx, hy)**2 / 8 * 2 / (1 - PC[4]**2) * 1.01 + 1e-6
        if fac > 1:
            tol *= 4
        npts = 0
        for lev, ss in zip(L, segs(cs)):
            for s in ss:
                v = np.array([-2 * f(p) for p in s]) - base
                npts += len(v)
                # the border of the grid is affected by the interpolation
                d = v - lev
                if fac > 1:
                    gx, gy = (x1 - x0) / (steps - 1), (y1 - y0) / (steps - 1)
                    ins = (s[:, 0] > x0 + 3 * gx) & (s[:, 0] < x1 - 3 * gx) & (s[:, 1] > y0 + 3 * gy) & (s[:, 1] < y1 - 3 * gy)
                    d = d[ins]
                if len(d):
                    i = int(np.argmax(abs(d)))
                    m.check(abs(d[i]) <= tol, 'contour:line', 'contour line is not where the function takes the value of the level', level=lev, difference=float(d[i]), tolerance=tol, **w)
        if fac == 1:
            inside = (ref['z'] - base < min(L))
            crossing = inside.any() and (~inside).any()
            m.check(bool(segs(cs)[0]) == bool(crossing), 'contour:line', 'missing contour line', **w)
        # style
        col = kw.get('color') or ('C%d' % kw['col'] if 'col' in kw else 'C0')
        ec = [to_rgba(c) for c in cs.get_edgecolor()]
        m.check(all(np.allclose(c[:3], to_rgba(col)[:3]) for c in ec), 'contour:style', 'colour of the lines', got=ec[:1], expected=col, **w)
        if cargs:
            m.check(np.allclose(cs.get_linewidths(), 1.7), 'contour:style', 'line width', **w)
        filled = [c for c in ax.collections if type(c).__name__ == 'QuadContourSet' and c.filled]
        m.check(len(filled) == (1 if kw['filled'] else 0), 'contour:filled', 'filling', got=len(filled), **w)
        if filled:
            lv = list(filled[0].levels)
            m.check(np.allclose(lv[1:], L) and lv[0] <= ref['z'].min() - base + 1e-9 * max(1., abs(off)) + (.05 if fac > 1 else 0), 'contour:filled', 'levels of the filling', got=lv, **w)
            al = [to_rgba(c)[3] for c in filled[0].get_facecolor()]
            if not cfargs:
                m.check(all(p >= q for p, q in zip(al, al[1:])), 'contour:filled', 'opacity does not decrease', got=al, **w)
        if 'label' in kw:
            h, lb = ax.get_legend_handles_labels()
            m.check(lb.count(kw['label']) == 1, 'contour:label', 'label', got=lb, **w)
        m.event('contour', (x0, y0, steps, ns, fac, npts))
        if known and rng.random() < .2:
            d = dict(ref, z_min=float(ref['z'].min()) + 1e-3)
            m.raises(ValueError, 'contour:minimum', pf.contour, **d)


def density(m, rng, n, seed):
    import matplotlib.pyplot as plt
    from flavio.plots import plotfunctions as pf
    warnings.simplefilter('ignore')
    for k in range(n):
        ax = fresh()
        N = int(rng.integers(2000, 9000))
        sx, sy, r = float(10 ** rng.uniform(-10, 3)), float(10 ** rng.uniform(-6, 3)), float(rng.uniform(-.85, .85))
        mu = np.array([rng.normal() * 3 * sx, rng.normal() * 3 * sy])
        cov = np.array([[sx * sx, r * sx * sy], [r * sx * sy, sy * sy]])
        X = np.random.default_rng(int(rng.integers(2**31))).multivariate_normal(mu, cov, size=N)
        two = rng.random() < .3
        if two:
            X[:N // 3] += np.array([5 * sx, -6 * sy])
        x, y = X[:, 0].copy(), X[:, 1].copy()
        ns = [1, (1, 2), (2, 1), (1., 2.5)][int(rng.integers(4))]
        cf = None if rng.random() < .5 else float(rng.uniform(.1, .4))
        nb = None if rng.random() < .5 else int(rng.integers(60, 160))
        w = dict(N=N, s=[sx, sy], r=r, two=two, n_sigma=ns, covariance_factor=cf, n_bins=nb)
        with Frozen(m, 'density', x=x, y=y):
            d = m.call('density', pf.density_contour_data, x, y, covariance_factor=cf, n_bins=nb, n_sigma=ns)
        L = np.asarray(d['levels'], float)
        NS = sorted(ns if isinstance(ns, tuple) else [ns])
        if not m.check(len(L) == len(NS) and np.all(np.diff(L) > 0) and np.all(L > 0), 'density:levels', 'levels', got=L.tolist(), **w):
            continue
        z = np.asarray(d['z'])
        m.check(abs(z.min()) < 1e-9, 'density:minimum', 'the mode is not at zero', **w)
        p = np.exp(-z / 2)
        p /= p.sum()
        for lv, s in zip(L, NS):
            cl = stats.chi2(1).cdf(s * s)
            m.check(abs(p[z < lv].sum() - cl) < 2 * p.max() + 1e-6, 'density:content', 'contour does not contain the stated probability', level=s, contained=float(p[z < lv].sum()), expected=cl, **w)
            # the points themselves
            from scipy.interpolate import RegularGridInterpolator
            it = RegularGridInterpolator((d['y'][:, 0], d['x'][0]), z, bounds_error=False, fill_value=1e9)
            fr = float((it(np.column_stack([y, x])) < lv).mean())
            c = N ** (-1 / 6.) if cf is None else cf
            if not two:
                e = 1 - (1 - cl) ** (1 + c * c)
                m.check(abs(fr - e) < .03 + 2. / math.sqrt(N), 'density:points', 'fraction of the points in the contour', level=s, fraction=fr, expected=e, **w)
        # moments
        c = N ** (-1 / 6.) if cf is None else cf
        em, ec = X.mean(axis=0), np.cov(X.T) * (1 + c * c)
        gm = np.array([(p * d['x']).sum(), (p * d['y']).sum()])
        hx, hy = d['x'][0, 1] - d['x'][0, 0], d['y'][1, 0] - d['y'][0, 0]
        sd = np.sqrt(np.diag(ec))
        m.check(abs(gm[0] - em[0]) < hx + .02 * sd[0] and abs(gm[1] - em[1]) < hy + .02 * sd[1], 'density:mean', 'mean of the density', observed=gm.tolist(), expected=em.tolist(), bins=[hx, hy], **w)
        dx, dy = d['x'] - gm[0], d['y'] - gm[1]
        gc = np.array([[(p * dx * dx).sum(), (p * dx * dy).sum()], [0, (p * dy * dy).sum()]])
        for (i, j) in ((0, 0), (0, 1), (1, 1)):
            m.check(abs(gc[i, j] - ec[i, j]) < .08 * sd[i] * sd[j], 'density:covariance', 'covariance of the density', element=[i, j], observed=float(gc[i, j] / sd[i] / sd[j]), expected=float(ec[i, j] / sd[i] / sd[j]), **w)
        m.event('density', (N, sx, ns, cf, nb))
        # drawn
        if k % 3 == 0:
            cs = m.call('density', pf.density_contour, x, y, covariance_factor=cf, n_bins=nb, n_sigma=ns)
            near(m, cs.levels, L, 'density:levels', 'levels drawn', **w)
        elif k % 3 == 1:
            ha = {'plotargs': {'linewidth': 1.}}
            with Frozen(m, 'density', hist_args=ha, x=x, y=y):
                axes = m.call('joint', pf.density_contour_joint, x, y, col=1, hist_args=ha, covariance_factor=cf, n_bins=nb, n_sigma=ns)
            m.check(plt.gca() is axes['ax_2d'], 'joint', 'the two-dimensional plot is not active')
            sets = [c for c in axes['ax_2d'].collections if type(c).__name__ == 'QuadContourSet' and not c.filled]
            m.check(len(sets) == 1 and np.allclose(sets[0].levels, L), 'joint', 'contours in the two-dimensional plot', got=len(sets), **w)
            import flavio
            for a, dat, fl in ((axes['ax_x'], x, False), (axes['ax_y'], y, True)):
                if not m.check(len(a.lines) == 1, 'joint', 'marginal', got=len(a.lines)):
                    continue
                u, v = a.lines[0].get_data() if not fl else a.lines[0].get_data()[::-1]
                kde = stats.gaussian_kde(dat)
                m.check(np.max(abs(v - kde(u))) < .05 * kde(u).max(), 'joint:marginal', 'marginal is not the density of the points', flipped=fl, **w)
            # a second distribution in the same axes
            if rng.random() < .7:
                plt.figure()
                plt.gca()
                x2, y2 = x * 1.5, y + sy
                plt.figure(axes['ax_2d'].figure.number)
                plt.sca(axes[str(rng.choice(['ax_2d', 'ax_x', 'ax_y']))])
                m.call('joint', pf.density_contour_joint, x2, y2, col=2, **axes)
                sets = [c for c in axes['ax_2d'].collections if type(c).__name__ == 'QuadContourSet' and not c.filled]
                m.check(len(sets) == 2 and len(axes['ax_x'].lines) == 2 and len(axes['ax_y'].lines) == 2, 'joint:second', 'second distribution is not drawn into the axes given', got=[len(sets), len(axes['ax_x'].lines), len(axes['ax_y'].lines)])


def poly(c):
    return np.concatenate([p.vertices for p in c.get_paths()]) if c.get_paths() else np.zeros((0, 2))


def lines(m, rng, n, seed):
    import flavio
    from flavio.plots import plotfunctions as pf
    from flavio.statistics import probability as pr
    from matplotlib.colors import to_rgba
    warnings.simplefilter('ignore')
    for k in range(n):
        # likelihood_plot, pvalue_plot
        ax = fresh()
        x0, x1 = rnd_range(rng)
        x = np.linspace(x0, x1, int(rng.integers(5, 300)))
        c, s = float(rng.uniform(x0, x1)), (x1 - x0) * float(rng.uniform(.05, .5))
        y = np.exp(-.5 * ((x - c) / s)**2)
        fill = None if rng.random() < .3 else sorted(float(v) for v in rng.uniform(x0 - .2 * (x1 - x0), x1 + .2 * (x1 - x0), 2))
        pa, fa = ({'linewidth': 2.5}, {'alpha': .2}) if rng.random() < .5 else ({}, {})
        kw = {}
        if rng.random() < .5:
            kw['col'] = int(rng.integers(0, 10))
        elif rng.random() < .5:
            kw['color'] = 'g'
        if rng.random() < .5:
            kw['label'] = 'verif27'
        col = kw.get('color') or ('C%d' % kw['col'] if 'col' in kw else 'C0')
        w = dict(range=[x0, x1], points=len(x), fill=fill, kw=dict(kw))
        pv = k % 2
        if pv:
            fy = None if rng.random() < .3 else float(rng.uniform(.05, .9))
            with Frozen(m, 'pvalue', x=x, y=y, pa=pa, fa=fa):
                m.call('pvalue', pf.pvalue_plot, x, y, fill_y=fy, plotargs=pa, fillargs=fa, **kw)
            m.check(tuple(ax.get_ylim()) == (0, 1), 'pvalue', 'y axis', got=ax.get_ylim())
            has = fy is not None
            fl = False
        else:
            fl = bool(rng.random() < .4)
            with Frozen(m, 'likelihood_plot', x=x, y=y, pa=pa, fa=fa, fill=fill):
                m.call('likelihood_plot', pf.likelihood_plot, x, y, fill_x=fill, plotargs=pa, fillargs=fa, flipped=fl, **kw)
            has = fill is not None
        if not m.check(len(ax.lines) == 1, 'curve', 'number of curves', got=len(ax.lines), **w):
            continue
        u, v = ax.lines[0].get_data() if not fl else ax.lines[0].get_data()[::-1]
        near(m, u, x, 'curve', 'x values', **w)
        near(m, v, y, 'curve', 'y values', **w)
        m.check(np.allclose(to_rgba(ax.lines[0].get_color()), to_rgba(col)), 'curve:style', 'colour', got=ax.lines[0].get_color(), expected=col, **w)
        if pa:
            m.check(ax.lines[0].get_linewidth() == 2.5, 'curve:style', 'line width', **w)
        if 'label' in kw:
            m.check(ax.get_legend_handles_labels()[1] == ['verif27'], 'curve:style', 'label', **w)
        m.check(len(ax.collections) == (1 if has else 0), 'curve:fill', 'filled areas', got=len(ax.collections), **w)
        if has and len(ax.collections) == 1:
            P = poly(ax.collections[0])
            if fl:
                P = P[:, ::-1]
            h = x[1] - x[0]
            if pv:
                xz = np.linspace(x0, x1, 4001)
                yz = np.interp(xz, x, y)
                on = xz[yz > fy]
            else:
                on = x[(x > fill[0]) & (x < fill[1])]
            if len(on) >= 2 and on[-1] - on[0] > 1.01 * h * (1 if not pv else 1):
                m.check(len(P) > 0 and abs(P[:, 0].min() - on[0]) <= .35 * h + 1e-9 * abs(x0) and abs(P[:, 0].max() - on[-1]) <= .35 * h + 1e-9 * abs(x0), 'curve:fill', 'limits of the filled area', got=[float(P[:, 0].min()), float(P[:, 0].max())] if len(P) else None, expected=[float(on[0]), float(on[-1])], step=h, **w)
                if len(P):
                    e = np.interp(P[:, 0], x, y)
                    m.check(np.all((abs(P[:, 1] - e) <= .02) | (P[:, 1] == 0)), 'curve:fill', 'filled area is not below the curve', **w)
            elif len(on) == 0:
                m.check(len(P) == 0, 'curve:fill', 'area filled where it should not', **w)
        m.event('lines', (x0, x1, k, pv))
    for k in range(n):
        # pdf_plot
        ax = fresh()
        c, s, t = float(rng.choice([0., rng.normal() * 3])), float(10 ** rng.uniform(-2, 1)), float(rng.uniform(.3, 3))
        kind = k % 8
        data = None
        if kind == 0:
            d = pr.NormalDistribution(c, s)
        elif kind == 1:
            d = pr.AsymmetricNormalDistribution(c, s, s * t)
        elif kind == 2:
            d = pr.UniformDistribution(c, s)
        elif kind == 3:
            d = pr.HalfNormalDistribution(c, s)
        elif kind == 4:
            d = pr.GaussianUpperLimit(s, .95)
        elif kind == 5:
            d = pr.GammaDistributionPositive(a=2.5 + t, loc=-.1, scale=s)
        elif kind == 6:
            g = np.linspace(c - 5 * s, c + 5 * s, 401)
            d = pr.NumericalDistribution(g, stats.norm(c, s).pdf(g))
        else:
            data = np.random.default_rng(int(rng.integers(2**31))).normal(c, s, 400)
            d = None
        kw = {}
        if rng.random() < .3:
            kw['steps'] = int(rng.integers(50, 700))
        if rng.random() < .3:
            kw['normed'] = str(rng.choice(['max'])) if rng.random() < .7 else True
        if rng.random() < .4:
            kw['fill'] = False
        bw = None
        if d is None:
            if rng.random() < .5:
                bw = float(s * rng.uniform(.05, .6))
            d = pr.GaussianKDE(data, bandwidth=bw)
        lo, hi = d.support
        xl, xh = lo, hi
        r = rng.random()
        if r < .25:
            xl = kw['x_min'] = float(c - s)
        if r < .4 and rng.random() < .5:
            xh = kw['x_max'] = float(c + 2 * s)
        if rng.random() < .15 and lo < 0 < hi:
            kw.pop('x_max', 0)
            xl, xh = 0., hi
            kw['x_min'] = 0
        elif rng.random() < .15 and lo < 0 < hi:
            kw.pop('x_min', 0)
            xl, xh = lo, 0.
            kw['x_max'] = 0.
        if xh <= xl or (kind == 6 and (xl < lo or xh > hi)):
            continue
        w = dict(distribution=type(d).__name__, c=c, s=s, t=t, kw=dict(kw), bandwidth=bw)
        if data is not None:
            with Frozen(m, 'smooth_histogram', data=data):
                m.call('pdf', pf.smooth_histogram, data, bandwidth=bw, **kw)
        else:
            m.call('pdf', pf.pdf_plot, d, **kw)
        if not m.check(len(ax.lines) == 1, 'pdf', 'number of curves', got=len(ax.lines), **w):
            continue
        u, v = ax.lines[0].get_data()
        xs = np.linspace(xl, xh, kw.get('steps', 500))
        near(m, u, xs, 'pdf:range', 'x values', **w)
        e = np.exp(np.array([float(np.ravel(d.logpdf(q))[0]) for q in u]))
        if data is not None:
            B = bw if bw is not None else None
            if B is not None:
                e2 = np.array([np.mean(stats.norm(data, B).pdf(q)) for q in u])
                m.check(np.max(abs(e2 - e)) <= .05 * max(e2.max(), .1 / s), 'pdf:kde', 'density of the histogram', **w)
        if kw.get('normed') == 'max':
            e = e / e.max()
        edge = np.zeros(len(u), bool)
        edge[[0, -1]] = True
        near(m, v[~edge], e[~edge], 'pdf:curve', 'not the probability density', tol=1e-5, **w)
        m.check(len(ax.collections) == (0 if kw.get('fill') is False else 1), 'pdf:fill', 'filled area', **w)
        if ax.collections:
            P = poly(ax.collections[0])
            a, b = d.central_value - d.get_error_left(method='hpd'), d.central_value + d.get_error_right(method='hpd')
            h = xs[1] - xs[0]
            on = xs[(xs > a) & (xs < b)]
            if len(on) > 3:
                m.check(abs(P[:, 0].min() - max(a, xl)) <= 1.3 * h and abs(P[:, 0].max() - min(b, xh)) <= 1.3 * h, 'pdf:fill', 'filled area is not the highest-density interval', got=[float(P[:, 0].min()), float(P[:, 0].max())], expected=[a, b], **w)
        m.event('pdf', (kind, c, s, k))


def setup():
    import flavio
    if 'verif27 d' not in flavio.Observable.instances:
        flavio.Parameter('verif27 par')
        flavio.default_parameters.add_constraint(['verif27 par'], flavio.statistics.probability.NormalDistribution(0., 1.))
        o = flavio.Observable('verif27 d', arguments=['q2'])
        flavio.classes.Prediction('verif27 d', lambda wc_obj, par, q2: fd(q2, wc_obj) + gd(q2) * par['verif27 par'])
        o = flavio.Observable('verif27 b', arguments=['q2min', 'q2max'])
        flavio.classes.Prediction('verif27 b', lambda wc_obj, par, q2min, q2max: fb(q2min, q2max, wc_obj) + gb(q2min, q2max) * par['verif27 par'])
        flavio.Observable('verif27 0')
        flavio.classes.Prediction('verif27 0', lambda wc_obj, par: 1.)


def tag(wc):
    return getattr(wc, 'verif27', 0.)


def fd(q2, wc):
    return math.sin(q2) + .3 * q2 + tag(wc)


def gd(q2):
    return .2 + .05 * q2 + .01 * q2 * q2


def fb(a, b, wc):
    return (b - a) * (2 + math.cos(a + b)) + tag(wc)


def gb(a, b):
    return .1 * (b - a) * (1 + .1 * a * a)


def theory(m, rng, n, seed):
    import flavio
    from flavio.plots import plotfunctions as pf
    from matplotlib.colors import to_rgba
    warnings.simplefilter('ignore')
    setup()
    for k in range(n):
        ax = fresh()
        wc = None
        if rng.random() < .5:
            wc = flavio.WilsonCoefficients()
            wc.verif27 = float(rng.normal())
        sf = float(rng.choice([1., 1., 1e3, .25]))
        kind = k % 3
        x0, x1 = float(rng.uniform(0, 4)), float(rng.uniform(5, 9))
        if rng.random() < .3:
            x0, x1 = round(x0, 1), round(x1, 1)
        np.random.seed(int(rng.integers(2**31)))
        if kind == 0:
            steps = int(rng.integers(3, 130))
            kw = dict(steps=steps)
            if rng.random() < .2:
                kw = {}
                steps = 100
            if sf != 1:
                kw['scale_factor'] = sf
            if rng.random() < .5:
                kw['c'] = 'r'
            w = dict(range=[x0, x1], kw=dict(kw), wc=wc is not None)
            m.call('theory', pf.diff_plot_th, 'verif27 d', x0, x1, wc=wc, **kw)
            if m.check(len(ax.lines) == 1, 'theory', 'number of curves', got=len(ax.lines), **w):
                u, v = ax.lines[0].get_data()
                near(m, u, np.linspace(x0, x1, steps), 'theory:x', 'x values', **w)
                near(m, v, [sf * fd(q, wc) for q in u], 'theory:y', 'not the prediction', **w)
                m.check(to_rgba(ax.lines[0].get_color()) == to_rgba(kw.get('c', 'k')), 'theory:style', 'colour', **w)
            m.event('theory', (x0, x1, steps, sf))
        elif kind == 1:
            steps, se = int(rng.integers(5, 60)), int(rng.integers(3, 8))
            pa = {'c': 'b'} if rng.random() < .5 else {}
            fa = {'facecolor': 'g'} if rng.random() < .5 else {}
            if rng.random() < .3:
                fa['alpha'] = .25
            kw = {}
            if rng.random() < .5:
                kw['label'] = 'verif27 label'
            w = dict(range=[x0, x1], steps=steps, steps_err=se, wc=wc is not None, sf=sf)
            with Frozen(m, 'diff_plot_th_err', plot_args=pa, fill_args=fa):
                m.call('theory_err', pf.diff_plot_th_err, 'verif27 d', x0, x1, wc=wc, steps=steps, steps_err=se, N=400, plot_args=pa, fill_args=fa, scale_factor=sf, threads=2 if k % 4 == 1 else 1, **kw)
            if m.check(len(ax.lines) == 1 and len(ax.collections) == 1, 'theory_err', 'artists', **w):
                u, v = ax.lines[0].get_data()
                near(m, u, np.linspace(x0, x1, steps), 'theory_err:x', 'x values', tol=1e-9, **w)
                near(m, v, [sf * fd(q, wc) for q in u], 'theory_err:y', 'not the prediction', **w)
                P = poly(ax.collections[0])
                up = np.array([P[abs(P[:, 0] - q) <= 1e-9 * abs(q) + 1e-12, 1].max() for q in u])
                dn = np.array([P[abs(P[:, 0] - q) <= 1e-9 * abs(q) + 1e-12, 1].min() for q in u])
                if not m.check(np.allclose((up + dn) / 2, v, rtol=1e-9, atol=1e-12 * sf), 'theory_err:band', 'band is not centred', **w):
                    continue
                g = np.array([sf * gd(q) for q in u])
                m.check(np.all(abs((up - dn) / 2 - g) < .2 * g + .02 * sf), 'theory_err:band', 'width of the band is not the uncertainty', worst=float(np.max(abs((up - dn) / 2 / g - 1))), **w)
                m.check(ax.collections[0].get_alpha() == fa.get('alpha', .5), 'theory_err:style', 'opacity', **w)
                lb = ax.get_legend_handles_labels()[1]
                m.check(lb == ([kw['label']] if kw else []), 'theory_err:style', 'label', got=lb, **w)
            m.event('theory', (x0, x1, steps, se, sf))
        else:
            nb = int(rng.integers(1, 6))
            edges = np.sort(rng.uniform(0, 9, nb + 1))
            bins = [(float(a), float(b)) for a, b in zip(edges, edges[1:])]
            if rng.random() < .3:
                bins = [bins[i] for i in rng.permutation(nb)]
            div = bool(rng.random() < .5)
            kw = {}
            if rng.random() < .5:
                kw['fc'] = 'r'
            if rng.random() < .5:
                kw['label'] = 'verif27 label'
            w = dict(bins=bins, div=div, wc=wc is not None, kw=dict(kw))
            with Frozen(m, 'bin_plot_th', bins=bins):
                m.call('binned theory', pf.bin_plot_th, 'verif27 b', bins, wc=wc, divide_binwidth=div, N=400, **kw)
            rec = {(round(p.get_x(), 9), round(p.get_x() + p.get_width(), 9)): p for p in ax.patches}
            if m.check(len(ax.patches) == nb and set(rec) == {(round(a, 9), round(b, 9)) for a, b in bins}, 'binned theory', 'boxes', got=sorted(rec), **w):
                for a, b in bins:
                    p = rec[round(a, 9), round(b, 9)]
                    f, g = fb(a, b, wc), gb(a, b)
                    if div:
                        f, g = f / (b - a), g / (b - a)
                    mid, half = p.get_y() + p.get_height() / 2, p.get_height() / 2
                    m.check(abs(mid - f) < 1e-9 * (abs(f) + g), 'binned theory', 'box is not centred at the prediction', bin=(a, b), observed=mid, expected=f, **w)
                    m.check(abs(half / g - 1) < .2, 'binned theory', 'height of the box is not the uncertainty', bin=(a, b), observed=half, expected=g, **w)
                    m.check(to_rgba(p.get_facecolor()) == to_rgba(kw.get('fc', 'C6')), 'binned theory', 'colour', **w)
                m.check(ax.get_legend_handles_labels()[1] == (['verif27 label'] if 'label' in kw else []), 'binned theory', 'labels', got=ax.get_legend_handles_labels()[1], **w)
            m.event('binned theory', (tuple(bins), div))
        if k % 10 == 0:
            for f, o, a in ((pf.diff_plot_th, 'verif27 0', (1, 2)), (pf.diff_plot_th, 'verif27 b', (1, 2)), (pf.diff_plot_th_err, 'verif27 0', (1, 2)), (pf.bin_plot_th, 'verif27 d', ([(1, 2)],)), (pf.bin_plot_th, 'verif27 0', ([(1, 2)],)), (pf.bin_plot_exp, 'verif27 d', ()), (pf.diff_plot_exp, 'verif27 b', ()), (pf.diff_plot_exp, 'verif27 0', ())):
                m.raises(ValueError, 'arguments', f, o, *a)


def bars(c):
    """Points and error bars of an errorbar container: list of (x, y, left, right, down, up)."""
    x, y = c[0].get_data()
    S = [np.asarray(l.get_segments()) for l in c[2]]
    res = []
    xerr = S[0] if c.has_xerr else None
    yerr = S[1] if c.has_xerr else S[0]
    for i in range(len(x)):
        xe = sorted(xerr[i][:, 0]) if xerr is not None else [x[i], x[i]]
        ye = sorted(yerr[i][:, 1])
        res.append((float(x[i]), float(y[i]), float(x[i] - xe[0]), float(xe[1] - x[i]), float(y[i] - ye[0]), float(ye[1] - y[i])))
    return res


def experiment(m, rng, n, seed):
    import flavio
    from flavio.plots import plotfunctions as pf
    from flavio.statistics import probability as pr
    from matplotlib.colors import to_rgba
    warnings.simplefilter('ignore')
    setup()
    for k in range(n):
        ax = fresh()
        binned = k % 2 == 0
        name = 'verif27 b' if binned else 'verif27 d'
        nm = int(rng.integers(1, 5))
        truth = []  # (measurement, experiment, key, central, right, left)
        names = []
        for i in range(nm):
            ms = flavio.Measurement('verif27 m%d' % i)
            ms.experiment = str(rng.choice(['LHCb', 'Belle', 'verif27 exp']))
            names.append(ms.name)
            npt = int(rng.integers(1, 5))
            if binned:
                e = np.round(np.sort(rng.uniform(0, 9, npt + 1)), 2)
                keys = [(name, float(a), float(b)) for a, b in zip(e, e[1:]) if b > a]
            else:
                keys = [(name, float(v)) for v in sorted(set(np.round(rng.uniform(0, 9, npt), 2)))]
            if rng.random() < .3:
                keys = keys + [('verif27 0x', 1., 2.)] if False else keys
            cen = rng.normal(size=len(keys))
            if rng.random() < .3 and len(keys) > 1:
                sg = rng.uniform(.1, 1, len(keys))
                rho = .3
                cov = np.outer(sg, sg) * (rho + (1 - rho) * np.eye(len(keys)))
                ms.add_constraint(keys, pr.MultivariateNormalDistribution(cen, cov))
                for q, c, s in zip(keys, cen, sg):
                    truth.append((ms.name, ms.experiment, q, float(c), float(s), float(s)))
            else:
                for q, c in zip(keys, cen):
                    r, l = float(rng.uniform(.1, 1)), float(rng.uniform(.1, 1))
                    if rng.random() < .5:
                        l = r
                        ms.add_constraint([q], pr.NormalDistribution(c, r))
                    else:
                        ms.add_constraint([q], pr.AsymmetricNormalDistribution(c, r, l))
                    truth.append((ms.name, ms.experiment, q, float(c), r, l))
            if rng.random() < .3:
                # other observables of the measurement are not drawn
                ms.add_constraint(['BR(Bs->mumu)'], pr.NormalDistribution(1., .1))
        sel = [t for t in truth]
        kw = {}
        if rng.random() < .3:
            inc = [x for x in names if rng.random() < .6]
            kw['include_measurements'] = inc
            sel = [t for t in sel if t[0] in inc]
        if rng.random() < .5:
            pick = [t[2][1:] if binned else t[2][1] for t in truth if rng.random() < .5]
            inc = rng.random() < .5
            kw[('include_' if inc else 'exclude_') + ('bins' if binned else 'x')] = pick
            sel = [t for t in sel if ((t[2][1:] if binned else t[2][1]) in pick) == bool(inc)]
        div = binned and rng.random() < .5
        if div:
            kw['divide_binwidth'] = True
        sf = float(rng.choice([1., 1., 1e3]))
        if sf != 1:
            kw['scale_factor'] = sf
        cols = None
        if rng.random() < .5:
            cols = kw['col_dict'] = {'LHCb': 'r', 'Belle': 'b'}
        w = dict(binned=binned, kw={a: b for a, b in kw.items()}, measurements=[(t[0], t[1], t[2][1:]) for t in truth][:6])
        try:
            with Frozen(m, 'exp', kw=kw):
                out = m.call('exp', pf.bin_plot_exp if binned else pf.diff_plot_exp, name, **kw)
            cont = [c for c in ax.containers]
            got = sorted(b for c in cont for b in bars(c))
            exp = []
            for t in sel:
                q = t[2]
                f = sf / ((q[2] - q[1]) if div else 1)
                if binned:
                    h = (q[2] - q[1]) / 2
                    exp.append(((q[1] + q[2]) / 2, t[3] * f, h, h, t[5] * f, t[4] * f))
                else:
                    exp.append((q[1], t[3] * f, 0., 0., t[5] * f, t[4] * f))
            exp.sort()
            ok = len(got) == len(exp) and np.allclose(np.array(got), np.array(exp), rtol=1e-6, atol=1e-9 * sf) if exp else not got
            m.check(ok, 'exp:points', 'drawn points and error bars are not those of the measurements', got=got[:4], expected=exp[:4], n=[len(got), len(exp)], **w)
            # labels and colours
            lb = ax.get_legend_handles_labels()[1]
            m.check(sorted(lb) == sorted({t[1] for t in sel}), 'exp:labels', 'legend', got=lb, expected=sorted({t[1] for t in sel}), **w)
            if cols:
                for c in cont:
                    b = bars(c)
                    es = {t[1] for t in sel if any(abs((((t[2][1] + t[2][2]) / 2) if binned else t[2][1]) - p[0]) < 1e-9 and abs(t[3] * sf / ((t[2][2] - t[2][1]) if div else 1) - p[1]) < 1e-9 * sf for p in b)}
                    if len(es) == 1 and list(es)[0] in cols:
                        m.check(to_rgba(c[0].get_color()) == to_rgba(cols[list(es)[0]]), 'exp:colour', 'colour of the experiment', **w)
            # returned values
            if exp:
                yy, bb = out
                want = [(t[2][1:] if binned else t[2][1]) for t in sel]
                m.check(sorted(bb) == sorted(want), 'exp:returned', 'returned bins', got=sorted(bb)[:5], expected=sorted(want)[:5], **w)
                m.check(len(np.ravel(yy)) == len(bb) and np.allclose(sorted(np.ravel(yy)), sorted(e[1] for e in exp), rtol=1e-9), 'exp:returned values', 'returned values are not those of the points drawn', got=np.ravel(yy).tolist(), expected=[e[1] for e in exp], **w)
            if kw.get('include_bins' if binned else 'include_x') is not None:
                m.raises(ValueError, 'exp:arguments', pf.bin_plot_exp if binned else pf.diff_plot_exp, name, **dict(kw, include_measurements=names, **{'exclude_bins' if binned else 'exclude_x': []}))
            m.event('binned experiment' if binned else 'experiment', (k, len(sel), nm))
        finally:
            for x in names:
                flavio.Measurement.del_instance(x)
    # shipped measurements
    for name in ['<dBR/dq2>(B0->K*mumu)', '<P5p>(B0->K*mumu)', '<dBR/dq2>(B+->Kmumu)', '<FL>(B0->K*mumu)', '<dBR/dq2>(Bs->phimumu)', '<Rmue>(B+->Kll)']:
        ax = fresh()
        div = bool(rng.random() < .5)
        m.call('exp', pf.bin_plot_exp, name, divide_binwidth=div)
        exp = []
        for ms in flavio.Measurement.instances.values():
            ks = [o for o in ms.all_parameters if isinstance(o, tuple) and o[0] == name]
            for q in ks:
                cst, pos = [(c, p.index(q)) for c, p in ms._constraints if q in p][0]
                c = float(np.ravel(cst.central_value)[pos]) if np.ndim(cst.central_value) else float(cst.central_value)
                exp.append(((q[1] + q[2]) / 2, c / ((q[2] - q[1]) if div else 1)))
        got = sorted(b[:2] for c in ax.containers for b in bars(c))
        m.check(len(got) == len(exp) and np.allclose(np.array(got), np.array(sorted(exp)), rtol=1e-9), 'exp:shipped', 'points are not the shipped measurements', observable=name, n=[len(got), len(exp)])
        m.event('binned experiment', name)


def pies(m, rng, n, seed):
    import flavio
    from flavio.plots import plotfunctions as pf
    from flavio.plots import colors
    warnings.simplefilter('ignore')
    pars = sorted(flavio.Parameter.instances)
    for k in range(n):
        fresh()
        e = {str(p): float(10 ** rng.uniform(-3, -.5)) for p in rng.choice(pars, int(rng.integers(2, 9)), replace=False)}
        if rng.random() < .5:
            e['verif27 something'] = float(10 ** rng.uniform(-2, -.5))
        if rng.random() < .4:
            q = rng.choice(pars, 2, replace=False)
            e[tuple(str(v) for v in q)] = float(10 ** rng.uniform(-2, -.5))
        cut = float(rng.choice([.03, .03, .1, 0.]))
        kw = {} if cut == .03 else {'other_cutoff': cut}
        with Frozen(m, 'pie', e=e):
            out = m.call('pie', pf.error_budget_pie, e, **kw)
        wedges, texts, auto = out
        tot = sum(v * v for v in e.values())

        def lab(q):
            if isinstance(q, tuple):
                return ', '.join(flavio.Parameter[z].tex for z in q)
            return flavio.Parameter[q].tex if q in flavio.Parameter.instances else q
        exp = [(lab(q), v * v / tot) for q, v in e.items() if v * v / tot > cut]
        small = sum(v * v / tot for v in e.values() if v * v / tot <= cut)
        exp.sort(key=lambda t: -t[1])
        if any(v * v / tot <= cut for v in e.values()):
            exp.append(('other', small))
        got = [(t.get_text(), (wd.theta2 - wd.theta1) / 360.) for t, wd in zip(texts, wedges)]
        ok = len(got) == len(exp) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-4 for a, b in zip(got, exp))
        m.check(ok, 'pie', 'wedges are not the relative contributions to the variance', got=got, expected=exp, errors={str(a): b for a, b in e.items()}, cutoff=cut)
        if ok:
            for t, (l, f) in zip(auto, exp):
                p = 100 * math.sqrt(f * tot)
                v = float(t.get_text().replace('\\%', ''))
                m.check(abs(v - p) <= .06 * p, 'pie:percent', 'number in the wedge is not the relative error in per cent', label=l, got=t.get_text(), expected=p)
        m.event('pie', (len(e), cut, k))
        # colours
        import colorsys
        from matplotlib.colors import to_rgb
        c = [str(rng.choice(['r', 'C1', '#F034A3', 'seagreen'])), tuple(float(v) for v in rng.uniform(0, 1, 3))][int(rng.integers(2))]
        a = float(rng.uniform(0, 1))
        for f, g in ((colors.lighten_color, lambda l: 1 - a * (1 - l)), (colors.darken_color, lambda l: a * l)):
            got = m.call('colour', f, c, a)
            h = colorsys.rgb_to_hls(*to_rgb(c))
            m.check(np.allclose(got, colorsys.hls_to_rgb(h[0], g(h[1]), h[2]), atol=1e-9), 'colour', f.__name__, colour=c, amount=a, got=got)
        i = int(rng.integers(10))
        m.check(colors.get_color(None, None) == 'C0' and colors.get_color(i, None) == 'C%d' % i and colors.get_color(None, 'red') == 'red', 'colour', 'get_color')
        m.raises(ValueError, 'colour', colors.get_color, 'red', None)


def jobs(tier, seed):
    T = tier != 'quick'
    out = split_jobs('likelihood_data', likelihood_data, 1200 if T else 100, 2, seed=seed)
    out += split_jobs('contours', contours, 1500 if T else 90, 2, seed=seed)
    out += split_jobs('density', density, 200 if T else 24, 2, seed=seed)
    out += split_jobs('lines', lines, 1500 if T else 90, 2, seed=seed)
    out += split_jobs('theory', theory, 300 if T else 60, 3, seed=seed)
    out += split_jobs('experiment', experiment, 1000 if T else 80, 2, seed=seed)
    out += split_jobs('pies', pies, 400 if T else 40, 1, seed=seed)
    return out
