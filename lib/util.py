"""Shared helpers: generators and independent numeric references."""
import math
import numpy as np
import scipy.stats
import scipy.integrate


def logu(rng, lo, hi):
    return float(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def sgn(rng):
    return 1.0 if rng.random() < 0.5 else -1.0


def norm_pdf(z):
    return np.exp(-0.5 * np.asarray(z, float)**2) / math.sqrt(2 * math.pi)


def cl_of(nsigma):
    return math.erf(nsigma / math.sqrt(2))


def split_jobs(name, fn, n, chunks, **kw):
    """n cases spread over chunks jobs called name#i(fn, m, rng, n=...)."""
    out = []
    base = n // chunks
    for i in range(chunks):
        k = base + (1 if i < n % chunks else 0)
        if k:
            out.append({'name': '%s#%d' % (name, i), 'fn': fn, 'args': dict(kw, n=k)})
    return out


def random_corr(rng, d, strength=1.0):
    """Random positive definite correlation matrix."""
    A = rng.normal(size=(d, d + 2))
    C = A @ A.T
    s = np.sqrt(np.diag(C))
    C = C / np.outer(s, s)
    C = strength * C + (1 - strength) * np.eye(d)
    C = 0.5 * (C + C.T)
    np.fill_diagonal(C, 1.0)
    return C


def ks_stat(samples, cdf):
    x = np.sort(np.asarray(samples, float))
    n = len(x)
    F = np.asarray(cdf(x), float)
    hi = np.arange(1, n + 1) / n - F
    lo = F - np.arange(0, n) / n
    return max(hi.max(), lo.max()) * math.sqrt(n)


class GridCDF:
    """CDF of an (un-normalised) reference density, trapezoid on a fine grid."""

    def __init__(self, pdf, lo, hi, n=200001, breaks=()):
        xs = np.linspace(lo, hi, n)
        for b in breaks:
            if lo < b < hi:
                w = (hi - lo)
                xs = np.concatenate([xs, [np.nextafter(b, -np.inf), b, np.nextafter(b, np.inf)],
                                     b + w * np.logspace(-9, -3, 300), b - w * np.logspace(-9, -3, 300)])
        xs = np.unique(xs)
        xs = xs[(xs >= lo) & (xs <= hi)]
        y = np.asarray(pdf(xs), float)
        y = np.where(np.isfinite(y), y, 0)
        c = np.concatenate([[0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(xs))])
        self.total = c[-1]
        self.x = xs
        self.c = c / c[-1]

    def __call__(self, x):
        return np.interp(x, self.x, self.c, left=0., right=1.)


def _mpmath():
    """The multi-precision library of the tooling environment (pure Python)."""
    import sys
    try:
        import mpmath
    except ImportError:
        path = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        sys.path.append(path)
        try:
            import mpmath
        finally:
            sys.path.remove(path)
    return mpmath


class _Lazy:
    def __getattr__(self, k):
        mod = _mpmath()
        self.__dict__['_m'] = mod
        return getattr(mod, k)

    def __setattr__(self, k, v):
        setattr(_mpmath(), k, v)


mpmath = _Lazy()
