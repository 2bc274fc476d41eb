"""b -> s l l of free quarks with explicit Dirac spinors (massless s quark, b mass 1), and the finite one-gluon
corrections of Asatrian et al., hep-ph/0209006 (those of the asymmetry approach a common finite limit at the end point)."""
import numpy as np
from lib.angdist import g, g5, _spin

_eta = np.diag([1, -1, -1, -1])
_gl = [_eta[i, i] * g[i] for i in range(4)]
_PL, _PR = (np.eye(4) - g5) / 2, (np.eye(4) + g5) / 2


def free(s, ml, C):
    """(coefficients of 1, cos, cos^2) of the distribution in the lepton angle, dilepton rest frame"""
    rq = np.sqrt(s)
    k = np.array([0, 0, (1 - s) / (2 * rq)])
    ub, us = _spin(k, 1., False), _spin(k, 0., False).conj() @ g[0]
    sq = [.5j * (g[a] @ g[0] - g[0] @ g[a]) * rq for a in range(4)]
    p = np.sqrt(s / 4 - ml**2)
    W = []
    cs = np.array([-.7, .1, .6])
    for c in cs:
        n = np.array([np.sqrt(1 - c * c), 0, c])
        u, v = _spin(p * n, ml, False).conj() @ g[0], _spin(-p * n, ml, True)
        M = 0
        for X, Y, t in ((_PL, _PR, ''), (_PR, _PL, 'p')):
            for a in range(4):
                M = M + np.einsum('ij,kl->ijkl', us @ (C['v' + t] * g[a] @ X - 2j / s * C['7' + t] * sq[a] @ Y) @ ub.T, u @ _gl[a] @ v.T)
                M = M + np.einsum('ij,kl->ijkl', us @ (C['a' + t] * g[a] @ X) @ ub.T, u @ (_gl[a] @ g5) @ v.T)
            M = M + np.einsum('ij,kl->ijkl', us @ Y @ ub.T, C['s' + t] * (u @ v.T) + C['p' + t] * (u @ g5 @ v.T))
        W.append((abs(M)**2).sum())
    return np.linalg.solve([[1, x, x * x] for x in cs], W) * p / rq * (1 - s)


def taus(s):
    from numpy import log, sqrt, pi
    from scipy.special import spence

    def li2(x):
        return spence(1 - x)
    L, l, r = log(1 - s), log(s), sqrt(s)
    lr = log((1 - r) / (1 - s))
    f7 = (24 * (1 + 13 * s - 4 * s**2) * li2(r) + 12 * (1 - 17 * s + 6 * s**2) * li2(s) + 6 * s * (6 - 7 * s) * l + 24 * (1 - s)**2 * l * L
          + 12 * (-13 + 16 * s - 3 * s**2) * lr + 39 - 2 * pi**2 + 252 * s - 26 * pi**2 * s + 21 * s**2 + 8 * pi**2 * s**2 - 180 * r - 132 * s * r) / (6 * (1 - s)**2)
    f9 = -(48 * s * (2 * s - 5) * li2(r) + 24 * (7 * s - 1 - 3 * s**2) * li2(s) + 6 * s * (7 * s - 6) * l - 24 * (1 - s)**2 * l * L
           + 24 * (5 - 7 * s + 2 * s**2) * lr - 21 - 156 * s + 20 * pi**2 * s + 9 * s**2 - 8 * pi**2 * s**2 + 120 * r + 48 * s * r) / (6 * (1 - s)**2)
    common = -5 / 2 + 1 / (3 * (1 - s)) - s * (6 - 7 * s) * l / (3 * (1 - s)**2)
    t = {'7v': -(4 * (1 - s)**2 * L / (9 * s) + 4 * s * (3 - 2 * s) * l / (9 * (1 - s)**2) + 2 * (5 - 3 * s) / (9 * (1 - s))),
         '77': -2 / (9 * (2 + s)) * (2 * (1 - s)**2 * L + 6 * s * (2 - 2 * s - s**2) * l / (1 - s)**2 + (11 - 7 * s - 10 * s**2) / (1 - s)),
         'vv': -4 / (9 * (1 + 2 * s)) * (2 * (1 - s)**2 * L + 3 * s * (1 + s) * (1 - 2 * s) * l / (1 - s)**2 + 3 * (1 - 3 * s**2) / (1 - s)),
         '7a': common - (3 - 7 * s + 4 * s**2) * L / (9 * s) + f7 / 3,
         'va': common - 2 * (3 - 5 * s + 2 * s**2) * L / (9 * s) + f9 / 3}
    return {k: float(v) for k, v in t.items()}
