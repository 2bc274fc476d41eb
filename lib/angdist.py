"""Angular distributions of B->V(->PP) l1 l2bar and B->P l1 l2bar from helicity amplitudes, with explicit Dirac spinors.

The distribution is evaluated at random angles and projected on the angular functions by least squares: independent
of any published table of angular coefficients."""
import numpy as np

_s = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]
_Z, _I = np.zeros((2, 2)), np.eye(2)
g = [np.block([[_I, _Z], [_Z, -_I]]).astype(complex)] + [np.block([[_Z, x], [-x, _Z]]) for x in _s]
g5 = 1j * g[0] @ g[1] @ g[2] @ g[3]
EPS = {'0': np.array([0, 0, 1]), 'pl': np.array([-1, -1j, 0]) / np.sqrt(2), 'mi': np.array([1, -1j, 0]) / np.sqrt(2)}
_sig = [.5j * (g[0] @ g[i] - g[i] @ g[0]) for i in (1, 2, 3)]
# normalisation and phase conventions of arXiv:1506.03970
TRI = {'V': [g[i] for i in (1, 2, 3)], 'A': [-g[i] @ g5 for i in (1, 2, 3)],
       'Tt': [2 * x for x in _sig], 'T': [-np.sqrt(2) * x @ g5 for x in _sig]}
SCA = {'S': -np.eye(4), 'P': g5}
KEYS = [(l, X) for X in TRI for l in EPS] + list(SCA)
VBASIS = ('1s', '1c', '2s', '2c', 3, 4, 5, '6s', '6c', 7, 8, 9)


def _spin(p, m, anti):
    E = np.sqrt(m * m + p @ p)
    sp = sum(p[i] * _s[i] for i in range(3))
    out = []
    for xi in (np.array([1, 0]), np.array([0, 1])):
        up, lo = np.sqrt(E + m) * xi, sp @ xi / np.sqrt(E + m)
        out.append(np.concatenate([lo, up]) if anti else np.concatenate([up, lo]))
    return np.array(out)


def leptons(q2, m1, m2, th, ph):
    E1 = (q2 + m1 * m1 - m2 * m2) / 2 / np.sqrt(q2)
    p = np.sqrt(max(E1**2 - m1**2, 0))
    n = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    u, v = _spin(p * n, m1, False).conj() @ g[0], _spin(-p * n, m2, True)
    L = {(l, X): u @ sum(e[i] * G[i] for i in range(3)) @ v.T for X, G in TRI.items() for l, e in EPS.items()}
    L.update({X: u @ G @ v.T for X, G in SCA.items()})
    return L


def _functions(a, b, f):
    sa, ca, s2 = np.sin(a)**2, np.cos(a)**2, np.sin(2 * a)
    sb, s2b = np.sin(b), np.sin(2 * b)
    return [sa, ca, sa * np.cos(2 * b), ca * np.cos(2 * b), sa * sb**2 * np.cos(2 * f), s2 * s2b * np.cos(f), s2 * sb * np.cos(f),
            sa * np.cos(b), ca * np.cos(b), s2 * sb * np.sin(f), s2 * s2b * np.sin(f), sa * sb**2 * np.sin(2 * f)]


def vector(rng, H, q2, m1, m2, npts=30):
    """dictionary of the coefficients of the angular functions; residual of the projection"""
    B, W = [], []
    for _ in range(npts):
        a, b, f = np.arccos(rng.uniform(-1, 1)), np.arccos(rng.uniform(-1, 1)), rng.uniform(-np.pi, np.pi)
        L = leptons(q2, m1, m2, b, f)
        d = {'0': np.cos(a), 'pl': -np.sin(a) / np.sqrt(2), 'mi': np.sin(a) / np.sqrt(2)}
        A = sum(h * (d[k[0]] if isinstance(k, tuple) else np.cos(a)) * L[k] for k, h in H.items())
        W.append((abs(A)**2).sum())
        B.append(_functions(a, b, f))
    x = np.linalg.lstsq(np.array(B), np.array(W), rcond=None)[0]
    res = np.abs(np.array(B) @ x - W).max() / max(np.abs(W).max(), 1e-300)
    return dict(zip(VBASIS, x)), res


def scalar(H, q2, m1, m2):
    """(a, b, c) with a + b cos + c cos^2 for a (pseudo)scalar recoil: only helicity 0"""
    W = []
    for c in (-.8, -.1, .6):
        L = leptons(q2, m1, m2, np.arccos(c), .3)
        A = sum(h * L[('0', k) if k in TRI else k] for k, h in H.items())
        W.append((abs(A)**2).sum())
    return np.linalg.solve([[1, c, c * c] for c in (-.8, -.1, .6)], W)
