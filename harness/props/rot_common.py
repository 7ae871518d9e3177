"""Generators and encoders for coefficient rotations and induction."""
import numpy as np
from core import farr, fxs, thin


def cenc(a):
    a = thin(a)
    if a.dtype.kind not in 'fiubc':
        raise TypeError('numeric array expected, got %s' % a.dtype)
    a = a.astype(complex)
    return dict(shape=list(a.shape), re=fxs(a.real), im=fxs(a.imag))


def rand_frame(rng, sh=()):
    """Right-handed orthonormal triads of shape sh + (3,)."""
    n = int(np.prod(sh, dtype=int))
    out = np.empty((3, n, 3))
    for i in range(n):
        kind = rng.integers(0, 5)
        if kind == 0:        # signed permutation
            p = np.eye(3)[rng.permutation(3)] * rng.choice([-1., 1.], 3)[:, None]
            if np.linalg.det(p) < 0:
                p[0] *= -1
            q = p
        elif kind == 1:      # rotation about the axis
            a = rng.uniform(-4, 4)
            q = np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
        else:
            q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
            if np.linalg.det(q) < 0:
                q[2] *= -1
        out[:, i] = q
    return tuple(b.reshape(tuple(sh) + (3,)) for b in out)


def schmidt_harmonics(nmax, theta, phi):
    """Schmidt semi-normalised surface harmonics in natural order (own recursion)."""
    th, ph = np.radians(theta), np.radians(phi)
    c, s = np.cos(th), np.sin(th)
    P = {(0, 0): np.ones_like(c)}
    for m in range(1, nmax + 1):
        P[m, m] = s * P[m-1, m-1] * (1. if m == 1 else np.sqrt((2*m - 1) / (2*m)))
    for m in range(nmax + 1):
        for n in range(m + 1, nmax + 1):
            P[n, m] = (2*n - 1) * c * P[n-1, m] / np.sqrt(n*n - m*m)
            if n - 2 >= m:
                P[n, m] = P[n, m] - np.sqrt((n-1)**2 - m*m) * P[n-2, m] / np.sqrt(n*n - m*m)
    out = []
    for n in range(1, nmax + 1):
        out.append(P[n, 0])
        for m in range(1, n + 1):
            out += [P[n, m] * np.cos(m * ph), P[n, m] * np.sin(m * ph)]
    return out
