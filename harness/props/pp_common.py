"""Generators shared by the piecewise-polynomial properties."""
import numpy as np
from core import farr, fx, fxn, arr, short, SCALE, limbs


def model_def(breaks, coeffs):
    """Definition of a piecewise polynomial c[k][p][d] for the specification."""
    return dict(br=[fx(v) for v in breaks], c=fxn(coeffs))


def rand_breaks(rng, pieces, kind=None):
    kind = kind or rng.choice(['regular', 'random', 'int', 'neg'])
    if kind == 'regular':
        return rng.integers(-3000, 5000) + np.arange(pieces + 1) * 182.625
    if kind == 'int':
        return np.cumsum(rng.integers(1, 400, pieces + 1)).astype(float)
    if kind == 'neg':
        return -9000. + np.cumsum(rng.uniform(10, 300, pieces + 1))
    return rng.uniform(-1000, 1000) + np.cumsum(rng.uniform(1, 500, pieces + 1))


def rand_coeffs(rng, order, breaks, dim):
    """Coefficients such that all powers matter over an interval; no continuity."""
    P = len(breaks) - 1
    w = np.maximum(np.diff(breaks), 1.)
    c = rng.normal(size=(order, P, dim)) * 100
    for k in range(order):
        c[order - 1 - k] /= w[:, None]**k
    return c


def rand_times(rng, breaks, n, outside=0., breaks_too=True):
    a, b = breaks[0], breaks[-1]
    t = rng.uniform(a, b, n)
    if breaks_too:
        idx = rng.random(n) < .35
        t[idx] = rng.choice(breaks, idx.sum())
        near = rng.random(n) < .1
        t[near] = np.nextafter(rng.choice(breaks, near.sum()), a)
        t = np.clip(t, a, b)
    out = rng.random(n) < outside
    side = rng.random(n) < .5
    d = rng.uniform(1e-3, 400, n)
    t = np.where(out, np.where(side, a - d, b + d), t)
    return t
