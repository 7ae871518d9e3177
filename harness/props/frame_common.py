"""Generators and encoders for the coordinate properties."""
import numpy as np
from core import farr, short


def enc(*names):
    def f(res):
        if not isinstance(res, (tuple, list)):
            res = (res,)
        if len(res) != len(names):
            raise TypeError('%d results instead of %d' % (len(res), len(names)))
        return {n: farr(v) for n, v in zip(names, res)}
    return f


def dip_event(dipole):
    """Description of a dipole argument (None: the configured one)."""
    from chaosmagpy import basicConfig
    if dipole is None:
        return dict(kind='coeffs', g=farr(np.array(basicConfig['params.dipole'])))
    if isinstance(dipole, (tuple, list)):
        if len(dipole) == 2:
            return dict(kind='pole', th=farr(dipole[0]), ph=farr(dipole[1]))
        if len(dipole) == 3:
            return dict(kind='three', g10=farr(dipole[0]), g11=farr(dipole[1]),
                        h11=farr(dipole[2]))
        dipole = dipole[0]
    return dict(kind='coeffs', g=farr(dipole))


def rand_time(rng, sh, wide=True):
    t = rng.uniform(-36000, 36000, sh) if wide and rng.random() < .4 else rng.uniform(0, 9000, sh)
    t = np.asarray(t)
    w = rng.integers(0, 4)
    if w == 0:
        t = np.floor(t)
    elif w == 1:
        t = np.round(t * 24) / 24
    return t


def rand_dipole(rng, sh=()):
    w = rng.integers(0, 5)
    if w == 0:
        return None
    if w == 1:
        g = rng.normal(size=sh + (3,)) * 3e4
        return g
    if w == 2:
        return (rng.uniform(1, 179, sh), rng.uniform(-180, 360, sh))
    if w == 3:
        g = rng.normal(size=(3,) + sh) * 1e3
        return tuple(g)
    return np.broadcast_to(np.array([-29442., -1501., 4797.1]) + rng.normal(size=3) * 500,
                           sh + (3,)).copy()


def rand_place(rng, sh):
    th = np.asarray(rng.uniform(1., 179., sh))
    ph = np.asarray(rng.uniform(-180., 360., sh))
    if rng.random() < .2:
        th = np.clip(np.round(th / 15) * 15., 15, 165)
        ph = np.round(ph / 30) * 30.
    return th, ph


def scal(rng, x):
    """0-d arrays as Python floats now and then."""
    x = np.asarray(x)
    if x.ndim == 0 and rng.random() < .6:
        return float(x)
    if x.ndim and rng.random() < .2:
        return np.asfortranarray(x)
    if x.ndim and rng.random() < .2:
        return np.ascontiguousarray(x[::-1])[::-1]
    return x
