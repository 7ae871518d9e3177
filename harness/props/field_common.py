"""Drivers shared by the field-synthesis properties."""
import numpy as np
from core import farr, fx, short, arr

NO = -9


def enc3(B):
    if not isinstance(B, (tuple, list)) or len(B) != 3:
        raise TypeError('three components expected')
    return dict(r=farr(B[0]), t=farr(B[1]), p=farr(B[2]))


def opt(x):
    return NO if x is None else int(x)


def _copies(args):
    return [x.copy() if isinstance(x, np.ndarray) else x for x in args]


def _same(args, old):
    return all(np.array_equal(a, b, equal_nan=True) if isinstance(a, np.ndarray) else True
               for a, b in zip(args, old))


def a_ref():
    from chaosmagpy import basicConfig
    return fx(basicConfig['params.r_surf'])


def log_field(log, co, r, th, ph, nmin=None, nmax=None, mmax=None, source=None, grid=None):
    """One call of model_utils.synth_values."""
    from chaosmagpy.model_utils import synth_values
    kw = {k: v for k, v in dict(nmin=nmin, nmax=nmax, mmax=mmax, source=source,
                                grid=grid).items() if v is not None}
    args = (co, r, th, ph)
    old = _copies(args)
    ev = dict(m=0, co=farr(co), time=farr([0.]), ext=2, nu=0, nmin=opt(nmin), nmax=opt(nmax),
              mmax=opt(mmax), src='internal' if source is None else str(source),
              grid=bool(grid), a=a_ref(), r=farr(r), th=farr(th), ph=farr(ph))
    out = log.call('field', lambda: synth_values(co, r, th, ph, **kw), enc3,
                   raw='synth_values(%s)' % short(co, r, th, ph, **kw), same=True, **ev)
    log.events[-1]['same'] = _same(args, old)
    return out


def log_mfield(log, m, source, f, time, r, th, ph, nmax=None, deriv=None, ext=None, grid=None,
               who='', call_time=True, ext_terms=None, **extra):
    """One call of a model's synth_values f(time, r, th, ph, ...)."""
    kw = {k: v for k, v in dict(nmax=nmax, deriv=deriv, extrapolate=ext, grid=grid).items()
          if v is not None}
    args = (time, r, th, ph)
    old = _copies(args)
    ev = dict(m=m, co=farr([0.]), time=farr(time), ext=2 if ext_terms is None else ext_terms,
              nu=int(deriv or 0), nmin=NO, nmax=opt(nmax), mmax=NO, src=source,
              grid=bool(grid), a=a_ref(), r=farr(r), th=farr(th), ph=farr(ph))
    fargs = args if call_time else args[1:]
    log.call('field', lambda: f(*fargs, **kw), enc3,
             raw='%s(%s)' % (who, short(*fargs, **kw)), same=True, **ev, **extra)
    log.events[-1]['same'] = _same(args, old)


def log_design(log, r, th, ph, nmax, nmin=None, mmax=None, source=None):
    from chaosmagpy.model_utils import design_gauss
    kw = {k: v for k, v in dict(nmin=nmin, mmax=mmax, source=source).items() if v is not None}
    args = (r, th, ph)
    old = _copies(args)
    log.call('design', lambda: design_gauss(r, th, ph, nmax, **kw), enc3,
             raw='design_gauss(%s)' % short(r, th, ph, nmax, **kw), same=True, a=a_ref(),
             r=farr(r), th=farr(th), ph=farr(ph), nmax=int(nmax), nmin=opt(nmin),
             mmax=opt(mmax), src='internal' if source is None else str(source))
    log.events[-1]['same'] = _same(args, old)


def dim(nmin, nmax, mmax):
    return sum(2 * min(n, mmax) + 1 for n in range(nmin, nmax + 1))


def rand_radius(rng, source):
    return float(rng.choice([6371.2, 3485., 6000., 6871.2, 12000., 6371., 1.]) if rng.random() < .5
                 else rng.uniform(3000, 20000))


def rand_theta(rng, n, poles=0.):
    th = rng.uniform(.5, 179.5, n)
    k = rng.random(n) < .3
    th[k] = rng.choice([90., 45., 1e-3, 179.999, 60., 120., 1e-6, 180 - 1e-6, 30.], k.sum())
    k = rng.random(n) < poles
    th[k] = rng.choice([0., 180.], k.sum())
    return th


def rand_phi(rng, n):
    ph = rng.uniform(-180, 360, n)
    k = rng.random(n) < .35
    ph[k] = rng.choice([0., 90., 180., -180., 360., 270., -90., 720., -540., 1e-9, 1000.], k.sum())
    return ph


def rand_co(rng, *shape):
    c = rng.normal(size=shape) * 10.**rng.uniform(-1, 4)
    return c


def rand_shapes(rng, k, deep=3):
    """k shapes that broadcast together, with up to `deep` dimensions."""
    full = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(0, deep + 1))))
    while int(np.prod(full)) > 12:
        full = full[1:]
    s = [full[rng.integers(0, len(full) + 1):] if rng.random() < .6 else full for _ in range(k)]
    return [tuple(1 if rng.random() < .25 else v for v in x) for x in s]


def log_any_field(log, rng, n, poles=.04, windows=True):
    """Syntheses and design matrices from the product of all options."""
    for i in range(n):
        source = [None, 'internal', 'external', 'external'][rng.integers(4)]
        nmin = int(rng.choice([1, 1, 1, 2, 3, 4, 5])) if windows else 1
        nmax = nmin + int(rng.integers(0, 4))
        mmax = int(rng.integers(0, nmax + 1)) if windows and rng.random() < .4 else None
        D = dim(nmin, nmax, nmax if mmax is None else mmax)
        grid = rng.random() < .3
        if grid:
            lead = rand_shapes(rng, 1, 2)[0]
            a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            # (theta and phi with the same leading dimensions)
            more = int(rng.integers(1, 3)) if rng.random() < .4 else 0
            ts, ps = lead + (a,), lead + (b,)
            if rng.random() < .4:
                ts = ts[-1:]
                if rng.random() < .5:
                    ps = ps[-1:]
            full = (2,) * more + lead + (a, b)
            part = lambda: tuple(1 if rng.random() < .25 else v for v in full)[rng.integers(0, len(full) + 1):]
            s = [part() if rng.random() < .5 else full, part(), ts, ps]
            if int(np.prod(full)) > 40:
                continue
        else:
            s = rand_shapes(rng, 4, 4)
        size = lambda sh: int(np.prod(sh, dtype=int))
        th = rand_theta(rng, size(s[2]), poles).reshape(s[2])
        ph = rand_phi(rng, size(s[3])).reshape(s[3])
        r = rng.uniform(5000, 9000, s[1])
        kw = dict(source=source)
        if nmin > 1 or rng.random() < .3:
            kw['nmin'] = nmin
        if mmax is not None:
            kw['mmax'] = mmax
        if rng.random() < .6:
            kw['nmax'] = nmax
        if rng.random() < .25 and not grid and s[0] == ():
            log_design(log, r, th, ph, nmax, nmin=kw.get('nmin'), mmax=mmax, source=source)
        else:
            log_field(log, rand_co(rng, *s[0], D), r, th, ph, grid=True if grid else None, **kw)
