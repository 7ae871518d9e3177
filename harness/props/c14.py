"""C14: power spectrum, degree correlation, sensitivity."""
import numpy as np
from core import Log, load_code, farr, fx, fxs, arr, short, sampled
from props.field_common import opt, a_ref, rand_co
from props.pp_common import model_def, rand_breaks, rand_coeffs, rand_times


def run(ctx):
    load_code()
    import chaosmagpy.model_utils as mu
    from chaosmagpy.chaos import BaseModel
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Spectrum', consts=dict(SP_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C14')

    def spec(co, r=None, source=None, nmax=None, axis=None):
        kw = {k: v for k, v in dict(source=source, nmax=nmax, axis=axis).items() if v is not None}
        pos = () if r is None else (r,)
        ax = (-1 if axis is None else axis) % co.ndim
        log.call('spectrum', lambda: mu.power_spectrum(co, *pos, **kw), arr,
                 raw='power_spectrum(%s)' % short(co, *pos, **kw), co=farr(co), axis=int(ax),
                 hasr=r is not None, r=fx(1 if r is None else r), a=a_ref(), nmax=opt(nmax),
                 src='internal' if source is None else source)
    sources = [None, 'internal', 'external', 'toroidal']
    for i in range(ctx.n(160, 1200)):
        N = int(rng.integers(1, 8))
        D = N * (N + 2) + (int(rng.integers(1, 2 * N + 2)) if i % 9 == 0 else 0)
        sh = [(D,), (2, D), (D, 3), (2, D, 2), (1, D), (2, 3, D), (D, 2, 3), (D, 1, 2, 2)][i % 8]
        ax = [0, 1, 0, 1, 1, 2, 0, 0][i % 8]
        axis = None if ax == len(sh) - 1 and i % 2 else int(ax if i % 3 else ax - len(sh))
        r = [None, 6371.2, 3485., float(rng.uniform(3000, 9000)), 7000,
             6371.2 * 10.**float(rng.uniform(-1, 1)), 42164.][rng.integers(7)]
        nm = [None, N, 1, int(rng.integers(1, N + 1)), N + 3][rng.integers(5)]
        co = rand_co(rng, *sh)
        if i % 8 == 0:
            co = rng.integers(-40000, 40000, sh)
        if i % 16 == 6:                    # coefficients in nT fit into short integers
            dt = ['int16', 'int32', 'uint16', '>i4'][int(rng.integers(4))]
            co = (rng.integers(0 if dt[0] == 'u' else -32000, 32000, sh) * (9 if '4' in dt else 1)).astype(dt)
        if i % 16 == 4:                    # an unknown coefficient spoils its degree only
            co.ravel()[int(rng.integers(0, co.size))] = np.nan
        if i % 16 == 8:
            co = np.asfortranarray(co)
        spec(co, r, sources[i % 4], nm, axis)
    with sampled(rng, 3001, 5):        # many vectors
        for s in sources:
            spec(rand_co(rng, 3001, 15), 6400., s)
            spec(rand_co(rng, 15, 3001), 6400., s, None, 0)
    for s in ('all', 'Internal', '', 'static'):
        spec(np.arange(8.), 6400., s)
    for a in (6371., 1., 3480.):
        with basicConfig.context('params.r_surf', a):
            for s in sources:
                spec(rand_co(rng, 15), a * 1.1, s)
                spec(rand_co(rng, 15), None, s)
    # of a model
    for i in range(ctx.n(60, 400)):
        N = int(rng.integers(1, 5))
        order = int(rng.integers(1, 7))
        br = rand_breaks(rng, 3)
        c = rand_coeffs(rng, order, br, N * (N + 2))
        m = log.define(model_def(br, c))
        source = ['internal', 'external', 'toroidal'][i % 3]
        bm = BaseModel('m', breaks=br, order=order, coeffs=c, source=source)
        t = [rand_times(rng, br, 3), float(br[1]), rand_times(rng, br, 4).reshape(2, 2),
             rand_times(rng, br, 2, 1.)][i % 4]
        r = [None, 3485., 7000.][i % 3 - 1] if i % 2 else 6371.2 * 10.**float(rng.uniform(-.6, .6))
        nm = [None, 1, N, N + 1][rng.integers(4)]
        nu = [None, 0, 1, 2, 3, order - 1][rng.integers(6)]
        kw = {k: v for k, v in dict(nmax=nm, deriv=nu).items() if v is not None}
        pos = () if r is None else (r,)
        log.call('mspectrum', lambda: bm.power_spectrum(t, *pos, **kw), arr,
                 raw='BaseModel(%s).power_spectrum(%s)' % (source, short(t, *pos, **kw)), m=m,
                 time=farr(t), r=fx(basicConfig['params.r_surf'] if r is None else r), a=a_ref(),
                 nmax=opt(nm), nu=int(nu or 0), ext=2, src=source)

    def corr(x, y, bad=False):
        log.call('corr', lambda: mu.degree_correlation(x, y), arr,
                 raw='degree_correlation(%s)' % short(x, y), x=fxs(x), y=fxs(y), bad=bad)

    def sens(x, y, bad=False):
        ox, oy = x.copy(), y.copy()
        log.call('sens', lambda: mu.sensitivity(x, y), arr,
                 raw='sensitivity(%s)' % short(x, y), x=fxs(x), y=fxs(y), bad=bad, same=True)
        log.events[-1]['same'] = bool(np.array_equal(x, ox) and np.array_equal(y, oy))
    for i in range(ctx.n(60, 400)):
        N = int(rng.integers(1, 9))
        x, y = rng.normal(size=(2, N * (N + 2))) * 10**rng.uniform(0, 3)
        for f in (corr, sens):
            f(x, y)
            f(y, x)
            f(x, x)
            f(x, -2.5 * x)
            if i % 4 == 0:
                f(np.round(x + 1).astype(int), np.round(y + 100).astype(int))
        if i % 4 == 1:
            for f in (corr, sens):
                for a, b in [('int16', 'int16'), ('int32', 'int32'), ('int16', 'int64'), ('uint16', 'uint16')]:
                    u = rng.integers(0 if a[0] == 'u' else -29000, 29000, x.size)
                    v = np.clip(u + rng.integers(-900, 900, x.size), 1, 32000)
                    f((u * (40 if a == 'int32' else 1)).astype(a), (v * (40 if a == 'int32' else 1)).astype(b))
        corr(3e3 * x, y)
        corr(x * 10.**rng.integers(-5, 3), y * 10.**rng.integers(-5, 3))
        # degrees of different size, as the field at depth or of high degree
        w = np.repeat(3.**-np.arange(N), 2 * np.arange(1, N + 1) + 1)
        corr(w * x * 1e-2, w * y)
        sens(w * x, w * y)
    for f in (corr, sens):
        f(np.arange(3.), np.arange(8.), bad=True)
        f(np.arange(8.), np.arange(3.), bad=True)
        f(np.ones((1, 3)), np.ones(3), bad=True)
        f(np.ones(3), np.ones((3, 1)), bad=True)
        f(np.ones((3, 1)), np.ones((3, 1)), bad=True)
        f(np.array(1.), np.array(1.), bad=True)
    ctx.trace('Trace_Field', log)
