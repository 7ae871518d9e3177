"""C16: geodetic and geocentric coordinates."""
import numpy as np
from core import Log, load_code, farr, fx, short, sampled
from props.frame_common import enc, scal


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Frames', consts=dict(FR_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C16')

    def ab():
        e = basicConfig['params.ellipsoid']
        return dict(a=fx(e[0]), b=fx(e[1]))

    def gg(h, be, *v, kw=False):
        vec = len(v) == 2
        names = ('r', 'th', 'br', 'bt') if vec else ('r', 'th')
        k = dict(X=v[0], Z=v[1]) if kw and vec else {}
        p = () if k else v
        return log.call('gg2geo', lambda: cu.gg_to_geo(h, be, *p, **k), enc(*names),
                        raw='gg_to_geo(%s)' % short(h, be, *v), h=farr(h), be=farr(be), vec=vec,
                        x=farr(v[0] if vec else 0), z=farr(v[1] if vec else 0), **ab())

    def geo(r, th, *v, kw=False):
        vec = len(v) == 2
        names = ('h', 'be', 'x', 'z') if vec else ('h', 'be')
        k = dict(B_radius=v[0], B_theta=v[1]) if kw and vec else {}
        p = () if k else v
        return log.call('geo2gg', lambda: cu.geo_to_gg(r, th, *p, **k), enc(*names),
                        raw='geo_to_gg(%s)' % short(r, th, *v), r=farr(r), th=farr(th), vec=vec,
                        br=farr(v[0] if vec else 0), bt=farr(v[1] if vec else 0), **ab())

    def base(th, be):
        log.call('ggbase', lambda: cu.basevectors_gg(th, be), enc('b1', 'b2', 'b3'),
                 raw='basevectors_gg(%s)' % short(th, be), th=farr(th), be=farr(be))

    def some(n):
        for be in (0., 180., 90., 45., 1e-6, 179.999999, 89.999999, 90.000001, 1., 135.):
            for h in (0., 500., -10., 30000.):
                gg(h, be)
                geo(h + 6371.2, be)
                gg(h, be, 20000., -30000.)
                geo(h + 6371.2, be, 20000., -30000.)
        for dt in ('int16', 'int32', 'uint16', '>i2'):     # km fit into short integers
            gg(np.array([0, 400, 30000]).astype(dt), np.array([10., 90., 160.]))
            gg(np.array([450, 30000]).astype(dt), np.array([10., 120.]), 20000., -30000.)
        shapes = [(), (1,), (3,), (2, 3), (2, 1), (1, 3)]
        for i in range(n):
            a, b, c = (shapes[rng.integers(len(shapes))] for _ in range(3))
            try:
                np.broadcast_shapes(a, b, c)
            except ValueError:
                a = b = c
            h = np.asarray(rng.choice([0., 400., rng.uniform(-50, 40000), rng.uniform(0, 1000)]) +
                           rng.uniform(0, 10, a))
            be = np.asarray(rng.uniform(0, 180, b))
            if be.ndim and i % 3 == 0:
                be.flat[0] = rng.choice([0., 180., 90.])
            X, Z = rng.normal(size=(2,) + c) * 3e4
            h, be, X, Z = (scal(rng, v) for v in (h, be, X, Z))
            if i % 2:
                gg(h, be, X, Z, kw=i % 4 == 1)
                geo(6371.2 + h, be, X, Z, kw=i % 4 == 1)
            else:
                gg(h, be)
                geo(6371.2 + h, be)
            th = np.clip(np.asarray(be) + rng.uniform(-.2, .2), 0, 180)
            base(th, be)
        # inverse of each other
        for i in range(n // 2):
            h, be = rng.uniform(-20, 3000, 3), rng.uniform(0, 180, 3)
            if i % 3 == 0:
                be[0] = rng.choice([0., 90., 180.])
            r, th = cu.gg_to_geo(h, be)
            geo(r, th, *rng.normal(size=(2, 3)))
            h, be = cu.geo_to_gg(rng.uniform(6350, 9000, 3), rng.uniform(0, 180, 3))
            gg(h, be, *rng.normal(size=(2, 3)))
    some(ctx.n(80, 800))
    for X, Z in ((0., 0.), (0., 5.), (5., 0.), (np.zeros(2), np.zeros(2)), (np.zeros(2), 3.),
                 (0, 0), (np.zeros(2), np.array([0., 1.])), (-0., np.array([7., -7.]))):
        for h, be in ((450., 40.), (450., np.array([40., 0.])), (np.array([0., 9.]), 90.)):
            gg(h, be, X, Z)
            geo(6800. + h, be, X, Z)
    gg(100, 45)
    geo(6400, 45)
    gg(np.array([100, 200]), np.array([45, 90]), np.array([1, 2]), np.array([3, 4]))
    base(30., np.array([30., 31., 90.]))
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            h, be = rng.uniform(-10, 2000, n), rng.uniform(0, 180, n)
            X, Z = rng.normal(size=(2, n)) * 3e4
            gg(h, be), gg(h, be, X, Z), geo(h + 6371.2, be), geo(h + 6371.2, be, X, Z)
            gg(450., be, X, Z), geo(6800., be, X, Z)
            base(be, np.clip(be + .1, 0, 180))
    # other ellipsoids, read at the time of the call
    for e in ([6371.2, 6371.2], [6378.137, 6356.7523142], [6400., 6200.], [1000., 990.]):
        with basicConfig.context('params.ellipsoid', np.array(e)):
            if e[0] > 5000:
                some(ctx.n(6, 60))
            else:
                for be in (0., 33., 90., 170., 180.):
                    gg(20., be, 1., 2.)
                    geo(1100., be, 1., 2.)
    gg(100., 45.)
    geo(6400., 45.)
    ctx.trace('Trace_Frames', log)
