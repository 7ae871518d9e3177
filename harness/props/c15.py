"""C15: spherical and Cartesian coordinates, azimuth, local time."""
import numpy as np
from core import Log, load_code, farr, arr, short, sampled
from props.frame_common import enc, scal


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    rng = ctx.rng
    ctx.model('MC_Frames', consts=dict(FR_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C15')

    def s2c(r, th, ph):
        log.call('s2c', lambda: cu.spherical_to_cartesian(r, th, ph), enc('x', 'y', 'z'),
                 raw='spherical_to_cartesian(%s)' % short(r, th, ph), r=farr(r), th=farr(th),
                 ph=farr(ph))

    def c2s(x, y, z):
        log.call('c2s', lambda: cu.cartesian_to_spherical(x, y, z), enc('r', 'th', 'ph'),
                 raw='cartesian_to_spherical(%s)' % short(x, y, z), x=farr(x), y=farr(y), z=farr(z))

    def az(ph):
        log.call('azim', lambda: cu.center_azimuth(ph), arr,
                 raw='center_azimuth(%s)' % short(ph), ph=farr(ph))

    def lt(t, ph):
        log.call('lt', lambda: cu.local_time(t, ph), arr,
                 raw='local_time(%s)' % short(t, ph), time=farr(t), ph=farr(ph))
    for th in (0., 30., 90., 150., 180.):
        for ph in (-180., -90., 0., 45., 180., 270., 360., 725.):
            s2c(6371.2, th, ph)
            s2c(1, int(th), int(ph))
    for x in (-1., 0., 2.):
        for y in (-3., 0., 1.):
            for z in (-1., 0., 5.):
                if True:         # also the centre
                    c2s(x, y, z)
                    c2s(np.array(x), np.array([y]), np.array([z]))
                    c2s(int(x), int(y), int(z))
    for dt in ('int16', 'int32', 'uint16', '>i2'):      # km fit into short integers
        v = np.array([[6371, 4000, 30000], [3000, 6371, 0], [100, 7000, 20000]])
        c2s(*(v * (1 if dt[0] == 'u' else np.array([[1], [-1], [-1]]))).astype(dt))
    shapes = [(), (1,), (3,), (2, 3), (2, 1), (1, 3)]
    for i in range(ctx.n(120, 1200)):
        a, b, c = (shapes[rng.integers(len(shapes))] for _ in range(3))
        try:
            sh = np.broadcast_shapes(a, b, c)
        except ValueError:
            a = b = c
        th = rng.uniform(0, 180, b)
        ph = rng.uniform(-400, 800, c)
        r = rng.uniform(.1, 10**rng.uniform(0, 5), a)
        s2c(scal(rng, r), scal(rng, th), scal(rng, ph))
        v = rng.normal(size=(3,) + np.broadcast_shapes(a, b, c)) * 10.**rng.uniform(-2, 4)
        if i % 4 == 0:
            v[rng.integers(3)] = 0.
        if i % 3 == 0:           # close to an axis
            v[rng.permutation(3)[:int(rng.integers(1, 3))]] *= 10.**rng.uniform(-13, -2)
        if i % 7 == 0:
            v = np.round(v) + (np.abs(np.round(v)).sum(0) == 0)
        small = np.abs(v).max(0) < 1e-3     # (24 decimals in the specification)
        v[2] = np.where(small, 5., v[2])
        c2s(scal(rng, v[0]), scal(rng, v[1]), scal(rng, v[2]))
    for d in (1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12):
        for z in (-1., 1., 6371.2):
            c2s(d * abs(z), 0., z)
            c2s(np.array([0., -d, d]), np.array([d, 0., -d]), z)
            s2c(abs(z), np.degrees(d), 10.)
            s2c(abs(z), 180 - np.degrees(d), 190.)
    for k in (-9, -8, -6, -4, -3, 3, 6, 8, 11):      # tiny and huge distances
        v = rng.normal(size=(3, 2)) * 10.**k
        c2s(*v)
        c2s(v[0, 0], 0., v[2, 1])
        s2c(10.**k, rng.uniform(0, 180, 2), rng.uniform(-400, 800, 2))
    specials = [0., 180., -180., 360., -360., 540., -540., 720., 179.999999, -179.999999, 180.000001,
                -180.000001, 359.999999, 1e-12, -1e-12, 90., 270., -90., -270., 450., 1e5, -1e5,
                np.nextafter(180., 200.), np.nextafter(-180., -200.), np.nextafter(360., 0.),
                900., -900., 181., 1260.]
    for s in specials:
        az(s)
        az(np.array([s]))
        az(int(s))
    az(np.array(specials))
    az(np.array(specials[:24]).reshape(2, 3, 4))
    az(np.arange(-800, 801, 45))
    for i in range(ctx.n(30, 300)):
        az(rng.uniform(-2000, 2000, (2, 5)))
    for t in (0., .5, -.25, 1234.75, -1e-20, -1e-14, 1., 366., -100.125, 0.999999999):
        for ph in (0., 180., -180., 90., -90., 360., 15., -1e-13, 359.99, 720., 1e-12):
            lt(t, ph)
    for i in range(ctx.n(60, 600)):
        a, b = (shapes[rng.integers(len(shapes))] for _ in range(2))
        try:
            np.broadcast_shapes(a, b)
        except ValueError:
            a = b
        lt(scal(rng, rng.uniform(-40000, 40000, a)), scal(rng, rng.uniform(-400, 800, b)))
        lt(np.round(rng.uniform(-4000, 4000, a)).astype(int), rng.integers(-180, 360, b))
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            th, ph = rng.uniform(0, 180, n), rng.uniform(-400, 800, n)
            r, t = rng.uniform(1, 9000, n), rng.uniform(-4000, 9000, n)
            s2c(r, th, ph), s2c(6371.2, th, ph), s2c(r[:, None], th[:, None], np.arange(2.))
            c2s(*rng.normal(size=(3, n))), c2s(*rng.normal(size=(3, n)) * 6371.2)
            az(ph), az(ph * 10), lt(t, ph), lt(t, 77.), lt(t[:, None], np.array([10., 200.]))
    ctx.trace('Trace_Frames', log)
