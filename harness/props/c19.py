"""C19: position of the Sun and zenith angle."""
import numpy as np
from core import Log, load_code, farr, arr, short, sampled
from props.frame_common import enc, rand_time, scal


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    rng = ctx.rng
    ctx.model('MC_Frames', consts=dict(FR_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C19')

    def sun(t):
        log.call('sun', lambda: cu.sun_position(t), enc('th', 'ph'),
                 raw='sun_position(%s)' % short(t), time=farr(t))

    def zen(t, th, ph):
        log.call('zenith', lambda: cu.zenith_angle(t, th, ph), arr,
                 raw='zenith_angle(%s)' % short(t, th, ph), time=farr(t), th=farr(th), ph=farr(ph))
    sun(np.arange(-36000., 36001., ctx.n(500., 60.)))
    sun(rng.permutation(np.arange(8000., 8366., ctx.n(3., .7))))
    sun(np.arange(0, 1, 1 / ctx.n(48, 480)))
    for t in (0, 0., 1, -1, -.25, .5, 365, 366, 1461., 36158., -36158., 9000.999999, -1e-9):
        sun(t)
        sun(np.array(t))
        sun(np.array([t]))
    for dt in ('int16', 'int32', '>i2'):
        sun(np.array([-30000, 0, 9000, 32000]).astype(dt))
    sun(np.array([0, 200]).astype('uint8'))
    for i in range(ctx.n(60, 800)):
        sh = [(), (1,), (4,), (2, 3), (2, 1, 2)][rng.integers(5)]
        sun(scal(rng, rand_time(rng, sh)))
    shapes = [(), (1,), (3,), (2, 3), (2, 1), (1, 3)]
    for i in range(ctx.n(120, 1200)):
        a, b, c = (shapes[rng.integers(len(shapes))] for _ in range(3))
        try:
            np.broadcast_shapes(a, b, c)
        except ValueError:
            a = b = c
        zen(scal(rng, rand_time(rng, a)), scal(rng, rng.uniform(0, 180, b)),
            scal(rng, rng.uniform(-400, 700, c)))
    # at and opposite to the sub-solar point, along its meridian, at the poles
    for i in range(ctx.n(40, 400)):
        t = float(rand_time(rng, ()))
        th, ph = cu.sun_position(t)
        zen(t, th, ph)
        zen(t, 180 - th, ph + 180)
        zen(t, th, ph + 360.)
        zen(t, 180. - th, ph)
        zen(t, th, ph + 90.)
        zen(t, 0., ph)
        zen(t, 180., 12.)
        zen(np.array([t, t + .5]), np.array([th, 180 - th]), ph)
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            sun(rand_time(rng, n)), sun(rand_time(rng, (2, n)))
            zen(rand_time(rng, n), rng.uniform(0, 180, n), rng.uniform(-400, 700, n))
            zen(1234.5, rng.uniform(0, 180, n), rng.uniform(-400, 700, n))
            zen(rand_time(rng, (n, 1)), rng.uniform(0, 180, 2), 40.)
    zen(10, 20, 30)
    ctx.trace('Trace_Frames', log)
