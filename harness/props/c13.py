"""C13: Legendre functions."""
import numpy as np
from core import Log, load_code, farr, arr, short, sampled
from props.field_common import rand_theta


def run(ctx):
    load_code()
    import chaosmagpy.model_utils as mu
    rng = ctx.rng
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C13')

    def leg(N, th):
        log.call('legendre', lambda: mu.legendre_poly(N, th), arr,
                 raw='legendre_poly(%s)' % short(N, th), nmax=int(N), th=farr(th))
    spec = np.array([0., 180., 90., 1e-9, 180 - 1e-9, 45., 135., 1., 179., 30., 60.])
    for N in range(1, ctx.n(14, 31)):
        leg(N, spec)
        leg(N, rng.uniform(0, 180, 6))
        leg(N, float(rng.uniform(0, 180)))
        t = rng.uniform(0, 90, 3)
        leg(N, np.concatenate([t, 180 - t]))
    for N in ctx.n([30, 50], [40, 70, 100]):
        leg(N, np.array([0., 180., .01, 90.]))
        leg(N, rng.uniform(0, 180, 3))
    leg(ctx.n(160, 210), 66.)
    for sh in [(), (1,), (2, 3), (2, 1, 2), (1, 1)]:
        th = rand_theta(rng, int(np.prod(sh, dtype=int)), .2).reshape(sh)
        leg(4, th)
        if th.ndim:
            leg(3, th[::-1])
            leg(3, np.asfortranarray(th))
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            leg(5, rng.uniform(0, 180, n))
            leg(4, rand_theta(rng, n, .2)[:, None] + np.zeros(2))
    leg(3, np.array([0, 45, 90, 180]))
    leg(3, 60)
    ctx.trace('Trace_Field', log)
