"""C03: decimal years."""
import numpy as np
from core import Log, load_code, farr, arr, iarr, short, sampled
from props.c01 import YEARS


def run(ctx):
    cp = load_code()
    du = cp.data_utils
    rng = ctx.rng
    ctx.model('MC_Calendar', consts=dict(CAL_LO='1', CAL_HI='0') if ctx.quick
              else dict(CAL_LO='-500', CAL_HI='3500'), timeout=850)
    log = Log('C03')
    leaps = {None: True, True: True, False: False}
    flags = {True: [True, 1, np.True_], False: [False, 0, np.False_]}

    def conv(t, lp, positional=False):
        for op, f in (('d2m', du.dyear_to_mjd), ('m2d', du.mjd_to_dyear)):
            x = t if op == 'd2m' else (np.asarray(t) - 2000) * 365.25
            if isinstance(t, (int, float)):
                x = float(x)
            if isinstance(t, list) and op == 'm2d':
                x = x.tolist()
            if lp is None and positional:
                th = lambda: f(x)                             # noqa: E731
            elif positional:
                th = lambda: f(x, lp)                         # noqa: E731
            else:
                flag = flags[lp][int(rng.integers(0, 3))] if lp is not None else None
                th = lambda: f(x, leap_year=flag)             # noqa: E731
            log.call(op, th, arr, raw='%s(%s, %s)' % (f.__name__, short(x), lp),
                     t=farr(x), leap=leaps[lp])

    def mjds(t, lp):
        log.call('m2d', lambda: du.mjd_to_dyear(t, leap_year=lp), arr,
                 raw='mjd_to_dyear(%s, %s)' % (short(t), lp), t=farr(t), leap=leaps[lp])
        log.call('dround', lambda: du.dyear_to_mjd(du.mjd_to_dyear(t, lp), lp), arr,
                 raw='dyear_to_mjd(mjd_to_dyear(%s), %s)' % (short(t), lp), t=farr(t),
                 leap=leaps[lp])

    for lp in (None, True, False):
        for y in YEARS + [-1, -4, -5, -100, -400, -5000, 0]:
            conv(y, lp), conv(float(y), lp, True)
            conv(y + .5, lp), conv(np.nextafter(y + 1, 0.), lp)
            mj = np.asarray(du.mjd2000(max(y, 1), 1, 1))
            # around the turn of the year and the end of February
            mjds(mj + np.array([-1., -.5, -1e-6, 0., 1e-6, .5, 58., 59., 60., 364., 365., 366.]), lp)
        for _ in range(ctx.n(20, 400)):
            conv(float(rng.uniform(1, 9999)), lp)
            conv(float(rng.uniform(1995, 2030)), lp, True)
            mjds(float(rng.uniform(-7e5, 2.9e6)), lp)
            mjds(int(rng.integers(-3000, 12000)), lp)
        for shape in [(3,), (2, 2), (1, 3, 1)]:
            for _ in range(ctx.n(3, 30)):
                t = rng.uniform(1600, 2100, shape)
                conv(t, lp), conv(t.tolist(), lp), conv(t[..., ::-1], lp)
                conv(t.astype(np.int64), lp)
                mjds(rng.uniform(-40000, 40000, shape), lp)
        for n in (1201, 10007):        # large arrays
            with sampled(rng, n):
                conv(rng.uniform(1600, 2100, n), lp)
                conv(rng.integers(1600, 2100, n), lp)
                mjds(rng.uniform(-40000, 40000, (n, 2)), lp)
        # order is kept across year boundaries
        for y in (1899, 1900, 1999, 2000, 2003, 2004, 2100):
            t = np.sort(np.unique(np.concatenate([
                y + np.linspace(.9, 1.1, ctx.n(9, 81)), [y + 1., np.nextafter(y + 1., 0)]])))
            t = t[np.insert(np.diff(t) > 1e-9, 0, True)]
            log.call('mono', lambda: du.dyear_to_mjd(t, leap_year=lp), arr,
                     raw='dyear_to_mjd(%s,%s)' % (short(t), lp), t=farr(t))
            b = float(du.mjd2000(y + 1, 1, 1))
            s = np.sort(b + np.concatenate([np.linspace(-2, 2, ctx.n(9, 81)), [-1e-4, 1e-4]]))
            s = s[np.insert(np.diff(s) > 1e-6, 0, True)]
            log.call('mono', lambda: du.mjd_to_dyear(s, leap_year=lp), arr,
                     raw='mjd_to_dyear(%s,%s)' % (short(s), lp), t=farr(s))

    def isleap(y, integer=True):
        log.call('leap', lambda: du.is_leap_year(y), arr, raw='is_leap_year(%s)' % short(y),
                 years=iarr(y) if integer else dict(shape=[], data=[]), integer=integer)

    for y in YEARS + [0, -1, -4, -100, -400]:
        isleap(y)
    for tp in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
        hi = min(np.iinfo(tp).max, 9999)
        isleap(np.asarray(rng.integers(1, hi, 30)).astype(tp))
        isleap(tp(4)), isleap(tp(100))
    isleap(list(range(1895, 2105))), isleap(np.arange(1, 2402).reshape(-1, 7)[:200])
    isleap(np.arange(1, 9999, 101))
    if not ctx.quick:
        isleap(np.arange(1, 10000))
    with sampled(rng, 5003):
        isleap(rng.integers(1, 9999, 5003))
    for bad in (2000., [2000., 2001.], '2000', np.float32(4), [2000, 2001.5], np.datetime64('2000'),
                2000 + 0j):
        isleap(bad, integer=False)
    ctx.trace('Trace_Time', log)
