"""C01: mjd2000 counts days of the proleptic Gregorian calendar."""
import datetime as dt
import numpy as np
from core import Log, load_code, iarr, arr, short, sampled

CUM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NAMES = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'nanosecond']
YEARS = [1, 2, 3, 4, 99, 100, 101, 399, 400, 999, 1000, 1582, 1600, 1677, 1678, 1699, 1700,
         1858, 1899, 1900, 1901, 1904, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2038, 2099,
         2100, 2199, 2261, 2262, 2263, 2400, 2999, 3000, 9998, 9999]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return 29 if (m == 2 and leap(y)) else CUM[m-1]


def run(ctx):
    cp = load_code()
    du = cp.data_utils
    rng = ctx.rng
    if ctx.quick:
        ctx.model('MC_Calendar', consts=dict(CAL_LO='1', CAL_HI='0'))
    else:
        ctx.model('MC_Calendar', consts=dict(CAL_LO='1', CAL_HI='9999'), timeout=850)
    log = Log('C01')

    def full(args):
        return list(args) + [None, 1, 1, 0, 0, 0, 0, 0][len(args):]

    def mjd(*args, kw=False, conv=lambda x: x):
        a = full(args)
        if kw:
            k = dict(zip(NAMES, [conv(x) for x in a]))
            th = lambda: du.mjd2000(**k)                             # noqa: E731
        else:
            th = lambda: du.mjd2000(*[conv(x) for x in args])        # noqa: E731
        log.call('mjd', th, arr, raw='mjd2000(%s)' % short(*args), args=[iarr(x) for x in a])

    # scalars: every special year at its month ends and first days
    for y in YEARS:
        for m in (1, 2, 3, 12):
            mjd(y, m, 1)
            mjd(y, m, mlen(y, m), int(rng.integers(0, 24)), int(rng.integers(0, 60)),
                int(rng.integers(0, 60)))
        mjd(y, 2, 29)                     # valid only in leap years
    mjd(2003)
    mjd(2003, 5)
    # invalid calendar dates
    for y in (1999, 2000, 1900, 2100):
        for m in range(1, 13):
            mjd(y, m, mlen(y, m) + 1)
            mjd(y, m, mlen(y, m))
        mjd(y, 0, 1), mjd(y, 13, 1), mjd(y, 1, 0), mjd(y, 1, 32)
    for m, d in ((0, 0), (12, 32), (99, 1), (1, 99), (2, 30), (2, 31), (100, 1), (1, 100)):
        mjd(2001, m, d)
    # carries of the time of day
    big_ones = [0, 1, 23, 24, 25, 59, 60, 61, 1000, 86399, 86400, 86401, 10**6, 10**7]
    for k in range(3, 8):
        for v in big_ones + [10**9, 86400 * 10**9 if k == 7 else 10**8]:
            if k == 3 and v > 10**6:
                continue
            if k == 4 and v > 10**8:
                continue
            a = [int(rng.choice([1999, 2000, 2000, 1951, 2024])), 2, 28, 0, 0, 0, 0, 0]
            a[k] = int(v)
            mjd(*a)
    # fractions resolved close to the origin: every unit must be seen
    for a in [(2000, 1, 1, 0, 0, 0, 0, 1), (2000, 1, 1, 0, 0, 0, 1, 0), (2000, 1, 1, 0, 0, 1),
              (2000, 1, 1, 0, 1), (2000, 1, 1, 1), (1999, 12, 31, 23, 59, 59, 999999, 999),
              (2000, 1, 1, 0, 0, 0, 0, 999), (2000, 1, 1, 0, 0, 0, 999, 999)]:
        mjd(*a)
        mjd(*a, kw=True)

    def rand(shape=(), lo=1, hi=9999):
        y = rng.integers(lo, hi + 1, shape)
        m = rng.integers(1, 13, shape)
        d = rng.integers(1, 29, shape)
        return y, m, d

    n = ctx.n(60, 1500)
    for _ in range(n):
        y, m, d = rand((), *((1, 9999) if rng.random() < .5 else (1990, 2030)))
        a = [int(y), int(m), int(rng.integers(1, mlen(int(y), int(m)) + 1)),
             int(rng.integers(0, 30)), int(rng.integers(0, 70)), int(rng.integers(0, 70)),
             int(rng.integers(0, 10**6)), int(rng.integers(0, 10**3))]
        k = int(rng.integers(1, 9))
        mjd(*a[:k], kw=bool(rng.random() < .3))
    # arrays and broadcasting, containers and integer types
    shapes = [((3,), (3,)), ((3,), ()), ((), (4,)), ((2, 1), (3,)), ((2, 3), (3,)), ((1,), (5,)),
              ((2, 1, 2), (3, 1)), ((4,), (3,)), ((2, 3), (2,)), ((1, 3), (2, 1))]
    convs = [lambda x: x, lambda x: x.tolist() if isinstance(x, np.ndarray) else x,
             lambda x: np.asarray(x, dtype=np.int32), 
             lambda x: np.asarray(x, dtype=np.int16) if np.max(x) < 30000 else x,
             lambda x: np.asfortranarray(x)]
    for s, t in shapes:
        for rep in range(ctx.n(3, 20)):
            conv = convs[rep % len(convs)]
            y, m, d = rand(s)[0], rand(t)[1], rand(s if rep % 2 else t)[2]
            h = rng.integers(0, 24, t)
            us = rng.integers(0, 10**6, s)
            mjd(y, m, d, h, 0, int(rng.integers(0, 60)), us, conv=conv)
    # one invalid date among valid ones must not pass
    for _ in range(ctx.n(4, 40)):
        y, m, d = rand((5,))
        m[2], d[2], y[2] = 2, 29, int(rng.choice([1900, 2001, 2100, 2023]))
        mjd(y, m, d)
    for n in (20, 60, 400):
        y, m, d = rand((n,), 1990, 2030)
        mjd(y, m, d)
        j = int(rng.integers(0, n))
        m[j], d[j] = [(2, 30), (4, 31), (13, 1), (1, 32)][int(rng.integers(4))]
        mjd(y, m, d)
    # non-contiguous input
    y, m, d = rand((10,))
    mjd(y[::2], m[::-2], d[1::2])

    # datetime objects and datetime64 of several units
    def comps(o):
        return [o.year, o.month, o.day, getattr(o, 'hour', 0), getattr(o, 'minute', 0),
                getattr(o, 'second', 0), getattr(o, 'microsecond', 0), 0]

    def mjd_dt(val, objs, shape, ns=None):
        cs = np.array([comps(o) for o in objs], dtype=object).reshape(len(objs), 8)
        if ns is not None:
            cs[:, 7] = ns
        log.call('mjd_dt', lambda: du.mjd2000(val), arr, raw='mjd2000(%r)' % (val,),
                 args=[iarr(cs[:, k].reshape(shape)) for k in range(8)])

    def rdt():
        y, m, d = (int(v) for v in rand((), *((1, 9999) if rng.random() < .5 else (1970, 2030))))
        return dt.datetime(y, m, int(rng.integers(1, mlen(y, m) + 1)), int(rng.integers(0, 24)),
                           int(rng.integers(0, 60)), int(rng.integers(0, 60)),
                           int(rng.integers(0, 10**6)))
    for o in [dt.datetime(1, 1, 1), dt.datetime(9999, 12, 31, 23, 59, 59, 999999),
              dt.datetime(2000, 1, 1), dt.datetime(2000, 1, 1, 0, 0, 0, 1),
              dt.datetime(1999, 12, 31, 23, 59, 59, 999999), dt.datetime(1600, 2, 29, 12)]:
        mjd_dt(o, [o], ())
        mjd_dt(np.datetime64(o), [o], ())
    for _ in range(ctx.n(8, 150)):
        o = rdt()
        mjd_dt(o, [o], ())
        os_ = [rdt() for _ in range(4)]
        mjd_dt(np.array(os_), os_, (4,))
        mjd_dt(list(os_), os_, (4,))
        mjd_dt(np.array(os_).reshape(2, 2), os_, (2, 2))
        mjd_dt(np.array(os_, dtype='datetime64[us]'), os_, (4,))
        o0 = [x.replace(microsecond=0) for x in os_]
        mjd_dt(np.array(o0, dtype='datetime64[s]'), o0, (4,))
        ol = [x.replace(microsecond=x.microsecond // 1000 * 1000) for x in os_]
        mjd_dt(np.array(ol, dtype='datetime64[ms]'), ol, (4,))
        oh = [x.replace(microsecond=0, second=0, minute=0) for x in os_]
        mjd_dt(np.array(oh, dtype='datetime64[h]'), oh, (4,))
        od = [x.replace(microsecond=0, second=0, minute=0, hour=0) for x in os_]
        mjd_dt(np.array(od, dtype='datetime64[D]'), od, (4,))
        oi = [x.replace(year=int(rng.integers(1700, 2250))) if (x.month, x.day) != (2, 29) else
              x.replace(year=2004) for x in os_]
        ns = rng.integers(0, 1000, 4)
        mjd_dt(np.array(oi, dtype='datetime64[ns]') + ns.astype('timedelta64[ns]'), oi, (4,), ns)
    # large arrays of them
    for n in (1201, 5003):
        os_ = [rdt() for _ in range(12)] * (n // 12 + 1)
        os_ = [os_[k] for k in rng.permutation(n)]
        w = sampled(rng, n)
        for tp, f in (('datetime64[us]', lambda x: x), (object, lambda x: x),
                      ('datetime64[ms]', lambda x: x.replace(microsecond=x.microsecond // 1000 * 1000)),
                      ('datetime64[s]', lambda x: x.replace(microsecond=0))):
            o = [f(x) for x in os_]
            val = np.array(o, dtype=tp)
            cs = np.array([comps(o[k]) for k in w.idx], dtype=object)
            with w:
                log.call('mjd_dt', lambda: du.mjd2000(val), arr, raw='mjd2000(%d of %s)' % (n, tp),
                         args=[iarr(cs[:, k]) for k in range(8)])
        y, m, d = rand((n,))
        with w:
            mjd(y, m, d, rng.integers(0, 24, n), 5, rng.integers(0, 60, n), rng.integers(0, 10**6, n),
                rng.integers(0, 1000, n))
            mjd(2005, m, d)
    ctx.trace('Trace_Time', log)
    ctx.assumptions += ['years 1..9999 for component input; the odometer model covers the listed '
                        'special years (quick) or all years (thorough)']
