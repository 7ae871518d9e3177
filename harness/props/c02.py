"""C02: timestamp inverts mjd2000."""
import numpy as np
from core import Log, load_code, farr, arr, big, short, sampled, thin

EPOCH = np.datetime64('2000-01-01', 'ns').astype('int64')


def enc_stamp(r):
    a = thin(r)
    unit = np.datetime_data(a.dtype)[0] if a.dtype.kind == 'M' else a.dtype.str
    ns = a.astype('datetime64[ns]').astype('int64').ravel().tolist()
    if np.isnat(a).any():
        unit = 'NaT'
    return dict(shape=list(a.shape), unit=unit, ns=[big(v - int(EPOCH)) for v in ns])


def run(ctx):
    cp = load_code()
    du = cp.data_utils
    rng = ctx.rng
    ctx.model('MC_Calendar', consts=dict(CAL_LO='1', CAL_HI='0') if ctx.quick
              else dict(CAL_LO='1500', CAL_HI='2400'), timeout=850)
    log = Log('C02')

    def both(t):
        log.call('stamp', lambda: du.timestamp(t), enc_stamp, raw='timestamp(%s)' % short(t),
                 t=farr(t))
        log.call('round', lambda: du.mjd2000(du.timestamp(t)), arr,
                 raw='mjd2000(timestamp(%s))' % short(t), t=farr(t))

    fixed = [0, 0., 1, -1, .5, -.5, 0.53245, 1/86400e9, 1e-9, -1e-9, 366, 365.25, 8000.123456789,
             -10957, -106751, -106751.9, 95794.9, 95794, 1e5/3, -1e5/3, 1 - 2**-40, -2**-40]
    for t in fixed:
        both(t)
        both(np.float64(t))
    for _ in range(ctx.n(25, 600)):
        both(float(rng.uniform(-106751.9, 95794.9)))
        both(float(rng.uniform(-10, 10)))
        both(float(rng.integers(-106751, 95794) + rng.integers(0, 86400) / 86400))
        both(int(rng.integers(-106751, 95794)))
    for shape in [(1,), (4,), (2, 3), (2, 1, 2), (0,)]:
        for _ in range(ctx.n(3, 30)):
            t = rng.uniform(-20000, 20000, shape)
            both(t)
            both(t.tolist())
            both(np.asfortranarray(t))
            both(t.astype(int))
            both(t[..., ::-1])
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            both(rng.uniform(-20000, 20000, n))
            both(rng.uniform(-20000, 20000, (2, n)))
            both(rng.integers(-20000, 20000, n))
    ctx.trace('Trace_Time', log)
    ctx.assumptions += ['domain: offsets from 2000 and dates both representable in 64-bit '
                        'nanoseconds (-106751.9..95794.9 days)']
