"""C10: broadcasting, grids and independence of the points."""
import itertools
import numpy as np
from core import Log, load_code, sampled
from props.field_common import (log_any_field, log_field, log_mfield, log_design, rand_theta, rand_phi, rand_co)
from props.pp_common import model_def


def variants(rng, x):
    """The same numbers in another container or memory layout."""
    x = np.asarray(x)
    w = rng.integers(0, 7)
    if w == 0:
        return x.tolist()
    if w == 1 and x.ndim >= 1:
        return np.asfortranarray(x)
    if w == 2 and x.ndim >= 1:
        y = np.zeros(x.shape + (2,))
        y[..., 0] = x
        return y[..., 0]
    if w == 3 and x.ndim >= 1:
        return np.ascontiguousarray(x[::-1])[::-1]
    if w == 4:
        x = x.copy()
        x.setflags(write=False)
        return x
    if w == 5 and x.ndim == 0:
        return float(x)
    return x


def run(ctx):
    load_code()
    from chaosmagpy.chaos import BaseModel, CHAOS
    rng = ctx.rng
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0'), timeout=850)
    log = Log('C10')
    shapes = [(), (1,), (3,), (2, 1), (1, 3), (2, 3), (2, 1, 1), (1, 1), (2, 1, 3), (4,), (2,), (2, 2)]

    def rr(sh):
        return rng.uniform(6000, 9000, sh)

    def th(sh):
        return rand_theta(rng, int(np.prod(sh, dtype=int)), .1).reshape(sh)

    def ph(sh):
        return rand_phi(rng, int(np.prod(sh, dtype=int))).reshape(sh)

    def pick():
        return shapes[rng.integers(len(shapes))]
    for i in range(ctx.n(220, 1500)):
        nmax = int(rng.integers(1, 4))
        s = [pick() for _ in range(4)]
        if i % 3:                       # mostly compatible combinations
            full = [(2, 3), (3,), (2, 1, 3), (2, 2)][rng.integers(4)]
            s = [full[rng.integers(0, len(full) + 1):] for _ in range(4)]
            s = [tuple(1 if rng.random() < .3 else v for v in x) for x in s]
        co = rand_co(rng, *s[0], nmax * (nmax + 2))
        source = [None, 'external'][i % 2]
        log_field(log, variants(rng, co), variants(rng, rr(s[1])), variants(rng, th(s[2])),
                  variants(rng, ph(s[3])), source=source)
        if i % 4 == 0:
            log_design(log, variants(rng, rr(s[1])), variants(rng, th(s[2])),
                       variants(rng, ph(s[3])), nmax, source=source)
    # integers of any kind
    for dt in (int, np.int32, np.float32, np.int16, np.uint8):
        for source in (None, 'external'):
            log_field(log, np.array([3, -2, 5, 1, 2, 3, 4, 5] if dt is not np.uint8
                                    else [3, 2, 5, 1, 2, 3, 4, 5], dtype=dt),
                      np.array([6371, 7000]).astype(dt if dt not in (np.uint8,) else int),
                      np.array([30, 120], dtype=dt), np.array([0, 90], dtype=dt), source=source)
            log_field(log, [3, -2, 5], 7000, 30, 40, source=source)
            log_design(log, 7000, dt(30), dt(40), 2, source=source)
    # the order and the company of a point do not matter
    n = ctx.n(24, 120)
    T, Ph, R = rand_theta(rng, n, .15), rand_phi(rng, n), rr(n)
    co = rand_co(rng, 15)
    for _ in range(3):
        p = rng.permutation(n)
        log_field(log, co, R[p], T[p], Ph[p])
        log_field(log, co, R[p], T[p], Ph[p], source='external')
    for k in range(6):
        log_field(log, co, R[k], T[k], Ph[k])
    for n in (1201, 5003):         # many points, poles among them
        for source in (None, 'external'):
            with sampled(rng, n, 6) as w:
                T, Ph, R = rand_theta(rng, n, .2), rand_phi(rng, n), rr(n)
                T[w.idx[2]] = rng.choice([0., 180.])        # (its warning has a cause)
                C = rand_co(rng, n, 8)
                log_field(log, rand_co(rng, 8), R, T, Ph, source=source)
                log_field(log, C, R, T, Ph, source=source)
                log_field(log, C, 6500., 50., 60., source=source)
                log_field(log, C[:, None], R[:, None], T[:2], Ph[:, None], source=source)
                log_field(log, rand_co(rng, 8), 6500., T, Ph[:2], grid=True, source=source)
                log_field(log, rand_co(rng, 8), 6500., T[:2], Ph, grid=True, source=source)
                log_field(log, C[:, None], R[:, None], T[:1], Ph[:2], grid=True, source=source)
    # grid=True
    for i in range(ctx.n(60, 400)):
        s = [(2,), (3,), (1,), (2, 3), (1, 2), (2, 2)]
        a, b = s[rng.integers(len(s))], s[rng.integers(len(s))]
        if i % 2:
            a, b = ((2,), (3,)) if i % 4 == 1 else ((3,), (2,))
        out = np.broadcast_shapes(a[:-1], b[:-1]) if len(a) == len(b) == 1 else a[:-1]
        cs = [(), (), (1, 1), out + (a[-1], b[-1]), (2,)][rng.integers(5)]
        rs = [(), (1,), (b[-1],), out + (a[-1], b[-1]), (a[-1], 1), (5,)][rng.integers(6)]
        co = rand_co(rng, *cs, 8)
        log_field(log, variants(rng, co), variants(rng, rr(rs)), variants(rng, th(a)),
                  variants(rng, ph(b)), grid=True, source=[None, 'external'][i % 2])
    for a, b in (((2, 1, 2), (3,)), ((2,), (1, 2, 3)), ((2, 2, 2), (1, 2, 2)), ((1, 2, 1, 2), (2,)),
                 ((2, 3, 2), (3, 2))):         # more dimensions, any memory layout
        co, R = rand_co(rng, 8), rr(())
        T, Ph = th(a), ph(b)
        for w in range(4):
            if w == 1:
                T, Ph = np.asfortranarray(T), np.asfortranarray(Ph)
            elif w == 2:
                T = np.moveaxis(np.moveaxis(T, 0, -1).copy(), -1, 0)
            elif w == 3:
                T = np.ascontiguousarray(T)[..., ::-1]
            log_field(log, co, R, T, Ph, grid=True, source=[None, 'external'][w % 2])
            if np.ndim(T) >= np.ndim(Ph):
                log_field(log, co, R, T, Ph[..., :1], source=[None, 'external'][w % 2])
    # models: time, position, grid
    for i in range(ctx.n(70, 500)):
        nmax = int(rng.integers(1, 3))
        order = int(rng.integers(1, 5))
        br = np.array([0., 50., 120.])
        c = rng.normal(size=(order, 2, nmax * (nmax + 2))) * 50
        m = log.define(model_def(br, c))
        source = ['internal', 'external'][i % 2]
        bm = BaseModel('m', breaks=br, order=order, coeffs=c, source=source)
        ch = CHAOS(breaks=br, order=order, coeffs_tdep=c, coeffs_static=c[-1:, :1])
        ms = log.define(model_def([0., 120.], c[-1:, :1]))
        full = [(2, 3), (3,), (2, 1, 3), (2, 2), ()][rng.integers(5)]
        s = [full[rng.integers(0, len(full) + 1):] for _ in range(4)]
        s = [tuple(1 if rng.random() < .3 else v for v in x) for x in s]
        if i % 7 == 0:
            s = [pick() for _ in range(4)]
        t = rng.choice([0., 50., 120., 13.25, 77., 119.], s[0])
        args = [variants(rng, v) for v in (t, rr(s[1]), th(s[2]), ph(s[3]))]
        w = i % 4
        if w in (0, 1):
            log_mfield(log, m, source, bm.synth_values, *args, who='BaseModel order=%d' % order)
        elif w == 2:
            log_mfield(log, m, 'internal', ch.synth_values_tdep, *args, who='CHAOS.tdep')
        else:
            args[0] = 0.
            log_mfield(log, ms, 'internal', ch.synth_values_static, *args, call_time=False,
                       who='CHAOS.static')
        # the documented grid: time (T, 1, 1), theta (N,), phi (M,)
        tg = rng.choice([0., 50., 120., 77.], (2, 1, 1))
        log_mfield(log, m, source, bm.synth_values, variants(rng, tg), 6500., variants(rng, th((2,))),
                   variants(rng, ph((3,))), grid=True, who='BaseModel grid')
        log_mfield(log, m, 'internal', ch.synth_values_tdep, 50., variants(rng, rr((2, 3))),
                   variants(rng, th((2,))), variants(rng, ph((3,))), grid=True, who='CHAOS grid')
    log_any_field(log, rng, ctx.n(90, 700))
    ctx.trace('Trace_Field', log)
