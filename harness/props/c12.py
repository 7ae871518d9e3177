"""C12: design matrices."""
import numpy as np
from core import Log, load_code, farr, fx, short, sampled
from props.field_common import (log_field, log_design, rand_theta, rand_phi, rand_co, enc3, opt,
                                a_ref, dim)


def run(ctx):
    load_code()
    import chaosmagpy.model_utils as mu
    rng = ctx.rng
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0'), timeout=850)
    ctx.model('MC_BSpline', consts=dict(PP_BIG='0'), timeout=850)
    log = Log('C12')
    for i in range(ctx.n(120, 900)):
        N = int(rng.integers(1, 8))
        nmin = int(rng.integers(1, N + 1)) if i % 2 else None
        mmax = int(rng.integers(0, N + 1)) if i % 3 else None
        source = [None, 'internal', 'external'][i % 3]
        sh = [(), (1,), (3,), (2, 2), (2, 1)][rng.integers(5)]
        n = int(np.prod(sh, dtype=int))
        th, ph = rand_theta(rng, n, .1).reshape(sh), rand_phi(rng, n).reshape(sh)
        r = rng.uniform(6000, 9000, sh) if i % 2 else 6700.
        log_design(log, r, th, ph, N, nmin=nmin, mmax=mmax, source=source)
        # product with a coefficient vector is the synthesis
        co = rand_co(rng, dim(nmin or 1, N, N if mmax is None else mmax))
        kw = {k: v for k, v in dict(nmin=nmin, mmax=mmax, source=source).items() if v is not None}
        ev = dict(m=0, co=farr(co), time=farr([0.]), ext=2, nu=0, nmin=opt(nmin), nmax=N,
                  mmax=opt(mmax), src=source or 'internal', grid=False, a=a_ref(), r=farr(r),
                  th=farr(th), ph=farr(ph), same=True)
        log.call('field', lambda: tuple(A @ co for A in mu.design_gauss(r, th, ph, N, **kw)), enc3,
                 raw='design_gauss(%s) @ co' % short(r, th, ph, N, **kw), **ev)
    for sa, sb, sc in (((2, 1), (3,), ()), ((3,), (2, 1), (1,)), ((2, 3), (3,), (2, 1)),
                       ((2,), (3,), ()), ((2, 2), (3,), ()), ((), (), (4,)), ((1,), (1, 1), (2,))):
        log_design(log, np.full(sa, 6500.), rand_theta(rng, int(np.prod(sb, dtype=int))).reshape(sb),
                   rand_phi(rng, int(np.prod(sc, dtype=int))).reshape(sc), 2)

    def dm(kn, k, nt, t, r, th, ph, ns=None, source=None):
        kw = {a: b for a, b in dict(n_static=ns, source=source).items() if b is not None}
        log.call('dm', lambda: mu.design_matrix(kn, k, nt, t, r, th, ph, **kw), enc3,
                 raw='design_matrix(%s)' % short(kn, k, nt, t, r, th, ph, **kw),
                 kn=[fx(v) for v in kn], k=int(k), ntdep=int(nt), nstat=opt(ns),
                 src=source or 'internal', a=a_ref(), time=farr(t), r=farr(r), th=farr(th),
                 ph=farr(ph))
    for i in range(ctx.n(50, 350)):
        k = int(rng.integers(1, 6))
        P = int(rng.integers(1, 5))
        br = np.cumsum(rng.uniform(10, 100, P + 1)) - 50
        if i % 3 == 0:
            br = np.round(br)
        kn = mu.augment_breaks(br, k)
        if i % 4 == 0 and k > 1:            # repeated interior knot
            kn = np.sort(np.append(kn, br[P // 2]))
            kn = mu.augment_breaks(br, k) if P < 2 else kn
        nt = int(rng.integers(1, 4))
        ns = [None, nt, nt + 1, nt + 2][rng.integers(4)]
        n = int(rng.integers(1, 5))
        t = rng.uniform(br[0], br[-1], n)
        q = rng.random(n) < .4
        t[q] = rng.choice(br, q.sum())
        dm(kn, k, nt, t, rng.uniform(6000, 8000, n), rng.uniform(1, 179, n), rand_phi(rng, n), ns,
           [None, 'internal', 'external'][i % 3])
    for nt, ns in ((4, 5), (5, 6), (6, 7), (6, None), (5, 5), (7, 8)):       # higher degrees
        kn = mu.augment_breaks(np.array([0., 10., 25.]), 2)
        dm(kn, 2, nt, np.array([5.25, 25.]), np.array([6400., 7000.]), np.array([50., 100.]),
           np.array([60., -20.]), ns, [None, 'external'][nt % 2])
    for n in (1201, 5003):          # many data
        with sampled(rng, n, 4):
            br = np.cumsum(rng.uniform(10, 100, 9))
            kn = mu.augment_breaks(br, 3)
            t = np.concatenate([br, rng.uniform(br[0], br[-1], n - br.size)])
            dm(kn, 3, 1, rng.permutation(t), rng.uniform(6000, 8000, n), rng.uniform(1, 179, n),
               rand_phi(rng, n), 2, [None, 'external'][n % 2])
            log_design(log, 6500., rand_theta(rng, n, .0), rand_phi(rng, n), 4, nmin=2, mmax=2)
    with sampled(rng, 20003, 4):
        log_design(log, 6500., rand_theta(rng, 20003, .0), rand_phi(rng, 20003), 5)
    # the same points in another order; other points of the same ends, number and sum
    for sh in ((4,), (2, 3)):
        n = int(np.prod(sh))
        th, ph, r = np.round(rng.uniform(5, 175, n)), rng.integers(-180, 180, n) + 0., rng.integers(6000, 7000, n) + 0.
        q = np.concatenate(([0], rng.permutation(np.arange(1, n - 1)), [n - 1]))
        d = np.zeros(n)
        d[1], d[2] = .5, -.5
        for a, b, c in ((r, th, ph), (r, th[q], ph), (r, th, ph[q]), (r[q], th, ph), (r, th + d, ph), (r, th, ph + d),
                        (r + d, th, ph)):
            log_design(log, a.reshape(sh), b.reshape(sh), c.reshape(sh), 3, nmin=2)
        for a, b, c in ((r, th, ph), (r, th[q], ph), (r, th, ph[q]), (r[q], th, ph), (r, th + d, ph)):
            dm(mu.augment_breaks(np.array([0., 10., 20.]), 3), 3, 2, np.full(n, 5.) + d, a, b, c)
    kn = mu.augment_breaks(np.array([0., 10., 20.]), 3)
    for nt, ns in ((2, 1), (3, 2), (3, 1)):
        dm(kn, 3, nt, np.array([5.]), np.array([6400.]), np.array([50.]), np.array([60.]), ns)
    ctx.trace('Trace_Field', log)
