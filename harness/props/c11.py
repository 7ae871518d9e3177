"""C11: poles and colatitude bounds."""
import numpy as np
from core import Log, load_code
from props.field_common import (log_any_field, log_field, log_mfield, log_design, rand_theta, rand_phi, rand_co)
from props.pp_common import model_def

EPS180 = np.nextafter(180., 360.)


def run(ctx):
    load_code()
    from chaosmagpy.chaos import BaseModel, CHAOS
    rng = ctx.rng
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C11')
    near = [0., 180., 1e-12, 180 - 1e-12, 1e-9, 1e-5, 179.99999, 90., 45., 135., .1, 179.9,
            np.nextafter(180., 0), 1e-20, -0.0]

    def thetas(n):
        th = rng.choice(near, n)
        k = rng.random(n) < .3
        th[k] = rng.uniform(0, 180, k.sum())
        return th
    for pole in (0., 180., -0.0):
        for ph in (0., 90., -77., 180., 365.):
            for source in ('internal', 'external'):
                for N in (1, 3):
                    log_field(log, rand_co(rng, N * (N + 2)), 6400., pole, ph, source=source)
                log_design(log, 6400., pole, ph, 3, source=source)
    for i in range(ctx.n(160, 1200)):
        N = int(rng.integers(1, 6))
        n = int(rng.integers(1, 6))
        nmin = int(rng.integers(1, N + 1)) if i % 4 == 0 else None
        mmax = int(rng.integers(0, N + 1)) if i % 5 == 0 else None
        source = ['internal', 'external'][i % 2]
        th = thetas(n)
        co = rand_co(rng, (N + 1)**2 - 1)
        log_field(log, co, rng.uniform(6000, 8000, n), th, rand_phi(rng, n), nmin=nmin,
                  nmax=N, mmax=mmax, source=source)
        log_design(log, rng.uniform(6000, 8000, n), th, rand_phi(rng, n), N,
                   nmin=nmin, mmax=mmax, source=source)
    # colatitudes of other shapes, and grids, with poles
    for i in range(ctx.n(40, 300)):
        sh = [(2, 2), (2, 1), (1, 3), (), (3, 1, 2)][i % 5]
        th = thetas(int(np.prod(sh, dtype=int))).reshape(sh)
        source = ['internal', 'external'][i % 2]
        log_field(log, rand_co(rng, 15), 6500., th, rand_phi(rng, 2), source=source)
        log_design(log, 6500., th, rand_phi(rng, 2), 3, source=source)
        log_field(log, rand_co(rng, 15), 6500., thetas(3), rand_phi(rng, 2), grid=True,
                  source=source)
        t3 = np.array([0., rng.uniform(1, 179), 180.])
        log_field(log, rand_co(rng, 15), 6500., rng.permutation(t3), rand_phi(rng, 3),
                  grid=True, source=source)
        log_field(log, rand_co(rng, 15), 6500, [0, 90, 180], [0, 90, 180], source=source)
    # outside of the bounds, alone and together with poles and valid points
    bad = [-1e-12, -1., -90., EPS180, 180.1, 181., 360., -180., 1e6, np.inf, -np.inf]
    for b in bad:
        for other in ([], [90.], [0.], [180.], [0., 180.], [0., 90., 180.], [45., 1e-9]):
            th = np.array(other + [b])
            for k in {0, len(th) - 1}:
                t = np.roll(th, k)
                source = str(rng.choice(['internal', 'external']))
                log_field(log, rand_co(rng, 3), 6400., t, 10., source=source)
                log_design(log, 6400., t, 10., 1, source=source)
        log_field(log, rand_co(rng, 3), 6400., np.array([b, 10.]), np.array([0., 1.]), grid=True)
        log_field(log, rand_co(rng, 3), 6400., b, 10.)
    # both sides of the bounds in one call
    for t in ([-1., 181.], [-1., 181., 0.], [0., -1., 180., 200.]):
        log_field(log, rand_co(rng, 3), 6400., t, 10.)
        log_design(log, 6400., t, 10., 1)
    # missing (NaN) colatitudes, radii or longitudes do not hide poles and bad values
    for i in range(ctx.n(40, 250)):
        source = ['internal', 'external'][i % 2]
        th = np.array([[0.], [180.], [0., 180.], [60.], [90., 0.], [-1e-12], [EPS180], [180.1, 0.],
                       [45., -90.]][i % 9] + [np.nan])
        th = rng.permutation(th)
        r = np.full(th.size, 6500.)
        ph = rand_phi(rng, th.size)
        if i % 3 == 1:
            r[rng.integers(th.size)] = np.nan
        if i % 4 == 1:
            ph[rng.integers(th.size)] = np.nan
        sh = (-1, 1) if i % 5 == 2 else (-1,)
        log_field(log, rand_co(rng, 15), r.reshape(sh), th.reshape(sh), ph.reshape(sh), source=source)
        log_design(log, r.reshape(sh), th.reshape(sh), ph.reshape(sh), 2, source=source)
        log_field(log, rand_co(rng, 8), 6500., th, rand_phi(rng, 2), grid=True, source=source)
    # models
    for i in range(ctx.n(30, 200)):
        N = int(rng.integers(1, 4))
        c = rng.normal(size=(2, 2, N * (N + 2))) * 50
        br = np.array([0., 50., 120.])
        m = log.define(model_def(br, c))
        source = ['internal', 'external'][i % 2]
        bm = BaseModel('m', breaks=br, order=2, coeffs=c, source=source)
        ch = CHAOS(breaks=br, order=2, coeffs_tdep=c, coeffs_static=c[-1:, :1])
        ms = log.define(model_def([0., 120.], c[-1:, :1]))
        th = thetas(3)
        log_mfield(log, m, source, bm.synth_values, np.array([1., 50., 60.]), 6400., th,
                   rand_phi(rng, 3), who='BaseModel')
        log_mfield(log, ms, 'internal', ch.synth_values_static, 0., 6400., th, rand_phi(rng, 3),
                   call_time=False, who='CHAOS.static')
        th[rng.integers(3)] = bad[i % len(bad)]
        log_mfield(log, m, 'internal', ch.synth_values_tdep, 10., 6400., th, 30., who='CHAOS.tdep')
    log_any_field(log, rng, ctx.n(40, 300), poles=.35)
    ctx.trace('Trace_Field', log)
