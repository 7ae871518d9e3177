"""C08: field components are the negative gradient of the potential."""
import numpy as np
from core import Log, load_code, short, sampled
from props.field_common import (log_any_field, log_field, log_mfield, log_design, rand_radius, rand_theta,
                                rand_phi, rand_co, dim)
from props.pp_common import model_def


def run(ctx):
    cp = load_code()
    from chaosmagpy.chaos import BaseModel, CHAOS
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C08')
    # every single coefficient by itself: sign, order, azimuthal dependence
    N = 4 if ctx.quick else 7
    for source in ('internal', 'external'):
        for i in range(N * (N + 2)):
            co = np.zeros(N * (N + 2))
            co[i] = float(rng.choice([1., -2.5, 1e4]))
            log_field(log, co, rand_radius(rng, source), rand_theta(rng, 2), rand_phi(rng, 2),
                      source=source)
    # full vectors
    for i in range(ctx.n(90, 700)):
        nmax = int(rng.choice([1, 2, 3, 5, 8, 13]))
        source = [None, 'internal', 'external'][i % 3]
        n = 3
        r = rng.uniform(3000, 9000, n) if i % 2 else rand_radius(rng, source)
        log_field(log, rand_co(rng, nmax * (nmax + 2)), r, rand_theta(rng, n), rand_phi(rng, n),
                  source=source)
    # degrees from nmin on, orders up to mmax
    for nmin in range(1, ctx.n(6, 9)):
        for source in ('internal', 'external'):
            for nmax in (nmin, nmin + 1, nmin + 3):
                for mmax in (None, int(rng.integers(0, nmax + 1))):
                    n = dim(nmin, nmax, nmax if mmax is None else mmax)
                    kw = {} if mmax is None else dict(mmax=mmax)
                    log_field(log, rand_co(rng, n), rng.uniform(3000, 9000, 2), rand_theta(rng, 2),
                              rand_phi(rng, 2), source=source, nmin=nmin, nmax=nmax, **kw)
    # high degree
    for nmax in ctx.n([20, 30], [20, 30, 45, 60]):
        for source in ('internal', 'external'):
            r = 6371.2 * rng.uniform(1., 1.2) if source == 'internal' else 6371.2 * rng.uniform(.8, 1)
            for th in (rand_theta(rng, 1)[0], .5, 179.):
                log_field(log, rand_co(rng, nmax * (nmax + 2)), r, th, rand_phi(rng, 1)[0],
                          source=source)
    for a, b in ctx.n([(89, 90), (110, 110)], [(89, 91), (120, 121), (150, 150)]):
        for source in ('internal', 'external'):     # very high degrees
            r = 6371.2 * rng.uniform(1., 1.02) if source == 'internal' else 6371.2 * rng.uniform(.98, 1)
            log_field(log, rand_co(rng, dim(a, b, b)), r, float(rng.uniform(40, 140)),
                      rand_phi(rng, 1)[0], nmin=a, nmax=b, source=source)
    # the same point on another branch of the longitude
    for k in (-720, -360, 0, 360, 1080):
        log_field(log, np.arange(1., 25.), 6500., 71.5, 33.25 + k)
        log_field(log, np.arange(1., 25.), 6500., 71.5, 33.25 + k, source='external')
    # reference radius is read at the time of the call
    a0 = basicConfig['params.r_surf']
    for a in (6371., 6378.137, 3485., 1.):
        with basicConfig.context('params.r_surf', a):
            for source in ('internal', 'external'):
                log_field(log, rand_co(rng, 24), a * rng.uniform(.9, 1.5), rand_theta(rng, 2),
                          rand_phi(rng, 2), source=source)
                log_design(log, a * rng.uniform(.9, 1.5), rand_theta(rng, 2), rand_phi(rng, 2), 3,
                           source=source)
                c = rng.normal(size=(2, 1, 8))
                m = log.define(model_def([0., 100.], c))
                bm = BaseModel('m', breaks=np.array([0., 100.]), order=2, coeffs=c, source=source)
                log_mfield(log, m, source, bm.synth_values, 33., a * 1.1, 50., 60., who='BaseModel')
    log_field(log, rand_co(rng, 24), 6400., 50., 60.)
    assert basicConfig['params.r_surf'] == a0
    # models and their derivatives
    for i in range(ctx.n(24, 150)):
        order = int(rng.integers(1, 5))
        nmax = int(rng.integers(1, 5))
        br = np.array([0., 100., 250.])
        c = rng.normal(size=(order, 2, nmax * (nmax + 2))) * 100
        m = log.define(model_def(br, c))
        source = ['internal', 'external'][i % 2]
        bm = BaseModel('m', breaks=br, order=order, coeffs=c, source=source)
        t = rng.uniform(0, 250, 2)
        log_mfield(log, m, source, bm.synth_values, t, rand_radius(rng, source), rand_theta(rng, 2),
                   rand_phi(rng, 2), deriv=int(rng.integers(0, 5)), who='BaseModel(%s)' % source)
        ch = CHAOS(breaks=br, order=order, coeffs_tdep=c, coeffs_static=c[-1:, :1])
        log_mfield(log, m, 'internal', ch.synth_values_tdep, t, 6400., rand_theta(rng, 2),
                   rand_phi(rng, 2), deriv=int(rng.integers(0, 5)), who='CHAOS tdep')
        ms = log.define(model_def([br[0], br[-1]], c[-1:, :1]))
        log_mfield(log, ms, 'internal', ch.synth_values_static, float(br[0]), 6400.,
                   rand_theta(rng, 2), rand_phi(rng, 2), who='CHAOS static', call_time=False)
    for n in (1201, 5003):         # many points
        for source in (None, 'external'):
            with sampled(rng, n, 5):
                th, ph, r = rand_theta(rng, n), rand_phi(rng, n), rng.uniform(5000, 9000, n)
                log_field(log, rand_co(rng, 15), r, th, ph, source=source)
                log_field(log, rand_co(rng, 15), 6400., th, ph, source=source)
                log_design(log, r, th, ph, 5 if n > 5000 else 3, source=source)
    # unknown sources
    for s in ('toroidal', 'Internal', 'EXTERNAL', '', 'ext', 'all', 'none'):
        log_field(log, np.arange(3.), 6400., 40., 50., source=s)
        log_field(log, np.arange(3.), 6400., np.array([0., 40.]), 50., source=s)
        log_design(log, 6400., 40., 50., 1, source=s)
    log_any_field(log, rng, ctx.n(40, 300))
    ctx.trace('Trace_Field', log)
