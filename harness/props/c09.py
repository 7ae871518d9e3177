"""C09: degree and order windows."""
import numpy as np
from core import Log, load_code, sampled
from props.field_common import (log_any_field, log_field, log_mfield, log_design, rand_radius, rand_theta,
                                rand_phi, rand_co, dim)
from props.pp_common import model_def


def run(ctx):
    load_code()
    from chaosmagpy.chaos import BaseModel, CHAOS
    rng = ctx.rng
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C09')
    top = ctx.n(5, 9)
    for nmin in range(1, top + 1):
        for nmax in range(nmin, top + 1):
            for mmax in list(range(0, nmax + 1)) + [nmax + 2]:
                D = dim(nmin, nmax, mmax)
                source = str(rng.choice(['internal', 'external']))
                co = rand_co(rng, D)
                pt = (rand_radius(rng, source), rand_theta(rng, 1)[0], rand_phi(rng, 1)[0])
                log_field(log, co, *pt, nmin=nmin, nmax=nmax, mmax=mmax, source=source)
                w = rng.integers(0, 5)
                if w == 0:       # nmax inferred
                    if mmax <= nmax:
                        log_field(log, co, *pt, nmin=nmin, mmax=mmax, source=source)
                elif w == 1:     # more coefficients than needed
                    log_field(log, rand_co(rng, D + int(rng.integers(1, 9))), *pt, nmin=nmin,
                              nmax=nmax, mmax=mmax, source=source)
                elif w == 2:     # too few
                    log_field(log, co[:-1], *pt, nmin=nmin, nmax=nmax, mmax=mmax, source=source)
                if mmax <= nmax and w in (2, 3, 4):
                    log_design(log, *pt, nmax, nmin=nmin, mmax=mmax, source=source)
            # everything inferred, exact and with left-over coefficients
            D = dim(nmin, nmax, nmax)
            for extra in (0, 1, 2 * nmax + 2):
                log_field(log, rand_co(rng, D + extra), 6500., 33., 77., nmin=nmin)
                log_field(log, rand_co(rng, D + extra), 6500., 33., 77., nmin=nmin, nmax=nmax)
            if nmin == 1:
                log_field(log, rand_co(rng, D), 6500., 33., 77.)
                log_field(log, rand_co(rng, 2, D), 6500., 33., [77., 78.], nmax=max(1, nmax - 1))
    # inferring nmax from mmax and nmin, number of coefficients not of a full degree
    for _ in range(ctx.n(80, 600)):
        nmin, mmax = int(rng.integers(1, 6)), int(rng.integers(0, 7))
        D = int(rng.integers(1, 60))
        log_field(log, rand_co(rng, D), 6500., 100., -20., nmin=nmin, mmax=mmax,
                  source=str(rng.choice(['internal', 'external'])))
    # very high degrees
    for a, b, kw in ((101, 102, {}), (101, 101, dict(nmax=101)), (100, 104, dict(mmax=3)),
                     (99, 101, dict(nmax=101, mmax=100))):
        for source in ('internal', 'external'):
            log_field(log, rand_co(rng, dim(a, b, kw.get('mmax', b))), 6371.2, 80., -20., nmin=a,
                      source=source, **kw)
    log_design(log, 6371.2, 80., 20., 101, nmin=101)
    # impossible windows
    for kw in (dict(nmin=0), dict(nmin=-1), dict(nmin=3, nmax=2), dict(nmin=2, nmax=1),
               dict(nmax=0), dict(nmin=9), dict(nmax=3, nmin=4, mmax=0), dict(nmax=9)):
        log_field(log, np.arange(15.), 6500., 33., 77., **kw)
        log_field(log, np.arange(15.), 6500., [33., 0.], 77., **kw)
        log_field(log, np.arange(15.), 6500., 33., 77., source='external', **kw)
    log_field(log, np.arange(2.), 6500., 33., 77.)
    for a, kw in ((0, {}), (2, dict(nmin=3)), (2, dict(nmin=0)), (2, dict(mmax=3)),
                  (2, dict(mmax=-1)), (-1, {}), (3, dict(nmin=-2)), (1, dict(nmin=2, mmax=0))):
        log_design(log, 6500., 33., 77., a, **kw)
    # many coefficients and points: the columns and rows of some of them
    for n in (503, 20003):
        for source in ('internal', 'external'):
            with sampled(rng, n, 4):
                r, th, ph = rng.uniform(5000, 9000, n), rand_theta(rng, n), rand_phi(rng, n)
                log_design(log, r, th, ph, 5, nmin=3, mmax=2, source=source)
                log_field(log, rand_co(rng, n, dim(3, 5, 2)), r, th, ph, nmin=3, nmax=5, mmax=2, source=source)
    # models
    for i in range(ctx.n(30, 200)):
        N = int(rng.integers(1, 6))
        c = rng.normal(size=(2, 1, N * (N + 2))) * 100
        br = np.array([0., 400.])
        m = log.define(model_def(br, c))
        source = ['internal', 'external'][i % 2]
        bm = BaseModel('m', breaks=br, order=2, coeffs=c, source=source)
        ch = CHAOS(breaks=br, order=2, coeffs_tdep=c)
        cs = CHAOS(breaks=br, order=2, coeffs_static=c[-1:])
        ms = log.define(model_def(br, c[-1:]))
        for nm in (None, 1, int(rng.integers(1, N + 1)), N, N + 1, N + 4):
            log_mfield(log, m, source, bm.synth_values, 50., 6500., 44., 55., nmax=nm,
                       who='BaseModel N=%d' % N)
            if i % 3 == 0:
                log_mfield(log, m, 'internal', ch.synth_values_tdep, 50., 6500., 44., 55., nmax=nm,
                           who='CHAOS.tdep N=%d' % N)
                log_mfield(log, ms, 'internal', cs.synth_values_static, 0., 6500., 44., 55.,
                           nmax=nm, call_time=False, who='CHAOS.static N=%d' % N)
    log_any_field(log, rng, ctx.n(40, 300))
    ctx.trace('Trace_Field', log)
