"""C23: the CHAOS field is the sum of the requested source fields."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, sampled
from props.ext_common import conf, Spectrum, RcFile, Model, log_xv, log_call
from props.field_common import rand_theta, rand_phi

ALL = ('tdep', 'static', 'gsm', 'sm')


def run(ctx):
    load_code()
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_ExtField', consts=dict(EF_BIG='0' if ctx.quick else '1'))
    log = Log('C23')
    tmp = tempfile.mkdtemp(prefix='verif-ext-')
    try:
        drive(ctx, log, rng, basicConfig, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Ext', log)


def place(rng, k):
    """Broadcastable (time shape, radius, theta, phi)."""
    r = lambda s: rng.uniform(6000, 7500, s) if s != () else float(rng.uniform(6000, 7500))
    th = lambda s: rand_theta(rng, int(np.prod(s, dtype=int))).reshape(s)
    ph = lambda s: rand_phi(rng, int(np.prod(s, dtype=int))).reshape(s)
    return [((), r(()), float(th((1,))[0]), float(ph((1,))[0])),
            ((3,), r(()), float(th((1,))[0]), ph((3,))),
            ((), r((2,)), th((2,)), ph((1,))),
            ((2, 1), r((1, 3)), th((3,)), ph(())),
            ((2,), r((2,)), th((2,)), ph((2,))),
            ((), r((3, 1)), float(th((1,))[0]), ph((2,)))][k % 6]


def drive(ctx, log, rng, cfg, tmp):
    builtin = {k: Spectrum(log, rng, None, file=cfg['file.%s_spectrum' % k.upper()])
               for k in ('gsm', 'sm')}
    for j in range(ctx.n(4, 24)):
        n = 2 if j % 4 else 1
        m = Model(log, rng, n=n, nt=int(rng.integers(1, 4)), ns=int(rng.integers(1, 6)))
        sp = builtin if j % 2 == 1 else {
            k: Spectrum(log, rng, os.path.join(tmp, '%s%d.npz' % (k, j)), nmax=n, kmax=n)
            for k in ALL[2:]}
        t0 = float(np.round(m.breaks[0], 6))
        rf = RcFile(log, rng, os.path.join(tmp, 'rc%d.%s' % (j, ['dat', 'h5'][j % 2])), t0, 40,
                    step=round((m.breaks[-1] - t0) / 35, 3))
        with conf(cfg, ('file.GSM_spectrum', sp['gsm'].path), ('file.SM_spectrum', sp['sm'].path),
                         ('file.RC_index', rf.path)):
            for i, k in enumerate(itertools.product((0, 1), repeat=4)):
                sel = [s for s, b in zip(ALL, k) if b]
                sel = [sel[q] for q in rng.permutation(len(sel))]
                if len(sel) == 1 and rng.random() < .5:
                    sel = sel[0]
                elif rng.random() < .3:
                    sel = tuple(sel)
                tsh, r, th, ph = place(rng, i + j)
                file = i % 3 == 0
                t = m.times(rng, tsh, outside=0 if file else .15, **(
                    dict(lo=rf.t[0], hi=rf.t[-1]) if file else {}))
                rce = None if file else (rng.normal(size=tsh) * 20 if tsh and i % 2 else float(rng.normal() * 9))
                rci = None if file else float(rng.normal() * 9)
                log_call(log, m, sp['gsm'], sp['sm'], t, r, th, ph, sel, rce, rci,
                         [None, 1, 2, 3, 20][int(rng.integers(0, 5))], rcd=rf if file else None,
                         verbose=True if i % 5 == 0 else None)
            for i, sel in enumerate((None, 'internal', 'external', ['gsm', 'gsm', 'sm'])):
                tsh, r, th, ph = place(rng, i + 3)
                log_call(log, m, sp['gsm'], sp['sm'], m.times(rng, tsh), r, th, ph, sel, 4., -3.)
            for sel in ('static', ['static'], ['static', 'static'], 'tdep', ['gsm'], 'sm'):
                # more times than places, and the other way round
                log_call(log, m, sp['gsm'], sp['sm'], m.times(rng, (3,)), 6500., 33., 7., sel, 4., -3.)
                log_call(log, m, sp['gsm'], sp['sm'], m.times(rng, (2, 1)), 6500., rand_theta(rng, 2), 7., sel, 4., -3.)
            for sel in (['foo'], 'crustal', ['tdep', 'GSM'], 'all', ''):
                log_call(log, m, sp['gsm'], sp['sm'], m.times(rng), 6500., 33., 7., sel, 4., -3.)
            for nstat in (0, -1, -3):      # no degree is left
                log_call(log, m, sp['gsm'], sp['sm'], m.times(rng), 6500., 33., 7.,
                         ['internal', ['static'], ['gsm', 'static'], ['tdep', 'gsm']][int(rng.integers(0, 4))],
                         nstat=nstat)
            t = m.times(rng, (2,), lo=rf.t[0], hi=rf.t[-1])
            # only one of the two indices is given: the other comes from the file
            log_call(log, m, sp['gsm'], sp['sm'], t, 6500., 33., 7., None, 4., None, rcd=rf)
            log_call(log, m, sp['gsm'], sp['sm'], t, 6500., 33., 7., 'external', None, np.array([1., 2.]), rcd=rf)
            log_call(log, m, sp['gsm'], sp['sm'], rf.t[-1] + .5, 6500., 33., 7., 'external', rcd=rf)
            log_call(log, m, sp['gsm'], sp['sm'], rf.t[-1] + .5, 6500., 33., 7., ['tdep', 'gsm'], rcd=rf)
            log_call(log, m, sp['gsm'], sp['sm'], t, np.full(3, 6500.), 33., 7., None, 4., 5.)
            # missing (NaN) times and places do not change the others
            for i in range(4):
                t = m.times(rng, (3,), lo=rf.t[0], hi=rf.t[-1])
                r, th, ph = rng.uniform(6000, 7500, 3), rand_theta(rng, 3), rand_phi(rng, 3)
                (t, r, th, ph)[(i + j) % 4][int(rng.integers(0, 3))] = np.nan
                sel = [None, ['tdep', 'sm'], 'external', ['static', 'gsm']][(i + j // 4) % 4]
                log_call(log, m, sp['gsm'], sp['sm'], t, r, th, ph, sel, *[(4., -3.), (None, None)][i % 2],
                         rcd=rf)
                log_xv(log, m, sp['gsm'], 'gsm', t, r, th, ph, None)
            # the parts by themselves
            for i in range(ctx.n(6, 10)):
                part = ALL[2 + i % 2]
                grid = [None, False, True][i % 3]
                if grid:
                    tsh, r, th, ph = [((), 6800., rand_theta(rng, 2), rand_phi(rng, 2)),
                                      ((2, 1, 1), rng.uniform(6000, 7000, (1, 2)), rand_theta(rng, 2), rand_phi(rng, 2))][i % 2]
                else:
                    tsh, r, th, ph = place(rng, i)
                t = m.times(rng, tsh, lo=rf.t[0], hi=rf.t[-1])
                rc = {} if part == 'gsm' else [{}, dict(rc_e=2.5, rc_i=-1.), dict(rc_e=3.), dict(rc_i=-2.)][int(rng.integers(0, 4))]
                for src in (None, 'external', 'internal'):
                    log_xv(log, m, sp[part], part, t, r, th, ph, src, [None, 1, 2, 3][int(rng.integers(0, 4))],
                           grid=grid, rcd=rf if part == 'sm' else None, **rc)
            for part in ('gsm', 'sm'):
                log_xv(log, m, sp[part], part, m.times(rng), 6500., 33., 7., 'induced',
                       **(dict(rc_e=1., rc_i=1.) if part == 'sm' else {}))
        if j == 0:
            with cfg.context('params.dipole', np.array([-1., 0., 0.])):
                log_call(log, m, builtin['gsm'], builtin['sm'], m.times(rng), 6500., 33., 7., ['gsm'], 4., -3.)
    for n in (1201, 3001):         # many times and places
        m = Model(log, rng)
        with sampled(rng, n, 4):
            t = rng.permutation(m.times(rng, (n,)))
            r, th, ph = rng.uniform(6400, 7000, n), rand_theta(rng, n), rand_phi(rng, n)
            rc = rng.normal(size=n) * 20
            log_call(log, m, builtin['gsm'], builtin['sm'], t, r, th, ph, None, rc, rc / 4)
            log_call(log, m, builtin['gsm'], builtin['sm'], t, 6500., 40., 50., ['sm', 'gsm'], 4., -3.)
            log_xv(log, m, builtin['gsm'], 'gsm', t, r, th, ph, 'external')
            log_xv(log, m, builtin['sm'], 'sm', t, r, th, ph, 'internal', rc_i=rc)
    # models with missing parts
    for k in range(ctx.n(8, 15)):
        have = [s for s, b in zip(ALL, np.unravel_index(2*k % 15 + k // 8, (2, 2, 2, 2))) if b]
        m = Model(log, rng, parts=have)
        for i in range(ctx.n(6, 15)):
            sel = [s for s in ALL if rng.random() < .4]
            log_call(log, m, builtin['gsm'], builtin['sm'], m.times(rng), 6600., 40., 8., sel or None, 1., 2.)
    # the static field is cut at degree 85 by default
    co = np.zeros((1, 1, 86 * 88))
    for nn in (1, 40, 84, 85, 86):
        co[0, 0, nn*nn - 1:(nn+1)**2 - 1] = rng.normal(size=2*nn + 1) * 3
    m = Model(log, rng, parts=('tdep', 'static'), static=co)
    for nstat in ctx.n((None, 86), (None, 84, 86, 99)):
        log_call(log, m, builtin['gsm'], builtin['sm'], m.times(rng), 6371.2, 40., 8., 'internal', nstat=nstat)
