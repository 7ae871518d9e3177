"""C24: GSM and SM coefficients are rotated from the model and the RC-index."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, sampled
from props.ext_common import conf, Spectrum, RcFile, Model, log_xc, log_xv


def run(ctx):
    load_code()
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_ExtField', consts=dict(EF_BIG='0' if ctx.quick else '1'))
    log = Log('C24')
    tmp = tempfile.mkdtemp(prefix='verif-ext-')
    try:
        drive(ctx, log, rng, basicConfig, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Ext', log)


def drive(ctx, log, rng, cfg, tmp):
    builtin = {k: Spectrum(log, rng, None, file=cfg['file.%s_spectrum' % k.upper()])
               for k in ('gsm', 'sm')}
    shapes = [(), (1,), (3,), (2, 2), (0,)]
    # higher degrees, columns of times
    for n, nm in ctx.n([(3, 3)], [(3, 3), (3, 4), (4, 4)]):
        m = Model(log, rng, n=n)
        sp = {k: Spectrum(log, rng, os.path.join(tmp, 'hi%s%d%d.npz' % (k, n, nm)), nmax=nm, kmax=n)
              for k in ('gsm', 'sm')}
        with conf(cfg, ('file.GSM_spectrum', sp['gsm'].path), ('file.SM_spectrum', sp['sm'].path)):
            for src in ('external', 'internal'):
                for sh in ((), (3, 1), (1, 1)):
                    t = m.times(rng, sh)
                    log_xc(log, m, sp['gsm'], 'gsm', t, src)
                    log_xc(log, m, sp['sm'], 'sm', t, src, rc=rng.normal(size=sh) * 20 if sh else 7.)
    for j in range(ctx.n(7, 40)):
        n = 2 if j % 3 else 1 + j % 2
        m = Model(log, rng, n=n)
        if j % 3 == 2:
            sp = builtin
        else:
            nm = n + int(rng.integers(0, 2)) if j % 2 else n
            sp = {k: Spectrum(log, rng, os.path.join(tmp, '%s%d.npz' % (k, j)), nmax=nm, kmax=n)
                  for k in ('gsm', 'sm')}
        t0 = float(np.round(m.breaks[0], 6))
        span = m.breaks[-1] - t0
        rcs = [RcFile(log, rng, os.path.join(tmp, 'rc%d.dat' % j), t0, 30),
               RcFile(log, rng, os.path.join(tmp, 'rc%d.h5' % j), t0 + 3, 12, step=round(span / 20, 3))]
        with conf(cfg, ('file.GSM_spectrum', sp['gsm'].path), ('file.SM_spectrum', sp['sm'].path)):
            for i in range(ctx.n(10, 16)):
                sh = shapes[int(rng.integers(0, 4))]
                t = m.times(rng, sh, outside=.2)
                src = [None, 'external', 'internal'][i % 3]
                nmax = [None, 1, n, n + 1][int(rng.integers(0, 4))]
                if rng.random() < .15:
                    t = np.round(t).astype(int).tolist() if sh else int(t)
                log_xc(log, m, sp['gsm'], 'gsm', t, src, nmax)
                rc = (float(rng.normal() * 30) if rng.random() < .4 or not sh
                      else rng.normal(size=sh) * 30)
                if rng.random() < .15:
                    rc = int(rng.integers(-40, 40)) if not sh else rng.integers(-40, 40, sh)
                log_xc(log, m, sp['sm'], 'sm', t, src, nmax, rc=rc)
                rf = rcs[i % 2]
                with cfg.context('file.RC_index', rf.path):
                    lo, hi = rf.t[0], rf.t[-1]
                    if i % 5 == 4:     # outside of the index
                        t = m.times(rng, (2,), lo=lo, hi=hi)
                        t[int(rng.integers(0, 2))] = [lo - 1e-3, hi + 1e-3, hi + 99][i % 3]
                    else:
                        t = np.asarray(m.times(rng, sh, lo=lo, hi=hi))
                        t = np.where(rng.random(sh) < .5, rng.choice(rf.t, sh), t)
                        t = np.where(rng.random(sh) < .1, [lo, hi][i % 2], t)
                    log_xc(log, m, sp['sm'], 'sm', t, src, nmax, rcd=rf)
                    if i % 4 == 2:     # the field of them; one of the indices is given
                        for s in ('external', 'internal'):
                            log_xv(log, m, sp['sm'], 'sm', m.times(rng, (), lo=lo, hi=hi), 6600., 40., 8., s,
                                   rcd=rf, **[dict(rc_e=4.), dict(rc_i=-3.), {}][int(rng.integers(0, 3))])
            # missing (NaN) times do not hide the others
            for i in range(3):
                src = ['external', 'internal'][int(rng.integers(0, 2))]
                sh = [(2,), (3, 1), (2, 2)][int(rng.integers(0, 3))]
                t = m.times(rng, sh, outside=[0., .5, 1.][(i + j) % 3])
                t[(0,) * t.ndim if i % 2 else (-1,) * t.ndim] = np.nan
                log_xc(log, m, sp['gsm'], 'gsm', t, src)
                log_xc(log, m, sp['sm'], 'sm', t, src, rc=rng.normal(size=sh) * 9)
                rf = rcs[i % 2]
                with cfg.context('file.RC_index', rf.path):
                    t = m.times(rng, sh, lo=rf.t[0], hi=rf.t[-1])
                    t[(0,) * t.ndim] = np.nan
                    if i == 2:
                        t[(-1,) * t.ndim] = rf.t[-1] + 1e-3
                    log_xc(log, m, sp['sm'], 'sm', t, src, rcd=rf)
            # unknown sources
            for part in ('gsm', 'sm'):
                log_xc(log, m, sp[part], part, m.times(rng), ['all', 'induced', ''][j % 3],
                       rc=1. if part == 'sm' else None)
        # wrong dipole
        if j < 3:
            with conf(cfg, ('file.GSM_spectrum', sp['gsm'].path),
                       ('file.SM_spectrum', sp['sm'].path),
                       ('params.dipole', np.array([-29442., -1501. + (j == 1), 4797.1 + (j != 1)]))):
                log_xc(log, m, sp['gsm'], 'gsm', m.times(rng), 'external')
                log_xc(log, m, sp['sm'], 'sm', m.times(rng), 'internal', rc=2.)
    for n in (1201, 5003):         # many times
        m = Model(log, rng)
        rf = RcFile(log, rng, os.path.join(tmp, 'rcl%d.dat' % n), float(m.breaks[0]), 40)
        lo, hi = rf.t[0], min(rf.t[-1], m.breaks[-1])
        with cfg.context('file.RC_index', rf.path), sampled(rng, n, 5):
            t = rng.permutation(m.times(rng, (n,), lo=lo, hi=hi))
            for src in ('external', 'internal'):
                log_xc(log, m, builtin['gsm'], 'gsm', t, src)
                log_xc(log, m, builtin['sm'], 'sm', t, src, rc=rng.normal(size=n) * 20)
                log_xc(log, m, builtin['sm'], 'sm', t, src, rcd=rf)
    # models with missing parts; the period of the model without static part
    for parts in (('gsm',), ('sm',), ('tdep', 'gsm', 'sm'), ('static',), ('static', 'sm'), ('tdep', 'gsm'),
                  ('static', 'gsm', 'sm')):
        m = Model(log, rng, parts=parts)
        for part in ('gsm', 'sm'):
            for sh in ((), (2,), (1,)):
                t = m.times(rng, sh, outside=.3 if sh != (1,) else 1.)
                src = ['external', 'internal', None][int(rng.integers(0, 3))]
                log_xc(log, m, builtin[part], part, t, src, rc=3. if part == 'sm' else None)
    # spectra that are rewritten in place between queries (same size of file and time of modification)
    m = Model(log, rng)
    paths = {k: os.path.join(tmp, 'again%s.npz' % k) for k in ('gsm', 'sm')}
    for k in paths:
        open(paths[k], 'w').close()
    with conf(cfg, ('file.GSM_spectrum', paths['gsm']), ('file.SM_spectrum', paths['sm'])):
        for i in range(3):
            for part in ('gsm', 'sm'):
                s = Spectrum(log, rng, paths[part], K=3, scaled=False)
                os.utime(paths[part], (1e9, 1e9))
                t = m.times(rng, (2,))
                for src in ('external', 'internal'):
                    log_xc(log, m, s, part, t, src, rc=2. if part == 'sm' else None)
    # another dipole with its own spectrum
    d = np.array([-29000., -1600., 4600.])
    with cfg.context('params.dipole', d):
        m = Model(log, rng)
        for part in ('gsm', 'sm'):
            s = Spectrum(log, rng, os.path.join(tmp, 'd%s.npz' % part), dip=d, scaled=part == 'sm')
            with cfg.context('file.%s_spectrum' % part.upper(), s.path):
                for src in ('external', 'internal'):
                    log_xc(log, m, s, part, m.times(rng, (2,)), src,
                           rc=rng.normal(size=2) if part == 'sm' else None)
