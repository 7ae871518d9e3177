"""C34: the field of a time-dependent model is the synthesis of its coefficients."""
import numpy as np
from core import Log, load_code, farr, arr, short, sampled
from props.field_common import log_mfield, rand_theta, rand_phi
from props.pp_common import model_def, rand_breaks, rand_coeffs, rand_times
from props.c05 import EXT


def run(ctx):
    load_code()
    from chaosmagpy.chaos import BaseModel, CHAOS
    from chaosmagpy.model_utils import synth_from_pp
    rng = ctx.rng
    ctx.model('MC_PiecewisePoly', consts=dict(PP_BIG='0'), timeout=850)
    ctx.model('MC_Harmonics', consts=dict(HM_BIG='0'), timeout=850)
    log = Log('C34')
    lpp = Log('C34')

    def place(n, r0, source):
        """time, radius, theta, phi of different shapes, and grid."""
        k = n % 6
        rad = (lambda *s: r0 * (rng.uniform(.95, 1.3, s) if source == 'internal'
                                else rng.uniform(.7, 1.05, s)))
        if k == 0:
            return (), rad(3), rand_theta(rng, 3), rand_phi(rng, 3), None
        if k == 1:
            return (3,), rad(3), rand_theta(rng, 3), rand_phi(rng, 3), False
        if k == 2:
            return (2, 1), float(rad()), rand_theta(rng, 3), float(rng.uniform(0, 360)), None
        if k == 3:
            return (), float(rad()), rand_theta(rng, 2), rand_phi(rng, 3), True
        if k == 4:
            return (2, 1, 1), rad(2, 1), rand_theta(rng, 2), rand_phi(rng, 2), True
        return (2,), float(rad()), float(rand_theta(rng, 1)[0]), float(rng.uniform(0, 360)), None

    exts = [None, 'linear', 'off', 'constant', 'quadratic', 'cubic', 'spline', 0, 1, 2, 3]

    def want(ext):
        return EXT[ext] if ext is None or isinstance(ext, str) else int(ext)

    n = 0
    for i in range(ctx.n(14, 110)):
        order = int(rng.integers(1, 7))
        P = int(rng.integers(1, 4))
        N = int(rng.integers(2, 5)) if i % 3 else int(rng.integers(1, 3))
        br = rand_breaks(rng, P)
        c = rand_coeffs(rng, order, br, N * (N + 2))
        if i % 5 == 4:                      # whole numbers are numbers, too
            br = np.cumsum(rng.integers(1, 400, P + 1))
            c = np.rint(c * 10).astype(int)
        m = log.define(model_def(br, c))
        mp = lpp.define(model_def(br, c))
        cst = rng.normal(size=(1, 1, (N + 1) * (N + 3))) * 50
        ms = log.define(model_def([br[0], br[-1]], cst))
        msp = lpp.define(model_def([br[0], br[-1]], cst))
        ch = CHAOS(breaks=br, order=order, coeffs_tdep=c, coeffs_static=cst)
        for source in (None, 'internal', 'external'):
            src = source or 'internal'
            bm = BaseModel('m', breaks=br, order=order, coeffs=c, source=source)

            def sfp(time, r, th, ph, **kw):
                kw.pop('extrapolate', None)
                if source:
                    kw['source'] = source
                return synth_from_pp(br, order, c, time, r, th, ph, **kw)
            whos = [('BaseModel(source=%r)' % source, bm.synth_values),
                    ('synth_from_pp(source=%r)' % source, sfp)]
            if source is None:
                whos.append(('CHAOS.tdep', ch.synth_values_tdep))
            for who, f in whos:
                for _ in range(2):
                    n += 1
                    ts, r, th, ph, grid = place(n, 6371.2, src)
                    size = int(np.prod(ts))
                    t = rand_times(rng, br, size, outside=.6 if n % 3 == 0 else 0.).reshape(ts)
                    t = float(t) if ts == () and n % 2 else t
                    nmax = [None, None, N, max(1, N - 1), 1, N + 2][int(rng.integers(6))]
                    nu = [None, 0, 1, 1, 2, 3, order - 1, order - 1, order][int(rng.integers(9))]
                    ext = exts[n % len(exts)]
                    pp = who.startswith('synth_from')
                    log_mfield(log, m, src, f, t, r, th, ph, nmax=nmax, deriv=nu, grid=grid,
                               ext=None if pp else ext, ext_terms=0 if pp else want(ext), mute=pp,
                               who='%s order=%d breaks=%s' % (who, order, short(br)))
        # static part: constant over the model period
        for k in range(2):
            n += 1
            ts, r, th, ph, grid = place((3, 0, 2, 5)[n % 4], 6371.2, 'internal')
            nmax = [None, N + 1, N, 1, N + 4][int(rng.integers(5))]
            log_mfield(log, ms, 'internal', ch.synth_values_static, float(br[0]), r, th, ph,
                       nmax=nmax, deriv=1 if n % 5 == 0 else None, grid=grid, call_time=False,
                       who='CHAOS.static')
        # coefficients of the two parts
        t = rand_times(rng, br, 4, outside=.3)
        for k in range(3):
            n += 1
            ext, nu = exts[(n + k) % len(exts)], int(rng.integers(0, order + 1))
            nmax = [None, 1, N, max(1, N - 1)][int(rng.integers(4))]
            kw = {} if nmax is None else dict(nmax=nmax)
            d = 0 if nmax is None else nmax * (nmax + 2)
            who, f = [('CHAOS', ch.synth_coeffs_tdep), ('BaseModel', bm.synth_coeffs)][n % 2]
            lpp.call('pp', lambda: f(t, deriv=nu, extrapolate=ext, **kw), arr,
                     raw='%s.synth_coeffs order=%d breaks=%s t=%s extrapolate=%r deriv=%d %r' % (
                         who, order, short(br), short(t), ext, nu, kw),
                     m=mp, time=farr(t), nu=nu, dim=d, ext=want(ext))
        nmax = [None, 1, N, N + 1][i % 4]
        kw = {} if nmax is None else dict(nmax=nmax)
        lpp.call('pp', lambda: ch.synth_coeffs_static(**kw), arr,
                 raw='CHAOS.synth_coeffs_static(%r)' % kw, m=msp, time=farr(float(br[0])), nu=0,
                 dim=0 if nmax is None else nmax * (nmax + 2), ext=2)
    for k in (1201, 5003):         # many times and places
        for source in (None, 'external'):
            br = rand_breaks(rng, 6)
            c = rand_coeffs(rng, 4, br, 8)
            m = log.define(model_def(br, c))
            bm = BaseModel('m', breaks=br, order=4, coeffs=c, source=source)
            with sampled(rng, k, 5):
                t = rng.permutation(np.concatenate([br, rand_times(rng, br, k - br.size)]))
                r, th, ph = rng.uniform(6000, 8000, k), rand_theta(rng, k), rand_phi(rng, k)
                for nu in (0, 1):
                    log_mfield(log, m, source or 'internal', bm.synth_values, t, r, th, ph, deriv=nu,
                               who='BaseModel(source=%r)' % source)
                    log_mfield(log, m, source or 'internal', bm.synth_values, t, 6400., 40., 50.,
                               deriv=nu, who='BaseModel(source=%r)' % source)
                    log_mfield(log, m, source or 'internal', lambda *a, **k: synth_from_pp(
                        br, 4, c, *a, source=source, **k), t, r, th, ph, deriv=nu, ext_terms=0, mute=True,
                        who='synth_from_pp(source=%r)' % source)
            with sampled(rng, k, 5) as w:          # some times outside, these are judged
                t[w.idx[[1, 3]]] = br[0] - 7.5, br[-1] + 3.25
                log_mfield(log, m, source or 'internal', bm.synth_values, t, r, th, ph,
                           who='BaseModel(source=%r)' % source)
                log_mfield(log, m, source or 'internal', lambda *a, **k: synth_from_pp(
                    br, 4, c, *a, source=source, **k), t, r, th, ph, ext_terms=0, mute=True,
                    who='synth_from_pp(source=%r)' % source)
    ctx.trace('Trace_Field', log)
    ctx.trace('Trace_Pp', lpp)
