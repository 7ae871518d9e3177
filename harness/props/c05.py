"""C05: extrapolation."""
import numpy as np
from core import Log, load_code, farr, arr, short, sampled
from props.pp_common import model_def, rand_breaks, rand_coeffs, rand_times

EXT = {'off': 0, 'constant': 1, 'linear': 2, 'quadratic': 3, 'cubic': 4, 'spline': 99, None: 2}


def run(ctx):
    cp = load_code()
    from chaosmagpy.chaos import Base, BaseModel, CHAOS
    rng = ctx.rng
    ctx.model('MC_PiecewisePoly', consts=dict(PP_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C05')

    for i in range(ctx.n(10, 90)):
        order = int(rng.integers(1, 8)) if i > 6 else i + 1
        D = 3 if i % 3 else 8
        P = int(rng.integers(1, 5))
        br = rand_breaks(rng, P)
        c = rand_coeffs(rng, order, br, D)
        m = log.define(model_def(br, c))
        objs = dict(Base=Base('b', breaks=br, order=order, coeffs=c),
                    BaseModel=BaseModel('m', breaks=br, order=order, coeffs=c),
                    CHAOS=CHAOS(breaks=br, order=order, coeffs_tdep=c))

        def q(t, ext, nu, n):
            who = ('Base', 'BaseModel', 'CHAOS')[n % 3]
            f = objs[who].synth_coeffs_tdep if who == 'CHAOS' else objs[who].synth_coeffs
            kw = {} if ext is None and n % 2 else dict(extrapolate=ext)
            log.call('pp', lambda: f(t, deriv=nu, **kw), arr,
                     raw='%s order=%d breaks=%s t=%s extrapolate=%r deriv=%s' % (
                         who, order, short(br), short(t), ext, nu),
                     m=m, time=farr(t), nu=int(nu), dim=0,
                     ext=EXT[ext] if ext is None or isinstance(ext, str) else int(ext))

        n = 0
        exts = [None, 'off', 'constant', 'linear', 'quadratic', 'cubic', 'spline', 0, 1, 2, 3, 4,
                5, 6, 9, np.int64(3), order, order + 1]
        for ext in exts:
            for nu in range(0, min(order, 3) + 1):
                n += 1
                # only outside, left and right
                q(np.array([br[0] - rng.uniform(1e-3, 500), br[-1] + rng.uniform(1e-3, 500)]),
                  ext, nu, n)
                # mixed with inside times and all breaks
                t = np.concatenate([br, rand_times(rng, br, 5, outside=.4),
                                    [br[0] - 1e-6, br[-1] + 1e-6]])
                q(rng.permutation(t), ext, nu, n + 1)
            # outside on one side only, at any place in the array
            for side in (1, -1):
                o = (br[-1] + rng.uniform(1e-3, 300, 3) if side == 1
                     else br[0] - rng.uniform(1e-3, 300, 3))
                w = int(rng.integers(1, 4))
                t = np.concatenate([o[:w], rand_times(rng, br, 4 - w)])
                k = n + side
                q(t if k % 3 == 0 else t[::-1] if k % 3 == 1 else rng.permutation(t), ext,
                  int(rng.integers(0, order)), k)
            # missing (NaN) times do not hide the others
            for t in ([np.nan, br[-1] + rng.uniform(1e-3, 300)], [br[0] - 40., np.nan, br[0]],
                      np.append(rand_times(rng, br, 2), [np.nan, br[0] - 3.]),
                      np.append(rand_times(rng, br, 2), np.nan), [np.nan]):
                n += 1
                q(rng.permutation(np.array(t)), ext, int(rng.integers(0, order)), n)
            q(float(br[-1] + 10), ext, 0, n)
            q(float(br[0] - 10), ext, 0, n + 1)
            q(np.nextafter(br[-1], np.inf), ext, 1, n)
            q(rand_times(rng, br, 4), ext, int(rng.integers(0, order)), n + 2)   # inside only
            q(np.array([br[-1], br[-1] + 5.]), ext, order - 1, n)
            q(np.array([br[0], br[0] - 5.]), ext, order - 1, n + 1)
            q(np.array([[br[0], br[0] - 5.], [br[-1], br[-1] + 1]]), ext, 0, n)
            q([float(br[-1]), float(br[-1]) + 2], ext, 0, n + 1)
            with sampled(rng, 2503) as w:         # a large call, some of it judged
                n += 1
                t = rand_times(rng, br, 2503, outside=.4 if n % 2 else 0.)
                t[w.idx[n % 3]] = br[-1] + 12.5
                q(t, ext, int(rng.integers(0, order)), n)
        for ext, key in ((True, 2), (False, 0)):      # on (linear) and off
            t = np.array([br[0] - 30., br[0], br[-1], br[-1] + 40.])
            for nu in (0, 1):
                log.call('pp', lambda: objs['BaseModel'].synth_coeffs(t, deriv=nu, extrapolate=ext), arr,
                         raw='order=%d breaks=%s t=%s extrapolate=%r deriv=%d' % (
                             order, short(br), short(t), ext, nu), m=m, time=farr(t), nu=nu, dim=0, ext=key)
        for nu in range(order, order + 2):
            q(np.array([br[0] - 3, br[0], br[-1], br[-1] + 3]), 'spline', nu, n)
            q(np.array([br[0] - 3, br[0], br[-1], br[-1] + 3]), 'off', nu, n + 1)
        # unknown methods: rejected when needed, irrelevant inside
        for bad in ('unknown', '', 'Linear', 'splines'):
            for t in (br[-1] + 1., np.array([br[0] - 1., br[0]]), rand_times(rng, br, 2)):
                n += 1
                who = ('Base', 'BaseModel', 'CHAOS')[n % 3]
                f = objs[who].synth_coeffs_tdep if who == 'CHAOS' else objs[who].synth_coeffs
                if np.all((t >= br[0]) & (t <= br[-1])):
                    continue
                log.call('pp', lambda: f(t, extrapolate=bad), arr,
                         raw='%s t=%s extrapolate=%r' % (who, short(t), bad), m=m, time=farr(t),
                         nu=0, dim=0, ext=-1)
    # single-break and order-1 models
    for br, c in [(np.array([100.]), np.array([[[1., 2., 3.]]])),
                  (np.array([0., 10., 20., 20.]), np.arange(9.).reshape(1, 3, 3)),
                  (np.array([0., 10.]), np.arange(3.).reshape(1, 1, 3))]:
        b2 = br if br.size > 1 else np.append(br, br)
        m = log.define(model_def(b2, c))
        model = BaseModel('m', breaks=br, order=1, coeffs=c)
        for ext in (None, 'off', 'constant', 'spline', 5):
            for nu in (0, 1):
                t = np.array([br[0] - 7., br[0], br[-1], br[-1] + 7.])
                log.call('pp', lambda: model.synth_coeffs(t, deriv=nu, extrapolate=ext), arr,
                         raw='breaks=%s t=%s extrapolate=%r deriv=%d' % (short(br), short(t), ext,
                                                                         nu),
                         m=m, time=farr(t), nu=nu, dim=0,
                         ext=EXT[ext] if ext is None or isinstance(ext, str) else ext)
    ctx.trace('Trace_Pp', log)
