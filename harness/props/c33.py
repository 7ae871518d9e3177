"""C33: Euler angles are piecewise polynomials per satellite."""
import numpy as np
from core import Log, load_code, farr, arr, short, fx, sampled
from props.pp_common import model_def, rand_breaks, rand_coeffs, rand_times
from props.c05 import EXT


def run(ctx):
    cp = load_code()
    from chaosmagpy.chaos import CHAOS
    rng = ctx.rng
    ctx.model('MC_PiecewisePoly', consts=dict(PP_BIG='0'))
    log = Log('C33')
    names = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c', 'cryosat-2_1', 'x_1']
    for i in range(ctx.n(14, 120)):
        sats = list(rng.permutation(names)[:1 + i % 6])
        breaks, coeffs, m = {}, {}, {}
        for s in sats:
            P = int(rng.integers(1, 9))
            order = 1
            br = rand_breaks(rng, P)
            if rng.random() < .2:
                br, P = br[:1], 1
            b2 = br if br.size > 1 else np.append(br, br)
            breaks[s] = br
            coeffs[s] = rand_coeffs(rng, order, b2, 3)
            m[s] = log.define(model_def(b2, coeffs[s]))
        meta = [None, {}, dict(params=dict(Euler_prerotation=None)),
                dict(params=dict(Euler_prerotation=rng.normal(size=(len(sats), 3)))),
                dict(params={}, satellites=tuple(sats)),
                dict(params=dict(Euler_prerotation=[None if rng.random() < .5 else rng.normal(size=3)
                                                    for _ in sats]))][i % 6]
        pre = (meta or {}).get('params', {}).get('Euler_prerotation')
        if pre is not None:             # angles may be zero
            for k, s in enumerate(sats):
                if pre[k] is not None and k % 2 == i // 6 % 2:
                    pre[k] = np.array([[0., -90., 5.], [0., 0., 0.], [0., 0., 1.5], [-2., 3., 0.]][int(rng.integers(0, 4))])
        if i % 2:                      # dictionaries listing the satellites in another order
            perm = list(rng.permutation(sats))
            coeffs = {s: coeffs[s] for s in perm}
        tb = np.array([0., 1000.])
        try:
            model = CHAOS(breaks=tb, order=1, coeffs_tdep=np.ones((1, 1, 3)),
                          breaks_euler=breaks, coeffs_euler=coeffs, meta=meta)
        except Exception as err:                       # noqa: BLE001
            log.add(dict(op='pp', out=dict(k='exc', type=type(err).__name__, value_error=False),
                         m=m[sats[0]], time=farr([0.]), nu=0, dim=0, ext=2, warned=False),
                    'CHAOS(euler of %s, meta=%s): %r' % (sats, meta, err))
            continue
        pre = None if meta is None else meta.get('params', {}).get('Euler_prerotation')
        for k, s in enumerate(sats):
            log.call('prerot', lambda: model.model_euler[s].meta['Euler_prerotation'],
                     lambda r: dict(row=[] if r is None else [fx(v) for v in np.ravel(r)]),
                     raw='pre-rotation of %r in %s' % (s, sats),
                     row=[] if pre is None or pre[k] is None else [fx(v) for v in pre[k]])
        for s in list(rng.permutation(sats)):
            say = pre is not None and pre[sats.index(s)] is not None
            br = np.atleast_1d(breaks[s])
            if br.size == 1:
                br = np.append(br, br)
            for ext in (None, 'off', 'constant', 'linear', 'spline', 2, 7):
                nu = int(rng.integers(0, 2))
                dim = int(rng.choice([0, 0, 1, 2, 3, 5]))
                shape = [(), (4,), (2, 3)][int(rng.integers(0, 3))]
                t = rand_times(rng, br, int(np.prod(shape, dtype=int)),
                               outside=.3).reshape(shape)
                if rng.random() < .3:
                    t = t.tolist()
                kw = {}
                if ext is not None:
                    kw['extrapolate'] = ext
                if dim:
                    kw['dim'] = dim
                if nu or rng.random() < .5:
                    kw['deriv'] = nu
                log.call('pp', lambda: model.synth_euler_angles(t, s, **kw), arr,
                         raw='synth_euler_angles(%s, %r, %s) of %s' % (short(t), s, kw, sats),
                         m=m[s], time=farr(t), nu=nu, dim=dim, say=say,
                         ext=EXT[ext] if ext is None or isinstance(ext, str) else ext)
            t = np.concatenate([br, [br[0] - 1, br[-1] + 1]])
            log.call('pp', lambda: model.synth_euler_angles(t, s), arr,
                     raw='synth_euler_angles(breaks of %r) of %s' % (s, sats), m=m[s],
                     time=farr(t), nu=0, dim=0, ext=2, say=say)
            with sampled(rng, 1201) as w:         # many times
                t = rand_times(rng, br, 1201)
                log.call('pp', lambda: model.synth_euler_angles(t, s), arr,
                         raw='synth_euler_angles(%s, %r) of %s' % (short(t), s, sats), m=m[s], time=farr(t),
                         nu=0, dim=0, ext=2, say=say)
        for bad in ('unknown', '', sats[0].upper(), sats[0] + ' '):
            log.call('none', lambda: model.synth_euler_angles(0., bad), lambda r: dict(),
                     raw='synth_euler_angles(0, %r) of %s' % (bad, sats))
    ctx.trace('Trace_Pp', log)
