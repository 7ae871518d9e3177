"""C07: B-splines and piecewise polynomials are the same function."""
import numpy as np
from core import Log, load_code, arr, fx, fxn, short
from props.pp_common import rand_breaks, rand_times


def enc_knots(k):
    k = np.asarray(k)
    if k.ndim != 1:
        raise ValueError('ndim')
    return dict(data=[fx(v) for v in k])


def run(ctx):
    cp = load_code()
    mu = cp.model_utils
    from chaosmagpy.chaos import BaseModel
    rng = ctx.rng
    ctx.model('MC_BSpline', consts=dict(PP_BIG='0' if ctx.quick else '1'), timeout=600)
    log = Log('C07')

    def augment(b, k):
        b0 = np.asarray(b)
        log.call('augment', lambda: mu.augment_breaks(b, k), enc_knots,
                 raw='augment_breaks(%s, %d)' % (short(b), k), k=k, ndim=b0.ndim,
                 br=[fx(v) for v in b0.ravel()])

    for k in range(1, 8):
        for P in (1, 2, 5):
            b = rand_breaks(rng, P)
            augment(b, k)
            augment(b.tolist(), k)
            lst = b.tolist()        # the same list again
            augment(lst, k)
            augment(lst, k + 1)
            log.call('augment', lambda: lst, enc_knots, raw='list given to augment_breaks', k=1, ndim=1,
                     br=[fx(v) for v in b])
            augment(np.arange(P + 1), k)
            augment(b[::-1][::-1], k)
    augment(np.zeros((2, 2)), 3)
    augment(np.arange(4.).reshape(1, 4), 2)

    for i in range(ctx.n(22, 160)):
        k = 1 + i % 6 if i < 12 else int(rng.integers(1, 8))
        P = int(rng.integers(1, 6))
        b = rand_breaks(rng, P, "random" if i % 11 == 10 else None)
        if i % 4 == 3 and P >= 2 and k >= 3:           # repeated interior knot
            b = np.sort(np.append(b, rng.choice(b[1:-1], 1)))
        if i % 5 == 2:
            b = np.round(b)
        if i % 7 == 5:                     # many knots
            k = min(k, 4)
            b = rand_breaks(rng, int(rng.integers(35, 60)))
        elif i % 7 == 6:                   # a very short piece
            k = min(max(k, 2), 4)
            j = int(rng.integers(0, b.size - 1))
            b = np.insert(b, j + 1, b[j] + 10.**-rng.integers(3, 6))
        kn = mu.augment_breaks(b, k)
        if i % 10 == 2:                    # integer knots
            kn = mu.augment_breaks(b.astype(int), k)
        knf = [fx(v) for v in kn]
        what = 'order=%d knots=%s' % (k, short(kn))
        x = np.concatenate([np.unique(b), rand_times(rng, np.unique(b), 4)])
        if x.size > 14:
            x = x[rng.permutation(x.size)[:10]]
        xs = rng.permutation(x)
        for nu in range(0, k + 1):
            kw = {} if nu == 0 and i % 2 else dict(deriv=nu)
            log.call('colloc', lambda: mu.colloc_matrix(xs, kn, k, **kw), arr,
                     raw='colloc_matrix x=%s %s deriv=%d' % (short(xs), what, nu), k=k, kn=knf,
                     x=[fx(v) for v in xs], nu=nu)
        N = len(kn) - k
        D = (3, 3, 8)[i % 3] if i % 11 != 10 else 168
        c = rng.normal(size=(N, D)) * 10
        pad = 0 if i % 3 else k
        cin = np.vstack([c, np.zeros((pad, D))]) if pad else c
        scale = fx(np.abs(c).max())
        # derivatives of short pieces are large; compare per piece
        common = dict(k=k, kn=knf, coef=fxn(c))
        hmin = np.diff(np.unique(kn)).min()
        if hmin > .01:
            log.call('convert', lambda: mu.pp_from_bspline(cin, kn, k),
                     lambda r: dict(br=[fx(v) for v in r[1]], c=fxn(r[0])),
                     raw='pp_from_bspline %s pad=%d' % (what, pad),
                     x=[fx(v) for v in x], scale=scale, **common)
        model = None
        try:
            model = BaseModel.from_bspline('n', kn, cin, k)
        except Exception as err:              # noqa: BLE001
            log.add(dict(op='fromb', out=dict(k='exc', type=type(err).__name__), x=[], nu=0,
                         scale=scale, **common), 'from_bspline ' + what)
            continue
        for nu in range(0, k + 1):
            log.call('fromb', lambda: model.synth_coeffs(xs, deriv=nu), arr,
                     raw='from_bspline %s deriv=%d x=%s' % (what, nu, short(xs)),
                     x=[fx(v) for v in xs], nu=nu, scale=scale, **common)
    ctx.trace('Trace_Pp', log)
