"""C04: time-dependent coefficients are the pieces and their derivatives."""
import numpy as np
from core import Log, load_code, farr, arr, short, sampled
from props.pp_common import model_def, rand_breaks, rand_coeffs, rand_times


def run(ctx):
    cp = load_code()
    from chaosmagpy.chaos import Base, BaseModel, CHAOS
    rng = ctx.rng
    ctx.model('MC_PiecewisePoly', consts=dict(PP_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C04')

    def q(m, fn, time, dim, nu, D, raw, **extra):
        log.call('pp', fn, arr, raw=raw, m=m, time=farr(time), nu=0 if nu is None else int(nu),
                 dim=dim, ext=2, **extra)

    for i in range(ctx.n(14, 120)):
        order = int(rng.integers(1, 7)) if i > 5 else i + 1
        nmax = int(rng.integers(1, 4))
        D = nmax * (nmax + 2)
        P = int(rng.integers(1, 7))
        br = rand_breaks(rng, P)
        c = rand_coeffs(rng, order, br, D)
        m = log.define(model_def(br, c))
        base = Base('b', breaks=br, order=order, coeffs=c)
        model = BaseModel('m', breaks=br, order=order, coeffs=c)
        chaos = CHAOS(breaks=br, order=order, coeffs_tdep=c)
        what = 'order=%d pieces=%d dim=%d breaks=%s' % (order, P, D, short(br))

        def all_calls(t, nu=None, nm=None):
            dim = 0 if nm is None else nm * (nm + 2)
            kw = {} if nm is None else dict(nmax=nm)
            kd = {} if nu is None else dict(deriv=nu)
            r = '%s t=%s nmax=%s deriv=%s' % (what, short(t), nm, nu)
            w = rng.integers(0, 3)
            if w == 0:
                kb = {} if nm is None else dict(dim=dim)
                q(m, lambda: base.synth_coeffs(t, **kb, **kd), t, dim, nu, D, 'Base ' + r)
            elif w == 1:
                q(m, lambda: model.synth_coeffs(t, **kw, **kd), t, dim, nu, D, 'BaseModel ' + r)
            else:
                q(m, lambda: chaos.synth_coeffs_tdep(t, **kw, **kd), t, dim, nu, D, 'CHAOS ' + r)

        for nu in [None] + list(range(0, order + 2)):
            for t in list(br):
                all_calls(float(t), nu)
            all_calls(br, nu)
            e = br[-1]      # close to the last break
            all_calls(np.array([e * (1 - 4e-6), e * (1 + 4e-6), e - 1e-3, e + 1e-3, e - 1e-9]), nu)
            all_calls(rand_times(rng, br, 6), nu)
        for nm in (1, nmax, nmax + 1, nmax + 5):
            all_calls(rand_times(rng, br, 3), int(rng.integers(0, order)), nm)
        # dims that are no complete degree
        t = rand_times(rng, br, 2)
        for dim in (1, 2, D - 1, D, D + 1, D + 7):
            if dim >= 1:
                q(m, lambda: base.synth_coeffs(t, dim=dim), t, dim, 0, D,
                  'Base %s t=%s dim=%d' % (what, short(t), dim))
        # shapes, types and order of the times
        for shape in [(), (1,), (5,), (2, 3), (2, 1, 2)]:
            t = rand_times(rng, br, int(np.prod(shape, dtype=int))).reshape(shape)
            nu = int(rng.integers(0, order + 1))
            all_calls(t, nu)
            all_calls(t.tolist(), nu)
            if t.ndim:
                all_calls(t[::-1], nu)
                all_calls(np.asfortranarray(t), nu)
        ti = np.arange(np.ceil(br[0]), np.floor(br[-1]) + 1, max(1, (br[-1] - br[0]) // 5)
                       ).astype(int)
        if ti.size:
            all_calls(ti, 0)
            all_calls(int(ti[0]), 1)
        big = rand_times(rng, br, 6)
        big[::2] = br[-1]
        all_calls(np.sort(big)[::-1], order - 1)
    # many times in one call, every one judged
    br = rand_breaks(rng, 12)
    c = rand_coeffs(rng, 6, br, 3)
    m = log.define(model_def(br, c))
    model = BaseModel('m', breaks=br, order=6, coeffs=c)
    for nu in range(0, 7):
        t = rng.permutation(np.concatenate([br, rand_times(rng, br, ctx.n(120, 1500))]))
        q(m, lambda: model.synth_coeffs(t, deriv=nu), t, 0, nu, 3, 'many times, deriv=%d' % nu)
        for n in (1201, 10007):        # large calls, some judged
            with sampled(rng, n):
                t = rng.permutation(np.concatenate([br, rand_times(rng, br, n - br.size)]))
                q(m, lambda: model.synth_coeffs(t, deriv=nu), t, 0, nu, 3,
                  '%d times, deriv=%d' % (n, nu))
    # one or two breaks; zero-length pieces of order-1 models
    for br, c in [(np.array([100.]), np.ones((1, 1, 3)) * [[[1., 2., 3.]]]),
                  (np.array([100., 100.]), np.arange(3.).reshape(1, 1, 3)),
                  (np.array([0., 10., 20., 20.]), np.arange(9.).reshape(1, 3, 3))]:
        b2 = br if br.size > 1 else np.append(br, br)
        m = log.define(model_def(b2, c))
        model = BaseModel('m', breaks=br, order=1, coeffs=c)
        e = br[-1]
        for t in (float(br[0]), float(br[-1]), br, np.array([e - 1e-9, e - 1e-7, e + 1e-9, e - 1e-4, e])):
            for nu in (0, 1):
                q(m, lambda: model.synth_coeffs(t, deriv=nu), t, 0, nu, 3,
                  'breaks=%s t=%s deriv=%d' % (short(br), short(t), nu))
    ctx.trace('Trace_Pp', log)
