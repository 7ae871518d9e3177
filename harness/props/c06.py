"""C06: the piecewise-polynomial container and its pp-form."""
import os
import shutil
import tempfile

import numpy as np
from core import Log, load_code, farr, arr, fx, fxn, short
from props.pp_common import model_def, rand_breaks, rand_coeffs, rand_times


def enc_attr(m):
    return dict(pieces=int(m.pieces), order=int(m.order), dim=int(m.dim),
                nmax=int(m.nmax) if hasattr(m, 'nmax') else -1,
                br=[fx(v) for v in m.breaks], c=fxn(m.coeffs))


def enc_attr0(m):
    def v(x, none):
        return none if x is None else int(x)
    if m.coeffs is not None:
        raise ValueError('coefficients')
    return dict(pieces=v(m.pieces, -1), order=v(m.order, 0), dim=v(m.dim, -1),
                br=[] if m.breaks is None else [fx(v) for v in m.breaks])


def enc_pp(pp):
    form = pp['form']
    order, pieces, dim = (int(np.asarray(pp[k]).item()) for k in ('order', 'pieces', 'dim'))
    coefs = np.asarray(pp['coefs'], dtype=float).reshape(pieces * dim, order)
    return dict(form=str(form if isinstance(form, str) else np.asarray(form).item()),
                order=order, pieces=pieces, dim=dim,
                breaks=[fx(v) for v in np.ravel(pp['breaks'])], coefs=fxn(coefs))


def enc_pp_mem(pp):
    if np.asarray(pp['coefs']).shape != (int(pp['pieces']) * int(pp['dim']), int(pp['order'])):
        raise ValueError('shape of coefs')
    return enc_pp(pp)


def run(ctx):
    cp = load_code()
    from chaosmagpy.chaos import Base, BaseModel, CHAOS
    du = cp.data_utils
    rng = ctx.rng
    ctx.model('MC_PiecewisePoly', consts=dict(PP_BIG='0'))
    log = Log('C06')
    tmp = tempfile.mkdtemp(prefix='verif-c06-')
    try:
        n = ctx.n(24, 150)
        for i in range(n + 3):
            K = 1 + i % 6
            nmax = 1 + i % 3
            P = 1 if i % 5 == 0 else int(rng.integers(1, 7))
            if i >= n:         # many pieces, high degrees
                K, nmax, P = [(2, 1, 300), (1, 16, 2), (3, 6, 12)][i - n]
            D = nmax * (nmax + 2)
            br = rand_breaks(rng, P)
            c = rand_coeffs(rng, K, br, D)
            given = br if P > 1 or i % 2 else br[:1]
            if given.size == 1:
                br = np.append(given, given)
            for order in (None, 1, K, K + 2, max(1, K - 1), np.int64(K)):
                for cls, form in ((Base, 0), (BaseModel, 1), (BaseModel, 2), (CHAOS, 3)):
                    b_in, c_in = given, c
                    if form == 2:
                        b_in, c_in = given.tolist(), c.tolist()
                    if given.size == 1 and form == 2:
                        b_in = float(given[0])
                    if cls is CHAOS:
                        th = lambda: CHAOS(breaks=b_in, order=order, coeffs_tdep=c_in).model_tdep  # noqa: E731,E501
                    else:
                        th = lambda: cls('n', breaks=b_in, order=order, coeffs=c_in)  # noqa: E731
                    raw = '%s(breaks=%s, order=%s, coeffs %s)' % (
                        cls.__name__, short(b_in), order, c.shape)
                    log.call('attr', th, enc_attr, raw=raw, br=[fx(v) for v in given], c=fxn(c),
                             order=0 if order is None else int(order))
                K2 = K if order is None else min(int(order), K)
                if form == 3 and order in (None, K, max(1, K - 1)):
                    # values use the lowest-order rows only
                    mi = log.define(model_def(br, c[-K2:]))
                    m = BaseModel('n', breaks=given, order=order, coeffs=c)
                    t = rand_times(rng, br, 4)
                    nu = int(rng.integers(0, K2 + 1))
                    log.call('pp', lambda: m.synth_coeffs(t, deriv=nu), arr,
                             raw='%s t=%s deriv=%d' % (raw, short(t), nu), m=mi, time=farr(t),
                             nu=nu, dim=0, ext=2)
            mi = log.define(model_def(br, c))
            base = (Base, BaseModel)[i % 2]('n', breaks=given, order=K, coeffs=c)
            raw = 'order=%d breaks=%s dim=%d' % (K, short(given), D)
            log.call('ppform', base.to_ppdict, enc_pp_mem, raw='to_ppdict ' + raw, m=mi)
            path = os.path.join(tmp, 'm%d.mat' % i)
            inner = None if i % 3 else '/sub'

            def save_load():
                if inner:
                    base.save_matfile(path, path=inner)
                    return du.load_matfile(path)[inner[1:]]
                base.save_matfile(path)
                return du.load_matfile(path, variable_names=['pp'] if i % 2 else None)['pp']
            log.call('ppform', save_load, enc_pp, raw='save_matfile ' + raw, m=mi)
            # saving or exporting must leave the model as it was
            log.call('ppform', base.to_ppdict, enc_pp_mem, raw='to_ppdict again ' + raw, m=mi)
            pp = base.to_ppdict()
            pp['coefs'][...] = 7.
            pp['breaks'][...] = 7.
            log.call('ppform', base.to_ppdict, enc_pp_mem, raw='to_ppdict, changed ' + raw, m=mi)
        # models without coefficients
        empties = [(lambda: Base('n').synth_coeffs(0.), 'Base(n)'),
                   (lambda: Base('n', breaks=[0., 1.], order=1).synth_coeffs(.5), 'Base(breaks)'),
                   (lambda: BaseModel('n').synth_coeffs(0.), 'BaseModel(n)'),
                   (lambda: BaseModel('n', breaks=[0., 1.], order=2).synth_coeffs([.5]), 'BM'),
                   (lambda: BaseModel('n', breaks=[0., 1.], order=2).synth_values(
                       0.5, 6371.2, 45., 0.), 'BM values'),
                   (lambda: BaseModel('n', breaks=[0., 1.], coeffs=np.zeros((1, 1, 0))
                                      ).synth_coeffs(.5), 'BM empty'),
                   (lambda: CHAOS(breaks=np.array([0., 1.])).synth_coeffs_tdep(0.5), 'CHAOS tdep'),
                   (lambda: CHAOS(breaks=np.array([0., 1.])).synth_values_tdep(
                       .5, 6371.2, 45., 0.), 'CHAOS values tdep'),
                   (lambda: CHAOS(breaks=np.array([0., 1.])).synth_coeffs_static(), 'CHAOS st'),
                   (lambda: CHAOS(breaks=np.array([0., 1.])).synth_values_static(
                       6371.2, 45., 0.), 'CHAOS values st')]
        for b in (None, 3., [3.], np.array([3.]), [0., 1.], (0, 1, 5), rand_breaks(rng, 7)):
            for order in (None, 1, 4):
                for cls in (Base, BaseModel):
                    log.call('attr0', lambda: cls('n', breaks=b, order=order), enc_attr0,
                             raw='%s(breaks=%s, order=%s)' % (cls.__name__, short(b), order),
                             br=[] if b is None else [fx(v) for v in np.ravel(b)],
                             order=order or 0)
        for th, raw in empties:
            log.call('none', th, lambda r: dict(), raw=raw)
        ctx.trace('Trace_Pp', log)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
