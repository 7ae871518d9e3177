"""C28: third-party model files load as the documented snapshots and splines."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, farr, fxs, short, sampled
from props.file_common import write


def run(ctx):
    load_code()
    ctx.model('MC_ModelFiles', consts=dict(MF_BIG='0' if ctx.quick else '1'))
    log = Log('C28')
    tmp = tempfile.mkdtemp(prefix='verif-models-')
    try:
        igrf(ctx, log, ctx.rng, tmp)
        splines(ctx, log, ctx.rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Files', log)


def labels(N):
    return [(n, s * m) for n in range(1, N + 1) for m in range(n + 1) for s in ((1, -1) if m else (1,))]


def place(rng, tmp, j, names):
    """Path, name to ask for and name to expect."""
    f = names[j % len(names)]
    os.makedirs(os.path.join(tmp, 'd%d' % j))
    p = os.path.join(tmp, 'd%d' % j, f)
    given = 'my model' if j % 5 == 3 else None
    return p, given


def igrf(ctx, log, rng, tmp):
    import chaosmagpy as cp
    for j in range(ctx.n(24, 120)):
        N = 13 if j == 0 else int(rng.integers(1, 5))
        E = int(rng.integers(2, 6)) if j else 25
        first = int(rng.choice([1900, 1945, 1980, 2000, 2005]))
        ep = first + 5 * np.arange(E) if j % 4 != 3 else np.round(first + np.cumsum(rng.uniform(.4, 7, E)), 2)
        if j == 0:
            ep = 1900 + 5 * np.arange(E)
        lab = labels(N)
        tab = np.round(rng.normal(size=(len(lab), E + 1)) * 10.**rng.integers(-1, 5, (len(lab), 1)),
                       int(rng.integers(0, 4)))
        if j % 3 == 1:
            tab[-3:, -1] = 0.
        p, given = place(rng, tmp, 1000 + j, ['IGRF13.txt', 'igrf13coeffs.txt', 'igrf', 'igrf.v.13.txt'])
        sep = ['  ', ' ', '\t'][j % 3]
        head = ['# 13th Generation IGRF 1 2 3', '#', 'c/s deg ord ' + 'IGRF ' * E + 'SV']
        rows = [sep.join(['g/h', 'n', 'm'] + ['%.*f' % (2 if j % 4 == 3 else 1, e) for e in ep] +
                         ['%d-%02d' % (ep[-1], (ep[-1] + 5) % 100)])]
        for k, (n, m) in enumerate(lab):
            rows.append(sep.join(['g' if m >= 0 else 'h', str(n), str(abs(m))] +
                                 [('%r' % float(v) if j % 2 else '%.3f' % v).rjust(8 * (j % 2)) for v in tab[k]]))
            if j % 4 == 2 and k == 1:
                rows.append('  # a comment 1 2 3')
        write(p, '\n'.join((head if j % 3 else head[2:]) + rows) + ('\n' if j % 2 else ''))
        i = log.define(dict(ep=fxs(ep), lab=[list(x) for x in lab], tab=[fxs(r) for r in tab]))
        # instants between the epochs, where the conversion of years does not matter,
        # the middle of them and around them
        mj = cp.data_utils.dyear_to_mjd(np.append(ep, ep[-1] + 5.).astype(float), leap_year=True)
        ts = np.concatenate((rng.uniform(mj[0], mj[-1], 4), mj[1:-1][:5], [mj[0] + 1e-6, mj[-1] - 1e-6],
                             rng.uniform(mj[-2], mj[-1], 2)))

        def enc(m):
            return dict(name=m.name, co=farr(m.synth_coeffs(ts)), nmax=int(m.nmax), src=m.source)
        log.call('igrf', lambda: cp.load_IGRF_txtfile(p, **({} if given is None else dict(name=given))), enc,
                 m=i, ts=fxs(ts), name=given or os.path.splitext(os.path.basename(p))[0], nmax=N,
                 raw='load_IGRF_txtfile at %s of\n%s' % (short(ts), open(p).read()[:600]))


def number(v, style):
    return ['%.10g' % v, '%.8f' % v, '%.9E' % v, ('%.9E' % v).replace('E', 'D'),
            ('%.9E' % v).replace('E+', 'D').replace('E', 'D')][style]


def splines(ctx, log, rng, tmp):
    import chaosmagpy as cp
    total = ctx.n(45, 250)
    for j in range(total + 3):
        kind = j % 3
        full = j >= total          # a model of its true size
        N = int(rng.integers(1, 4)) if not full else (14, 14, 10)[kind]
        D = N * (N + 2)
        order = 4 if kind else int(rng.choice([2, 3, 4, 4, 5, 6]))
        n = int(rng.integers(1, 7)) if not full else (84, 163, 150)[kind]
        y0 = float([1840, 1590, -5000][kind]) + float(rng.integers(0, 50))
        step = [2., 2.5, 60.][kind]
        if j % 4 == 2:
            kn = y0 + np.cumsum(rng.uniform(.3, 2, n + order)) * step
        else:
            kn = y0 + np.arange(n + order) * step
        kn = np.round(kn, 4)
        c = rng.normal(size=(n, D)) * 10.**rng.integers(0, 5, D)
        st = [0, 1, 3][kind] if j % 2 else [2, 2, 3][kind]
        st += st == 3 and j // 3 % 2
        num = [[float(number(v, min(st, 2))) for v in row] for row in c]
        body = []
        vals = [number(v, st) for row in c for v in row]
        w = int(rng.integers(1, 7))
        for k in range(0, len(vals), w):
            body.append(' '.join(vals[k:k+w]))
        kt = ['%.4f' % v for v in kn]
        wrap = [' '.join(kt[k:k+w]) for k in range(0, len(kt), w)]
        extra = int(rng.integers(0, 90))
        if kind == 0:
            p, given = place(rng, tmp, j, ['COV-OBS.x2-int', 'covobs.txt', 'COV'])
            text = ['1 2 3 comment', '%d %d %d %s' % (N, extra, order, ' '.join(kt))] + body
            load = cp.load_CovObs_txtfile
        elif kind == 1:
            p, given = place(rng, tmp, j, ['gufm1', 'gufm1.txt', 'gufm1_data.txt'])
            text = ['gufm1 1 2 3', '%d %d' % (N, n)] + wrap + body
            load = cp.load_gufm1_txtfile
        else:
            p, given = place(rng, tmp, j, ['CALS7K.2', 'CALS7K', 'CALS10k.1b.txt'])
            text = ['%.1f %.1f %d' % (kn[0], kn[-1], 4), '%d %d %d %d' % (extra, N, extra, n)] + wrap + body
            load = cp.load_CALS7K_txtfile
        write(p, '\n'.join(text) + '\n')
        base = os.path.basename(p)
        want = given or (base if kind == 2 else os.path.splitext(base)[0])
        w = sampled(rng, D, 6) if full else None
        i = log.define(dict(k=order, kn=fxs(kn), c=[fxs(np.asarray(r)[w.idx] if full else r) for r in num]))
        mj = cp.data_utils.dyear_to_mjd(kn, leap_year=False)
        for nu in range(0, 3):
            ts = np.concatenate((rng.uniform(mj[0], mj[-1], 6), [(mj[0] + mj[1]) / 2, (mj[-2] + mj[-1]) / 2]))
            if nu < order - 1:          # continuous at the knots
                ts = np.concatenate((ts, mj[1:-1][:3], [mj[0] + 1e-7, mj[-1] - 1e-7]))
            if nu >= order:
                break

            def enc(m):
                return dict(name=m.name, co=farr(m.synth_coeffs(ts, **(dict(deriv=nu) if nu else {}))),
                            nmax=int(m.nmax), src=m.source)
            sampled.now = w
            log.call('spl', lambda: load(p, **({} if given is None else dict(name=given))), enc, m=i, nu=nu,
                     ts=fxs(ts), name=want, nmax=N,
                     raw='%s derivative %d at %s of\n%s' % (load.__name__, nu, short(ts), open(p).read()[:600]))
            sampled.now = None
