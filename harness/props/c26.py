"""C26: SHC files round-trip models and snapshots."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, farr, fx, fxs, short
from props.pp_common import model_def
from props.field_common import opt, _copies, _same
from props.file_common import shc_lines, shc_text, read, write, spline_model


def run(ctx):
    load_code()
    ctx.model('MC_ShcFile', consts=dict(SHC_BIG='0' if ctx.quick else '1'))
    log = Log('C26')
    tmp = tempfile.mkdtemp(prefix='verif-shc-')
    try:
        drive(ctx, log, ctx.rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Files', log)


def drive(ctx, log, rng, tmp):
    import chaosmagpy as cp
    from chaosmagpy import data_utils as du
    from chaosmagpy.chaos import BaseModel, CHAOS
    num = [0]

    paths = []

    def new(ext='.shc'):
        num[0] += 1
        # now and then a file that is there already
        old = [p for p in paths[:-4] if p.endswith(ext)]
        if num[0] % 3 == 0 and old:
            return old[-1 - num[0] // 3 % min(3, len(old))]
        paths.append(os.path.join(tmp, 'file%d%s' % (num[0], ext)))
        return paths[-1]

    # -- writing arrays -------------------------------------------------------
    def shc_w(times, co, header=None, **kw):
        path = new(['.shc', '.txt', '.a.b.shc'][num[0] % 3])
        old = _copies((times, co))

        def enc(_):
            lines, intact = shc_lines(read(path))
            return dict(lines=lines, intact=intact, head=read(path).split('\n')[:6])
        c = np.asarray(co)
        hd = [] if header is None else header.rstrip('\n').split('\n')
        if header is not None:
            kw['header'] = header
        log.call('shc_w', lambda: du.save_shcfile(times, co, filepath=path, **kw), enc,
                 raw='save_shcfile(%s)' % short(times, co, **kw),
                 times=farr(np.atleast_1d(np.asarray(times, dtype=float))), co=farr(c), head=hd,
                 order=opt(kw.get('order')), nmin=opt(kw.get('nmin')), nmax=opt(kw.get('nmax')),
                 leap=kw.get('leap_year') in (None, True), same=True)
        log.events[-1]['same'] = _same((times, co), old)
        return path

    # -- reading files ----------------------------------------------------------
    def shc_r(path, comment=None, leap=None):
        kw = {}
        if comment is not None:
            kw['comment'] = comment
        if leap is not None:
            kw['leap_year'] = leap
        cs = ['#'] if comment is None else [comment] if isinstance(comment, str) else list(comment)
        lines, _ = shc_lines(read(path), tuple(cs))

        def enc(r):
            t, c, p = r
            return dict(time=farr(t), co=farr(c), name=p['SHC'],
                        par=[int(p[k]) for k in ('nmin', 'nmax', 'N', 'order', 'step')])
        log.call('shc_r', lambda: du.load_shcfile(path, **kw), enc,
                 raw='load_shcfile(%s) of\n%s' % (short(os.path.basename(path), **kw), read(path)[:600]),
                 lines=lines, cs=cs, leap=leap in (None, True), name=os.path.basename(path))

    shapes = [(1,), (2,), (5,), (1, 0), ()]
    for i in range(ctx.n(60, 300)):
        N = int(rng.integers(1, 5))
        T = int(rng.integers(1, 7))
        scale = 10.**rng.integers(-3, 9) if i % 8 != 5 else 10.**rng.integers(-10, -7)
        co = rng.normal(size=(T, N * (N + 2))) * scale
        times = np.sort(rng.uniform(-40000, 20000, T))
        if i % 5 == 1:
            times = np.sort(rng.integers(-3000, 9000, T))
        if i % 5 == 2:      # first and last days of years
            times = np.sort([float(du.mjd2000(int(rng.integers(1890, 2040)), 1, 1)) - (k % 2) * rng.random()
                             for k in range(T)])
        if i % 7 == 3:
            co = co[0]
            times = float(times[0]) if i % 2 else times[:1]
        elif i % 7 == 4:
            times = times.tolist()
        elif i % 7 == 5:
            co = np.asfortranarray(co) if i % 2 else co[:, ::-1]
        elif i % 7 == 6:
            co = np.round(co).astype(int)
        kw = {}
        nmin, nmax = int(rng.integers(1, N + 1)), int(rng.integers(1, N + 1))
        if rng.random() < .6:
            kw['nmin'] = nmin
        if rng.random() < .6:
            kw['nmax'] = nmax
        if rng.random() < .7:
            kw['order'] = int(rng.integers(1, 7))
        lp = [None, True, False][int(rng.integers(0, 3))]
        if lp is not None:
            kw['leap_year'] = lp
        hd = [None, '# one line\n', '# two lines\n# 5 6 7 8 9\n', '', '  # blanks\n'][int(rng.integers(0, 5))]
        p = shc_w(times, co, header=hd or None, **kw)
        if os.path.exists(p):
            shc_r(p, leap=[None, True, False][int(rng.integers(0, 3))])
    for i in range(ctx.n(25, 120)):
        nmin = int(rng.integers(1, 4))
        nmax = nmin + int(rng.integers(0, 3))
        T = int(rng.integers(1, 8))
        D = nmax * (nmax + 2) - nmin**2 + 1
        ch = ['#', '%', '!', ';', '//', 'c/s'][i % 6]
        ty = np.sort(rng.uniform(1880, 2050, T)) if i % 3 else np.arange(T) * 2.5 + 1995
        p = new()
        write(p, shc_text(rng, ty, rng.normal(size=(T, D)) * 1e3, nmin, nmax, int(rng.integers(1, 6)),
                          comment=ch, digits=int(rng.integers(1, 10))))
        cm = (None if ch == '#' and i % 2 else ch if i % 3 else [(ch, '#', '&'), ('&', ch), ('#', '/', ch)][i // 3 % 3])
        shc_r(p, comment=cm, leap=[None, True, False][i % 3])

    # -- models ---------------------------------------------------------------------
    def enc_model(ts):
        def enc(m):
            return dict(nmax=int(m.nmax), order=int(m.order), co=farr(m.synth_coeffs(ts)))
        return enc

    def times_for(br, order, n=9):
        ts = np.concatenate((rng.uniform(br[0], br[-1], n), br[1:-1], br[1:-1] - .01))
        if order == 1:      # also outside, where the first and last value hold
            near = np.abs(ts[:, None] - br[None, :]).min(axis=1) < 1e-4
            ts = np.concatenate((ts[~near], [br[0] - 50., br[-1] + 50.]))
        else:
            ts = np.concatenate((ts, [br[0], br[-1]]))
        return np.clip(ts, None if order == 1 else br[0], None if order == 1 else br[-1])

    def roundtrip(br, c, save, load, nmin, nmax, label, mangle=None):
        order = c.shape[0]
        ts = times_for(br, order)
        i = log.define(model_def(br, c))
        path = new()

        def go():
            save(path)
            if mangle:
                write(path, mangle(read(path), order))
            return load(path)
        log.call('shc_m', go, enc_model(ts), m=i, nmin=nmin, nmax=nmax, ts=fxs(ts),
                 raw='%s breaks=%s coeffs=%s times=%s' % (label, short(br), short(c), short(ts)))

    def mangle(text, order):
        """Comment lines anywhere, and sites after the last break."""
        lines = text.rstrip('\n').split('\n')
        data = [k for k, s in enumerate(lines) if s.strip() and not s.strip().startswith('#')]
        step = max(order - 1, 1)
        if step > 1:
            par = [int(x) for x in lines[data[0]].split()]
            extra = int(rng.integers(1, step))
            lines[data[0]] = '%d %d %d %d %d' % (par[0], par[1], par[2] + extra, par[3], par[4])
            last = float(lines[data[1]].split()[-1])
            lines[data[1]] += ''.join(' %.8f' % (last + .1 * (k + 1)) for k in range(extra))
            for k in data[2:]:
                lines[k] += ''.join(' %.8f' % v for v in rng.normal(size=extra) * 1e4)
        for k in sorted(rng.choice(data, 3).tolist() + [0, len(lines)], reverse=True):
            lines.insert(k, '# 1 2 3 4 5')
        return '\n'.join(lines) + '\n'

    def leapkw(j):
        lp = [None, True, False][j % 3]
        return {} if lp is None else dict(leap_year=lp)
    for j in range(ctx.n(60, 300)):
        order = 1 + j % 6
        P = int(rng.integers(1, 7)) if order < 6 else int(rng.integers(1, 4))
        N = int(rng.integers(1, 4))
        if order == 1:
            br = np.concatenate(([0.], np.cumsum(rng.uniform(60, 500, P)))) + rng.integers(-3000, 5000)
            c = rng.normal(size=(1, P, N * (N + 2))) * 100
        else:
            br, c = spline_model(rng, order, P, N * (N + 2))
        name = 'model %d' % j
        kw = leapkw(j // 2)
        src = 'external' if j % 11 == 3 else 'internal'
        nmin = int(rng.integers(1, N + 1)) if j % 3 == 1 else 1
        nmax = int(rng.integers(nmin, N + 1)) if j % 4 == 1 else N
        w = {}
        if nmin > 1 or j % 2:
            w['nmin'] = nmin
        if nmax < N or j % 2:
            w['nmax'] = nmax
        if j % 5 == 2:
            w['header'] = '# header 1\n# 2 3 4\n'

        def mk():
            return BaseModel(name, breaks=br, order=order, coeffs=c, source=src)
        roundtrip(br, c, lambda p: mk().to_shc(p, **kw, **w),
                  lambda p: BaseModel.from_shc(p, source=src, **kw), nmin, nmax,
                  'to_shc/from_shc order %d %s %s' % (order, kw, w), mangle if j % 2 else None)
        if order > 1 or P > 1:
            def ch():
                return CHAOS(br, order, coeffs_tdep=c, name=name)
            part = {} if j % 2 else dict(model='tdep')
            ld = [cp.load_CHAOS_shcfile, CHAOS.from_shc][j % 2]
            roundtrip(br, c, lambda p: ch().save_shcfile(p, **part, **kw),
                      lambda p: ld(p, **kw).model_tdep, 1, N,
                      'CHAOS.save_shcfile order %d %s' % (order, kw))
        # static part
        ns = N + int(rng.integers(1, 3))
        cs = rng.normal(size=(1, 1, ns * (ns + 2))) * 100
        both = j % 3 != 2

        def st():
            return CHAOS(br, order, coeffs_tdep=c if both else None, coeffs_static=cs, name=name)
        if j % 3 == 0 or not both:
            roundtrip(br[[0, -1]], cs, lambda p: st().save_shcfile(p, model='static', **kw),
                      lambda p: cp.load_CHAOS_shcfile(p, **kw).model_static, N + 1 if both else 1, ns,
                      'CHAOS.save_shcfile static %s' % kw)

    # -- files of snapshots -----------------------------------------------------------
    for j in range(ctx.n(24, 100)):
        order = 1 + j % 2
        nmin = 1 + (j // 2) % 2
        nmax = nmin + int(rng.integers(0, 2))
        T = int(rng.integers(2, 8))
        D = nmax * (nmax + 2) - nmin**2 + 1
        lp = bool(j % 3 == 0)
        ty = np.round(np.sort(rng.uniform(1990, 2010, T)) + np.arange(T) * .5, 3)
        p = new()
        write(p, shc_text(rng, ty, rng.normal(size=(T, D)) * 1e3, nmin, nmax, order))
        mj = np.array([float(v) for v in du.dyear_to_mjd(ty, leap_year=lp)])
        # times away from the tabulated ones by more than their round-off
        ts = mj[:-1] + rng.uniform(.02, .98, T - 1) * np.diff(mj)
        if order == 1:
            ts = np.append(ts, [mj[-1] + 10., mj[0] - 10.])
        lines, _ = shc_lines(read(p))
        log.call('shc_f', lambda: BaseModel.from_shc(p, **(dict(leap_year=lp) if lp or j % 2 else {})),
                 lambda m: dict(co=farr(m.synth_coeffs(ts))), lines=lines, leap=lp, ts=fxs(ts),
                 raw='from_shc(leap_year=%s) at %s of\n%s' % (lp, short(ts), read(p)[:800]))
