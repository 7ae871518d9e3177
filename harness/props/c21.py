"""C21: Fourier-synthesised rotation matrices."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, farr, fx, fxs, short, sampled
from props.rot_common import cenc


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Rotation', consts=dict(RO_BIG='0'))
    log = Log('C21')
    tmp = tempfile.mkdtemp(prefix='verif-fft-')
    try:
        _run(ctx, rng, log, cu, basicConfig, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Rotation', log)


def _run(ctx, rng, log, cu, basicConfig, tmp):
    import chaosmagpy

    def syn(time, freq, spec, scaled=None, truth=None):
        k = {} if scaled is None else dict(scaled=scaled)
        return log.call('syn', lambda: cu.synth_rotate_gauss(time, freq, spec, **k), farr,
                        raw='synth_rotate_gauss(%s)' % short(time, freq, spec, **k),
                        time=farr(time), freq=farr(freq), spec=cenc(spec),
                        scaled=bool(scaled) if scaled is not None else False)

    flags = [None, True, False, np.True_, np.False_, np.array(True), np.array(False)]
    for i in range(ctx.n(60, 600)):
        K, m, n = rng.integers(1, 6), rng.integers(1, 4), rng.integers(1, 4)
        if i % 2:
            freq = rng.uniform(0, 5, K)
        else:
            freq = rng.uniform(0, 5, (K, m, n))
        freq.flat[rng.integers(freq.size)] = 0.
        if i % 5 == 0:
            freq.flat[0] = 0.
        spec = rng.normal(size=(K, m, n)) + 1j * rng.normal(size=(K, m, n))
        time = np.asarray(rng.uniform(-3000, 9000, [(), (1,), (3,), (2, 2), (4,)][i % 5]))
        if i % 7 == 0:
            time = np.asarray(rng.integers(-5, 5000, 3))
        if i % 7 == 1 and time.ndim:
            time = np.repeat(time, 2, axis=0)[::2]
        syn(time, freq, spec, flags[i % len(flags)])
        if i % 6 == 0:
            syn(time, list(freq), [list(x) for x in spec], flags[(i + 1) % len(flags)])
    # the shipped spectra
    root = os.path.dirname(os.path.abspath(chaosmagpy.__file__))
    for ref in ('gsm', 'sm'):
        with np.load(os.path.join(root, 'lib', 'frequency_spectrum_%s.npz' % ref)) as f:
            fr, sp, sc = f['frequency'], f['spectrum'], f['scaled']
            fi, si = f['frequency_ind'], f['spectrum_ind']
        for j in range(ctx.n(2, 6)):
            syn(rng.uniform(-3000, 9000, 2), fr, sp, sc)
            syn(rng.uniform(-3000, 9000, 1), fi, si, bool(sc))
        for n in (1201, 4001):         # many times
            with sampled(rng, n, 3):
                syn(rng.uniform(-3000, 9000, n), fr, sp, sc)
                syn(rng.integers(-3000, 9000, n), fi[:2], si[:2], bool(sc))

    def fft(nmax, kmax, ref, q=None, **kw):
        step = kw.get('step')
        step = 1.0 if step is None else step
        N = int(kw['N'])
        flt = kw.get('filter')
        flt = N // 2 + 1 if flt is None else int(flt)
        start = kw.get('start_date')
        start = 0. if start is None else start
        scaled = kw.get('scaled')
        save = kw.get('save_to')
        dip = np.array(basicConfig['params.dipole'], dtype=float)
        ev = dict(nmax=nmax, kmax=kmax, ref=str(ref).lower() if ref else 'gsm', N=N, filter=flt,
                  step=fx(step), start=fx(start), scaled=bool(scaled), dip=fxs(dip),
                  bad=str(ref).lower() not in ('gsm', 'sm', 'none'), sigma=[], rad=[],
                  saved=bool(save), npz=0)
        args = {k: v for k, v in kw.items() if v is not None}
        if ref is not None:
            args['reference'] = ref
        if q == 'given':
            def qfunc(freq, k):
                return (1. + k / 2) / (1. + 2e4j * freq)
            args['qfunc'] = qfunc
            ev['q'] = 'given'
        else:
            sig = np.loadtxt(basicConfig['file.Earth_conductivity'])
            ev['q'] = 'earth'
            ev['sigma'] = fxs(sig[:, 1])
            ev['rad'] = [fx(v) for v in 6371.2 - sig[:, 0]]
        keep = {}

        def enc(res):
            f, s, fi, si = res
            keep['res'] = res
            return dict(f=farr(f), s=cenc(s), fi=farr(fi), si=cenc(si))
        log.call('fft', lambda: cu.rotate_gauss_fft(nmax, kmax, **args), enc,
                 raw='rotate_gauss_fft(%s)' % short(nmax, kmax, **args), **ev)
        e = log.events[-1]
        if save and keep:
            try:
                with np.load(save) as z:
                    ref_ = z['reference']
                    e['npz'] = dict(f=farr(z['frequency']), s=cenc(z['spectrum']),
                                    fi=farr(z['frequency_ind']), si=cenc(z['spectrum_ind']),
                                    step=fx(z['step'][()]), N=int(z['N']), filter=int(z['filter']),
                                    reference=str(ref_).lower(), scaled=bool(z['scaled']),
                                    dipole=fxs(z['dipole']), start=fx(z['start_date'][()]))
            except Exception as x:      # noqa: BLE001  unreadable file: judged as a difference
                e['npz'] = dict(f=dict(error=str(x)[:100]))
        # all frequencies kept and no Nyquist term: the samples are reproduced
        if keep and N % 2 and flt == N // 2 + 1:
            f, s = keep['res'][:2]
            sc = bool(scaled)
            if save:
                try:
                    with np.load(save) as z:
                        f, s, sc = z['frequency'], z['spectrum'], z['scaled']
                except Exception:       # noqa: BLE001  named above
                    pass
            idx = sorted(set(int(x) for x in rng.integers(0, N, 4)) | {0, N - 1})
            # the discrete transform counts time from its first sample
            tt = np.array(idx) * step / 24.
            log.call('fsyn', lambda: cu.synth_rotate_gauss(tt, f, s, scaled=sc), farr,
                     raw='synth_rotate_gauss at the samples of rotate_gauss_fft(%s)'
                         % short(nmax, kmax, **args),
                     idx=idx, **{k: ev[k] for k in ('nmax', 'kmax', 'ref', 'step', 'start', 'dip')})
        return keep.get('res')

    i = 0
    for ref in ('gsm', 'sm', 'GSM', None):
        for N in (1, 2, 5, 9, 12):
            for scaled in (None, True):
                i += 1
                fft(int(rng.integers(1, 3)), int(rng.integers(1, 3)), ref,
                    q='given', N=N, scaled=scaled, step=[None, 1., 3.7, 24.][i % 4],
                    start_date=[None, -1000.25, 5000][i % 3],
                    save_to=os.path.join(tmp, 'a%d.npz' % i) if i % 2 else None)
    for j in range(ctx.n(12, 80)):
        N = int(rng.integers(4, ctx.n(14, 30)))
        fft(int(rng.integers(1, 4)), int(rng.integers(1, 4)), rng.choice(['gsm', 'sm']), q='given',
            N=N, filter=int(rng.integers(1, N // 2 + 2)), scaled=[None, True, False][j % 3],
            step=float(rng.uniform(.5, 30)), start_date=float(rng.uniform(-9000, 9000)),
            save_to=os.path.join(tmp, 'b%d.npz' % j) if j % 2 else None)
    # induction in the configured conductor
    fft(2, 1, 'sm', N=9, step=2.)
    fft(1, 2, 'gsm', N=7, filter=3, scaled=True, start_date=3000.)
    fft(2, 2, 'geo', q='given', N=5)
    fft(2, 2, 'mag', q='given', N=5)
    # the configured dipole is the one of the frames
    for g in ([-29442., -1501., 4797.1], [-30000., 0., 1.], [100., 50., -20.]):
        with basicConfig.context('params.dipole', np.array(g)):
            fft(2, 1, 'sm', q='given', N=5, save_to=os.path.join(tmp, 'c.npz'))
            fft(1, 2, 'gsm', q='given', N=5)
