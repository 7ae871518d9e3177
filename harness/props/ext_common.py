"""CHAOS models with all sources, spectra and RC-index files for the drivers."""
import contextlib
import os
import numpy as np
from core import farr, fx, fxs, short
from props.pp_common import model_def, rand_breaks, rand_coeffs
from props.rot_common import cenc
from props.field_common import enc3, opt, a_ref, _copies, _same


def rand_spectrum(rng, n1, n2, K, flat=False, slow=False):
    """Frequencies per day (descending importance) and complex amplitudes."""
    k = rng.integers(0, 9, (K,) if flat else (K, n1, n2))
    fr = k * (rng.choice([1., .5, 1 / 365.25]) if not slow else 1e-3)
    sp = rng.normal(size=(K, n1, n2)) + 1j * rng.normal(size=(K, n1, n2))
    z = fr == 0
    if flat:
        sp[z] = sp[z].real
    else:
        sp = np.where(z, sp.real, sp)
    return fr, sp


class Spectrum:
    """A spectrum file written for the code and its definition for the specification."""

    def __init__(self, log, rng, path, nmax=2, kmax=2, dip=None, scaled=None, K=None, file=None):
        from chaosmagpy import basicConfig
        if file is not None:
            self.path = file
            with np.load(file) as z:
                d = {k: z[k] for k in z}
        else:
            self.path = path
            n1, n2 = nmax * (nmax + 2), kmax * (kmax + 2)
            K = int(rng.integers(2, 5)) if K is None else K
            fr, sp = rand_spectrum(rng, n1, n2, K)
            fi, si = rand_spectrum(rng, n1, n2, K)
            if dip is None:
                dip = basicConfig['params.dipole']
            scaled = bool(rng.integers(0, 2)) if scaled is None else scaled
            d = dict(frequency=fr, spectrum=sp, frequency_ind=fi, spectrum_ind=si, step=1., N=99,
                     filter=K, reference='x', scaled=scaled,
                     dipole=np.asarray(dip, dtype=float), start_date=0.)
            np.savez(path, **d)
        sc = bool(d['scaled'])
        self.i = log.define(dict(
            ext=dict(freq=farr(d['frequency']), spec=cenc(d['spectrum']), scaled=sc),
            ind=dict(freq=farr(d['frequency_ind']), spec=cenc(d['spectrum_ind']), scaled=sc),
            dip=fxs(d['dipole'])))


class RcFile:
    """An RC-index file, as text or HDF5."""

    def __init__(self, log, rng, path, t0, n, step=None):
        self.path = path
        # times in days that a text file with enough digits holds exactly
        t = t0 + np.arange(n) / 24. if step is None else t0 + np.arange(n) * step
        t = np.round(t, 10)
        e, i = np.round(rng.normal(size=n) * 20, 3), np.round(rng.normal(size=n) * 7, 3)
        self.t = t
        if path.endswith('.h5'):
            import h5py
            with h5py.File(path, 'w') as f:
                f['time'], f['RC'], f['RC_e'], f['RC_i'] = t, e + i, e, i
                f['flag'] = np.array(['D'] * n, dtype=object).astype('S1')
        else:
            with open(path, 'w') as f:
                f.write('# RC index\n# time RC RC_e RC_i flag\n')
                for k in range(n):
                    f.write('%.10f %.3f %.3f %.3f D\n' % (t[k], e[k] + i[k], e[k], i[k]))
        self.i = log.define(dict(t=fxs(t), e=fxs(e), i=fxs(i)))


class Model:
    """A CHAOS model built from random parts and its definition."""

    def __init__(self, log, rng, parts=('tdep', 'static', 'gsm', 'sm'), n=2, nt=2, ns=3, static=None,
                 span=None):
        from chaosmagpy.chaos import CHAOS
        P = int(rng.integers(1, 5))
        br = rand_breaks(rng, P) if span is None else np.linspace(span[0], span[1], P + 1)
        self.breaks = br
        order = int(rng.integers(1, 5))
        D = n * (n + 2)
        kw, d = {}, dict(tdep=[], stat=[], gsm=[], sm=[], dl=[])
        if 'tdep' in parts:
            c = rand_coeffs(rng, order, br, nt * (nt + 2)) * 50
            kw['coeffs_tdep'] = c
            d['tdep'] = [model_def(br, c)]
        if 'static' in parts:
            c = rng.normal(size=(1, 1, ns * (ns + 2))) * 10 if static is None else static
            kw['coeffs_static'] = c
            d['stat'] = [model_def(br[[0, -1]], c)]
        if 'gsm' in parts:
            c = rng.normal(size=D) * 10
            if rng.random() < .5:
                c[[i for i in range(D) if i not in (0, 3)]] = 0
            kw['coeffs_gsm'] = c
            d['gsm'] = fxs(c)
        self.dl = None
        if 'sm' in parts:
            c = rng.normal(size=D) * 2
            kw['coeffs_sm'] = c
            d['sm'] = fxs(c)
            a, b = br[0], br[-1]
            bd, cd, defs = {}, {}, []
            for k in ('q10', 'q11', 's11'):
                q = int(rng.integers(1, 5))
                x = np.concatenate(([a - rng.uniform(0, 3)], np.sort(rng.uniform(a, b, q - 1)),
                                    [b + rng.uniform(0, 3)]))
                v = rng.normal(size=(1, q)) * 5
                if k == 's11' and rng.random() < .6:     # as in the files
                    x, v = bd['q11'].copy(), rng.normal(size=cd['q11'].shape) * 5
                bd[k], cd[k] = x, v
                defs.append(model_def(x, v[:, :, None]))
            kw.update(breaks_delta=bd, coeffs_delta=cd)
            d['dl'] = defs
            self.dl = bd
        self.obj = CHAOS(br, order, name='t', **kw)
        self.i = log.define(d)
        self.n = n

    def times(self, rng, shape=(), lo=None, hi=None, outside=0.):
        a = self.breaks[0] if lo is None else lo
        b = self.breaks[-1] if hi is None else hi
        t = rng.uniform(a, b, shape)
        t = np.where(rng.random(shape) < outside,
                     np.where(rng.random(shape) < .5, a - rng.uniform(0, 50, shape),
                              b + rng.uniform(0, 50, shape)), t)
        if self.dl is not None and lo is None:
            x = np.concatenate([v for v in self.dl.values()] + [self.breaks])
            t = np.where(rng.random(shape) < .35, rng.choice(x, shape), t)
        return t if shape else float(t)


def base(m, spec, rcd):
    from chaosmagpy import basicConfig
    return dict(m=m.i, s=spec.i, rcd=rcd.i if rcd is not None else 0,
                dip=fxs(np.asarray(basicConfig['params.dipole'], dtype=float)))


def rcf(rc):
    return [] if rc is None else [farr(rc)]


def log_xc(log, m, spec, part, time, source=None, nmax=None, rc=None, rcd=None):
    kw = {k: v for k, v in dict(source=source, nmax=nmax, rc=rc).items() if v is not None}
    f = m.obj.synth_coeffs_gsm if part == 'gsm' else m.obj.synth_coeffs_sm
    old = _copies((time, rc))
    log.call('xc', lambda: f(time, **kw), farr, part=part, time=farr(time),
             src='external' if source is None else source, nmax=opt(nmax), rc=rcf(rc),
             raw='model[%d].synth_coeffs_%s(%s) spectrum[%d] rcfile=%s' % (
                 m.i, part, short(time, **kw), spec.i, rcd and os.path.basename(rcd.path)),
             same=True, **base(m, spec, rcd))
    log.events[-1]['same'] = _same((time, rc), old)


def log_xv(log, m, spec, part, time, r, th, ph, source=None, nmax=None, rc_e=None, rc_i=None,
           grid=None, rcd=None):
    kw = {k: v for k, v in dict(source=source, nmax=nmax, rc_e=rc_e, rc_i=rc_i, grid=grid).items()
          if v is not None}
    f = m.obj.synth_values_gsm if part == 'gsm' else m.obj.synth_values_sm
    args = (time, r, th, ph, rc_e, rc_i)
    old = _copies(args)
    log.call('xv', lambda: f(time, r, th, ph, **kw), enc3, part=part, time=farr(time), r=farr(r),
             th=farr(th), ph=farr(ph), grid=bool(grid), a=a_ref(),
             src='all' if source is None else source, nmax=opt(nmax), rce=rcf(rc_e),
             rci=rcf(rc_i),
             raw='model[%d].synth_values_%s(%s) spectrum[%d] rcfile=%s' % (
                 m.i, part, short(time, r, th, ph, **kw), spec.i, rcd and os.path.basename(rcd.path)),
             same=True, **base(m, spec, rcd))
    log.events[-1]['same'] = _same(args, old)


def log_call(log, m, gs, ss, time, r, th, ph, sources=None, rc_e=None, rc_i=None, nstat=None,
             rcd=None, **extra):
    kw = {k: v for k, v in dict(source_list=sources, rc_e=rc_e, rc_i=rc_i, nmax_static=nstat,
                                **extra).items() if v is not None}
    sel = (['tdep', 'static', 'gsm', 'sm'] if sources is None else
           ['tdep', 'static'] if isinstance(sources, str) and sources == 'internal' else
           ['gsm', 'sm'] if isinstance(sources, str) and sources == 'external' else
           [sources] if isinstance(sources, str) else list(sources))
    args = (time, r, th, ph, rc_e, rc_i)
    old, names = _copies(args), sources if not isinstance(sources, list) else list(sources)
    b = base(m, gs, rcd)
    log.call('call', lambda: m.obj(time, r, th, ph, **kw), enc3, time=farr(time), r=farr(r),
             th=farr(th), ph=farr(ph), a=a_ref(), set=[str(s) for s in sel],
             nstat=-1 if nstat is None else max(int(nstat), 0), rce=rcf(rc_e), rci=rcf(rc_i), s2=ss.i,
             raw='model[%d](%s)' % (m.i, short(time, r, th, ph, **kw)), same=True, **b)
    log.events[-1]['same'] = _same(args, old) and (not isinstance(names, list) or names == sources)


@contextlib.contextmanager
def conf(cfg, *pairs):
    with contextlib.ExitStack() as st:
        for k, v in pairs:
            st.enter_context(cfg.context(k, v))
        yield
