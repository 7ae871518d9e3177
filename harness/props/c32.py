"""C32: plots show the computed values."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, fx, fxs, guarded, short
from props.ext_common import conf, Spectrum, RcFile, Model
from props.field_common import rand_co
from props.pp_common import rand_breaks, rand_coeffs

OPTS = ('titles', 'label', 'layout', 'figsize', 'cmap', 'projection', 'vmax', 'vmin', 'color', 'linewidth',
        'deriv', 'nmax')
EPOCH = np.datetime64('2000-01-01', 'ns')


def copy(x):
    return x.copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else x


def equal(a, b):
    return np.array_equal(a, b, equal_nan=True) if isinstance(a, np.ndarray) and a.dtype.kind == 'f' else \
        bool(np.all(a == b))


def option(k, kw, ylab):
    k = ylab if k == 'label' else k
    if k not in kw:
        return []
    v = kw[k]
    if v is None:
        return ['none']
    if k == 'figsize':
        return ['v', fxs(v)]
    if k in ('vmax', 'vmin', 'linewidth'):
        return ['v', fx(v)]
    if k == 'layout':
        return ['v', list(v)]
    if k == 'titles' and isinstance(v, str):
        return ['v', [v]]
    return ['v', v]


def largest(x):
    return float(np.amax(np.abs(x)))


def half(x):
    return largest(x) / 2


def median(x):
    return float(np.median(np.abs(x)))


class Plotter:
    def __init__(self, ctx, log):
        import matplotlib
        matplotlib.use('agg', force=True)
        import matplotlib.pyplot as plt
        import matplotlib.colors as mc
        from chaosmagpy import basicConfig
        self.ctx, self.log, self.rng, self.plt, self.mc, self.cfg = ctx, log, ctx.rng, plt, mc, basicConfig
        self.kept = []

    # -- what is drawn ---------------------------------------------------------
    def picks(self, n, k=7):
        if n <= k:
            return np.arange(n)
        return np.unique(np.concatenate(([0, n - 1], self.rng.integers(0, n, k - 2))))

    def panel(self, kind, ax, bar, info):
        p = dict(title=ax.get_title())
        if kind == 'maps':
            q = [c for c in ax.collections if type(c).__name__ == 'QuadMesh']
            assert len(q) == 1, 'one mesh'
            q = q[0]
            z = np.ma.filled(np.ma.asarray(q.get_array(), dtype=float), np.nan)
            co = np.asarray(q.get_coordinates())
            assert co.shape[:2] == (z.shape[0] + 1, z.shape[1] + 1), 'cells of the mesh'
            ii, jj = self.cells[0] % z.shape[0], self.cells[1] % z.shape[1]
            ii[:2], jj[:2] = (0, z.shape[0] - 1), (0, z.shape[1] - 1)
            lat = np.degrees(co[..., 1])
            lon = np.degrees(co[..., 0])
            edge = [sorted((float(lat[i, 0]), float(lat[i + 1, 0]))) for i in ii] + \
                   [sorted((float(lon[0, j]), float(lon[0, j + 1]))) for j in jj]
            info['lat'] = (lat[:-1, 0] + lat[1:, 0]) / 2
            info['lon'] = (lon[0, :-1] + lon[0, 1:]) / 2
            info['z'], info['ij'] = z, (ii, jj)
            p.update(label=bar.get_ylabel(), shape=list(z.shape), edge=[[fx(a), fx(b)] for a, b in edge],
                     z=fxs(z[ii, jj]), cmap=q.get_cmap().name, projection=ax.name, clim=fxs(q.get_clim()))
        else:
            lines = []
            for ln in ax.get_lines():
                x, y = np.asarray(ln.get_xdata(orig=True)), np.asarray(ln.get_ydata(orig=True), dtype=float)
                if x.dtype.kind == 'M':
                    x = (x.astype('datetime64[ns]') - EPOCH).astype(np.int64) / 86400e9
                x = np.asarray(x, dtype=float)
                assert x.shape == y.shape, 'points of a line'
                k = info.setdefault('k', self.picks(x.size))
                assert k[-1] < x.size, 'lines of different length'
                info['x'] = x[k]
                info['n'] = x.size
                lines.append(dict(n=int(x.size), x=fxs(x[k]), y=fxs(y[k]), color=self.mc.to_hex(ln.get_color()),
                                  width=fx(ln.get_linewidth())))
            p.update(label=ax.get_ylabel(), abscissa=ax.get_xlabel(), lines=lines, scale=ax.get_yscale())
        return p

    def figure(self, kind, fig, infos):
        axes = [ax for ax in fig.axes]
        bars = []
        if kind == 'maps':
            bars = [ax for ax in axes if getattr(ax, '_colorbar', None) is not None]
            axes = [ax for ax in axes if ax not in bars]
            assert len(bars) == len(axes), 'colour bars'
        g = axes[0].get_subplotspec().get_gridspec().get_geometry() if kind != 'maps' else None
        ss = axes[0].get_subplotspec()
        while kind == 'maps' and hasattr(ss.get_gridspec(), '_subplot_spec'):   # made smaller for the bar
            ss = ss.get_gridspec()._subplot_spec
        g = ss.get_gridspec().get_geometry()
        for _ in axes:
            infos.append({} if not infos or kind == 'maps' else dict(k=infos[0]['k'], n=infos[0]['n']))
            infos[-1]['panel'] = self.panel(kind, axes[len(infos) - 1], bars[len(infos) - 1] if bars else None,
                                            infos[-1])
        return dict(panels=[i['panel'] for i in infos], layout=[int(v) for v in g], size=fxs(fig.get_size_inches()))

    def state(self, fig):
        return [[ax.get_title(), ax.get_ylabel(), len(ax.get_lines()), len(ax.collections),
                 [float(np.nansum(np.asarray(ln.get_ydata(), dtype=float))) for ln in ax.get_lines()[:3]]]
                for ax in fig.axes]

    # -- one call ----------------------------------------------------------------
    def call(self, kind, who, f, args, kw, expect, n=3, model=1, mustfail=False, ref='all', src='all',
             span=(0., 0.), raw=''):
        plt = self.plt
        if len(self.kept) > 2:
            plt.close('all')
            self.kept = []
        self.cells = self.rng.integers(0, 10**6, (2, 9))
        self.limiter = kw.get('limiter') or largest
        before = set(plt.get_fignums())
        old = [(a, copy(a)) for a in list(args) + list(kw.values())]
        infos = []

        def run():
            f(*args, **kw)
            new = [k for k in plt.get_fignums() if k not in before]
            return new

        def enc(new):
            return dict(v=self.figure(kind, plt.figure(new[0]), infos), new=len(new))
        out, _ = guarded(run, enc)
        new = out.pop('new', 0)
        if out['k'] == 'exc':
            for k in set(plt.get_fignums()) - before:
                plt.close(k)
        ylab = 'label' if kind == 'maps' else 'ylabel'
        call = {k: option(k, kw, ylab) for k in OPTS}
        call.update(kind=kind, who=who, n=n, model=model, reference=ref, source=src,
                    width=fx(self.cfg['plots.figure_width']))
        ev = dict(op='plot', call=call, out=out, new=new, same=all(equal(a, b) for a, b in old), mustfail=mustfail,
                  others=all(self.state(fg) == st for fg, st in self.kept), picks=[], span=fxs(span),
                  reach=[fx(0.)] * 3, expect=[])
        if out['k'] == 'ok' and not mustfail:
            try:
                if kind == 'maps':
                    i = infos[0]
                    ev['reach'] = fxs([i['lat'].max(), i['lat'].min(), i['lon'].max() - i['lon'].min()])
                else:
                    ev['picks'] = [int(v) for v in infos[0]['k']]
                ev['expect'] = expect(infos)
            except Exception as e:      # noqa: BLE001  the figure lacks what it should show
                ev['out'] = dict(k='exc', type='BadFigure', value_error=False, msg=repr(e)[:200])
            fg = plt.gcf()
            self.kept.append((fg, self.state(fg)))
        self.log.add(ev, raw or '%s %s(%s)' % (who, getattr(f, '__name__', kind), short(*args, **kw)))
        return out

    # -- expectations ---------------------------------------------------------------
    def series(self, synth):
        """Synthesis at the times drawn."""
        def expect(infos):
            B = synth(infos[0]['x'])
            return [dict(n=i['n'], x=fxs(i['x']), y=[fxs(b)]) for i, b in zip(infos, B)]
        return expect

    def maps(self, synth):
        def expect(infos):
            out = []
            for c, i in enumerate(infos):
                ii, jj = i['ij']
                B = synth(90. - i['lat'][ii], i['lon'][jj])[c]
                out.append(dict(shape=list(i['z'].shape), lo=fxs(np.concatenate((i['lat'][ii], i['lon'][jj]))),
                                z=fxs(B), limit=fx(self.limiter(i['z']))))
            return out
        return expect

    def grid(self, theta, phi, comps):
        """Arrays given by the user."""
        def expect(infos):
            out = []
            for c, i in zip(comps, infos):
                ii, jj = i['ij']
                out.append(dict(shape=list(c.shape), lo=fxs(np.concatenate((90. - theta[ii], phi[jj]))),
                                z=fxs(c[ii, jj]), limit=fx(self.limiter(c))))
            return out
        return expect

    def columns(self, x, comps):
        def expect(infos):
            k = infos[0]['k']
            return [dict(n=int(x.size), x=fxs(x[k]), y=[fxs(col[k]) for col in np.reshape(c, (x.size, -1)).T])
                    for c in comps]
        return expect


def user(rng, kind, n, titles=True):
    """Some keywords of the user."""
    ylab = 'label' if kind == 'maps' else 'ylabel'
    r, kw = rng.random, {}
    if titles and r() < .4:
        kw['titles'] = ['panel %d' % k for k in range(n)] if kind != 'spectrum' else ['a title', ''][int(r() < .3)]
    if r() < .4:
        kw[ylab] = ['some units', 'nT', 'x', ''][int(rng.integers(0, 4))]
    if r() < .4:
        kw['figsize'] = (float(rng.integers(4, 9)), float(rng.integers(4, 9))) if r() < .8 else None
    if kind != 'spectrum' and r() < .35:
        kw['layout'] = (1, n) if r() < .7 else (n, 1)
    if kind == 'maps':
        if r() < .4:
            kw['cmap'] = ['viridis', 'RdBu', 'nio', 'PuOr_r'][int(rng.integers(0, 4))]
        if r() < .35:
            kw['limiter'] = [half, median, None][int(rng.integers(0, 3))]
        if r() < .3:
            kw['projection'] = ['hammer', 'aitoff'][int(rng.integers(0, 2))]
        if r() < .4:
            kw['vmax'] = float(rng.integers(1, 500))
            if r() < .7:
                kw['vmin'] = -float(rng.integers(1, 500)) if r() < .5 else 0
    else:
        if r() < .4:
            kw['color'] = ['#ff0000', '#00aa33'][int(rng.integers(0, 2))]
        if r() < .3:
            kw['linewidth'] = float(rng.integers(1, 6)) / 2
    return kw


def run(ctx):
    load_code()
    ctx.model('MC_Plots')
    log = Log('C32')
    tmp = tempfile.mkdtemp(prefix='verif-plot-')
    try:
        drive(ctx, log, Plotter(ctx, log), tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Plots', log)


def drive(ctx, log, P, tmp):
    import chaosmagpy.plot_utils as pu
    from chaosmagpy.chaos import BaseModel, CHAOS
    from chaosmagpy.data_utils import gauss_units
    from chaosmagpy import basicConfig as cfg
    rng = ctx.rng
    c = lambda *x: x[int(rng.integers(0, len(x)))]
    for d in (0, 1, 2, 3, 5):
        log.call('units', lambda: gauss_units(d), lambda v: dict(v=str(v)), deriv=d, raw='gauss_units(%d)' % d)
    log.call('units', lambda: gauss_units(), lambda v: dict(v=str(v)), deriv=0, raw='gauss_units()')

    def size():
        return (('plots.figure_width', float(rng.integers(4, 9))),) if rng.random() < .3 else ()

    def model(source=None):
        nm = int(rng.integers(1, 5))
        br = rand_breaks(rng, int(rng.integers(1, 4)), c('regular', 'int', 'neg'))
        order = int(rng.integers(1, 5))
        m = BaseModel('x', br, order, rand_coeffs(rng, order, br, nm * (nm + 2)),
                      source=source or c('internal', 'external'))
        return m, nm, br

    def choose(nm, kw):
        deriv = c(None, 0, 1, 1, 2)
        nmax = c(None, 1, nm, max(nm - 1, 1), nm + 2)
        if deriv is not None or rng.random() < .3:
            kw['deriv'] = deriv
        if nmax is not None or rng.random() < .3:
            kw['nmax'] = nmax
        return deriv or 0, min(nmax or nm, nm)

    def place():
        r, th, ph = float(rng.uniform(6000, 7000)), float(rng.uniform(0, 180)), float(rng.uniform(-180, 360))
        k = int(rng.integers(0, 3))
        return (r, th, ph) if k == 0 else (np.array([r]), np.array(th), ph) if k == 1 else \
            (int(r), int(th), np.array([ph]))

    # -- time series of models
    for j in range(ctx.n(30, 250)):
        m, nm, br = model()
        kw = user(rng, 'series', 3)
        d, n = choose(nm, kw)
        if rng.random() < .3:
            kw['extrapolate'] = c('off', 'linear', None)
        if rng.random() < .15:
            kw['titles'] = None
        if rng.random() < .06:
            kw['layout'] = (2, 2)
        r, th, ph = place()
        f, who = m.plot_timeseries, 'model'
        if j % 4 == 3:
            ch = Model(log, rng, parts=('tdep', 'static'))
            m, nm, br = ch.obj.model_tdep, 2, ch.breaks
            n = min(kw.get('nmax') or nm, nm)
            f = ch.obj.plot_timeseries_tdep
        with conf(cfg, *size()):
            P.call('series', who, f, (r, th, ph), kw,
                   P.series(lambda t: m.synth_values(t, float(np.ravel(r)[0]), float(np.ravel(th)[0]),
                                                     float(np.ravel(ph)[0]), nmax=n, deriv=d)),
                   model=nm, span=(br[0], br[-1]))
    # -- maps of models
    for j in range(ctx.n(14, 110)):
        m, nm, br = model()
        kw = user(rng, 'maps', 3)
        d, n = choose(nm, kw)
        t = float(c(br[0], br[-1], rng.uniform(br[0], br[-1]), rng.uniform(br[0], br[-1]), br[-1] + 40., br[0] - 9))
        r = float(rng.uniform(6300, 7000))
        f, who, args = m.plot_maps, 'model', (c(t, np.array([t]), np.array(t)), c(r, np.array([r]), np.array(r)))
        if rng.random() < .06:
            kw['layout'] = (2, 2)
        if j % 4 == 1:
            ch = Model(log, rng, parts=('tdep', 'static'))
            m, nm = ch.obj.model_tdep, 2
            n, t = min(kw.get('nmax') or nm, nm), float(ch.breaks[0] + .3 * np.ptp(ch.breaks))
            f, args = ch.obj.plot_maps_tdep, (t, args[1])
        elif j % 4 == 2:
            ns = int(rng.integers(2, 5))
            ch = Model(log, rng, parts=('tdep', 'static'), ns=ns)
            m, nm = ch.obj.model_static, ns
            n, t, d = min(kw.get('nmax') or nm, nm), float(ch.breaks[0]), 0
            kw.pop('deriv', None)
            f, args, who = ch.obj.plot_maps_static, (args[1],), 'static'
        with conf(cfg, *size()):
            P.call('maps', who, f, args, kw,
                   P.maps(lambda th, ph: m.synth_values(t, r, th, ph, nmax=n, deriv=d)), model=nm)
    # -- spectra of models
    for j in range(ctx.n(25, 200)):
        m, nm, br = model()
        kw = user(rng, 'spectrum', 1)
        d, n = choose(nm, kw)
        rad = c(None, None, 3480., 6371.2, 7000)
        if rad is not None or rng.random() < .2:
            kw['radius'] = rad
        if rng.random() < .15:
            kw['titles'] = None
        t = c(float(rng.uniform(br[0], br[-1])), float(br[0]), float(br[-1]))
        pairs = size() + ((('params.r_surf', 6000.),) if rng.random() < .3 else ())

        def expect(infos):
            R = m.power_spectrum(t, rad, nmax=n, deriv=d)
            R = np.where(R == 0, np.nan, R)
            k = infos[0]['k']
            return [dict(n=int(n), x=fxs(k + 1.), y=[fxs(R[k])])]
        with conf(cfg, *pairs):
            P.call('spectrum', 'model', m.plot_power_spectrum, (t,), kw, expect, model=nm)
    # -- external field
    for j in range(ctx.n(8, 50)):
        n = 2
        ch = Model(log, rng, n=n)
        t0 = float(np.round(ch.breaks[0], 6))
        rc = RcFile(log, rng, os.path.join(tmp, 'rc%d.dat' % j), t0, 30)
        t = float(rng.uniform(rc.t[0], min(rc.t[-1], ch.breaks[-1])))
        r = float(rng.uniform(6300, 7000))
        ref, src = c('all', 'gsm', 'sm'), c('all', 'external', 'internal')
        kw = {}
        if ref != 'all' or rng.random() < .5:
            kw['reference'] = ref if rng.random() < .5 else ref.upper()
        if src != 'all' or rng.random() < .5:
            kw['source'] = src if rng.random() < .5 else src.capitalize()
        nmax = c(None, 1, 2)
        if nmax:
            kw['nmax'] = nmax
        bad = j % 8 == 7
        if bad:
            kw['reference'] = c('geo', 'external', '')

        def values(th, ph):
            B = np.zeros((3, th.size))
            for k, g in (('gsm', ch.obj.synth_values_gsm), ('sm', ch.obj.synth_values_sm)):
                if ref in ('all', k):
                    B = B + np.array(g(t, r, th, ph, nmax=nmax, source=src))
            return B
        with conf(cfg, ('file.RC_index', rc.path), *size()):
            P.call('maps', 'external', ch.obj.plot_maps_external,
                   (c(t, np.array(t)), c(r, np.array(r))), kw, P.maps(values), ref=ref, src=src, mustfail=bad)
    # -- parts that are missing
    br = np.array([0., 100., 300.])
    for part in ('tdep', 'static', 'gsm', 'sm', 'none'):
        ch = CHAOS(br, 1, coeffs_tdep=np.ones((1, 2, 3)) if part == 'tdep' else None,
                   coeffs_static=np.ones((1, 1, 8)) if part == 'static' else None,
                   coeffs_gsm=np.ones(8) if part == 'gsm' else None,
                   coeffs_sm=np.ones(8) if part == 'sm' else None,
                   **(dict(breaks_delta={k: br for k in ('q10', 'q11', 's11')},
                           coeffs_delta={k: np.ones((1, 2)) for k in ('q10', 'q11', 's11')}) if part == 'sm' else {}))
        for name, f, args, kw in (('tdep', ch.plot_timeseries_tdep, (6500., 50., 60.), {}),
                                  ('tdep', ch.plot_maps_tdep, (50., 6500.), {}),
                                  ('static', ch.plot_maps_static, (6500.,), {}),
                                  ('gsm', ch.plot_maps_external, (50., 6500.), dict(reference='gsm')),
                                  ('sm', ch.plot_maps_external, (50., 6500.), dict(reference='sm')),
                                  ('both', ch.plot_maps_external, (50., 6500.), {})):
            if name != part:
                P.call('series' if 'series' in f.__name__ else 'maps', 'model', f, args, kw, None, mustfail=True,
                       raw='%s of a model with part %s %r' % (f.__name__, part, kw))
    # -- arrays of the user
    for j in range(ctx.n(40, 300)):
        n = int(rng.integers(1, 5))
        N = int(rng.integers(1, 40))
        x = np.sort(rng.uniform(-30000, 30000, N)) if rng.random() < .7 else rng.uniform(-3000, 3000, N)
        comps = [rng.normal(size=c((N,), (N, 1), (N, 2), (N, 5))) * 10**float(rng.integers(-3, 5)) for _ in range(n)]
        kw = user(rng, 'series', n)
        if rng.random() < .15:
            kw['titles'] = None
        if rng.random() < .1:
            kw['ylabel'] = None
        if rng.random() < .1:
            kw['layout'] = c((2, 2), (n, 2), (1, 1), (3, 1))
        with conf(cfg, *size()):
            P.call('series', 'util', pu.plot_timeseries, (x, *comps), kw, P.columns(x, comps), n=n)
    for j in range(ctx.n(14, 100)):
        n = int(rng.integers(1, 4))
        nt, nph = int(rng.integers(3, 30)), int(rng.integers(3, 40))
        if j % 2:
            th, ph = np.linspace(2, 178, nt), np.linspace(-179, 179, nph)
        else:
            th, ph = np.sort(rng.uniform(1, 179, nt)), np.sort(rng.uniform(-180, 180, nph))
        comps = [rng.normal(size=(nt, nph)) * 10**float(rng.integers(-2, 5)) for _ in range(n)]
        kw = user(rng, 'maps', n)
        if rng.random() < .1:
            kw['layout'] = c((2, 2), (n, 2), (1, 1), (3, 1))
        mesh = rng.random() < .3
        a, b = (np.meshgrid(th, ph, indexing='ij') if mesh else (th, ph))
        with conf(cfg, *size()):
            P.call('maps', 'util', pu.plot_maps, (a, b, *comps), kw, P.grid(th, ph, comps), n=n)
    for j in range(ctx.n(12, 100)):
        N = int(rng.integers(1, 30))
        s = 10**rng.uniform(*c((-11, 9), (-22, -6)), N)
        s[rng.random(N) < .2] = 0.
        kw = user(rng, 'spectrum', 1)
        for k in list(kw):
            if rng.random() < .1 and k in ('titles', 'ylabel'):
                kw[k] = None
        with conf(cfg, *size()):
            P.call('spectrum', 'util', pu.plot_power_spectrum, (s,), kw,
                   lambda infos: [dict(n=N, x=fxs(infos[0]['k'] + 1.),
                                       y=[fxs(np.where(s == 0, np.nan, s)[infos[0]['k']])])], n=1)
    P.plt.close('all')
