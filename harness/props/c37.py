"""C37: calls by position, by name and with defaults spelled out agree."""
import ast
import json
import os
import re
import shutil
import tempfile
import warnings
import h5py
import numpy as np
import core
from core import Log, MachineryError, load_code
from props.file_common import Sink
from props.system_world import Bank, _fig, encode

N = 4


class Callables:
    """For every function of Interface.tla: how it is called, values of its
    parameters that are no defaults, and names that it always gets."""

    def __init__(self, rng, d):
        import chaosmagpy as cp
        import chaosmagpy.chaos as ch
        import chaosmagpy.coordinate_utils as cu
        import chaosmagpy.data_utils as du
        import chaosmagpy.model_utils as mu
        self.d = d
        bank = Bank(rng, d)
        cp.basicConfig['file.RC_index'] = bank.shortrc
        u = lambda a, b, *s: rng.uniform(a, b, s)
        with Sink(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            model = cp.load_CHAOS_matfile(bank.models[0], name='m', satellites=['x', 'y', 'z'])
        br, bc = bank.bases[0]
        base = ch.BaseModel('b', br.copy(), bc.shape[0], bc.copy(), source='internal')
        base3 = ch.BaseModel('b3', br.copy(), 3, u(-9, 9, 3, br.size - 1, 15), source='internal')
        t, tx = u(2010, 2890, N), np.sort(u(1900, 3000, N))
        th, ph, r = u(20, 160, N), u(0, 360, N), float(u(6400, 7000))
        trc = 1990. + np.round(u(1, 38, N)) / 24
        dip = np.array([-28000., -2000., 5100.])
        q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
        b = dict(theta=th, phi=ph, base_1=q[0], base_2=q[1], base_3=q[2], inverse=True)
        pt = dict(radius=r, theta=th, phi=ph)
        kn = np.array([2000.] * 4 + [2200., 2600.] + [2900.] * 4)
        g = u(-100, 100, 8, 15)
        self.txt = os.path.join(d, 'plain.shc')
        with open(self.txt, 'w') as f:
            f.write('% x\n1 2 3 2 1\n2005.0 2006.0 2007.5\n')
            for nn, mm in ((1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2)):
                f.write('%d %d %.3f %.3f %.3f\n' % ((nn, mm) + tuple(u(-100, 100, 3))))
        plain = os.path.join(d, 'p.shc')
        with open(self.txt) as f, open(plain, 'w') as o:
            o.writelines(f.readlines()[1:])
        igrf = os.path.join(d, 'i.txt')
        with open(igrf, 'w') as f:
            f.write('# c\nc/s deg ord IGRF IGRF SV\ng/h n m 2010.0 2015.0 2015-20\n')
            for nn, mm in ((1, 0), (1, 1), (1, -1)):
                f.write('%s %d %d %.2f %.2f %.2f\n' % (('h' if mm < 0 else 'g', nn, abs(mm)) + tuple(u(-100, 100, 3))))
        tabs = dict(CovObs='1 2 3 comment\n1 7 3 %s' % ' '.join('%.1f' % k for k in 1900. + 2.5 * np.arange(8)),
                    gufm1='gufm1 1 2 3\n1 5\n%s' % ' '.join('%.1f' % k for k in 1600. + 2.5 * np.arange(9)),
                    CALS7K='-100.0 380.0 4\n9 1 9 5\n%s' % ' '.join('%.1f' % k for k in -100. + 60. * np.arange(9)))
        for k, v in tabs.items():
            with open(os.path.join(d, k), 'w') as f:
                f.write(v + '\n' + ' '.join('%.5f' % x for x in u(-9, 9, 15)) + '\n')
        meta = dict(a=1)
        data = lambda m: [getattr(m, k, None) for k in ('name', 'source', 'breaks', 'coeffs', 'order', 'meta')]
        parts = lambda m: [m.name] + [data(x) for x in (m.model_tdep, m.model_static, m.model_euler) if x is not None
                                      and not isinstance(x, dict)] + sorted(getattr(m, 'satellites', None) or [])
        of = lambda make, take: lambda *a, **k: take(make(*a, **k))
        pick = lambda names: lambda z: {k: z[k] for k in sorted(z) if k in names}
        fld = dict(pt, time=2400., nmax=2, deriv=1, grid=True, extrapolate='constant')
        ext = dict(nmax=1, source='internal', grid=True)
        bsp = dict(name='z', knots=kn, coeffs=u(-9, 9, 6, 8), order=4, source='external', meta=meta)
        cals = dict(filepath=bank.models[0], name='other', satellites=['x', 'y', 'z'])

        def saves(f):
            def g(*a, **k):
                for x in os.listdir(self.d):
                    if x in ('out.shc', 'model.shc'):
                        os.remove(os.path.join(self.d, x))
                f(*a, **k)
                out = []
                for x in ('out.shc', 'model.shc'):
                    if os.path.exists(os.path.join(self.d, x)):
                        with open(os.path.join(self.d, x)) as h:
                            out += [x] + [ln.strip() if ln.startswith('#') else np.array(ln.split(), dtype=float)
                                          for ln in h.read().splitlines() if not ln.startswith('# Created on')]
                return out
            return g

        def stored(*a, **k):
            p = os.path.join(d, 'out.mat')
            if os.path.exists(p):
                os.remove(p)
            base.save_matfile(*a, **k)
            z = du.load_matfile(p)
            return {k: z[k] for k in sorted(z) if k in ('pp', 'zz')}

        def converted(*a, **k):
            p = os.path.join(d, 'out.h5')
            if os.path.exists(p):
                os.remove(p)
            du.save_RC_h5file(*a, **k)
            with h5py.File(p) as h:
                return [h[k][...] for k in ('time', 'RC', 'RC_e', 'RC_i')]

        def entered(*a, **k):
            with cp.basicConfig.context(*a, **k):
                return cp.basicConfig['params.r_surf']

        def fft(*a, **k):
            out = cu.rotate_gauss_fft(*a, **k)
            f = os.path.join(d, 'fft.npz')
            if os.path.exists(f):
                os.remove(f)
                return [out, 'saved']
            return [out, '']

        F = lambda f, always=None, **v: (f, v, always or {})
        self.f = dict(
            mjd2000=F(du.mjd2000, year=2004, month=3, day=5, hour=7, minute=11, second=13, microsecond=170000,
                      nanosecond=19000),
            timestamp=F(du.timestamp, time=t), dyear_to_mjd=F(du.dyear_to_mjd, time=2003. + t / 1e3, leap_year=False),
            mjd_to_dyear=F(du.mjd_to_dyear, time=t, leap_year=False), gauss_units=F(du.gauss_units, deriv=1),
            load_shcfile=F(du.load_shcfile, filepath=self.txt, leap_year=False, comment='%'),
            save_shcfile=F(saves(du.save_shcfile), time=np.array([2000., 2100., 2500.]), coeffs=g[:3], order=2,
                           filepath=os.path.join(d, 'out.shc'), nmin=2, nmax=2, leap_year=False, header='# h\n'),
            load_matfile=F(of(du.load_matfile, pick(('pp', 'g', 'model_ext'))), filepath=bank.models[0],
                           variable_names=['g']),
            load_RC_datfile=F(du.load_RC_datfile, filepath=bank.shortrc, parse_dates=True),
            design_matrix=F(mu.design_matrix, knots=kn, order=4, n_tdep=2, time=t, radius=u(6400, 7000, N), theta=th,
                            phi=ph, n_static=3, source='external'),
            colloc_matrix=F(mu.colloc_matrix, x=t, knots=kn, order=4, deriv=1),
            augment_breaks=F(mu.augment_breaks, breaks=br, order=3),
            pp_from_bspline=F(mu.pp_from_bspline, coeffs=bsp['coeffs'], knots=kn, order=4),
            synth_from_pp=F(mu.synth_from_pp, breaks=br, order=bc.shape[0], coeffs=bc, source='external',
                            **{k: v for k, v in fld.items() if k not in ('extrapolate', 'nmax')}, nmax=1),
            synth_values=F(mu.synth_values, coeffs=g[0], nmax=2, nmin=2, mmax=1, source='external', grid=True, **pt),
            design_gauss=F(mu.design_gauss, nmax=3, nmin=2, mmax=1, source='external', **pt),
            legendre_poly=F(mu.legendre_poly, nmax=3, theta=th),
            power_spectrum=F(mu.power_spectrum, coeffs=g, radius=3500., nmax=1, source='external', axis=0),
            degree_correlation=F(mu.degree_correlation, coeffs_1=g[0], coeffs_2=g[1]),
            sensitivity=F(mu.sensitivity, coeffs=g[0], coeffs_true=g[1]),
            igrf_dipole=F(cu.igrf_dipole, epoch='2010'), dipole_to_vec=F(cu.dipole_to_vec, dipole=dip),
            synth_rotate_gauss=F(cu.synth_rotate_gauss, time=t, frequency=bank.slots['fr'][0],
                                 spectrum=bank.slots['sp'][0], scaled=True),
            rotate_gauss_fft=F(fft, dict(N=17), nmax=1, kmax=2, step=3., filter=5, reference='sm', scaled=True,
                               start_date=100., save_to=os.path.join(d, 'fft.npz')),
            rotate_gauss=F(cu.rotate_gauss, nmax=1, kmax=2, base_1=q[0], base_2=q[1], base_3=q[2]),
            sh_analysis=F(cu.sh_analysis, func=lambda theta, phi: np.cos(np.radians(theta)) + np.sin(np.radians(phi)),
                          nmax=2, kmax=4),
            sun_position=F(cu.sun_position, time=t), zenith_angle=F(cu.zenith_angle, time=t, theta=th, phi=ph),
            local_time=F(cu.local_time, time=t, phi=ph),
            spherical_to_cartesian=F(cu.spherical_to_cartesian, **pt),
            cartesian_to_spherical=F(cu.cartesian_to_spherical, x=t, y=th, z=ph),
            gg_to_geo=F(cu.gg_to_geo, height=u(0, 700, N), beta=th, X=t, Z=ph),
            geo_to_gg=F(cu.geo_to_gg, radius=u(6400, 7000, N), theta=th, B_radius=t, B_theta=ph),
            basevectors_gg=F(cu.basevectors_gg, theta=th, beta=th + .1),
            basevectors_gsm=F(cu.basevectors_gsm, time=t, dipole=dip),
            basevectors_sm=F(cu.basevectors_sm, time=t, dipole=dip), basevectors_mag=F(cu.basevectors_mag, dipole=dip),
            basevectors_use=F(cu.basevectors_use, theta=th, phi=ph), geo_to_base=F(cu.geo_to_base, **b),
            matrix_geo_to_base=F(cu.matrix_geo_to_base, **b),
            transform_points=F(cu.transform_points, dict(reference='mag'), theta=th, phi=ph, time=t, inverse=True,
                               dipole=dip),
            transform_vectors=F(cu.transform_vectors, theta=th, phi=ph, B_theta=t, B_phi=tx, time=t[::-1].copy(),
                                reference='sm', inverse=True, dipole=dip),
            q_response_1D=F(cu.q_response_1D, periods=bank.slots['per'][0], sigma=bank.slots['sig'][0],
                            radius=bank.slots['rad'][0], n=2, kind='constant'),
            q_response=F(cu.q_response, frequency=bank.slots['fq'][0], nmax=2),
            Base=F(of(ch.Base, data), name='n', breaks=br, order=bc.shape[0], coeffs=bc, meta=meta),
            BaseModel=F(of(ch.BaseModel, data), name='n', breaks=br, order=bc.shape[0], coeffs=bc, source='external',
                        meta=meta),
            CHAOS=F(of(ch.CHAOS, parts), breaks=br, order=bc.shape[0], coeffs_tdep=bc, coeffs_static=g[:1], name='n',
                    meta=meta),
            from_bspline=F(of(ch.BaseModel.from_bspline, data), **bsp),
            base_coeffs=F(ch.Base('b', br.copy(), bc.shape[0], bc.copy()).synth_coeffs, time=tx, dim=3, deriv=1,
                          extrapolate='constant'),
            model_coeffs=F(base.synth_coeffs, time=tx, nmax=1, deriv=1, extrapolate='constant'),
            model_values=F(base.synth_values, **dict(fld, nmax=1, time=float(tx[0]))),
            model_spectrum=F(base.power_spectrum, time=tx, radius=3500., nmax=1, deriv=1, extrapolate='constant'),
            to_shc=F(saves(base3.to_shc), filepath=os.path.join(d, 'out.shc'), leap_year=True, nmin=2, nmax=2,
                     header='# h\n'),
            from_shc=F(of(ch.BaseModel.from_shc, data), filepath=plain, name='n', leap_year=True, source='external',
                       meta=meta),
            call=F(model, time=trc, rc_e=u(-20, 20, N), rc_i=u(-20, 20, N), source_list=['gsm', 'sm', 'static'],
                   nmax_static=2, verbose=True, **dict(pt, radius=u(6400, 7000, N))),
            coeffs_tdep=F(model.synth_coeffs_tdep, time=tx, nmax=2, deriv=1, extrapolate='constant'),
            values_tdep=F(model.synth_values_tdep, **dict(fld, time=float(tx[0]))),
            coeffs_static=F(model.synth_coeffs_static, nmax=2),
            values_static=F(model.synth_values_static, nmax=2, grid=True, **pt),
            coeffs_gsm=F(model.synth_coeffs_gsm, time=t, nmax=1, source='internal'),
            values_gsm=F(model.synth_values_gsm, time=2400., **ext, **pt),
            coeffs_sm=F(model.synth_coeffs_sm, time=trc, nmax=1, source='internal', rc=u(-20, 20, N)),
            values_sm=F(model.synth_values_sm, time=float(trc[0]), rc_e=11., rc_i=-5., **ext, **pt),
            euler=F(model.synth_euler_angles, time=tx, satellite='x', dim=2, deriv=1, extrapolate='constant'),
            chaos_save_shc=F(saves(model.save_shcfile), filepath=os.path.join(d, 'out.shc'), model='static',
                             leap_year=True),
            load_CHAOS_matfile=F(of(cp.load_CHAOS_matfile, parts), **cals),
            CHAOS_from_mat=F(of(ch.CHAOS.from_mat, parts), **cals),
            load_CHAOS_shcfile=F(of(cp.load_CHAOS_shcfile, parts), filepath=plain, name='n', leap_year=True),
            load_IGRF=F(of(cp.chaos.load_IGRF_txtfile, data), filepath=igrf, name='n'),
            load_CovObs=F(of(ch.load_CovObs_txtfile, data), filepath=os.path.join(d, 'CovObs'), name='n'),
            load_gufm1=F(of(ch.load_gufm1_txtfile, data), filepath=os.path.join(d, 'gufm1'), name='n'),
            load_CALS7K=F(of(ch.load_CALS7K_txtfile, data), filepath=os.path.join(d, 'CALS7K'), name='n'),
            save_RC_h5file=F(converted, filepath=os.path.join(d, 'out.h5'), read_from=bank.shortrc),
            save_matfile=F(stored, filepath=os.path.join(d, 'out.mat'), path='/zz'),
            is_leap_year=F(du.is_leap_year, year=np.arange(1896, 1910)), center_azimuth=F(cu.center_azimuth, phi=ph),
            plot_timeseries=F(lambda *a, **k: _fig(lambda: base.plot_timeseries(*a, **k)), nmax=1, deriv=1,
                              extrapolate='constant', radius=r, theta=40., phi=50.),
            plot_spectrum=F(lambda *a, **k: _fig(lambda: base.plot_power_spectrum(*a, **k)), time=2345., radius=3500.,
                            nmax=1, deriv=1),
            context=F(entered, key='params.r_surf', value=6500.))

    def call(self, f, doc, c):
        fun, val, always = self.f[f]
        def one(x):
            owner, how = x
            return 1 if owner == 'nonsense' else val[owner] if how == 'value' else \
                doc[owner] if how == 'doc' else None
        cpy = lambda v: v.copy() if isinstance(v, (np.ndarray, dict)) else list(v) if isinstance(v, list) else v
        pos = [cpy(one(x)) for x in c['pos']]
        kw = dict({n: cpy(one(x)) for n, x in c['named']}, **always)
        with warnings.catch_warnings(), Sink():
            warnings.simplefilter('ignore')
            try:
                return encode(fun(*pos, **kw))
            except Exception as e:      # noqa: BLE001
                return dict(k='exc', form=type(e).__name__, leaves=[])


def signatures():
    """The documented defaults, from the specification."""
    with open(os.path.join(core.SPEC, 'Interface.tla')) as f:
        s = f.read()
    s = s[s.index('Sigs == ['):s.index('\\* functions for which')]
    alias = dict(Ext=('extrapolate', "'linear'"), Der=('deriv', '0'), Grd=('grid', 'False'), Nm=('nmax', 'None'))
    out = {}
    for m in re.finditer(r'(\w+) \|->(.*?)(?=\n  \w+ \|->|\Z)', s, re.S):
        d = {n: ast.literal_eval(v) for n, v in alias.values()}
        for n, v in re.findall(r'<<"(\w+)", ("[^"]*"|Nn|IntSrc)>>', re.sub(r'Sg\(<<[^<>]*>>', '', m.group(2))):
            d[n] = ast.literal_eval({'Nn': 'None', 'IntSrc': "'internal'"}.get(v, v.strip('"')))
        out[m.group(1)] = d
    return out


def run(ctx):
    load_code()
    ctx.model('MC_Interface', consts=dict(IF_EMIT='0'))
    r = core.tlc('MC_Interface', env=dict(IF_EMIT='1'))
    if r.error or r.violated:
        raise MachineryError('forms: %s' % r.out[-2000:])
    docs, forms = signatures(), {}
    for m in core.BEH_RE.finditer(r.out):
        b = json.loads(json.loads(m.group(1)))
        forms.setdefault(b['f'], {})[json.dumps(b['c'], sort_keys=True)] = b['c']
    d, cwd = tempfile.mkdtemp(prefix='verif-if-'), os.getcwd()
    try:
        os.chdir(d)
        w = Callables(np.random.default_rng([ctx.seed, 37]), d)
        if set(w.f) != set(forms):
            raise MachineryError('functions: %s' % sorted(set(w.f) ^ set(forms)))
        log = Log('C37')
        for f in sorted(forms):
            cs = [forms[f][k] for k in sorted(forms[f])]
            long = max(len(c['pos']) for c in cs)
            must = [c for c in cs if len(c['pos']) == long or len(c['pos']) == 0 and (
                'nonsense' in str(c) or len(c['named']) == 1)]
            rest = [c for c in cs if c not in must]
            n = ctx.n(16, 400)
            for part in (must, rest):
                for i in ctx.rng.permutation(len(part))[:n]:
                    ev(ctx, log, w, f, docs[f], part[i])
            # everything by position, up to every length
            for k in range(long + 1):
                same = [c for c in cs if len(c['pos']) == k and not any(x[1] != 'value' for x in c['pos'])]
                if same:
                    ev(ctx, log, w, f, docs[f], min(same, key=lambda c: (len(c['named']), str(c))))
        ctx.trace('Trace_Interface', log)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def ev(ctx, log, w, f, doc, c):
    vals = sorted(x[0] for x in list(c['pos']) + [y for _, y in c['named']] if x[1] == 'value')
    key = (f,) + tuple(vals)
    refs = log.__dict__.setdefault('refs', {})
    if key not in refs:
        rc = dict(pos=[], named=[[x, [x, 'value']] for x in vals])
        refs[key] = log.define(dict(f=f, c=rc, out=w.call(f, doc, rc)))
    log.add(dict(op='form', f=f, c=c, ref=refs[key], out=w.call(f, doc, c)), '%s(%s)' % (f, json.dumps(c)))
