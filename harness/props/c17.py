"""C17: base vectors and dipole directions."""
import numpy as np
from core import Log, load_code, farr, short, sampled
from props.frame_common import enc, dip_event, rand_time, rand_dipole, rand_place, scal


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Frames', consts=dict(FR_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C17')
    b3 = enc('b1', 'b2', 'b3')

    def base(frame, t, dipole):
        f = dict(gsm=cu.basevectors_gsm, sm=cu.basevectors_sm, mag=cu.basevectors_mag)[frame]
        kw = {} if dipole is None and rng.random() < .5 else dict(dipole=dipole)
        args = () if frame == 'mag' else (t,)
        log.call('base', lambda: f(*args, **kw), b3, raw='basevectors_%s(%s)' % (frame, short(t, **kw)),
                 frame=frame, time=farr(t), dip=dip_event(dipole))

    def use(th, ph):
        log.call('use', lambda: cu.basevectors_use(th, ph), b3,
                 raw='basevectors_use(%s)' % short(th, ph), th=farr(th), ph=farr(ph))

    def dip(d, pos=True):
        log.call('dip', lambda: cu.dipole_to_vec(d) if pos else cu.dipole_to_vec(), enc('v'),
                 raw='dipole_to_vec(%s)' % short(d), dip=dip_event(d))
    for i in range(ctx.n(130, 1300)):
        sh = [(), (1,), (3,), (2, 2), (1, 2)][rng.integers(5)]
        t = scal(rng, rand_time(rng, sh))
        d = rand_dipole(rng)
        base('gsm', t, d)
        base('sm', t, d)
        base('mag', 0., d)
        # one dipole per time
        d = rand_dipole(rng, sh)
        base('gsm', np.asarray(t), d)
        base('sm', np.asarray(t), d)
        base('mag', 0., d)
        dip(d)
        th, ph = rand_place(rng, sh)
        use(scal(rng, th), scal(rng, ph))
        if len(sh) == 1:
            use(th[:, None], ph)
            use(90., ph)
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            t, (th, ph) = rand_time(rng, n), rand_place(rng, (n,))
            for d in (None, rand_dipole(rng), rand_dipole(rng, (n,))):
                base('gsm', t, d), base('sm', t, d), base('mag', 0., d), dip(d)
            use(th, ph), use(th, 50.), use(th[:, None], np.array([10., 200.]))
    # the three forms of the same dipole
    for g in ([-29442., -1501., 4797.1], [-30000., -2000., 5000.], [-1., 1., 2.], [3., 1., -1.]):
        g = np.array(g)
        v = -np.array([g[1], g[2], g[0]]) / np.linalg.norm(g)
        th, ph = np.degrees(np.arccos(v[2])), np.degrees(np.arctan2(v[1], v[0]))
        for d in (g, tuple(g), list(g), (th, ph), (th, ph + 360), g * 7., [g]):
            for f in ('gsm', 'sm', 'mag'):
                base(f, 1234.5, d)
            dip(d)
        with basicConfig.context('params.dipole', g):
            for f in ('gsm', 'sm', 'mag'):
                base(f, np.array([0., 4321.25]), None)
            dip(None)
            dip(None, pos=False)
    dip(None)
    # times: solstices, equinoxes, midnight, integers
    for t in (0, 79, 80.3, 171.8, 172, 264.5, 355.9, -1, -36000, 36000, 365.25):
        base('gsm', t, None)
        base('sm', t, None)
    base('sm', np.arange(0, 8766, 1461), None)
    for th in (1e-9, 1e-3, 90., 179.999, 45):
        for ph in (-180., 0., 90, 360., 450.):
            use(th, ph)
    for bad in (0., 180., np.array([0., 20.]), np.array([20., 180.]), np.array([0., 180.]), 0, 180):
        use(bad, 30.)
    for th in ([np.nan, 0.], [180., np.nan, 50.], [[30., np.nan], [180., 0.]], [np.nan, 77.], [20., np.nan]):
        use(np.array(th), 30.)         # missing colatitudes do not hide the others
    use(np.array([20., 30.]), np.array([np.nan, 4.]))
    # IGRF poles
    for ep, d in (('2015', np.array([-29442.0, -1501.0, 4797.1])), (2015, np.array([-29442.0, -1501.0, 4797.1])),
                  (None, np.array([-29442.0, -1501.0, 4797.1])), ('2010', (11.32, 289.59)), (2010, (11.32, 289.59))):
        log.call('dip', lambda: cu.igrf_dipole(ep), enc('v'), raw='igrf_dipole(%r)' % ep,
                 dip=dip_event(d))
    log.call('dip', lambda: cu.igrf_dipole(), enc('v'), raw='igrf_dipole()',
             dip=dip_event(np.array([-29442.0, -1501.0, 4797.1])))
    for ep in ('2020', 1995, ''):
        log.call('bad', lambda: cu.igrf_dipole(ep), enc('v'), raw='igrf_dipole(%r)' % ep)
    log.call('bad', lambda: cu.dipole_to_vec((1., 2., 3., 4.)), enc('v'), raw='dipole of four numbers')
    ctx.trace('Trace_Frames', log)
