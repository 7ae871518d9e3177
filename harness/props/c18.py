"""C18: transformation of points and vectors."""
import numpy as np
from core import Log, load_code, farr, short, sampled
from props.frame_common import enc, dip_event, rand_time, rand_dipole, rand_place, scal


def rand_rotation(rng, sh=()):
    q, r = np.linalg.qr(rng.normal(size=sh + (3, 3)))
    q = q * np.sign(np.linalg.det(q))[..., None, None]
    return q[..., 0, :], q[..., 1, :], q[..., 2, :]


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Frames', consts=dict(FR_BIG='0'), timeout=850)
    log = Log('C18')

    def tp(frame, th, ph, t, d=None, inv=None, name=None):
        kw = {k: v for k, v in dict(dipole=d, inverse=inv).items() if v is not None}
        name = name or frame
        return log.call('points', lambda: cu.transform_points(th, ph, t, reference=name, **kw),
                        enc('th', 'ph'), raw='transform_points(%s, %s)' % (name, short(th, ph, t, **kw)),
                        frame=frame, th=farr(th), ph=farr(ph), time=farr(0. if t is None else t),
                        dip=dip_event(d), inverse=bool(inv))

    def tv(frame, th, ph, bt, bp, t, d=None, inv=None, name=None):
        kw = {k: v for k, v in dict(dipole=d, inverse=inv).items() if v is not None}
        name = name or frame
        return log.call('vectors', lambda: cu.transform_vectors(th, ph, bt, bp, t, reference=name, **kw),
                        enc('th', 'ph', 'bt', 'bp'),
                        raw='transform_vectors(%s, %s)' % (name, short(th, ph, bt, bp, t, **kw)),
                        frame=frame, th=farr(th), ph=farr(ph), time=farr(0. if t is None else t),
                        bt=farr(bt), bp=farr(bp), dip=dip_event(d), inverse=bool(inv))

    def g2b(th, ph, B, inv=None):
        kw = {} if inv is None else dict(inverse=inv)
        ev = dict(frame='given', th=farr(th), ph=farr(ph), b1=farr(B[0]), b2=farr(B[1]),
                  b3=farr(B[2]), inverse=bool(inv))
        log.call('points', lambda: cu.geo_to_base(th, ph, *B, **kw), enc('th', 'ph'),
                 raw='geo_to_base(%s)' % short(th, ph, *B, **kw), **ev)

    def mat(th, ph, B, inv=None):
        kw = {} if inv is None else dict(inverse=inv)
        ev = dict(frame='given', th=farr(th), ph=farr(ph), b1=farr(B[0]), b2=farr(B[1]),
                  b3=farr(B[2]), inverse=bool(inv))
        log.call('matrix', lambda: cu.matrix_geo_to_base(th, ph, *B, **kw), enc('th', 'ph', 'm'),
                 raw='matrix_geo_to_base(%s)' % short(th, ph, *B, **kw), **ev)
    frames = ['gsm', 'sm', 'mag']
    combos = [((), (), ()), ((3,), (3,), (3,)), ((3,), (3,), ()), ((), (), (3,)), ((1,), (3,), (1,)),
              ((2, 1), (3,), ()), ((3,), (), (2, 1)), ((2, 1), (1, 3), (2, 3)), ((2, 2), (2, 2), (2,)),
              ((), (2,), (2,)), ((2,), (), (2,)), ((1,), (1,), (4,)),
              ((2, 1, 2), (2, 1), (2, 2, 1)), ((), (2,), (1, 2, 1)), ((2, 1, 1, 2),) * 3]
    for i in range(ctx.n(150, 1500)):
        a, b, c = combos[i % len(combos)]
        th, ph = rand_place(rng, a)[0], rand_place(rng, b)[1]
        t = rand_time(rng, c)
        d = rand_dipole(rng)
        if i % 6 == 0 and a == b == c:
            d = rand_dipole(rng, c)
        frame = frames[rng.integers(3)]
        inv = [None, True, False][rng.integers(3)]
        name = [None, frame.upper()][rng.integers(2)]
        th, ph, t = scal(rng, th), scal(rng, ph), scal(rng, t)
        if frame == 'mag' and rng.random() < .5:
            t = None
        tp(frame, th, ph, t, d, inv, name)
        full = np.broadcast_shapes(a, b, c if frame != 'mag' else ())
        bt, bp = rng.normal(size=(2,) + (full if i % 2 else ())) * 10.**rng.uniform(-1, 4)
        tv(frame, th, ph, scal(rng, bt), scal(rng, bp), t, d, inv, name)
        B = rand_rotation(rng, c)
        g2b(th, ph, B, inv)
        mat(th, ph, B, inv)
    # there and back again
    for frame in frames:
        for i in range(ctx.n(8, 60)):
            th, ph = rand_place(rng, (4,))
            t = rand_time(rng, (4,))
            d = rand_dipole(rng)
            bt, bp = rng.normal(size=(2, 4))
            r = cu.transform_vectors(th, ph, bt, bp, t, reference=frame, dipole=d)
            tv(frame, *r, t, d, True)
            r = cu.transform_points(th, ph, t, reference=frame, dipole=d, inverse=True)
            tp(frame, *r, t, d)
    for n in (1201, 10007):        # large arrays
        with sampled(rng, n):
            for frame in frames:
                (th, ph), t, d = rand_place(rng, (n,)), rand_time(rng, (n,)), rand_dipole(rng)
                bt, bp = rng.normal(size=(2, n))
                for inv in (None, True):
                    tp(frame, th, ph, t, d, inv), tv(frame, th, ph, bt, bp, t, d, inv)
                    tp(frame, th, ph, 1000.5, d, inv), tv(frame, 50., 60., 1., 2., t, d, inv)
                if frame == 'mag':
                    tp(frame, th, ph, None, d), tv(frame, th, ph, bt, bp, None, d)
            B = rand_rotation(rng)
            g2b(th, ph, B), mat(th, ph, B), g2b(th, ph, B, True), mat(th, ph, B, True)
            B = rand_rotation(rng, (n,))
            g2b(th, ph, B), mat(th, ph, B), mat(th, ph, B, True)
    # special places: poles as points, multiples of 90 degrees, identity frame
    eye = tuple(np.eye(3))
    for th in (0., 180., 90., 45):
        for ph in (0., -180., 180., 360., 90., -90, 500.):
            g2b(th, ph, eye)
            g2b(th, ph, rand_rotation(rng), True)
            tp('mag', th, ph, None)
            tp('gsm', th, ph, 100.)
            if 0 < th < 180:
                tv('sm', th, ph, 1., -2., 3000)
                mat(th, ph, rand_rotation(rng))
    # the configured dipole is read at the time of the call
    for g in ([-30000., -100., 2000.], [1., 2., 3.]):
        with basicConfig.context('params.dipole', np.array(g)):
            for f in frames:
                tp(f, 50., 60., 1234.5)
                tv(f, 50., 60., 1., 2., np.array([1234.5, 22.]))
    for name in ('geo', 'GEI', '', None, 'xyz', 'gsmx'):
        log.call('bad', lambda: cu.transform_points(10., 20., 0., reference=name), enc('th', 'ph'),
                 raw='transform_points, reference=%r' % name)
        log.call('bad', lambda: cu.transform_vectors(10., 20., 1., 2., 0., reference=name),
                 enc('th', 'ph', 'bt', 'bp'), raw='transform_vectors, reference=%r' % name)
    ctx.trace('Trace_Frames', log)
