"""C20: rotation matrices of Gauss coefficients, spherical harmonic analysis."""
import numpy as np
from core import Log, load_code, farr, fxs, short, sampled
from props.rot_common import rand_frame, schmidt_harmonics


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    rng = ctx.rng
    ctx.model('MC_Rotation', consts=dict(RO_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C20')

    def rg(nmax, kmax, b):
        log.call('rg', lambda: cu.rotate_gauss(nmax, kmax, *b), farr,
                 raw='rotate_gauss(%s)' % short(nmax, kmax, *b), nmax=int(nmax), kmax=int(kmax),
                 b1=farr(b[0]), b2=farr(b[1]), b3=farr(b[2]))

    shapes = [(), (1,), (2,), (3,), (2, 2)]
    for nmax in range(1, ctx.n(4, 6)):
        for kmax in range(1, ctx.n(4, 6)):
            rg(nmax, kmax, rand_frame(rng, shapes[rng.integers(len(shapes))]))
    for i in range(ctx.n(20, 150)):
        nmax, kmax = rng.integers(1, ctx.n(5, 8), 2)
        rg(int(nmax), int(kmax), rand_frame(rng, shapes[rng.integers(len(shapes) - 2)]))
    for n in (203, 2003):          # many frames
        with sampled(rng, n, 5):
            rg(2, 2, rand_frame(rng, (n,)))
            rg(1, 3, cu.basevectors_sm(rng.uniform(-4000, 9000, n)))
    for a, b in [(1, 14), (14, 1), (6, 6), (3, 10), (9, 2)][:ctx.n(3, 5)]:     # high degrees
        rg(a, b, rand_frame(rng))
    # the identity, given as integers, and frames of the package
    eye = np.eye(3, dtype=int)
    rg(3, 2, (eye[0], eye[1], eye[2]))
    rg(2, 2, (eye[1], eye[2], eye[0]))
    for i in range(ctx.n(4, 20)):
        t = rng.uniform(-20000, 20000, 2)
        rg(2, 3, cu.basevectors_gsm(t))
        rg(3, 2, cu.basevectors_sm(t))
        rg(2, 2, cu.basevectors_mag())
    # frames given as strided views
    b = rand_frame(rng, (4,))
    rg(2, 2, tuple(x[::2] for x in b))
    rg(2, 2, tuple(np.asfortranarray(x) for x in b))

    def sh(co, nmax, kmax=None, deg=None):
        co = np.asarray(co, dtype=float)
        L = int(np.sqrt(co.size + 1)) - 1

        def func(theta, phi):
            return sum(c * y for c, y in zip(co, schmidt_harmonics(L, theta, phi))) + 0 * theta
        k = {} if kmax is None else dict(kmax=kmax)
        log.call('sh', lambda: cu.sh_analysis(func, nmax, **k), farr,
                 raw='sh_analysis(<degree %d>, %d, %s)' % (L, nmax, k), nmax=int(nmax), co=fxs(co))
    for i in range(ctx.n(60, 500)):
        # the band-limited function is resolved when its degree is at most kmax
        nmax = int(rng.integers(1, 9))
        L = int(rng.integers(1, nmax + 1))
        co = rng.normal(size=L * (L + 2)) * 10.**rng.integers(0, 4)
        if i % 4 == 0:
            co[:] = 0
            co[rng.integers(co.size)] = 1.
        if i % 3 == 0:
            sh(co, nmax)
        elif i % 3 == 1:
            sh(co, nmax, kmax=int(rng.integers(1, 12)))     # below nmax: no effect
        else:
            L = int(rng.integers(1, 11))
            co = rng.normal(size=L * (L + 2))
            sh(co, nmax, kmax=max(L, nmax) + int(rng.integers(0, 3)) if L > nmax else L)
    for L in ctx.n([13], [12, 13, 16, 20]):
        co = rng.normal(size=L * (L + 2))
        sh(co, L), sh(co[:8], L), sh(co[:15], 3, kmax=L + 1), sh(co, 2, kmax=L)
    # a rotated potential analysed is the rotation of its coefficients
    for i in range(ctx.n(6, 40)):
        n = int(rng.integers(1, 5))
        b = rand_frame(rng)

        def matrix():
            cols = []
            for j in range(n * (n + 2)):
                def func(theta, phi):
                    th, ph = cu.geo_to_base(theta, phi, *b)
                    return schmidt_harmonics(n, th, ph)[j]
                cols.append(cu.sh_analysis(func, n))
            return np.stack(cols, axis=-1)
        log.call('rg', matrix, farr, raw='sh_analysis of rotated harmonics, degree %d' % n,
                 nmax=n, kmax=n, b1=farr(b[0]), b2=farr(b[1]), b3=farr(b[2]))
    ctx.trace('Trace_Rotation', log)
