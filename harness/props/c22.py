"""C22: induction response of a layered conductor."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, farr, fx, fxs, short, sampled, thin
from props.rot_common import cenc


def run(ctx):
    load_code()
    import chaosmagpy.coordinate_utils as cu
    from chaosmagpy import basicConfig
    rng = ctx.rng
    ctx.model('MC_Induction', consts=dict(IN_BIG='0' if ctx.quick else '1'), timeout=850)
    log = Log('C22')

    def enc(res):
        c, rho, phi, q = res
        if np.iscomplexobj(rho) or np.iscomplexobj(phi):
            raise TypeError('resistivity and phase must be real')
        return dict(c=cenc(c), rho=farr(rho), phi=farr(phi), q=cenc(q))

    def q1(periods, sigma, radius, n, kind=None, bad=False, tol=1e-9):
        per = np.atleast_1d(np.asarray(periods, dtype=float))
        k = {} if kind is None else dict(kind=kind)
        log.call('q1', lambda: cu.q_response_1D(periods, sigma, radius, n, **k), enc,
                 raw='q_response_1D(%s)' % short(periods, sigma, radius, n, **k),
                 per=farr(per), shape=list(thin(per).shape), sigma=fxs(sigma), rad=fxs(radius), n=int(n),
                 kind=str(kind or 'quadratic'), bad=bad, tol=fx(tol))

    def profile(k, constant):
        r = np.sort(rng.choice(np.arange(1200, 6300, 37.), k - 1, replace=False))[::-1]
        r = np.concatenate([[rng.choice([6371.2, 6371., 6300.])], r])
        if constant:
            r[-1] = min(r[-1], 6000.)
        sigma = 10.**rng.uniform(-5, 1, k)
        if rng.random() < .3:
            sigma[:] = sigma[0]
        if rng.random() < .3:
            sigma[-1] = 1e5
        return sigma, r

    per0 = [1e2, 86400., 3600., 86400 * 365.25, 1e9, 1., 43200.]
    for i in range(ctx.n(60, 500)):
        kind = [None, 'quadratic', 'constant'][i % 3]
        k = int(rng.integers(2 if kind == 'constant' else 1, 7))
        s, r = profile(k, kind == 'constant')
        n = int(rng.integers(1, 5))
        p = np.concatenate([rng.choice(per0, 2, replace=False), 10.**rng.uniform(1, 9, 2)])
        if i % 4 == 0:
            p = p[:1]
        if i % 5 == 0:
            p = np.round(p).astype(int)
        if i % 7 == 0:
            p = list(p)
        q1(p, s, r, n, kind)
        if i % 6 == 0:
            q1(np.sort(p)[::-1], list(s) if kind != 'constant' else s, r, n, kind)
    for i, n in enumerate((203, 2003)):        # many periods, many layers
        for kind in ('quadratic', 'constant'):
            with sampled(rng, n, 4):
                s, r = profile(4, kind == 'constant')
                q1(10.**rng.uniform(1, 9, n), s, r, 1 + i, kind)
        s, r = profile(25, True)
        q1(10.**rng.uniform(1, 9, 2), s, r, 1 + i, ('quadratic', 'constant')[i])
    # scalar periods, uniform sphere, limits
    for kind in ('quadratic', 'constant'):
        s, r = profile(3, kind == 'constant')
        q1(86400., s, r, 1, kind)
        q1(3600, s, r, 2, kind)
        for n in (1, 2, 5):
            q1(np.array([1e10, 1e12]), np.array([1e-6, 1e-6]), np.array([6371.2, 3000.]), n, kind)
            q1(np.array([1e-3, 1.]), np.array([1e3, 1e3]), np.array([6371.2, 3000.]), n, kind)
    q1(np.array([[1., 2.]]), np.array([1.]), np.array([6371.2]), 1, bad=True)
    q1(np.array([1., 2.]), np.array([[1.]]), np.array([6371.2]), 1, bad=True)
    q1(np.array([1., 2.]), np.array([1., 2.]), np.array([6371.2, 1.]), 1, 'linear', bad=True)

    def qr(freq, nmax):
        sig = np.loadtxt(basicConfig['file.Earth_conductivity'])
        log.call('qr', lambda: cu.q_response(freq, nmax), cenc,
                 raw='q_response(%s)' % short(freq, nmax), freq=farr(freq), nmax=nmax,
                 sigma=fxs(sig[:, 1]), rad=[fx(v) for v in 6371.2 - sig[:, 0]])
    qr(np.array([0., 1e-5, 1e-7, 3e-9]), 2)
    qr(np.array([1e-6, 0., 2e-4]), 3)
    qr(np.array([0.]), 1)
    qr(np.array([1e-8]), 1)
    with sampled(rng, 203, 4):
        qr(np.concatenate([[0.], 10.**rng.uniform(-10, -3, 202)]), 2)
    if not ctx.quick:
        for i in range(20):
            qr(10.**rng.uniform(-10, -3, 3), int(rng.integers(1, 5)))
    tmp = tempfile.mkdtemp(prefix='verif-sigma-')
    try:
        for i in range(ctx.n(3, 12)):
            k = int(rng.integers(2, 6))
            depth = np.concatenate([[0.], np.sort(rng.uniform(10, 3000, k - 1))])
            path = os.path.join(tmp, 'sigma.dat')
            np.savetxt(path, np.stack([depth, 10.**rng.uniform(-4, 1, k)], axis=1), fmt='%.17g')
            with basicConfig.context('file.Earth_conductivity', path):
                qr(np.array([0., 10.**rng.uniform(-9, -4), 1e-6]), 2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Rotation', log)
