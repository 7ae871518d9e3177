"""C27: MAT-files round-trip complete CHAOS models."""
import os
import shutil
import tempfile
import numpy as np
from core import Log, load_code, farr, short
from props.file_common import Sink

DEFAULT = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
           'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
CAL = 'cryosat-2_1'


def run(ctx):
    load_code()
    ctx.model('MC_MatFile', consts=dict(MAT_BIG='0' if ctx.quick else '1'))
    log = Log('C27')
    tmp = tempfile.mkdtemp(prefix='verif-mat-')
    try:
        drive(ctx, log, ctx.rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Files', log)


class Ids:
    """Numbers by name: equal numbers get the same name, zero is 0."""

    def __init__(self):
        self.d = {0.: 0}

    def __call__(self, a):
        a = np.asarray(a, dtype=float)
        if a.ndim == 0:
            v = float(a)
            return self.d.setdefault(v if v == v else 'nan', len(self.d))
        return [self(x) for x in a]


def model_rec(I, m):
    t = m.model_tdep
    r = dict(pp=dict(br=I(t.breaks), c=I(t.coeffs)),
             stat=[] if m.model_static is None else I(np.ravel(m.model_static.coeffs)),
             ext=[], eul=[], cal=[], pre=[])
    if m.coeffs_delta:
        r['ext'] = [dict(sm=I(m.coeffs_sm), gsm=I(m.coeffs_gsm), b10=I(m.breaks_delta['q10']),
                         b11=I(m.breaks_delta['q11']), q10=I(np.ravel(m.coeffs_delta['q10'])),
                         q11=I(np.ravel(m.coeffs_delta['q11'])), s11=I(np.ravel(m.coeffs_delta['s11'])))]
        if I(m.breaks_delta['s11']) != I(m.breaks_delta['q11']):
            raise AssertionError('breaks of s11 and q11 differ')
    if m.model_euler:
        sat = list(m.model_euler)
        r['eul'] = [dict(sat=sat, br=[I(m.model_euler[s].breaks) for s in sat],
                         c=[I(m.model_euler[s].coeffs[0]) for s in sat])]
        for s in sat:
            if m.model_euler[s].coeffs.shape[0] != 1 or m.model_euler[s].coeffs.shape[-1] != 3:
                raise AssertionError('shape of Euler angles')
    if m.model_cal:
        if list(m.model_cal) != [CAL]:
            raise AssertionError('satellites with calibration parameters')
        c = m.model_cal[CAL]
        r['cal'] = [dict(br=I(c.breaks), c=I(c.coeffs[0]))]
    pre = ((m.meta or {}).get('params') or {}).get('Euler_prerotation')
    if pre is not None:
        r['pre'] = [I(pre)]
        for k, s in enumerate(m.model_euler or []):     # every satellite has its row
            if I(m.model_euler[s].meta['Euler_prerotation']) != r['pre'][0][k]:
                raise AssertionError('pre-rotation of satellite ' + s)
    return r


def file_rec(I, path):
    """Contents of a file in MAT v7.3 format, as MATLAB shows them."""
    import h5py
    with h5py.File(path, 'r') as f:
        def get(x):
            x = x[()]
            return x.T if hasattr(x, 'T') else x

        def col(x):
            v = get(x)
            assert v.ndim == 2 and 1 in v.shape, 'not a vector'
            return I(v.ravel())

        def cells(x):
            return [f[r] for r in np.ravel(x[()])]

        def ppform(p):
            return dict(order=int(get(p['order']).item()), pieces=int(get(p['pieces']).item()),
                        dim=int(get(p['dim']).item()), breaks=col(p['breaks']), coefs=I(get(p['coefs'])))
        r = dict(pp=ppform(f['pp']), g=col(f['g']) if 'g' in f else [], model_ext=[], model_Euler=[],
                 pp_CAL=[], pre=[])
        if 'model_ext' in f:
            x = f['model_ext']
            d = {k: col(x[k]) for k in ('m_Dst', 'm_sm', 'm_gsm', 't_break_q10', 'q10', 't_break_qs11')}
            d['m_sm'] = d['m_sm'][3:]
            d['qs11'] = I(get(x['qs11']))
            r['model_ext'] = [d]
        if 'model_Euler' in f:
            x = f['model_Euler']
            r['model_Euler'] = [dict(t_break=[col(c) for c in cells(x['t_break_Euler'])],
                                     **{a: [col(c) for c in cells(x[a])] for a in ('alpha', 'beta', 'gamma')})]
        if 'pp_CAL' in f:
            x = f['pp_CAL']
            x = x if isinstance(x, h5py.Group) else cells(x)[0]
            p = ppform(x)
            assert p['order'] == 1 and p['dim'] == 9
            r['pp_CAL'] = [dict(breaks=p['breaks'], coefs=[row[0] for row in p['coefs']])]
        if 'params' in f and 'Euler_prerotation' in f['params']:
            v = get(f['params']['Euler_prerotation'])
            if v.ndim == 2 and v.shape[-1] == 3 and v.dtype.kind in 'fiu':
                r['pre'] = [I(v)]
        return r


def mk(rng, P, order, nt, ns, q10, q11, sats, cal, pre, ints=False, meta=None):
    """Arrays of a model with every part in the published layout."""
    br = np.sort(rng.choice(2000, P + 1, replace=False)).astype(float) + rng.integers(-1000, 6000)
    if not ints:
        br = br + rng.uniform(0, 1, P + 1)
    lo, hi = br[0] - 1, br[-1] + 1

    def cut(q):
        x = np.linspace(lo, hi, q + 1)
        return np.round(x) if ints else x
    N = nt * (nt + 2)
    d = dict(breaks=br, order=order, coeffs_tdep=rng.normal(size=(order, P, N)) * 100)
    if ns:
        d['coeffs_static'] = rng.normal(size=(1, 1, ns * (ns + 2)))
        d['coeffs_static'][..., :N] = 0.
    if q10:
        g = np.zeros(8)
        g[[0, 3]] = rng.normal(size=2)
        x11 = cut(q11)
        d.update(coeffs_sm=rng.normal(size=8), coeffs_gsm=g,
                 breaks_delta=dict(q10=cut(q10), q11=x11, s11=x11.copy()),
                 coeffs_delta=dict(q10=rng.normal(size=(1, q10)), q11=rng.normal(size=(1, q11)),
                                   s11=rng.normal(size=(1, q11))))
    if sats:
        be, ce = {}, {}
        for s, b in sats.items():
            if b < 0:           # one bin at one instant
                be[s] = np.full(2, np.floor(rng.uniform(lo, hi)))
            else:
                be[s] = np.sort(np.round(rng.uniform(lo, hi, b + 1), 0 if ints else 3))
                be[s] = np.unique(be[s]) if np.unique(be[s]).size == b + 1 else lo + np.arange(b + 1.)
            ce[s] = rng.normal(size=(1, abs(b), 3))
        d.update(breaks_euler=be, coeffs_euler=ce)
    if cal:
        d.update(breaks_cal={CAL: cut(cal)}, coeffs_cal={CAL: rng.normal(size=(1, cal, 9))})
    d['meta'] = dict(params=dict(Euler_prerotation=rng.normal(size=(len(sats), 3)) if pre and sats else None),
                     satellites=tuple(sats))
    if meta == 'bare':
        del d['meta']
    elif meta:
        d['meta'] = {k: v for k, v in d['meta'].items() if k in meta}
    return d


CASES = [dict(sats=dict(a=4, b=3)), dict(sats=dict(a=4, b=4)), dict(sats=dict(a=5)), dict(sats=dict(b=1)),
         dict(sats=dict(a=1, b=1)), dict(sats=dict(a=1, b=3)), dict(sats=dict(a=2, b=-1, c=3)),
         dict(sats={'a': -1}), dict(sats=dict(a=3, b=3, c=3)),
         dict(sats={'s%d' % i: 3 + i % 3 for i in range(12)}), dict(q10=1), dict(q11=1), dict(q10=1, q11=1),
         dict(P=1), dict(order=1), dict(P=1, order=1), dict(P=1, order=6), dict(nt=1), dict(nt=1, ns=1, P=2),
         dict(cal=3), dict(cal=1), dict(pre=False), dict(pre=False, sats=dict(a=3)), dict(P=1, order=1, nt=1),
         dict(ns=0), dict(q10=0), dict(sats={}), dict(ns=0, q10=0, sats={}), dict(q10=0, sats={}), dict(ns=0, sats={}),
         dict(meta='bare'), dict(meta='empty'), dict(meta='satellites'), dict(meta='params'),
         dict(meta='bare', pre=False, sats={'a': -1, 'c': 2, 'b': 3}), dict(P=300, nt=1, order=2), dict(nt=16, ns=17, P=2, order=2), dict(q10=300, q11=270),
         dict(sats=dict(a=300, b=290)),
         dict(ns=0, q10=0), dict(ns=0, q10=0, sats={}, cal=2, pre=False), dict(q10=0, sats=dict(a=-1, b=2), cal=1)]


def case(rng, j):
    k = dict(P=3, order=6, nt=2, ns=3, q10=4, q11=3, sats=dict(x=4, y=3), cal=0, pre=True, ints=j % 4 == 3)
    if j < len(CASES):
        k.update(CASES[j])
    else:
        k.update(P=int(rng.integers(1, 6)), order=int(rng.integers(1, 7)), nt=int(rng.integers(1, 4)),
                 q10=int(rng.integers(1, 6)), q11=int(rng.integers(1, 6)), cal=int(rng.integers(0, 4)),
                 pre=bool(rng.integers(0, 4)),
                 sats={'sat_%s' % c: int(rng.choice([-1, 1, 2, 3, 4]))
                       for c in 'bacdefghijklm'[:int(rng.integers(1, 11))]})
        k['ns'] = k['nt'] + int(rng.integers(0, 3))
        if rng.random() < .3:
            k.update([dict(ns=0), dict(q10=0), dict(sats={}, cal=0), dict(ns=0, q10=0)][int(rng.integers(0, 4))])
    return k


def queries(m, rng):
    """Some of everything a model answers."""
    t = m.model_tdep.breaks
    ts = np.concatenate((rng.uniform(t[0], t[-1], 3), [t[0] - 3., t[-1] + 3., t[0], t[-1]]))
    rc = rng.normal(size=ts.size)
    out = [('tdep', lambda x: x.synth_coeffs_tdep(ts, nmax=1)),
           ('deriv', lambda x: x.synth_coeffs_tdep(ts, deriv=1)),
           ('values', lambda x: np.array(x.synth_values_tdep(ts[0], 6400., 40., 50.)))]
    if m.model_static is not None:
        out.append(('static', lambda x: x.synth_coeffs_static()))
    if m.coeffs_delta:
        out += [('sm', lambda x: x.synth_coeffs_sm(ts, rc=rc)),
                ('sm-induced', lambda x: x.synth_coeffs_sm(ts, rc=rc, source='internal')),
                ('gsm', lambda x: x.synth_coeffs_gsm(ts)),
                ('total', lambda x: np.array(x(ts[:2], 6800., 30., 40., rc_e=rc[:2], rc_i=rc[:2], source_list=(
                     None if m.model_static is not None else ['tdep', 'sm', 'gsm']))))]
    for s in m.model_euler or []:
        if m.model_euler[s].coeffs.shape[1] and np.ptp(m.model_euler[s].breaks) > 0:
            out.append(('angles', lambda x, s=s: x.synth_euler_angles(ts, s)))
    if m.model_cal:
        out.append(('calibration', lambda x: x.model_cal[CAL].synth_coeffs(ts)))
    return out


def write_v5(rng, path, d, cell=True, small=True):
    """The same model in the published layout, written independently of the code."""
    import scipy.io as sio

    def cells(x):
        c = np.empty((1, len(x)), dtype=object)
        for k, v in enumerate(x):
            c[0, k] = np.reshape(v, (-1, 1))
        return c

    def num(x):         # integers are stored as such
        x = np.asarray(x)
        return x.astype(np.int16) if small and np.all(x == np.round(x)) and np.all(np.abs(x) < 32000) else x

    def ppform(br, c):
        k, P, N = c.shape
        rows = c.reshape(k, P * N).T
        return dict(form='pp', breaks=num(br)[None, :], coefs=rows, pieces=np.min_scalar_type(P).type(P), order=np.uint8(k),
                    dim=np.uint16(N))
    o = dict(pp=ppform(d['breaks'], d['coeffs_tdep']))
    if 'coeffs_static' in d:
        o['g'] = d['coeffs_static'].reshape(-1, 1)
    if 'breaks_delta' in d:
        b, c = d['breaks_delta'], d['coeffs_delta']
        o['model_ext'] = dict(t_break_q10=num(b['q10'])[:, None], q10=c['q10'].T, t_break_qs11=num(b['q11'])[:, None],
                              qs11=np.stack((c['q11'][0], c['s11'][0]), axis=-1),
                              m_sm=np.append(rng.normal(size=3), d['coeffs_sm'][3:])[:, None],
                              m_gsm=d['coeffs_gsm'][[0, 3]][:, None], m_Dst=d['coeffs_sm'][:3][:, None])
    if 'breaks_euler' in d:
        sats = list(d['breaks_euler'])
        tb = [d['breaks_euler'][s] for s in sats]
        o['model_Euler'] = dict(
            t_break_Euler=cells([num(x[:1] if x[0] == x[-1] else x) for x in tb]),
            **{a: cells([d['coeffs_euler'][s][0, :, k] for s in sats])
               for k, a in enumerate(('alpha', 'beta', 'gamma'))})
    if 'breaks_cal' in d:
        p = ppform(d['breaks_cal'][CAL], d['coeffs_cal'][CAL])
        if cell:
            c = np.empty((1, 1), dtype=object)
            c[0, 0] = p
            p = c
        o['pp_CAL'] = p
    pre = ((d.get('meta') or {}).get('params') or {}).get('Euler_prerotation')
    o['params'] = dict(w_obs_0=np.uint8(3))
    if pre is not None:
        o['params']['Euler_prerotation'] = pre
    sio.savemat(path, o)


def v5_rec(I, path):
    """Contents of a file in the older MAT-format."""
    import scipy.io as sio
    z = sio.loadmat(path)
    vec = lambda a: I(np.ravel(a))

    def ppform(p):
        g = lambda k: p[k][0, 0]
        return dict(order=int(g('order').item()), pieces=int(g('pieces').item()), dim=int(g('dim').item()),
                    breaks=vec(g('breaks')), coefs=I(g('coefs')))
    r = dict(pp=ppform(z['pp']), g=vec(z['g']) if 'g' in z else [], model_ext=[], model_Euler=[], pp_CAL=[], pre=[])
    if 'model_ext' in z:
        x = z['model_ext']
        d = {k: vec(x[k][0, 0]) for k in ('m_Dst', 'm_sm', 'm_gsm', 't_break_q10', 'q10', 't_break_qs11')}
        d['m_sm'] = d['m_sm'][3:]
        d['qs11'] = I(x['qs11'][0, 0])
        r['model_ext'] = [d]
    if 'model_Euler' in z:
        x = z['model_Euler']
        cell = lambda k: [vec(c) for c in x[k][0, 0].ravel()]
        r['model_Euler'] = [dict(t_break=cell('t_break_Euler'), alpha=cell('alpha'), beta=cell('beta'),
                                 gamma=cell('gamma'))]
    if 'pp_CAL' in z:
        p = z['pp_CAL']
        p = ppform(p if p.dtype.names else p[0, 0])
        r['pp_CAL'] = [dict(breaks=p['breaks'], coefs=[row[0] for row in p['coefs']])]
    if 'params' in z and 'Euler_prerotation' in (z['params'].dtype.names or ()):
        r['pre'] = [I(z['params']['Euler_prerotation'][0, 0])]
    return r


def drive(ctx, log, rng, tmp):
    import chaosmagpy as cp
    from chaosmagpy.chaos import CHAOS
    num = [0]

    def new():
        num[0] += 1
        return os.path.join(tmp, ['model%d.mat', 'CHAOS-%d.x.mat', 'two words %d.mat'][num[0] % 3] % num[0])

    def load(p, names, j):
        kw = {} if names is None else dict(satellites=names)
        return [cp.load_CHAOS_matfile, CHAOS.from_mat][j % 2](p, **kw)

    for j in range(ctx.n(55, 200)):
        k = case(rng, j)
        d = mk(rng, **k)
        label = 'CHAOS(%s)' % k
        # satellites as list or tuple
        names = list(k['sats']) if j % 2 else tuple(k['sats'])
        if j % 7 == 5:          # the code names the satellites itself
            names = None
            short_ = DEFAULT[:len(k['sats'])] + ['satellite_%d' % i for i in range(10, len(k['sats']) + 1)]
            for x in ('breaks_euler', 'coeffs_euler'):
                if x in d:
                    d[x] = dict(zip(short_, d[x].values()))
            if 'satellites' in d.get('meta', {}):
                d['meta']['satellites'] = tuple(short_)
        I = Ids()
        want = list(d.get('breaks_euler', []))
        keep = []

        def go():
            m = CHAOS(**d)
            before = model_rec(I, m)
            p = new()
            with Sink():
                m.save_matfile(p)
            fl = file_rec(I, p)
            given = names if names is None else list(names) if isinstance(names, list) else tuple(names)
            n = load(p, given, j)
            p2 = new()
            with Sink():
                n.save_matfile(p2)
            o = load(p2, given, j + 1)
            keep.extend((m, n, o))
            return dict(before=before, after=model_rec(I, m), file=fl, loaded=model_rec(I, n),
                        again=model_rec(I, o), names=want if given is None else list(given))
        b = {}

        def enc(r):
            b.update(before=r.pop('before'))
            return r
        log.call('mat', go, enc, names=want, raw=label)
        log.events[-1]['before'] = b.get('before', {})
        if len(keep) < 3:
            continue
        for what, q in queries(keep[0], rng):
            log.call('same', lambda: (q(keep[0]), q(keep[1 + j % 2])), lambda r: dict(a=farr(r[0]), b=farr(r[1])),
                     what=what, raw='%s of %s after saving and loading' % (what, label))
        # in the older format, written by the harness
        p = new()
        parts = dict(d)
        for key in (('coeffs_static',), ('breaks_delta',), ('breaks_euler',), ())[j % 4]:
            if j >= len(CASES):
                parts.pop(key, None)
        write_v5(rng, p, parts, cell=bool(j % 2), small=bool(j % 3))
        given = list(d.get('breaks_euler', [])) if names is None else names
        if j % 5 == 4 and len(given) > 1:        # fewer names than satellites
            given = given[:-1]
        elif j % 5 == 3:                        # more names
            given = list(given) + ['extra', 'another']
        given = list(given)
        arg = given if j % 2 else tuple(given)
        rec = v5_rec(I, p)
        if j % 5 == 2:
            arg, given = None, DEFAULT
        log.call('matl', lambda: load(p, arg, j),
                 lambda n: dict(loaded=model_rec(I, n), names=list(given if arg is None else arg)), file=rec,
                 names=given, raw='load_CHAOS_matfile(satellites=%s) of %s' % (arg, label))
    # the model that comes with the documentation
    p = os.path.join(cp.__path__[0], '..', 'docs', 'source', '.static', 'examples', 'CHAOS-7.mat')
    if os.path.exists(p):
        I = Ids()
        rec = v5_rec(I, p)
        rec['g'] = rec['g'][:2000] if ctx.quick else rec['g']

        def enc7(n):
            r = model_rec(I, n)
            r['stat'] = r['stat'][:2000] if ctx.quick else r['stat']
            return dict(loaded=r, names=DEFAULT)
        log.call('matl', lambda: cp.load_CHAOS_matfile(p), enc7, file=rec, names=DEFAULT, raw='CHAOS-7.mat')
