"""C25: RC-index files are read exactly and stay what they were last given."""
import os
import shutil
import tempfile
import numpy as np
import core
from core import Log, load_code, farr, fx, fxs, short
from props.ext_common import conf
from props.file_common import Sink, write


def run(ctx):
    load_code()
    ctx.model('MC_RcStore', consts=dict(RC_DEPTH='5' if ctx.quick else '8', RC_EMIT='0'))
    log = Log('C25')
    tmp = tempfile.mkdtemp(prefix='verif-rc-')
    try:
        files(ctx, log, ctx.rng, tmp)
        histories(ctx, log, ctx.rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Files', log)


def table(rng, n, t0=None, step=None):
    t0 = int(rng.integers(-4000, 9000)) if t0 is None else t0
    step = rng.choice([1 / 24, 1., .25]) if step is None else step
    t = np.round(t0 + rng.choice([0, .5 / 24, .020833]) + np.arange(n) * step, 6)
    if rng.random() < .2:       # with gaps
        t = t + np.round(np.cumsum(rng.integers(0, 3, n)), 6)
    dec = int(rng.integers(0, 4))
    e, i = (np.round(rng.normal(size=n) * s, dec) for s in (30, 8))
    if rng.random() < .2:       # all digits
        e, i, t = e + rng.normal(size=n) * 1e-7, i * (1 + 1e-9), t + rng.random() * 1e-7
        return dict(t=t, rc=e + i, e=e, i=i, digits=True, fl=rng.choice(['D', 'P', 'Q'], n).tolist())
    return dict(t=np.round(t, 6), rc=np.round(e + i, dec), e=e, i=i, fl=rng.choice(['D', 'P', 'Q'], n).tolist())


def define(log, tb):
    return log.define(dict(t=fxs(tb['t']), rc=fxs(tb['rc']), e=fxs(tb['e']), i=fxs(tb['i']), fl=tb['fl']))


def text(rng, tb, style=0):
    sep = ['  ', ' ', '\t', '      '][style % 4]
    out = [['# RC index 1 2 3 4 D'], [], ['# a', '#', '# time RC RC_e RC_i flag']][style % 3][:]
    for k in range(len(tb['t'])):
        v = [tb[c][k] for c in ('t', 'rc', 'e', 'i')]
        f = ['%.6f', '%.10f', '%r'][style % 3]
        if tb.get('digits'):
            f = '%r'
        row = [f % float(v[0])] + [('%.3f' if style % 2 and f != '%r' else '%r') % float(x) for x in v[1:]] + [tb['fl'][k]]
        out.append(('' if style % 2 else ' ') + sep.join(row) + (' # preliminary' if style % 5 == 4 and k % 3 == 0 else ''))
        if style % 4 == 3 and k == 1:
            out.append('# comment in between 1 2 3 4 D')
    return '\n'.join(out) + ('\n' if style % 5 else '')


def write_h5(path, tb):
    import h5py
    with h5py.File(path, 'w') as f:
        f['time'], f['RC'], f['RC_e'], f['RC_i'] = (tb[c] for c in ('t', 'rc', 'e', 'i'))
        f['flag'] = np.array(tb['fl']).astype('S1')


def enc_frame(df):
    dates = 'time' not in df.columns
    d = dict(n=len(df), names=[str(c) for c in df.columns], rc=fxs(df['RC'].to_numpy(float)),
             e=fxs(df['RC_e'].to_numpy(float)), i=fxs(df['RC_i'].to_numpy(float)),
             fl=[str(x) for x in df['flag']])
    if dates:
        ns = df.index.astype('datetime64[ns]').to_numpy().astype('int64') - \
            np.datetime64('2000-01-01', 'ns').astype('int64')
        d['stamp'] = [fx(int(v)) for v in ns]
    else:
        d['t'] = fxs(df['time'].to_numpy(float))
    return d


def enc_h5(path, said):
    import h5py
    with h5py.File(path, 'r') as f:
        return dict(said=said, names=sorted(f), t=fxs(f['time'][()]), rc=fxs(f['RC'][()]), e=fxs(f['RC_e'][()]),
                    i=fxs(f['RC_i'][()]), fl=[x.decode() if isinstance(x, bytes) else str(x) for x in f['flag'][()]])


def files(ctx, log, rng, tmp):
    from chaosmagpy import data_utils as du
    for j in range(ctx.n(40, 200)):
        tb = table(rng, int(rng.integers(1, 60)) if j % 20 != 13 else int(rng.integers(1025, 2500)))
        i = define(log, tb)
        p = os.path.join(tmp, 'RC%d%s' % (j, ['.dat', '.txt', '.a.dat', ''][j % 4]))
        write(p, text(rng, tb, j))
        dates = [None, False, True][j % 3]
        kw = {} if dates is None else dict(parse_dates=dates)
        log.call('rc_r', lambda: du.load_RC_datfile(p, **kw), enc_frame, tab=i, dates=bool(dates),
                 raw='load_RC_datfile(%s) of\n%s' % (kw, open(p).read()[:500]))
        q = os.path.join(tmp, 'out%d.h5' % j)
        if j % 5 == 1:          # an older, longer file is there already
            write_h5(q, table(rng, 70))
        if j % 5 == 2:
            write(q, 'not a table')

        def conv():
            with Sink() as s:
                du.save_RC_h5file(q, read_from=p)
            return 'Successfully saved' in s.text
        log.call('rc_h', conv, lambda said: enc_h5(q, said), tab=i,
                 raw='save_RC_h5file(read_from=p) of\n%s' % open(p).read()[:500])


def histories(ctx, log, rng, tmp):
    from chaosmagpy import data_utils as du, basicConfig
    from chaosmagpy.chaos import CHAOS
    import warnings
    depth = 12
    beh = core.behaviours('MC_RcStore', dict(RC_DEPTH=str(depth), RC_EMIT='1'), ctx.n(60, 300), depth, ctx.seed)
    spec = os.path.join(tmp, 'identity.npz')
    z = np.zeros((1, 3, 3))
    np.savez(spec, frequency=z, spectrum=np.eye(3)[None] + 0j, frequency_ind=z, spectrum_ind=np.eye(3)[None] + 0j,
             step=1., N=1, filter=1, reference='SM', scaled=True,
             dipole=np.asarray(basicConfig['params.dipole'], dtype=float), start_date=0.)
    for j, acts0 in enumerate(beh):
        d = os.path.join(tmp, 'h%d' % j)
        os.mkdir(d)
        P = dict(a=os.path.join(d, 'rc_a.dat'), b=os.path.join(d, 'RC_index.h5' if j % 2 else 'rc b'),
                 q=os.path.join(d, 'missing', 'x.h5'))
        # tables of different periods
        tabs = [table(rng, 30, t0=1000, step=.25), table(rng, 12, t0=1003, step=1.)]
        ids = [define(log, t) for t in tabs]
        acts = []
        for a in acts0:         # a query may follow any action
            acts += [a, dict(k='query')] if rng.random() < .5 else [a]
        br = {k: np.array([900., 1200.]) for k in ('q10', 'q11', 's11')}
        co = {k: np.zeros((1, 1)) for k in br}
        model = CHAOS(np.array([900., 1200.]), 1, coeffs_sm=np.array([1., 0., 0.]), coeffs_gsm=np.zeros(3),
                      breaks_delta=br, coeffs_delta=co)

        def one(a):
            k = a['k']
            if k == 'write':
                tb = tabs[a['id'] - 1]
                if a['fmt'] == 'text':
                    write(P[a['p']], text(rng, tb, int(rng.integers(0, 9))))
                else:
                    write_h5(P[a['p']], tb)
                return dict(k='ok')
            if k == 'junk':
                write(P[a['p']], 'this is not\na table at all\n')
                return dict(k='ok')
            if k == 'remove':
                if os.path.exists(P[a['p']]):
                    os.remove(P[a['p']])
                return dict(k='ok')
            if k == 'convert':
                with Sink() as s, warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    du.save_RC_h5file(P[a['q']], read_from=P[a['p']])
                w = [x for x in w if issubclass(x.category, UserWarning)]
                return dict(k='warning' if w else 'ok', said='Successfully saved' in s.text)
            try:
                if k == 'load':
                    df = du.load_RC_datfile(P[a['p']])
                    return dict(k='table', t=fxs(df['time'].to_numpy(float)), e=fxs(df['RC_e'].to_numpy(float)),
                                i=fxs(df['RC_i'].to_numpy(float)), fl=[str(x) for x in df['flag']])
                if k == 'configure':
                    basicConfig['file.RC_index'] = P[a['p']]
                    return dict(k='ok')
                src = ['external', 'internal'][int(rng.integers(0, 2))]
                tb = tabs[int(rng.integers(0, 2))]
                at = rng.choice(tb['t'], 4)
                at = np.where(rng.random(4) < .5, at, rng.uniform(tb['t'][0], tb['t'][-1], 4))
                if rng.random() < .3:
                    at[int(rng.integers(0, 4))] = rng.choice([tb['t'][0] - .01, tb['t'][-1] + .01])
                info = dict(at=fxs(at), src=src)
                try:
                    v = model.synth_coeffs_sm(at, source=src)
                    return dict(k='values', v=fxs(v[:, 0]), **info)
                except ValueError:
                    return dict(k='error', value_error=True, **info)
                except Exception:       # noqa: BLE001
                    return dict(k='error', value_error=False, **info)
            except Exception as ex:     # noqa: BLE001
                return dict(k='error', value_error=isinstance(ex, ValueError))

        def replay():
            write(P['a'], 'placeholder')
            with conf(basicConfig, ('file.RC_index', P['a']), ('file.SM_spectrum', spec)):
                os.remove(P['a'])
                return [one(a) for a in acts]
        log.call('rc_hist', replay, lambda r: dict(answers=r), acts=acts, tab=ids, raw='history %s' % acts)
