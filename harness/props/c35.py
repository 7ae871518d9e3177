"""C35: models keep the name, source, metadata and parts they were given."""
import os
import re
import shutil
import tempfile
import numpy as np
import core
from core import Log, load_code
from props.file_common import Sink, spline_model
from props.c27 import mk

SATS = ['x', 'y']


def run(ctx):
    load_code()
    ctx.model('MC_Identity', consts=dict(ID_DEPTH='3' if ctx.quick else '4', ID_EMIT='0'), timeout=800)
    log = Log('C35')
    tmp = tempfile.mkdtemp(prefix='verif-ident-')
    old = os.getcwd()
    try:
        drive(ctx, log, ctx.rng, tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Identity', log)


def chars(s):
    return list(str(s)) if isinstance(s, str) else ['?', type(s).__name__]


def look(m, metas):
    from chaosmagpy.chaos import BaseModel, CHAOS
    if isinstance(m, CHAOS):
        part = lambda p: [] if p is None else [dict(name=chars(p.name), src=str(p.source))]
        return dict(cls='CHAOS', name=chars(m.name), src='', meta=0, str=chars(str(m)),
                    tdep=part(m.model_tdep), static=part(m.model_static))
    k = [i for i, v in enumerate(metas) if v is m.meta or (v is not None and v == m.meta)]
    return dict(cls=type(m).__name__, name=chars(m.name), src=str(m.source), str=[],
                meta=k[0] if k else -1, tdep=[], static=[])


def head(path):
    with open(path) as f:
        lines = [s.rstrip('\n') for s in f if s.lstrip().startswith('#')]
    flag = [s for s in lines[1:] if re.search(r'\b(True|False)\b', s)]
    nums = [int(v) for s in lines[1:] if s not in flag and 'Created on' not in s for v in re.findall(r'-?\d+', s)]
    return dict(head=[chars(s) for s in lines], numbers=nums, leap=bool(flag) and 'True' in flag[-1])


def drive(ctx, log, rng, tmp):
    import chaosmagpy as cp
    from chaosmagpy.chaos import BaseModel, CHAOS
    depth = ctx.n(6, 8)
    beh = core.behaviours('MC_Identity', dict(ID_DEPTH=str(depth), ID_EMIT='1'), ctx.n(250, 1500), 2 * depth, ctx.seed)
    files = dict(a='d/m.shc', b='d.x/v1.2.shc', c='d/two w', e='d/.hid', f='d/C-7.mat', g='d.x/a.b.mat')
    loaders = {'BaseModel.from_shc': BaseModel.from_shc, 'load_CHAOS_shcfile': cp.load_CHAOS_shcfile,
               'CHAOS.from_shc': CHAOS.from_shc, 'load_CHAOS_matfile': cp.load_CHAOS_matfile,
               'CHAOS.from_mat': CHAOS.from_mat}
    for j, acts in enumerate(beh):
        root = os.path.join(tmp, 'h%d' % j)
        for f in files.values():
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
        if j % 3 == 0:          # relative paths
            os.chdir(root)
            where = lambda f: f
        else:
            where = lambda f: os.path.join(root, f)
        k = int(rng.integers(2, 6)) if j % 4 else 1
        P = int(rng.integers(1, 5)) if k > 1 else int(rng.integers(2, 5))
        nt = int(rng.integers(1, 4))
        ns = nt + int(rng.integers(1, 3))
        full = mk(rng, P=P, order=k, nt=nt, ns=ns, q10=2, q11=3, sats=dict.fromkeys(SATS, 3), cal=0, pre=True)
        br, c = full['breaks'], full['coeffs_tdep']
        if k > 1:
            br, c = spline_model(rng, k, P, nt * (nt + 2))
            full['breaks'], full['coeffs_tdep'] = br, c
            lo, hi = br[0] - 1, br[-1] + 1
            full['breaks_delta'] = {q: np.linspace(lo, hi, len(v)) for q, v in full['breaks_delta'].items()}
        metas = [None, dict(a=1), dict(b=[2]), {}]

        def opts(a, *keys):
            kw = {}
            if a.get('name'):
                kw['name'] = ''.join(a['name'][0])
            if a.get('src'):
                kw['source'] = a['src']
            if a.get('meta'):
                kw['meta'] = metas[a['meta']]
            return {q: v for q, v in kw.items() if q in keys}

        def step(m, a):
            """The model after one action, and what else is seen."""
            kind = a['k']
            if kind == 'make' and a['cls'] == 'BaseModel':
                return BaseModel(opts(a, 'name')['name'], breaks=br, order=k, coeffs=c, **opts(a, 'source', 'meta')), {}
            if kind == 'spline':
                kn = np.concatenate((np.repeat(br[0], k - 1), br, np.repeat(br[-1], k - 1)))
                return BaseModel.from_bspline(opts(a, 'name')['name'], kn, rng.normal(size=(P + k - 1, nt * (nt + 2))), k,
                                              **opts(a, 'source', 'meta')), {}
            if kind == 'make':
                if a['full']:
                    return CHAOS(**full, **opts(a, 'name')), {}
                d = dict(breaks=br, order=k)
                if 'tdep' in a['parts']:
                    d['coeffs_tdep'] = c
                if 'static' in a['parts']:
                    d['coeffs_static'] = full['coeffs_static']
                return CHAOS(**d, **opts(a, 'name')), {}
            p = where(files[a['p']])
            with Sink():
                if kind == 'to_shc':
                    m.to_shc(p, **(dict(leap_year=a['leap']) if a['leap'] or j % 2 else {}))
                    return m, head(p)
                if kind == 'save':
                    m.save_shcfile(p, model=a['part'], **(dict(leap_year=a['leap']) if a['leap'] or j % 2 else {}))
                    return m, head(p)
                if kind == 'mat':
                    if os.path.exists(p):       # (not over an existing file)
                        os.remove(p)
                    m.save_matfile(p)
                    return m, {}
                kw = opts(a, 'name', *(('source', 'meta') if a['by'].startswith('Base') else ()))
                if a['by'] in ('load_CHAOS_matfile', 'CHAOS.from_mat'):
                    kw['satellites'] = SATS
                return loaders[a['by']](p, **kw), {}

        def go():
            m, steps = None, []
            for a in acts:
                r = dict(err='', head=[], numbers=[], leap=False)
                try:
                    m, seen = step(m, a)
                    r.update(seen)
                except Exception as x:      # noqa: BLE001
                    r['err'] = 'ValueError' if isinstance(x, ValueError) else type(x).__name__
                    r['msg'] = str(x)[:150]
                r['obj'] = look(m, metas) if m is not None else dict(cls='none')
                steps.append(r)
            return dict(steps=steps)
        log.call('ident', go, lambda r: r, acts=acts, nt=nt, ns=ns, k=k, P=P,
                 raw='history %s (order %d, %d pieces, degrees %d and %d)' % (
                     [{q: ''.join(v[0]) if q == 'name' and v else v for q, v in a.items() if q != 'path'} for a in acts],
                     k, P, nt, ns))
