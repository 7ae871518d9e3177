"""Replaying behaviours of Config.tla into the configuration of the code."""
import copy
import json
import os
import pathlib
import shutil
import tempfile
import numpy as np
import core
from core import Log, load_code
from props.file_common import Sink, write

LIBS = ('RC_index.h5', 'frequency_spectrum_gsm.npz', 'frequency_spectrum_sm.npz', 'Earth_conductivity.dat',
        'ne_110m_coastline.zip')


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class World:
    """A scratch folder, the configuration and the actions."""

    def __init__(self, rng, cfg, d):
        import chaosmagpy
        self.rng, self.cfg = rng, cfg
        lib = os.path.join(os.path.abspath(os.path.dirname(chaosmagpy.config_utils.__file__)), 'lib')
        self.paths = {n: os.path.join(d, 'file ' + n) for n in 'abcd'}
        self.paths['missing'] = os.path.join(d, 'nothing', 'here')
        self.paths.update({'lib/' + n: os.path.join(lib, n) for n in LIBS})
        self.names = {v: k for k, v in self.paths.items()}
        self.data = [n for n in self.paths if n.startswith('lib/') and os.path.exists(self.paths[n])]
        self.steps = []
        self.args = []

    # -- encoding ------------------------------------------------------------
    def val(self, key, v):
        if v is None:
            return ['none']
        if isinstance(v, bool):
            return ['bool']
        if isinstance(v, float):
            return ['float', repr(float(v))]
        if isinstance(v, int):
            return ['int', repr(int(v))]
        if isinstance(v, str):
            return ['path', self.names.get(v, '?')] if key.startswith('file.') else ['str', v]
        if isinstance(v, np.ndarray) and v.ndim == 1 and v.dtype.kind == 'f':
            return ['vec'] + [repr(float(x)) for x in v]
        return ['other', type(v).__name__]

    def file(self, path):
        with open(path) as f:
            d = json.load(f)
        return {str(k): ['vec'] + [repr(float(x)) for x in v] if isinstance(v, list) else self.val(str(k), v)
                for k, v in d.items()}

    def snap(self):
        return {str(k): self.val(str(k), v) for k, v in self.cfg.items()}

    def done(self, res, **kw):
        for a in self.args:         # what was given to the configuration earlier is not shared
            if isinstance(a, np.ndarray):
                a *= -3.
            elif isinstance(a, list):
                a.append(99.)
        self.args = []
        self.steps.append(dict(res=res, cfg=self.snap(), **kw))

    # -- values -----------------------------------------------------------------
    def concrete(self, key, r):
        c = lambda *x: x[int(self.rng.integers(0, len(x)))]
        if r['t'] == 'none':
            return None
        if r['t'] == 'junk':
            n = {'params.dipole': 3, 'params.ellipsoid': 2}.get(key)
            if n and self.rng.random() < .5:        # right number of entries, wrong shape
                v = np.arange(1., n + 1)
                return c(v[None].tolist(), v[:, None].tolist(), v[None], v[:, None], v.reshape(1, n, 1))
            return c(lambda: np.eye(3), lambda: ['a', 'b', 'c'], object, lambda: {'a': 1.}, lambda: 1j,
                     lambda: [[1., 2., 3.]], lambda: [1., None, 'x'])()
        if r['t'] == 'number':
            f = float(r['f'] or r['i'])
            if r['i'] and self.rng.random() < .6:
                return c(int, np.int64, np.int32, np.int16)(int(r['i']))
            return c(float, np.float64, np.array)(f)
        if r['t'] == 'text':
            return r['s']
        if r['t'] == 'path':
            return c(str, str, pathlib.Path)(self.paths[r['s']])
        x = [float(v) for v in r['x']]
        v = c(list, tuple, np.array, lambda y: np.array(y)[::-1].copy()[::-1],
              lambda y: [int(z) if abs(z) < 1e9 and z == int(z) else z for z in y], lambda y: [np.float64(z) for z in y])(x)
        self.args.append(v)
        return v

    def jsonable(self, key, r):
        if r['t'] == 'number':
            return float(r['f']) if r['f'] and not (r['i'] and self.rng.random() < .5) else int(r['i'])
        n = {'params.dipole': 3, 'params.ellipsoid': 2}.get(key, 1)
        return {'none': None, 'text': r['s'], 'path': self.paths.get(r['s']), 'junk': [[1.] * n],
                'vector': [float(v) for v in r['x']]}[r['t']]

    # -- actions ------------------------------------------------------------------
    def simple(self, a):
        k, cfg = a['k'], self.cfg
        kw = {}
        try:
            with Sink():
                if k == 'set':
                    cfg[a['key']] = self.concrete(a['key'], a['raw'])
                elif k == 'mutate':
                    cfg[a['key']][a['i'] - 1] = float(a['to'])
                elif k == 'reset':
                    cfg.reset(a['key'])
                elif k == 'fullreset':
                    cfg.fullreset()
                elif k == 'save':
                    cfg.save(self.paths[a['p']])
                    kw['file'] = self.file(self.paths[a['p']])
                elif k == 'load':
                    cfg.load(self.paths[a['p']])
                elif k == 'author':
                    if a['content'][0] == 'junk':
                        text = ['{"params.r_surf": 10', 'params.r_surf: 10\n', ''][int(self.rng.integers(0, 3))]
                    else:
                        text = json.dumps({q: self.jsonable(q, r) for q, r in dict(a['content'][1] or {}).items()})
                    write(self.paths[a['p']], text)
                elif k in ('delete', 'remove'):
                    if os.path.exists(self.paths[a['p']]):
                        os.remove(self.paths[a['p']])
                elif k == 'create':
                    write(self.paths[a['p']], 'data')
                else:
                    raise core.MachineryError('action ' + k)
            res = 'ok'
        except core.MachineryError:
            raise
        except Exception:           # noqa: BLE001
            res = 'error'
        self.done(res, **kw)

    def block(self, acts, pos, depth):
        """Run actions from pos until the innermost context is left:
        position afterwards and how it is left."""
        while pos < len(acts):
            a = acts[pos]
            pos += 1
            if a['k'] in ('exit', 'return', 'raise', 'unwind'):
                return pos, a['k']
            if a['k'] != 'enter':
                self.simple(a)
                continue
            pos, how = self.context(a, acts, pos, depth)
            if how == 'end':
                return pos, 'end'
            if how == 'unwind' and depth > 0:
                return pos, 'unwind-on'
        return pos, 'end'

    def context(self, a, acts, pos, depth):
        state = dict(pos=pos, how='none', entered=False)
        boom = [Boom, BaseBoom, StopIteration, KeyError, ValueError, RuntimeError][int(self.rng.integers(0, 6))]('x')

        def run():
            with self.cfg.context(a['key'], self.concrete(a['key'], a['raw'])):
                state['entered'] = True
                self.done('ok')
                state['pos'], state['how'] = self.block(acts, state['pos'], depth + 1)
                if state['how'] in ('raise', 'unwind', 'unwind-on'):
                    raise boom
                if state['how'] == 'return':
                    return 'returned'
            return 'through'
        try:
            ret = run()
        except BaseException as ex:         # noqa: BLE001
            if isinstance(ex, core.MachineryError):
                raise
            if not state['entered']:
                self.done('error')
                return state['pos'], 'none'
            if ex is not boom:
                self.done('error')
                return state['pos'], 'end'
            if state['how'] == 'raise':
                self.done('ok')
                return state['pos'], 'none'
            # leaving all contexts
            if depth == 0:
                self.done('ok')
                return state['pos'], 'none'
            return state['pos'], 'unwind'
        if state['how'] in ('raise', 'unwind', 'unwind-on'):
            self.done('error')              # the exception was lost
            return state['pos'], 'end'
        if state['how'] == 'end':
            return state['pos'], 'end'
        self.done('ok' if (ret == 'returned') == (state['how'] == 'return') else 'error')
        return state['pos'], 'none'


TOKENS = ('3480.5', '-0.5', '0.25', '1e+20', '1.0', '2.0', '3.0', '4.0', '77.0')


def renamed(rng, acts):
    """The history with other numbers in place of those of the model, which
    only distinguishes them (numbers that are integers, too, keep their value)."""
    num = lambda: repr(float(rng.choice([rng.normal(), rng.normal() * 10. ** int(rng.integers(-300, 300)),
                                         rng.uniform(1., 7000.), 5e-324, -1.7976931348623157e308, 0.1 + 0.2,
                                         float(rng.integers(1, 10**9)), 1e-7])))
    m = {}
    while len(set(m.values())) < len(TOKENS):
        m = {t: num() for t in TOKENS}

    def go(v):
        if isinstance(v, dict):
            return {k: (m.get(x, x) if k == 'to' or (k == 'f' and not v.get('i')) else
                        [m.get(y, y) for y in x] if k == 'x' else go(x)) for k, x in v.items()}
        return [go(x) for x in v] if isinstance(v, list) else v
    return go(acts)


def run(ctx, mode, models, num, depth):
    load_code()
    import chaosmagpy
    from chaosmagpy.config_utils import BasicConfig, basicConfig
    for m in models:
        ctx.model('MC_Config', consts=m)
    rng = ctx.rng
    log = Log(ctx.prop)
    beh = core.behaviours('MC_Config', dict(CFG_DEPTH=str(depth), CFG_EMIT='1', CFG_MODE=mode), num, depth, ctx.seed)
    tmp = tempfile.mkdtemp(prefix='verif-cfg-')
    kept = dict(basicConfig)
    backup = copy.deepcopy(BasicConfig.defaults and {k: v[0] for k, v in BasicConfig.defaults.items()})
    assert chaosmagpy.basicConfig is basicConfig
    try:
        for j, acts in enumerate(beh):
            if j % 4:
                acts = renamed(rng, acts)
            d = os.path.join(tmp, 'w%d' % j)
            os.mkdir(d)
            if j % 2:       # the shipped file may be missing here; then saved files cannot be loaded
                acts = [dict(k='set', key='file.RC_index', raw=dict(t='none', f='', i='', s='', x=[], ver=False))] + acts
            cfg = basicConfig
            w = World(rng, cfg, d)

            def go():
                cfg.fullreset()
                start = w.snap()
                pos, how = w.block(acts, 0, 0)
                # contexts may still be open when the actions end
                return dict(start=start, steps=w.steps[:len(acts)])
            log.call('cfg', go, lambda r: r, acts=acts, data=w.data, raw='history %s' % json.dumps(acts))
            ev = log.events[-1]
            if ev['out']['k'] == 'ok':
                n = len(ev['out']['steps'])
                if n < len(acts):
                    ev['acts'] = acts[:n]
    finally:
        dict.clear(basicConfig)
        dict.update(basicConfig, kept)
        for k, v in backup.items():
            BasicConfig.defaults[k][0] = v
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.trace('Trace_Config', log)
