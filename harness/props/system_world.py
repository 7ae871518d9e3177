"""The arrays, models and files of a user of the package, and all the queries."""
import contextlib
import copy
import hashlib
import os
import warnings
import numpy as np
import core
from core import fx
from props.file_common import Sink
from props.c27 import mk, write_v5

NV = 3
CFG = {'params.r_surf': 6500., 'params.dipole': [-28000., -900., 5200.], 'params.ellipsoid': [6400., 6300.]}


class Bank:
    """Contents of every slot, by version."""

    def __init__(self, rng, d):
        self.dir = d
        n = 6
        u = lambda a, b, *s: rng.uniform(a, b, s)
        b = {x: [] for x in ('yr dy t tx th ph r r1 g g1 g2 x y z h kn bc br pp fr sp b1 b2 b3 dip per sig rad '
                             'rc src fq ts').split()}
        for v in range(NV):
            b['yr'].append(rng.integers(1950, 2060, n))
            b['dy'].append(u(1950, 2060, n))
            b['t'].append(u(2010, 2890, n))
            b['tx'].append(u(1900, 3000, n))
            b['th'].append(u(5, 175, n))
            b['ph'].append(u(-180, 360, n))
            b['r'].append(u(6400, 7000, n))
            b['r1'].append(np.array(u(6400, 7000)))
            for k in ('g', ):
                b[k].append(u(-100, 100, n, 15))
            for k in ('g1', 'g2'):
                b[k].append(u(-100, 100, 15))
            for k in ('x', 'y', 'z'):
                b[k].append(u(-100, 100, n))
            b['h'].append(u(0, 700, n))
            kn = np.sort(np.round(u(2000, 2900, 4), 1))
            b['kn'].append(np.concatenate(([2000.] * 4, kn, [2900.] * 4)))
            b['bc'].append(u(-50, 50, 8, 3))
            b['br'].append(np.concatenate(([2000.], np.sort(u(2050, 2850, 2)), [2900.])))
            b['pp'].append(u(-1, 1, 3, 3, 15))
            b['fr'].append(u(0, 2, 4, 3, 3))
            b['sp'].append(u(-1, 1, 4, 3, 3) + 1j * u(-1, 1, 4, 3, 3))
            q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
            for k in range(3):
                b['b%d' % (k + 1)].append(q[k].copy())
            b['dip'].append(np.array([-29000., -1500., 4800.]) + u(-400, 400, 3))
            b['per'].append(10**u(3, 7, n))
            b['fq'].append(1. / 10**u(3, 7, n))
            b['ts'].append(np.sort(u(2010, 2890, n)))
            b['sig'].append(10**u(-3, 1, 4))
            b['rad'].append(np.array([6371.2, 5900., 5500., 3480.]) + u(-20, 0, 4))
            b['rc'].append(u(-20, 20, 2, n))
            b['src'].append([['tdep', 'static', 'gsm'], ['tdep', 'static'], ['gsm', 'sm']][v])
        # the last version: the numbers of the first one in another order (the
        # ends stay; sums are the same to the last bit)
        for k in ('t', 'tx', 'th', 'ph', 'r', 'x', 'y', 'z', 'h', 'dy', 'yr', 'per', 'fq', 'g', 'g1'):
            a = b[k][0]
            if k not in ('per', 'fq', 'yr'):
                a = np.round(a * 1024) / 1024
            b[k][0], c = a, a.copy()
            c[1:-1] = a[1:-1][::-1]
            b[k][2] = c
        b['bl'] = [a.tolist() for a in b['br']]
        self.slots = b
        # two models with every part
        self.models, self.bases = [], []
        for v in range(2):
            m = mk(rng, 3, 4, 2, 3, 3, 4, dict(x=4, y=3, z=-1), 0, True)
            f = lambda z: 2000. + (z - z[0]) / max(z[-1] - z[0], 1e-3) * 900.
            m['breaks'] = f(m['breaks'])
            for k in m['breaks_delta']:
                m['breaks_delta'][k] = f(m['breaks_delta'][k])
            for k in m['breaks_euler']:
                m['breaks_euler'][k] = f(m['breaks_euler'][k])
            path = os.path.join(d, 'model%d.mat' % v)
            write_v5(rng, path, m)
            self.models.append(path)
            self.bases.append((np.array([2000., 2300. + 50 * v, 2900.]), u(-10, 10, 3, 2, 8)))
        # files
        self.shc = os.path.join(d, 'a.shc')
        with open(self.shc, 'w') as f:
            f.write('# x\n1 2 3 2 1\n2005.0 2006.0 2007.5\n')
            for nn in (1, 2):
                for mm in range(nn + 1):
                    for s in ((1, -1) if mm else (1,)):
                        f.write('%d %d %.3f %.3f %.3f\n' % ((nn, s * mm) + tuple(u(-100, 100, 3))))
        self.rcfile = os.path.join(d, 'RC.dat')
        t = 1990. + np.arange(24 * 920) / 24
        e, i = np.round(u(-20, 20, t.size), 2), np.round(u(-9, 9, t.size), 2)
        with open(self.rcfile, 'w') as f:
            f.write('# RC\n# time RC RC_e RC_i flag\n')
            f.writelines('%.8f %.2f %.2f %.2f D\n' % (t[k], e[k] + i[k], e[k], i[k]) for k in range(t.size))
        self.shortrc = os.path.join(d, 'RCs.dat')
        with open(self.shortrc, 'w') as f:
            f.write('# RC\n# time RC RC_e RC_i flag\n')
            f.writelines('%.8f %.2f %.2f %.2f D\n' % (t[k], e[k] + i[k], e[k], i[k]) for k in range(40))


def layout(rng, a):
    """The same contents in another memory layout; sometimes read-only."""
    if isinstance(a, list):
        return list(a)
    k = int(rng.integers(0, 5))
    if k == 0 or a.ndim == 0:
        return a.copy()
    if k == 1:
        big = np.full(tuple(2 * s for s in a.shape), 0, dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    elif k == 2:
        v = np.empty(a.shape, dtype=a.dtype, order='F')
    elif k == 3:
        v = np.empty(a.shape, dtype=a.dtype)[tuple(slice(None, None, -1) for _ in a.shape)]
    else:
        v = a.copy()
        v.flags.writeable = False
        return v
    v[...] = a
    return v


class Used:
    """The world as a query sees it: notes what was looked at."""

    def __init__(self, w):
        self._w, self._seen = w, set()

    def __getitem__(self, x):
        self._seen.add(x)
        return self._w.have[x]

    def tmp(self, name):
        return os.path.join(self._w.tmp, name)

    @property
    def bank(self):
        return self._w.bank


class World:
    silenced = False        # a query changed which warnings are shown

    def __init__(self, bank, rng, tmp):
        import chaosmagpy as cp
        self.cp, self.bank, self.rng, self.tmp = cp, bank, rng, tmp
        cp.basicConfig['file.RC_index'] = bank.rcfile
        self.default = {k: copy.deepcopy(cp.basicConfig[k]) for k in CFG}
        self.have = {x: layout(rng, v[0]) for x, v in bank.slots.items()}
        self.pristine = [(self.load(0)), self.load(1)]
        self.snap_models = [self.state(m) for m in self.pristine]
        self.snap_bases = [self.state(self.make_base(v)) for v in range(2)]
        self.have['model'] = self.load(0)
        self.have['base'] = self.make_base(0)
        self.held, self.stack, self.args = [], [], {}
        self.rcfile_default = bank.rcfile
        self.glob = self.globals()

    # -- contents --------------------------------------------------------------
    def load(self, v, path=None):
        with Sink():
            return self.cp.load_CHAOS_matfile(self.bank.models[v] if path is None else path, name='m',
                                              satellites=['x', 'y', 'z'])

    def make_base(self, v):
        br, c = self.bank.bases[v]
        return self.cp.chaos.BaseModel('b', br.copy(), c.shape[0], c.copy(), source='internal')

    def state(self, o, seen=None):
        """All data a model consists of."""
        if isinstance(o, np.ndarray):
            return [list(o.shape), (o.astype(float) if o.dtype.kind in 'iu' else o).tolist()]
        if isinstance(o, dict):
            return {str(k): self.state(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self.state(v) for v in o]
        if isinstance(o, (str, int, float, type(None), bool, np.generic)):
            return o if not isinstance(o, np.generic) else o.item()
        if hasattr(o, '__dict__'):
            return {k: self.state(v) for k, v in vars(o).items() if not k.startswith('_') and k != 'timestamp'}
        return type(o).__name__

    def close(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(self.close(a[k], b[k]) for k in a)
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.close(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float):
            return a == b or (a != a and b != b) or abs(a - b) <= 1e-10 * max(abs(a), abs(b))
        return a == b

    def version(self, x):
        if x in ('model', 'base'):
            snaps = self.snap_models if x == 'model' else self.snap_bases
            s = self.state(self.have[x])
            if x == 'model':       # the data of the model, whatever else it remembers
                s, snaps = self.public(s), [self.public(q) for q in snaps]
            for v, q in enumerate(snaps):
                if self.close(s, q):
                    return v
            return -1
        a = self.have[x]
        for v, q in enumerate(self.bank.slots[x]):
            if isinstance(q, list):
                if type(a) is list and a == q:
                    return v
            elif isinstance(a, np.ndarray) and a.shape == q.shape and a.dtype == q.dtype and np.array_equal(a, q):
                return v
        return -1

    @staticmethod
    def public(s):
        return {k: v for k, v in s.items() if k != 'meta'}

    def config(self):
        out = {}
        for k, alt in CFG.items():
            v = self.cp.basicConfig[k]
            out[k] = 0 if np.array_equal(v, self.default[k]) else 1 if np.array_equal(v, alt) else -1
        return out

    def globals(self):
        import matplotlib
        st = np.random.get_state()
        cfg = {k: str(v) for k, v in self.cp.basicConfig.items() if k not in CFG}
        rc = {k: str(v) for k, v in matplotlib.rcParams.items() if not k.startswith('backend')}
        return (str(np.geterr()), hashlib.md5(st[1].tobytes()).hexdigest(), st[2:], os.getcwd(),
                str(sorted(cfg.items())), str(sorted(rc.items())), str(np.get_printoptions()),
                tuple(sorted(os.environ)), self.silenced)

    # -- results ------------------------------------------------------------------
    def ask(self, q, heard=True):
        u = Used(self)
        with warnings.catch_warnings(record=True) as said, Sink():
            warnings.simplefilter('always')
            before = list(warnings.filters)
            try:
                r = QUERIES[q](self.cp, u)
                out = encode(r)
            except core.MachineryError:
                raise
            except Exception as e:      # noqa: BLE001
                r, out = None, dict(k='exc', form=type(e).__name__, leaves=[])
            # what it announces belongs to the answer
            if heard and any(x.category is UserWarning for x in said):
                out['form'] += ';warns'
            if heard and core.silenced(before):
                self.silenced = True
            return r, out, u._seen


def leaves(r, path=''):
    """Arrays and other values in a result, in order."""
    if isinstance(r, dict):
        for k in sorted(r, key=str):
            yield from leaves(r[k], path + '/%s' % k)
    elif isinstance(r, (list, tuple)):
        for k, v in enumerate(r):
            yield from leaves(v, path + '/%d' % k)
    elif isinstance(r, np.ndarray) and r.dtype.kind == 'O':
        for k, v in enumerate(r.ravel()):
            yield from leaves(v, path + '/%s.%d' % (r.shape, k))
    else:
        yield path, r


def encode(r):
    form, out = [], []
    for p, v in leaves(r):
        if hasattr(v, 'to_numpy'):
            v = v.select_dtypes('number').to_numpy()
        if isinstance(v, (str, bytes, type(None))):
            form.append('%s=%s' % (p, v))
            continue
        a = np.asarray(v)
        if a.dtype.kind == 'M':
            a = a.astype('datetime64[ns]').astype(np.int64)
        if a.dtype.kind not in 'fiubc':
            form.append('%s:%s' % (p, type(v).__name__))
            continue
        x = np.ravel(a)
        x = np.concatenate((x.real, x.imag)) if a.dtype.kind == 'c' else x
        if x.dtype.kind == 'f' and not np.isfinite(x).all():
            form.append(p + '!' + hashlib.md5(np.packbits(np.isfinite(x)).tobytes()).hexdigest()[:8])
            x = np.where(np.isfinite(x), x, 0.)
        form.append('%s:%s%s' % (p, 'c' if a.dtype.kind == 'c' else 'n', list(a.shape)))
        if x.size > 24:
            pick = np.unique(np.linspace(0, x.size - 1, 20).astype(int))
            w = np.cos(np.arange(x.size) * 1.7)
            s = [fx(float(np.dot(w, x) / x.size))]
            x = x[pick]
        else:
            s = []
        out.append([fx(v) for v in x.tolist()] + s)
    return dict(k='ok', form=';'.join(form), leaves=out)


def frozen(r):
    return [(p, copy.deepcopy(v)) for p, v in leaves(r)]


def untouched(r, f):
    now = list(leaves(r))
    if [p for p, _ in now] != [p for p, _ in f]:
        return False
    for (_, a), (_, b) in zip(now, f):
        if isinstance(a, np.ndarray):
            if a.shape != b.shape or a.tobytes() != b.tobytes():
                return False
        elif hasattr(a, 'equals'):
            if not a.equals(b):
                return False
        elif not (a is b or a == b or a != a):
            return False
    return True


def scribble(r):
    if isinstance(r, np.ndarray):
        # scipy hands out writeable views of the interpreter's own one-byte
        # strings for such numbers of a MAT-file; leave them alone
        if r.nbytes == 1:
            return
        if r.dtype.kind == 'O':
            for v in r.ravel():
                scribble(v)
        if r.flags.writeable and r.dtype.kind in 'fiubc':
            r[...] = 77
        elif r.flags.writeable and r.dtype.kind == 'M':
            r[...] = np.datetime64('1999-01-01')
    elif isinstance(r, dict):
        for v in r.values():
            scribble(v)
        r.clear()
        r['scribble'] = 1
    elif isinstance(r, (list, tuple)):
        for v in r:
            scribble(v)
        if isinstance(r, list):
            r[:] = ['scribble']
    elif hasattr(r, 'iloc'):
        for c in r.columns:
            if r[c].dtype.kind == 'f':
                r[c] = 77.


def history(bank, acts, seed):
    """Replay one behaviour: what the user sees after every action."""
    rng = np.random.default_rng(seed)
    d = os.path.join(bank.dir, 'w%d' % seed)
    os.mkdir(d)
    w = World(bank, rng, d)
    cp = w.cp
    steps = []
    for a in acts:
        k, st = a['k'], {}
        failed = False
        if k == 'query':
            st['key'] = (a['q'],) + tuple(sorted(
                [(x, w.version(x)) for x in USES[a['q']]] + list(w.config().items())))
            r, enc, _ = w.ask(a['q'])
            st['out'] = enc
            w.held.append([r, frozen(r), None])
        elif k == 'scribble':
            scribble(w.held[a['i'] - 1][0])
        elif k in ('write', 'renew'):
            x, v = a['x'], a['v']
            if x in ('model', 'base'):
                if x == 'base' and rng.random() < .5:      # the same object with other contents
                    new, old = w.make_base(v), w.have[x]
                    if rng.random() < .5:
                        old.coeffs[...], old.breaks[...] = new.coeffs, new.breaks
                    else:
                        old.coeffs, old.breaks = new.coeffs, new.breaks
                else:
                    w.have[x] = w.load(v) if x == 'model' else w.make_base(v)
            elif k == 'renew':
                w.have[x] = None
                w.have[x] = layout(rng, bank.slots[x][v])
            elif isinstance(w.have[x], list):
                w.have[x][:] = bank.slots[x][v]
            else:
                ro = not w.have[x].flags.writeable
                if ro:
                    w.have[x].flags.writeable = True
                w.have[x][...] = bank.slots[x][v]
                if ro:
                    w.have[x].flags.writeable = False
        elif k in ('save', 'load'):
            p = os.path.join(d, a['p'] + '.mat')
            try:
                if k == 'save':
                    if os.path.exists(p):
                        os.remove(p)
                    with Sink():
                        w.have['model'].save_matfile(p)
                else:
                    w.have['model'] = w.load(0, p)
            except Exception:       # noqa: BLE001
                failed = True
        elif k == 'enter':
            cm = cp.basicConfig.context(a['key'], w.default[a['key']] if w.config()[a['key']] else CFG[a['key']])
            cm.__enter__()
            w.stack.append(cm)
        elif k == 'exit':
            w.stack.pop().__exit__(None, None, None)
        elif k == 'drop':
            w.held = []
        else:
            raise core.MachineryError('action ' + k)
        st.update(failed=failed, world={x: w.version(x) for x in w.have}, cfg=w.config(),
                  globals=w.globals() == w.glob, intact=[untouched(h[0], h[1]) for h in w.held])
        steps.append(st)
    return steps


def reference(bank, key, heard=True):
    """The query of a key in a world where nothing else ever happened."""
    d = os.path.join(bank.dir, 'r%s' % hashlib.md5(repr(key).encode()).hexdigest())
    os.mkdir(d)
    w = World(bank, np.random.default_rng(0), d)
    for x, v in key[1:]:
        if v < 0:
            return dict(k='none', form='', leaves=[]), []
        if x in CFG:
            if v:
                w.cp.basicConfig[x] = CFG[x]
        elif x in ('model', 'base'):
            w.have[x] = w.load(v) if x == 'model' else w.make_base(v)
        else:
            q = bank.slots[x][v]
            w.have[x] = list(q) if isinstance(q, list) else q.copy()
    _, enc, seen = w.ask(key[0], heard)
    return enc, sorted(seen)


# ---------------------------------------------------------------- the queries
def _save_shc(cp, w, write):
    p = w.tmp('out.shc')
    if os.path.exists(p):
        os.remove(p)
    write(p)
    with open(p) as f:
        return [np.array(ln.split(), dtype=float) for ln in f.read().splitlines() if not ln.startswith('#')]


def _save_mat(cp, w, model):
    p = w.tmp('out.mat')
    if os.path.exists(p):
        os.remove(p)
    model.save_matfile(p)
    names = ['pp', 'g', 'model_ext', 'model_Euler', 'params']
    z = du().load_matfile(p, variable_names=names)
    return {k: z[k] for k in names}


def _design(cp, w):
    import chaosmagpy.model_utils as mu
    return mu.design_matrix(w['kn'], 4, 2, w['t'], w['r'], w['th'], w['ph'])


def _sh(cp, w):
    f = lambda theta, phi: np.cos(np.radians(theta)) + np.sin(np.radians(theta)) * np.cos(np.radians(phi))
    return cp.coordinate_utils.sh_analysis(f, 2)


def _fig(draw):
    import matplotlib.pyplot as plt
    plt.close('all')
    draw()
    out = [[np.asarray(ln.get_ydata(), dtype=float) for ln in ax.get_lines() if ax.name == 'rectilinear']
           + [ax.get_title(), ax.get_ylabel()]
           + [np.asarray(c.get_array(), dtype=float) for c in ax.collections if c.get_array() is not None]
           for ax in plt.gcf().axes]
    plt.close('all')
    return out


def mu():
    import chaosmagpy.model_utils as m
    return m


def cu():
    import chaosmagpy.coordinate_utils as c
    return c


def du():
    import chaosmagpy.data_utils as c
    return c


QUERIES = {
    'mjd2000': lambda cp, w: du().mjd2000(w['yr'], 3, 4, 5),
    'timestamp': lambda cp, w: du().timestamp(w['t']),
    'dyear_to_mjd': lambda cp, w: du().dyear_to_mjd(w['dy']),
    'mjd_to_dyear': lambda cp, w: [du().mjd_to_dyear(w['t']), du().mjd_to_dyear(w['t'], leap_year=False)],
    'is_leap_year': lambda cp, w: du().is_leap_year(w['yr']),
    'gauss_units': lambda cp, w: [du().gauss_units(k) for k in (0, 1, 2)],
    'load_shcfile': lambda cp, w: du().load_shcfile(w.bank.shc),
    'save_shcfile': lambda cp, w: _save_shc(cp, w, lambda p: du().save_shcfile(
        w['ts'], w['g'], order=1, filepath=p)),
    'load_matfile': lambda cp, w: du().load_matfile(w.bank.models[0], variable_names=['pp', 'g']),
    'load_RC_datfile': lambda cp, w: du().load_RC_datfile(w.bank.shortrc),
    'synth_values': lambda cp, w: mu().synth_values(w['g'], w['r'], w['th'], w['ph']),
    'synth_values_grid': lambda cp, w: mu().synth_values(w['g1'], w['r1'], w['th'], w['ph'], nmax=2, grid=True),
    'synth_values_ext': lambda cp, w: mu().synth_values(w['g'], w['r'], w['th'], w['ph'], source='external'),
    'synth_values_poles': lambda cp, w: mu().synth_values(w['g1'], w['r1'], np.array([0., 90., 180.]), w['ph'][:3]),
    'design_gauss': lambda cp, w: mu().design_gauss(w['r'], w['th'], w['ph'], 3, nmin=2),
    'legendre_poly': lambda cp, w: mu().legendre_poly(4, w['th']),
    'power_spectrum': lambda cp, w: mu().power_spectrum(w['g'], w['r1'], nmax=3),
    'power_spectrum_ext': lambda cp, w: mu().power_spectrum(w['g'], source='external'),
    'degree_correlation': lambda cp, w: mu().degree_correlation(w['g1'], w['g2']),
    'sensitivity': lambda cp, w: mu().sensitivity(w['g1'], w['g2']),
    'design_matrix': _design,
    'colloc_matrix': lambda cp, w: mu().colloc_matrix(w['t'], w['kn'], 4, deriv=1),
    'augment_breaks': lambda cp, w: mu().augment_breaks(w['br'], 3),
    'augment_list': lambda cp, w: [mu().augment_breaks(w['bl'], k) for k in (3, 1)],
    'pp_from_bspline': lambda cp, w: mu().pp_from_bspline(w['bc'], w['kn'], 4),
    'synth_from_pp': lambda cp, w: mu().synth_from_pp(w['br'], 3, w['pp'], w['t'], w['r'], w['th'], w['ph']),
    'synth_rotate_gauss': lambda cp, w: cu().synth_rotate_gauss(w['t'], w['fr'], w['sp'], scaled=True),
    'rotate_gauss': lambda cp, w: cu().rotate_gauss(2, 2, w['b1'], w['b2'], w['b3']),
    'rotate_gauss_fft': lambda cp, w: cu().rotate_gauss_fft(1, 1, step=3., N=17, filter=5, start_date=100.,
                                                            reference='sm'),
    'sh_analysis': _sh,
    'sun_position': lambda cp, w: cu().sun_position(w['t']),
    'zenith_angle': lambda cp, w: cu().zenith_angle(w['t'], w['th'], w['ph']),
    'local_time': lambda cp, w: cu().local_time(w['t'], w['ph']),
    'center_azimuth': lambda cp, w: cu().center_azimuth(w['ph']),
    'spherical_to_cartesian': lambda cp, w: cu().spherical_to_cartesian(w['r'], w['th'], w['ph']),
    'cartesian_to_spherical': lambda cp, w: cu().cartesian_to_spherical(w['x'], w['y'], w['z']),
    'gg_to_geo': lambda cp, w: cu().gg_to_geo(w['h'], w['th']),
    'gg_to_geo_vec': lambda cp, w: cu().gg_to_geo(w['h'], w['th'], w['x'], w['z']),
    'geo_to_gg': lambda cp, w: cu().geo_to_gg(w['r'], w['th']),
    'geo_to_gg_vec': lambda cp, w: cu().geo_to_gg(w['r'], w['th'], w['x'], w['z']),
    'basevectors_gg': lambda cp, w: cu().basevectors_gg(w['th'], w['h']),
    'basevectors_gsm': lambda cp, w: cu().basevectors_gsm(w['t']),
    'basevectors_sm': lambda cp, w: cu().basevectors_sm(w['t'], dipole=w['dip']),
    'basevectors_mag': lambda cp, w: cu().basevectors_mag(),
    'basevectors_use': lambda cp, w: cu().basevectors_use(w['th'], w['ph']),
    'geo_to_base': lambda cp, w: cu().geo_to_base(w['th'], w['ph'], w['b1'], w['b2'], w['b3']),
    'geo_to_base_inv': lambda cp, w: cu().geo_to_base(w['th'], w['ph'], w['b1'], w['b2'], w['b3'], inverse=True),
    'matrix_geo_to_base': lambda cp, w: cu().matrix_geo_to_base(w['th'], w['ph'], w['b1'], w['b2'], w['b3']),
    'matrix_geo_to_base_inv': lambda cp, w: cu().matrix_geo_to_base(w['th'], w['ph'], w['b1'], w['b2'], w['b3'],
                                                                    inverse=True),
    'transform_points': lambda cp, w: cu().transform_points(w['th'], w['ph'], w['t'], reference='gsm'),
    'transform_points_mag': lambda cp, w: cu().transform_points(w['th'], w['ph'], reference='mag', dipole=w['dip']),
    'transform_vectors': lambda cp, w: cu().transform_vectors(w['th'], w['ph'], w['x'], w['y'], w['t'],
                                                              reference='sm'),
    'transform_vectors_inv': lambda cp, w: cu().transform_vectors(w['th'], w['ph'], w['x'], w['y'], w['t'],
                                                                  reference='gsm', inverse=True),
    'q_response_1D': lambda cp, w: cu().q_response_1D(w['per'], w['sig'], w['rad'], 2),
    'q_response': lambda cp, w: cu().q_response(w['fq'], 2),
    'dipole_to_vec': lambda cp, w: cu().dipole_to_vec(w['dip']),
    'igrf_dipole': lambda cp, w: [cu().igrf_dipole('2015'), cu().dipole_to_vec()],
    'base_coeffs': lambda cp, w: w['base'].synth_coeffs(w['t'], nmax=1),
    'base_coeffs_deriv': lambda cp, w: w['base'].synth_coeffs(w['t'], deriv=1),
    'base_linear': lambda cp, w: w['base'].synth_coeffs(w['tx']),
    'base_constant': lambda cp, w: w['base'].synth_coeffs(w['tx'], extrapolate='constant'),
    'base_off': lambda cp, w: w['base'].synth_coeffs(w['tx'], extrapolate='off'),
    'base_spline': lambda cp, w: w['base'].synth_coeffs(w['tx'], deriv=1, extrapolate='spline'),
    'base_values': lambda cp, w: w['base'].synth_values(w['t'], w['r'], w['th'], w['ph']),
    'base_spectrum': lambda cp, w: w['base'].power_spectrum(w['t']),
    'base_ppdict': lambda cp, w: w['base'].to_ppdict(),
    'from_bspline': lambda cp, w: (lambda m: [m.breaks, m.coeffs, m.order, m.synth_coeffs(2345.)])(
        cp.chaos.BaseModel.from_bspline('z', w['kn'], w['bc'], 4)),
    'base_shc': lambda cp, w: _save_shc(cp, w, lambda p: w['base'].to_shc(p)),
    'coeffs_tdep': lambda cp, w: w['model'].synth_coeffs_tdep(w['t'], nmax=2),
    'values_tdep': lambda cp, w: w['model'].synth_values_tdep(w['t'], w['r'], w['th'], w['ph'], deriv=1),
    'values_tdep_grid': lambda cp, w: w['model'].synth_values_tdep(2400., w['r1'], w['th'], w['ph'], grid=True),
    'coeffs_static': lambda cp, w: w['model'].synth_coeffs_static(),
    'values_static': lambda cp, w: w['model'].synth_values_static(w['r'], w['th'], w['ph']),
    'coeffs_gsm': lambda cp, w: [w['model'].synth_coeffs_gsm(w['t'], source=s) for s in ('external', 'internal')],
    'values_gsm': lambda cp, w: w['model'].synth_values_gsm(w['t'], w['r'], w['th'], w['ph']),
    'coeffs_sm': lambda cp, w: [w['model'].synth_coeffs_sm(w['t'], rc=w['rc'][0]),
                                w['model'].synth_coeffs_sm(w['t'], rc=w['rc'][1], source='internal')],
    'coeffs_sm_file': lambda cp, w: w['model'].synth_coeffs_sm(w['t']),
    'values_sm': lambda cp, w: w['model'].synth_values_sm(w['t'], w['r'], w['th'], w['ph'], rc_e=w['rc'][0],
                                                          rc_i=w['rc'][1], source='all'),
    'euler': lambda cp, w: [w['model'].synth_euler_angles(w['t'], s) for s in ('x', 'y', 'z')],
    'call': lambda cp, w: w['model'](w['t'], w['r'], w['th'], w['ph'], rc_e=w['rc'][0], rc_i=w['rc'][1],
                                     source_list=w['src']),
    'call_all': lambda cp, w: w['model'](w['t'], w['r'], w['th'], w['ph'], nmax_static=2),
    'save_shc': lambda cp, w: _save_shc(cp, w, lambda p: w['model'].save_shcfile(p, model='tdep')),
    'save_mat': lambda cp, w: _save_mat(cp, w, w['model']),
    'model_coeffs': lambda cp, w: w['model'].model_tdep.synth_coeffs(w['tx'], extrapolate='spline', deriv=2),
    'bad_theta': lambda cp, w: mu().synth_values(w['g'], w['r'], w['tx'], w['ph']),
    'bad_source': lambda cp, w: w['model'](w['t'], w['r'], w['th'], w['ph'], source_list=['tdep', 'crust']),
    'bad_shape': lambda cp, w: mu().synth_values(w['g'], w['r'], w['th'], w['bc'][:5, 0]),
    'bad_reference': lambda cp, w: cu().transform_points(w['th'], w['ph'], w['t'], reference='gse'),
    'bad_deriv': lambda cp, w: w['base'].synth_coeffs(w['t'], deriv=-1),
    'timeseries': lambda cp, w: _fig(lambda: w['base'].plot_timeseries(w['r1'], w['th'][0], w['ph'][0])),
    'plot_spectrum': lambda cp, w: _fig(lambda: w['base'].plot_power_spectrum(w['t'])),
    'maps': lambda cp, w: _fig(lambda: w['model'].plot_maps_tdep(w['t'][0], w['r1'])),
}


def catalogue():
    """What every query reads, from the specification."""
    import re
    with open(os.path.join(core.SPEC, 'SystemQueries.tla')) as f:
        s = f.read()
    out = {m.group(1): set(re.findall(r'"([^"]+)"', m.group(2)))
           for m in re.finditer(r'(\w+)\s*\|->\s*\{([^}]*)\}', s)}
    if set(out) != set(QUERIES):
        raise core.MachineryError('catalogue and queries differ: %s' % sorted(set(out) ^ set(QUERIES)))
    return out


USES = catalogue()
