"""C36: queries that are interrupted, or interleaved by threads."""
import os
import shutil
import sys
import tempfile
import threading
import warnings
import numpy as np
import core
from core import Log, load_code
from props import system_world as sw
from props.c31 import parallel
from props.file_common import Sink

THREADS, PHASES = 3, 4
WAIT = 20.          # seconds until a thread counts as blocked by another one


def package():
    import chaosmagpy
    return os.path.dirname(os.path.abspath(chaosmagpy.__file__))


class Lines:
    """Follows the lines of the package that one thread executes."""

    def __init__(self, pkg, seen):
        self.pkg, self.seen, self.mine = pkg, seen, {}

    def calls(self, frame, event, arg):
        f = frame.f_code.co_filename
        ok = self.mine.get(f)
        if ok is None:      # the settings are read between two lines of these files
            p = os.path.abspath(f)
            ok = self.mine[f] = p.startswith(self.pkg) and os.path.basename(p) != 'config_utils.py'
        return self.line if ok else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.seen(frame)
        return self.line


class View:
    """The world as a thread sees it: shared models, arrays of its own."""

    def __init__(self, w, t, v):
        self.w, self.v, self.used = w, v, set()
        self.have = {x: sw.layout(w.rng, q[v]) for x, q in w.bank.slots.items()}
        self.dir = os.path.join(w.tmp, 't%d' % t)
        os.mkdir(self.dir)

    def __getitem__(self, x):
        self.used.add(x)
        return self.w.have[x] if x in ('model', 'base') else self.have[x]

    def tmp(self, name):
        return os.path.join(self.dir, name)

    @property
    def bank(self):
        return self.w.bank

    def version(self):
        for x, a in self.have.items():
            q = self.w.bank.slots[x][self.v]
            if isinstance(q, list):
                if a != q:
                    return -1
            elif a.shape != q.shape or a.dtype != q.dtype or not np.array_equal(a, q):
                return -1
        return self.v


class Query(threading.Thread):
    def __init__(self, w, view, q, cuts, pkg):
        super().__init__(daemon=True)
        self.w, self.view, self.q, self.cuts = w, view, q, list(cuts)
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.count, self.kill, self.free, self.status, self.result = 0, False, False, 'run', None
        self.lines = Lines(pkg, self.seen)

    def seen(self, frame):
        self.count += 1
        if self.free or not self.cuts or self.count < self.cuts[0]:
            return
        self.cuts.pop(0)
        self.back.release()
        self.go.acquire()
        if self.kill:
            self.kill = False
            raise KeyboardInterrupt

    def run(self):
        self.go.acquire()
        sys.settrace(self.lines.calls)
        try:
            r = sw.QUERIES[self.q](self.w.cp, self.view)
            sys.settrace(None)
            self.result, self.status = ('ok', r), 'done'
        except KeyboardInterrupt:
            self.status = 'stopped'
        except Exception as e:          # noqa: BLE001
            self.result, self.status = ('exc', type(e).__name__), 'done'
        finally:
            sys.settrace(None)
            self.back.release()

    def proceed(self):
        """Let the query go on to its next cut; False if it does not get there."""
        self.go.release()
        return self.back.acquire(timeout=WAIT)


def outcome(result):
    if result[0] == 'exc':
        return dict(k='exc', form=result[1], leaves=[])
    return sw.encode(result[1])


def prepare(bank, seed, obj, cfg, owns):
    d = os.path.join(bank.dir, 's%d' % seed)
    os.mkdir(d)
    w = sw.World(bank, np.random.default_rng(seed), d)
    for k, v in cfg.items():
        if v:
            w.cp.basicConfig[k] = sw.CFG[k]
    w.have['model'], w.have['base'] = w.load(obj['model']), w.make_base(obj['base'])
    w.views = [View(w, t, v) for t, v in enumerate(owns)]
    w.glob = w.globals()
    return w


def measure(bank, q):
    """Places at which a query can be cut: the first and the last time it is at
    every line, and how many lines it executes."""
    w = prepare(bank, 10**6 + sorted(sw.QUERIES).index(q), dict(model=0, base=0), {}, [0])
    first, last, n = {}, {}, [0]

    def seen(frame):
        n[0] += 1
        key = frame.f_code.co_filename, frame.f_lineno
        first.setdefault(key, n[0])
        last[key] = n[0]
    with warnings.catch_warnings(), Sink():
        warnings.simplefilter('ignore')
        sys.settrace(Lines(package(), seen).calls)
        try:
            sw.QUERIES[q](w.cp, w.views[0])
        except Exception:       # noqa: BLE001  also queries that are refused
            pass
        finally:
            sys.settrace(None)
    return n[0], sorted(set(first.values()) | set(last.values()))


def session(bank, acts, seed, places):
    """Replay one schedule; the actions carried out and what is seen after each."""
    rng = np.random.default_rng(seed)
    b = acts[0]
    w = prepare(bank, seed, b['obj'], b['cfg'], b['own'])
    pkg = package()
    live, done, steps = {}, [b], []

    def cuts(q):
        n, at = places[q]
        if not n:
            return []
        pick = [int(rng.choice(at)) if rng.random() < .7 else int(rng.integers(1, n + 1)) for _ in range(PHASES - 1)]
        return sorted(set(pick))

    def note(a, thread, status):
        q = thread.q
        st = dict(status=status, ref=0)
        if status == 'done':
            st['out'] = outcome(thread.result)
            st['key'] = (q,) + tuple(sorted(
                [(x, b['obj'][x] if x in b['obj'] else b['own'][a['t'] - 1]) for x in sw.USES[q]]
                + list(b['cfg'].items())))
        st.update(obj={x: w.version(x) for x in ('model', 'base')}, own=[v.version() for v in w.views],
                  cfg=w.config(), globals=w.globals() == w.glob)
        done.append(a)
        steps.append(st)

    def release():
        """Some thread waits for another one: no more cuts."""
        for x in live.values():
            x.free = True
            x.cuts = []
        for x in live.values():
            x.go.release()
        for x in live.values():
            x.join(60.)
            if x.is_alive():
                raise core.MachineryError('query %s does not end' % x.q)

    def act(a):
        t = a['t']
        if a['k'] in ('start', 'ask'):
            if t in live:
                return
            x = Query(w, w.views[t - 1], a['q'], [] if a['k'] == 'ask' else a.pop('at', None) or cuts(a['q']), pkg)
            live[t] = x
            x.start()
        else:
            x = live.get(t)
            if x is None:
                return
            x.kill = a['k'] == 'stop'
        if x.status == 'run' and not x.proceed():
            release()
        if x.status != 'run':
            x.join(60.)
            del live[t]
        note(a, x, x.status)

    with warnings.catch_warnings(), Sink():
        warnings.simplefilter('ignore')
        for a in acts[1:]:
            act(a)
        while live:
            act(dict(k='run', t=sorted(live)[int(rng.integers(0, len(live)))]))
    return done, steps


def run(ctx):
    load_code()
    ctx.model('MC_Interleave', consts=dict(IL_DEPTH='1', IL_EMIT='0', IL_FLAW='none', IL_THREADS='2'))
    beh = core.behaviours('MC_Interleave', dict(IL_DEPTH='14', IL_EMIT='1', IL_FLAW='none', IL_THREADS=str(THREADS)),
                          ctx.n(420, 4000), 14, ctx.seed, timeout=600)
    d = tempfile.mkdtemp(prefix='verif-il-')
    try:
        bank = sw.Bank(np.random.default_rng([ctx.seed, 36]), d)
        names = sorted(sw.QUERIES)
        places = dict(zip(names, parallel([lambda q=q: measure(bank, q) for q in names])))
        # interruptions at every line that a query comes to
        for q in names:
            at = places[q][1]
            for k in range(0, len(at), ctx.n(7, 2)):
                beh.append([dict(beh[len(beh) % 400][0]), dict(k='start', t=1, q=q, at=[at[(k + ctx.seed) % len(at)]]),
                            dict(k='stop', t=1), dict(k='ask', t=1, q=q)])
        seeds = [int(s) for s in ctx.rng.choice(10**6, len(beh), replace=False)]
        runs = parallel([lambda a=a, s=s: session(bank, a, s, places) for a, s in zip(beh, seeds)])
        log, keys, need = Log('C36'), {}, []
        for _, steps in runs:
            for st in steps:
                if 'key' in st and st['key'] not in keys:
                    keys[st['key']] = len(need) + 1
                    need.append(st['key'])
        refs = parallel([lambda k=k: sw.reference(bank, k, heard=False) for k in need])
        for k, (out, used) in zip(need, refs):
            keys[k] = log.define(dict(q=k[0], vers={x: v for x, v in k[1:]}, used=used, out=out))
        for acts, steps in runs:
            for st in steps:
                st['ref'] = keys[st.pop('key')] if 'key' in st else 0
            log.add(dict(op='session', acts=acts, out=dict(k='ok', steps=steps)), str(acts))
        ctx.trace('Trace_Interleave', log, sample=1)
        ctx.assumptions.append('fresh-process references: %d' % len(need))
    finally:
        shutil.rmtree(d, ignore_errors=True)
