"""Shared harness machinery: number encoding, event logs, TLC runs."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
REPO = os.environ.get('CHAOSMAGPY_REPO', '/repo')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'

SCALE = 10**24


class MachineryError(Exception):
    """Something in the checking machinery (not the code) went wrong."""


# ---------------------------------------------------------------- numbers
def limbs(n):
    if n == 0:
        return [0]
    s = 1 if n > 0 else -1
    n = abs(n)
    out = [s]
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def big(n):
    """Encode a Python integer as a BigNum integer (unscaled)."""
    return limbs(int(n))


def fx(x):
    """Encode a real number as fixed point (exact value of the double)."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return limbs(int(x) * SCALE)
    x = float(x)
    if x != x:
        return [2]
    if x == float('inf'):
        return [3]
    if x == float('-inf'):
        return [4]
    n, d = x.as_integer_ratio()
    q, r = divmod(n * SCALE, d)
    if 2 * r >= d:
        q += 1
    return limbs(q)


def fxs(a):
    return [fx(v) for v in np.asarray(a).ravel()]


def fxn(a):
    """Nested fixed-point encoding that keeps the array structure."""
    a = np.asarray(a)
    if a.ndim == 0:
        return fx(a[()])
    return [fxn(v) for v in a]


class sampled:
    """Within this context, large arrays are encoded by a sample of their elements.

    Every axis of length n of an input or result is reduced to the same few indices: for
    element-wise calls the specification then judges these elements of a large call.
    """
    now = None

    def __init__(self, rng, n, k=10):
        idx = np.concatenate([[0, n - 1], rng.choice(n, k - 2, replace=False)])
        self.n, self.idx = n, np.unique(idx)

    def __enter__(self):
        sampled.now = self
        return self

    def __exit__(self, *_):
        sampled.now = None


def thin(a):
    a = np.asarray(a)
    w = sampled.now
    if w is not None:
        for ax in range(a.ndim):
            if a.shape[ax] == w.n:
                a = np.take(a, w.idx, axis=ax)
    return a


def arr(a):
    """Encode an array result: shape and flat data (row-major)."""
    a = thin(a)
    if a.dtype.kind not in 'fiub':
        return dict(kind='other', dtype=str(a.dtype), shape=list(a.shape), data=[])
    return dict(kind='arr', shape=list(a.shape), data=fxs(a))


def carr(a):
    a = thin(a)
    if a.dtype.kind not in 'fiubc':
        return dict(kind='other', dtype=str(a.dtype), shape=list(a.shape),
                    re=[], im=[])
    a = a.astype(complex)
    return dict(kind='arr', shape=list(a.shape), re=fxs(a.real), im=fxs(a.imag))


# ---------------------------------------------------------------- log
class Log:
    """A trace of calls into the implementation."""

    def __init__(self, prop):
        self.prop = prop
        self.events = []
        self.defs = []         # objects that events refer to by (1-based) index
        self.raw = []          # printable description of each event, for replays

    def add(self, ev, raw=None):
        if ev.get('op') == 'pp':       # nothing else to announce by a warning
            ev.setdefault('say', False)
        if ev.get('op') == 'field':    # times outside of the model are announced
            ev.setdefault('mute', False)
        self.events.append(ev)
        self.raw.append(raw)
        return len(self.events)

    def define(self, obj):
        self.defs.append(obj)
        return len(self.defs)

    def call(self, op, thunk, enc, raw=None, **fields):
        """Run thunk(); log op with `fields` and the encoded result."""
        out, warns = guarded(thunk, enc)
        ev = dict(op=op, out=out, warned=len(warns) > 0, **fields)
        self.add(ev, raw)
        return out


class Silenced(Exception):
    pass


def silenced(before):
    """Were filters set that decide about the warnings of the package?"""
    new = [f for f in warnings.filters if f not in before]
    return any(f[2] in (Warning, UserWarning) and f[3] is None for f in new)


def guarded(thunk, enc):
    """Call the implementation; a result or an exception is data, never a crash."""
    devnull = open(os.devnull, 'w')
    old = sys.stdout
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        np.seterr(all='warn')
        before = list(warnings.filters)
        try:
            sys.stdout = devnull
            res = thunk()
            if silenced(before):
                raise Silenced('the filters of warnings were changed')
        except Exception as e:     # noqa: BLE001
            sys.stdout = old
            return dict(k='exc', type=type(e).__name__,
                        value_error=isinstance(e, ValueError), msg=str(e)[:200]), w
        finally:
            sys.stdout = old
            devnull.close()
    w = [x for x in w if issubclass(x.category, UserWarning)
         and 'Deprecat' not in x.category.__name__]
    try:
        enc_res = enc(res)
        enc_res['k'] = 'ok'
    except Exception as e:         # noqa: BLE001  unexpected result type
        return dict(k='exc', type='BadResult', value_error=False,
                    msg='result could not be encoded: %s: %s' % (type(e).__name__, e)), w
    return enc_res, w


# ---------------------------------------------------------------- TLC
def ensure_build():
    cls = os.path.join(BUILD, 'BigNum.class')
    src = os.path.join(VERIF, 'java', 'BigNum.java')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['javac', '-cp', TLAJAR, '-d', BUILD, src],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise MachineryError('javac failed: ' + r.stderr)


class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.bad = []          # (index, clause)
        self.error = None      # text of a TLC error
        self.violated = None   # name of a violated invariant/property
        self.out = ''
        self.printed = []
        self.wall = 0.


BAD_RE = re.compile(r'<<"BAD", (\d+), "([^"]*)">>')


def tlc(module, env=None, cfg=None, workers='auto', timeout=600, heap='6g',
        accel=True, extra=(), cont=False):
    """Run TLC on spec/<module>.tla and parse its output."""
    ensure_build()
    meta = tempfile.mkdtemp(prefix='verif-tlc-')
    cp = (BUILD + ':' if accel else '') + TLAJAR + ':' + CMJAR
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m',
           '-DTLA-Library=' + SPEC, '-cp', cp, 'tlc2.TLC', '-metadir', meta,
           '-workers', str(workers), '-noGenerateSpecTE', '-lncheck', 'final',
           '-config', (cfg or module) + '.cfg']
    if cont:
        cmd.append('-continue')
    cmd += list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout)
        out = p.stdout + p.stderr
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b''
        out = o.decode() if isinstance(o, bytes) else o
        rc = 'timeout'
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.wall = time.time() - t0
    r.out = out
    for m in BAD_RE.finditer(out):
        r.bad.append((int(m.group(1)), m.group(2)))
    r.printed = [ln for ln in out.splitlines() if ln.startswith('<<"')]
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r'Invariant (\S+) is violated', out)
    if m:
        r.violated = m.group(1)
    m = re.search(r'(?:Action property|Temporal propert\w+) (\S*)\s*(?:is|were) violated', out)
    if m and not r.violated:
        r.violated = m.group(1) or 'temporal'
    if rc != 0 and not r.violated:
        r.error = 'exit %s: ' % rc + out[-3000:]
    return r


def model_check(module, cfg=None, workers='auto', timeout=600, consts=None, extra=()):
    """Exhaustive check of a specification instance.  A violation here is a
    defect of the specification, hence a machinery error."""
    r = tlc(module, cfg=cfg, workers=workers, timeout=timeout, extra=extra, env=consts)
    if r.error or r.violated:
        raise MachineryError('model %s: %s %s' % (cfg or module, r.violated,
                                                  r.error or r.out[-3000:]))
    return r


BEH_RE = re.compile(r'<<\s*"BEHAVIOUR",\s*("(?:[^"\\]|\\.)*")\s*>>', re.S)


def behaviours(module, consts, num, depth, seed, timeout=300):
    """Behaviours of a specification chosen at random by TLC (its invariants are
    checked on the way), as lists of actions to replay."""
    extra = ['-simulate', 'num=%d' % num, '-depth', str(2 * depth + 2), '-seed', str(seed)]
    r = tlc(module, env=consts, workers=1, timeout=timeout, extra=extra)
    if r.violated or 'Error:' in r.out:
        raise MachineryError('behaviours of %s: %s %s' % (module, r.violated, r.out[-3000:]))
    # TLC also prints the alternatives to the last action: take one of them
    byprefix = {}
    for m in BEH_RE.finditer(r.out):
        b = json.loads(json.loads(m.group(1)))
        byprefix.setdefault(json.dumps(b[:-1]), []).append(b)
    rng = np.random.default_rng(seed)
    out = [v[int(rng.integers(len(v)))] for v in byprefix.values()]
    if len(out) < min(num, 5):
        raise MachineryError('only %d behaviours of %s\n%s' % (len(out), module, r.out[-2000:]))
    return out[:num]


def trace_check(module, log, workers='auto', timeout=800, chains=64, env=None,
                strict=False, depth=0, found=None):
    """Judge every event of the log with the trace specification.
    Returns the TLC result with `.bad` = [(event index (1-based), clause)]."""
    if not log.events:
        raise MachineryError('empty trace for ' + module)
    d = tempfile.mkdtemp(prefix='verif-trace-')
    try:
        path = os.path.join(d, 'trace.ndjson')
        with open(path, 'w') as f:
            for ev in log.events:
                f.write(json.dumps(ev) + '\n')
        dpath = os.path.join(d, 'defs.ndjson')
        with open(dpath, 'w') as f:
            for o in log.defs or [dict(none=0)]:
                f.write(json.dumps(o) + '\n')
        e = dict(TRACE=path, DEFS=dpath, CHAINS=str(min(chains, len(log.events))))
        e.update(env or {})
        r = tlc(module, env=e, workers=workers, timeout=timeout)
        done = set(ln for ln in r.printed if ln.startswith('<<"JUDGED"'))
        if (r.violated or (r.error and 'timeout' in r.error[:14]) or 'OutOfMemory' in r.out
                or 'Semantic errors' in r.out or 'Parse Error' in r.out
                or (r.error or '').startswith('exit 150')):
            raise MachineryError('trace spec %s failed: %s %s' % (
                module, r.violated, r.error))
        if r.error or len(done) != len(log.events):
            found = [] if found is None else found
            if len(log.events) == 1 and not strict:
                found.append(1)
                # the result has a form on which the specification is undefined
                r.bad = [(1, 'unjudgeable-result')]
                r.note = r.error
                return r
            if strict or depth > 40:
                raise MachineryError('trace spec %s failed: %s' % (module, r.error))
            # isolate the offending events by bisection
            h = len(log.events) // 2
            parts = []
            for lo, hi in ((0, h), (h, len(log.events))):
                if len(found) >= 2:      # enough to report; the rest would take long
                    break
                sub = Log(log.prop)
                sub.events, sub.raw = log.events[lo:hi], log.raw[lo:hi]
                sub.defs = log.defs
                q = trace_check(module, sub, workers, timeout, chains, env, strict, depth + 1,
                                found)
                parts.append((lo, q))
            r2 = TlcResult()
            for lo, q in parts:
                r2.states += q.states
                r2.distinct += q.distinct
                r2.bad += [(lo + i, c) for i, c in q.bad]
                r2.wall += q.wall
            return r2
        r.bad = sorted(set(r.bad))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- the code
def load_code():
    """Import chaosmagpy from the tree in /repo (never an installed copy)."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import chaosmagpy as cp
    if not os.path.abspath(cp.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise MachineryError('chaosmagpy imported from ' + cp.__file__)
    return cp


# ---------------------------------------------------------------- small helpers
def iarr(a):
    """Integer array as shape and flat big integers."""
    a = thin(a)
    return dict(shape=list(a.shape), data=[big(v) for v in a.ravel().tolist()])


def farr(a):
    """Float input array as shape and flat fixed-point numbers."""
    a = thin(a)
    return dict(shape=list(a.shape), data=fxs(a))


def short(*a, **k):
    """A printable, reproducible description of call inputs."""
    def f(x):
        if isinstance(x, np.ndarray):
            s = np.array2string(x, precision=17, threshold=60, separator=',',
                                max_line_width=10**6)
            return 'array(%s, %s, shape=%s)' % (s, x.dtype, x.shape)
        return repr(x)[:400]
    return ', '.join([f(x) for x in a] + ['%s=%s' % (n, f(x)) for n, x in k.items()])[:1500]
