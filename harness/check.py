"""Run the check of one property:  check.py <id> <quick|thorough>."""
import faulthandler
import glob
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = np.random.default_rng([self.seed, int(prop[1:])])
        self.states = self.transitions = self.validated = 0
        self.samples = []
        self.models = []
        self.violations = []
        self.assumptions = []
        self.t0 = time.time()
        self.known = json.load(open(os.path.join(core.VERIF, 'known_findings.json')))
        self.known_hit = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        """Number of cases for the tier."""
        return quick if self.quick else thorough

    def model(self, module, cfg=None, **kw):
        r = core.model_check(module, cfg=cfg, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.models.append(dict(model=cfg or module, states=r.distinct,
                                transitions=r.states, wall_s=round(r.wall, 2)))
        return r

    def trace(self, module, log, sample=2, **kw):
        t = time.time()
        r = core.trace_check(module, log, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.validated += len(log.events)
        self.models.append(dict(trace=module, events=len(log.events), states=r.distinct,
                                transitions=r.states, wall_s=round(time.time() - t, 2)))
        for i in list(range(0, len(log.events), max(1, len(log.events) // max(1, sample))))[:sample]:
            self.samples.append(dict(op=log.events[i].get('op'), input=log.raw[i]))
        for i, clause in r.bad:
            self.bad(log.events[i-1], clause, log.raw[i-1])
        return r

    def bad(self, ev, clause, raw=None):
        """Record a violation unless it is a listed known finding."""
        for k in self.known:
            if (k.get('status') == 'known' and k['property'] == self.prop
                    and k['clause'] == clause and k['key'] == str(raw)):
                self.known_hit.append(k)
                return
        self.violations.append(dict(clause=clause, input=raw, event=ev))

    def finish(self):
        os.makedirs(core.EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated,
                                samples=self.samples[:12] or ['none'],
                                runs=self.models),
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(core.EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in {json.dumps(k, sort_keys=True): k for k in self.known_hit}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.violations:
            rp = os.path.join(core.EVID, self.prop + '.replay.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               violations=self.violations[:20]), f, indent=1, default=str)
            for v in self.violations[:5]:
                print('  clause %s: %s' % (v['clause'], str(v['input'])[:300]))
            print('%d violating events' % len(self.violations))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s states=%d validated=%d wall=%.1fs' % (
            self.prop, self.states, self.validated, time.time() - self.t0))
        return 0


def refused(e):
    """A documented call that a function of the package no longer understands."""
    m = re.match(r'(?:\w+\.)*(\w+)\(\) (?:got (?:multiple|an unexpected|some positional)|missing \d+ required|takes )',
                 str(e)) if isinstance(e, TypeError) else None
    if not m:
        return False
    d = os.path.join(core.REPO, 'chaosmagpy')
    src = ''.join(open(os.path.join(d, f), encoding='utf8').read() for f in sorted(os.listdir(d)) if f.endswith('.py'))
    mine = ''.join(open(f).read() for f in glob.glob(os.path.join(core.VERIF, 'harness', '**', '*.py'), recursive=True))
    pat = r'def %s\(' % m.group(1)
    return bool(re.search(pat, src)) and (m.group(1) == '__init__' or not re.search(pat, mine))


class NoAnswer(Exception):
    pass


def too_long(*args):
    raise NoAnswer('a call does not come back')


def guarded(prop, tier):
    """Run the check in a process of its own: when the code under test brings
    the interpreter down, that is a violation and not the end of the check."""
    fd, log = tempfile.mkstemp(prefix='verif-crash-')
    os.close(fd)
    try:
        rc = subprocess.call([sys.executable] + sys.argv,
                             env=dict(os.environ, VERIF_CRASH_LOG=log))
        if rc >= 0:
            return rc
        trace = open(log).read()
    finally:
        os.unlink(log)
    print(trace[:3000], file=sys.stderr)
    fatal = (signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS, signal.SIGILL)
    if -rc not in fatal or os.path.join(core.REPO, 'chaosmagpy') + os.sep not in trace:
        print('CHECK-ERROR property=%s' % prop)
        return 2
    ctx = Ctx(prop, tier)
    ctx.bad(dict(op='crash'), 'interpreter-crash', trace[:2000])
    return ctx.finish()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if prop == 'selftest':
        import selftest
        return selftest.main(tier)
    if 'VERIF_CRASH_LOG' not in os.environ:
        return guarded(prop, tier)
    # a user far from Greenwich who likes short printouts: no result depends on it
    os.environ['TZ'] = 'XST9:30XDT,M3.2.0,M11.1.0'
    time.tzset()
    np.set_printoptions(precision=3, suppress=True, threshold=6, linewidth=40)
    faulthandler.enable(os.open(os.environ['VERIF_CRASH_LOG'], os.O_WRONLY))
    if tier == 'quick':
        signal.signal(signal.SIGALRM, too_long)
        signal.alarm(780)
    try:
        ctx = Ctx(prop, tier)
        core.load_code()
        mod = importlib.import_module('props.' + prop.lower())
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s' % prop)
        return 2
    try:
        mod.run(ctx)
    except Exception as e:
        traceback.print_exc()
        # The code under test raised where the behaviour has a result: this is
        # a violation if the exception comes out of the tree under test, and
        # an error of the check otherwise.
        frames = traceback.extract_tb(e.__traceback__)
        tree = os.path.realpath(os.path.join(core.REPO, 'chaosmagpy')) + os.sep
        if refused(e):
            ctx.bad(dict(op='raise'), 'call-refused', str(e)[:200])
            return ctx.finish()
        if not any(os.path.realpath(f.filename).startswith(tree) for f in frames):
            print('CHECK-ERROR property=%s' % prop)
            return 2
        where = [f for f in frames if os.path.realpath(f.filename).startswith(tree)][-1]
        ctx.bad(dict(op='raise'), 'unexpected-exception', '%s: %s (in %s, raised in %s)' % (
            type(e).__name__, str(e)[:200], where.name, os.path.basename(frames[-1].filename)))
    try:
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s' % prop)
        return 2


if __name__ == '__main__':
    sys.exit(main())
