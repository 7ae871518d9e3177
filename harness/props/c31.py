"""C31: queries are pure (histories of the whole package)."""
import hashlib
import os
import pickle
import shutil
import tempfile
import numpy as np
import core
from core import Log, load_code, fx
from props import system_world


def parallel(jobs, width=8):
    """Run every job in an own process forked from this one; their results."""
    out, live, todo = [None] * len(jobs), {}, list(enumerate(jobs))[::-1]
    d = tempfile.mkdtemp(prefix='verif-fork-')
    try:
        while todo or live:
            while todo and len(live) < width:
                i, job = todo.pop()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        r = job()
                        with open(os.path.join(d, str(i)), 'wb') as f:
                            pickle.dump(r, f)
                        code = 0
                    except BaseException as e:      # noqa: BLE001
                        try:
                            with open(os.path.join(d, str(i) + '.err'), 'w') as f:
                                f.write(repr(e))
                        except Exception:       # noqa: BLE001
                            pass
                    os._exit(code)
                live[pid] = i
            pid, status = os.wait()
            i = live.pop(pid)
            if status:
                e = os.path.join(d, str(i) + '.err')
                raise core.MachineryError('process failed: %s' % (open(e).read() if os.path.exists(e) else status))
            with open(os.path.join(d, str(i)), 'rb') as f:
                out[i] = pickle.load(f)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    load_code()
    ctx.model('MC_System', consts=dict(SYS_DEPTH='4' if ctx.quick else '5', SYS_EMIT='0', SYS_ALIAS='0', SYS_FOCUS='0', SYS_FAMILY='0'))
    gen = lambda depth, focus, num, seed, family='0': core.behaviours(
        'MC_System', dict(SYS_DEPTH=str(depth), SYS_EMIT='1', SYS_ALIAS='0', SYS_FOCUS=str(focus),
                           SYS_FAMILY=family),
        num, depth + focus, seed, timeout=600)
    # histories of several queries (any, or such that belong together), and short
    # ones of every single query
    beh = gen(24, 5, ctx.n(60, 600), ctx.seed) + gen(24, 4, ctx.n(150, 1200), ctx.seed + 1, '1')
    count, seed = {}, ctx.seed
    while len(count) < len(system_world.USES) or min(count.values()) < ctx.n(3, 8):
        seed += 1000
        for b in gen(11, 1, 1200, seed):
            q = [a['q'] for a in b if a['k'] == 'query']
            if len(q) > 3 and any(a['k'] == 'scribble' for a in b) and count.get(q[0], 0) < ctx.n(3, 8):
                count[q[0]] = count.get(q[0], 0) + 1
                beh.append(b)
    # every query after each of the things it reads was rewritten, one at a time
    for q, reads in system_world.USES.items():
        ask, a = dict(k='query', q=q), []
        for x in sorted(reads):
            obj = x in ('model', 'base')
            a += [ask, dict(k='renew' if obj else 'write', x=x, v=1 if obj else 2), ask,
                  dict(k='renew', x=x, v=0)]
        if a:
            beh.append(a + [ask])
    d = tempfile.mkdtemp(prefix='verif-sys-')
    try:
        bank = system_world.Bank(np.random.default_rng([ctx.seed, 31]), d)
        log = Log('C31')
        seeds = [int(s) for s in ctx.rng.integers(0, 2**31, len(beh))]
        runs = parallel([lambda a=a, s=s: system_world.history(bank, a, s) for a, s in zip(beh, seeds)])
        # the same queries under the same circumstances, each in a fresh process
        keys, need = {}, []
        for steps in runs:
            for st in steps:
                if 'key' in st and st['key'] not in keys:
                    keys[st['key']] = len(need) + 1
                    need.append(st['key'])
        refs = parallel([lambda k=k: system_world.reference(bank, k) for k in need])
        for k, (out, used) in zip(need, refs):
            log.define(dict(q=k[0], vers={x: v for x, v in k[1:]}, used=used, out=out))
        for acts, steps in zip(beh, runs):
            for st in steps:
                st['ref'] = keys[st.pop('key')] if 'key' in st else 0
            log.add(dict(op='history', acts=acts, out=dict(k='ok', steps=steps)), core.short(acts) if 0 else str(acts))
        ctx.trace('Trace_System', log, sample=1)
        ctx.assumptions.append('fresh-process references: %d' % len(need))
    finally:
        shutil.rmtree(d, ignore_errors=True)
