"""Vacuity check of the trace specifications:  sensitivity.py <id>...

Runs the quick check of a property on the real code, then corrupts single
observations in its recorded events (a number by a few 1e-6 of its size, a
sign, a shape, the warning flag, result <-> exception) and has the trace
specification judge the corrupted events.  Prints, for each kind of
observation, how many corruptions were named; an observation that is never
named is one that the specification does not constrain.
"""
import copy
import importlib
import json
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
import core  # noqa: E402


def is_num(v):
    return (isinstance(v, list) and v and all(type(x) is int for x in v)
            and ((len(v) > 1 and v[0] in (-1, 1) and v[-1] != 0) or v in ([0], [2], [3], [4]))
            and all(0 <= x <= 9999 for x in v[1:]))


def sites(o, path=()):
    """All observations below o: (path, kind)."""
    if isinstance(o, dict):
        for k, v in o.items():
            if k == 'shape' and isinstance(v, list):
                yield path + (k,), 'shape'
            elif k in ('k', 'kind', 'msg', 'type', 'dtype'):
                continue
            else:
                yield from sites(v, path + (k,))
    elif isinstance(o, bool):
        yield path, 'bool'
    elif isinstance(o, int):
        yield path, 'int'
    elif isinstance(o, str):
        yield path, 'str'
    elif is_num(o):
        yield path, 'num'
        yield path, 'sign'
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from sites(v, path + (i,))


def to_int(v):
    return v[0] * sum(d * 10000**i for i, d in enumerate(v[1:])) if len(v) > 1 else 0


def corrupt(ev, path, kind):
    ev = copy.deepcopy(ev)
    o = ev
    for p in path[:-1]:
        o = o[p]
    v = o[path[-1]]
    if kind == 'num':
        n = to_int(v)
        o[path[-1]] = core.limbs(n + abs(n) // 200000 + 10**16)
    elif kind == 'sign':
        n = to_int(v)
        if abs(n) < 10**15:
            return None
        o[path[-1]] = core.limbs(-n)
    elif kind == 'shape':
        o[path[-1]] = v + [1] if not v or v[0] != 1 else v[1:]
    elif kind == 'bool':
        o[path[-1]] = not v
    elif kind == 'int':
        o[path[-1]] = v + 1
    elif kind == 'str':
        o[path[-1]] = v + 'x'
    return ev


def general(path):
    return '.'.join('*' if isinstance(p, int) else p for p in path)


def main(props):
    rng = np.random.default_rng(7)
    per = int(os.environ.get('SENS_N', '400'))
    real = check.Ctx.trace
    for prop in props:
        logs = []

        def trace(self, module, log, sample=2, **kw):
            logs.append((module, log, kw))

        check.Ctx.trace = trace
        check.Ctx.model = lambda self, *a, **k: None
        ctx = check.Ctx(prop, 'quick')
        core.load_code()
        importlib.import_module('props.' + prop.lower()).run(ctx)
        check.Ctx.trace = real
        table = {}
        for module, log, kw in logs:
            pool = {}
            for i, ev in enumerate(log.events):
                for path, kind in list(sites(ev['out'], ('out',))):
                    key = (module, ev['op'], general(path), kind)
                    pool.setdefault(key, []).append((i, path))
                if 'warned' in ev:
                    pool.setdefault((module, ev['op'], 'warned', 'bool'), []).append((i, ('warned',)))
            todo = []
            each = max(3, per // max(1, len(pool)))
            for key, cand in pool.items():
                for j in rng.permutation(len(cand))[:each]:
                    i, path = cand[j]
                    e = corrupt(log.events[i], path, key[3])
                    if e is not None:
                        todo.append((key, i, e))
            if os.environ.get('SENS_EXC', '1') == '1':
                for i in rng.permutation(len(log.events))[:30]:
                    e = copy.deepcopy(log.events[i])
                    if e['out']['k'] != 'ok':
                        continue
                    e['out'] = dict(k='exc', type='X', value_error=False, msg='')
                    todo.append(((module, e['op'], 'out', 'exception'), i, e))
            # the form must stay judgeable, so each kind is judged on its own
            for key in dict.fromkeys(t[0] for t in todo):
                part = [t for t in todo if t[0] == key]
                sub = core.Log(prop)
                sub.defs = log.defs
                for _, i, e in part:
                    sub.add(e, log.raw[i])
                try:
                    r = core.trace_check(module, sub, **kw)
                    hit = len({i for i, _ in r.bad})
                    if any(c == 'unjudgeable-result' for _, c in r.bad):
                        hit = len(part)
                    miss = [log.raw[part[i][1]] for i in range(len(part))
                            if i + 1 not in {b[0] for b in r.bad}]
                except core.MachineryError as ex:
                    hit, miss = -1, [str(ex)[-300:]]
                table[key] = (hit, len(part), miss[:1])
        for key, (hit, tot, miss) in table.items():
            flag = '' if hit == tot else ' <<<' if hit < 0.5 * tot else ' <'
            print('%s %-14s %-40s %-9s %d/%d%s' % (prop, key[1], key[2], key[3], hit, tot, flag),
                  str(miss)[:160] if flag else '', flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
