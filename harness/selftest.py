"""Checks of the checking machinery itself (run by setup_cmd)."""
import concurrent.futures
import glob
import os
import re
import subprocess
import time

import core


def balanced(text):
    depth, out = 1, []
    for tok in re.findall(r'<<|>>|TRUE|FALSE|-?\d+', text):
        depth += (tok == '<<') - (tok == '>>')
        if depth == 0:
            break
        out.append(tok)
    return ' '.join(out)


def digests(accel, small):
    r = core.tlc('MC_BigNum', accel=accel, env=dict(BIG_SMALL='1' if small else '0'),
                 timeout=1500)
    if r.error or r.violated:
        raise core.MachineryError('MC_BigNum: %s %s' % (r.violated, r.error))
    segs = re.split(r'<<\s*"DIGEST"', r.out)[1:]
    return sorted(balanced(x) for x in segs)


JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def parses(path):
    r = subprocess.run(['java', '-XX:+UseSerialGC', '-cp', JARS, 'tla2sany.SANY', os.path.basename(path)],
                       cwd=os.path.dirname(path), capture_output=True, text=True, timeout=300)
    return r.returncode == 0 and 'Semantic errors' not in r.stdout


def main(tier):
    t0 = time.time()
    core.ensure_build()
    specs = sorted(glob.glob(os.path.join(core.SPEC, '*.tla')))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        bad = [s for s, ok in zip(specs, ex.map(parses, specs)) if not ok]
    if bad or len(specs) < 30:
        print('selftest: specifications with errors: %s' % bad)
        return 1
    core.model_check('MC_Fx')
    # a package whose queries hand out their own cells must be refuted
    r = core.tlc('MC_System', timeout=600, env=dict(SYS_DEPTH='4', SYS_EMIT='0', SYS_ALIAS='1',
                                                    SYS_FOCUS='0', SYS_FAMILY='0'))
    if not r.violated:
        print('selftest: sharing of results is not refuted by MC_System')
        return 1
    # queries that share a place for their notes, or change a model while they run
    for flaw in ('scratch', 'temporary'):
        r = core.tlc('MC_Interleave', timeout=600, env=dict(IL_DEPTH='1', IL_EMIT='0', IL_FLAW=flaw, IL_THREADS='2'))
        if not r.violated:
            print('selftest: %s is not refuted by MC_Interleave' % flaw)
            return 1
    small = tier == 'quick'
    a, b = digests(True, small), digests(False, small)
    if a != b or len(a) < 100:
        print('selftest: accelerated arithmetic differs from its TLA+ definition')
        return 1
    print('selftest ok: %d digests agree, %.1fs' % (len(a), time.time() - t0))
    return 0
