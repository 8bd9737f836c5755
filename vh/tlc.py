"""Running TLC: trace validation, exhaustive model checking and simulation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from vh.env import VERIF

SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def _java(args, env=None, timeout=600, heap='2g', workers_gc='-XX:+UseSerialGC'):
    cmd = ['java', workers_gc, '-Xss16m', '-Xmx' + heap, '-XX:TieredStopAtLevel=4',
           '-cp', JAR + ':' + COMM, 'tlc2.TLC'] + args
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def _stats(out):
    m = None
    for m in re.finditer(r'(\d+) states generated.*?, (\d+) distinct states found', out):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r'The depth of the complete state graph search is (\d+)', out)
    return {'states_generated': gen, 'distinct_states': dist, 'depth': int(m.group(1)) if m else 0}


def validate(module, trace_path, timeout=600, heap='3g'):
    """Check a recorded trace against spec/<module>.tla.

    Returns {'bad': [{l, op, clause}], 'cov': {clause: n}, 'n': len, stats}.  A
    trace TLC cannot even evaluate (a field of the wrong shape, say) is a failed
    verdict of its own, clause 'uninterpretable', at the line it stopped at."""
    scratch = tempfile.mkdtemp(prefix='tlc_')
    try:
        outp = os.path.join(scratch, 'verdict.json')
        r = _java(['-deadlock', '-workers', '1', '-metadir', os.path.join(scratch, 'md'),
                   '-noGenerateSpecTE', '-config', 'Trace.cfg', module + '.tla'],
                  env={'VTRACE': trace_path, 'VOUT': outp}, timeout=timeout, heap=heap)
        if not os.path.exists(outp):
            # distinguish a broken spec/tool from an uninterpretable event
            m = re.findall(r'^/\\ l = (\d+)', r.stdout, re.M)
            if 'Parsing or semantic analysis failed' in r.stdout or 'OutOfMemory' in r.stdout \
                    or 'Could not' in r.stdout and not m:
                raise TLCError(r.stdout[-4000:])
            line = int(m[-1]) if m else 0
            return {'bad': [{'l': line, 'op': '?', 'clause': 'uninterpretable'}], 'cov': {}, 'n': -1,
                    'stats': _stats(r.stdout), 'log': r.stdout[-3000:]}
        v = json.load(open(outp))
        v['stats'] = _stats(r.stdout)
        bad = v['bad']
        v['bad'] = bad if isinstance(bad, list) else []
        cov = v.get('cov')
        v['cov'] = cov if isinstance(cov, dict) else {}
        return v
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(module, cfg=None, workers=4, timeout=800, coverage=False, heap='4g', extra=(), env=None):
    """Exhaustive TLC run of spec/<module>.tla with spec/<cfg>.cfg."""
    scratch = tempfile.mkdtemp(prefix='tlc_')
    t0 = time.time()
    try:
        args = ['-deadlock', '-workers', str(workers), '-metadir', os.path.join(scratch, 'md'),
                '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg'] + list(extra)
        if coverage:
            args += ['-coverage', '1']
        r = _java(args + [module + '.tla'], timeout=timeout, heap=heap, workers_gc='-XX:+UseParallelGC', env=env)
        ok = 'Model checking completed. No error has been found.' in r.stdout
        st = _stats(r.stdout)
        st.update(ok=ok, wall_s=round(time.time() - t0, 2))
        if not ok:
            st['log'] = r.stdout[-6000:]
        if coverage:
            st['coverage_log'] = r.stdout
        return st
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def simulate(module, cfg, num, depth, seed, timeout=300, env=None):
    """Behaviours of spec/<module>.tla as JSON objects, one per printed 'BEH' line."""
    scratch = tempfile.mkdtemp(prefix='tlc_')
    try:
        r = _java(['-deadlock', '-workers', '1', '-metadir', os.path.join(scratch, 'md'), '-noGenerateSpecTE',
                   '-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed),
                   '-config', cfg + '.cfg', module + '.tla'], timeout=timeout, env=env)
        out = []
        for m in re.finditer(r'^<<"BEH", "(.*)">>$', r.stdout, re.M):
            out.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        if not out:
            raise TLCError(r.stdout[-4000:])
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
