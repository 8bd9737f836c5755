"""Make, confirm and store a seeded bug:  plant(id, prop, needs, breaks, edits, demo)

edits: [(file relative to /repo, old text, new text)]; demo: python source that exits
non-zero (assert) when the property is broken.  Nothing here is read by any check."""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$here/stubs" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''
W = '/tmp/plantrepo'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(cwd):
    b = json.load(open('/opt/vp/BASELINE.json'))
    ids = b.get('stable') or b.get('passing') or b.get('passed') or b.get('tests')
    r = sh('PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_concentration_models.py '
           'tests/test_rendering 2>&1 | tail -40', cwd)
    return r.stdout


def plant(pid, prop, needs, breaks, edits, demo):
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    d = os.path.join(V, 'seeded', pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, a, b in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(pid, 'pattern occurs %d times in %s: %r' % (s.count(a), f, a[:60]))
            shutil.rmtree(d)
            return False
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', 'diff'], cwd=W, text=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.strip() + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    shutil.copytree(os.path.join(V, 'stubs'), os.path.join(d, 'stubs'), ignore=shutil.ignore_patterns('__pycache__'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # removed lines must be lines of the original repository
    bad = []
    for f in set(e[0] for e in edits):
        blame = subprocess.check_output(['git', 'blame', '-s', 'HEAD', '--', f], cwd=W, text=True).splitlines()
        mine = set(subprocess.check_output(['git', 'log', '--format=%h', '8dcd982..HEAD'], cwd=W, text=True).split())
        lines = open(os.path.join('/repo', f)).read().splitlines()
        for ln in subprocess.check_output(['git', 'diff', '-U0', '--', f], cwd=W, text=True).splitlines():
            if ln.startswith('-') and not ln.startswith('---'):
                for k, t in enumerate(lines):
                    if t == ln[1:] and any(blame[k].startswith(m) for m in mine):
                        bad.append((f, k + 1))
    good = sh('bash %s/demo.sh' % d, '/repo', timeout=300)
    broken = sh('bash %s/demo.sh' % d, W, timeout=300)
    st = stable(W)
    base = stable('/repo')
    same = [l for l in st.splitlines() if l.startswith('FAILED')] == [l for l in base.splitlines() if l.startswith('FAILED')]
    ok = good.returncode == 0 and broken.returncode != 0 and same
    print(pid, 'OK' if ok else 'BAD', good.returncode, broken.returncode, 'tests same' if same else 'TESTS DIFFER', bad or '')
    if good.returncode:
        print(good.stdout[-1500:])
    if broken.returncode:
        print('   ', broken.stdout.strip().splitlines()[-1][:200])
    if not ok:
        shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
    return ok
