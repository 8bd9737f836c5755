"""Run each planted change against its check (in a copy of /repo) and note the clauses that report it in tools/caught.json."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, 'tools', 'caught.json')


def run(s):
    d = '/tmp/caught/' + s
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/caught', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    p = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))['property']
    a = subprocess.run(['git', 'apply', os.path.join(V, 'seeded', s, 'patch.diff')], cwd=d)
    r = subprocess.run(['./check.py', p], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '/vout'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d)
    if a.returncode:
        return s, ['PATCH DOES NOT APPLY']
    return s, sorted({l.split('clause=')[1].split()[0] for l in r.stdout.splitlines() if 'clause=' in l}) if r.returncode == 1 else ['MISSED (exit %d)' % r.returncode]


if __name__ == '__main__':
    c = json.load(open(F)) if os.path.exists(F) else {}
    todo = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    with cf.ThreadPoolExecutor(4) as ex:
        for s, cl in ex.map(run, todo):
            print(s, cl, flush=True)
            c[s] = cl
    json.dump({k: v for k, v in sorted(c.items()) if os.path.isdir(os.path.join(V, 'seeded', k))}, open(F, 'w'), indent=1)
