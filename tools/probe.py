"""tries many small wrong edits against the quick check of their property (development aid)

python3 tools/probe.py SPEC.py [id ...]: SPEC defines PROBES = [(id, property, [(file, old, new), ...]), ...]; each is applied to
a scratch copy of /repo/src under /tmp/pr and the property's quick check is run on it through LOP_SRC. With --tests the stable
tests are run for the probes that no check caught (a probe that the tests kill says nothing about the check).
"""
import json
import os
import shutil
import subprocess
import sys
from multiprocessing.pool import ThreadPool
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/pr'


def one(p):
    pid, props, edits = p
    d = os.path.join(W, pid)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
    for f, old, new in edits:
        fn = os.path.join(d, 'src/lop', f)
        t = open(fn).read()
        if t.count(old) != 1:
            return pid, props, 'EDIT matches %d: %r' % (t.count(old), old[:50])
        open(fn, 'w').write(t.replace(old, new))
    env = dict(os.environ, LOP_SRC=d + '/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', VERIF_SEED='1')
    v = d + '/v'
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence', '__pycache__'))
    os.makedirs(v + '/replays', exist_ok=True)
    os.makedirs(v + '/evidence', exist_ok=True)
    res = []
    for prop in props.split(','):
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'engine.run', prop, '--jobs', '3'], cwd=v, env=env, capture_output=True, text=True)
        o = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        open(d + '/out_' + prop, 'w').write(r.stdout + r.stderr)
        res.append((prop, r.returncode, len(o), (r.stdout.strip().split('\n') or [''])[-1][:120]))
    shutil.rmtree(v, ignore_errors=True)
    return pid, props, res


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    ns = {}
    exec(open(a[0]).read(), ns)
    todo = [p for p in ns['PROBES'] if not a[1:] or p[0] in a[1:]]
    os.makedirs(W, exist_ok=True)
    with ThreadPool(3) as pool:
        for pid, props, res in pool.imap_unordered(one, todo):
            if isinstance(res, str):
                print('%-28s %s' % (pid, res), flush=True)
                continue
            ok = any(rc == 1 and n for _, rc, n, _ in res)
            print('%-28s %-8s %s' % (pid, 'caught' if ok else 'MISSED', '; '.join('%s rc=%d v=%d %s' % (p, rc, n, '' if ok else t) for p, rc, n, t in res)), flush=True)
            if ok:
                shutil.rmtree(os.path.join(W, pid), ignore_errors=True)


main()
