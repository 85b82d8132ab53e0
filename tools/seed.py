"""builds /verif/seeded/<id>/ from a spec (development aid): python3 tools/seed.py make SPEC.py [id ...] | check [id ...]

make: writes patch.diff, demo.sh, demo.py, meta.json. check: in a scratch copy under /tmp/seedw, builds, runs the stable tests
with the patch, the demo with and without it, and this property's quick check on the patched copy (LOP_SRC).
"""
import json
import os
import shutil
import subprocess
import sys
from multiprocessing.pool import ThreadPool
REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory, 1 when it is broken
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
exec "$PY" "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


def make(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        w = '/tmp/seedw/mk'
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs('/tmp/seedw', exist_ok=True)
        sh(['git', 'clone', '-q', REPO, w])
        base_lines = {}
        for f, old, new, *nth in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if nth:
                parts = t.split(old)
                n = nth[0]
                open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
                continue
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), 'times in', f, repr(old[:60]))
                break
            open(p, 'w').write(t.replace(old, new))
        else:
            d = sh(['git', '-C', w, 'diff']).stdout
            for f, old, *_ in s['edits']:
                base_lines.setdefault(f, set(sh(['git', '-C', REPO, 'show', BASE + ':' + f]).stdout.split('\n')))
            allb = set().union(*base_lines.values())
            rem = [l[1:] for l in d.split('\n') if l.startswith('-') and not l.startswith('---')]
            notorig = [l for l in rem if l not in allb]
            if notorig:
                print(s['id'], 'changes lines that are not original:', notorig)
            o = os.path.join(SEEDED, s['id'])
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(d)
            open(o + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(o + '/demo.sh', 0o755)
            open(o + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree('/tmp/seedw/mk', ignore_errors=True)


def check1(i):
    o = os.path.join(SEEDED, i)
    prop = json.load(open(o + '/meta.json'))['property']
    w, v = '/tmp/seedw/' + i, '/tmp/seedw/v-' + i
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, w, ignore=shutil.ignore_patterns('experiments', 'doc', '__pycache__'))
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', '__pycache__'))
    os.makedirs(v + '/replays')
    env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
               LOP_SRC=w + '/src', PYTHONHASHSEED='0', VERIF_SEED='1')
    r = {'id': i, 'property': prop}
    r['demo0'] = sh(['bash', o + '/demo.sh'], cwd=w, timeout=300).returncode
    a = sh(['git', 'apply', o + '/patch.diff'], cwd=w)
    r['apply'] = a.returncode
    x = sh(['bash', o + '/demo.sh'], cwd=w, timeout=300)
    r['demo1'] = x.returncode
    r['demo_out'] = (x.stdout + x.stderr).strip().split('\n')[-1][:150]
    sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '0', '--timeout=300', '-p', 'randomly',
        '--randomly-seed=0', '--randomly-dont-reorganize', '--ignore=tests/active_learning/test_bayes_info_gain.py', 'tests',
        '--junitxml=%s/j.xml' % v], cwd=w, env=env, timeout=900)
    import xml.etree.ElementTree as T
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    good = set()
    for c in T.parse(v + '/j.xml').iter('testcase'):
        if not any(y.tag in ('failure', 'error', 'skipped') for y in c):
            good.add(c.get('classname') + '::' + c.get('name'))
    r['tests'] = sorted(stable - good)[:3]
    try:
        c = sh(['/opt/venv/bin/python', '-m', 'engine.run', prop, '--tier', 'quick', '--jobs', '4'], cwd=v, env=env, timeout=900)
        viol = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        r['check'] = [c.returncode, (viol or c.stdout.strip().split('\n'))[-1][:160]]
    except subprocess.TimeoutExpired:
        r['check'] = ['timeout', '']
    ok = r['demo0'] == 0 and r['apply'] == 0 and r['demo1'] != 0 and not r['tests']
    caught = r['check'][0] == 1
    print(('OK   ' if ok else 'BAD  ') + ('caught ' if caught else 'MISSED ') + json.dumps(r), flush=True)
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)


if sys.argv[1] == 'make':
    make(sys.argv[2], sys.argv[3:])
else:
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    with ThreadPool(2) as p:
        p.map(check1, ids)
