"""mutation screening of the checks (development aid, not used by any check).

python3 tools/mutate.py gen OUT.json [--per-line X] [--seed N]    list mutants of /repo/src
python3 tools/mutate.py run MUTANTS.json RESULTS.jsonl [--jobs 8]  tests and checks on each, in copies under /tmp/mut

A mutant is killed by the tests, caught by a check, or survives both; survivors are read by hand.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from multiprocessing import Process, Queue
REPO = os.environ.get('MUT_REPO', '/repo')
VERIF = os.environ.get('MUT_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SKIP = ['ProbabilityLearner.py', 'AbsBayesInfo.py', '__init__.py']
SKIP_FUNC = ['plot', 'plot_3D', 'visualize']
MAP = {
    'AbsAcquisition.py': ['C23', 'C22'], 'AcquisitionBase.py': ['C23', 'C22'], 'AcquisitionSelection.py': ['C23', 'C22', 'C03'],
    'ActiveLearner.py': ['C03', 'C22', 'C21'], 'BayesInfoGain.py': ['C23', 'C22', 'C03'], 'BestLearner.py': ['C22', 'C03'],
    'GV_UCBLearner.py': ['C22', 'C03'], 'MixedStrategy.py': ['C21'], 'MixedTypeDecision.py': ['C21'],
    'MutualInfoLearner.py': ['C22', 'C23', 'C03'], 'RandomLearner.py': ['C03'], 'RateChooseLearner.py': ['C21', 'C22', 'C23'],
    'UCBLearner.py': ['C22', 'C03'], 'KernelFunc.py': ['C07'], 'LinearKern.py': ['C07'], 'PeriodicKern.py': ['C07'],
    'RBF_kern.py': ['C07', 'C05'], 'RBF_kern_zeroed.py': ['C07'], 'GP.py': ['C05'], 'Model.py': ['C05', 'C04', 'C06'],
    'PreferenceGP.py': ['C06', 'C11'], 'PreferenceLinear.py': ['C20', 'C06'], 'PreferenceModel.py': ['C04', 'C11', 'C19', 'C06'],
    'AbsBoundProbit.py': ['C10', 'C11'], 'OrdinalProbit.py': ['C09', 'C11'], 'PreferenceProbit.py': ['C08', 'C11'],
    'ProbitBase.py': ['C08', 'C09', 'C10', 'C11'], 'FakeFunction.py': ['C24'], 'HumanChoiceUser2.py': ['C13', 'C16', 'C12'],
    'gamma_dist.py': ['C18'], 'human_choice_model.py': ['C12', 'C13'], 'mcmc_sampling.py': ['C17'], 'pareto.py': ['C02', 'C04'],
    'preference_pairs.py': ['C01'], 'probability_utility.py': ['C25'], 'sample_utility.py': ['C14'],
    'synthetic_user.py': ['C13'], 'training_utility.py': ['C15', 'C16'],
}
NAMES = {'argmax': 'argmin', 'argmin': 'argmax', 'max': 'min', 'min': 'max', 'amax': 'amin', 'maximum': 'minimum',
         'ones': 'zeros', 'zeros': 'ones', 'mean': 'sum', 'sum': 'mean', 'floor': 'ceil', 'ceil': 'floor', 'any': 'all',
         'all': 'any', 'hstack': 'vstack', 'cumsum': 'array', 'argsort': 'argsort_rev'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.Pow: ['*'], ast.MatMult: [], ast.Mod: ['//'],
       ast.FloorDiv: ['/']}


def muts(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def emit(n, new, op):
        s, e = span(n)
        out.append((n.lineno, s, e, new, op))

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef,)):
                if ch.name in SKIP_FUNC:
                    continue
                for st in ch.body:
                    visit(st, ch.name)
            elif isinstance(ch, ast.ClassDef):
                walk(ch, fn)

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and isinstance(n, ast.FunctionDef):
            for st in n.body:
                visit(st, n.name)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                emit(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                emit(n, '((%s) %s (%s))' % (seg(n.left), o, seg(n.right)), 'bin')
            if isinstance(n.op, ast.MatMult):
                emit(n, '((%s) @ np.transpose(%s))' % (seg(n.left), seg(n.right)), 'matT')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            emit(n, '(%s)' % seg(n.operand), 'neg')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, '(%s)' % seg(n.operand), 'not')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                emit(n, str(not v), 'bool')
            elif isinstance(v, int):
                emit(n, '(%d)' % (v + 1), 'int')
                if v > 0:
                    emit(n, '(%d)' % (v - 1), 'int')
            elif isinstance(v, float):
                emit(n, repr(v * 2 if v else 0.5), 'float')
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            emit(n, '((%s)%s(%s))' % (seg(n.values[0]), o, seg(n.values[1])), 'bool')
            emit(n, '(%s)' % seg(n.values[0]), 'bool')
            emit(n, '(%s)' % seg(n.values[1]), 'bool')
        if isinstance(n, ast.If):
            emit(n.test, '(not (%s))' % seg(n.test), 'if')
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            emit(n, seg(n.value) + '.' + NAMES[n.attr], 'name')
        if isinstance(n, ast.Name) and n.id in ('range',):
            pass
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            f = seg(n.func)
            if f not in ('isinstance', 'range', 'np.zeros', 'np.array'):
                a = [seg(x) for x in n.args]
                if a[0] != a[1]:
                    a[0], a[1] = a[1], a[0]
                    emit(n, '%s(%s)' % (f, ', '.join(a + [seg(k) for k in n.keywords])), 'swap')
        if isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                ks = [seg(x) for j, x in enumerate(n.keywords) if j != i]
                emit(n, '%s(%s)' % (seg(n.func), ', '.join([seg(x) for x in n.args] + ks)), 'dropkw')
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            emit(n, seg(n.value), 'T')
        if isinstance(n, (ast.AugAssign,)):
            emit(n, 'pass', 'del')
            s = seg(n)
            for a, c in (('+=', '-='), ('-=', '+='), ('*=', '/='), ('/=', '*=')):
                if a in s:
                    emit(n, s.replace(a, c, 1), 'aug')
                    break
            if '+=' in s:
                emit(n, s.replace('+=', '=', 1), 'aug')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            emit(n, 'pass', 'del')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            emit(n, 'pass', 'del')
        if isinstance(n, ast.Break):
            emit(n, 'pass', 'del')
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn)
    walk(tree, '')
    return out


def gen(a):
    rnd = random.Random(a.seed)
    res = []
    orig = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
    for f in subprocess.run(['git', '-C', REPO, 'ls-files', 'src'], capture_output=True, text=True).stdout.split():
        bn = os.path.basename(f)
        if not f.endswith('.py') or bn in SKIP or (a.file and a.file != bn):
            continue
        src = open(os.path.join(REPO, f)).read()
        ms = muts(src)
        n = max(6, int(len(src.split('\n')) * a.per_line))
        rnd.shuffle(ms)
        for ln, s, e, new, op in ms[:n]:
            res.append({'file': f, 'line': ln, 's': s, 'e': e, 'new': new, 'op': op,
                        'old': src.encode()[s:e].decode()})
    rnd.shuffle(res)
    for i, r in enumerate(res):
        r['id'] = i
    json.dump(res, open(a.out, 'w'), indent=0)
    print(len(res))


def worker(k, q, out):
    w, v = '/tmp/mut/w%d' % k, '/tmp/mut/v%d' % k
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, w, ignore=shutil.ignore_patterns('experiments', 'doc', '.git', '__pycache__'))
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', '__pycache__'))
    os.makedirs(v + '/replays', exist_ok=True)
    env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', LOP_SRC=w + '/src', PYTHONHASHSEED='0', VERIF_SEED='1')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    while True:
        m = q.get()
        if m is None:
            return
        path = os.path.join(w, m['file'])
        b = open(os.path.join(REPO, m['file']), 'rb').read()
        if 'patchsrc' in m:
            nb = m['patchsrc'].encode()
        else:
            nb = b[:m['s']] + m['new'].encode() + b[m['e']:]
        r = dict(m)
        r['checks'] = {}
        try:
            compile(nb, m['file'], 'exec')
        except SyntaxError:
            continue
        open(path, 'wb').write(nb)
        try:
            try:
                t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '0', '--timeout=60',
                                    '--maxfail=4', '-p', 'randomly', '--randomly-seed=0', '--randomly-dont-reorganize',
                                    '--ignore=tests/active_learning/test_bayes_info_gain.py', 'tests',
                                    '--junitxml=/tmp/mut/j%d.xml' % k], cwd=w, env=env, capture_output=True, timeout=240)
                import xml.etree.ElementTree as T
                bad = []
                for c in T.parse('/tmp/mut/j%d.xml' % k).iter('testcase'):
                    key = c.get('classname') + '::' + c.get('name')
                    if key in stable and any(x.tag in ('failure', 'error') for x in c):
                        bad.append(key)
                r['tests'] = bad[0] if bad else 'pass'
            except subprocess.TimeoutExpired:
                r['tests'] = 'timeout'
            if r['tests'] == 'pass':
                for p in MAP[os.path.basename(m['file'])]:
                    try:
                        c = subprocess.run(['/opt/venv/bin/python', '-m', 'engine.run', p, '--tier', 'quick', '--jobs', '2'], cwd=v,
                                           env=env, capture_output=True, text=True, timeout=1200)
                        viol = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
                        r['checks'][p] = [c.returncode, (viol or c.stdout.strip().split('\n'))[-1][:200] if True else '']
                        if c.returncode == 1 and viol:
                            r['caught'] = p
                            break
                    except subprocess.TimeoutExpired:
                        r['checks'][p] = ['timeout', '']
        finally:
            open(path, 'wb').write(b)
        with open(out, 'a') as f:
            f.write(json.dumps(r) + '\n')


def run(a):
    ms = json.load(open(a.mutants))
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)['id'] for l in open(a.out)}
    os.makedirs('/tmp/mut', exist_ok=True)
    q = Queue()
    for m in ms:
        if m['id'] not in done:
            q.put(m)
    for _ in range(a.jobs):
        q.put(None)
    ws = [Process(target=worker, args=(k + 1, q, a.out)) for k in range(a.jobs)]
    [w.start() for w in ws]
    [w.join() for w in ws]


def report(a):
    rs = [json.loads(l) for l in open(a.out)]
    k = [r for r in rs if r['tests'] != 'pass']
    c = [r for r in rs if r.get('caught')]
    s = [r for r in rs if r['tests'] == 'pass' and not r.get('caught')]
    print('mutants %d: killed by tests %d, caught by checks %d, left %d' % (len(rs), len(k), len(c), len(s)))
    for r in sorted(s, key=lambda r: (r['file'], r['line'])):
        print('#%d %s:%d [%s] %s  ->  %s   %s' % (r['id'], os.path.basename(r['file']), r['line'], r['op'], r['old'][:70].replace('\n', ' '),
              r['new'][:70].replace('\n', ' '), {p: x[0] for p, x in r['checks'].items() if x[0] != 0}))


ap = argparse.ArgumentParser()
sp = ap.add_subparsers(dest='cmd')
g = sp.add_parser('gen')
g.add_argument('out')
g.add_argument('--per-line', type=float, default=0.08)
g.add_argument('--seed', type=int, default=1)
g.add_argument('--file')
g = sp.add_parser('run')
g.add_argument('mutants')
g.add_argument('out')
g.add_argument('--jobs', type=int, default=7)
g = sp.add_parser('report')
g.add_argument('out')
a = ap.parse_args()
{'gen': gen, 'run': run, 'report': report}[a.cmd](a)
