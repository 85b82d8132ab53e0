"""python -m engine.run <PROPERTY> [--tier quick|thorough] [--case NAME]

Decides one property by bounded symbolic execution of /repo's current source.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import select
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
SRC = os.environ.get('LOP_SRC', '/repo/src')


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPATH'] = ROOT
        env.setdefault('NUMBA_DISABLE_JIT', '1')
        self.p = subprocess.Popen([sys.executable, '-m', 'engine.replay', '--server'], cwd=ROOT, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        l = self.p.stdout.readline()
        if l.strip() != 'ready':
            self.p = None
            raise RuntimeError('the concrete interpreter did not start')

    def ask(self, req, limit=60.0):
        if self.p is None:
            self.start()
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], limit)[0]:
            self.stop()
            return {'failed': ['the call does not return (no answer within %d s)' % limit], 'exc': None, 'obs': [],
                    'nchecks': 1}
        l = self.p.stdout.readline()
        if not l:
            self.p = None
            return {'error': 'concrete interpreter died'}
        return json.loads(l)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


class Shared:
    """state of one case's exploration"""

    def __init__(self, case, known):
        self.case = case
        self.known = known
        self.work = []
        self.transitions = 0
        self.checks = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.proved = set()
        self.inconclusive = []
        self.violations = []
        self.knownhits = []
        self.replays = 0
        self.rp = Replayer()
        self.errors = []

    def push(self, prefix):
        self.work.append(list(prefix))

    def request(self, ctx, env):
        return {'prop': self.case.prop, 'case': self.case.name, 'vals': {k: float(v) for k, v in env.items()},
                'choices': dict(ctx.choices)}

    def replay(self, ctx, env, label, exc=None):
        req = self.request(ctx, env)
        r = self.rp.ask(req)
        self.replays += 1
        if 'error' in r:
            self.errors.append('replay: ' + r['error'])
            return False
        # an exception outside the implementation (it returned something unusable) counts when the
        # real code leads to the same one
        if r.get('failed') or (r.get('exc') and (r.get('inlop') or (exc and r['exc'].split(':')[0] == exc))):
            lab = r['failed'][0] if r.get('failed') else r['exc']
            req['label'] = label
            req['observed'] = r
            for kf in self.known:
                if kf_match(kf, self.case, r, req):
                    self.knownhits.append(kf)
                    return True
            self.violations.append((lab, req))
            from .ctx import Violation
            raise Violation()
        return False


def kf_match(kf, case, r, req):
    if kf.get('status') != 'open' or kf['property'] != case.prop or kf['case'] != case.name:
        return False
    labs = list(r.get('failed', [])) + ([r['exc']] if r.get('exc') else [])
    return all(any(l.startswith(p) for p in kf['labels']) for l in labs)


def flatsym(v):
    """structure of observed values with terms collected"""
    import numpy as np
    from .sym import Sym, SymBool
    if isinstance(v, (Sym, SymBool)):
        return v
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, dict):
        return {str(k): flatsym(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [flatsym(x) for x in v]
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return flatsym(v[()])
        return [flatsym(x) for x in v]
    try:
        return float(v)
    except Exception:
        return repr(v)[:80]


def numval(v, env):
    from . import expr as X
    from .sym import Sym, SymBool
    if isinstance(v, (Sym, SymBool)):
        return X.evaluate([v.n], env)[0]
    if isinstance(v, dict):
        return {k: numval(x, env) for k, x in v.items()}
    if isinstance(v, list):
        return [numval(x, env) for x in v]
    return v


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (bool, type(None), str)) or isinstance(b, (bool, type(None), str)):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return True
        return a == b or abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))
    return False


def explore(case, deadline, conn, known):
    """runs in its own process"""
    os.setsid()
    res = {'case': case.name, 'bounds': case.bounds}
    t0 = time.time()
    sh = Shared(case, known)
    try:
        import numpy as np
        np.seterr(all='ignore')
        from . import ctx as C
        from . import shim, solve
        from . import sym
        import random as _r
        funcs = set()
        mon = sys.monitoring
        mon.use_tool_id(3, 'verif')

        def started(code, off):
            fn = code.co_filename
            if fn.startswith(SRC):
                funcs.add('%s:%s' % (os.path.relpath(fn, SRC), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, started)
        mon.set_events(3, mon.events.PY_START)
        lop = shim.load_lop(SRC)
        funcs.clear()
        mon.restart_events()
        sys.setrecursionlimit(20000)
        limit = time.time() + case.opts.get('budget', 1e9)
        dl = min(deadline, limit)
        sh.push([])
        signal.signal(signal.SIGALRM, C.on_alarm)
        paths = validated = cut = 0
        vtries = 0
        mismatches = []
        samples = []
        stop = None
        while sh.work:
            if time.time() > dl:
                stop = 'time budget exhausted with %d path prefixes pending' % len(sh.work)
                break
            prefix = sh.work.pop()
            S = C.SymCtx(case, dl, prefix, sh)
            S.lop = lop
            S.np = shim.numpy_shim
            S.prop = case.prop
            S.opts = case.opts
            S.restore = []
            for k, v in case.opts.get('ctx', {}).items():
                setattr(S, k, v)
            C.CUR[0] = S
            sym.set_engine(S)
            ended = False
            C.TICK[0] = time.time()
            try:
                signal.setitimer(signal.ITIMER_REAL, 5.0, 5.0)
                try:
                    case.fn(S)
                    ended = True
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except C.Hang:
                # no decision for a long time: does the real code return?
                env = S.env(S.model) if S.model is not None else {k: 0.5 for k in S.vars}
                try:
                    sh.replay(S, env, 'the call does not return')
                except C.Violation:
                    break
                stop = 'a path made no progress for %d s' % C.HANG
                break
            except C.PathEnd:
                cut += 1
            except C.Violation:
                break
            except C.BudgetExceeded:
                stop = 'time budget exhausted'
                break
            except RecursionError as e:
                sh.errors.append('recursion in symbolic run')
                break
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb[-5:]]
                try:
                    st = S.sat()
                except Exception:
                    st = 'unknown'
                if st == 'unsat':
                    cut += 1
                    continue
                conf = False
                try:
                    if not isinstance(e, AssertionError) or True:
                        env = S.env(S.model) if S.model is not None else {k: 0.5 for k in S.vars}
                        conf = sh.replay(S, env, 'exception %s: %s' % (type(e).__name__, e), type(e).__name__)
                except C.Violation:
                    break
                if conf:
                    continue
                sh.errors.append('%s: %s at %s' % (type(e).__name__, str(e)[:300], ' < '.join(reversed(where))))
                if len(sh.errors) > 3:
                    break
                continue
            finally:
                for o, k, v in reversed(S.restore):
                    setattr(o, k, v)
                C.CUR[0] = None
                sym.set_engine(None)
            if ended:
                paths += 1
                # validate the encoding: the same harness on the real code, on
                # inputs the solver chose for this path
                want = case.opts.get('validate', 4)
                if vtries < want or (vtries < 2 * want and paths % 37 == 0):
                    if S.sat() == 'sat' and S.model is not None:
                        vtries += 1
                        env = S.env(S.model)
                        try:
                            req = sh.request(S, env)
                            r = sh.rp.ask(req)
                        except Exception as e:
                            r = {'error': str(e)}
                        if 'error' in r:
                            sh.errors.append('replay: ' + r['error'])
                            break
                        if r.get('cut'):
                            continue
                        if r.get('failed') or r.get('exc'):
                            lab = r['failed'][0] if r.get('failed') else r['exc']
                            req['observed'] = r
                            req['label'] = lab
                            for kf in known:
                                if kf_match(kf, case, r, req):
                                    sh.knownhits.append(kf)
                                    break
                            else:
                                if r.get('exc') and not r.get('inlop') and not r.get('failed'):
                                    sh.errors.append('harness error in concrete run: %s %s' % (r['exc'], r.get('where')))
                                else:
                                    sh.violations.append((lab, req))
                                break
                            continue
                        fe = {k: float(v) for k, v in env.items()}
                        if len(r['obs']) == len(S.obs):
                            for (n, a), (n2, b) in zip(S.obs, r['obs']):
                                if not close(numval(flatsym(a), fe), b):
                                    # transcendental abstractions may put the
                                    # model on another path: only exact ones count
                                    if S._numeric_ok(env, __import__('engine.expr', fromlist=['x']).TRUE):
                                        mismatches.append((n, str(numval(flatsym(a), fe))[:200], str(b)[:200]))
                                    break
                            else:
                                if r['nchecks'] > 0:
                                    validated += 1
                        elif r['nchecks'] > 0:
                            validated += 1
                        if len(samples) < 2:
                            samples.append({'case': case.name, 'inputs': {k: round(v, 6) for k, v in list(fe.items())[:16]},
                                            'choices': dict(list(S.choices.items())[:12]), 'checks': r['nchecks']})
        if mismatches:
            sh.errors.append('encoding disagrees with the implementation: %r' % (mismatches[:3],))
        if not sh.violations and not sh.errors and not stop:
            if paths == 0:
                sh.errors.append('vacuous: no feasible path')
            elif sh.checks == 0:
                sh.errors.append('vacuous: no check reached')
            elif validated == 0 and not sh.knownhits:
                sh.errors.append('vacuous: no path validated on the real code')
        res.update(paths=paths, cut=cut, transitions=sh.transitions, checks=sh.checks, obligations=sh.obligations,
                   discharged=sh.discharged, trivial=sh.trivial, inconclusive=sh.inconclusive[:5], ninc=len(sh.inconclusive),
                   errors=sh.errors[:5], stop=stop, violations=[(l, r) for l, r in sh.violations],
                   known=[k['id'] for k in sh.knownhits], validated=validated, replays=sh.replays, samples=samples,
                   functions=sorted(funcs), stats=dict(solve.STATS), wall=time.time() - t0)
    except BaseException as e:
        res.update(errors=['engine: ' + traceback.format_exc()[-1500:]], paths=0, stop=None, violations=[], known=[],
                   validated=0, replays=0, samples=[], functions=[], stats={}, wall=time.time() - t0, cut=0,
                   transitions=0, checks=0, obligations=0, discharged=0, trivial=0, inconclusive=[], ninc=0)
    finally:
        sh.rp.stop()
    conn.send(res)
    conn.close()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--time', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    a = ap.parse_args()
    t0 = time.time()
    total = a.time or (820 if a.tier == 'quick' else 860)
    deadline = t0 + total
    from . import api
    cases = [c for c in api.load(a.prop) if c.tier == 'quick' or a.tier == 'thorough']
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    known = []
    kp = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(kp):
        known = [json.loads(l) for l in open(kp) if l.strip()]
    results = []
    pend = sorted(cases, key=lambda c: -c.opts.get('weight', 1))
    live = []
    ctxm = mp.get_context('fork')
    found = False
    while pend or live:
        while pend and len(live) < a.jobs and not found:
            c = pend.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=explore, args=(c, deadline - 5, w, known))
            p.start()
            w.close()
            live.append((c, p, r))
        if found:
            pend = []
        progressed = False
        for it in list(live):
            c, p, r = it
            got = None
            if r.poll(0):
                try:
                    got = r.recv()
                except EOFError:
                    got = {'case': c.name, 'errors': ['worker died'], 'violations': []}
            elif time.time() > deadline + 15:
                got = {'case': c.name, 'errors': ['worker overran the deadline'], 'violations': []}
            if got is not None:
                live.remove(it)
                kill(p)
                results.append(got)
                progressed = True
                if a.v:
                    print('  %-40s paths=%s obl=%s/%s q=%s val=%s %.1fs%s' % (
                        c.name[:40], got.get('paths'), got.get('discharged'), got.get('obligations'),
                        got.get('stats', {}).get('queries'), got.get('validated'), got.get('wall', 0),
                        ' VIOL' if got.get('violations') else (' ERR' if got.get('errors') or got.get('ninc') or got.get('stop') else '')),
                        flush=True)
                if got.get('violations'):
                    found = not a.all
        if not progressed:
            time.sleep(0.02)
        if found and live:
            # let running cases finish only briefly
            t1 = time.time()
            while live and time.time() - t1 < 2:
                for it in list(live):
                    if it[2].poll(0):
                        try:
                            results.append(it[2].recv())
                        except EOFError:
                            pass
                        live.remove(it)
                        kill(it[1])
                time.sleep(0.05)
            for it in live:
                kill(it[1])
            live = []
    # ------------------------------------------------------------ report
    viol = [(l, r) for x in results for l, r in x.get('violations', [])]
    errs, unex, bad = [], [], set()
    for x in results:
        for e in x.get('errors', []):
            # constructs the executor does not model, and solver timeouts, leave
            # a case (partly) unexplored; everything else is an internal error
            if 'Unsupported' in e or e.startswith('vacuous'):
                unex.append('%s: %s' % (x['case'], e))
            else:
                errs.append('%s: %s' % (x['case'], e))
            bad.add(x['case'])
        if x.get('stop'):
            unex.append('%s: %s' % (x['case'], x['stop']))
            bad.add(x['case'])
        for i in x.get('inconclusive', []):
            unex.append('%s: undecided: %s' % (x['case'], i))
            bad.add(x['case'])
    if unex and 2 * len(bad) > len(results):
        errs += unex
    tot = lambda k: sum(x.get(k, 0) or 0 for x in results)
    st = {}
    for x in results:
        for k, v in x.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
    funcs = sorted({f for x in results for f in x.get('functions', [])})
    wall = time.time() - t0
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot('paths') + tot('cut'), 'transitions': tot('transitions'),
            'traces_validated_against_impl': tot('validated'),
            'samples': [s for x in results for s in x.get('samples', [])][:6],
            'symbolic_paths_completed': tot('paths'), 'paths_cut_infeasible': tot('cut'),
            'check_evaluations': tot('checks'), 'obligations': tot('obligations'), 'discharged': tot('discharged'),
            'decided_by_term_rewriting_alone': tot('trivial'),
            'solver_queries': st.get('queries', 0), 'solver_unsat': st.get('unsat', 0), 'solver_sat': st.get('sat', 0),
            'solver_unknown': st.get('unknown', 0), 'congruence_lemmas': st.get('lemmas', 0),
            'solver_time_s': round(st.get('time', 0.0), 2),
            'counterexample_replays': tot('replays'),
            'functions_encoded': funcs,
            'bounds': {x['case']: x.get('bounds', '') for x in results},
            'cases': [{'case': x['case'], 'paths': x.get('paths'), 'obligations': x.get('obligations'),
                       'discharged': x.get('discharged'), 'wall_s': round(x.get('wall', 0), 2)} for x in results],
        },
        'not_explored': unex[:40],
        'assumptions': ASSUME + ([] if not errs else ['THIS RUN HAD ERRORS: ' + '; '.join(errs)[:800]]),
        'wall_s': round(wall, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.case:
        with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s cases=%d paths=%d obligations=%d discharged=%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (
        a.prop, a.tier, len(results), tot('paths'), tot('obligations'), tot('discharged'), st.get('queries', 0),
        st.get('time', 0.0), tot('validated'), wall))
    kn = {}
    for x in results:
        for k in x.get('known', []):
            kn[k] = 1
    for kf in known:
        if kf['id'] in kn and kf['property'] == a.prop:
            print('KNOWN-FINDING: property=%s %s %s' % (a.prop, kf['id'], kf['what']))
    if viol:
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        for lab, req in viol[:5] if not a.all else viol:
            h = hashlib.sha1(json.dumps(req, sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(d, '%s-%s.json' % (a.prop, h))
            with open(p, 'w') as f:
                json.dump(req, f, indent=1, default=str)
            print('counterexample in case %r: %s' % (req['case'], lab))
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
        sys.exit(1)
    for e in unex[:20]:
        print('NOT-EXPLORED', e[:700])
    if errs:
        for e in errs[:12]:
            print('ERROR', e[:1200])
        sys.exit(2)
    sys.exit(0)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.kill()
    except Exception:
        pass
    p.join(2)


ASSUME = [
    'values are real numbers: floating-point rounding, overflow and underflow are outside the claim unless a case models them',
    'NumPy/SciPy primitives follow their documented contracts (arrays are executed by NumPy itself on symbolic elements; '
    'exp, log, Phi, gamma functions are uninterpreted with sign/monotonicity/identity axioms; linear solves are exact)',
    'divisors met on a path are non-zero and Cholesky pivots positive unless the case checks them',
    'sizes (points, dimensions, queries, steps) are as listed under bounds; larger sizes are outside the claim',
    'random sources return any value of their documented range',
]

if __name__ == '__main__':
    main()
