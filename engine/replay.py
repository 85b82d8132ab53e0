"""Concrete side: runs a harness case on the unmodified /repo code with NumPy.

  python -m engine.replay FILE.json      re-run one recorded counterexample
  python -m engine.replay --server       JSON-lines server used by the checks
"""
import json
import os
import sys
import traceback
import types
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)


def setup():
    src = os.environ.get('LOP_SRC', '/repo/src')
    sys.path.insert(0, src)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import scipy.special
    import scipy.stats
    try:
        import approxcdf  # noqa: F401
    except ImportError:
        m = types.ModuleType('approxcdf')

        def _ax(k):
            def f(*a, **kw):
                from engine import ctx
                h = getattr(ctx.cur(), 'approxcdf', None)
                if h is None:
                    raise RuntimeError('approxcdf is not installed')
                return h(k, *a, **kw)
            return f
        m.__getattr__ = _ax
        sys.modules['approxcdf'] = m
    import random
    for name in ('numpy', 'scipy', 'numba', 'pingouin', 'matplotlib.pyplot', 'tqdm'):
        try:
            __import__(name)
        except ImportError:
            pass
    import scipy.integrate

    def hooked(real):
        def f(*a, **kw):
            from engine import ctx
            h = getattr(ctx.cur(), 'quad', None)
            return real(*a, **kw) if h is None else h(*a, **kw)
        return f
    for k in ('quad', 'quad_vec'):
        setattr(scipy.integrate, k, hooked(getattr(scipy.integrate, k)))
    import lop
    from engine import shim
    # random sources return what the solver chose
    R = shim.RANDOM
    for k in ('random', 'random_sample', 'rand', 'randn', 'normal', 'standard_normal', 'uniform', 'beta', 'gamma',
              'exponential', 'multivariate_normal', 'randint', 'choice', 'permutation', 'shuffle', 'seed',
              'default_rng', 'RandomState'):
        setattr(np.random, k, getattr(R, k))
    P = shim.PYRANDOM
    for k in ('random', 'uniform', 'gauss', 'normalvariate', 'randint', 'randrange', 'choice', 'choices', 'sample',
              'shuffle', 'seed'):
        setattr(random, k, getattr(P, k))
    return lop


def flat(v):
    import numpy as np
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, dict):
        return {str(k): flat(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, np.ndarray):
        return [flat(x) for x in v]
    if isinstance(v, (np.bool_,)):
        return bool(v)
    try:
        return float(v)
    except Exception:
        return repr(v)[:80]


def run_one(req, lop):
    from engine import api, ctx
    key = req['prop']
    cs = _cases.get(key)
    if cs is None:
        cs = _cases[key] = {c.name: c for c in api.load(key)}
    c = cs[req['case']]
    S = ctx.ConcCtx(req['vals'], req['choices'], tol=c.opts.get('tol', 1e-6))
    S.lop = lop
    import numpy as np
    S.np = np
    S.prop = c.prop
    S.opts = c.opts
    S.restore = []
    S.u_low = c.opts.get('ctx', {}).get('u_low', 0.0)
    S.max_draws = c.opts.get('ctx', {}).get('max_draws', 10 ** 9)
    ctx.CUR[0] = S
    res = {}
    try:
        c.fn(S)
    except ctx.PathEnd:
        res['cut'] = True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inlop = [f for f in tb if '/lop/' in f.filename]
        res['exc'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        res['where'] = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb[-4:]]
        res['inlop'] = bool(inlop)
    finally:
        for o, k, v in reversed(S.restore):
            setattr(o, k, v)
        ctx.CUR[0] = None
    res['failed'] = S.failed
    res['nchecks'] = S.nchecks
    res['obs'] = [(n, flat(v)) for n, v in S.obs]
    return res


_cases = {}


def main():
    if sys.argv[1] == '--server':
        out = os.fdopen(os.dup(1), 'w')
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        sys.stdout = open(os.devnull, 'w')
        lop = setup()
        out.write('ready\n')
        out.flush()
        for line in sys.stdin:
            try:
                r = run_one(json.loads(line), lop)
            except Exception:
                r = {'error': traceback.format_exc()[-1500:]}
            out.write(json.dumps(r) + '\n')
            out.flush()
    else:
        lop = setup()
        req = json.load(open(sys.argv[1]))
        import signal

        def late(*a):
            print('the call did not return within 120 s\nREPRODUCED', flush=True)
            os._exit(1)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(120)
        r = run_one(req, lop)
        print(json.dumps({'inputs': req['vals'], 'choices': req['choices'], 'result': r}, indent=1))
        bad = bool(r['failed']) or 'exc' in r
        print('REPRODUCED' if bad else 'not reproduced')
        sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
