"""which lines of the code under test the symbolic runs execute (development aid)

python3 tools/linecov.py run C02 [engine.run arguments]   records the lines executed into /tmp/lc/C02
python3 tools/linecov.py report                            lists, per function, the lines no recorded run executed
"""
import ast
import glob
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('LOP_SRC', '/repo/src')
OUT = '/tmp/lc'


def run():
    os.makedirs(OUT, exist_ok=True)
    fd = os.open(os.path.join(OUT, sys.argv[1]), os.O_CREAT | os.O_APPEND | os.O_WRONLY | os.O_TRUNC)
    m = sys.monitoring
    m.use_tool_id(4, 'linecov')

    def line(code, n):
        if code.co_filename.startswith(SRC):
            os.write(fd, ('%s:%d\n' % (code.co_filename[len(SRC) + 1:], n)).encode())
        return m.DISABLE
    m.register_callback(4, m.events.LINE, line)
    m.set_events(4, m.events.LINE)
    sys.path.insert(0, ROOT)
    os.chdir(ROOT)
    import runpy
    runpy.run_module('engine.run', run_name='__main__')


def report():
    seen = set()
    for f in glob.glob(OUT + '/C*'):
        seen |= set(open(f).read().split())
    for p in sorted(glob.glob(SRC + '/lop/**/*.py', recursive=True)):
        rel = p[len(SRC) + 1:]
        t = ast.parse(open(p).read())
        for n in ast.walk(t):
            if not isinstance(n, ast.FunctionDef):
                continue
            ls = {s.lineno for b in n.body for s in ast.walk(b) if isinstance(s, ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef))
                  and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
            miss = sorted(i for i in ls if '%s:%d' % (rel, i) not in seen)
            if miss:
                print('%s %s %d/%d: %s' % (rel, n.name, len(miss), len(ls), 'ALL' if len(miss) == len(ls) else miss))


if __name__ == '__main__':
    sys.argv.pop(0)
    k = sys.argv.pop(0)
    if k == 'run':
        sys.argv.insert(0, sys.argv[0])
        sys.argv[0] = sys.argv[1]
        sys.argv = ['engine.run'] + sys.argv[1:]
        run()
    else:
        report()
