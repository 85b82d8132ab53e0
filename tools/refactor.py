"""behaviour-preserving rewrites of a copy of the source, on which the checks have to stay quiet (development aid)

python3 tools/refactor.py SRC DST KIND ...   kinds: rename flipif forloop comp ret flipcmp wrap noop
then: LOP_SRC=DST python -m engine.run CNN
"""
import ast
import os
import shutil
import sys


class Rename(ast.NodeTransformer):
    """local variables (not parameters) get another name"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        params = {a.arg for a in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
        skip = set(params)
        loc = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
            if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                skip |= {a.arg for a in n.args.args}
                if isinstance(n, ast.FunctionDef):
                    skip.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                skip |= {(a.asname or a.name).split('.')[0] for a in n.names}
            if isinstance(n, ast.ExceptHandler) and n.name:
                skip.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                loc.add(n.id)
        loc -= skip
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc and not n.id.endswith('_v'):
                n.id = n.id + '_v'
        return f


class FlipIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body), n)
        return n


class ForLoop(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        ForLoop.k += 1
        l, i = '_l%d' % self.k, '_i%d' % self.k
        return [ast.parse('%s = list(%s)' % (l, ast.unparse(n.iter))).body[0],
                ast.For(ast.Name(i, ast.Store()), ast.parse('range(len(%s))' % l).body[0].value,
                        [ast.Assign([n.target], ast.parse('%s[%s]' % (l, i)).body[0].value)] + n.body, [])]


class Comp(ast.NodeTransformer):
    """list comprehension in an assignment -> loop with append"""
    k = 0

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1:
            g = v.generators[0]
            Comp.k += 1
            o = '_o%d' % self.k
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(o, ast.Load()), 'append', ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.parse(o + ' = []').body[0], ast.For(g.target, g.iter, body, []), ast.Assign(n.targets, ast.Name(o, ast.Load()))]
        return n


class Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name('_ret', ast.Store())], n.value), ast.Return(ast.Name('_ret', ast.Load()))]


class FlipCmp(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Wrap(ast.NodeTransformer):
    """every method / function calls an extracted helper"""

    def body(self, b, cls):
        out = []
        for f in b:
            if isinstance(f, ast.ClassDef):
                f.body = self.body(f.body, True)
            simple = isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.args.kwarg and not f.args.vararg \
                and not f.args.kwonlyargs and not f.name.startswith('__') \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) \
                and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f))
            if simple and (not cls or (f.args.args and f.args.args[0].arg == 'self')):
                h = ast.FunctionDef('_' + f.name + ('_of_' + self.cls if cls else '') + '_part', ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []),
                                    f.body, [], None, lineno=0)
                names = [a.arg for a in f.args.args]
                if cls:
                    call = 'self.%s(%s)' % (h.name, ', '.join(names[1:]))
                else:
                    call = '%s(%s)' % (h.name, ', '.join(names))
                f.body = [ast.parse('return ' + call).body[0]]
                out.append(h)
            out.append(f)
        return out

    def visit_ClassDef(self, n):
        self.cls = n.name
        n.body = self.body(n.body, True)
        return n

    def visit_Module(self, m):
        m.body = [self.visit_ClassDef(x) if isinstance(x, ast.ClassDef) else x for x in m.body]
        cl = [x for x in m.body]
        m.body = []
        for x in cl:
            m.body += [x] if isinstance(x, ast.ClassDef) else self.body([x], False)
        return m


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[i:i] = ast.parse('_unused = 0').body
        return f


K = dict(rename=Rename, flipif=FlipIf, forloop=ForLoop, comp=Comp, ret=Ret, flipcmp=FlipCmp, wrap=Wrap, noop=Noop)
if __name__ == '__main__':
    src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3:]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('__pycache__'))
    for d, _, fs in os.walk(dst):
        for f in fs:
            if f.endswith('.py') and f != '__init__.py':
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for k in kinds:
                    t = ast.fix_missing_locations(K[k]().visit(t))
                open(p, 'w').write(ast.unparse(t) + '\n')
