"""tools/refactor.py REPO: rewrites every python source file of a copy of the repository without changing its behaviour:
if/else turned around, counting loops as while loops, conditional expressions as statements, local variables renamed,
method bodies moved to helpers, comparisons mirrored, chained comparisons split into helpers, returns by a variable.
For checking that the checks stay quiet on it."""
import ast
import os
import sys


class Locals(ast.NodeVisitor):
    def __init__(self):
        self.names, self.bad = set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.bad.add('*')

    visit_Lambda = visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ClassDef = visit_FunctionDef

    def visit_Global(self, n):
        self.bad.update(n.names)

    visit_Nonlocal = visit_Global

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bad.add(n.name)
        self.generic_visit(n)


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


def calls(n, *names):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in names for x in ast.walk(n))


class T(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.fn = []

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            simple = lambda x: isinstance(x, (ast.Name, ast.Constant))
            M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            t = type(n.ops[0])
            if t in M and simple(l) and simple(r):
                return ast.Compare(r, [M[t]()], [l])
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        has = any(isinstance(x, (ast.Continue,)) for x in ast.walk(n))
        if (self.fn and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1
                and not n.orelse and not has and isinstance(n.target, ast.Name)):
            self.k += 1
            a, b = '_at%d' % self.k, '_end%d' % self.k
            return [ast.Assign([ast.Name(b, ast.Store())], it.args[0]),
                    ast.Assign([ast.Name(a, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(a, ast.Load()), [ast.Lt()], [ast.Name(b, ast.Load())]),
                              [ast.Assign([n.target], ast.Name(a, ast.Load()))] + n.body +
                              [ast.AugAssign(ast.Name(a, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.fn and isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(n.targets, v.orelse)])
        return n

    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            self.k += 1
            v = '_result%d' % self.k
            return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        self.generic_visit(n)
        self.fn.pop()
        L = Locals()
        for s in n.body:
            L.visit(s)
        args = set(a.arg for a in n.args.args + n.args.kwonlyargs)
        if '*' not in L.bad and not calls(n, 'locals', 'vars', 'eval', 'exec'):
            m = dict((x, x + '_') for x in L.names - args - L.bad if not x.startswith('_'))
            for s in n.body:
                Rename(m).visit(s)
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        body = []
        for f in n.body:
            if (isinstance(f, ast.FunctionDef) and f.name in ('read', 'write', 'copy', 'value_at', 'append', 'pop', 'read_object', 'write_object', 'add_mob',
                                                             'mark_modified', 'close', 'read_chunk', 'new_object_id')
                    and not f.decorator_list and not f.args.kwarg and not f.args.vararg and not calls(f, 'super')
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f))):
                g = ast.FunctionDef('_do_' + f.name, ast.arguments([], [ast.arg(a.arg) for a in f.args.args], None, [], [], None, []), f.body, [], None)
                f.body = [ast.Return(ast.Call(ast.Attribute(ast.Name(f.args.args[0].arg, ast.Load()), g.name, ast.Load()),
                                              [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]], []))]
                body.append(g)
            body.append(f)
        n.body = body
        return n


for root, dirs, files in os.walk(os.path.join(sys.argv[1], 'src')):
    for f in sorted(files):
        if f.endswith('.py'):
            p = os.path.join(root, f)
            s = open(p).read()
            t = ast.fix_missing_locations(T().visit(ast.parse(s)))
            # a method moved to a helper must be that of its own class, not of a derived one
            for c in ast.walk(t):
                if isinstance(c, ast.ClassDef):
                    for x in ast.walk(c):
                        if isinstance(x, ast.Attribute) and x.attr.startswith('_do_'):
                            x.attr = '_%s%s' % (c.name.lower(), x.attr)
                    for x in c.body:
                        if isinstance(x, ast.FunctionDef) and x.name.startswith('_do_'):
                            x.name = '_%s%s' % (c.name.lower(), x.name)
            open(p, 'w').write('# -*- coding: utf-8 -*-\n' + ast.unparse(ast.fix_missing_locations(t)) + '\n')
