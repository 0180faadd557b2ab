#!/usr/bin/env python3
"""mutate.py CHECK[,CHECK] FILE:FUNC... : one-edit mutants of the functions
(FILE below src/disseminate; FUNC a name, or Class.name, or * for all); prints
those that no check reports."""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = '/repo/src'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def funcs(tree, want):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                m._cls = n.name if isinstance(m, ast.FunctionDef) else None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            c = getattr(n, '_cls', None)
            q = (c + '.' if c else '') + n.name
            if '*' in want or q in want or n.name in want:
                yield n


def mutants(fn):
    """(description, undoable edit) pairs: edit() -> undo()"""
    out = []

    def setter(node, field, val, desc):
        def do():
            old = getattr(node, field)
            setattr(node, field, val(old) if callable(val) else val)
            return lambda: setattr(node, field, old)
        out.append(('L%d %s' % (getattr(node, 'lineno', 0), desc), do))

    def item(lst, i, new, desc, line):
        def do():
            old = lst[i]
            if new is None:
                lst[i] = ast.copy_location(ast.Pass(), old)
            else:
                lst[i] = new
            def undo():
                lst[i] = old
            return undo
        out.append(('L%d %s' % (line, desc), do))
    stored = [n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and
              isinstance(n.ctx, ast.Store)]

    def single(s):
        return isinstance(s, (ast.Assign, ast.AnnAssign)) and any(
            isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and
            stored.count(x.id) == 1 for x in ast.walk(s))
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if not isinstance(s, ast.stmt):
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value,
                                                          ast.Constant):
                    continue
                if isinstance(s, (ast.FunctionDef, ast.Import,
                                  ast.ImportFrom, ast.Pass)):
                    continue
                src = ast.unparse(s).split('\n')[0][:70]
                if 'logging.' in src or src.startswith('msg ='):
                    continue
                if single(s):
                    continue
                item(b, i, None, 'delete: ' + src, s.lineno)
                if isinstance(s, ast.If) and s.body and not s.orelse:
                    pass
                if i + 1 < len(b) and isinstance(b[i + 1], ast.stmt) and \
                        not isinstance(s, ast.Return):
                    def do(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                        def undo():
                            b[i], b[i + 1] = b[i + 1], b[i]
                        return undo
                    out.append(('L%d swap with next: %s' % (
                        s.lineno, src), do))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = ast.unparse(n.test)[:70]
            setter(n, 'test', lambda o: ast.copy_location(
                ast.UnaryOp(ast.Not(), o), o), 'negate: ' + t)
            if not isinstance(n, ast.While):
                setter(n, 'test', lambda o: ast.copy_location(
                    ast.Constant(True), o), 'always: ' + t)
            setter(n, 'test', lambda o: ast.copy_location(
                ast.Constant(False), o), 'never: ' + t)
        if isinstance(n, ast.comprehension):
            for i, c in enumerate(n.ifs):
                item(n.ifs, i, ast.copy_location(ast.Constant(True), c),
                     'drop filter: ' + ast.unparse(c)[:60], c.lineno)
        if isinstance(n, ast.BoolOp):
            setter(n, 'op', ast.Or() if isinstance(n.op, ast.And)
                   else ast.And(), 'and<->or: ' + ast.unparse(n)[:70])
            for i in range(len(n.values)):
                def do(n=n, i=i):
                    old = n.values
                    n.values = old[:i] + old[i + 1:]
                    if len(n.values) == 1:
                        n.values = n.values * 2
                    def undo():
                        n.values = old
                    return undo
                out.append(('L%d drop operand %d: %s' % (
                    n.lineno, i, ast.unparse(n)[:70]), do))
        if isinstance(n, ast.Compare):
            sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE,
                  ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
                  ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
                  ast.IsNot: ast.Is}
            o = type(n.ops[0])
            if o in sw:
                setter(n, 'ops', [sw[o]()], 'compare: ' +
                       ast.unparse(n)[:70])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            pass
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                setter(n, 'value', not v, 'const %r' % v)
            elif isinstance(v, int):
                setter(n, 'value', v + 1, 'const %r' % v)
            elif isinstance(v, str) and v and len(v) < 60 and \
                    not hasattr(n, '_doc'):
                setter(n, 'value', v + 'x', 'const %r' % v)
            elif v is None:
                setter(n, 'value', 0, 'const None')
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd,
                  ast.BitAnd: ast.BitOr}
            if type(n.op) in sw:
                setter(n, 'op', sw[type(n.op)](), 'op: ' +
                       ast.unparse(n)[:70])
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                def do(n=n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                    def undo():
                        n.args[0], n.args[1] = n.args[1], n.args[0]
                    return undo
                out.append(('L%d swap args: %s' % (
                    n.lineno, ast.unparse(n)[:70]), do))
            for i, k in enumerate(n.keywords):
                def do(n=n, i=i):
                    old = n.keywords
                    n.keywords = old[:i] + old[i + 1:]
                    def undo():
                        n.keywords = old
                    return undo
                out.append(('L%d drop keyword %s: %s' % (
                    n.lineno, k.arg, ast.unparse(n)[:70]), do))
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'copy', 'strip', 'lower', 'items', 'values') and \
                    not n.args:
                pass
    return out


def main():
    checks = sys.argv[1].split(',')
    jobs = []
    for spec in sys.argv[2:]:
        path, fns = spec.split(':')
        full = os.path.join(SRC, 'disseminate', path)
        tree = ast.parse(open(full).read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                n.value._doc = True
        for fn in funcs(tree, fns.split(',')):
            doc = ast.get_docstring(fn)
            for desc, do in mutants(fn):
                undo = do()
                try:
                    new = ast.unparse(ast.fix_missing_locations(tree))
                    compile(new, path, 'exec')
                    jobs.append((path, fn.name + ' ' + desc, new))
                except Exception:
                    pass
                undo()
    base = tempfile.mkdtemp(prefix='mut')
    orig = ast.unparse(ast.parse(open(full).read()))

    def run(j):
        i, (path, desc, new) = j
        d = os.path.join(base, 'm%d' % i)
        subprocess.run(['cp', '-rs', SRC, d], check=True)
        p = os.path.join(d, 'disseminate', path)
        os.remove(p)
        open(p, 'w').write(new)
        res = []
        for c in checks:
            try:
                r = subprocess.run(
                    ['python3', os.path.join(HERE, 'check.py'), c],
                    env=dict(os.environ, VERIF_SRC=d, VERIF_EV=d + '_ev'),
                    capture_output=True, text=True, timeout=300)
                res.append(r.returncode)
            except subprocess.TimeoutExpired:
                res.append(9)
            if res[-1] == 1:
                break
        shutil.rmtree(d)
        shutil.rmtree(d + '_ev', ignore_errors=True)
        return path, desc, res
    n = k = 0
    with ThreadPoolExecutor(8) as ex:
        for path, desc, res in ex.map(run, enumerate(jobs)):
            n += 1
            if 1 in res:
                k += 1
            else:
                print('%s %s: %s' % (res, os.path.basename(path), desc))
    shutil.rmtree(base, ignore_errors=True)
    print('%d mutants, %d reported' % (n, k))


if __name__ == '__main__':
    main()
