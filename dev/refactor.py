#!/usr/bin/env python3
"""Behaviour-preserving rewrites of a whole source tree, to test that the
checks judge what the code does.  refactor.py SRC DST KIND"""
import ast
import copy
import os
import sys

KINDS = ['noop', 'temp_ret', 'temp_args', 'invert_if', 'else_return',
         'compr_loop', 'or_ifexp', 'rename', 'demorgan', 'kw_reverse',
         'extract_tail', 'extract_cond', 'return_ifexp', 'dict_call',
         'const_hoist', 'neg_cmp', 'fstring', 'alias_self', 'split_and',
         'ternary_stmt', 'unparse', 'extract_body', 'kw_pos', 'items_loop',
         'not_not']


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
            (ctx is None or isinstance(x.ctx, ctx))}


def simple(f):
    """functions that can be rewritten: no generators, nested defs keep"""
    return not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await,
                                  ast.AsyncFunctionDef)) for x in ast.walk(f))


def locs(f):
    a = f.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    params = set(out)
    st = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,
                                                          ast.Del)):
            st.add(x.id)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            st.add(x.name)
    gl = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal))
          for n in x.names}
    return params, st - gl


class Stmts(ast.NodeTransformer):
    """calls self.stmt on every statement of function bodies, which gives a
    list of statements or None"""
    n = 0

    def fresh(self, p='tmp_value'):
        Stmts.n += 1
        return '%s_%d' % (p, Stmts.n)

    def block(self, body):
        out = []
        for s in body:
            s = self.generic_visit(s) if not isinstance(
                s, (ast.FunctionDef, ast.ClassDef)) else s
            r = self.stmt(s)
            out += [s] if r is None else r
        return out

    def generic_visit(self, n):
        for field in ('body', 'orelse', 'finalbody'):
            v = getattr(n, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, field, self.block(v))
        for h in getattr(n, 'handlers', []):
            h.body = self.block(h.body)
        return n

    def stmt(self, s):
        return None

    def func(self, f):
        f.body = self.block(f.body)


def name(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


def assign(n, v):
    return ast.Assign(targets=[name(n, ast.Store())], value=v)


def has_super(n):
    return any(isinstance(x, ast.Name) and x.id in ('super', '__class__')
               for x in ast.walk(n))


class Noop(Stmts):
    def func(self, f):
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(
            f.body[0].value, ast.Constant) else 0
        f.body.insert(i, assign('unused_marker', ast.Constant(None)))
        f.body.insert(i + 1, ast.If(test=ast.Constant(False),
                                    body=[ast.Pass()], orelse=[]))


class TempRet(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and \
                not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh('result')
            return [assign(t, s.value), ast.Return(value=name(t))]


class TempArgs(Stmts):
    def stmt(self, s):
        v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) \
            else None
        if isinstance(v, ast.Call):
            pre = []
            # evaluation order: arguments left to right after the function
            if isinstance(v.func, ast.Attribute) and not isinstance(
                    v.func.value, (ast.Name, ast.Call)) or has_super(v):
                return None
            if isinstance(v.func, ast.Attribute) and isinstance(
                    v.func.value, ast.Call):
                return None
            for i, a in enumerate(v.args):
                if isinstance(a, ast.Starred):
                    break
                if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda)):
                    t = self.fresh('arg')
                    pre.append(assign(t, a))
                    v.args[i] = name(t)
            for k in v.keywords:
                if k.arg and not isinstance(k.value, (ast.Constant, ast.Name,
                                                      ast.Lambda)):
                    t = self.fresh('arg')
                    pre.append(assign(t, k.value))
                    k.value = name(t)
            return pre + [s]


class InvertIf(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (
                len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            t = s.test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            else:
                t = ast.UnaryOp(op=ast.Not(), operand=t)
            return [ast.If(test=t, body=s.orelse, orelse=s.body)]


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue,
                              ast.Break)) or (
        isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and
        ends(b[-1].orelse))


class ElseReturn(Stmts):
    """else after return is dedented; or code after a returning if is put
    into an else"""
    def block(self, body):
        out = []
        for i, s in enumerate(body):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.generic_visit(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                rest = s.orelse
                s.orelse = []
                out += [s] + rest
            elif isinstance(s, ast.If) and not s.orelse and ends(s.body) and \
                    body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                return out + [s]
            else:
                out.append(s)
        return out


class ComprLoop(Stmts):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                v, (ast.ListComp, ast.SetComp, ast.DictComp)) and \
                len(v.generators) == 1:
            g = v.generators[0]
            # the loop variable must not clash with a local
            if self.locals & names(g.target):
                return None
            t = self.fresh('collected')
            if isinstance(v, ast.DictComp):
                init = ast.Dict(keys=[], values=[])
                add = ast.Assign(targets=[ast.Subscript(
                    value=name(t), slice=v.key, ctx=ast.Store())],
                    value=v.value)
            else:
                init = ast.List(elts=[], ctx=ast.Load()) if isinstance(
                    v, ast.ListComp) else ast.Call(func=name('set'), args=[],
                                                   keywords=[])
                add = ast.Expr(ast.Call(func=ast.Attribute(
                    value=name(t), attr='append' if isinstance(
                        v, ast.ListComp) else 'add', ctx=ast.Load()),
                    args=[v.elt], keywords=[]))
            body = [add]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            s.value = name(t)
            return [assign(t, init), ast.For(
                target=g.target, iter=g.iter, body=body, orelse=[]), s]

    def func(self, f):
        p, st = locs(f)
        comps = {n for x in ast.walk(f) if isinstance(
            x, ast.comprehension) for n in names(x.target)}
        rest = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.For, ast.With)):
                for y in ast.walk(x.targets[0] if isinstance(
                        x, ast.Assign) else x.target if hasattr(
                            x, 'target') else ast.Pass()):
                    if isinstance(y, ast.Name):
                        rest.add(y.id)
        self.locals = p | rest
        super().func(f)


class OrIfexp(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(
                n.values[0], (ast.Name, ast.Attribute)):
            return ast.IfExp(test=n.values[0],
                             body=copy.deepcopy(n.values[0]),
                             orelse=n.values[1])
        return n


class Rename(ast.NodeTransformer):
    def func(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
               for x in ast.walk(f) if x is not f):
            return
        if 'locals' in names(f):
            return
        p, st = locs(f)
        st = {x for x in st - p}
        gl = {n for x in ast.walk(f) if isinstance(x, (
            ast.Import, ast.ImportFrom)) for a in x.names
            for n in (a.asname or a.name,)}
        st -= gl
        m = {x: 'local_' + x for x in st}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]


class DeMorgan(ast.NodeTransformer):
    """tests of ifs only, where truth counts"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(
                op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v)
                               for v in t.values]))
        return n


class KwReverse(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords) and all(isinstance(
                k.value, (ast.Name, ast.Constant, ast.Attribute))
                for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


class ExtractTail(Stmts):
    """the second half of a function becomes a helper"""
    part = 2

    def func(self, f):
        self.extra = None
        b = f.body
        i0 = 1 if isinstance(b[0], ast.Expr) and isinstance(
            b[0].value, ast.Constant) else 0
        n = len(b) - i0
        if n < 2:
            return
        i = i0 + n // self.part
        if i <= i0 and self.part != 1000:
            i = i0 + 1
        if self.part == 1000:
            i = i0
        tail = b[i:]
        if any(has_super(s) for s in tail):
            return
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in
               ast.walk(f)):
            return
        if any(isinstance(x, ast.Name) and x.id == 'locals' for s in tail
               for x in ast.walk(s)):
            return
        head = b[:i]
        p, st = locs(f)
        have = set(p)
        for s in head:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    have.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    have.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    have |= {(a.asname or a.name).split('.')[0]
                             for a in x.names}
        comps = {y for s in head for x in ast.walk(s) if isinstance(
            x, ast.comprehension) for y in names(x.target)}
        used = set().union(*[names(s) for s in tail])
        # variables that may be unset on some path cannot be passed
        sure = set(p)
        for s in head:
            for t in ([s] if isinstance(s, ast.Assign) else []):
                for x in t.targets:
                    sure |= names(x, ast.Store)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                sure.add(s.name)
            if isinstance(s, ast.If) and s.orelse:
                def assigned(b):
                    o = set()
                    for q in b:
                        if isinstance(q, ast.Assign):
                            for x in q.targets:
                                o |= names(x, ast.Store)
                    return o
                sure |= assigned(s.body) & assigned(s.orelse)
        args = sorted(used & have)
        if not set(args) <= sure:
            return
        is_m = self.cls is not None
        deco = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
        if is_m and ('staticmethod' in deco or 'classmethod' in deco):
            is_m = False
        hn = '_%s_rest' % f.name.strip('_')
        if self.cls is not None:
            hn = '_%s_%s' % (self.cls.lower(), hn.strip('_'))
        if is_m:
            me = f.args.args[0].arg if f.args.args else None
            if me is None:
                return
            args = [me] + [a for a in args if a != me]
        h = ast.FunctionDef(
            name=hn, args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail,
            decorator_list=[], type_params=[])
        ret = any(isinstance(x, ast.Return) and x.value is not None
                  for s in tail for x in ast.walk(s))
        fn = ast.Attribute(value=name(args[0]), attr=hn, ctx=ast.Load()) \
            if is_m else name(hn)
        call = ast.Call(func=fn, args=[name(a) for a in args[
            1 if is_m else 0:]], keywords=[])
        f.body = head + [ast.Return(value=call) if ret else ast.Expr(call)]
        self.extra = (h, is_m)


class ExtractBody(ExtractTail):
    part = 1000


class ExtractCond(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            t = self.fresh('condition')
            test = s.test
            s.test = name(t)
            return [assign(t, test), s]


class ReturnIfexp(Stmts):
    """return a if c else b -> if c: return a else: return b"""
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return [ast.If(test=s.value.test,
                           body=[ast.Return(value=s.value.body)],
                           orelse=[ast.Return(value=s.value.orelse)])]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return [ast.If(test=s.value.test, body=[ast.Assign(
                targets=s.targets, value=s.value.body)], orelse=[ast.Assign(
                    targets=s.targets, value=s.value.orelse)])]


class TernaryStmt(Stmts):
    """if c: x = a else: x = b -> x = a if c else b; same for returns"""
    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and \
                    len(a.targets) == len(b.targets) == 1:
                return [ast.Assign(targets=a.targets, value=ast.IfExp(
                    test=s.test, body=a.value, orelse=b.value))]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and \
                    a.value and b.value:
                return [ast.Return(value=ast.IfExp(
                    test=s.test, body=a.value, orelse=b.value))]


class DictCall(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.keywords and not n.args:
            if n.func.id == 'dict':
                return ast.Dict(keys=[], values=[])
            if n.func.id == 'list':
                return ast.List(elts=[], ctx=ast.Load())
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        return n


class ConstHoist(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) or \
                isinstance(s, ast.Return) and isinstance(
                    getattr(s, 'value', None), ast.BinOp):
            v = s.value
            t = self.fresh('left')
            pre = [assign(t, v.left)]
            v.left = name(t)
            return pre + [s]


class NegCmp(ast.NodeTransformer):
    M = {ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
         ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
    SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op = type(n.ops[0])
            if op in self.M and op is not ast.Eq and op is not ast.NotEq:
                return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(
                    left=n.left, ops=[self.M[op]()],
                    comparators=n.comparators))
            if op in self.SW:
                return ast.Compare(left=n.comparators[0],
                                   ops=[self.SW[op]()],
                                   comparators=[n.left])
            if op in (ast.Eq, ast.NotEq):
                return ast.Compare(left=n.comparators[0], ops=[op()],
                                   comparators=[n.left])
        return n


class Fstring(ast.NodeTransformer):
    def visit_BinOp(self, n):
        parts = []

        def flat(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                return flat(x.left) + flat(x.right)
            return [x]
        if isinstance(n.op, ast.Add):
            ps = flat(n)
            if len(ps) >= 3 and any(isinstance(x, ast.Constant) and
                                    isinstance(x.value, str) for x in ps) \
                    and all(isinstance(x, (ast.Constant, ast.Name))
                            for x in ps) and not any(
                        isinstance(x, ast.Constant) and not isinstance(
                            x.value, str) for x in ps):
                vals = [x if isinstance(x, ast.Constant) else
                        ast.FormattedValue(value=x, conversion=-1)
                        for x in ps]
                return ast.JoinedStr(values=vals)
        self.generic_visit(n)
        return n


class AliasSelf(Stmts):
    """context = self.context style aliases of attributes read often"""
    def func(self, f):
        if not f.args.args or f.args.args[0].arg != 'self':
            return
        stored = {x.attr for x in ast.walk(f) if isinstance(
            x, ast.Attribute) and not isinstance(x.ctx, ast.Load)}
        if any(isinstance(x, ast.Call) for x in ast.walk(f)) and \
                f.name in ('__init__', '__new__'):
            return
        use = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.value, ast.Name) and x.value.id == 'self' and \
                    x.attr in ('content', 'attributes') and \
                    x.attr not in stored:
                use.setdefault(x.attr, []).append(x)
        for a, xs in use.items():
            nm = 'own_' + a

            class R(ast.NodeTransformer):
                def visit_Attribute(s, n):
                    if isinstance(n.value, ast.Name) and \
                            n.value.id == 'self' and n.attr == a:
                        return name(nm)
                    s.generic_visit(n)
                    return n
            f.body = [R().visit(s) for s in f.body]
            i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(
                f.body[0].value, ast.Constant) else 0
            f.body.insert(i, assign(nm, ast.Attribute(
                value=name('self'), attr=a, ctx=ast.Load())))


class SplitAnd(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and \
                isinstance(s.test.op, ast.And) and not s.orelse:
            b = s.body
            for v in reversed(s.test.values):
                b = [ast.If(test=v, body=b, orelse=[])]
            return b


class Unparse(Stmts):
    pass


class KwPos(ast.NodeTransformer):
    """f(x=x) of same-module functions is not touched; getattr defaults"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and \
                len(n.args) == 1 and not n.keywords:
            n.args.append(ast.Constant(None))
        return n


class ItemsLoop(Stmts):
    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Attribute) and \
                s.iter.func.attr == 'items' and not s.iter.args and \
                isinstance(s.iter.func.value, (ast.Name, ast.Attribute)) and \
                isinstance(s.target, ast.Tuple) and len(
                    s.target.elts) == 2 and isinstance(
                        s.target.elts[0], ast.Name):
            d = s.iter.func.value
            k = s.target.elts[0]
            s.body.insert(0, ast.Assign(
                targets=[s.target.elts[1]], value=ast.Subscript(
                    value=copy.deepcopy(d), slice=name(k.id),
                    ctx=ast.Load())))
            s.iter = d
            s.target = k
            return [s]


class NotNot(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not isinstance(n.test, ast.UnaryOp):
            n.test = ast.UnaryOp(op=ast.Not(), operand=ast.UnaryOp(
                op=ast.Not(), operand=n.test))
        return n


CLS = dict(noop=Noop, temp_ret=TempRet, temp_args=TempArgs,
           invert_if=InvertIf, else_return=ElseReturn, compr_loop=ComprLoop,
           or_ifexp=OrIfexp, rename=Rename, demorgan=DeMorgan,
           kw_reverse=KwReverse, extract_tail=ExtractTail,
           extract_cond=ExtractCond, return_ifexp=ReturnIfexp,
           dict_call=DictCall, const_hoist=ConstHoist, neg_cmp=NegCmp,
           fstring=Fstring, alias_self=AliasSelf, split_and=SplitAnd,
           ternary_stmt=TernaryStmt, unparse=Unparse,
           extract_body=ExtractBody, kw_pos=KwPos, items_loop=ItemsLoop,
           not_not=NotNot)


def rewrite(src, kind, only=None):
    tree = ast.parse(src)
    K = CLS[kind]

    def do(f, cls):
        if not simple(f):
            return None
        if only is not None and f.name not in only:
            return None
        t = K()
        t.cls = cls
        if hasattr(t, 'func'):
            t.func(f)
        else:
            f.body = [t.visit(s) for s in f.body]
        return getattr(t, 'extra', None)

    def body(b, cls):
        out = []
        for n in b:
            if isinstance(n, ast.FunctionDef):
                e = do(n, cls)
                if e and not e[1]:
                    if cls is None:
                        out.append(e[0])
                    else:
                        module_extra.append(e[0])
                elif e:
                    out.append(e[0])
            elif isinstance(n, ast.ClassDef):
                n.body = body(n.body, n.name)
            out.append(n)
        return out
    module_extra = []
    tree.body = body(tree.body, None)
    tree.body += module_extra
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n'


def main(src, dst, kind, only=None):
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            q = os.path.join(dst, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if f.endswith('.py'):
                s = open(p).read()
                r = rewrite(s, kind, only)
                open(q, 'w').write(r)
            elif 'templates' in p and os.path.exists(p) and '__pycache__' \
                    not in p:
                import shutil
                shutil.copy(p, q)
    return 0


if __name__ == '__main__':
    if sys.argv[3] not in KINDS:
        sys.exit('kinds: ' + ' '.join(KINDS))
    sys.exit(main(sys.argv[1], sys.argv[2], sys.argv[3],
                  set(sys.argv[4:]) or None))
