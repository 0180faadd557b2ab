"""Control-flow graph of a function in three-address form with callee
inlining.

Every call is its own node, short-circuit operators and comprehensions are
lowered to branches and loops, and calls of repository functions accepted by
the inlining policy are replaced by the callee's own graph (after a marker
node for the call itself).  Analyses on the graph therefore do not depend on
local names, on how an expression is split over statements, or on whether
code sits in a helper."""
import ast
import copy
import pathlib
from .repo import (FuncInfo, ClassInfo, External, Module, ValueRef, walk_own,
                   AnalysisBroken)

_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
        ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
        ast.In: 'in', ast.NotIn: 'not in'}
NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>',
       'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<=',
        'is': 'is', 'is not': 'is not'}
_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
        ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
        ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<',
        ast.RShift: '>>', ast.MatMult: '@'}

NORMAL = 'normal'
_BUILTIN_METHODS = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(
    dir(set)) | set(dir(pathlib.Path))
EXC = 'exc'


class Node:
    __slots__ = ('id', 'kind', 'dst', 'term', 'target', 'ast', 'func',
                 'succ', 'pred', 'callees', 'inlined', 'extra', 'depth',
                 'kills')

    def __init__(self, id, kind, func, astnode, dst=None, term=None,
                 target=None):
        self.id, self.kind, self.func, self.ast = id, kind, func, astnode
        self.dst, self.term, self.target = dst, term, target
        self.succ, self.pred = [], []
        self.callees, self.inlined, self.extra = (), None, None
        self.depth = 0
        self.kills = ()

    @property
    def line(self):
        return getattr(self.ast, 'lineno', 0)

    def __repr__(self):
        return '<%d %s %s %s L%s>' % (self.id, self.kind, self.dst or
                                      self.target or '',
                                      show(self.term), self.line)

    def where(self):
        return '%s:%s (%s)' % (self.func.file, self.line, self.func.short)


def show(t, depth=0):
    if t is None:
        return ''
    if not isinstance(t, tuple):
        return str(t)
    if depth > 8:
        return '...'
    k = t[0]

    def s(x):
        return show(x, depth + 1)
    if k == 'c':
        return repr(t[1])
    if k == 'v':
        return t[1].split('.', 1)[-1] if '.' in t[1] else t[1]
    if k == 'p':
        return t[1].split('.', 1)[-1]
    if k == 'g':
        return t[2]
    if k == 'unk' and t[1][:1] == 'f' and '.' in t[1] and \
            t[1][1:t[1].index('.')].isdigit():
        return t[1].split('.', 1)[1]     # variable of an outer function
    if k == 'attr':
        return s(t[1]) + '.' + t[2]
    if k == 'sub':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'call':
        a = [s(x) for x in t[2]] + ['%s=%s' % (n, s(x)) for n, x in t[3]]
        return '%s(%s)' % (s(t[1]), ', '.join(a))
    if k == 'cmp':
        return '%s %s %s' % (s(t[2]), t[1], s(t[3]))
    if k == 'not':
        return 'not ' + s(t[1])
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(s(x) for x in t[1:]) + ')'
    if k == 'op':
        if len(t) == 4:
            return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
        return t[1] + ' '.join(s(x) for x in t[2:])
    if k == 'ifexp':
        return '(%s if %s else %s)' % (s(t[2]), s(t[1]), s(t[3]))
    if k == 'phi':
        return 'phi(' + ' | '.join(s(x) for x in t[1:]) + ')'
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x)
                               for x in t[1:]) + ')'


def _empty(e):
    """The kind of an empty collection display"""
    if isinstance(e, ast.List) and not e.elts:
        return 'list'
    if isinstance(e, ast.Dict) and not e.keys:
        return 'dict'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ('list', 'set', 'dict') and not e.args and \
            not e.keywords:
        return e.func.id
    return None


def _uses(node, name):
    return any(isinstance(x, ast.Name) and x.id == name
               for x in ast.walk(node))


def _as_comp(loop, name, kind):
    """The comprehension a loop that only collects into name stands for"""
    gens = []
    st = loop
    while True:
        if isinstance(st, ast.For) and not st.orelse and \
                not st.type_comment:
            gens.append(ast.comprehension(target=st.target, iter=st.iter,
                                          ifs=[], is_async=0))
            body = st.body
        elif isinstance(st, ast.If) and not st.orelse:
            gens[-1].ifs.append(st.test)
            body = st.body
        else:
            break
        while len(body) > 1 and isinstance(body[0], ast.If) and \
                not body[0].orelse and len(body[0].body) == 1 and \
                isinstance(body[0].body[0], ast.Continue) and \
                isinstance(st, ast.For):
            gens[-1].ifs.append(ast.copy_location(ast.UnaryOp(
                ast.Not(), body[0].test), body[0]))
            body = body[1:]
        if len(body) != 1:
            return None
        st = body[0]
    parts = [g.target for g in gens] + [g.iter for g in gens] + \
        [c for g in gens for c in g.ifs]
    out = None
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
            isinstance(st.value.func, ast.Attribute) and isinstance(
                st.value.func.value, ast.Name) and \
            st.value.func.value.id == name and len(st.value.args) == 1 and \
            not st.value.keywords and st.value.func.attr == {
                'list': 'append', 'set': 'add'}.get(kind):
        v = st.value.args[0]
        if isinstance(v, ast.Starred):
            return None
        parts.append(v)
        out = (ast.ListComp if kind == 'list' else ast.SetComp)(v, gens)
    elif kind == 'dict' and isinstance(st, ast.Assign) and len(
            st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
            and isinstance(st.targets[0].value, ast.Name) and \
            st.targets[0].value.id == name and not isinstance(
                st.targets[0].slice, ast.Slice):
        k, v = st.targets[0].slice, st.value
        parts += [k, v]
        out = ast.DictComp(k, v, gens)
    if out is None or any(_uses(x, name) for x in parts) or any(
            isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await,
                           ast.NamedExpr)) for x in parts
            for y in ast.walk(x)):
        return None
    return ast.copy_location(out, loop)


def _reads(node, names):
    """Whether one of names may be read in node, apart from loops and
    comprehensions that bind it themselves"""
    if not names:
        return False
    if isinstance(node, ast.Name):
        return node.id in names and isinstance(node.ctx, ast.Load)
    if isinstance(node, ast.For):
        own = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        return _reads(node.iter, names) or any(
            _reads(x, names - own) for x in node.body) or any(
            _reads(x, names) for x in node.orelse)
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp,
                         ast.GeneratorExp)):
        own = {x.id for g in node.generators for x in ast.walk(g.target)
               if isinstance(x, ast.Name)}
        if _reads(node.generators[0].iter, names):
            return True
        names = names - own
    return any(_reads(x, names) for x in ast.iter_child_nodes(node))


_collected = {}


def collected(body):
    """Statements, with loops that only fill a new collection written as
    comprehensions"""
    r = _collected.get(id(body))
    if r is None or r[0] is not body:
        r = _collected[id(body)] = (body, _collect(list(body)))
    return r[1]


class _Put(ast.NodeTransformer):
    """Write a constant for a name; parts made of constants are joined"""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, node):
        if node.id == self.name and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Constant(self.value), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        a, b = node.left, node.right
        if isinstance(node.op, ast.Add) and isinstance(
                a, ast.Constant) and isinstance(b, ast.Constant) and \
                isinstance(a.value, str) and isinstance(b.value, str):
            return ast.copy_location(ast.Constant(a.value + b.value), node)
        return node


def _unroll(st):
    """The statements of a loop over a display of a few strings, one set for
    each, or None"""
    if not (isinstance(st, ast.For) and not st.orelse and isinstance(
            st.target, ast.Name) and isinstance(
                st.iter, (ast.Tuple, ast.List)) and
            2 <= len(st.iter.elts) <= 4 and all(
                isinstance(x, ast.Constant) and isinstance(x.value, str)
                for x in st.iter.elts)):
        return None
    name = st.target.id
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Break, ast.Continue, ast.Lambda, ast.For,
                              ast.While, ast.FunctionDef, ast.ListComp,
                              ast.GeneratorExp, ast.Yield)) or (
                    isinstance(x, ast.Name) and x.id == name and
                    not isinstance(x.ctx, ast.Load)):
                return None
    return [_Put(name, e.value).visit(copy.deepcopy(b))
            for e in st.iter.elts for b in st.body]


def _collect(body):
    i = 0
    while i < len(body):
        new = _unroll(body[i])
        if new:
            body[i:i + 1] = new
        i += 1
    i = 0
    while i < len(body):
        st = body[i]
        kind = _empty(st.value) if isinstance(st, ast.Assign) and len(
            st.targets) == 1 and isinstance(st.targets[0], ast.Name) else None
        j = i + 1
        if kind:
            name = st.targets[0].id
            while j < len(body) and not _uses(body[j], name):
                j += 1
        if kind and j < len(body) and isinstance(body[j], ast.For):
            comp = _as_comp(body[j], name, kind)
            bound = {x.id for x in ast.walk(body[j]) if isinstance(
                x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if comp is not None and not any(_reads(y, bound)
                                            for y in body[j + 1:]):
                body[j] = ast.copy_location(ast.Assign(
                    targets=st.targets, value=comp), body[j])
                del body[i]
                continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                isinstance(st.targets[0], ast.Name) and isinstance(
                    st.value, (ast.GeneratorExp, ast.ListComp)) and \
                i + 1 < len(body) and _into_quantifier(st, body[i + 1:]):
            del body[i]
            continue
        i += 1
    return body


def _into_quantifier(st, rest):
    """Move a comprehension that is only used for any or all, in the next
    statement, to its place"""
    name = st.targets[0].id
    if sum(isinstance(x, ast.Name) and x.id == name for y in rest
           for x in ast.walk(y)) != 1 or not isinstance(
               rest[0], (ast.Return, ast.Assign, ast.Expr, ast.If)):
        return False
    for x in ast.walk(rest[0].test if isinstance(rest[0], ast.If)
                      else rest[0]):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ('any', 'all') and len(x.args) == 1 and \
                isinstance(x.args[0], ast.Name) and x.args[0].id == name:
            x.args[0] = st.value
            return True
    return False


class Frame:
    _n = 0

    def __init__(self, func, parent=None, self_cls=None, depth=0):
        Frame._n += 1
        self.func, self.parent, self.self_cls = func, parent, self_cls
        self.depth = depth
        self.prefix = 'f%d' % Frame._n
        self.locals = set()
        self.nonlocal_ = set()
        node = func.node
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        glob = set()
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                              ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add(al.asname or al.name.split('.')[0])
            elif isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocal_.update(n.names)
        self.locals -= glob
        self.locals -= self.nonlocal_
        self.imports = {}
        self.alias = {}     # comprehension variable scoping

    @property
    def self_name(self):
        f = self.func
        if f.cls is not None and not f.is_static and f.pos_params:
            return f.pos_params[0]
        return None

    def find(self, name):
        fr = self
        while fr is not None:
            if name in fr.locals:
                return fr
            fr = fr.parent
        return None


class Graph:
    def __init__(self, repo, func, policy=None, self_cls=None, max_depth=4,
                 max_nodes=6000):
        self.repo, self.func = repo, func
        self.policy = policy or (lambda callee, gnode: False)
        self.max_depth, self.max_nodes = max_depth, max_nodes
        self.nodes = []
        self.frames = {}
        self.types = {}       # var -> ClassInfo
        self.inlined_funcs = []
        self._exc_stack = []
        self._loop_stack = []
        self._ret_stack = []
        self._lambda_terms = {}
        fr = Frame(func, self_cls=self_cls or func.cls or
                   getattr(func, 'cls_ctx', None))
        # give nested functions analysed on their own an outer frame
        outer = func.parent
        if outer is not None:
            fr.parent = Frame(outer, self_cls=fr.self_cls)
        self.root_frame = fr
        self.entry = self._node('entry', fr, func.node)
        self.exit = Node(-1, 'exit', func, func.node)
        self.exc_exit = Node(-2, 'excexit', func, func.node)
        self.cur = [(self.entry, NORMAL)]
        self._fr = fr
        self._bind_params_initial(fr)
        self._stack = [func]
        self._body(func.node, fr, root=True)
        for n in (self.exit, self.exc_exit):
            n.id = len(self.nodes)
            self.nodes.append(n)
        self._rd = None
        self._expand_cache = {}
        self._reach_cache = {}
        self._changed_comps()

    def _changed_comps(self):
        """Collections made by comprehensions that may change afterwards: it
        is not known from the comprehension whether they are empty"""
        init = {n.dst: n for n in self.nodes if n.extra == 'init'}
        if not init:
            return
        seen = set()

        def change(t, node):
            if not isinstance(t, tuple) or not t or (t, node) in seen:
                return
            seen.add((t, node))
            if t[0] == 'v':
                for d in self.defs(t[1], node):
                    if d.kind == 'asg' and d.term:
                        change(d.term, d)
            elif t[0] == 'comp':
                if t[2][0] == 'v' and t[1] != 'gen' and t[2][1] in init:
                    init[t[2][1]].term = ('unk', t[2][1])
            elif t[0] in ('tuple', 'list', 'dict', 'set', 'star', 'func'):
                for x in t[1:]:
                    change(x, node)
        for n in self.nodes:
            if not n.pred:
                continue
            if n.kind == 'call':
                fn = n.term[1]
                if fn[0] == 'attr' and fn[2] not in KEEPS:
                    change(fn[1], n)
                if n.inlined is None and not (
                        fn[0] == 'g' and fn[2] in PURE or
                        fn[0] == 'attr' and fn[2] in KEEPS):
                    for a in n.term[2]:
                        change(a, n)
                    for _, a in n.term[3]:
                        change(a, n)
            elif n.kind in ('store', 'del'):
                if n.target:
                    change(n.target[1], n)
                if n.kind == 'store':
                    change(n.term, n)
            elif n.kind == 'asg' and n.term and n.term[0] == 'aug':
                change(n.term[2], n)

    # ------------------------------------------------------------ building
    def _node(self, kind, fr, astnode, **kw):
        n = Node(len(self.nodes), kind, fr.func, astnode, **kw)
        n.depth = fr.depth
        self.nodes.append(n)
        if len(self.nodes) > self.max_nodes:
            raise AnalysisBroken('graph of %s is too large' %
                                 self.func.qualname)
        return n

    def _link(self, a, b, label=NORMAL):
        if (b, label) not in a.succ:
            a.succ.append((b, label))
            b.pred.append((a, label))

    def _emit(self, kind, astnode, may_raise=False, **kw):
        n = self._node(kind, self._fr, astnode, **kw)
        for a, lab in self.cur:
            self._link(a, n, lab)
        dead = not self.cur
        self.cur = [(n, NORMAL)]
        if dead:
            self.cur = []     # unreachable code stays unreachable
        if may_raise and self._exc_stack and not dead:
            self._exc_stack[-1].append((n, EXC))
        return n

    def _label(self, astnode=None):
        """A join node"""
        return self._emit('nop', astnode or self._fr.func.node)

    def _var(self, fr, name):
        return fr.prefix + '.' + name

    def _tmp(self):
        self._t = getattr(self, '_t', 0) + 1
        return 't.%d' % self._t

    def _bind_params_initial(self, fr):
        for p in self._all_params(fr.func):
            v = self._var(fr, p)
            self._emit('asg', fr.func.node, dst=v, term=('p', v))
        if fr.self_name and fr.self_cls is not None:
            self.types[self._var(fr, fr.self_name)] = fr.self_cls
        if fr.parent is not None and fr.parent.self_name:
            self.types[self._var(fr.parent, fr.parent.self_name)] = \
                fr.parent.self_cls

    @staticmethod
    def _all_params(f):
        r = list(f.params)
        if f.vararg:
            r.append(f.vararg)
        if f.kwarg:
            r.append(f.kwarg)
        return r

    def _body(self, node, fr, root=False):
        if isinstance(node, ast.Lambda):
            t = self._expr(node.body)
            r = self._emit('ret', node, term=t)
            self._do_return(r)
            if root:
                self._finish_root()
            return
        self._stmts(node.body)
        if root:
            # implicit return None
            if self.cur:
                r = self._emit('ret', node, term=('c', None))
                r.extra = 'implicit'
                self._do_return(r)
            self._finish_root()

    def _finish_root(self):
        pass

    def _do_return(self, rnode):
        if self._ret_stack:
            retvar, sink, _fin = self._ret_stack[-1]
            sink.append((rnode, NORMAL))
        else:
            self._link(rnode, self.exit)
        self.cur = []

    def _stmts(self, body):
        for st in collected(body):
            self._stmt(st)

    # finally handling: stack of finally bodies active in this frame
    def _run_finals(self, upto=0):
        """Emit the finally bodies between here and depth `upto`"""
        fins = self._fins()
        for i in range(len(fins) - 1, upto - 1, -1):
            saved = fins[i:]
            kind, payload = fins[i]
            del fins[i:]
            if kind == 'finally':
                self._stmts(payload)
            else:
                self._emit('withexit', payload, term=None)
            fins.extend(saved)

    def _fins(self):
        return self._fr.__dict__.setdefault('fins', [])

    def _stmt(self, st):
        m = getattr(self, '_s_' + type(st).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self._expr(c)
            return
        m(st)

    def _s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self._expr(st.value)
        # a call that ends the program
        f = st.value.func if isinstance(st.value, ast.Call) else None
        if isinstance(f, ast.Name) and f.id in ('exit', 'quit') and \
                self._fr.find(f.id) is None or isinstance(
                    f, ast.Attribute) and (
                    f.attr == 'exit' and isinstance(f.value, ast.Name) and
                    f.value.id == 'sys' or f.attr == '_exit'):
            self._raise(st, ('call', ('g', 'builtins', 'SystemExit'), (),
                             ()))

    def _s_Pass(self, st):
        pass

    def _s_Import(self, st):
        for a in st.names:
            name = a.asname or a.name.split('.')[0]
            mod = a.name if a.asname else a.name.split('.')[0]
            e = self.repo.modules.get(mod) or External(mod)
            self._fr.imports[name] = e

    def _s_ImportFrom(self, st):
        base = self._fr.func.module._abs(st.module, st.level)
        for a in st.names:
            bm = self.repo.modules.get(base)
            e = (self.repo.resolve_global(bm, a.name) if bm else
                 External(base + '.' + a.name))
            self._fr.imports[a.asname or a.name] = e

    def _s_Global(self, st):
        pass
    _s_Nonlocal = _s_Global

    def _s_FunctionDef(self, st):
        fi = self._fr.func.nested.get(st.name)
        if fi is None:
            fi = FuncInfo(self._fr.func.module, st, parent=self._fr.func)
        v = self._var(self._fr, st.name)
        self.frames[v] = (fi, self._fr)
        self._emit('asg', st, dst=v, term=('func', v))
    _s_AsyncFunctionDef = _s_FunctionDef

    def _s_ClassDef(self, st):
        self._emit('asg', st, dst=self._var(self._fr, st.name),
                   term=('unk', 'class'))

    def _s_Return(self, st):
        t = self._expr(st.value) if st.value is not None else ('c', None)
        if self._fins():
            tmp = self._tmp()
            self._emit('asg', st, dst=tmp, term=t)
            self._run_finals(0)
            t = ('v', tmp)
        if self._ret_stack:
            retvar = self._ret_stack[-1][0]
            r = self._emit('asg', st, dst=retvar, term=t)
            r.extra = 'return'
        else:
            r = self._emit('ret', st, term=t)
        if r.pred or r is self.entry:
            self._do_return(r)
        else:
            self.cur = []

    def _s_Raise(self, st):
        t = self._expr(st.exc) if st.exc is not None else ('c', None)
        self._raise(st, t)

    def _raise(self, st, t):
        r = self._emit('raise', st, term=t)
        if not r.pred:
            self.cur = []
            return r
        if self._exc_stack:
            self._exc_stack[-1].append((r, EXC))
        else:
            self._link(r, self.exc_exit, EXC)
        self.cur = []
        return r

    def _s_Assert(self, st):
        n0 = len(self.nodes)
        bt, bf = self._cond(st.test)
        for i in range(n0, len(self.nodes)):
            if self.nodes[i].kind in ('test', 'call'):
                self.nodes[i].extra = 'assert'
        self.cur = bf
        if st.msg is not None:
            self._expr(st.msg)
        r = self._raise(st, ('call', ('g', 'builtins', 'AssertionError'),
                             (), ()))
        r.extra = 'assert'
        self.cur = bt

    def _s_Assign(self, st):
        t = self._expr(st.value)
        for tg in st.targets:
            self._assign(tg, t, st)

    def _s_AnnAssign(self, st):
        if st.value is not None:
            self._assign(st.target, self._expr(st.value), st)

    def _s_AugAssign(self, st):
        op = _BIN[type(st.op)]
        load = self._expr(_as_load(st.target))
        val = self._expr(st.value)
        t = ('aug', op, load, val)
        self._assign(st.target, t, st)

    def _s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self._emit('asg', st, dst=self._lv(t.id), term=('unk', 'del'))
            else:
                lv = self._lvalue(t)
                self._emit('del', st, target=lv, may_raise=True)

    def _lv(self, name):
        fr = self._fr.find(name)
        a = self._lookup_alias(name)
        if a:
            return a
        if fr is None:
            return None
        return self._var(fr, name)

    def _lookup_alias(self, name):
        fr = self._fr
        while fr is not None:
            if name in fr.alias:
                return fr.alias[name][-1]
            if name in fr.locals:
                return None
            fr = fr.parent
        return None

    def _lvalue(self, t):
        if isinstance(t, ast.Attribute):
            return ('attr', self._expr(t.value), t.attr)
        if isinstance(t, ast.Subscript):
            return ('sub', self._expr(t.value), self._expr(t.slice))
        if isinstance(t, ast.Name):
            return ('g', self._fr.func.module.name, t.id)
        return ('unk', 'lvalue')

    def _assign(self, tg, t, st):
        if isinstance(tg, ast.Name):
            v = self._lv(tg.id)
            if v is None:
                self._emit('store', st,
                           target=('g', self._fr.func.module.name, tg.id),
                           term=t)
                return
            n = self._emit('asg', st, dst=v, term=t)
            n.extra = 'user'
            c = self._type_of_term(t)
            if c is not None and v not in self.types:
                self.types[v] = c
        elif isinstance(tg, (ast.Tuple, ast.List)):
            elts = tg.elts
            star = [i for i, e in enumerate(elts)
                    if isinstance(e, ast.Starred)]
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    self._assign(e.value, ('star_unpack', t, i), st)
                elif (t[0] in ('tuple', 'list') and not star and
                      len(t) - 1 == len(elts) and
                      not any(x[0] == 'star' for x in t[1:])):
                    self._assign(e, t[1 + i], st)
                else:
                    idx = i if not star or i < star[0] else i - len(elts)
                    self._assign(e, ('sub', t, ('c', idx)), st)
        elif isinstance(tg, ast.Starred):
            self._assign(tg.value, t, st)
        else:
            self._emit('store', st, target=self._lvalue(tg), term=t,
                       may_raise=True)

    def _type_of_term(self, t):
        if t[0] == 'v':
            return self.types.get(t[1])
        return None

    def _s_If(self, st):
        bt, bf = self._cond(st.test)
        self.cur = bt
        self._stmts(st.body)
        out = self.cur
        self.cur = bf
        self._stmts(st.orelse)
        self.cur = out + self.cur

    def _s_While(self, st):
        head = self._label(st)
        head.extra = 'loophead'
        bt, bf = self._cond(st.test)
        brk, cont = [], []
        self._loop_stack.append((brk, cont, len(self._fins()),
                                 self._fr))
        self.cur = bt
        self._stmts(st.body)
        self._loop_stack.pop()
        for a, lab in self.cur + cont:
            self._link(a, head, lab)
        self.cur = bf
        self._stmts(st.orelse)
        self.cur = self.cur + brk

    def _s_For(self, st):
        it = self._expr(st.iter)
        self._loop(st, it, lambda elem: self._assign(st.target, elem, st),
                   lambda: self._stmts(st.body), st.orelse)
    _s_AsyncFor = _s_For

    def _loop(self, st, it, bind, body, orelse=()):
        head = self._emit('iter', st, term=it, may_raise=True)
        brk, cont = [], []
        self._loop_stack.append((brk, cont, len(self._fins()),
                                 self._fr))
        self.cur = [(head, 'item')] if head.pred else []
        bind(('elem', it))
        body()
        self._loop_stack.pop()
        for a, lab in self.cur + cont:
            self._link(a, head, lab)
        self.cur = [(head, 'end')] if head.pred else []
        if orelse:
            self._stmts(orelse)
        self.cur = self.cur + brk
        return head

    def _s_Break(self, st):
        brk, cont, nf, fr = self._loop_stack[-1]
        self._run_finals(nf)
        n = self._emit('nop', st)
        n.extra = 'break'
        brk.extend(self.cur)
        self.cur = []

    def _s_Continue(self, st):
        brk, cont, nf, fr = self._loop_stack[-1]
        self._run_finals(nf)
        n = self._emit('nop', st)
        n.extra = 'continue'
        cont.extend(self.cur)
        self.cur = []

    def _s_With(self, st):
        fins = self._fins()
        n0 = len(fins)
        sink = []
        for item in st.items:
            c = self._expr(item.context_expr)
            e = self._emit('with', st, term=c, may_raise=True)
            if item.optional_vars is not None:
                self._assign(item.optional_vars, ('enter', c), st)
            fins.append(('with', st))
        self._exc_stack.append(sink)
        self._stmts(st.body)
        self._exc_stack.pop()
        del fins[n0:]
        # the normal and the exceptional leave
        out = self.cur
        if sink:
            self.cur = sink
            x = self._emit('withexit', st, term=None)
            x.extra = 'exc'
            if self._exc_stack:
                self._exc_stack[-1].extend(
                    [(a, EXC) for a, _ in self.cur])
            else:
                for a, _ in self.cur:
                    self._link(a, self.exc_exit, EXC)
        self.cur = out
        if out:
            self._emit('withexit', st, term=None)
    _s_AsyncWith = _s_With

    def _s_Try(self, st):
        fins = self._fins()
        if st.finalbody:
            fins.append(('finally', st.finalbody))
            outer_sink = []
            self._exc_stack.append(outer_sink)
        sink = []
        if st.handlers:
            self._exc_stack.append(sink)
        self._stmts(st.body)
        if st.handlers:
            self._exc_stack.pop()
        self._stmts(st.orelse)
        out = self.cur
        catch_all = False
        if st.handlers:
            self.cur = [x for x in sink]
            disp = None
            if sink:
                disp = self._emit('except', st)
            for h in st.handlers:
                self.cur = ([(disp, 'handler:%d' % i) for i, x in
                             enumerate(st.handlers) if x is h]
                            if disp is not None else [])
                types = []
                if h.type is None:
                    catch_all = True
                else:
                    ts = (h.type.elts if isinstance(h.type, ast.Tuple)
                          else [h.type])
                    types = [ast.unparse(t) for t in ts]
                    if any(t in ('Exception', 'BaseException')
                           for t in types):
                        catch_all = True
                hn = self._emit('handler', h, term=('c', tuple(types)))
                if h.name:
                    self._emit('asg', h, dst=self._var(self._fr, h.name),
                               term=('unk', 'exc'))
                self._stmts(h.body)
                out = out + self.cur
            if disp is not None and not catch_all:
                if self._exc_stack:
                    self._exc_stack[-1].append((disp, EXC))
                else:
                    self._link(disp, self.exc_exit, EXC)
        if st.finalbody:
            self._exc_stack.pop()
            fins.pop()
            if outer_sink:
                self.cur = outer_sink
                self._label(st)
                self._stmts(st.finalbody)
                if self.cur:
                    if self._exc_stack:
                        self._exc_stack[-1].extend(
                            [(a, EXC) for a, _ in self.cur])
                    else:
                        for a, _ in self.cur:
                            self._link(a, self.exc_exit, EXC)
            self.cur = out
            self._stmts(st.finalbody)
        else:
            self.cur = out
    _s_TryStar = _s_Try

    def _s_Match(self, st):
        subj = self._expr(st.subject)
        out = []
        nxt = self.cur
        for case in st.cases:
            self.cur = nxt
            t = self._emit('test', case.pattern,
                           term=('match', subj, ('c', ast.dump(
                               case.pattern))))
            nxt = [(t, False)]
            self.cur = [(t, True)]
            for n in ast.walk(case.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    self._emit('asg', st, dst=self._var(self._fr, n.name),
                               term=subj)
            if case.guard is not None:
                bt, bf = self._cond(case.guard)
                self.cur = bt
                nxt = nxt + bf
            self._stmts(case.body)
            out += self.cur
        self.cur = out + nxt

    # -- conditions -------------------------------------------------------
    def _cond(self, e):
        """Lower a condition; returns the (true, false) dangling edges"""
        if isinstance(e, ast.BoolOp):
            outs = []
            if isinstance(e.op, ast.And):
                for v in e.values[:-1]:
                    bt, bf = self._cond(v)
                    outs += bf
                    self.cur = bt
                bt, bf = self._cond(e.values[-1])
                return bt, outs + bf
            for v in e.values[:-1]:
                bt, bf = self._cond(v)
                outs += bt
                self.cur = bf
            bt, bf = self._cond(e.values[-1])
            return outs + bt, bf
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            bt, bf = self._cond(e.operand)
            return bf, bt
        t = self._expr(e)
        n = self._emit('test', e, term=t)
        if not n.pred:
            return [], []
        if t == ('c', True):
            return [(n, True)], []
        if t == ('c', False):
            return [], [(n, False)]
        return [(n, True)], [(n, False)]

    # -- expressions -------------------------------------------------------
    def _expr(self, e):
        m = getattr(self, '_e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self._expr(c)
            return ('unk', type(e).__name__)
        return m(e)

    def _e_Constant(self, e):
        return ('c', e.value)

    def _e_Name(self, e):
        a = self._lookup_alias(e.id)
        if a:
            return ('v', a)
        fr = self._fr.find(e.id)
        if fr is not None:
            if e.id in fr.imports:
                return ('ent', fr.imports[e.id])
            return ('v', self._var(fr, e.id))
        return ('g', self._fr.func.module.name, e.id)

    def _e_Attribute(self, e):
        b = self._expr(e.value)
        t = ('attr', b, e.attr)
        # property access may be inlined as a call
        rc = self._recv_class(b)
        if rc is not None:
            owner, v = self.repo.lookup(rc, e.attr)
            if isinstance(v, FuncInfo) and v.is_property:
                n = self._emit('prop', e, term=t, may_raise=True)
                n.callees = (v,)
                if self._may_inline(v, n):
                    return self._inline(v, n, rc, b, [], [], e)
                return t
        if self._exc_stack:
            # attribute access can raise inside of try bodies
            self._emit('load', e, term=t, may_raise=True)
        return t

    def _e_Subscript(self, e):
        b = self._expr(e.value)
        i = self._expr(e.slice)
        if self._exc_stack:
            self._emit('load', e, term=('sub', b, i), may_raise=True)
        return ('sub', b, i)

    def _e_Slice(self, e):
        return ('slice',) + tuple(self._expr(x) if x is not None else
                                  ('c', None)
                                  for x in (e.lower, e.upper, e.step))

    def _e_Tuple(self, e):
        return ('tuple',) + tuple(self._expr(x) for x in e.elts)

    def _e_List(self, e):
        return ('list',) + tuple(self._expr(x) for x in e.elts)

    def _e_Set(self, e):
        return ('set',) + tuple(self._expr(x) for x in e.elts)

    def _e_Dict(self, e):
        return ('dict',) + tuple(
            ('tuple', self._expr(k) if k is not None else ('c', '**'),
             self._expr(v)) for k, v in zip(e.keys, e.values))

    def _e_Starred(self, e):
        return ('star', self._expr(e.value))

    def _e_BinOp(self, e):
        l = self._expr(e.left)
        r = self._expr(e.right)
        return ('op', _BIN[type(e.op)], l, r)

    def _e_UnaryOp(self, e):
        v = self._expr(e.operand)
        if isinstance(e.op, ast.Not):
            return ('not', v)
        if isinstance(e.op, ast.USub):
            if v[0] == 'c' and isinstance(v[1], (int, float)):
                return ('c', -v[1])
            return ('op', 'neg', v)
        return ('op', type(e.op).__name__, v)

    def _e_Compare(self, e):
        l = self._expr(e.left)
        parts = []
        for op, c in zip(e.ops, e.comparators):
            r = self._expr(c)
            parts.append(('cmp', _CMP[type(op)], l, r))
            l = r
        return parts[0] if len(parts) == 1 else ('and',) + tuple(parts)

    def _e_JoinedStr(self, e):
        return ('fstr',) + tuple(self._expr(x) for x in e.values)

    def _e_FormattedValue(self, e):
        if e.format_spec is not None:
            return ('fmt', self._expr(e.value), self._expr(e.format_spec))
        return ('fmt', self._expr(e.value))

    def _e_NamedExpr(self, e):
        t = self._expr(e.value)
        self._assign(e.target, t, e)
        return ('v', self._lv(e.target.id))

    def _e_Await(self, e):
        return self._expr(e.value)

    def _e_Yield(self, e):
        t = self._expr(e.value) if e.value is not None else ('c', None)
        n = self._emit('yield', e, term=t)
        gen = self._fr.__dict__.get('gen')
        if gen is not None:
            self._emit('asg', e, dst=gen, term=t)
        return ('unk', 'yield')

    def _e_YieldFrom(self, e):
        t = self._expr(e.value)
        self._emit('yield', e, term=('elem', t))
        gen = self._fr.__dict__.get('gen')
        if gen is not None:
            self._emit('asg', e, dst=gen, term=('elem', t))
        return ('unk', 'yield')

    def _e_Lambda(self, e):
        fi = getattr(e, '_fi', None)
        if fi is None:
            fi = FuncInfo(self._fr.func.module, e, parent=self._fr.func)
            e._fi = fi
        v = self._tmp()
        self.frames[v] = (fi, self._fr)
        self._emit('asg', e, dst=v, term=('func', v))
        return ('v', v)

    def _pure(self, e):
        return not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await,
                                      ast.Lambda, ast.ListComp, ast.SetComp,
                                      ast.DictComp, ast.GeneratorExp,
                                      ast.BoolOp, ast.IfExp))
                       for n in ast.walk(e))

    def _e_BoolOp(self, e):
        kind = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        exits = []
        first = None
        for i, v in enumerate(e.values):
            t = self._expr(v)
            tmp = self._tmp()
            n = self._emit('asg', v, dst=tmp, term=t)
            vals.append(('v', tmp))
            if first is None:
                first = n
            else:
                # operands are evaluated after the first
                first.kills += (tmp,)
            if i < len(e.values) - 1 and n.pred:
                k = self._emit('test', v, term=('v', tmp))
                k.extra = 'value'
                if kind == 'and':
                    exits.append((k, False))
                    self.cur = [(k, True)]
                else:
                    exits.append((k, True))
                    self.cur = [(k, False)]
        self.cur = self.cur + exits
        out = self._tmp()
        self._emit('asg', e, dst=out, term=(kind,) + tuple(vals))
        return ('v', out)

    def _e_IfExp(self, e):
        tc = self._tmp()
        bt, bf = self._cond(e.test)
        ct = None
        a, b = self._tmp(), self._tmp()
        out = self._tmp()
        self.cur = bt
        t = self._expr(e.body)
        self._emit('asg', e.body, dst=out, term=t)
        o = self.cur
        self.cur = bf
        t = self._expr(e.orelse)
        self._emit('asg', e.orelse, dst=out, term=t)
        self.cur = o + self.cur
        self._label(e)
        return ('v', out)

    def _generators(self, e, inner, unroll=False):
        """The loops of a comprehension around inner(); the iterables"""
        gens = e.generators
        fr = self._fr
        names = []
        its = []

        def run(i):
            if i == len(gens):
                inner()
                return
            g = gens[i]
            it = self._expr(g.iter)
            its.append(it)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    fr.alias.setdefault(n.id, []).append(
                        fr.prefix + '.c%d.%s' % (len(self.nodes), n.id))
                    names.append(n.id)

            def body():
                skip = []
                for cnd in g.ifs:
                    bt, bf = self._cond(cnd)
                    skip += bf
                    self.cur = bt
                run(i + 1)
                self.cur = self.cur + skip
            if unroll and it[0] in ('tuple', 'list') and \
                    0 < len(it) <= 8 and not any(
                        x[0] == 'star' for x in it[1:]):
                for x in it[1:]:
                    self._assign(g.target, x, e)
                    body()
                return
            self._loop(e, it, lambda elem: self._assign(g.target, elem, e),
                       body)
        run(0)
        for n in names:
            fr.alias[n].pop()
            if not fr.alias[n]:
                del fr.alias[n]
        return its

    def _comp(self, e, elt_fn, kind):
        item = self._tmp()
        self._emit('asg', e, dst=item, term=('unk', 'none')).extra = 'init'
        its = self._generators(e, lambda: self._emit(
            'asg', e, dst=item, term=elt_fn()))
        out = self._tmp()
        self._emit('asg', e, dst=out, term=('comp', kind, ('v', item),
                                            ('tuple',) + tuple(its)))
        return ('v', out)

    def _e_ListComp(self, e):
        return self._comp(e, lambda: self._expr(e.elt), 'list')

    def _e_SetComp(self, e):
        return self._comp(e, lambda: self._expr(e.elt), 'set')

    def _e_GeneratorExp(self, e):
        return self._comp(e, lambda: self._expr(e.elt), 'gen')

    def _e_DictComp(self, e):
        return self._comp(e, lambda: ('tuple', self._expr(e.key),
                                      self._expr(e.value)), 'dict')

    # -- calls ----------------------------------------------------------
    def entity(self, t, frame_func=None):
        """Resolve a term to an entity (function/class/module/external)"""
        k = t[0]
        if k == 'ent':
            return t[1]
        if k == 'g':
            m = self.repo.modules.get(t[1])
            if m is None:
                return External(t[1] + '.' + t[2])
            e = self.repo.resolve_global(m, t[2])
            if e is None and t[2] not in m.bindings:
                return External('builtins.' + t[2])
            return e
        if k == 'attr':
            b = self.entity(t[1])
            if b is not None and not isinstance(b, ValueRef):
                return self.repo.member(b, t[2])
            if isinstance(b, ValueRef) and isinstance(b.node, ast.Call):
                # signal objects and other module level instances
                return None
        return None

    def _recv_class(self, t):
        if t[0] == 'v':
            return self.types.get(t[1])
        if t[0] == 'g':
            e = self.entity(t)
            if isinstance(e, ValueRef) and isinstance(e.node, ast.Call):
                c = self.repo.resolve_expr(e.module, e.node.func)
                if isinstance(c, ClassInfo):
                    return c
        return None

    def resolve_callee(self, fn):
        """-> (candidates, exact, recv_cls, recv_term)"""
        if fn[0] == 'v':
            v = fn[1]
            if v in self.frames:
                return [self.frames[v][0]], True, None, None
            return [], False, None, None
        e = self.entity(fn)
        if isinstance(e, FuncInfo):
            return [e], True, None, None
        if isinstance(e, ClassInfo):
            owner, init = self.repo.lookup(e, '__init__')
            return ([init] if isinstance(init, FuncInfo) else []), False, \
                e, None
        if isinstance(e, External):
            return [], True, None, None
        if fn[0] == 'attr':
            recv, name = fn[1], fn[2]
            if recv[0] == 'super':
                owner, v = self.repo.lookup_super(recv[1], name, recv[2])
                if isinstance(v, FuncInfo):
                    return [v], True, recv[2], recv[3]
                return [], False, None, None
            rc = self._recv_class(recv)
            if rc is not None:
                owner, v = self.repo.lookup(rc, name)
                if isinstance(v, FuncInfo):
                    return [v], True, rc, recv
                return [], False, rc, recv
            c = self.repo.by_method.get(name, [])
            return list(c), False, None, recv
        return [], False, None, None

    def _may_inline(self, callee, gnode):
        if len(self._stack) > self.max_depth or callee in self._stack:
            return False
        if isinstance(callee.node, ast.AsyncFunctionDef):
            return False
        return bool(self.policy(callee, gnode))

    def _e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'dict' and \
                not e.args and e.keywords and all(
                    k.arg for k in e.keywords):
            return self._expr(ast.copy_location(ast.Dict(
                keys=[ast.copy_location(ast.Constant(k.arg), k.value)
                      for k in e.keywords],
                values=[k.value for k in e.keywords]), e))
        # super()
        if (isinstance(e.func, ast.Name) and e.func.id == 'super'):
            fr = self._fr
            while fr is not None and fr.func.cls is None:
                fr = fr.parent
            if fr is not None:
                sv = ('v', self._var(fr, fr.self_name or 'self'))
                return ('super', fr.func.cls, fr.self_cls or fr.func.cls, sv)
        # map/filter with a function argument become comprehensions
        if (isinstance(e.func, ast.Name) and e.func.id in ('map', 'filter')
                and len(e.args) == 2 and not e.keywords and
                self._fr.find(e.func.id) is None):
            return self._mapfilter(e)
        # any/all of a comprehension become loops that stop early
        if (isinstance(e.func, ast.Name) and e.func.id in ('any', 'all')
                and len(e.args) == 1 and not e.keywords and
                not isinstance(e.args[0], (ast.Constant, ast.Starred)) and
                self._fr.find(e.func.id) is None):
            return self._quantifier(e)
        fn = self._expr(e.func)
        args = tuple(self._expr(a) for a in e.args)
        kws = tuple((k.arg or '**', self._expr(k.value)) for k in e.keywords)
        return self._call(e, fn, args, kws)

    def _quantifier(self, e):
        comp = e.args[0]
        found = e.func.id == 'any'
        out = self._tmp()
        hits = []

        def elt():
            bt, bf = self._cond(comp.elt)
            if not found:
                bt, bf = bf, bt
            self.cur = bt
            self._emit('asg', e, dst=out, term=('c', found))
            hits.extend(self.cur)
            self.cur = bf
        if isinstance(comp, (ast.GeneratorExp, ast.ListComp)):
            self._generators(comp, elt, unroll=True)
        else:
            it = self._expr(comp)
            x = self._tmp()

            def bind(elem):
                self._emit('asg', e, dst=x, term=elem)

            def body():
                n = self._emit('test', e, term=('v', x))
                self.cur = [(n, found)] if n.pred else []
                self._emit('asg', e, dst=out, term=('c', found))
                hits.extend(self.cur)
                self.cur = [(n, not found)] if n.pred else []
            if it[0] in ('tuple', 'list') and not any(
                    y[0] == 'star' for y in it[1:]):
                for y in it[1:]:
                    bind(y)
                    body()
            else:
                self._loop(e, it, bind, body)
        self._emit('asg', e, dst=out, term=('c', not found))
        self.cur = self.cur + hits
        self._label(e)
        return ('v', out)

    def _mapfilter(self, e):
        f = self._expr(e.args[0])
        it = self._expr(e.args[1])
        item = self._tmp()
        ev = self._tmp()

        def bind(elem):
            self._emit('asg', e, dst=ev, term=elem)

        def body():
            isnone = f == ('c', None)
            r = ('v', ev) if isnone else self._call(e, f, (('v', ev),), ())
            if e.func.id == 'map':
                self._emit('asg', e, dst=item, term=r).extra = 'item'
            else:
                n = self._emit('test', e, term=r)
                self.cur = [(n, True)] if n.pred else []
                self._emit('asg', e, dst=item,
                           term=('v', ev)).extra = 'item'
                self.cur = self.cur + ([(n, False)] if n.pred else [])
        self._emit('asg', e, dst=item, term=('unk', 'none')).extra = 'init'
        self._loop(e, it, bind, body)
        out = self._tmp()
        self._emit('asg', e, dst=out,
                   term=('comp', 'gen', ('v', item), ('tuple', it)))
        return ('v', out)

    def _call(self, e, fn, args, kws):
        cands, exact, rc, recv = self.resolve_callee(fn)
        term = ('call', fn) + self._named(cands, exact, rc, recv, fn, args,
                                          kws)
        dst = self._tmp()
        n = self._emit('call', e, dst=dst, term=term, may_raise=True)
        n.callees = tuple(cands)
        ent = self.entity(fn)
        if isinstance(ent, ClassInfo):
            self.types[dst] = ent
        if len(cands) == 1 and not isinstance(ent, ClassInfo) and (
                exact or getattr(self.policy, 'by_name', False) and
                self.policy.by_name(cands[0])) and \
                self._may_inline(cands[0], n):
            if not exact and rc is None:
                rc = cands[0].cls
            return self._inline(cands[0], n, rc, recv, args, kws, e)
        return ('v', dst)

    @staticmethod
    def _named(cands, exact, rc, recv, fn, args, kws):
        """Arguments in keyword form where the callee is known"""
        if len(cands) != 1 or not args or any(a[0] == 'star' for a in args):
            return args, kws
        c = cands[0]
        if not exact and rc is None and c.name in _BUILTIN_METHODS:
            return args, kws
        pos = c.pos_params
        if c.cls is not None and not c.is_static and (
                recv is not None or rc is not None or c.is_classmethod):
            pos = pos[1:]
        names = pos[:len(args)]
        if len(names) < len(args) or {n for n, _ in kws} & set(names):
            return args, kws
        return (), tuple(zip(names, args)) + kws

    def _inline(self, callee, n, rc, recv, args, kws, e):
        n.inlined = callee
        n.dst = None
        self.inlined_funcs.append(callee)
        parent = None
        fnv = n.term[1] if n.kind == 'call' else None
        if fnv is not None and fnv[0] == 'v' and fnv[1] in self.frames:
            parent = self.frames[fnv[1]][1]
        fr = Frame(callee, parent=parent, depth=self._fr.depth + 1)
        if callee.cls is not None:
            fr.self_cls = rc or callee.cls
        elif parent is not None:
            fr.self_cls = parent.self_cls
        caller = self._fr
        # bind parameters
        a = callee.node.args
        pos = callee.pos_params
        bound = {}
        offset = 0
        if callee.cls is not None and not callee.is_static:
            if recv is None and rc is None and n.kind == 'call':
                # Class.method(obj, ...): explicit receiver, unless it is a
                # classmethod
                if callee.is_classmethod:
                    offset = 1
                    bound[pos[0]] = ('unk', 'cls')
                elif args:
                    pass
            else:
                offset = 1
                if pos:
                    bound[pos[0]] = recv if recv is not None else (
                        'unk', 'self')
        names = pos[offset:]
        plain = []
        unknown_star = None
        for t in args:
            if t[0] == 'star':
                unknown_star = t
            elif unknown_star is None:
                plain.append(t)
        for nm, t in zip(names, plain):
            bound[nm] = t
        extra = plain[len(names):]
        kwextra = []
        starstar = [t for k, t in kws if k == '**']
        for k, t in kws:
            if k == '**':
                continue
            if k in callee.params:
                bound[k] = t
            else:
                kwextra.append((k, t))
        defaults = {}
        for p in callee.params:
            if p in bound:
                continue
            d = callee.default_of(p)
            if unknown_star is not None and p in names:
                bound[p] = ('phi', ('elem', unknown_star[1]))
            elif starstar:
                alts = [('sub', s, ('c', p)) for s in starstar]
                if d is not None:
                    defaults[p] = (d, alts)
                else:
                    bound[p] = alts[0]
            elif d is not None:
                defaults[p] = (d, None)
            else:
                bound[p] = ('unk', 'missing')
        self._fr = fr
        for p, (d, alts) in defaults.items():
            t = self._default_term(d, callee)
            bound[p] = t if not alts else ('phi', t) + tuple(alts)
        for p in callee.params:
            v = self._var(fr, p)
            self._emit('asg', e, dst=v, term=bound[p])
            c = self._type_of_term(bound[p])
            if c is not None:
                self.types[v] = c
        if fr.self_name and fr.self_cls is not None:
            self.types[self._var(fr, fr.self_name)] = fr.self_cls
        if callee.vararg:
            self._emit('asg', e, dst=self._var(fr, callee.vararg),
                       term=('tuple',) + tuple(extra) +
                       ((unknown_star,) if unknown_star else ()))
        if callee.kwarg:
            self._emit('asg', e, dst=self._var(fr, callee.kwarg),
                       term=('dict',) + tuple(
                           ('tuple', ('c', k), t) for k, t in kwextra) +
                       tuple(('tuple', ('c', '**'), t) for t in starstar))
        retvar = self._tmp()
        isgen = callee.is_generator
        if isgen:
            fr.gen = self._tmp()
        sink = []
        self._ret_stack.append((retvar, sink, None))
        self._stack.append(callee)
        loops, self._loop_stack = self._loop_stack, []
        if isinstance(callee.node, ast.Lambda):
            t = self._expr(callee.node.body)
            self._emit('asg', e, dst=retvar, term=t)
            sink.extend(self.cur)
        else:
            self._stmts(callee.node.body)
            if self.cur:
                self._emit('asg', e, dst=retvar, term=('c', None))
                sink.extend(self.cur)
        self._loop_stack = loops
        self._stack.pop()
        self._ret_stack.pop()
        self._fr = caller
        self.cur = sink
        self._label(e)
        if isgen:
            self._emit('asg', e, dst=retvar,
                       term=('comp', 'gen', ('v', fr.gen), ('tuple',)))
        # type of the returned value, if all returns agree
        return ('v', retvar)

    def _default_term(self, d, callee):
        if isinstance(d, ast.Constant):
            return ('c', d.value)
        return ('default', ast.unparse(d))

    def closure_vars(self, v):
        """Variables of this graph read by the nested function bound to v"""
        fi, fr = self.frames[v]
        out = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Name):
                f = fr.find(n.id)
                if f is not None:
                    out.add(self._var(f, n.id))
        return out

    # ------------------------------------------------------------- queries
    def calls(self, pred=None):
        out = []
        for n in self.nodes:
            if n.kind == 'call' and (n.pred or n is self.entry):
                if pred is None or pred(n):
                    out.append(n)
        return out

    def cname(self, n):
        """Last component of the called expression"""
        fn = n.term[1]
        if fn[0] == 'attr':
            return fn[2]
        if fn[0] == 'g':
            return fn[2]
        if fn[0] == 'v':
            return fn[1].rsplit('.', 1)[-1]
        if fn[0] == 'ent':
            e = fn[1]
            return (e.dotted.rsplit('.', 1)[-1] if isinstance(e, External)
                    else getattr(e, 'name', ''))
        return ''

    def dotted(self, n):
        """Dotted external/global name of the called expression, if any"""
        e = self.entity(n.term[1])
        if isinstance(e, External):
            return e.dotted
        if isinstance(e, (FuncInfo, ClassInfo)):
            return e.qualname
        return None

    def reachable(self, start, avoid=lambda n: False, labels=None,
                  include_start=False):
        """Nodes reachable from `start` without entering `avoid` nodes.
        `labels`: optional edge filter (node, succ, label)"""
        seen = set()
        todo = []

        def push(n):
            for s, lab in n.succ:
                if labels is not None and not labels(n, s, lab):
                    continue
                if s not in seen and not avoid(s):
                    seen.add(s)
                    todo.append(s)
        if include_start:
            seen.add(start)
        push(start)
        while todo:
            push(todo.pop())
        return seen

    def outer_loops(self, n):
        """Ids of the loop heads whose loops contain loop head n"""
        key = ('outer', n.id)
        if key not in self._reach_cache:
            out = set()
            fromn = self.reachable(n)
            for h in self.nodes:
                if h is n or not (h.kind == 'iter' or
                                  h.extra == 'loophead') or h not in fromn:
                    continue
                # n lies on a cycle through h; it is the inner one when h is
                # entered first
                if n in self.reachable(h) and n not in self.reachable(
                        self.entry, avoid=lambda x: x is h):
                    out.add(h.id)
            self._reach_cache[key] = out
        return self._reach_cache[key]

    def before(self, pred, node):
        """True if every path entry -> node passes a node satisfying pred"""
        if pred(node):
            return True
        return node not in self.reachable(self.entry, avoid=pred)

    def after(self, node, pred, exc=False):
        """True if every path node -> normal exit passes pred"""
        r = self.reachable(node, avoid=pred)
        if self.exit in r:
            return False
        if exc and self.exc_exit in r:
            return False
        return True

    def live(self, n):
        return n is self.entry or bool(n.pred)

    # reaching definitions
    def _compute_rd(self):
        if self._rd is not None:
            return
        IN = {n: {} for n in self.nodes}
        order = list(self.nodes)
        work = list(order)
        inw = set(work)
        OUT = {}
        for n in order:
            OUT[n] = {}
        while work:
            n = work.pop(0)
            inw.discard(n)
            i = {}
            for p, lab in n.pred:
                o = OUT[p]
                # an exceptional edge leaves before the assignment happens
                if lab == EXC and p.dst is not None:
                    o = IN[p]
                for v, ds in o.items():
                    cur = i.get(v)
                    i[v] = ds if cur is None else cur | ds
            IN[n] = i
            o = i
            if n.dst is not None and n.extra != 'init':
                o = dict(i)
                o[n.dst] = frozenset([n])
            if o != OUT[n]:
                OUT[n] = o
                for s, _ in n.succ:
                    if s not in inw:
                        inw.add(s)
                        work.append(s)
        self._rd = IN
        self._rd_out = OUT

    def defs(self, var, node):
        self._compute_rd()
        return self._rd[node].get(var, frozenset())

    def expand(self, term, node, depth=14, stop=None):
        """Substitute local variables by what reaches `node`"""
        self._compute_rd()
        return self._exp(term, node, depth, frozenset())

    def _exp(self, t, node, depth, seen):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k in ('c', 'p', 'g', 'ent', 'unk', 'default', 'func'):
            return t
        if k == 'super':
            return ('super', t[1], t[2], self._exp(t[3], node, depth, seen))
        if k == 'v':
            key = (t, node.id, depth, seen)
            if key in self._expand_cache:
                return self._expand_cache[key]
            r = self._exp_var(t, node, depth, seen)
            self._expand_cache[key] = r
            return r
        if depth <= 0:
            return ('unk', 'depth')
        if k == 'call':
            fn = self._exp(t[1], node, depth - 1, seen)
            return ('call', fn,
                    tuple(self._exp(a, node, depth - 1, seen)
                          for a in t[2]),
                    tuple((n, self._exp(a, node, depth - 1, seen))
                          for n, a in t[3]))
        return (k,) + tuple(self._exp(x, node, depth - 1, seen)
                            if isinstance(x, tuple) else x for x in t[1:])

    def _exp_var(self, t, node, depth, seen):
        ds = self.defs(t[1], node)
        if not ds:
            return t
        if depth <= 0:
            return t
        outs = []
        for d in sorted(ds, key=lambda d: d.id):
            if d in seen:
                outs.append(('loop', t[1]))
                continue
            outs.append(self._exp(d.term, d, depth - 1, seen | {d}))
        flat = []
        for o in outs:
            if o[0] == 'phi':
                flat += [x for x in o[1:] if x not in flat]
            elif o not in flat:
                flat.append(o)
        if len(flat) == 1:
            return flat[0]
        return ('phi',) + tuple(flat[:12])

    # dominating conditions
    def conds(self, node, _depth=0):
        """Atomic conditions that hold whenever `node` is reached: list of
        (expanded term, polarity, test node)"""
        key = ('conds', node.id, _depth)
        if key in self._reach_cache:
            return self._reach_cache[key]
        out = []
        self._reach_cache[key] = out
        for n in self.nodes:
            if n.kind not in ('test', 'iter') or not n.pred:
                continue
            for lab in ((True, False) if n.kind == 'test' else
                        ('item', 'end')):
                edges = [(s, l) for s, l in n.succ if l == lab]
                if not edges:
                    continue
                if n.kind == 'iter' and lab == 'end':
                    continue
                r = self._edge_cut(n, lab)
                if node not in r:
                    if n.kind == 'iter':
                        out.append((('iterating', self.expand(n.term, n)),
                                    True, n))
                        continue
                    t = n.term
                    out += [(a, p, n) for a, p in
                            flatten_cond(self.expand(t, n), lab)]
                    # jump threading through boolean variables
                    if t[0] == 'v' and _depth < 3:
                        ds = self.defs(t[1], n)
                        if len(ds) > 1:
                            ok = [d for d in ds if d.term[0] != 'c' or
                                  bool(d.term[1]) == lab]
                            if len(ok) == 1:
                                out += self.conds(ok[0], _depth + 1)
                                out += [(a, p, n) for a, p in flatten_cond(
                                    self.expand(ok[0].term, ok[0]), lab)]
        return out

    def _edge_cut(self, n, lab):
        key = ('cut', n.id, lab)
        if key not in self._reach_cache:
            self._reach_cache[key] = self.reachable(
                self.entry, labels=lambda a, b, l: not (a is n and l == lab),
                include_start=True)
        return self._reach_cache[key]

    # data dependence (flow-insensitive on mutators, flow-sensitive on
    # assignments)
    def deps(self, term, node, control=False):
        """Set of leaf terms `term` depends on at `node` (transitively), with
        attribute chains, calls and global names; includes values put into a
        local container by its mutating methods and item stores."""
        self._compute_rd()
        out = set()
        seen = set()
        todo = [(term, node)]
        muts = self._mutators()
        while todo:
            t, n = todo.pop()
            if not isinstance(t, tuple) or not t:
                continue
            if (t, n.id) in seen:
                continue
            seen.add((t, n.id))
            if len(seen) > 40000:
                out.add(('unk', 'limit'))
                break
            k = t[0]
            if k == 'v':
                ds = self.defs(t[1], n)
                if not ds:
                    out.add(t)
                for d in ds:
                    todo.append((d.term, d))
                    if d.kind == 'call':
                        out.add(('called', self.cname(d)))
                    if control:
                        for c, pol, tn in self.conds(d):
                            out.add(('ctl',) + (c,))
                for mt, mn in muts.get(t[1], ()):
                    todo.append((mt, mn))
                continue
            if k in ('attr', 'call', 'sub'):
                out.add(t)
                out.add(self.expand(t, n))
            if k in ('c', 'g', 'p', 'ent', 'default', 'unk'):
                out.add(t)
                continue
            if k == 'call':
                todo.append((t[1], n))
                for a in t[2]:
                    todo.append((a, n))
                for _, a in t[3]:
                    todo.append((a, n))
                fn = t[1]
                nm = fn[2] if fn[0] in ('attr', 'g') else None
                if nm:
                    out.add(('called', nm))
                continue
            for x in t[1:]:
                if isinstance(x, tuple):
                    todo.append((x, n))
        return out

    def _mutators(self):
        if 'mut' in self._reach_cache:
            return self._reach_cache['mut']
        m = {}
        for n in self.nodes:
            if not n.pred:
                continue
            if n.kind == 'call':
                fn = n.term[1]
                if fn[0] == 'attr' and fn[1][0] == 'v' and fn[2] in MUTATORS:
                    for a in n.term[2]:
                        m.setdefault(fn[1][1], []).append((a, n))
                    for _, a in n.term[3]:
                        m.setdefault(fn[1][1], []).append((a, n))
            elif n.kind == 'store' and n.target[0] in ('sub', 'attr'):
                b = n.target[1]
                if b[0] == 'v':
                    m.setdefault(b[1], []).append((n.term, n))
                    if n.target[0] == 'sub':
                        m.setdefault(b[1], []).append((n.target[2], n))
        self._reach_cache['mut'] = m
        return m


KEEPS = {'join', 'format', 'items', 'keys', 'values', 'get', 'copy', 'index',
         'count', 'startswith', 'endswith', 'split', 'exists'}
PURE = {'len', 'any', 'all', 'sorted', 'list', 'tuple', 'set', 'dict', 'str',
        'repr', 'isinstance', 'hasattr', 'enumerate', 'zip', 'iter', 'max',
        'min', 'sum', 'bool', 'reversed', 'frozenset', 'print', 'next',
        'getattr', 'map', 'filter', 'uniq', 'flatten'}
MUTATORS = {'append', 'extend', 'add', 'update', 'insert', 'setdefault',
            'push', 'appendleft', 'match_update', 'write', 'writelines'}


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def neg(t):
    if t[0] == 'cmp':
        return ('cmp', NEG[t[1]], t[2], t[3])
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def flatten_cond(t, pol):
    """Split a condition into atoms that must hold: [(atom, polarity)]"""
    if t[0] == 'not':
        return flatten_cond(t[1], not pol)
    if t[0] == 'and' and pol:
        return [x for s in t[1:] for x in flatten_cond(s, True)]
    if t[0] == 'or' and not pol:
        return [x for s in t[1:] for x in flatten_cond(s, False)]
    if t[0] == 'call' and t[1][0] == 'g' and t[1][2] == 'bool' and \
            len(t[2]) == 1:
        return flatten_cond(t[2][0], pol)
    if t[0] == 'cmp':
        if not pol:
            t = ('cmp', NEG[t[1]], t[2], t[3])
            pol = True
        # compare to True/False
        if t[1] in ('is', '==', 'is not', '!=') and t[3] in (
                ('c', True), ('c', False)) and t[2][0] in ('cmp', 'not',
                                                           'call', 'and',
                                                           'or'):
            want = (t[1] in ('is', '==')) == t[3][1]
            return [(t, True)] + flatten_cond(t[2], want)
        return [(t, True)]
    return [(t, pol)]


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple):
            continue
        yield x
        if x and x[0] == 'call':
            todo.append(x[1])
            todo.extend(x[2])
            todo.extend(a for _, a in x[3])
        else:
            todo.extend(y for y in x[1:] if isinstance(y, tuple))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def alts(t):
    """Alternatives of a term (phi / or / and)"""
    if t[0] == 'phi':
        out = []
        for x in t[1:]:
            out += alts(x)
        return out
    return [t]


def is_attr(t, name, base=None):
    return (isinstance(t, tuple) and len(t) == 3 and t[0] == 'attr' and
            t[2] == name and (base is None or base(t[1])))


def is_param(t, name=None):
    return (isinstance(t, tuple) and t and t[0] == 'p' and
            (name is None or t[1].split('.', 1)[1] == name))


def is_global(t, name=None):
    return (isinstance(t, tuple) and len(t) == 3 and t[0] == 'g' and
            (name is None or t[2] == name))


def call_name(t):
    if not isinstance(t, tuple) or not t or t[0] != 'call':
        return None
    fn = t[1]
    if fn[0] in ('attr', 'g'):
        return fn[2]
    if fn[0] == 'ent':
        e = fn[1]
        return (e.dotted.rsplit('.', 1)[-1] if isinstance(e, External) else
                getattr(e, 'name', None))
    return None


def path_str(t):
    """'self.a.b' for attribute chains, else None"""
    if t[0] in ('p', 'v'):
        return t[1].rsplit('.', 1)[-1]
    if t[0] == 'g':
        return t[2]
    if t[0] == 'attr':
        b = path_str(t[1])
        return None if b is None else b + '.' + t[2]
    if t[0] == 'ent':
        return getattr(t[1], 'dotted', getattr(t[1], 'name', None))
    return None
