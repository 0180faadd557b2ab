"""Program model of the analysed package, built from source with the stdlib
``ast`` module only (the analysed code is never imported or executed)."""
import ast
import os


class AnalysisBroken(Exception):
    """The analysis cannot find the construct it has to decide on."""


class External:
    """A name that resolves outside of the analysed package."""
    __slots__ = ('dotted',)

    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return 'External(%s)' % self.dotted

    def __eq__(self, o):
        return isinstance(o, External) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)


class ValueRef:
    """A module level variable (not a function, class or module)."""
    __slots__ = ('module', 'name', 'node')

    def __init__(self, module, name, node):
        self.module, self.name, self.node = module, name, node

    def __repr__(self):
        return 'Value(%s.%s)' % (self.module.name, self.name)


class FuncInfo:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = (module, node, cls,
                                                         parent)
        self.name = getattr(node, 'name', '<lambda>')
        if cls is not None:
            self.qualname = cls.qualname + '.' + self.name
        elif parent is not None:
            self.qualname = parent.qualname + '.<locals>.' + self.name
        else:
            self.qualname = module.name + '.' + self.name
        self.nested = {}

    def __repr__(self):
        return 'Func(%s)' % self.qualname

    @property
    def short(self):
        return self.qualname.replace('disseminate.', '', 1)

    @property
    def file(self):
        return self.module.relpath

    @property
    def decorators(self):
        return [ast.unparse(d) for d in
                getattr(self.node, 'decorator_list', [])]

    @property
    def is_property(self):
        return any(d in ('property', 'abc.abstractproperty') or
                   d.endswith('cached_property') for d in self.decorators)

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    @property
    def params(self):
        """All parameter names in order (without * and **)"""
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def pos_params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def vararg(self):
        return self.node.args.vararg.arg if self.node.args.vararg else None

    @property
    def kwarg(self):
        return self.node.args.kwarg.arg if self.node.args.kwarg else None

    def default_of(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        off = len(pos) - len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == name:
                return a.defaults[i - off] if i >= off else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def bound_params(self):
        """Positional parameter names after binding self/cls"""
        p = self.pos_params
        if self.cls is not None and not self.is_static and p:
            return p[1:]
        return p

    def accepts_kw(self, name):
        return self.kwarg is not None or name in self.params

    def required(self):
        """Names of required parameters (self/cls excluded)"""
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = pos[:len(pos) - len(a.defaults)]
        if self.cls is not None and not self.is_static and req:
            req = req[1:]
        req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is None]
        return req


def walk_own(node):
    """Walk a function's own nodes; do not enter nested defs/lambdas."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node = module, node
        self.name = node.name
        self.qualname = module.name + '.' + node.name
        self.own = {}        # name -> FuncInfo | ast expr
        self.setters = {}
        self.all_defs = []   # every FuncInfo, including setters/duplicates
        self.duplicates = []
        for st in _flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(module, st, cls=self)
                self.all_defs.append(fi)
                decs = [ast.unparse(d) for d in st.decorator_list]
                if any(d.endswith('.setter') or d.endswith('.deleter')
                       for d in decs):
                    self.setters[st.name] = fi
                else:
                    if isinstance(self.own.get(st.name), FuncInfo):
                        self.duplicates.append(st.name)
                    self.own[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.own[t.id] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.own[st.target.id] = st.value

    def __repr__(self):
        return 'Class(%s)' % self.qualname

    @property
    def short(self):
        return self.qualname.replace('disseminate.', '', 1)

    @property
    def file(self):
        return self.module.relpath


def _flat(body):
    for st in body:
        if isinstance(st, ast.If):
            yield from _flat(st.body)
            yield from _flat(st.orelse)
        elif isinstance(st, ast.Try):
            yield from _flat(st.body)
            for h in st.handlers:
                yield from _flat(h.body)
            yield from _flat(st.orelse)
            yield from _flat(st.finalbody)
        elif isinstance(st, ast.With):
            yield from _flat(st.body)
        else:
            yield st


class Module:
    def __init__(self, name, path, relpath, is_pkg):
        self.name, self.path, self.relpath, self.is_pkg = (name, path,
                                                           relpath, is_pkg)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.bindings = {}   # name -> list of (kind, payload) in order

    def _bind(self, name, kind, payload):
        self.bindings.setdefault(name, []).append((kind, payload))

    def index(self, repo):
        for st in _flat(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(self, st)
                repo._index_nested(fi)
                self._bind(st.name, 'func', fi)
                repo.functions.append(fi)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(self, st)
                self._bind(st.name, 'class', ci)
                repo.classes.append(ci)
                for fi in ci.all_defs:
                    repo._index_nested(fi)
                    repo.functions.append(fi)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(
                                n.ctx, ast.Store):
                            self._bind(n.id, 'value', st.value
                                       if isinstance(t, ast.Name) else None)
            elif isinstance(st, ast.AnnAssign) and isinstance(
                    st.target, ast.Name):
                self._bind(st.target.id, 'value', st.value)
            elif isinstance(st, (ast.For, ast.AugAssign)):
                t = st.target
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self._bind(n.id, 'rebind', None)
            elif isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._bind(t.id, 'del', None)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self._bind(a.asname, 'import', a.name)
                    else:
                        top = a.name.split('.')[0]
                        self._bind(top, 'import', top)
                    repo.import_edges.append((self, a.name, None))
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(st.module, st.level)
                for a in st.names:
                    repo.import_edges.append((self, base, a.name))
                    if a.name != '*':
                        self._bind(a.asname or a.name, 'from',
                                   (base, a.name))

    def _abs(self, mod, level):
        if level == 0:
            return mod or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([mod] if mod else []))


class Repo:
    def __init__(self, src='/repo/src', package='disseminate'):
        self.src, self.package = src, package
        self.modules = {}
        self.functions = []
        self.classes = []
        self.import_edges = []
        root = os.path.join(src, package)
        if not os.path.isdir(root):
            raise AnalysisBroken('source package not found at ' + root)
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, src)
                name = rel[:-3].replace(os.sep, '.')
                is_pkg = False
                if name.endswith('.__init__'):
                    name, is_pkg = name[:-9], True
                try:
                    m = Module(name, path, os.path.join('src', rel), is_pkg)
                except SyntaxError as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (path, e))
                self.modules[name] = m
        for m in self.modules.values():
            m.index(self)
        self._mro = {}
        self.by_method = {}
        for c in self.classes:
            for n, v in c.own.items():
                if isinstance(v, FuncInfo):
                    self.by_method.setdefault(n, []).append(v)

    def _index_nested(self, fi):
        for n in walk_own(fi.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                sub = FuncInfo(fi.module, n, parent=fi)
                sub.cls_ctx = fi.cls or getattr(fi, 'cls_ctx', None)
                fi.nested[n.name] = sub
                self._index_nested(sub)
                self.functions.append(sub)

    # -- resolution -----------------------------------------------------
    def resolve_global(self, module, name, seen=()):
        """Resolve a module level name to an entity"""
        if (module.name, name) in seen:
            return None
        seen = seen + ((module.name, name),)
        b = module.bindings.get(name)
        if not b:
            sub = self.modules.get(module.name + '.' + name)
            if module.is_pkg and sub is not None:
                return sub
            return None
        kind, payload = b[-1]
        if kind in ('func', 'class'):
            return payload
        if kind == 'value':
            # simple aliases of functions/classes
            if isinstance(payload, (ast.Name, ast.Attribute)):
                e = self.resolve_expr(module, payload, seen)
                if isinstance(e, (FuncInfo, ClassInfo, Module)):
                    return e
            return ValueRef(module, name, payload)
        if kind == 'import':
            return self.modules.get(payload) or External(payload)
        if kind == 'from':
            base, sym = payload
            bm = self.modules.get(base)
            if bm is None:
                return External(base + '.' + sym)
            e = self.resolve_global(bm, sym, seen)
            if e is not None:
                return e
            sub = self.modules.get(base + '.' + sym)
            return sub
        return None

    def resolve_expr(self, module, node, seen=()):
        if isinstance(node, ast.Name):
            return self.resolve_global(module, node.id, seen)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value, seen)
            return self.member(b, node.attr, seen)
        return None

    def member(self, b, attr, seen=()):
        if isinstance(b, Module):
            return self.resolve_global(b, attr, seen)
        if isinstance(b, External):
            return External(b.dotted + '.' + attr)
        if isinstance(b, ClassInfo):
            owner, v = self.lookup(b, attr)
            if isinstance(v, FuncInfo):
                return v
            if v is not None:
                return ValueRef(owner.module, owner.name + '.' + attr, v)
        return None

    # -- classes ----------------------------------------------------------
    def bases(self, ci):
        out = []
        for b in ci.node.bases:
            e = self.resolve_expr(ci.module, b)
            out.append(e)
        return out

    def mro(self, ci):
        if ci in self._mro:
            return self._mro[ci]
        self._mro[ci] = [ci]
        seqs = []
        bases = [b for b in self.bases(ci) if isinstance(b, ClassInfo)]
        for b in bases:
            seqs.append(list(self.mro(b)))
        seqs.append(list(bases))
        out = [ci]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[ci] = out
        return out

    def external_bases(self, ci):
        out = []
        for c in self.mro(ci):
            for b in self.bases(c):
                if isinstance(b, External):
                    out.append(b.dotted)
        return out

    def lookup(self, ci, attr):
        for c in self.mro(ci):
            if attr in c.own:
                return c, c.own[attr]
        return None, None

    def lookup_super(self, defining, attr, start=None):
        """super().attr from a method defined in `defining` for an instance
        of class `start`"""
        mro = self.mro(start or defining)
        if defining in mro:
            mro = mro[mro.index(defining) + 1:]
        for c in mro:
            if attr in c.own:
                return c, c.own[attr]
        return None, None

    def is_subclass(self, ci, base):
        return base in self.mro(ci)

    def subclasses(self, base, strict=True):
        return [c for c in self.classes if self.is_subclass(c, base) and
                (not strict or c is not base)]

    # -- anchors ------------------------------------------------------------
    def module(self, name):
        full = self.package + '.' + name if name else self.package
        m = self.modules.get(full)
        if m is None:
            raise AnalysisBroken('module %s is gone' % full)
        return m

    def cls(self, name, mod=None):
        """Find a class by name (optionally within a module prefix)"""
        c = [x for x in self.classes if x.name == name and
             (mod is None or x.module.name.startswith(
                 self.package + '.' + mod))]
        if len(c) != 1:
            raise AnalysisBroken('class %s: %d candidates' % (name, len(c)))
        return c[0]

    def method(self, cname, mname, mod=None, inherited=True):
        ci = self.cls(cname, mod)
        owner, v = self.lookup(ci, mname) if inherited else (
            ci, ci.own.get(mname))
        if not isinstance(v, FuncInfo):
            raise AnalysisBroken('method %s.%s is gone' % (cname, mname))
        return v

    def func(self, name, mod=None):
        c = [f for f in self.functions if f.name == name and f.cls is None and
             f.parent is None and
             (mod is None or f.module.name.startswith(
                 self.package + '.' + mod))]
        if len(c) != 1:
            raise AnalysisBroken('function %s: %d candidates' %
                                 (name, len(c)))
        return c[0]

    def const(self, modname, name):
        """Statically evaluate a module level constant"""
        m = self.module(modname)
        b = m.bindings.get(name)
        if not b or b[-1][0] != 'value' or b[-1][1] is None:
            raise AnalysisBroken('constant %s.%s is gone' % (modname, name))
        return self.eval_const(m, b[-1][1])

    def eval_const(self, module, node, depth=0):
        """Evaluate literal expressions (no calls into the analysed code)"""
        if depth > 30:
            raise ValueError('too deep')

        def ev(n):
            return self.eval_const(module, n, depth + 1)
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Tuple):
            return tuple(self._seq(module, node.elts, depth))
        if isinstance(node, ast.List):
            return list(self._seq(module, node.elts, depth))
        if isinstance(node, ast.Set):
            return set(self._seq(module, node.elts, depth))
        if isinstance(node, ast.Dict):
            d = {}
            for k, v in zip(node.keys, node.values):
                if k is None:
                    d.update(ev(v))
                else:
                    d[ev(k)] = ev(v)
            return d
        if isinstance(node, ast.UnaryOp):
            v = ev(node.operand)
            if isinstance(node.op, ast.USub):
                return -v
            if isinstance(node.op, ast.Not):
                return not v
        if isinstance(node, ast.BinOp):
            l, r = ev(node.left), ev(node.right)
            t = type(node.op)
            if t is ast.Add:
                return l + r
            if t is ast.Mult:
                return l * r
            if t is ast.Sub:
                return l - r
            if t is ast.Pow and isinstance(r, int) and abs(r) < 100:
                return l ** r
            if t is ast.BitOr:
                return l | r
            if t is ast.Mod and isinstance(l, str):
                return l % r
            if t is ast.FloorDiv:
                return l // r
            if t is ast.Div:
                return l / r
        if isinstance(node, (ast.Name, ast.Attribute)):
            e = self.resolve_expr(module, node)
            if isinstance(e, ValueRef) and e.node is not None:
                return self.eval_const(e.module, e.node, depth + 1)
            if isinstance(e, (FuncInfo, ClassInfo)):
                return e
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Name) and f.id in (
                    'tuple', 'list', 'set', 'dict', 'frozenset', 'str',
                    'int') and self.resolve_global(module, f.id) is None:
                fn = {'tuple': tuple, 'list': list, 'set': set, 'dict': dict,
                      'frozenset': frozenset, 'str': str, 'int': int}[f.id]
                return fn(*[ev(a) for a in node.args],
                          **{k.arg: ev(k.value) for k in node.keywords})
            if isinstance(f, ast.Attribute) and f.attr in (
                    'union', 'format', 'join', 'split', 'lower', 'keys',
                    'values', 'items', 'copy'):
                return getattr(ev(f.value), f.attr)(*[ev(a)
                                                      for a in node.args])
        raise ValueError('not a constant: ' + ast.dump(node)[:80])

    def _seq(self, module, elts, depth):
        for e in elts:
            if isinstance(e, ast.Starred):
                yield from self.eval_const(module, e.value, depth + 1)
            else:
                yield self.eval_const(module, e, depth + 1)

    def class_const(self, ci, attr, default=None):
        owner, v = self.lookup(ci, attr)
        if v is None:
            return default
        if isinstance(v, FuncInfo):
            return v
        try:
            return self.eval_const(owner.module, v)
        except (ValueError, TypeError, KeyError):
            return v
