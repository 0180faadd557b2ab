"""What a rule works with: the program model of /repo's current source, flow
graphs in which code that is new relative to the reviewed tree is inlined,
path traces, and the record of obligations checked."""
import json
import os

from .absint import Explore
from .ir import Graph, call_name, show
from .repo import (AnalysisBroken, ClassInfo, External, FuncInfo, Repo,
                   ValueRef)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Policy:
    """Which calls are replaced by the callee's body.  Functions that are not
    in the inventory of the reviewed tree (helpers extracted later) and nested
    functions always are; functions in the inventory only where a rule asks
    for it."""

    def __init__(self, known, inline=()):
        self.known, self.inline = known, set(inline)

    def __call__(self, callee, node):
        if callee.parent is not None or callee.name == '<lambda>':
            return True
        if callee.short not in self.known:
            return True
        return callee.short in self.inline or callee.name in self.inline

    def by_name(self, callee):
        return callee.short not in self.known or callee.short in self.inline


class Trace:
    """One class of paths through a function"""
    __slots__ = ('kind', 'value', 'ev', 'node', 'state', 'truth')

    def __init__(self, kind, value, ev, node, state):
        self.kind, self.value, self.ev = kind, value, ev
        self.node, self.state = node, state

    def has(self, *names):
        return all(any(e == n or isinstance(e, tuple) and e[0] == n
                       for e in self.ev) for n in names)

    def some(self, *names):
        return any(self.has(n) for n in names)

    def idx(self, name):
        for i, e in enumerate(self.ev):
            if e == name or isinstance(e, tuple) and e[0] == name:
                return i
        return -1

    def get(self, name):
        return [e for e in self.ev if isinstance(e, tuple) and e[0] == name]

    def count(self, name):
        return sum(1 for e in self.ev
                   if e == name or isinstance(e, tuple) and e[0] == name)

    def __repr__(self):
        return '%s %s %s' % (self.kind, show(self.value)
                             if self.value else '', list(self.ev))


def push(ts, e):
    """Append an event; runs that repeat are kept at most twice"""
    ts = ts + (e,)
    for n in (1, 2, 3, 4):
        if len(ts) >= 3 * n and ts[-n:] == ts[-2 * n:-n] == ts[-3 * n:-2 * n]:
            return ts[:-n]
    return ts[:80]


def is_head(n):
    return n.kind == 'iter' or n.extra == 'loophead'


def push_loop(g, ts, n, keep):
    """Mark that loop head n is visited.  Only the events of the last `keep`
    iterations are kept: what holds for the last iteration of every path
    holds for every iteration."""
    m = ('@', n.id)
    start = -1
    for i in range(len(ts) - 1, -1, -1):
        if ts[i][0] == '@' and ts[i] != m and ts[i][1] in g.outer_loops(n):
            start = i
            break
    pos = [i for i in range(start + 1, len(ts)) if ts[i] == m]
    if len(pos) > keep:
        ts = ts[:pos[0]] + ts[pos[1]:]
    return ts + (m,)


class Ctx:
    def __init__(self, pid, src='/repo/src'):
        self.pid = pid
        self.repo = Repo(src)
        with open(os.path.join(HERE, 'inventory.json')) as f:
            self.known = set(json.load(f)['functions'])
        self.obs = []          # (rule, construct, ok, where, msg)
        self.rules = {}
        self.analysed = set()
        self.paths = 0
        self.notes = []
        self._g = {}

    # ---------------------------------------------------------------- model
    def fn(self, spec):
        """'Class.method' or 'function' (optionally 'module:function')"""
        mod = None
        if ':' in spec:
            mod, spec = spec.split(':')
        if '.' in spec:
            c, m = spec.split('.')
            return self.repo.method(c, m, mod) if mod else \
                self.repo.method(c, m)
        return self.repo.func(spec, mod) if mod else self.repo.func(spec)

    def cls(self, name, mod=None):
        return self.repo.cls(name, mod) if mod else self.repo.cls(name)

    def graph(self, f, inline=(), self_cls=None, depth=5):
        if isinstance(f, str):
            f = self.fn(f)
        key = (f.qualname, f.node.lineno, tuple(sorted(inline)),
               self_cls.qualname if self_cls else None, depth)
        if key not in self._g:
            self._g[key] = Graph(self.repo, f, Policy(self.known, inline),
                                 self_cls=self_cls, max_depth=depth)
        self.analysed.add(f.short)
        for g in self._g[key].inlined_funcs:
            self.analysed.add(g.short)
        return self._g[key]

    def trace(self, g, classify, oracle=None, exc=False, limit=300,
              start_env=None, keep=1):
        """All path classes of g with the sequence of classified events"""
        def step(n, ts, env):
            if is_head(n):
                ts = push_loop(g, ts, n, keep)
            e = classify(n, env)
            if e is None:
                return ts
            if isinstance(e, list):
                for x in e:
                    ts = push(ts, x)
                return ts
            return push(ts, e)
        x = Explore(g, oracle=oracle, step=step, init=(), exc=exc,
                    limit=limit, start_env=start_env)
        if getattr(x, 'overflow', False):
            raise AnalysisBroken('too many paths in %s' % g.func.qualname)
        out, seen = [], set()
        for k, v, ts, st, n in x.exits:
            ev = tuple(e for e in ts if e[0] != '@')
            if (k, v, ev, n) in seen:
                continue
            seen.add((k, v, ev, n))
            t = Trace(k, v, ev, n, st)
            t.truth = x.truth(v, st) if v is not None else None
            out.append(t)
        self.paths += len(out)
        self.last = x
        return out

    # ---------------------------------------------------------- obligations
    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, construct, ok, where='', msg=''):
        self.obs.append((rule, construct, bool(ok), where, msg))
        return bool(ok)

    def need(self, rule, items, n, what):
        """A rule that finds fewer instances than were confirmed by hand has
        lost its grip on the code: analysis error, never a silent pass"""
        if len(items) < n:
            raise AnalysisBroken('%s: expected at least %d %s, found %d' %
                                 (rule, n, what, len(items)))

    def where(self, x):
        if hasattr(x, 'where'):
            return x.where()
        if isinstance(x, (FuncInfo, ClassInfo)):
            return '%s:%d' % (x.file, x.node.lineno)
        return str(x)


def all_functions(repo):
    return repo.functions


__all__ = ['Ctx', 'Trace', 'Policy', 'AnalysisBroken', 'call_name', 'show',
           'FuncInfo', 'ClassInfo', 'External', 'ValueRef']
