"""Which objects a function changes: stores, deletions, calls of mutating
methods of the built-in containers, in-place operators, and calls of functions
that (by their own summary) change their arguments.  Roots are followed per
path, so `a = x or y.copy()` only counts as a change of x on the path on which
it is x."""
from .common import *

MUTATING = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear',
            'update', 'setdefault', 'sort', 'reverse', 'add', 'discard',
            'appendleft', 'popleft', 'extendleft', 'difference_update',
            'intersection_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', '__setattr__', 'move_to_end',
            'set', 'match_update'}
# calls whose value is (part of) the receiver or first argument
VIEW = {'get', 'setdefault', 'values', 'items', 'keys', 'pop'}
VIEWF = {'getattr', 'iter', 'next', 'reversed', 'enumerate', 'zip', 'filter',
         'elem'}


def root(t, path=()):
    """-> (root term, path of attribute names) of the object a term denotes;
    a call that makes a new object is its own root"""
    k = t[0]
    if k == 'attr':
        return root(t[1], (t[2],) + path)
    if k == 'sub':
        i = S(t[2]) if t[2][0] == 'c' else '[]'
        return root(t[1], ('[%s]' % i if i != '[]' else '[]',) + path)
    if k == 'elem':
        return root(t[1], ('[]',) + path)
    if k == 'call':
        if t[1][0] == 'attr' and t[1][2] in VIEW:
            key = '[%s]' % S(t[2][0]) if t[2] and t[2][0][0] == 'c' else '[]'
            return root(t[1][1], (key,) + path)
        if t[1][0] == 'g' and t[1][2] in VIEWF and t[2]:
            return root(t[2][0], ('[]',) + path)
        if t[1][0] == 'g' and t[1][2] == 'getattr':
            return root(t[2][0], (S(t[2][1]),) + path)
    if k == 'super':
        return root(t[3], path)
    if k in ('or', 'and') or k == 'ifexp' or k == 'phi':
        return (t, path)
    return (t, path)


def roots(t):
    """All roots of a term that may be one of several"""
    if t[0] in ('or', 'and', 'phi'):
        return [r for x in t[1:] if isinstance(x, tuple) for r in roots(x)]
    if t[0] == 'ifexp':
        return roots(t[2]) + roots(t[3])
    r, p = root(t)
    if r[0] in ('or', 'and', 'phi', 'ifexp'):
        return [(a, b + p) for a, b in roots(r)]
    return [(r, p)]


BUILTIN = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set))


class Purity:
    def __init__(self, ctx, modules, extra=(), limit=300, lazy=()):
        self.ctx = ctx
        self.funcs = [f for f in ctx.repo.functions
                      if f.module.name.startswith(tuple(modules)) and
                      f.parent is None]
        self.sum = {f: set() for f in self.funcs}
        self.calls = {}
        self.limit = limit
        self.lazy = set(lazy)       # what they fill is not a change
        for f in self.funcs:
            self._local(f)
        self._close()

    def _local(self, f):
        g = self.ctx.graph(f)
        seen, calls = set(), set()

        def mut(term, node, how):
            for r, p in roots(term):
                if r[0] == 'p':
                    seen.add((r[1].split('.', 1)[-1], p, node, how))
                elif r[0] == 'g':
                    seen.add(('<global>', (r[2],) + p, node, how))

        def classify(n, env):
            if n.kind == 'store':
                b = env.ev(n.target[1])
                if n.target[0] == 'attr':
                    mut(('attr', b, n.target[2]), n, 'assigned')
                else:
                    mut(b, n, 'item assigned')
            elif n.kind == 'del':
                mut(env.ev(n.target[1]), n, 'deleted from')
            elif n.kind == 'asg' and n.term[0] == 'aug':
                b = env.ev(n.term[2])
                if b[0] in ('attr', 'sub', 'elem', 'p', 'call') and \
                        env.ev(n.term[3])[0] in ('list', 'comp', 'attr',
                                                 'call'):
                    # only containers are changed in place
                    mut_aug(b, n)
            elif n.kind in ('call', 'prop') and n.inlined is None:
                t = n.term
                if n.kind == 'call':
                    fn = t[1]
                    if fn[0] == 'attr':
                        recv = env.ev(fn[1])
                        if fn[2] in MUTATING and not (
                                self.exact(g, n) and
                                n.callees[0] in self.sum):
                            mut(recv, n, fn[2] + '()')
                    elif fn[0] == 'g' and fn[2] in ('setattr', 'delattr') \
                            and t[2]:
                        a = env.ev(t[2][0])
                        nm = t[2][1] if len(t[2]) > 1 else ('c', '?')
                        nm = env.ev(nm)
                        mut(('attr', a, nm[1] if nm[0] == 'c' else '?'), n,
                            fn[2])
                    cs = [c for c in n.callees if c in self.sum] if \
                        self.exact(g, n) else []
                    if cs:
                        recv = env.ev(fn[1]) if fn[0] == 'attr' and \
                            fn[1][0] != 'super' else env.ev(fn[1][3]) if \
                            fn[0] == 'attr' else None
                        args = tuple(env.ev(a) for a in t[2])
                        kws = tuple((k, env.ev(a)) for k, a in t[3])
                        calls.add((tuple(cs), recv, args, kws, n))
            return None

        def mut_aug(b, n):
            mut(b, n, 'in-place operator')
        try:
            self.ctx.trace(g, classify, limit=self.limit)
        except AnalysisBroken:
            # too many paths: without regard to paths
            class Flat:
                pass
            for n in g.nodes:
                if n.pred and n.kind != 'nop':
                    env = Flat()
                    env.ev = lambda t, n=n: g.expand(t, n)
                    classify(n, env)
        self.sum[f] = {(a, p) for a, p, n, h in seen}
        self.sites = getattr(self, 'sites', {})
        for a, p, n, h in seen:
            self.sites.setdefault((f, a, p), []).append((n, h))
        self.calls[f] = calls

    def _close(self):
        changed = True
        while changed:
            changed = False
            for f in self.funcs:
                for cs, recv, args, kws, n in self.calls[f]:
                    for c in cs:
                        if c is f or c in self.lazy:
                            continue
                        for a, p in list(self.sum[c]):
                            for t in self._arg(c, a, recv, args, kws):
                                for r, q in roots(t):
                                    if r[0] == 'p':
                                        x = (r[1].split('.', 1)[-1],
                                             (q + p)[:4])
                                        if x not in self.sum[f]:
                                            self.sum[f].add(x)
                                            self.sites.setdefault(
                                                (f,) + x, []).append(
                                                    (n, 'by ' + c.short))
                                            changed = True

    @staticmethod
    def exact(g, n):
        cands, exact, rc, recv = g.resolve_callee(n.term[1]) if \
            n.kind == 'call' else (n.callees, False, None, None)
        return len(cands) == 1 and (exact or rc is not None or
                                    cands[0].name not in BUILTIN)

    @staticmethod
    def _arg(c, name, recv, args, kws):
        if name == '<global>':
            return []
        pos = c.pos_params
        if c.cls is not None and not c.is_static and pos and \
                pos[0] == name:
            return [recv] if recv is not None and c.name != '__init__' \
                else []
        for k, t in kws:
            if k == name:
                return [t]
        if c.cls is not None and not c.is_static:
            pos = pos[1:]
        if name in pos and pos.index(name) < len(args):
            return [args[pos.index(name)]]
        return []
