"""Path-sensitive finite dataflow over a Graph.

The abstract state maps local variables (and stored attributes) to terms,
remembers which branch conditions were taken, and carries a typestate value
advanced by a rule's ``step`` function.  Conditions the rule makes an
assumption about are decided by its ``oracle``; all other conditions are
followed both ways.  Loops are iterated to a fixpoint with a bound on the
number of states per node (beyond it states are generalised, which only adds
paths)."""
from .ir import (Graph, NORMAL, EXC, NEG, call_name, show, subterms)
from .repo import External

TRUE, FALSE = ('c', True), ('c', False)
TRUTHY, FALSY = ('truthy',), ('falsy',)
MAXDEPTH = 18


def tdepth(t):
    if not isinstance(t, tuple):
        return 0
    m = 0
    for x in subterms_shallow(t):
        d = tdepth(x)
        if d > m:
            m = d
        if m > MAXDEPTH:
            return m + 1
    return m + 1


def subterms_shallow(t):
    if t[:1] == ('call',):
        yield t[1]
        yield from t[2]
        for _, a in t[3]:
            yield a
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                yield x


class State:
    __slots__ = ('env', 'facts', 'ts', '_h')

    def __init__(self, env, facts, ts):
        self.env, self.facts, self.ts = env, facts, ts
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (frozenset(self.env.items()),
                       frozenset(self.facts.items()), self.ts)
        return self._h


def canon_cmp(t):
    """-> (canonical positive comparison, polarity)"""
    op, a, b = t[1], t[2], t[3]
    pol = True
    if op in ('!=', 'is not', 'not in', '>=', '>'):
        if op in ('!=', 'is not', 'not in'):
            op, pol = NEG[op], False
        elif op == '>=':            # a >= b  ==  not a < b
            op, pol = '<', False
        else:                       # a > b   ==  b < a
            op, a, b = '<', b, a
    elif op == '<=':                # a <= b  ==  not b < a
        op, a, b, pol = '<', b, a, False
    if op in ('==', 'is') and (a[0] == 'c' and b[0] != 'c'):
        a, b = b, a
    if op == 'is' and b[0] == 'c' and b[1] is not None:
        op = '=='
    if op == '==' and b == ('c', None):
        op = 'is'
    # emptiness tests
    for x, y, swap in ((a, b, False), (b, a, True)):
        if call_name(x) == 'len' and x[1][0] in ('g',) and y[0] == 'c':
            v = x[2][0] if x[2] else None
            n = y[1]
            if v is None:
                continue
            if op == '==' and n == 0:
                return v, not pol
            if op == '<' and not swap and n == 1:     # len < 1
                return v, not pol
            if op == '<' and swap and n == 0:         # 0 < len
                return v, pol
    if op == '==' and b in (('c', ''), ('list',), ('tuple',), ('dict',),
                            ('c', ())):
        pass
    return ('cmp', op, a, b), pol


class Explore:
    def __init__(self, g, oracle=None, step=None, init=None, exc=True,
                 limit=160, start_env=None, maxsteps=120000):
        self.g, self.oracle, self.stepf = g, oracle, step
        self.exc, self.limit = exc, limit
        self.states = {}
        self.exits = []          # (kind, value, ts, state, node)
        self.maxsteps = maxsteps
        self.live = liveness(g)
        self._imp = {}
        self.generalised = 0
        st = State(dict(start_env or {}), {}, init)
        self._run(st)

    # ----------------------------------------------------------- evaluation
    def ev(self, t, st):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k in ('c', 'ent', 'default', 'func'):
            return t
        if k in ('p', 'g'):
            return self._orc(t)
        if k == 'unk':
            return t
        if k == 'v':
            r = st.env.get(t[1])
            return r if r is not None else self._orc(('unk', t[1]))
        if k == 'super':
            return ('super', t[1], t[2], self.ev(t[3], st))
        if k == 'call':
            return self._call(t, st)
        if k == 'attr':
            b = self.ev(t[1], st)
            r = ('attr', b, t[2])
            h = st.env.get(r)
            if h is not None:
                return h
            return self._orc(r)
        if k == 'sub':
            b, i = self.ev(t[1], st), self.ev(t[2], st)
            r = ('sub', b, i)
            h = st.env.get(r)
            if h is not None:
                return h
            if b[0] in ('tuple', 'list') and i[0] == 'c' and \
                    isinstance(i[1], int) and not isinstance(i[1], bool):
                e = b[1:]
                if -len(e) <= i[1] < len(e) and not any(
                        x[0] == 'star' for x in e):
                    return e[i[1]]
            return self._orc(r)
        if k in ('and', 'or'):
            vals = t[1:]
            for i, v in enumerate(vals):
                x = self.ev(v, st)
                if i == len(vals) - 1:
                    return x
                tv = self.truth(x, st)
                if tv is None:
                    return (k,) + tuple(self.ev(y, st) for y in vals[i:])
                if k == 'and' and tv is False:
                    return x
                if k == 'or' and tv is True:
                    return x
            return ('unk', k)
        if k == 'not':
            x = self.ev(t[1], st)
            tv = self.truth(x, st)
            return ('c', not tv) if tv is not None else ('not', x)
        if k == 'cmp':
            r = ('cmp', t[1], self.ev(t[2], st), self.ev(t[3], st))
            tv = self.truth(r, st)
            return ('c', tv) if tv is not None else r
        r = (k,) + tuple(self.ev(x, st) if isinstance(x, tuple) else x
                         for x in t[1:])
        if k == 'aug':
            r = ('op',) + r[1:]
            k = 'op'
            if r[1] in '|&':
                # idempotent: x | a | a is x | a
                x = r[2]
                while x[0] == 'op' and x[1] == r[1]:
                    if x[3] == r[3]:
                        return r[2]
                    x = x[2]
                if x == r[3]:
                    return r[2]
            if tdepth(r[2]) > (9 if call_name(r[2]) == 'list' else 4) or (r[2][0] == 'c' and
                                    isinstance(r[2][1], int) and
                                    abs(r[2][1]) > 3):
                return ('unk', 'aug')
        if k == 'op' and len(r) == 4 and r[2][0] == 'c' and r[3][0] == 'c':
            r = fold(r)
        if tdepth(r) > MAXDEPTH:
            return ('unk', 'deep')
        return self._orc(r)

    def _call(self, t, st):
        fn = self.ev(t[1], st) if t[1][0] != 'g' else t[1]
        args = tuple(self.ev(a, st) for a in t[2])
        kws = tuple((n, self.ev(a, st)) for n, a in t[3])
        if fn[0] == 'g' and fn[2] in ('getattr', 'bool') and not kws:
            if fn[2] == 'bool' and len(args) == 1:
                tv = self.truth(args[0], st)
                return ('c', tv) if tv is not None else args[0]
            if fn[2] == 'getattr' and len(args) >= 2 and \
                    args[1][0] == 'c' and isinstance(args[1][1], str):
                if len(args) == 3 and self.truth(
                        ('call', ('g', fn[1], 'hasattr'), args[:2], ()),
                        st) is False:
                    return args[2]
                r = ('attr', args[0], args[1][1])
                h = st.env.get(r)
                if h is not None:
                    return h
                return self._orc(r)
        r = ('call', fn, args, kws)
        if fn[0] == 'g' and fn[2] == 'isinstance' and len(args) == 2 and \
                args[0][0] == 'c':
            v = const_isinstance(args[0][1], args[1])
            if v is not None:
                return ('c', v)
        if tdepth(r) > MAXDEPTH:
            return ('unk', 'deep')
        return self._orc(r)

    def _orc(self, t):
        if t[0] == 'attr' and t[1][0] == 'attr' and \
                t[1][1][0] == 'attr' and t[2] == t[1][2] == t[1][1][2]:
            # following a chain: x.f.f stands for any later element
            return t[1]
        if self.oracle is not None:
            r = self.oracle(t)
            if isinstance(r, tuple):
                return r
        return t

    def truth(self, t, st):
        """True / False / None for an evaluated term"""
        k = t[0]
        if k == 'c':
            return bool(t[1])
        if k == 'truthy':
            return True
        if k == 'falsy':
            return False
        if self.oracle is not None and k not in ('not', 'and', 'or', 'cmp'):
            # assumptions about the truth of a value
            r = self.oracle(t)
            if r is True or r is False:
                return r
        if t in st.facts:
            return st.facts[t]
        if k == 'not':
            v = self.truth(t[1], st)
            return None if v is None else not v
        if k in ('and', 'or'):
            vs = [self.truth(x, st) for x in t[1:]]
            if k == 'and':
                if False in vs:
                    return False
                return True if all(v is True for v in vs) else None
            if True in vs:
                return True
            return False if all(v is False for v in vs) else None
        if k == 'cmp':
            c, pol = canon_cmp(t)
            if c[0] != 'cmp':
                v = self.truth(c, st)
                return None if v is None else (v == pol)
            v = self._cmp(c, st)
            return None if v is None else (v == pol)
        if k in ('list', 'tuple', 'set', 'dict', 'fstr'):
            if k == 'fstr':
                return True if any(x[0] == 'c' and x[1] for x in t[1:]) \
                    else None
            if len(t) == 1:
                return False
            return True if not any(x[0] == 'star' for x in t[1:]) else None
        if k in ('func', 'ent'):
            return True
        if k == 'comp' and t[1] != 'gen' or call_name(
                t) == 'len' and t[1][0] == 'g' and len(t[2]) == 1:
            v = self._elements(t if k == 'comp' else t[2][0])
            if v is not None:
                return v
        # value known through an equality fact
        for f, v in st.facts.items():
            if v and f[0] == 'cmp' and f[1] in ('==', 'is') and f[2] == t \
                    and f[3][0] == 'c':
                return bool(f[3][1])
        return None

    def _cmp(self, c, st):
        op, a, b = c[1], c[2], c[3]
        if self.oracle is not None:
            r = self.oracle(c)
            if r is True or r is False:
                return r
            if isinstance(r, tuple) and r[0] == 'c':
                return bool(r[1])
        if c in st.facts:
            return st.facts[c]
        if a[0] == 'c' and b[0] == 'c':
            try:
                if op == '==':
                    return a[1] == b[1]
                if op == 'is':
                    return a[1] is b[1]
                if op == '<':
                    return a[1] < b[1]
                if op == 'in':
                    return a[1] in b[1]
            except TypeError:
                return None
        if call_name(a) == 'len' or call_name(b) == 'len':
            v = self._len_cmp(op, a, b)
            if v is not None:
                return v
        if op in ('==', 'is') and a == b and a[0] in ('p', 'c', 'attr', 'g'):
            return True
        if op == 'is' and b == ('c', None):
            if a[0] in ('truthy', 'list', 'tuple', 'dict', 'set', 'fstr',
                        'comp', 'func', 'op'):
                return False
            if self.truth(a, st) is True:
                return False
            for f, v in st.facts.items():
                if v and f[0] == 'cmp' and f[1] == '==' and f[2] == a and \
                        f[3][0] == 'c' and f[3][1] is not None:
                    return False
        if op == '==' and b[0] == 'c':
            # a known to equal something else
            for f, v in st.facts.items():
                if v and f[0] == 'cmp' and f[1] == '==' and f[2] == a and \
                        f[3][0] == 'c' and f[3] != b:
                    return False
                if v and f == ('cmp', 'is', a, ('c', None)):
                    return False
            if isinstance(b[1], bool) and a[0] not in ('v', 'unk'):
                tv = self.truth(a, st)
                if a[0] in ('cmp', 'not') or call_name(a) in BOOLEAN:
                    return None if tv is None else tv == b[1]
        if op == 'in' and a[0] == 'c' and b[0] in ('tuple', 'list', 'set') \
                and all(x[0] == 'c' for x in b[1:]):
            return any(x[1] == a[1] for x in b[1:])
        if op == 'in' and b[0] in ('tuple', 'list', 'set'):
            # membership in a literal collection, through facts
            vs = [self._cmp(('cmp', '==', a, x), st) for x in b[1:]]
            if True in vs:
                return True
            if vs and all(v is False for v in vs):
                return False
        return None

    # ------------------------------------------------------------- running
    def _assume(self, t, pol, st):
        """New facts after a branch; None when contradictory"""
        facts = dict(st.facts)

        def put(t, pol):
            k = t[0]
            if k == 'not':
                return put(t[1], not pol)
            if k == 'and' and pol:
                for x in t[1:]:
                    put(x, True)
                return
            if k == 'or' and not pol:
                for x in t[1:]:
                    put(x, False)
                return
            if k == 'cmp':
                c, p = canon_cmp(t)
                if c[0] != 'cmp':
                    return put(c, pol == p)
                facts[c] = (pol == p)
                return
            facts[t] = pol
        put(t, pol)
        return State(st.env, facts, st.ts)

    def _transfer(self, n, st):
        """State after executing node n (normal completion)"""
        env = st.env
        ts = st.ts
        facts = st.facts
        if self.stepf is not None and (n.kind != 'nop' or
                                       n.extra == 'loophead'):
            r = self.stepf(n, ts, Env(self, st))
            if r is not None:
                ts = r
        if n.dst is not None and n.term is not None:
            v = self.ev(n.term, st)
            if n.kind == 'call' and n.inlined is not None:
                pass
            else:
                env = dict(env)
                env[n.dst] = v
        elif n.kind == 'store':
            tg = n.target
            if tg[0] in ('attr', 'sub'):
                key = (tg[0], self.ev(tg[1], st)) + (
                    (tg[2],) if tg[0] == 'attr' else
                    (self.ev(tg[2], st),))
                v = self.ev(n.term, st)
                env = dict(env)
                # a store may alias other bases with the same field
                for e in [e for e in env if isinstance(e, tuple) and
                          e[0] == key[0] and e[2] == key[2] and
                          e[1] != key[1]]:
                    del env[e]
                env[key] = v
                drop = [f for f in facts if mentions_field(f, key)]
                if drop:
                    facts = {f: v for f, v in facts.items()
                             if f not in drop}
        if n.kind == 'call' and n.inlined is None:
            # a method call may change what it was called on
            fn = n.term[1]
            if fn[0] == 'attr' and fn[2] in MUTATES:
                b = self.ev(fn[1], st)
                facts = {f: v for f, v in facts.items()
                         if not any(x == b for x in subterms(f))}
        elif n.kind == 'del' and n.target[0] == 'attr' or \
                n.kind == 'del' and n.target[0] == 'sub':
            tg = n.target
            key = (tg[0], self.ev(tg[1], st)) + (
                (tg[2],) if tg[0] == 'attr' else (self.ev(tg[2], st),))
            if key in env:
                env = {k: v for k, v in env.items() if k != key}
            drop = [f for f in facts if mentions_field(f, key)]
            if drop:
                facts = {f: v for f, v in facts.items() if f not in drop}
        if n.extra == 'loophead' or n.kind == 'iter':
            facts = {}
        if n.kind == 'iter' and any(isinstance(k, tuple) for k in env):
            # the next element is another one: forget what was stored under
            # the last one
            el = ('elem', self.ev(n.term, st))
            env = {k: v for k, v in env.items() if not (
                isinstance(k, tuple) and any(x == el for x in subterms(k)))}
        return State(env, facts, ts)

    def _impure(self, t):
        r = self._imp.get(t)
        if r is None:
            r = self._imp[t] = any(x[0] in ('call', 'elem', 'unk', 'comp')
                                   for x in subterms(t))
        return r

    def _prune(self, n, st):
        """Forget dead variables and facts that can no longer be asked"""
        live = self.live[n]
        env = {k: v for k, v in st.env.items()
               if not isinstance(k, str) or k in live or
               k[0] == '#'}
        facts = st.facts
        if facts:
            held = None
            keep = {}
            for f, v in facts.items():
                core = f[2] if f[0] == 'cmp' else f
                if self._impure(core):
                    if held is None:
                        held = set()
                        for x in env.values():
                            held.update(subterms(x))
                    if core not in held:
                        continue
                keep[f] = v
            facts = keep
        return State(env, facts, st.ts)

    def _run(self, st0):
        work = [(self.g.entry, st0)]
        seen = {}
        steps = 0
        while work:
            n, st = work.pop()
            st = self._prune(n, st)
            bucket = seen.setdefault(n, set())
            k = st.key()
            if k in bucket:
                continue
            if len(bucket) >= self.limit:
                st = self._generalise(n, st)
                self.generalised += 1
                k = st.key()
                if k in bucket:
                    continue
            bucket.add(k)
            self.states.setdefault(n, []).append(st)
            steps += 1
            if steps > self.maxsteps:
                self.overflow = True
                break
            if n is self.g.exit or n is self.g.exc_exit:
                continue
            post = self._transfer(n, st)
            if n.kind == 'ret':
                v = self.ev(n.term, st)
                self.exits.append(('return', v, post.ts, post, n))
            elif n.kind == 'raise' and any(s is self.g.exc_exit
                                           for s, _ in n.succ):
                self.exits.append(('raise', self.ev(n.term, st), post.ts,
                                   post, n))
            if n.kind == 'test':
                t = self.ev(n.term, st)
                tv = self.truth(t, st)
                for s, lab in n.succ:
                    if lab == EXC:
                        if self.exc:
                            work.append((s, st))
                        continue
                    if lab not in (True, False):
                        work.append((s, post))
                        continue
                    if tv is not None and tv != lab:
                        continue
                    work.append((s, self._assume(t, lab, post)
                                 if tv is None else post))
                continue
            must = some = None
            if n.kind == 'iter':
                # a generator has elements if, and only if, one was made
                mark = '#%d' % n.id
                some = self._elements(self.ev(n.term, st))
                if some is not None:
                    env = dict(post.env)
                    if some is False:
                        must = 'end'
                    elif mark not in env:
                        must = 'item'
                    env[mark] = ('c', True)
                    more = State(env, post.facts, post.ts)
                    env = dict(env)
                    del env[mark]
                    post = State(env, post.facts, post.ts)
            for s, lab in n.succ:
                if must is not None and lab in ('item', 'end') and \
                        lab != must:
                    continue
                if lab == EXC:
                    if n.kind == 'raise':
                        work.append((s, post))
                    elif self.exc:
                        # the typestate of an attempted call is kept
                        work.append((s, State(st.env, st.facts, post.ts)))
                    continue
                if lab == 'item' and some is not None:
                    work.append((s, more))
                    continue
                work.append((s, post))

    def _len_cmp(self, op, a, b):
        def bounds(x):
            if x[0] == 'c' and isinstance(x[1], int):
                return x[1], x[1]
            if call_name(x) == 'len' and x[1][0] == 'g' and len(x[2]) == 1:
                v = self._elements(x[2][0])
                return (0, 0) if v is False else (
                    1, 1 << 60) if v else (0, 1 << 60)
            return None
        x, y = bounds(a), bounds(b)
        if x is None or y is None:
            return None
        if op == '<':
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        if op == '==':
            return False if x[1] < y[0] or y[1] < x[0] else \
                True if x == y and x[0] == x[1] else None
        return None

    def _elements(self, t):
        """Whether a generator yields elements (None: unknown)"""
        while t[0] == 'call' and t[1][0] == 'g' and t[1][2] in (
                'list', 'tuple', 'iter', 'sorted', 'set') and \
                len(t[2]) == 1:
            t = t[2][0]
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'keys', 'values', 'items') and not t[2] and \
                t[1][1][0] == 'comp' and t[1][1][1] == 'dict':
            t = t[1][1]
        if t[0] != 'comp':
            return None
        if t[2] == ('unk', 'none'):
            return False
        return True if t[2][0] != 'unk' else None

    def _generalise(self, n, st):
        env = {k: (v if v[0] in ('c', 'p', 'attr', 'func') else
                   ('unk', k if isinstance(k, str) else 'heap'))
               for k, v in st.env.items()}
        return State(env, {}, st.ts)

    # ------------------------------------------------------------- results
    def reached(self, n):
        return bool(self.states.get(n))

    def returns(self):
        return [e for e in self.exits if e[0] == 'return']

    def raises(self):
        return [e for e in self.exits if e[0] == 'raise']


def liveness(g):
    """Variables that may be read at or after each node"""
    if getattr(g, '_live', None) is not None:
        return g._live
    use = {}
    for n in g.nodes:
        u = set()
        for t in (n.term, n.target):
            if isinstance(t, tuple):
                for x in subterms(t):
                    if x and x[0] == 'v':
                        u.add(x[1])
                    elif x and x[0] == 'func':
                        u |= g.closure_vars(x[1])
        if n.kind == 'store' and isinstance(n.target, tuple):
            for y in n.target[1:]:
                if isinstance(y, tuple):
                    u |= {x[1] for x in subterms(y) if x[0] == 'v'}
        use[n] = u
    kills = {n: set(n.kills) for n in g.nodes if n.kills}
    live = {n: set(use[n]) for n in g.nodes}
    work = list(g.nodes)
    while work:
        n = work.pop()
        s = set(use[n])
        for m, _ in n.succ:
            s |= (live[m] - {m.dst} | use[m]) if m.dst else live[m]
        if kills.get(n):
            s -= kills[n]
        s |= use[n]
        if s != live[n]:
            live[n] = s
            work.extend(p for p, _ in n.pred)
    # live[n] is what is needed when n starts executing
    g._live = live
    return live


BOOLEAN = {'isinstance', 'issubclass', 'callable', 'hasattr', 'any', 'all',
           'startswith', 'endswith', 'is_file', 'is_dir', 'exists',
           'is_absolute'}
MUTATES = {'append', 'extend', 'add', 'update', 'insert', 'setdefault',
           'pop', 'clear', 'remove', 'discard', 'popitem', 'reset', 'sort',
           'reverse', 'write'}


def const_isinstance(v, t):
    import builtins
    if t[0] in ('tuple', 'list'):
        vs = [const_isinstance(v, x) for x in t[1:]]
        return True if True in vs else None if None in vs else False
    if t[0] == 'g' and isinstance(getattr(builtins, t[2], None), type):
        return isinstance(v, getattr(builtins, t[2]))
    return None


def mentions_field(f, key):
    for x in subterms(f):
        if x[0] == key[0] and len(x) == 3 and x[2] == key[2]:
            return True
    return False


def fold(t):
    op, a, b = t[1], t[2][1], t[3][1]
    try:
        if op == '+':
            return ('c', a + b)
        if op == '-':
            return ('c', a - b)
        if op == '*' and not isinstance(a, str) and not isinstance(b, str):
            return ('c', a * b)
        if op == '%' and isinstance(a, int):
            return ('c', a % b)
        if op == '//':
            return ('c', a // b)
    except Exception:
        pass
    return t


class Env:
    """What a step function may ask about the current state"""
    __slots__ = ('x', 'st')

    def __init__(self, x, st):
        self.x, self.st = x, st

    def ev(self, t):
        return self.x.ev(t, self.st)

    def truth(self, t):
        return self.x.truth(self.x.ev(t, self.st), self.st)

    def fact(self, t):
        return self.x.truth(t, self.st)
