"""Helpers shared by the rules: canonical forms of terms, patterns on them,
and event extraction."""
import re
import string

from sa.ir import call_name, show, subterms
from sa.core import AnalysisBroken

_canon = {}


def canon(t):
    """A term with equivalent spellings unified"""
    if not isinstance(t, tuple) or not t or t[0] == 'c':
        return t            # True == 1: constants are never shared
    r = _canon.get(t)
    if r is None:
        if len(_canon) > 200000:
            _canon.clear()
        r = _canon[t] = _canon1(t)
    return r


def _b(t, name, n=1):
    """builtin call name(x) with n positional arguments and no keywords"""
    return (t[0] == 'call' and t[1][0] == 'g' and t[1][2] == name and
            len(t[2]) == n and not t[3])


def _m(t, name, n=0):
    return (t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == name and
            len(t[2]) == n and not t[3])


def _canon1(t):
    k = t[0]
    if k == 'c' or k == 'ent' or k == 'func':
        return t
    if k == 'call':
        t = ('call', canon(t[1]), tuple(canon(a) for a in t[2]),
             tuple((n, canon(a)) for n, a in t[3]))
        if t[3] and not any(n == '**' for n, _ in t[3]):
            t = ('call', t[1], t[2], tuple(sorted(t[3], key=lambda x: x[0])))
        # getattr(x, 'n') is x.n
        if (_b(t, 'getattr', 2) or _b(t, 'getattr', 3)) and \
                t[2][1][0] == 'c':
            return ('attr', t[2][0], t[2][1][1])
        for f in ('list', 'tuple', 'iter'):
            if _b(t, f) and t[2][0][0] == 'comp':
                return t[2][0]
        if _b(t, 'sorted') and (_b(t[2][0], 'list') or _b(t[2][0], 'tuple')
                                or _m(t[2][0], 'keys')):
            x = t[2][0]
            return ('call', t[1], (x[2][0] if x[2] else x[1][1],), ())
        return t
    if k == 'elem':
        x = canon(t[1])
        while _b(x, 'list') or _b(x, 'tuple') or _b(x, 'iter') or \
                _m(x, 'keys') or (_m(x, 'copy')):
            x = x[2][0] if x[2] else x[1][1]
        if _m(x, 'values'):
            d = x[1][1]
            return canon(('sub', d, ('elem', d)))
        if x[0] == 'comp' and x[1] in ('gen', 'list') and x[2][0] in (
                'call', 'cmp', 'attr'):
            return x[2]         # the value made for an element
        if x[0] == 'comp' and x[1] == 'dict' and x[2][0] == 'tuple' and \
                len(x[2]) == 3 and x[2][1][0] == 'elem':
            return x[2][1]      # the key made for an element
        return ('elem', x)
    if k == 'sub':
        b, i = canon(t[1]), canon(t[2])
        if b[0] == 'elem' and i[0] == 'c' and i[1] in (0, 1):
            x = b[1]
            if _b(x, 'enumerate') and i[1] == 1:
                return canon(('elem', x[2][0]))
            wrap = None
            if _b(x, 'sorted'):
                wrap, x = x, x[2][0]
            if _m(x, 'items'):
                d = x[1][1]
                key = ('elem', ('call', wrap[1], (d,), ()) if wrap else d)
                return canon(key if i[1] == 0 else ('sub', d, key))
        if b[0] == 'comp' and b[1] == 'dict' and b[2][0] == 'tuple' and \
                len(b[2]) == 3 and b[2][2][0] in ('call', 'cmp', 'attr') and \
                (i == b[2][1] or i == ('elem', b)):
            return b[2][2]      # the value made for the key
        return ('sub', b, i)
    if k == 'not':
        x = canon(t[1])
        if x[0] == 'cmp' and x[1] in _NEG:
            return ('cmp', _NEG[x[1]]) + x[2:]
        return ('not', x)
    if k == 'cmp':
        x, y = canon(t[2]), canon(t[3])
        if t[1] in ('in', 'not in') and _m(y, 'keys'):
            y = y[1][1]
        if t[1] in ('>', '>='):
            return ('cmp', '<' if t[1] == '>' else '<=', y, x)
        if t[1] in ('==', '!=', 'is', 'is not') and x[0] == 'c' and \
                y[0] != 'c':
            x, y = y, x
        return ('cmp', t[1], x, y)
    return (k,) + tuple(canon(x) if isinstance(x, tuple) else x
                        for x in t[1:])


_NEG = {'in': 'not in', 'not in': 'in', '==': '!=', '!=': '==',
        'is': 'is not', 'is not': 'is'}
_s = {}


def S(t):
    """Text of the canonical form of an (evaluated) term"""
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'c':
        return show(t)
    r = _s.get(t)
    if r is None:
        if len(_s) > 200000:
            _s.clear()
        r = _s[t] = show(canon(t))
    return r


def facts(*pairs, **more):
    """Oracle from (pattern, value) pairs on the text of conditions.  The
    value is True, False or a term."""
    ps = [(re.compile(p), v) for p, v in pairs]
    cache = {}

    def oracle(t):
        k = t[0]
        if k in ('c', 'ent', 'func', 'v'):
            return None
        try:
            if t in cache:
                return cache[t]
        except TypeError:
            return None
        r = None
        if _b(t, 'isinstance', 2) and t[2][1][0] in ('tuple', 'list'):
            vs = [oracle(('call', t[1], (t[2][0], x), ()))
                  for x in t[2][1][1:]]
            if True in vs:
                r = True
            elif vs and all(v is False for v in vs):
                r = False
        if r is None:
            s = S(t)
            for p, v in ps:
                if p.fullmatch(s):
                    r = v
                    break
            if r is None and k == 'cmp' and t[1] in ('==', '!='):
                s = S((k, t[1], t[3], t[2]))        # symmetric
                for p, v in ps:
                    if p.fullmatch(s):
                        r = v
                        break
        cache[t] = r
        return r
    return oracle


def effects(n, env):
    """What executing node n does: [(kind, text, term)].  Kinds: call, store,
    del, collect (a value put into a list, set or generator), iter."""
    out = []
    k = n.kind
    if n.extra == 'loophead':
        return [('iter', 'while', None)]
    if k == 'call' or k == 'prop':
        t = env.ev(n.term)
        if n.inlined is not None:
            return [('enter', S(t), t)]
        # the call itself, whatever an oracle says about its value
        if n.kind == 'call':
            fn = n.term[1]
            fn = env.ev(fn) if fn[0] != 'g' else fn
            t = ('call', fn, tuple(env.ev(a) for a in n.term[2]),
                 tuple((x, env.ev(a)) for x, a in n.term[3]))
        out.append(('call', S(t), t))
        if n.kind == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'append', 'add', 'appendleft') and len(t[2]) == 1:
            out.append(('collect', S(t[2][0]), t[2][0]))
        if n.kind == 'call' and t[1][0] == 'attr' and \
                t[1][2] == 'extend' and len(t[2]) == 1 and \
                t[2][0][0] in ('list', 'tuple'):
            out += [('collect', S(x), x) for x in t[2][0][1:]]
    elif k == 'store':
        tg = n.target
        a = (tg[0], env.ev(tg[1]), tg[2] if tg[0] == 'attr' else
             env.ev(tg[2]))
        v = env.ev(n.term)
        if n.term[0] == 'aug':
            b = env.ev(n.term[3])
            out.append(('aug', '%s %s= %s' % (S(a), n.term[1], S(b)),
                        ('op', n.term[1], a, b)))
        out.append(('store', S(a) + ' = ' + S(v), ('storeto', a, v)))
    elif k == 'del':
        tg = n.target
        a = (tg[0], env.ev(tg[1]), tg[2] if tg[0] == 'attr' else
             env.ev(tg[2]))
        out.append(('del', S(a), a))
    elif k == 'iter':
        t = env.ev(n.term)
        out.append(('iter', S(t), t))
    elif k == 'with':
        t = env.ev(n.term)
        out.append(('with', S(t), t))
    elif k == 'withexit':
        out.append(('withexit', '', None))
    elif k == 'yield' and n.term is not None:
        t = env.ev(n.term)
        out.append(('collect', S(t), t))
    elif k == 'asg' and n.extra != 'init':
        import ast
        if (isinstance(n.ast, (ast.ListComp, ast.SetComp, ast.GeneratorExp))
                or n.extra == 'item') and n.term[0] != 'comp' and isinstance(n.dst, str) and \
                n.dst.startswith('t.'):
            t = env.ev(n.term)
            out.append(('collect', S(t), t))
        elif n.term[0] == 'aug':
            a, b = env.ev(n.term[2]), env.ev(n.term[3])
            out.append(('aug', '%s %s= %s' % (S(a), n.term[1], S(b)),
                        ('op', n.term[1], a, b)))
        if n.term[0] == 'aug' and n.term[1] == '+' and \
                n.term[3][0] == 'list':
            out += [('collect', S(env.ev(x)), env.ev(x))
                    for x in n.term[3][1:]]
    return out


def matcher(*specs):
    """Classifier from (event, kind, pattern) triples; the first match per
    effect counts.  Named group 'x' of the pattern becomes an argument;
    event None swallows the effect.  The kind 'call:a|b' stands for calls of
    functions or methods of these names."""
    cs = [(e, k.split(':')[0], re.compile(p), k.split(':')[1].split('|')
           if ':' in k else None) for e, k, p in specs]
    memo = {}

    def classify(n, env):
        out = []
        for kind, text, term in effects(n, env):
            key = (kind, text)
            if key not in memo:
                memo[key] = None
                for e, k, p, names in cs:
                    if k == kind and (names is None or isinstance(
                            term, tuple) and call_name(term) in names):
                        m = p.fullmatch(text)
                        if m:
                            gd = m.groupdict()
                            memo[key] = ((e,) + tuple(
                                gd[x] for x in sorted(gd)) if gd else e) \
                                if e is not None else None
                            break
            if memo[key] is not None:
                out.append(memo[key])
        return out or None
    return classify


def cond_of(g, n):
    """The condition of a test, with variables that merely hold a condition
    replaced by it (other variables stay)"""
    def thru(t, node, seen):
        if t[0] == 'v':
            ds = g.defs(t[1], node)
            if len(ds) == 1:
                d = next(iter(ds))
                if d not in seen and d.kind == 'asg' and d.term and \
                        d.term[0] in ('v', 'cmp', 'not', 'and', 'or'):
                    r = thru(d.term, d, seen | {d})
                    return t if r[0] == 'v' else r
            return t
        if t[0] in ('not', 'and', 'or'):
            return (t[0],) + tuple(thru(x, node, seen) for x in t[1:])
        return t
    return thru(n.term, n, frozenset())


def seq(tr):
    """Event names of a trace in order"""
    return [e if isinstance(e, str) else e[0] for e in tr.ev]


def seqs(tr, only=None):
    return ' '.join(e for e in seq(tr) if only is None or e in only)


def fmt(traces, n=3):
    return '; '.join('%s%s%s' % (t.kind, ' ' + S(t.value) if t.value
                                 else '', list(t.ev)) for t in traces[:n])


class TraceRule:
    """Shorthand: traces of a function under facts, one obligation per
    expectation."""

    def __init__(self, ctx, rule, spec, inline=(), self_cls=None, depth=5):
        self.ctx, self.rule = ctx, rule
        self.f = ctx.fn(spec) if isinstance(spec, str) else spec
        self.g = ctx.graph(self.f, inline=inline, self_cls=self_cls,
                           depth=depth)
        self.name = self.f.short

    def run(self, events, fs=(), exc=False, limit=300):
        return self.ctx.trace(self.g, matcher(*events), facts(*fs), exc=exc,
                              limit=limit)

    def check(self, case, traces, pred, msg, kinds=('return', 'raise'),
              minimum=1):
        trs = [t for t in traces if t.kind in kinds]

        def holds(t):
            try:
                return pred(t)
            except (ValueError, IndexError, AttributeError, TypeError, KeyError):
                return False        # an event or value is missing
        bad = [t for t in trs if not holds(t)]
        ok = not bad and len(trs) >= minimum
        where = self.ctx.where(bad[0].node) if bad and \
            hasattr(bad[0].node, 'where') else self.ctx.where(self.f)
        self.ctx.ob(self.rule, '%s: %s' % (self.name, case), ok, where,
                    msg + (' -- offending path: ' + fmt(bad, 2)
                           if bad else '' if ok else
                           ' -- no path has this outcome'))
        return ok


    def expect(self, case, fs, events, ret=None, error=None, must=(),
               never=(), order=(), exactly=None, truth=None, allow=(),
               msg='', exc=False, each=None, minimum=1, it=None):
        """All paths possible under the facts `fs`: outcome and events.
        ret: pattern of the returned value; error: pattern of the exception;
        must/never: event names; order: pairs (a, b): a precedes b where b
        occurs; exactly: {event: count}; allow: further exceptions; it: only
        paths with an iteration of the loop whose head is this event."""
        out = self.run(events, fs, exc=exc)
        if it:
            out = [t for t in out if seq(t).count(it) >= 2 or
                   t.kind == 'raise' and it in seq(t)]
        out = [t for t in out if not (t.kind == 'raise' and (
            raises(t, 'AssertionError') or any(raises(t, a)
                                               for a in allow)))]

        def pred(t):
            if error is not None:
                if not raises(t, error):
                    return False
            elif t.kind == 'raise':
                return False
            elif ret is not None and not re.fullmatch(ret, S(t.value)):
                return False
            elif truth is not None and t.truth is not truth:
                return False
            s = seq(t)
            if any(m not in s for m in must) or any(m in s for m in never):
                return False
            for a, b in order:
                if b in s and (a not in s or s.index(a) > s.index(b)):
                    return False
            for e, n in (exactly or {}).items():
                if s.count(e) != n:
                    return False
            return each is None or bool(each(t))
        return self.check(case, out, pred, msg, minimum=minimum)


def _fields(text, args, kws):
    """The parts of a format string with plain fields, None for others"""
    out, n = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            out.append(('c', lit))
            if field is None:
                continue
            if spec or conv not in (None, 's'):
                return None
            if field == '':
                out.append(args[n])
                n += 1
            elif field.isdigit():
                out.append(args[int(field)])
            else:
                out.append(kws[field])
    except (ValueError, IndexError, KeyError):
        return None
    return out


def pieces(t):
    """Flatten string concatenation, formatting and joins of literals"""
    if t[0] == 'op' and t[1] == '+':
        a, b = pieces(t[2]), pieces(t[3])
        r = a + b
    elif t[0] == 'fstr':
        r = []
        for x in t[1:]:
            r += pieces(x[1] if x[0] == 'fmt' else x)
    elif t[0] == 'c' and isinstance(t[1], str):
        r = [t[1]] if t[1] else []
    elif call_name(t) == 'join' and t[1][0] == 'attr' and \
            t[1][1] == ('c', '') and t[2] and t[2][0][0] in ('tuple',
                                                             'list'):
        r = []
        for x in t[2][0][1:]:
            r += pieces(x)
    elif call_name(t) == 'format' and t[1][0] == 'attr' and \
            t[1][1][0] == 'c' and isinstance(t[1][1][1], str) and \
            _fields(t[1][1][1], t[2], dict(t[3])) is not None:
        r = []
        for x in _fields(t[1][1][1], t[2], dict(t[3])):
            r += pieces(x)
    elif t[0] == 'op' and t[1] == '%' and t[2][0] == 'c' and isinstance(
            t[2][1], str) and re.fullmatch(r'([^%]|%%|%s)*', t[2][1]) and (
            t[3][0] != 'tuple' or len(t[3]) - 1 == len(
                re.findall(r'(?<!%)(?:%%)*%s', t[2][1]))):
        vs = list(t[3][1:]) if t[3][0] == 'tuple' else [t[3]]
        r = []
        for x in re.split(r'(%%|%s)', t[2][1]):
            r += pieces(vs.pop(0)) if x == '%s' and vs else \
                pieces(('c', '%' if x == '%%' else x))
    else:
        r = [('p', t[1].split('.', 1)[1]) if t[0] == 'p' else t]
    out = []
    for x in r:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def allocs(g, term, node, seen=frozenset()):
    """The nodes that made the objects a variable can refer to at node"""
    if term[0] != 'v':
        return set()
    out = set()
    for d in g.defs(term[1], node):
        if d in seen:
            continue
        if d.kind == 'asg' and d.term and d.term[0] == 'v':
            out |= allocs(g, d.term, d, seen | {d})
        else:
            out.add(d)
    return out


def caught(n):
    """Names of the exceptions handled around the construct of node n"""
    import ast
    out = set()
    a = n.ast
    if a is None or n.func is None:
        return out
    for t in ast.walk(n.func.node):
        if isinstance(t, ast.Try) and any(
                x is a for b in t.body for x in ast.walk(b)):
            for h in t.handlers:
                if h.type is None:
                    out |= {'Exception', 'BaseException'}
                    continue
                for x in ast.walk(h.type):
                    if isinstance(x, ast.Name):
                        out.add(x.id)
                    elif isinstance(x, ast.Attribute):
                        out.add(x.attr)
    return out


def hidden(n):
    """Handlers around the construct of node n that do not end with a raise:
    errors of the construct are hidden by them"""
    import ast
    out = []
    a = n.ast
    if a is None or n.func is None:
        return out
    for t in ast.walk(n.func.node):
        if isinstance(t, ast.Try) and any(
                x is a for b in t.body for x in ast.walk(b)):
            out += [h for h in t.handlers
                    if not isinstance(h.body[-1], ast.Raise)]
    return out


def raises(tr, name):
    return tr.kind == 'raise' and tr.value is not None and \
        re.search(r'\b%s\b' % name, S(tr.value)) is not None


__all__ = ['cond_of', 'allocs', 'caught', 'hidden', 'canon', 'S', 'facts', 'effects', 'matcher', 'seq', 'seqs',
           'fmt', 'pieces', 'TraceRule', 'raises', 'call_name', 'subterms', 'show',
           'AnalysisBroken', 're']
