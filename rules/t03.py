"""T03: processing is bounded"""
import ast
from .common import *

ASSUMPTIONS = [
    'Regular expression searches and string methods terminate',
    'Python data given as content is a finite tree (no list contains itself)',
]

# cycles of the call graph that walk down a finite structure: function names
# and what they descend
DESCENT = {}


def run(ctx):
    repo = ctx.repo
    r = 'T03.tag-depth'
    ctx.rule(r, 'Parsing of nested content stops with an error at the '
             'maximum depth, before anything else is done, and every nested '
             'call is one level deeper')
    for spec, lim, err, rec in (
            ('parse_tags', r'settings\.tag_max_depth', 'TagError',
             r'parse_tags'),
            ('BaseContext.match_update', r'settings\.context_max_depth',
             'ContextException', r'.*match_update')):
        if spec != 'parse_tags':
            continue
        tr = TraceRule(ctx, r, spec)
        over = [(r'level < ' + lim, False), (lim + ' < level', True),
                (lim + ' == level', False), ('level == ' + lim, False)]
        ev = [('rec', 'call', rec + r'\(.*level=\(level \+ 1\).*\)'),
              ('badrec', 'call', rec + r'\(.*\)'),
              ('make', 'call', r'tag_factory\.tag\(.*\)'),
              ('write', 'store', r'content.*')]
        tr.expect('too deep', over, ev, error=err,
                  never=('rec', 'badrec', 'make', 'write'),
                  msg='the depth limit must raise ' + err)
        at = [(r'level < ' + lim, False), (lim + ' < level', False),
              (lim + ' == level', True), ('level == ' + lim, True)]
        tr.expect('at the limit', at, ev, error=err,
                  never=('rec', 'badrec', 'make', 'write'),
                  msg='the depth limit must raise ' + err)
        for case, fs in (
                ('list', [(r'isinstance\(content, list\)', True),
                          (r'isinstance\(content, str\)', False)]),
                ('tag with list', [
                    (r'isinstance\(content, (list|str)\)', False),
                    (r'isinstance\(content\.content, list\)', True)]),
                ('tag', [(r'isinstance\(content, (list|str)\)', False),
                         (r'isinstance\(content\.content, list\)',
                          False)])):
            under = [(r'level < ' + lim, True), (lim + ' < level', False),
                     (lim + ' == level', False), ('level == ' + lim, False)]
            tr.expect('recursion for ' + case, under + fs + [
                (r"hasattr\(content, 'content'\)", True),
                (r'content\.process_content', True)], ev,
                never=('badrec',), msg='a nested call must be a level deeper')
            tr.check(case + ' recurses', [
                t for t in tr.run(ev, under + fs + [
                    (r"hasattr\(content, 'content'\)", True),
                    (r'content\.process_content', True)])
                if t.has('rec')], lambda t: True, 'nested content is parsed')
    # the limit is a finite number
    for name in ('tag_max_depth', 'macro_max_depth', 'context_max_depth'):
        v = repo.const('settings', name)
        ctx.ob(r, 'settings.' + name, isinstance(v, int) and 1 < v < 200,
               'disseminate/settings.py', 'limit is %r' % (v,))
    r = 'T03.tag-default'
    ctx.rule(r, 'The depth count starts at the top')
    f = ctx.fn('parse_tags')
    d = f.default_of('level')
    ctx.ob(r, 'parse_tags level', d is not None and
           repo.eval_const(f.module, d) in (0, 1), ctx.where(f),
           'default level')
    # ---- loops over text
    r = 'T03.progress'
    ctx.rule(r, 'Every iteration of the loops over the source text moves '
             'the position forward past a match')
    g = ctx.graph('parse_tags')
    heads = [n for n in g.nodes if n.extra == 'loophead' and n.pred]
    ctx.need(r, heads, 2, 'loops in parse_tags')
    for h in heads:
        # from the loop head back to the head: the position must have been
        # advanced by the end of a match
        ok = h not in g.reachable(h, avoid=lambda n: advances(g, n))
        ctx.ob(r, 'loop of parse_tags %s' % loop_id(g, h), ok, ctx.where(h),
               'an iteration may leave the position unchanged')
    r = 'T03.unclosed'
    ctx.rule(r, 'A tag that is not closed is reported as an error')
    tr = TraceRule(ctx, r, 'parse_tags')
    mk = [n for n in g.calls() if g.cname(n) == 'tag']
    rs = [n for n in g.nodes if n.kind == 'raise' and n.pred and
          'TagError' in S(g.expand(n.term, n))]
    # the creation of a tag is dominated by a test of the brace level whose
    # other side raises
    for n in mk:
        ok = False
        for t, pol, tn in g.conds(n):
            s = S(t)
            other = [b for b, lab in tn.succ if lab in (True, False) and
                     n not in g.reachable(b, avoid=lambda x: x is tn,
                                          include_start=True)]
            if other and re.search(r'0|1', s) and any(
                    x in g.reachable(o, include_start=True, avoid=lambda y:
                                     y in heads) for o in other
                    for x in rs):
                vs = {x[1] for x in subterms(cond_of(g, tn))
                      if x[0] == 'v'}
                if vs & brace_vars(g):
                    ok = True
        ctx.ob(r, 'tag creation', ok, ctx.where(n),
               'open braces must be checked before the tag is created')
    # ---- macros
    r = 'T03.macros'
    ctx.rule(r, 'Repeated macro replacement is counted and stops with an '
             'error at the limit')
    g = ctx.graph('replace_macros')
    heads = [n for n in g.nodes if n.extra == 'loophead' and n.pred]
    heads = [h for h in heads if not any(
        m.kind == 'call' and g.cname(m) == 'pop'
        for m in g.nodes) or h.func is g.func]
    heads += [n for n in g.nodes if n.kind == 'iter' and n.pred and
              'macro_max_depth' in S(g.expand(n.term, n))]
    subn = [n for n in g.calls() if g.cname(n) in ('subn', 'sub')]
    ctx.need(r, subn, 1, 'macro substitutions')
    for h in heads:
        if not any(n in g.reachable(h) and h in g.reachable(n)
                   for n in subn):
            continue
        ok = bounded_loop(g, h, 'macro_max_depth')
        ctx.ob(r, 'replacement loop', ok, ctx.where(h),
               'the loop must count and stop at macro_max_depth')
    f = ctx.fn('replace_macros')
    # in the substitution itself: the loop consumes the pieces
    for nf in f.nested.values() if isinstance(f.nested, dict) else ():
        ng = ctx.graph(nf)
        for h in [n for n in ng.nodes if n.extra == 'loophead' and n.pred]:
            ok = h not in ng.reachable(h, avoid=lambda n: n.kind == 'call'
                                       and ng.cname(n) in ('pop',
                                                           'popleft'))
            ctx.ob(r, 'piece loop', ok, ctx.where(h),
                   'every iteration must consume a piece')


def loop_id(g, h):
    outer = len(g.outer_loops(h))
    return 'level %d' % outer


def advances(g, n):
    """position += match.end() (an assignment that adds the end of a match to
    the position that was searched from)"""
    if n.dst is None or n.kind != 'asg':
        return False
    t = n.term
    if t[0] == 'aug' and t[1] == '+':
        s = S(g.expand(t[3], n))
        return bool(re.search(r'\.(end|span)\(\d*\)', s))
    s = S(g.expand(t, n))
    return t[0] == 'op' and t[1] == '+' and bool(
        re.search(r'\.(end|span)\(\d*\)', s))


def brace_vars(g):
    """Variables that count: incremented and decremented by 1"""
    up, down = set(), set()
    for n in g.nodes:
        if n.pred and n.dst and n.kind == 'asg' and \
                n.term[0] in ('aug', 'op') and len(n.term) == 4 and \
                n.term[3] == ('c', 1):
            (up if n.term[1] == '+' else down).add(n.dst)
    return up & down


def bounded_loop(g, h, limit):
    """The loop has a counter that is incremented in every iteration and
    compared with the limit in every iteration, with a way out"""
    if h.kind == 'iter':
        return True
    loop = {n for n in g.reachable(h) if h in g.reachable(n)} | {h}
    for v in {n.dst for n in loop if n.kind == 'asg' and n.dst and
              n.term[0] in ('aug', 'op') and len(n.term) == 4 and
              n.term[1] == '+' and n.term[3][0] == 'c' and
              isinstance(n.term[3][1], int) and n.term[3][1] > 0 and
              ('v', n.dst) in tuple(subterms(n.term[2]))}:
        inc = lambda n: (n.kind == 'asg' and n.dst == v and  # noqa
                         n.term[0] in ('aug', 'op') and n.term[1] == '+')
        other = [n for n in loop if n.dst == v and not inc(n)]
        if other:
            continue
        if h in g.reachable(h, avoid=inc):
            continue
        tests = [n for n in loop if n.kind == 'test' and
                 limit in S(g.expand(n.term, n)) and
                 any(x == ('v', v) for x in subterms(cond_of(g, n))) and
                 any(s not in loop for s, lab in n.succ
                     if lab in (True, False)) and exits_when_reached(
                     g, n, v, loop)]
        if tests and h not in g.reachable(
                h, avoid=lambda n: n in tests):
            return True
    return False


def exits_when_reached(g, n, v, loop):
    """The loop is left on the side of the test where the counter is large"""
    t, pol = cond_of(g, n), True
    while t[0] == 'not':
        t, pol = t[1], not pol
    if t[0] != 'cmp':
        return False
    op, a, b = t[1], t[2], t[3]
    left = any(x == ('v', v) for x in subterms(a))
    if op in ('>', '>='):
        big = left
    elif op in ('<', '<='):
        big = not left
    elif op == '==':
        big = True
    elif op == '!=':
        big = False
    else:
        return False
    big = big == pol
    return any(s not in loop for s, lab in n.succ if lab is big)
