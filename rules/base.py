"""Helpers on lists that several properties rest on"""
from .common import *


def distinct(ctx, r):
    """uniq keeps the first of equal elements, in order"""
    ctx.rule(r, 'Duplicates, and only these, are removed from lists, and the '
             'order is kept')
    tr = TraceRule(ctx, r, 'utils.list:uniq')
    tr.check('uniq', tr.run([]), lambda t: t.kind == 'return' and t.value and
             re.search(r'\blst\b|iterable', S(t.value)) and
             not re.search(r'slice\(|sorted\(|reversed\(|(?<!\w)set\((lst|\w+'
                           r'\(.*lst)', S(t.value)) and (
                 'unique_everseen' not in S(t.value) or re.fullmatch(
                     r'((list|tuple)\(|comp\(list, .*)?unique_everseen\('
                     r'(?=.*\blst\b)(?=.*\bkey\b).*', S(t.value))
                 is not None),
             'all elements, without duplicates')
    try:
        tr = TraceRule(ctx, r, 'utils.list:unique_everseen')
    except AnalysisBroken:
        return
    for keyed in (False, True):
        E = r'elem\((filterfalse\(set\(\)\.__contains__, iterable\)|iterable)\)'
        Kk = r'key\(%s\)' % E if keyed else E
        for old in (False, True):
            ev = [('add', 'call', r'set\(\)\.add\(%s\)' % Kk),
                  ('add', 'aug', r'.*set\(\).*'),
                  ('bad', 'call', r'set\(\)\.(remove|discard|clear|pop)\(.*'),
                  ('wrong', 'call', r'set\(\)\.add\(.*'),
                  ('yield', 'collect', E),
                  ('it', 'iter', r'.*iterable.*')]
            out = tr.run(ev, [('key is None', not keyed), ('key', keyed),
                              (r'%s in set\(\)' % Kk, old),
                              (r'set\(\)\.__contains__\(%s\)' % Kk, old)])
            lazy = not keyed and any(
                n.kind == 'iter' and n.term is not None and 'filterfalse(' in
                S(tr.g.expand(n.term, n)) for n in tr.g.nodes if n.pred)
            if lazy and old:
                continue
            case = 'distinct, key %s, %s' % (keyed, 'old' if old else 'new')
            if old:
                tr.check(case, out, lambda t: not t.has('yield') and
                         not t.some('bad'), 'a duplicate is left out')
            else:
                some = [t for t in out if t.has('yield') or t.has('add')]
                ctx.ob(r, case + ': kept', some != [], ctx.where(tr.f),
                       'a new element is kept')
                # an element that is remembered is an event of both kinds
                tr.check(case, some, lambda t: t.has('add') and seq(t).count(
                    'yield') > (0 if keyed else seq(t).count('add'))
                         and not t.some('bad', 'wrong'),
                         'a new element is kept and remembered')
    for n in tr.g.nodes:
        if n.pred and n.kind == 'iter' and n.term is not None:
            t = S(tr.g.expand(n.term, n))
            ctx.ob(r, 'distinct: all', not re.search(
                r'slice\(|sorted\(|reversed\(|islice', t), ctx.where(n),
                'all elements, in order')


def flat(ctx, r):
    """flatten gives all elements of nested lists"""
    ctx.rule(r, 'Nested lists are flattened without a loss, in order')
    tr = TraceRule(ctx, r, 'utils.list:flatten')
    L = r'isinstance\(elem\(lst\), (list|tuple\(.*\))\)'
    for nested in (True, False):
        out = tr.run([
            ('deep', 'call', r'flatten\((lst=)?elem\(lst\)\)'),
            ('keep', 'collect', r'elem\(flatten\((lst=)?elem\(lst\)\)\)'),
            ('raw', 'collect',
             r'elem\(lst\)|elem\((tuple|list)\(elem\(lst\)\)\)'),
            ('other', 'collect', '.*'),
            ('it', 'iter', r'lst')], [(L, nested)])
        some = [t for t in out if t.some('deep', 'keep', 'raw', 'other')]
        ctx.ob(r, 'flatten, nested %s: kept' % nested, some != [],
               ctx.where(tr.f), 'elements are kept')
        tr.check('flatten, nested %s' % nested, some, (
            lambda t: t.has('deep') and not t.has('raw')) if nested else (
            lambda t: t.has('raw') and not t.some('deep', 'other')),
            'all elements of the list')
    for n in tr.g.nodes:
        if n.pred and n.kind == 'iter' and n.term is not None:
            t = S(tr.g.expand(n.term, n))
            ctx.ob(r, 'flatten: all', not re.search(
                r'slice\(|sorted\(|reversed\(|islice|set\(', t), ctx.where(n),
                'all elements, in order')
