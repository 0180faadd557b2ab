"""A01: attributes are found for the target that is rendered"""
import ast
from .common import *
from . import base

ASSUMPTIONS = [
    'the keys of attributes are strings, and those of targets end with the '
    'separator and the name of the target']

POS = r'ispositional\((p=)?'
TS = r"target(\.strip\('\.'\))?"


def seen(t, head, n=2):
    return seq(t).count(head) >= n


def find(ctx):
    r = 'A01.find'
    ctx.rule(r, 'The entry for the target is found first, then the general '
             'entry, then an entry of the wanted type for the target or for '
             'no target; never an entry for other targets')
    tr = TraceRule(ctx, r, 'Attributes.find_item')
    isstr = r'isinstance\(target, str\)'
    for nm, T, base in (
            ('a target', r"target\.strip\('\.'\)",
             [(isstr, True), ('target is None', False), ('target', True),
              (r"target\.strip\('\.'\) is None", False),
              (r"target\.strip\('\.'\)", True)]),
            ('no target', None,
             [(isstr, False), ('target is None', True), ('target', False)])):
        KEY = r'(sep\.join\(.*\battr\b.*%s.*\)|.*\battr\b.*sep.*%s.*)' % (
            T, T) if T else 'NONE'
        K = lambda v: ([(r'%s in self' % KEY, v), (KEY, True),
                        (KEY + ' is None', False)] if T else [])
        gen = lambda v: [('attr in self', v)]
        if T:
            out = tr.run([], base + K(True) + gen(True))
            tr.check(nm + ', both entries', out, lambda t: t.kind == 'return'
                     and re.fullmatch(r'tuple\((?P<k>%s), self\[%s\]\)' % (
                         KEY, KEY), S(t.value)), 'that for the target is '
                     'found')
        tr.expect(nm + ', general entry', base + K(False) + gen(True), [],
                  ret=r'tuple\(attr, self\[attr\]\)', msg='is found')
        miss = base + K(False) + gen(False)
        tr.expect(nm + ', no entry', miss + [(POS + r'attr\)', False)], [],
                  ret='default', msg='the default is returned')
        V = r'.*ispositional\((p=)?(self\[.*|elem.*), (positionalvalue_type' \
            r'=)?attr\)'
        END = r"(elem\(.*|.*)\.endswith\(\(?(\.|'.*'|sep).*%s.*\)" % (
            T or 'target')
        SPEC = r'is_target_specific\(.*\)'
        p = miss + [(POS + r'attr\)', True)]
        ev = [('test', 'call', V), ('put', 'collect', '.*')]
        tr.expect(nm + ', other types', p + [(V, False)], ev, ret='default',
                  never=('put',), msg='are not found')
        for own, spec in ((True, True), (False, True), (False, False)):
            if own and not T:
                continue
            out = tr.run([('test', 'call', V)], p + [
                (V, True), (END, own), (SPEC, spec),
                (r'strip_attr\(.* != .*|.* != strip_attr\(.*', spec)])
            want = own or not spec
            rets = {S(t.value) for t in out if t.kind == 'return' and
                    t.has('test')}
            ctx.ob(r, '%s, of the wanted type, for %s' % (
                nm, 'the target' if own else 'another target' if spec else
                'no target'),
                   bool(rets) and (want and any(
                       re.search(r'\[0\]$|^tuple\(elem|^next\(|^elem', x)
                       for x in rets) and not any(re.search(
                           r'\[-?[1-9]\d*\]$', x) for x in rets)
                                   or not want and rets == {'default'}),
                   ctx.where(tr.f), 'is %sfound: %s' % (
                       '' if want else 'not ', ' | '.join(rets)[:120]))
    # an entry for the target comes before those for no target
    g = tr.g
    ends = [n for n in g.calls() if n.pred and g.cname(n) == 'endswith']
    ctx.ob(r, 'entries of the target', bool(ends), ctx.where(tr.f),
           'are told from others')
    for n in ends:
        s = S(g.expand(n.term, n))
        ctx.ob(r, 'end of a key', re.search(
            r"endswith\(\(?.*(sep|'\.'|\.).*target", s) is not None,
            ctx.where(n), 'includes the separator: %s' % s[-60:])
    order_of_lists(ctx, r, tr)


def order_of_lists(ctx, r, tr):
    """The list of entries for the target is tried before the other one"""
    tree = tr.f.node
    lists = {}
    for d in ast.walk(tree):
        if isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(
                d.targets[0], ast.Name) and isinstance(
                d.value, (ast.ListComp, ast.GeneratorExp)):
            conds = ' '.join(ast.unparse(i) for c in d.value.generators
                             for i in c.ifs)
            lists[d.targets[0].id] = (
                'own' if 'endswith' in conds else 'general'
                if re.search(r'is_target_specific|strip_attr', conds) else '')
    names = {v: k for k, v in lists.items()}
    if not {'own', 'general'} <= set(names):
        return
    rets = [(d.lineno, n.id) for d in ast.walk(tree)
            if isinstance(d, ast.Return) and d.value is not None
            for n in ast.walk(d.value) if isinstance(n, ast.Name)
            and lists.get(n.id)]
    own = [x for x in rets if lists[x[1]] == 'own']
    gen = [x for x in rets if lists[x[1]] == 'general']
    if own and gen:
        ctx.ob(r, 'entries of the target', min(own) < min(gen),
               ctx.where(tr.f), 'come before those of no target')


def get(ctx):
    r = 'A01.get'
    ctx.rule(r, 'The value of the entry that is found is returned, or its '
             'key if it is positional, without the ending of the target')
    FI = r'self\.find_item\((?=.*attr=attr)(?=.*default=default)' \
        r'(?=.*target=target)(?=.*sep=sep)[^()]*\)'
    tr = TraceRule(ctx, r, 'Attributes.get')
    found = [(r'isinstance\(%s, tuple\)' % FI, True),
             (r'len\(%s\) == 2' % FI, True)]
    tr.expect('missing', [(r'isinstance\(%s, tuple\)' % FI, False),
                          (r'%s is (None|default)' % FI, True)], [],
              ret='%s|default' % FI, msg='the default is returned')
    for pos in (True, False):
        x = r'%s\[%d\]' % (FI, 0 if pos else 1)
        for st in (True, False):
            tr.expect('positional %s, string %s' % (pos, st), found + [
                (POS + r'attr\)', pos), (r'isinstance\(%s, str\)' % x, st)],
                [], ret=(r'strip_attr\((attr=)?%s, sep=sep\)' if st else
                         '%s') % x, msg='is returned')
    # the ending of the target
    tr = TraceRule(ctx, r, 'strip_attr')
    T = r"elem\(.*\)"
    E_ = r"attr\.endswith\(\(sep \+ %s\)\)" % T
    a = [(r'isinstance\(attr, str\)', True), ('sep in attr', True)]
    tr.expect('no string', [(r'isinstance\(attr, str\)', False)], [],
              ret='attr', msg='is kept')
    tr.expect('no separator', [(r'isinstance\(attr, str\)', True),
                               ('sep in attr', False), (E_, False)], [],
              ret='attr', msg='is kept')
    tr.expect('no target', a + [(E_, False)], [], ret='attr', msg='is kept')
    out = [t for t in tr.run([('test', 'call', E_)], a + [(E_, True)])
           if t.has('test')]
    tr.check('target', out, lambda t: t.kind == 'return' and re.fullmatch(
        r'attr\[slice\((None|0), neglen\(\(sep \+ %s\)\), None\)\]|'
        r'attr\.removesuffix\(\(sep \+ %s\)\)|attr\.rpartition\(sep\)\[0\]|'
        r'attr\.rsplit\(sep, 1\)\[0\]' % (T, T), S(t.value)), 'is removed')
    src = set()
    for n in tr.g.nodes:
        if n.pred and n.kind == 'iter':
            src.add(S(tr.g.expand(n.term, n)))
    ctx.ob(r, 'targets', any('tracked_deps' in s for s in src),
           ctx.where(tr.f), 'are those of the settings')
    sc = [n for n in tr.g.calls() if n.pred and tr.g.cname(n) in (
        'strip', 'lstrip') and "'.'" in S(n.term)]
    ctx.ob(r, 'targets', bool(sc), ctx.where(tr.f),
           'have no dot besides the separator')
    tr = TraceRule(ctx, r, 'is_target_specific')
    tr.expect('target specific', [], [], ret=r'attr != strip_attr\((attr=)?'
              r'attr, sep=sep\)|not\(?.*attr == strip_attr\((attr=)?attr, '
              r'sep=sep\)\)?|strip_attr\((attr=)?attr, sep=sep\) != attr',
              msg='has an ending to strip')


def filters(ctx):
    r = 'A01.filter'
    ctx.rule(r, 'Filtered attributes have the wanted entries: those for the '
             'target in place of the general ones, and none for other '
             'targets')
    tr = TraceRule(ctx, r, 'Attributes.filter')
    isstr = r'isinstance\(target, str\)'
    tgt = [(isstr, True), ('target is None', False),
           (r"target\.strip\('\.'\) is None", False)]
    notgt = [(isstr, False), ('target is None', True)]
    base = [(r'isinstance\(attrs, str\)', False), ('attrs is None', False),
            (r'isinstance\(attrs, PositionalValue\)', False),
            (r'isinstance\(attrs, .*\)', False), ('sort_by_attrs', True)]
    EL = r'elem\(.*'
    SA = r'strip_attr\((attr=)?%s\)' % EL
    same = r'%s == %s' % (EL, SA)
    END = r"%s\.endswith\(\(sep \+ target\.strip\('\.'\)\)\)" % EL
    SPEC = r'is_target_specific\((attr=)?elem\(.*'
    # which names are looked up, for one name of the list that is ...
    IN = r'%s in (set\(\)|comp\(set.*|set.*|list\(\))' % EL
    fi = [('find', 'call', r"self\.find_item\((?=.*attr=elem\()(?=.*sep=sep)"
           r"(?=.*target=target).*\)"),
          ('badfind', 'call', r'self\.find_item\(.*'),
          ('put', 'store', r'.*\[self\.find_item\(.*\)\[0\]\] = self\.'
           r'find_item\(.*\)\[1\]'), ('badput', 'store', '.*')]
    for strip in (True, False):
        for nm, facts in (('target', tgt), ('no target', notgt)):
            out = tr.run(fi + [('strip', 'call', r'.*\.strip\((sep=sep)?\)')],
                         base + facts + [('strip', strip), (IN, False),
                                         (SPEC, False), (same, True),
                                         (r'self\.find_item.* is None',
                                          False)])
            out = [t for t in out if t.kind != 'return' or t.has('find')]
            tr.check('%s, strip %s' % (nm, strip), out, lambda t, s=strip,
                     nm=nm: t.kind == 'return' and t.has('put') and not
                     t.some('badput', 'badfind'),
                     'the found entries are returned')
    # endings are stripped when this is asked for
    for strip in (True, False):
        out = tr.run([('strip', 'call', r'Attributes\(\)\.strip\((sep=sep)?'
                       r'\)')], base + notgt + [('strip', strip)])
        tr.check('strip %s' % strip, out, lambda t, s=strip:
                 t.has('strip') is s and S(t.value) == 'Attributes()',
                 'endings are %sstripped' % ('' if strip else 'not '))
    # the names that are removed
    for nm, sm, end, want in (('general', True, False, None),
                              ('of the target', False, True, 'general'),
                              ('of another target', False, False, 'self')):
        out = [t for t in tr.run([
            ('seen', 'call', SA), ('general', 'collect', SA),
            ('self', 'collect', EL)], base + tgt + [
                (same, sm), (r'%s == %s' % (SA, EL), sm),
                (r'is_target_specific\(.*', not sm), (END, end),
                ('strip', False), (IN, True)])
               if t.kind == 'return' and (t.has('seen') or sm)]
        tr.check('a name %s' % nm, out, lambda t, w=want: (
            (not t.has('general') and not t.has('self')) if w is None else
            w in seq(t) and ('general' if w == 'self' else 'self')
            not in seq(t)), {
                None: 'is kept', 'general': 'removes the general one',
                'self': 'is removed'}[want])
    for spec in (True, False):
        out = [t for t in tr.run([
            ('test', 'call', r'is_target_specific\((attr=)?elem.*|' + SA),
            ('rem', 'collect', EL)], base + notgt + [
                (SPEC, spec), (same, not spec), ('strip', False),
                (r'%s != %s' % (EL, SA), spec), (IN, spec)])
            if t.kind == 'return' and t.has('test')]
        ctx.ob(r, 'no target, %s' % ('an ending' if spec else 'no ending'),
               bool(out), ctx.where(tr.f), 'is tested')
    tr.check('no target', tr.run([
        ('use', 'call', r"target\.strip\(.*|.*\.endswith\(.*target.*")],
        base + notgt + [(SPEC, True), (same, False)]), lambda t:
        not t.has('use'), 'is not used as one')
    tr.check('a name without entry', [t for t in tr.run(
        fi, base + notgt + [(IN, False), (SPEC, False), (same, True),
                            (r'self\.find_item.* is None', True),
                            (r'self\.find_item.*', False)])
        if t.has('find')], lambda t: t.kind == 'return' and
        not t.some('put', 'badput'), 'gives none')
    for par, want in (('attrs', None), ('target', None),
                      ('sort_by_attrs', False), ('strip', True)):
        d = tr.f.default_of(par)
        ctx.ob(r, 'default of ' + par, isinstance(d, ast.Constant) and
               d.value is want, ctx.where(tr.f), 'is %s' % want)
    # names that were removed are not looked up
    tr.check('removed', tr.run([('find', 'call', r'self\.find_item\(.*')],
                               base + tgt + [(IN, True), ('strip', False)]),
             lambda t: not t.has('find'), 'names are not looked up')
    tr.check('kept', [t for t in tr.run([
        ('find', 'call', r'self\.find_item\(.*'),
        ('each', 'iter', r'uniq\(.*|.*uniq\(.*')], base + notgt + [
            (IN, False), (SPEC, False), (same, True), ('strip', False)])
                      if t.has('find')],
             lambda t: t.kind == 'return', 'names are looked up')
    # all names by default, one name if it is a string
    for nm, facts, must in (
            ('all names', [(r'isinstance\(attrs, str\)', False),
                           (r'isinstance\(attrs, .*', False),
                           ('attrs is None', True)],
             r'uniq\((lst=)?(list\(|tuple\(|)self(\.keys\(\))?\)?\)'),
            ('one name', [(r'isinstance\(attrs, str\)', True),
                          (r'isinstance\(attrs, .*', True),
                          (r'isinstance\(attrs, PositionalValue\)', False),
                          ('attrs is None', False),
                          (r'(list|tuple)\((tuple\()?attrs\)+ is None',
                           False)],
             r'uniq\((lst=)?(list|tuple)\((tuple\()?attrs\)+\)'),
            ('names', base, r'uniq\((lst=)?attrs\)')):
        out = tr.run([('names', 'call', must), ('bad', 'call:uniq', '.*')],
                     facts + notgt + [('sort_by_attrs', True),
                                      ('strip', False)])
        tr.check(nm, out, lambda t: t.has('names') and not t.has('bad'),
                 'are filtered')
    # the order
    tr.check('order of the names', tr.run(
        [('sort', 'call', r'sorted\(.*|.*\.sort\(.*')],
        base + notgt + [('strip', False)]), lambda t: not t.has('sort'),
             'is kept when it was asked for')
    tr.check('order of the attributes', tr.run(
        [('sort', 'call', r'sorted\(.*|.*\.sort\(.*')],
        base[:-1] + [('sort_by_attrs', False), ('strip', False)] + notgt),
             lambda t: t.has('sort'), 'is that of the entries')
    for n in tr.g.calls():
        if n.pred and tr.g.cname(n) in ('sorted', 'sort'):
            s = S(n.term)
            ctx.ob(r, 'order of the attributes', 'reverse=True' not in s and
                   'key=' in s, ctx.where(n), 'is that of the entries')


def stripping(ctx):
    r = 'A01.strip'
    ctx.rule(r, 'Stripped attributes have one entry without ending for each '
             'entry, that for a target in place of the general one')
    tr = TraceRule(ctx, r, 'Attributes.strip')
    CP = r'(self\.copy\(\)|Attributes\(.*\)|dict\(.*\))'
    EL = r'elem\(.*'
    SA = r'strip_attr\((attr=)?elem\(.*'
    ev = [('copy', 'call', r'self\.copy\(\)|dict\(self\)|list\(self\.items.*|'
           r'Attributes\(\*\*=self\)'),
          ('clear', 'call', r'self\.clear\(\)'),
          ('put', 'store', r'self\[(%s|%s)\] = %s\[elem\(.*' % (SA, EL, CP)),
          ('bad', 'store', r'self\[.*'), ('strip', 'call', SA)]
    eq = [(r'%s == %s|%s == %s' % (EL, SA, SA, EL), False),
          (r'%s != %s|%s != %s' % (EL, SA, SA, EL), True)]
    IN = r'%s in (set\(\)|comp\(set.*|set.*|list\(\))' % EL
    for general in (True, False):
        f = [(IN, False), (r'%s == %s|%s == %s' % (EL, SA, SA, EL), general)]
        out = [t for t in tr.run(ev + [
            ('own', 'collect', SA)], f) if t.kind != 'return' or
               t.has('strip')]
        tr.check('an entry, general %s' % general, out, lambda t, g=general:
                 not t.has('bad') and t.has('copy', 'clear') and seq(t).index(
                     'copy') < seq(t).index('clear') and not (g and t.has(
                         'own')) and ('put' not in seq(t) or seq(t).index('clear') <
                              seq(t).index('put')),
                 'is kept under its name')
        ctx.ob(r, 'an entry, general %s' % general, general or any(
            t.has('own') for t in out), ctx.where(tr.f),
               'replaces the general one')
        put = [t for t in out if t.has('put')]
        ctx.ob(r, 'an entry, general %s' % general, bool(put),
               ctx.where(tr.f), 'is kept')
    for n in tr.g.nodes:
        if n.kind == 'store' and n.pred and n.target is not None and \
                isinstance(n.target, tuple):
            s = S(tr.g.expand(n.target, n))
            if s.startswith('self['):
                v = S(tr.g.expand(n.term, n))
                ctx.ob(r, 'stored entry', 'elem(' in v and not re.search(
                    r'strip_attr\([^\]]*\]$', v), ctx.where(n),
                       'is that of its name')
    # the name without ending is used for the entries that have one
    out = [t for t in tr.run([('put', 'store', r'self\[%s\] = .*' % SA),
                              ('raw', 'store', r'self\[elem.*')],
                             [(IN, False)] + eq) if t.some('put', 'raw')]
    tr.check('an entry of a target', out, lambda t: not t.has('raw'),
             'loses its ending')
    out = tr.run([('put', 'store', r'self\[.*')], [(IN, True)])
    tr.check('a replaced entry', out, lambda t: not t.has('put'),
             'is not kept')


# entries of strings of attributes, as the pattern has to find them
STRINGS = [
    ('width=50%', [('width', '50%')]),
    ('one two', ['one', 'two']),
    ('one, two', ['one', 'two']),
    ('a="b c" d', [('a', '"b c"'), 'd']),
    ("a='b, c' d=e", [('a', "'b, c'"), ('d', 'e')]),
    ('a="x]y"', [('a', '"x]y"')]),
    ('a="it\'s"', [('a', '"it\'s"')]),
    ('"a b" c=1', ['"a b"', ('c', '1')]),
    ('width.html=3 width=2', [('width.html', '3'), ('width', '2')]),
    ('a = b', [('a', 'b')]),
    ('a=1,2', [('a', '1,2')]),
    ('src=media/a-b_c.png', [('src', 'media/a-b_c.png')]),
    ('media/a.png', ['media/a.png']),
    ('a="" b', [('a', '""'), 'b']),
]


def loading(ctx):
    r = 'A01.load'
    ctx.rule(r, 'Every entry of an attribute string is loaded, with its '
             'value, or as positional of the type of its text')
    tr = TraceRule(ctx, r, 'Attributes.load')
    M = r'elem\(re_attrs\.finditer\(s\)\)\.groupdict\(\)|' \
        r'elem\(re_attrs\.finditer\(s\)\)|elem\(\.\.\.\)\.groupdict\(\)|' \
        r'\.\.\.(\.groupdict|\(\))?(\(\))?'
    G = lambda k: r"(%s)(\.get\('%s'(, None)?\)|\['%s'\]|\.group\('%s'\))" % (
        M, k, k, k)
    ev = [('each', 'iter', r're_attrs\.finditer\((string=)?s\)'),
          ('pair', 'collect|store', r"(?=.*\['key'\]|.*\('key')"
           r"(?=.*\['value'\].*strip|.*\('value'.*strip).*"),
          ('type', 'call', r'positionalvalue_type\((p=)?strip_attr\(.*'),
          ('pos', 'collect|store', r'(?=.*position.*)(?=.*positionalvalue_'
           r'type\((p=)?strip_attr\().*'),
          ('bad', 'collect|store', '.*'),
          ('update', 'call', r'self\.update\(.*')]
    ev = [(a, k, p) for a, ks, p in ev for k in ks.split('|')]
    for nm, key, val, pos, want in (
            ('a pair', True, True, False, 'pair'),
            ('a positional', False, False, True, 'pos'),
            ('nothing', False, False, False, None)):
        out = [t for t in tr.run(ev, [
            (G('key'), key), (G('value'), val), (G('position'), pos),
            (G('key') + ' is None', not key),
            (G('position') + ' is None', not pos)])
            if seq(t).count('each') >= 2]
        tr.check(nm, out, lambda t, w=want: t.kind == 'return' and
                 not t.has('bad') and (w is None and not t.some('pair', 'pos')
                                       or w is not None and t.has(w)),
                 'is loaded' if want else 'gives no entry')
    for key in ('value', 'position'):
        q = set()
        for n in tr.g.calls():
            if n.pred and tr.g.cname(n) == 'strip' and key in S(
                    tr.g.expand(n.term, n)):
                for a in n.term[2]:
                    try:
                        q |= set(ast.literal_eval(S(a)))
                    except (ValueError, SyntaxError, TypeError):
                        q.add('?')
        ctx.ob(r, 'quotes of a ' + key, q == {'"', "'"}, ctx.where(tr.f), 'are removed')
    from . import t04
    v = t04.regex_const(ctx, 'attributes.attributes', 're_attrs')
    if v is not None:
        for string, want in STRINGS:
            got = [(d.get('key'), d['value']) if d.get('key') else
                   d.get('position') for d in (
                       m.groupdict() for m in v.finditer(string))
                   if d.get('key') or d.get('position')]
            ctx.ob(r, 'the entries of [%s]' % string, got == want,
                   'disseminate/attributes/attributes.py',
                   'the pattern matches %s' % got)
    ctx.ob(r, 'entries', any(
        n.pred and (tr.g.cname(n) in ('update', '__setitem__', 'setdefault')
                    and S(n.term).startswith('self')) for n in
        tr.g.calls()) or any(n.kind == 'store' and n.pred and n.target is not
                             None and S(tr.g.expand(n.target, n)).startswith(
                                 'self[') for n in tr.g.nodes
                             if isinstance(n.target, tuple)),
           ctx.where(tr.f), 'are kept in order')
    out = [t for t in tr.run([('update', 'call', r'self\.update\(.*')], [])]
    tr.check('entries', out, lambda t: t.kind == 'return', 'are kept')
    # the string that is passed
    tr = TraceRule(ctx, r, 'Attributes.__init__')
    ld = [n for n in tr.g.calls() if n.pred and tr.g.cname(n) == 'load']
    ctx.ob(r, 'strings', bool(ld), ctx.where(tr.f), 'are loaded')
    A_ = r'isinstance\(elem\(args\), str\)'
    ev = [('load', 'call', r'self\.load\(.*elem\(.*'),
          ('init', 'call', r'super\(.*\)\.__init__\((?=.*elem\(args\)|.*comp)'
           r'(?=.*\*\*=kwargs).*'),
          ('empty', 'call', r'super\(.*\)\.__init__\(.*\*\*=kwargs.*'),
          ('badinit', 'call', r'super\(.*\)\.__init__\(.*'),
          ('each', 'iter', 'args')]
    # the loaded entries are in the order of the string
    out = [t for t in tr.run(ev, [(A_, True)])
           if seq(t).count('each') >= 2]
    ctx.ob(r, 'a string', any(t.has('load') for t in out), ctx.where(tr.f),
           'is loaded')
    out = [t for t in tr.run(ev, [(A_, False)])]
    tr.check('another', out, lambda t: not t.has('load') and
             t.some('init', 'empty') and not t.has('badinit'),
             'is passed on with the keywords')
    ctx.ob(r, 'another', any(t.has('init') for t in out), ctx.where(tr.f),
           'is passed on')
    tr = TraceRule(ctx, r, 'Attributes.copy')
    tr.expect('copy', [], [], ret=r'(Attributes|type\(self\)|self\.__class__)'
              r'\((\*\*=self|self|dict\(self\)|.*self\.items\(\).*)\)',
              msg='has all entries')
    # types of positional values
    tr = TraceRule(ctx, r, 'positionalvalue_type')
    tab = None
    for d in ast.walk(tr.f.node):
        if isinstance(d, (ast.Tuple, ast.List)) and d.elts and all(
                isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 2
                for e in d.elts):
            tab = [tuple(ast.unparse(x) for x in e.elts) for e in d.elts]
        elif isinstance(d, ast.Dict) and d.keys:
            tab = [(ast.unparse(a), ast.unparse(b)) for a, b in zip(
                d.keys, d.values)]
    if tab is not None:
        ctx.ob(r, 'types', tab == [
            ('int', 'IntPositionalValue'), ('float', 'FloatPositionalValue'),
            ('str', 'StringPositionalValue')], ctx.where(tr.f),
               'are tried from the narrowest')
        out = tr.run([('try', 'call', r'elem\(.*\)\[0\]\((p|.*)\)|elem\(.*\)'
                       r'\(p\)')], [], exc=True)
        tr.check('type', [t for t in out if t.kind == 'return' and
                          not re.search('elem', S(t.value))], lambda t:
                 S(t.value) == 'PositionalValue', 'is that of any otherwise',
                 minimum=0)
        ctx.ob(r, 'type', any(t.kind == 'return' and re.match(
            r'elem\(.*\)\[1\]|.*\[elem', S(t.value)) and t.has('try')
            for t in out), ctx.where(tr.f), 'is the one that fits')
        tries = [n for n in tr.g.calls() if n.pred and not n.inlined and
                 re.search(r'\(p\)$', S(tr.g.expand(n.term, n)))]
        ctx.ob(r, 'type', tries and all('ValueError' in caught(n) or
                                        'Exception' in caught(n)
                                        for n in tries), ctx.where(tr.f),
               'is another one if it does not fit')
    tr = TraceRule(ctx, r, 'ispositional')
    tr.expect('positional', [(r'isinstance\(p, type\)', True)], [],
              ret=r'issubclass\(p, positionalvalue_type\)|.*and.*issubclass'
              r'\(p, positionalvalue_type\).*', msg='is a type of them')
    tr.expect('value', [(r'isinstance\(p, type\)', False)], [], ret='False|'
              r'isinstance\(p, type\)|.*isinstance\(p, type\).*and.*',
              msg='is not positional')
    for sub in ('IntPositionalValue', 'FloatPositionalValue',
                'StringPositionalValue'):
        c = ctx.cls(sub)
        ctx.ob(r, sub, any(b.name == 'PositionalValue'
                           for b in ctx.repo.mro(c)), ctx.where(tr.f),
               'is a positional value')
    # the tuple, and copies
    tr = TraceRule(ctx, r, 'Attributes.totuple')
    P_ = r'%sself\[elem\(self\)\]\)' % POS
    for pos in (True, False):
        out = [t for t in tr.run([
            ('key', 'collect', r'elem\(self\)'),
            ('pair', 'collect', r'tuple\(elem\(self\), self\[elem\(self\)\]'
             r'\)'), ('bad', 'collect', '.*')], [
                 (POS + r'.*\)', pos)]) if t.some('key', 'pair', 'bad')]
        tr.check('tuple, positional %s' % pos, out, lambda t, p=pos: t.has(
            'key' if p else 'pair') and not t.some('pair' if p else 'key',
                                                   'bad'),
                 'has its %s' % ('name' if pos else 'name and value'))
    # appending
    tr = TraceRule(ctx, r, 'Attributes.append')
    MISS = r'value (==|is) _MissingAttribute'
    V, SV = r'self\[attr\]', r'str\(value\)'
    ev = [('pos', 'store', r'self\[attr\] = PositionalValue'),
          ('set', 'store', r'self\[attr\] = value'),
          ('join', 'store', r"self\[attr\] = (' '\.join\((tuple|list)\((str"
           r"\()?%s\)?, %s\)\)|\(\((str\()?%s\)? \+ ' '\) \+ %s\)|"
           r"'\{\} \{\}'\.format\(%s, (value|%s)\)|<.*>)" % (
               V, SV, V, SV, V, SV)),
          ('add', 'call', r'self\[attr\]\.append\(value\)'),
          ('bad', 'store', r'.*')]
    for nm, fs, want in (
            ('positional', [(MISS, True)], 'pos'),
            ('new', [(MISS, False), ('attr in self', False)], 'set'),
            ('string', [(MISS, False), ('attr in self', True),
                        (r'isinstance\(%s, str\)' % V, True)], 'join'),
            ('list', [(MISS, False), ('attr in self', True),
                      (r'isinstance\(%s, str\)' % V, False),
                      (r'isinstance\(%s, list\)' % V, True)], 'add'),
            ('other', [(MISS, False), ('attr in self', True),
                       (r'isinstance\(%s, str\)' % V, False),
                       (r'isinstance\(%s, list\)' % V, False)], 'join')):
        out = tr.run(ev, fs)
        tr.check('append, ' + nm, out, lambda t, w=want: [
            e for e in seq(t) if e in ('pos', 'set', 'join', 'add', 'bad')
        ] == [w], 'is added to the entry')


def uses(ctx):
    r = 'A01.uses'
    ctx.rule(r, 'Parameters of renderings that depend on attributes are those '
             'of the rendered target')
    for spec, name, par in (
            ('Img.add_file', 'filter', r'(\(|.*, )target=target.*'),
            ('Eq.tex_fmt', 'get', r".*'env'.*target='\.?tex'.*"),
            ('BaseTable.html_fmt', 'filter', r".*target='\.?html'.*"),
            ('tex_percentwidth', 'get', r".*'width'.*target=target.*"),
            ('xhtml_percentwidth', 'get', r".*'width'.*target=target.*")):
        tr = TraceRule(ctx, r, spec)
        calls = [n for n in tr.g.calls() if n.pred and tr.g.cname(n) == name
                 and re.search(r'attr', S(tr.g.expand(n.term, n)))]
        ctx.ob(r, spec, bool(calls), ctx.where(tr.f), 'uses the attributes')
        for n in calls:
            s = S(tr.g.expand(n.term, n))
            if name == 'get' and not re.search(r"'(env|width)'", s):
                continue
            ctx.ob(r, spec, re.search(r'\.%s\(' % name + par.replace(
                r'(\(|.*, )', '.*'), s) is not None, ctx.where(n),
                   'uses those for its target: %s' % s[:90])


def run(ctx):
    base.distinct(ctx, 'A01.distinct')
    find(ctx)
    get(ctx)
    filters(ctx)
    stripping(ctx)
    loading(ctx)
    uses(ctx)
