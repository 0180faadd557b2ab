"""C02: entries of headers keep the types and order of precedence"""
from . import base, s01
from .common import *
from .c01 import K, C, O, BASE

ASSUMPTIONS = [
    'The header syntax itself (the regular expressions) is tested, not '
    'analysed',
]

TYPES = ('list', 'set', 'dict', 'Tag', 'bool', 'int', 'float')
ITER = (r'changes(\.keys\(\))?|keys|sorted\(.*\)|list\(.*\)|\(?changes.*')


def typed(name):
    """Facts: the existing value is of this type"""
    out = []
    for t in TYPES:
        yes = t == name or name == 'bool' and t == 'int'
        out.append((r'isinstance\(%s, (\w+\.)?%s\)' % (O, t), yes))
        if t in ('bool', 'int', 'float'):
            out.append((r'type\(%s\) (is|==) %s' % (O, t), t == name))
    return out


def types(ctx, r):
    """How an entry that exists is updated"""
    ctx.rule(r, 'An entry that exists is updated by a value of its own type: '
             'lists are prepended, sets joined, dicts updated recursively, '
             'tags and scalars replaced by converted values')
    tr = TraceRule(ctx, r, 'BaseContext.match_update')
    has = BASE + [(K + r' in self', True), ('overwrite', True),
                  (K + r' in self\.replace', False)]
    LST = r'(str_to_list\(string=%s\)|(list|tuple)\(%s\)|%s)' % (C, C, C)
    SLST = r'str_to_list\(string=%s\)' % C
    head = [('it', 'iter', ITER)]
    isstr = [(r'isinstance\(%s, str\)' % C, True)]
    nostr = [(r'isinstance\(%s, str\)' % C, False)]
    SL = r'slice\((0|None), 0, None\)'
    put = {
        'list': (('store', r'%s\[%s\] = %s'), SL),
    }
    for case, fs, src in (('string', isstr, SLST),
                          ('other', nostr, r'((list|tuple)\(%s\)|%s)' % (
                              C, C))):
        ev = head + [
            ('put', 'store', r'%s\[%s\] = %s' % (O, SL, src)),
            ('bad', 'store', r'self.*'), ('bad', 'aug', r'self.*'),
            ('bad', 'call', r'%s\.(append|extend|insert|clear|pop|remove|'
             r'reverse|sort)\(.*' % O), ('bad', 'del', 'self.*')]
        tr.expect('list from ' + case, has + typed('list') + fs, ev,
                  must=('put',), never=('bad',), it='it',
                  exactly={'put': 1}, msg='the new values come first')
        ev = head + [
            ('put', 'aug', r'%s \|= (set\()?%s\)?' % (O, src)),
            ('put', 'call', r'%s\.update\((set\()?%s\)?\)' % (O, src)),
            ('put', 'store', r'%s = \(?%s \| (set\()?%s\)?\)?' % (
                O, O, src)),
            ('same', 'store', r'%s = .*\|.*' % O),
            ('bad', 'store', r'self.*'), ('bad', 'del', 'self.*'),
            ('bad', 'call', r'%s\.(clear|pop|remove|discard)\(.*' % O)]
        tr.expect('set from ' + case, has + typed('set') + fs, ev,
                  must=('put',), never=('bad',), it='it',
                  msg='the new values are joined')
        dsrc = r'str_to_dict\(string=%s\)' % C if fs is isstr else \
            r'(dict\(%s\)|%s)' % (C, C)
        ev = head + [
            ('put', 'call', r'(BaseContext|self|self\.__class__|'
             r'type\(self\))\.match_update\((?=.*changes=%s[,)])'
             r'(?=.*level=\(level \+ 1\))(?=.*self=%s[,)]).*\)' % (dsrc, O)),
            ('bad', 'call', r'.*match_update\(.*\)'),
            ('bad', 'call', r'%s\.(update|clear|pop|setdefault)\(.*' % O),
            ('bad', 'store', r'self.*'), ('bad', 'aug', 'self.*')]
        tr.expect('dict from ' + case, has + typed('dict') + fs, ev,
                  must=('put',), never=('bad',), it='it',
                  exactly={'put': 1}, msg='the entries are updated by type')
    tr.expect('missing entry', BASE + [(K + r' in self', False)], head + [
        ('put', 'store', r'%s = %s\.copy\(.*\)' % (O, C)),
        ('put', 'store', r'%s = %s' % (O, C))], must=('put',), it='it',
        msg='entries that do not exist are added')
    tag = typed('Tag')
    CT = r'isinstance\(%s, (\w+\.)?Tag\)' % C
    ev = head + [
        ('new', 'call', r'%s\.__class__\(|type\(%s\)\(' % (O, O)),
        ('put', 'store', r"%s = (%s\.__class__|type\(%s\))\((?=.*attributes="
         r"('|\"\"|\(\)|None|AttributesOrd\(\)|.{0,6}))(?=.*content=%s[,)])"
         r"(?=.*context=self[,)])(?=.*name=%s[,)]).*\)" % (O, O, O, C, K)),
        ('copy', 'store', r'%s = %s\.copy\(new_context=self\)' % (O, C)),
        ('bad', 'store', 'self.*'), ('bad', 'del', 'self.*')]
    tr.expect('tag from string', has + tag + isstr + [(CT, False)], ev,
              must=('put',), never=('bad', 'copy'), it='it',
              msg='a tag of the same type is made')
    tr.expect('tag from tag', has + tag + nostr + [(CT, True)], ev,
              must=('copy',), never=('bad', 'put'), it='it',
              msg='a copy with this context is stored')
    tr.expect('tag from others', has + tag + nostr + [(CT, False)], ev,
              never=('bad', 'put', 'copy'), it='it',
              msg='the tag is kept')
    LOW = r'str\(%s\)(\.lower\(\)|\.strip\(\)|\.casefold\(\))+' % C
    for val in (True, False):
        word = 'true' if val else 'false'
        other = 'false' if val else 'true'
        fs = [(r"%s == '%s'" % (LOW, word), True),
              (r"%s == '%s'" % (LOW, other), False)]
        ev = head + [('put', 'store', r"%s = (%s|\(?%s == '%s'\)?)" % (
            O, val, LOW, word)), ('bad', 'store', 'self.*')]
        tr.expect('bool from ' + word, has + typed('bool') + fs, ev,
                  must=('put',), never=('bad',), it='it',
                  msg='the word gives the truth value')
    tr.expect('bool from others', has + typed('bool') + [
        (r"%s == '(true|false)'" % LOW, False),
        (r"%s in (tuple|list|set)\(.*\)" % LOW, False)],
        head + [('bad', 'store', 'self.*')], never=('bad',), it='it',
        msg='the value is kept')
    for t in ('int', 'float'):
        ev = head + [('put', 'store', r'%s = %s\(%s\)' % (O, t, C)),
                     ('conv', 'call', r'%s\(%s\)' % (t, C)),
                     ('bad', 'store', 'self.*')]
        tr.expect(t, has + typed(t), ev, must=('put',), never=('bad',),
                  it='it', msg='the value is converted')
        cs = [n for n in tr.g.calls() if n.pred and n.term[1][0] == 'g' and
              n.term[1][2] == t]
        ok = bool(cs)
        for n in cs:
            k = caught(n)
            ok &= 'Exception' in k or {'TypeError', 'ValueError'} <= k
        ctx.ob(r, t + ' that is not a number', ok, ctx.where(tr.f),
               'values that cannot be converted are ignored')
    SAME = r'type\(%s\) (is|==) (type\(%s\)|%s\.__class__)' % (O, C, C)
    SAME2 = r'isinstance\(%s, (type\(%s\)|%s\.__class__)\)' % (C, O, O)
    SAME3 = r'(type\(%s\)|%s\.__class__) (is|==) (type\(%s\)|%s\.__class__)'
    same = [(SAME3 % (O, O, C, C), True), (SAME3 % (C, C, O, O), True),
            (SAME2, True)]
    differ = [(p, False) for p, _ in same]
    ev = head + [('put', 'store', r'%s = %s' % (O, C)),
                 ('bad', 'store', 'self.*'), ('bad', 'del', 'self.*')]
    none = typed('none')
    tr.expect('others of the same type', has + none + same, ev,
              must=('put',), never=('bad',), it='it',
              msg='the value is replaced')
    tr.expect('others of another type', has + none + differ, ev,
              never=('put', 'bad'), it='it', msg='the value is kept')
    return has, head


def run(ctx):
    base.distinct(ctx, 'C02.distinct')
    repo = ctx.repo
    has, head = types(ctx, 'C02.types')
    tr = TraceRule(ctx, 'C02.types', 'BaseContext.match_update')
    r = 'C02.guards'
    ctx.rule(r, 'Without overwrite existing entries are kept; entries marked '
             'as replaced are cleared first; nesting is limited; only the '
             'given keys are used')
    tr.rule = r
    WR = [('bad', 'store', 'self.*'), ('bad', 'aug', 'self.*'),
          ('bad', 'del', 'self.*'),
          ('bad', 'call', r'%s\.(append|extend|insert|clear|pop|remove|'
           r'reverse|sort|update)\(.*' % O),
          ('bad', 'call', r'.*match_update\(.*self=%s.*' % O)]
    tr.expect('no overwrite', BASE + [(K + ' in self', True),
                                      ('overwrite', False)],
              head + WR, never=('bad',), it='it',
              msg='existing entries are kept')
    tr.expect('entry not among the changes',
              [x for x in BASE if 'in changes' not in x[0]] +
              [(K + r' in changes', False)], head + WR, never=('bad',),
              it='it', msg='missing keys are skipped')
    tr.expect('replaced', BASE + [
        (K + ' in self', True), ('overwrite', True),
        (K + r' in self\.replace', True)] + typed('list'), head + [
            ('clear', 'call', O + r'\.clear\(\)'),
            ('put', 'store', r'%s\[.*\] = .*' % O)],
        must=('clear', 'put'), order=(('clear', 'put'),), it='it',
        msg='the old values are removed')
    tr.expect('not replaced', has, head + [
        ('clear', 'call', O + r'\.clear\(\)')], never=('clear',), it='it',
        msg='only entries marked as replaced are cleared')
    nodepth = [x for x in BASE if 'max_depth' not in x[0]] + [
        (r'level < settings\.context_max_depth', False)]
    tr.expect('too deep', nodepth, head + WR, error='ContextException',
              never=('bad', 'it'), msg='the depth is limited')
    g = tr.g
    its = [n for n in g.nodes if n.kind == 'iter' and n.pred and
           n.func is tr.f]
    out = tr.run(head, [('keys is None', False), ('level == 1', False),
                        (r'level < settings\.context_max_depth', True)])
    tr.check('given keys', [t for t in tr.run(
        [('ok', 'iter', r'(list|tuple|set|sorted)?\(?keys\)?|.*\bkeys\b.*'),
         ('bad', 'iter', r'changes.*|self.*')],
        [('keys is None', False), ('level == 1', False), ('keys', True),
         (r'level < settings\.context_max_depth', True)])],
        lambda t: t.has('ok') and not t.has('bad'),
        'only the given keys are used', kinds=('return',))
    tr.check('all keys', [t for t in tr.run(
        [('ok', 'iter', r'.*changes.*')],
        [('keys is None', True), ('level == 1', False), ('keys', False),
         (r'level < settings\.context_max_depth', True)])],
        lambda t: t.has('ok'), 'all entries are used', kinds=('return',))
    f = tr.f
    for p, want in (('overwrite', True), ('level', 1), ('keys', None)):
        d = f.default_of(p)
        v = repo.eval_const(f.module, d) if d is not None else '?'
        ctx.ob(r, 'default of ' + p, v == want, ctx.where(f),
               'the default is %r' % (v,))
    ctx.ob(r, 'context_max_depth', 1 < repo.const(
        'settings', 'context_max_depth') < 200, ctx.where(f), 'limit')
    tr.expect('string', [('keys is None', True), ('level == 1', True),
                         (r'isinstance\(changes, str\)', True),
                         (r'level < settings\.context_max_depth', True)], [
        ('conv', 'call', r'str_to_dict\(string=changes\)')],
        must=('conv',), msg='a string is parsed')

    # ---------------------------------------------------------------- load
    r = 'C02.load'
    ctx.rule(r, 'The header is removed from the text and its entries, and '
             'only these, update the context')
    tr = TraceRule(ctx, r, 'load_from_string')
    M = r're_header_block\.match\(string\)'
    END = r'(%s\.span\((0)?\)\[1\]|%s\.end\((0)?\))' % (M, M)
    HD = r"%s(\.groupdict\(\)\['header'\]|\.group\('header'\)|" \
         r"\['header'\])" % M
    tr.expect('header', [(M + ' is None', False), (M, True)], [],
              ret=r'tuple\(string\[slice\(%s, None, None\)\], str_to_dict\('
              r'string=%s\)\)' % (END, HD), msg='text after the header')
    tr.expect('no header', [(M + ' is None', True), (M, False)], [],
              ret=r'tuple\(None, str_to_dict\(string=string\)\)',
              msg='all of the text')
    tr = TraceRule(ctx, r, 'BaseContext.load')
    LS = r'load_from_string\(string=string\)'
    ev = [('upd', 'call', r'self\.match_update\((?=.*changes=%s\[1\])'
           r'(?=.*overwrite=overwrite).*\)' % LS),
          ('bad', 'call', r'self\.(match_update|update)\(.*')]
    for case, fs, ret in (
            ('stripped', [(LS + r'\[0\] is None', False),
                          ('strip_header', True)], LS + r'\[0\]'),
            ('not stripped', [(LS + r'\[0\] is None', False),
                              ('strip_header', False)], 'string'),
            ('no header', [(LS + r'\[0\] is None', True),
                           ('strip_header', True)], 'string')):
        tr.expect(case, fs, ev, ret=ret, must=('upd',), never=('bad',),
                  exactly={'upd': 1}, msg='the rest of the text is returned')

    r = 'C02.stages'
    ctx.rule(r, 'Headers are processed after the text is loaded '
             'and before tags are made')
    s01.ordered(ctx, r, 'document_onload', ['reset_document', 'load_document', 'process_headers', 'process_tags'])

    r = 'C02.header'
    ctx.rule(r, 'Entries of the document\'s header take precedence over '
             'those of the template, of child templates over those of '
             'parent templates; headers are removed from the entries')
    tr = TraceRule(ctx, r, 'process_headers')
    g = tr.g
    FK = r'(sorted\(|list\()*find_header_entries\(context=context\)\)*'
    ENT = r'context\[elem\(%s\)\]' % FK
    LS = r'load_from_string\(string=%s\)' % ENT
    ev = [('it', 'iter', FK),
          ('strip', 'store', r'%s = %s\[0\]' % (ENT, LS)),
          ('upd', 'call', r'BaseContext\(\)\.match_update\(changes=%s\[1\]'
           r'(, .*)?\)' % LS),
          ('bad', 'store', r'context\[elem.*'),
          ]
    tr.expect('header entries', [], ev, must=('strip', 'upd'),
              never=('bad',), it='it', msg='headers are taken out')
    ups = [n for n in g.calls() if g.cname(n) == 'match_update' and
           n.func is tr.f]
    mk = lambda n: allocs(g, n.term[1][1], n) | {  # noqa
        x for x in [None] if False}
    hdr, tpl, fin = set(), set(), []
    for n in g.calls():
        if not n.pred or n.term[1][0] != 'attr':
            continue
        s = S(g.expand(n.term, n))
        if g.cname(n) == 'match_update' and 'load_from_string' in s and \
                not s.startswith('context.'):
            hdr |= allocs(g, n.term[1][1], n)
        elif g.cname(n) == 'load' and 'read_text' in s:
            tpl |= allocs(g, n.term[1][1], n)
        elif g.cname(n) in ('match_update', 'update') and \
                s.startswith('context.'):
            fin.append(n)

    def source(n):
        a = [t for k, t in n.term[3] if k == 'changes'] or list(n.term[2])
        return allocs(g, a[0], n) if a else set()
    h = [n for n in fin if source(n) & hdr]
    t = [n for n in fin if source(n) & tpl]
    rest = [n for n in fin if n not in h and n not in t]
    ok = bool(h) and bool(t) and not rest and not hdr & tpl
    ctx.ob(r, 'sources', ok, ctx.where(tr.f),
           'the context is updated from the template and the header')
    if ok:
        ctx.ob(r, 'precedence', not any(
            x in g.reachable(y) for x in t for y in h), ctx.where(h[0]),
            'the header must be applied after the template')
        ctx.ob(r, 'always applied', g.exit not in g.reachable(
            g.entry, avoid=lambda n: n in h) and g.exit not in g.reachable(
            g.entry, avoid=lambda n: n in t), ctx.where(tr.f),
            'both are applied on all paths')
        for n in h + t:
            s = S(g.expand(n.term, n))
            ctx.ob(r, 'overwrite', g.cname(n) == 'match_update' and
                   'overwrite=False' not in s and 'keys=' not in s,
                   ctx.where(n), 'all entries overwrite existing ones')
    cs = [n for n in g.calls() if n.pred and g.cname(n) ==
          'find_additional_context_filepaths']
    ctx.need(r, cs, 1, 'searches of context files')
    TP = r"find_template_paths\(template_name="
    for n in cs:
        s = S(g.expand(n.term, n))
        ctx.ob(r, 'parents first', bool(re.search(
            r'\[slice\(None, None, -1\)\]|reversed\(', s)) and
            'find_template_paths' in s and
            'find_jinja2_parent_templates' in s, ctx.where(n),
            'the context files of parent templates are loaded first')
    its = [n for n in g.nodes if n.kind == 'iter' and n.pred and
           'find_additional_context_filepaths' in S(g.expand(n.term, n))]
    for n in its:
        s = S(g.expand(n.term, n))
        ctx.ob(r, 'order of context files', s.count('-1') +
               s.count('reversed(') == 1 and 'sorted(' not in s,
               ctx.where(n), 'in the order given')
    tr.expect('paths', [], [
        ('put', 'store', r"context\['paths'\]\[slice\((0|None), 0, None\)\]"
         r" = .*find_template_paths.*"),
        ('put', 'store', r"context\['paths'\]\[slice\((0|None), 0, None\)\]"
         r" = uniq\(.*"),
        ('bad', 'store', r"context\['paths'\].*")], must=('put',),
        never=('bad',), msg='the template paths come first')
    for hh in (True, False):
        GT = r"BaseContext\(\)(\.get\('template'(, None)?\)|\['template'\])"
        WANT = GT if hh else r"context(\.get\('template'(, .*)?\)|\[" \
            r"'template'\])"
        tr.expect('template of the %s' % ('header' if hh else 'context'), [
            (GT, hh), (GT + ' is None', not hh),
            (r"'template' in BaseContext\(\)", hh)], [
            ('ok', 'call', r'find_template_paths\(template_name=(%s|\(?%s or'
             r' %s\)?)\)' % (WANT, GT, r'context.*' if hh else WANT)),
            ('bad', 'call', r'find_template_paths\(template_name=.*')],
            must=('ok',), never=('bad',),
            msg='the template of the header is preferred')
    tr = TraceRule(ctx, r, 'find_header_entries')
    M = r're_header_block\.match\(context\[elem\(context\)\]\)'
    tr.expect('entries with header', [
        (r'isinstance\(context\[elem\(context\)\], str\)', True),
        (M, True), (M + ' is None', False)], [
        ('it', 'iter', r'context.*'), ('add', 'collect', r'elem\(context\)')],
        must=('add',), it='it', msg='the entry is found')
    tr.expect('entries without header', [(M, False), (M + ' is None', True)],
              [('it', 'iter', r'context.*'),
               ('add', 'collect', r'elem\(context\)')],
              never=('add',), it='it', msg='other entries are left alone')
    tr = TraceRule(ctx, r, 'find_template_paths')
    P = r'\(elem\(settings\.module_template_paths\) / template_name\)'
    for case, a, b, want in (('directory', True, None, 'own'),
                             ('file', False, True, 'par'),
                             ('none', False, False, None)):
        ev = [('it', 'iter', r'settings\.module_template_paths'),
              ('own', 'call', r'.*\.insert\(0, %s\)' % P),
              ('par', 'call', r'.*\.insert\(0, %s\.parent\)' % P),
              ('bad', 'call', r'.*\.(insert|append|extend)\(.*')]
        fs = [(P + r'\.is_dir\(\)', a), (P + r'(\.parent)? in list\(.*\)',
                                         False)]
        if b is not None:
            fs.append((P + r'\.parent\.is_dir\(\)', b))
        tr.expect('template ' + case, fs, ev, must=(want,) if want else (),
                  never=tuple(x for x in ('own', 'par', 'bad')
                              if x != want), it='it',
                  msg='the directory of the template is found')
    tr = TraceRule(ctx, r, 'find_jinja2_parent_templates')
    for case, v in (('named', False), ('not named', True)):
        tr.expect('parent template ' + case, [
            (r"str\(.*\.group\(1\).*\.parent\.parent\)+ == '\.'", v),
            (r".*\.group\(1\).*\.parent\.parent\)* == .*'\.'.*", v)], [
            ('it', 'iter', '.*'),
            ('add', 'aug', r'.* \+= find_template_paths\(template_name='
             r'.*\.group\(1\).*\)'),
            ('add', 'call', r'.*\.extend\(find_template_paths\(template_name'
             r'=.*\.group\(1\).*\)\)')], it='it' if v else 'add',
            never=('add',) if v else (),
            msg='the paths of parent templates are found') if v else \
            tr.check('parent template named', [t for t in tr.run([
                ('add', 'aug', r'.* \+= find_template_paths\(template_name='
                 r'.*\.group\(1\).*\)'),
                ('add', 'call', r'.*\.extend\(find_template_paths\(template'
                 r'_name=.*\.group\(1\).*\)\)')]) if t.has('add')],
                lambda t: True, 'the paths of parent templates are found')
    tr = TraceRule(ctx, r, 'find_additional_context_filepaths')
    tr.check('name', [t for t in tr.run(
        [('ok', 'collect', r'.*settings\.template_context_filename.*'),
         ('bad', 'collect', '.*')],
        [('context_filename is None', True), ('context_filename', False)])
        if t.has('ok') or t.has('bad')], lambda t: not t.has('bad'),
        'the default name is used')
    tr.check('given name', [t for t in tr.run(
        [('ok', 'collect', r'.*context_filename.*'),
         ('bad', 'collect', '.*')],
        [('context_filename is None', False), ('context_filename', True)])
        if t.has('ok') or t.has('bad')], lambda t: not t.has('bad'),
        'the given name is used')
    for case, a, b, want in (('in the directory', True, None, 'own'),
                             ('in the parent', False, True, 'par'),
                             ('none', False, False, None)):
        P = r'\(elem\(template_paths\) / (context_filename|' \
            r'settings\.template_context_filename)\)'
        Q = r'\(elem\(template_paths\)\.parent / (context_filename|' \
            r'settings\.template_context_filename)\)'
        ev = [('it', 'iter', 'template_paths'), ('own', 'collect', P),
              ('par', 'collect', Q), ('bad', 'collect', '.*')]
        fs = [(P + r'\.is_file\(\)', a)] + (
            [(Q + r'\.is_file\(\)', b)] if b is not None else [])
        tr.expect(case, fs, ev, must=(want,) if want else (),
                  never=tuple(x for x in ('own', 'par', 'bad')
                              if x != want), it='it',
                  msg='the nearest context file is used')

    # -------------------------------------------------------------- parsing
    r = 'C02.parse'
    ctx.rule(r, 'Lists are split at semicolons, else at lines, else at '
             'commas; pieces are stripped')
    tr = TraceRule(ctx, r, 'str_to_list')
    def many(x, v):
        pre = r"string\.split\('%s'\)" % x
        return [(r'1 < len\(' + pre + r'\)', v),
                (r'len\(' + pre + r'\) == 1', not v),
                (r'len\(' + pre + r'\) < 2', not v),
                (r"'%s' in string" % x, v)]

    def source(t):
        s = ' '.join([S(t.value)] + [e[1] for e in t.ev])
        return {n for n, p in (('semi', r"split\(';'\)"),
                               ('line', r"split\('\\n'\)|splitlines\(\)"),
                               ('comma', r"split\(','\)")) if
                re.search(p, s)} or {
                    'single' if re.fullmatch(
                        r'list\(string(\.strip\(\))?\)', S(t.value))
                    else 'none'}
    ev = [('c', 'collect', r'(?P<x>.*)')]
    out = tr.run(ev, many(';', True))
    tr.check('semicolons', out, lambda t: source(t) <= {'semi', 'none'},
             'split at semicolons')
    out = tr.run(ev, many(';', False))
    tr.check('no semicolons', out, lambda t: 'semi' not in source(t) or
             'list()' in S(t.value), 'not split at semicolons')
    for k in ('line', 'comma', 'single'):
        tr.check(k, [t for t in out if source(t) == {k}], lambda t: True,
                 'split into ' + k)
    # commas only where there is a single line
    g = tr.g
    cut = [n for n in g.nodes if n.pred and n.kind == 'iter' and re.search(
        r"split\(','\)", S(g.expand(n.term, n)))]
    for n in cut:
        cs = ' '.join(S(c) for c, p, t in g.conds(n))
        ctx.ob(r, 'commas after lines', bool(re.search(
            r"split\('\\n'\)|splitlines|'\\n'|len\(", cs)), ctx.where(n),
            'several lines are not split at commas')
    strip = [n for n in g.calls() if n.pred and g.cname(n) == 'strip']
    ctx.ob(r, 'pieces', len(strip) >= 2 and all(
        not n.term[2] for n in strip), ctx.where(tr.f),
        'pieces are stripped')
    for n in g.nodes:
        if n.kind != 'ret' or not n.pred:
            continue
        e = g.expand(n.term, n)
        if e[0] in ('phi', 'v', 'or', 'and', 'ifexp'):
            continue
        s = S(e)
        if r"split('\\n')" in s or r"split('\n')" in s or 'splitlines' in s:
            cs = [(S(c), p) for c, p, t in g.conds(n)]
            ctx.ob(r, 'several lines', any(
                p and re.search(r'1 < len|len\(.* > 1|len\(.* >= 2', c) or
                not p and 'len' in c for c, p in cs), ctx.where(n),
                'only several lines are split into lines')
