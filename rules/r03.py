"""R03: the content and the attributes of tags are kept in every format"""
from .common import *
from . import t01
from sa.core import all_functions

ASSUMPTIONS = [
    'the functions of the formats package put the content and the attributes '
    'they are given in their element, command or environment (decided by '
    'other rules and tests of that package)']

# names for parts of the output
T = ('c', '<TXT>')
LBL = ('c', '<LBL>')
ANC = ('c', '<ANC>')

GIVEN = [('content is not None', True), ('content is None', False),
         ('content', True)]
OWN = [('content is not None', False), ('content is None', True),
       ('content', False)]
AGIVEN = [('attributes is not None', True), ('attributes is None', False),
          ('attributes', True)]
AOWN = [('attributes is not None', False), ('attributes is None', True),
        ('attributes', False)]
SELF_ATTRS = r'self\.attributes(\.copy\(\)|\.filter\(target=[^()]*\))?'


def V(t):
    """The text of a value, with the strings in it put together"""
    if t is None:
        return ''
    s = ''.join(x if isinstance(x, str) else '«%s»' % S(x)
                for x in pieces(t))
    return re.sub(r'super\(.*?, self\)', 'SUPER', re.sub(
        r'Class\(disseminate[a-z._]*\.(\w+)\)', r'\1', s))


def parts(t):
    """Name, positional and named arguments of a call"""
    if t is None or t[0] != 'call':
        return None, (), {}
    fn = t[1]
    name = call_name(t)
    if fn[0] == 'attr' and fn[1][0] == 'super' or S(fn).startswith('super('):
        name = 'SUPER.' + (name or '')
    elif fn[0] == 'attr':
        name = S(fn)
    return name, t[2], {k: v for k, v in t[3]}


def is_call(t, fn, /, star=None, **kw):
    """The term is a call of this name, whose arguments match"""
    n, args, kws = parts(t)
    if n != fn:
        return False
    for k, p in kw.items():
        v = kws.get(k)
        if callable(p):
            if v is None or not p(v):
                return False
        elif p is None:
            if v is not None:
                return False
        elif v is None or not re.fullmatch(p, V(v)) and not re.fullmatch(
                p, S(v)):
            return False
    return star is None or star in kws or '**' in kws or None in kws


def fmt_content(func, level=r'\(level \+ 1\)', **more):
    kw = {k: r'%s=%s' % (k, v) for k, v in more.items()}
    return func, level, kw


def contents():
    yield 'content given', GIVEN, 'content'
    yield 'own content', OWN, r'self\.content'


def attrs():
    yield 'attributes given', AGIVEN, 'attributes'
    yield 'own attributes', AOWN, SELF_ATTRS


def both():
    for c, cf, cp in contents():
        for a, af, ap in attrs():
            yield '%s, %s' % (c, a), cf + af, cp, ap


def F(c, func, level=True, math=False):
    """Pattern of the formatted content c"""
    p = r"format_content\(content=%s, format_func=%s" % (c, func)
    if level:
        p += r', level=\(level \+ 1\)'
    if math:
        p += ', mathmode=mathmode'
    return p + r'\)'


def joined(f):
    """Facts: the formatted content is a list, or it is not"""
    yield 'a list', [(r'isinstance\(%s, list\)' % f, True),
                     (r'isinstance\(%s, str\)' % f, False)], \
        r"''\.join\(%s\)" % f
    yield 'a string', [(r'isinstance\(%s, list\)' % f, False),
                       (r'isinstance\(%s, str\)' % f, True)], \
        r"(%s|''\.join\(%s\))" % (f, f)


def base(ctx):
    r = 'R03.tag'
    ctx.rule(r, 'The formats of tags have the name, the attributes and the '
             'content of the tag, or those given')
    tr = TraceRule(ctx, r, 'tag:Tag.default_fmt')
    for nm, fs, c in contents():
        f = F(c, "'default_fmt'", level=False)
        for j, jf, p in joined(f):
            tr.expect('%s, %s' % (nm, j), fs + jf, [], ret=p,
                      msg='is formatted as text')
    tr = TraceRule(ctx, r, 'tag:Tag.tex_fmt')
    cmd, env = r'self\.tex_cmd', r'self\.tex_env'
    for nm, fs, c, a in both():
        f = F(c, "'tex_fmt'", math=True)
        for j, jf, p in joined(f):
            for what, wf in (('cmd', [(cmd, True)]),
                             ('env', [(cmd, False), (env, True)]),
                             ('neither', [(cmd, False), (env, False)])):
                out = tr.run([], fs + jf + wf)
                if what == 'neither':
                    pr = lambda t: re.fullmatch(p, S(t.value))
                else:
                    pr = lambda t: is_call(t.value, 'tex_' + what, **{
                        what: r'self\.tex_' + what, 'attributes': a,
                        'formatted_content': p})
                tr.check('%s, %s, %s' % (nm, j, what), out, pr, 'is the '
                         'content in the command or environment')
    tr = TraceRule(ctx, r, 'tag:Tag.html_fmt')
    for nm, fs, c, a in both():
        for named in (True, False):
            html_element(tr, '%s, %s' % (nm, 'html name' if named else
                                         'no html name'),
                         fs + names(named), c, a, named)
    tr = TraceRule(ctx, r, 'Body.xhtml_fmt')
    for nm, fs, c, a in both():
        for named in (True, False):
            html_element(tr, '%s, %s' % (nm, 'html name' if named else
                                         'no html name'),
                         fs + names(named), c, a, named,
                         nsmap=r'settings\.xhtml_namespace')
            sets_class(tr, nm, fs, a, 'body')
    tr = TraceRule(ctx, r, 'Body.html_fmt')
    for nm, fs, a in attrs():
        sets_class(tr, nm, fs, a, 'body')
        up(tr, nm, fs, 'html_fmt', attributes=a)


def names(named):
    return [(r'self\.html_name is not None', named),
            (r'self\.html_name is None', not named),
            (r'self\.html_name', named)]


def html_element(tr, nm, fs, c, a, named, **more):
    tr.check(nm, tr.run([], fs), lambda t: is_call(
        t.value, 'xhtml_tag', attributes=a, formatted_content=F(
            c, 'format_func'), level='level', method='method',
        name=r'self\.html_name' if named else r'self\.name\.lower\(\)',
        **more), 'is the element with the content and attributes')


def sets_class(tr, nm, fs, a, cls):
    tr.expect(nm + ', class', fs, [
        ('set', 'store', r"%s\['class'\] = '%s'" % (a, cls))], must=('set',),
        msg='the class of the element is ' + cls)


def up(tr, nm, fs, func, msg='is passed to the format of tags', **kw):
    """Returns the rendering of the parent class with these arguments"""
    tr.check(nm, tr.run([], fs), lambda t: is_call(
        t.value, 'SUPER.' + func, star='kwargs', **kw), msg)


def math(tr, nm, fs, pat, own=r"''"):
    """The value in math mode, and as math in text"""
    tr.check(nm + ', math mode', tr.run([], fs + [('mathmode', True)]),
             lambda t: re.fullmatch(pat, V(t.value)), 'is the command')
    tr.check(nm + ', text', tr.run([], fs + [('mathmode', False)]),
             lambda t: is_call(t.value, 'tex_cmd', cmd='ensuremath',
                               formatted_content=lambda v: re.fullmatch(
                                   pat, V(v))),
             'is the command in math mode')


def text(ctx):
    r = 'R03.text'
    ctx.rule(r, 'Text tags keep their content: superscripts, subscripts, '
             'symbols, verbatim text and paragraphs')
    tr = TraceRule(ctx, r, 'P.tex_fmt')
    sup = r'super\(.*\)\.tex_fmt\(\*\*=kwargs\)'
    nl = r'(self\.content\.tex_paragraph_newlines|getattr\(self\.content, ' \
         r"'tex_paragraph_newlines', True\))"
    for v in (True, False):
        tr.check('new lines' if v else 'no new lines',
                 tr.run([], [(nl, v), (sup, ('c', '<TEX>'))]),
                 lambda t: V(t.value) == ('\n<TEX>\n' if v else '<TEX>'),
                 'a paragraph is separated from others' if v else
                 'is the content')
    for cls, o in (('Sup', r'\^'), ('Sub', '_')):
        tr = TraceRule(ctx, r, cls + '.tex_fmt')
        for nm, fs, c in contents():
            f = F(c, "'tex_fmt'", math=True)
            for j, jf, p in joined(f):
                math(tr, '%s, %s' % (nm, j), fs + jf, o + r'\{«%s»\}' % p)
    tr = TraceRule(ctx, r, 'Supsub.tex_fmt')
    math(tr, 'both', [], r'\^\{«self\._sup»\}_\{«self\._sub»\}')
    tr = TraceRule(ctx, r, 'Supsub.html_fmt')
    for nm, fs, a in attrs():
        sets_class(tr, nm, fs, a, 'supsub')
        tr.check(nm, tr.run([], fs), lambda t: is_call(
            t.value, 'xhtml_tag', attributes=a, name="'span'", level='level',
            method='method', formatted_content=lambda v: v[0] in (
                'list', 'tuple') and len(v) == 4 and S(v[1]) == 'self._sup'
            and is_call(v[2], 'xhtml_tag', name="'br'", method='method') and
            S(v[3]) == 'self._sub'), 'both parts are on a line of their own')
    tr = TraceRule(ctx, r, 'Supsub.__init__')
    PIECES = r"self\.content\.split\((?:sep=)?'&&'\)"
    BOTH = r'comp\(list, (?:elem\(%s\)\.strip\(\)|unk\(none\)), tuple\(%s\)\)' % (
        PIECES, PIECES)
    ev = [('sup', 'store', r"self\._sup = .*split\((sep=)?'&&'.*\[0\]"
           r"\.strip\(\)"),
          ('sub', 'store', r"self\._sub = .*split\((sep=)?'&&'.*\[-?1\]"
           r"\.strip\(\)"),
          ('sup', 'store', r'self\._sup = ' + BOTH + r'\[0\]'),
          ('sub', 'store', r'self\._sub = ' + BOTH + r'\[-?1\]'),
          ('other', 'store', r'self\._su[pb] = .*')]
    st = [(r'isinstance\(self\.content, str\)', True)]
    tr.expect('one separator', st + [
        (r"self\.content\.count\('&&'\) == 1", True)], ev,
        must=('sup', 'sub'), never=('other',), msg='separates both parts')
    for nm, fs in (('tags', [(r'isinstance\(self\.content, str\)', False)]),
                   ('other numbers of separators', st + [
                       (r"self\.content\.count\('&&'\) == 1", False)])):
        tr.expect(nm, fs, ev, error='TagError', msg='is an error')
    symbols(ctx, r)
    verb(ctx, r)


def symbols(ctx, r):
    tr = TraceRule(ctx, r, 'Symbol.tex_fmt')
    for nm, fs, c in contents():
        math(tr, nm, fs, r'\\«%s»' % c)
    tr = TraceRule(ctx, r, 'Symbol.html_fmt')
    for nm, fs, c in contents():
        tr.check(nm, tr.run([], fs), lambda t: is_call(
            t.value, 'xhtml_entity', entity=c, method='method',
            level='level'), 'is the entity of its name')
    tr = TraceRule(ctx, r, 'Symbol.xhtml_fmt')
    for nm, fs, c in contents():
        s = c + r'\.strip\(\)'
        for known in (True, False):
            tr.check('%s, %s' % (nm, 'known' if known else 'unknown'),
                     tr.run([], fs + [(s + ' in name2codepoint', known)]),
                     lambda t: is_call(
                         t.value, 'xhtml_entity', entity=(
                             r'#«(str\()?name2codepoint\[%s\]\)?»' if known
                             else '«%s»') % s, method='method',
                         level='level'), 'is the entity of its number'
                     if known else 'is the entity of its name')


def verb(ctx, r):
    tr = TraceRule(ctx, r, 'Verb.tex_fmt')
    for block in (True, False):
        out = tr.run([], [(r"self\.name == 'verbatim'", block)])
        d = r'self\.default_fmt\(\)'
        tr.check('block' if block else 'inline', out, lambda t: is_call(
            t.value, 'tex_env', env="'verbatim'", formatted_content=d)
            if block else is_call(t.value, 'tex_verb', formatted_content=d),
            'has the text as it is')
    tr = TraceRule(ctx, r, 'Verb.html_fmt')
    tr.check('any', tr.run([], []), lambda t: is_call(
        t.value, 'SUPER.html_fmt', star='kwargs'), 'is an element with the '
        'content')



def lbl(v):
    return [(r'self\.label_tag is None', not v), (r'self\.label_tag', v)]


def anc(v):
    return [(r'self\.label_anchor is None', not v),
            (r'self\.label_anchor', v)]


def named(fmt, level='.*'):
    """Short names for the label, the anchor and the content in a format"""
    t = r".*target='\.tex'.*" if fmt == 'tex' else r'(?!.*\.(tex|html)).*'
    return [(r'self\.label_tag\.%s_fmt\(.*\)' % fmt, LBL),
            (r'self\.label_anchor\.%s_fmt\(.*\)' % fmt, ANC),
            (r'content_to_str\(content=self\.content%s\)' % (
                r', .*target=.*' if fmt == 'tex' else ''), T)]


def labelled(ctx):
    r = 'R03.labelled'
    ctx.rule(r, 'Captions and headings have their label, their content and '
             'their anchor, in this order')
    tr = TraceRule(ctx, r, 'Caption.default_fmt')
    for v in (True, False):
        tr.check('label' if v else 'no label', tr.run(
            [], lbl(v) + named('default')), lambda t: is_call(
                t.value, 'SUPER.default_fmt', content='<LBL><TXT>' if v else
                '<TXT>'), 'has the label and content')
    tr = TraceRule(ctx, r, 'Caption.tex_fmt')
    kind = r'(self\.__class__|type\(self\))\.__name__\.lower\(\)'
    for v in (True, False):
        for a in (True, False):
            cmd = ('put', 'call', r'tex_cmd\(attributes=self\.attributes, '
                   r"cmd=%s, formatted_content='%s<TXT>'\)" % (
                       kind, '<LBL>' if v else ''))
            tr.check('%s, %s' % ('label' if v else 'no label', 'anchor' if a
                                 else 'no anchor'),
                     tr.run([cmd], lbl(v) + anc(a) + named('tex') + [
                         (r'tex_cmd\(.*\)', ('c', '<CMD>'))]),
                     lambda t: t.has('put') and V(t.value) == (
                         '<CMD> <ANC>' if a else '<CMD>'),
                     'has the label and content in the command, and the '
                     'anchor')
    tr = TraceRule(ctx, r, 'Caption.html_fmt')
    lists = r'isinstance\(self\.content, list\)'
    for v in (True, False):
        for many in (True, False):
            out = tr.run([('label', 'collect', r'self\.label_tag'),
                          ('label', 'aug', r'.* \+= (list|tuple)\(self'
                           r'\.label_tag\)'),
                          ('text', 'call', r'.*\.extend\((iterable=)?self'
                           r'\.content\)') if many else
                          ('text', 'collect', r'self\.content'),
                          ('text', 'aug', r'.* \+= self\.content' if many
                           else r'.* \+= (list|tuple)\(self\.content\)'),
                          ('up', 'call', r'super\(.*\.html_fmt\(.*')],
                         lbl(v) + [(lists, many)])
            def pr(t):
                s = [e for e in dict.fromkeys(seq(t))]
                x = parts(t.value)[2].get('content')
                whole = x is not None and re.fullmatch(
                    r'(list|tuple)\(%s(star\()?self\.content\)?\)' % (
                        r'self\.label_tag, ' if v else ''), S(x))
                return is_call(t.value, 'SUPER.html_fmt', star='kwargs') and (
                    whole or s == (['label'] if v else []) + ['text', 'up'])
            tr.check('%s, %s' % ('label' if v else 'no label', 'a list' if
                                 many else 'one item'), out, pr,
                     'has the label and content')
    headings(ctx, r, kind)


def headings(ctx, r, kind):
    for fn, own, lab in (('default_fmt', '<TXT>', '<LBL>'),
                         ('html_fmt', r'«self\.content»',
                          r'«self\.label_tag»')):
        tr = TraceRule(ctx, r, 'Heading.' + fn)
        for nm, fs, want in (
                ('content given', GIVEN, '«content»'),
                ('label', OWN + lbl(True), lab),
                ('no label', OWN + lbl(False), own)):
            tr.check(nm, tr.run([], fs + named('default')), lambda t: is_call(
                t.value, 'SUPER.' + fn, content=want), 'is the content')
    tr = TraceRule(ctx, r, 'Heading.tex_fmt')
    valid = [(r"self\.context\.is_valid\(.*\)", True)]
    counter = r"tex_cmd\(attributes=(?P<a>.*), cmd='setcounter'\)"
    for v in (True, False):
        for nm, af, a in attrs():
            for i, k in ((True, True), (True, False), (False, True)):
                fs = lbl(v) + anc(k) + af + valid + named('tex') + [
                    (r'self\.label_id is None', not i),
                    (r'self\.label_id', i),
                    (r"tex_cmd\(.*'setcounter'.*\)", ('c', '<SET>')),
                    (r'tex_cmd\(.*\)', ('c', '<CMD>')),
                    (r'.*\.get_label\(.*\)\.order', True)]
                out = tr.run([('count', 'call', counter), (
                    'put', 'call', r'tex_cmd\(attributes=%s, cmd=%s, '
                    r"formatted_content='%s'\)" % (
                        a, kind, '<LBL>' if v else '<TXT>'))], fs)
                tr.check('%s, %s, %s' % (
                    nm, 'label' if v else 'no label', 'anchor' if i and k
                    else 'no anchor'), out, lambda t: t.has('put') and V(
                        t.value) == ('<SET>\n<CMD> <ANC>' if i and k else
                                     '<CMD>'),
                         'has the label or the content')
    last = r'.*\.get_label\(.*self\.label_id\)\.order'
    fs = lbl(True) + anc(True) + valid + named('tex') + [
        (r'self\.label_id is None', False), (r'self\.label_id', True),
        (last + r'\[-1\]', ('v', 'NUMBER')), (last, True)]
    out = tr.run([('count', 'call', counter)], fs)
    tr.check('counter', out, lambda t: re.fullmatch(
        r'.*%s.*\(NUMBER - 1\).*' % kind, t.get('count')[0][1]), 'the number of '
        'the heading in LaTeX is that of its label')


def code(ctx):
    r = 'R03.code'
    ctx.rule(r, 'Code has its content, highlighted if it is a block')
    for fn in ('html_fmt', 'tex_fmt'):
        tr = TraceRule(ctx, r, 'Code.' + fn)
        for nm, fs, c in contents():
            text_ = r'content_to_str\(content=%s\)' % c
            for role in ('block', 'inline', None):
                facts_ = fs + [
                    (r"self\.paragraph_role == 'block'", role == 'block'),
                    (r'self\.paragraph_role is None', role is None)]
                out = tr.run([], facts_)
                block = role == 'block'
                F_ = 'HtmlFormatter' if fn == 'html_fmt' else 'LatexFormatter'
                hl = lambda v: is_call(v, 'highlight') and re.match(
                    r'highlight\((code=)?%s, (lexer=)?self\.lexer, '
                    r'(formatter=)?.*%s\(' % (text_, F_), S(v))
                if fn == 'tex_fmt':
                    pr = (lambda t: hl(t.value)) if block else (
                        lambda t: is_call(t.value, 'tex_verb',
                                          formatted_content=text_))
                elif block:
                    pr = lambda t: is_call(
                        t.value, 'xhtml_tag', name="'div'", level='level',
                        method='method', attributes='class="code"',
                        formatted_content=lambda v: hl(v) or is_call(
                            v, 'Markup') and hl((v[2] + tuple(
                                x for _, x in v[3]))[0]))
                else:
                    pr = lambda t: is_call(
                        t.value, 'xhtml_tag', name="'code'", level='level',
                        method='method', attributes=r'self\.attributes',
                        formatted_content=text_)
                if role is None and fn == 'html_fmt':
                    continue        # see the next rule
                tr.check('%s, %s' % (nm, role), out, pr, 'is the content')


def tables(ctx):
    r = 'R03.tables'
    ctx.rule(r, 'Tables have all cells of their headers and rows, and the '
             'other content of the tag')
    for cls in ('Cell', 'HeaderCell'):
        tr = TraceRule(ctx, r, 'tags.data:%s.tex_fmt' % cls)
        tr.check('any', tr.run([], []), lambda t: re.fullmatch(
            r"super\(.*\)\.tex_fmt\(\*\*=kwargs\)\.replace\((old=)?'&', "
            r"(new=)?'\\\\&'\)", S(t.value)), 'is the content, with the '
            'separators of cells escaped')
    head = [r'self\.processed_headers', r'elem\(self\.processed_rows\)']
    H = [(r'self\.processed_headers is None', False),
         (r'self\.processed_headers', True)]
    NOH = [(r'self\.processed_headers is None', True),
           (r'self\.processed_headers', False)]
    tr = TraceRule(ctx, r, 'DelimData.tex_table')
    cell = lambda h: r"format_content\(content=elem\(%s\), format_func=" \
        r"'tex_fmt', level=level, mathmode=mathmode\)" % h
    for i, h in enumerate(head):
        ev = [('cell', 'collect', cell(h)), ('other', 'collect',
                                             r'format_content\(.*')]
        tr.expect('header' if i == 0 else 'row', H, [
            ('head', 'iter', h)] + ev[:1], must=('cell',), it='head',
            msg='has each cell')
    joins = r".* & .*join\((iterable=)?comp\(.*%s.*"
    tr.expect('header line', H, [
        ('process', 'call', r'self\.process_tags\(\)'),
        ('head', 'iter', head[0]),
        ('join', 'call', r"' & '\.join\(.*elem\(%s\).*" % head[0]),
        ('rule', 'call', r"tex_cmd\(cmd='midrule'\)")],
        must=('process', 'join', 'rule'), order=[('process', 'head'),
                                                 ('join', 'rule')],
        it='head', msg='is followed by a rule')
    tr.expect('no header', NOH, [
        ('head', 'iter', head[0]), ('rule', 'call',
                                    r"tex_cmd\(cmd='midrule'\)")],
        never=('head', 'rule'), msg='has no line')
    for fs in (H, NOH):
        tr.expect('rows', fs, [
            ('head', 'iter', head[1]),
            ('row', 'collect', r"\(?' & '\.join\(.*elem\(elem\(self"
             r"\.processed_rows\)\).*' \\\\\\\\\\n'\)"),
            ('row', 'aug', r".* \+= \(?' & '\.join\(.*elem\(elem\(self"
             r"\.processed_rows\)\).*' \\\\\\\\\\n'\)")],
            must=('row',), it='head', msg='each row is a line')
        out = tr.run([('top', 'call', r"tex_cmd\(cmd='toprule'\)"),
                      ('rows', 'iter', r'self\.processed_rows'),
                      ('end', 'call', r"tex_cmd\(cmd='bottomrule'\)")],
                     fs + [(r"tex_cmd\(cmd='toprule'\)", ('c', '<TOP>')),
                           (r"tex_cmd\(cmd='midrule'\)", ('c', '<MID>')),
                           (r"tex_cmd\(cmd='bottomrule'\)", ('c', '<END>')),
                           (r"' & '\.join\(.*\)", ('c', '<LINE>')),
                           (r"''\.join\(.*\)", ('c', '<ROWS>'))])
        out = [t for t in out if seq(t).count('rows') >= 2]
        want = r'<TOP>\n%s(<ROWS>|<LINE> \\\\\n)<END>' % (
            '' if fs is NOH else r'<LINE> \\\\\n<MID>\n')
        tr.check('table', out, lambda t: re.fullmatch(want, V(t.value)),
                 'has its header, then its rows, between rules')
    tr = TraceRule(ctx, r, 'DelimData.html_table')
    cell = lambda h: r'format_content\(content=elem\(%s\), format_func=' \
        r'format_func, level=level\)' % h
    at = r'level=level, method=method, '
    row = lambda h: r"xhtml_tag\(formatted_content=(list\(\)|comp\(list, " \
        r"(%s|unk\([^()]*\))(, .*)?\)), %sname='tr'\)" % (cell(h), at)
    for i, h in enumerate(head):
        tr.expect('header' if i == 0 else 'row', H, [
            ('head', 'iter', h), ('cell', 'collect', cell(h))],
            must=('cell',), it='head', msg='has each cell')
        tr.expect('header line' if i == 0 else 'rows', H, [
            ('head', 'iter', h),
            ('row', 'call' if i == 0 else 'collect', row(h))],
            must=('row',), it='head', msg='is a row')
    for fs in (H, NOH):
        out = tr.run([
            ('process', 'call', r'self\.process_tags\(\)'),
            ('rows', 'iter', r'self\.processed_rows'),
            ('thead', 'collect', r"xhtml_tag\(formatted_content=%s, %sname="
             r"'thead'\)" % (row(head[0]), at)),
            ('tbody', 'collect', r"xhtml_tag\(formatted_content=(list\(\)|"
             r"comp\(.*\)), %sname='tbody'\)" % at)], fs)
        want = ['thead', 'tbody'] if fs is H else ['tbody']
        tr.check('table', [t for t in out if seq(t).count('rows') >= 2],
                 lambda t: [e for e in seq(t) if e in (
                     'thead', 'tbody')] == want and seq(t)[0] == 'process'
                 and (S(t.value) == 'list()' or 'tbody' in S(t.value)),
                 'has its header, then its rows')
    containers(ctx, r)


def containers(ctx, r):
    data = lambda v: [(r'elem\(.*\) == self', False),
                      (r'isinstance\(elem\(.*\), Data\)', v == 'data'),
                      (r'isinstance\(elem\(.*\), Tag\)', v != 'text')]
    for fn in ('tex_fmt', 'html_fmt'):
        tr = TraceRule(ctx, r, 'BaseTable.' + fn)
        for nm, fs, c in contents():
            for many in (True, False):
                it = c if many else r'(list|tuple)\(%s\)' % c
                e = r'elem\(%s\)' % it
                base_ = fs + [(r'isinstance\(%s, list\)' % c, many)] + \
                    (AOWN if nm.startswith('own') else AGIVEN)
                lev = r'level=\(level \+ 1\)'
                if fn == 'tex_fmt':
                    tab = r"tex_env\(attributes=\('l' \* %s\.num_cols\), " \
                        r"env='tabular', formatted_content=%s\.tex_table\(" \
                        r'.*%s.*\)\)' % (e, e, lev)
                    tag = r'%s\.tex_fmt\(.*%s.*\)' % (e, lev)
                else:
                    tab = r'%s\.html_table\(format_func=format_func, %s, ' \
                        r'method=method\)' % (e, lev)
                    tag = r'(getattr\(%s, format_func\)\(.*%s.*method=' \
                        r'method.*\)|getattr\(%s, format_func\)\(.*method=' \
                        r'method.*%s.*\))' % (e, lev, e, lev)
                for what, p in (('data', tab), ('tag', tag), ('text', e)):
                    put = [('put', 'collect', p), ('put', 'aug',
                                                   r'.* \+= ' + p),
                           ('put', 'call', r'.*\.extend\(.*%s\)' % p)]
                    other = [('other', 'collect', '.*'), ('other', 'aug',
                                                          r'.* \+= .*')]
                    up_ = [('up', 'call', r'super\(.*\.%s\(.*' % fn)]
                    stores = [(None, 'aug', r".*\['class'\] \+= .*")]
                    tr.expect('%s, %s, %s' % (nm, 'a list' if many else
                                              'one item', what),
                              base_ + data(what),
                              [('head', 'iter', it)] + up_ + stores + put +
                              other, must=('put', 'up'), never=('other',),
                              order=[('put', 'up')], it='head',
                              msg='is in the table')
        for nm, fs, a in attrs():
            kw = {'attributes': a, 'level': 'level'}
            if fn == 'html_fmt':
                kw['method'] = 'method'
            up(tr, nm, fs if fn == 'html_fmt' else [], fn, **(
                kw if fn == 'html_fmt' else dict(
                    kw, attributes='attributes')))
        out = tr.run([], GIVEN)
        tr.check('content', out, lambda t: not S(parts(t.value)[2][
            'content']).startswith('content'), 'is that of the table')


def adds_class(tr, nm, fs, a, cls, has=True):
    """The class of the tag is added to the classes it has"""
    ifs = [(r'self\.html_class is None', False), (r'self\.html_class', True)]
    inn = r"'class' in " + a
    old = a + r"\['class'\]"
    get = a + r"\.get\('class'.*\)"
    both_ = r"(%s = .*%s.*' '.*%s.*|%s \+= \(' ' \+ %s\)|%s = unk\(aug\)|" \
        r"%s = .*%s.*%s.*)" % (old, old, cls, old, cls, old, old, get, cls)
    ev = [('add', 'store', both_), ('add', 'aug', both_),
          ('set', 'store', r"%s = %s" % (old, cls)),
          ('other', 'store', old + ' = .*')]
    tr.expect(nm + ', with a class', fs + ifs + [(inn, True), (get, True)],
              ev, must=('add',), never=('set', 'other'),
              msg='adds the class of the tag')
    tr.expect(nm + ', without a class', fs + ifs + [(inn, False),
                                                    (get, False)],
              ev, must=('set',), never=('add', 'other'),
              msg='has the class of the tag')


def boxes(ctx):
    r = 'R03.boxes'
    ctx.rule(r, 'Figures, tables, boxes, panels and images keep their '
             'attributes and classes')
    for cls, fn, own in (
            ('BaseFigure', 'html_fmt', r'self\.html_class'),
            ('BaseTable', 'html_fmt', r'self\.html_class'),
            ('FeatureBox', 'html_fmt', r'self\.html_classes')):
        tr = TraceRule(ctx, r, '%s.%s' % (cls, fn))
        for nm, fs, a in attrs():
            adds_class(tr, nm, fs, a, own)
            if cls != 'BaseTable':
                up(tr, nm, fs, fn, attributes=a, **(
                    {'method': 'method'} if cls == 'BaseFigure' else {}))
            tr.expect(nm + ', no class of the tag', fs + [
                (r'self\.html_class is None', True),
                (r'self\.html_class', False)], [
                    ('set', 'store', a + r'\[.*')],
                never=('set',), msg='keeps the attributes') if \
                cls != 'FeatureBox' else None
    tr = TraceRule(ctx, r, 'MarginFigure.xhtml_fmt')
    for nm, fs, a in attrs():
        tr.expect(nm, fs, [
            ('type', 'store', a + r"\[.*xhtml_namespace\['epub'\].*type.*\] ="
             r" 'footnote'"), ('type', 'store', a + r"\[.*\] = 'footnote'")],
            must=('type',), msg='is a footnote')
        up(tr, nm, fs, 'xhtml_fmt', attributes=a)
    target = r"(\('\.' \+ method\)|'\.\{\}'\.format\(method\)|f'\.\{method\}'" \
        r"|method)"
    dot = r"method\.startswith\('\.'\)"
    for cls in ('Panel', 'Img'):
        tr = TraceRule(ctx, r, cls + '.html_fmt')
        for nm, fs, a in attrs():
            for d in (True, False):
                t = 'method' if d else r"(?!method\)).*\..*method.*"
                kw = {'content': "''"} if cls == 'Img' else {}
                up(tr, '%s, %s' % (nm, 'target' if d else 'method'),
                   fs + [(dot, d)], 'html_fmt', method='method',
                   attributes=r'xhtml_percentwidth\(attributes=%s, '
                   r'target=%s\)' % (a, t), **kw)
            if cls == 'Panel':
                sets_class(tr, nm, fs, a, 'panel')
    tr = TraceRule(ctx, r, 'Panel.tex_fmt')
    for nm, fs, a in attrs():
        tr.check(nm, tr.run([], fs), lambda t: re.fullmatch(
            r'strip_multi_newlines\((s=)?super\(.*\)\.tex_fmt\(attributes='
            r"tex_percentwidth\(attributes=%s, target='\.tex', "
            r'use_positional=True\), \*\*=kwargs\)\)\.strip\(\)' % a,
            S(t.value)), 'is the content in the panel')
    tr = TraceRule(ctx, r, 'Img.tex_fmt')
    file_ = r"self\.add_file\(attributes=attributes, content=content, " \
        r"context=context, target='\.tex'\)"
    for nm, fs, a in attrs():
        out = tr.run([], fs + [
            (file_ + r"\.with_suffix\((suffix=)?''\)", ('v', 'BASE')),
            (file_ + r'\.suffix', ('v', 'SUFFIX'))], exc=True)
        out = [t for t in out if t.kind == 'return']
        tr.check(nm, out, lambda t: is_call(
            t.value, 'tex_cmd', cmd="'includegraphics'",
            attributes=r"tex_percentwidth\(attributes=%s, target='\.tex'\)" %
            a, formatted_content=r"«?(str\()?'\{\{\{base\}\}\}\{suffix\}'"
            r"\.format\(base=(BASE|tex_cmd\(cmd='detokenize', formatted_"
            r"content=str\(BASE\)\)), suffix=SUFFIX\)\)?»?|"
            r'\{«BASE»\}«SUFFIX»'), 'is the file, with '
            'the attributes of the image', minimum=1)
    eqs(ctx)


def eqs(ctx):
    r = 'R03.eqs'
    ctx.rule(r, 'Equations keep their content and attributes in LaTeX, and '
             'are images elsewhere')
    tr = TraceRule(ctx, r, 'Eq.tex_fmt')
    for nm, fs, c, a in both():
        a = 'attributes' if 'attributes given' in nm else r'self\.attributes'
        for color in (True, False):
            for bold in ('bold', 'termb', None):
                p = c
                if color:
                    p = r"tex_cmd\(attributes=%s\['color'\], cmd='textcolor'" \
                        r', formatted_content=%s\)' % (a, p)
                if bold:
                    p = r"tex_cmd\(cmd='boldsymbol', formatted_content=%s\)" \
                        % p
                more = [(r"'color' in " + a, color),
                        (r"'bold' in " + a, bold == 'bold'),
                        (r"self\.name == 'termb'", bold == 'termb'),
                        (p + r'\.strip\(\)', ('v', 'EQ'))]
                for mode in ('math', 'block', 'text'):
                    out = tr.run([], fs + more + [
                        ('mathmode', mode == 'math'),
                        (r'self\.block_equation', mode == 'block')])
                    tr.check('%s, %s, %s, %s' % (
                        nm, 'color' if color else 'no color', bold, mode),
                        out, lambda t: S(t.value) == 'EQ' if mode == 'math'
                        else is_call(t.value, 'tex_cmd', cmd="'ensuremath'",
                                     attributes=a, formatted_content='«?EQ»?')
                        if mode == 'text' else is_call(
                            t.value, 'tex_env', attributes=a,
                            formatted_content='«?EQ»?', min_newlines='True',
                            env=r"(\(?%s\.get\((attr=)?'env', (default=None"
                            r", )?target='\.tex'\)|self\.default_block_env"
                            r"|.* or self\.default_block_env\)?)" % a),
                        'is the equation')
    for got in (True, False):
        g = r"attributes\.get\((attr=)?'env'.*\)"
        out = tr.run([], AGIVEN + [('mathmode', False), (
            r'self\.block_equation', True), (g, got)])
        tr.check('environment given' if got else 'no environment given', out,
                 lambda t: is_call(t.value, 'tex_env', env=g if got else
                                   r'self\.default_block_env'),
                 'is in the environment')
    tr = TraceRule(ctx, r, 'Eq.html_fmt')
    for nm, fs, a in attrs():
        for block in (True, False):
            tr.expect('%s, %s' % (nm, 'block' if block else 'inline'),
                      fs + [(r'self\.block_equation', block)], [
                ('crop', 'store', a + r"\['crop'\] = tuple\(100, 100, 0, 0\)"
                 ), ('offset', 'store', a + r"\['offset'\] = tuple\(0, 0, "
                     r'-1, 0\)'),
                ('class', 'store', a + r"\['class'\] = 'eq%s'" % (
                    ' blockeq' if block else '')),
                ('other', 'store', a + r'\[.*')],
                must=('crop', 'offset', 'class'), never=('other',),
                msg='is cropped, and has its class')
        for ctxt in ('given', 'new', 'known'):
            out = tr.run([
                ('eq', 'store', r"self\.context\.filter\(.*\)\['eq'\] = self"
                 ), ('template', 'store', r"self\.context\.filter\(.*\)"
                     r"\['template'\] = 'default/tex/eq'"),
                ('keep', 'store', r'self\._target_context\[method\] = self'
                 r'\.context\.filter\(.*\)')], fs + [
                    ('context is None', ctxt != 'given'),
                    ('context', ctxt == 'given'),
                    (r'self\.context\.filter\(.*\)', True),
                    (r'method in self\._target_context', ctxt == 'known')])
            want = {'given': 'context', 'new': r'self\.context\.filter\('
                    r".*(list|tuple)\('paths', 'builders'\)\)",
                    'known': r'self\._target_context\[method\]'}[ctxt]
            tr.check('%s, context %s' % (nm, ctxt), out, lambda t: is_call(
                t.value, 'SUPER.html_fmt', attributes=a, method='method',
                star='kwargs', context=want) and (
                    set(seq(t)) == {'eq', 'template', 'keep'}
                    if ctxt == 'new' else not t.ev), 'is an image made with '
                'the context of the equation')


def lists(ctx):
    r = 'R03.lists'
    ctx.rule(r, 'Lists have all their items, at their level')
    tr = TraceRule(ctx, r, 'List.html_fmt')
    item = r'getattr\(elem\(self\.content\), format_func\)\(level=\(level ' \
        r'\+ 1\), method=method\)'
    pair = r"tuple\(elem\(self\.content\)\.attributes\['level'\], %s\)" % item
    for nm, fs, a in attrs():
        a = a if nm.startswith('attributes') else r'self\.attributes'
        tr.expect(nm, fs, [('head', 'iter', r'self\.content'),
                           ('item', 'collect', pair),
                           ('other', 'collect', '.*')],
                  must=('item',), never=('other',), it='head',
                  msg='has each item')
        tr.check(nm, tr.run([], fs), lambda t: re.fullmatch(
            r'xhtml_list\(star\((list\(\)|comp\(.*\))\), attributes=%s, '
            r'level=level, listtype=self\.html_name, method=method\)' % a,
            S(t.value)), 'is a list of its kind')
    tr = TraceRule(ctx, r, 'List.tex_fmt')
    up(tr, 'any', [], 'tex_fmt', attributes=r'self\.list_style')
    tr = TraceRule(ctx, r, 'ListItem.tex_fmt')
    lv = r"self\.attributes\['level'\]"
    mark = r"«\('§' \* \((%s \+ 1|1 \+ %s)\)\)» " % (lv, lv)
    tr.check('any', tr.run([], [(r'super\(.*\.tex_fmt\(\*\*=kwargs\)',
                                 ('c', '<ITEM>'))]),
             lambda t: re.fullmatch(mark + '<ITEM>\n', V(t.value)),
             'is marked with its level')
    tr = TraceRule(ctx, r, 'TocRef.tex_fmt')
    up_ = r'super\(.*\.tex_fmt\(attributes=attributes, cache=cache, ' \
        r'content=content, level=level, mathmode=mathmode.*\)|super\(.*\.tex_' \
        r'fmt\(content=content, attributes=attributes, mathmode=mathmode, ' \
        r'cache=cache, level=level.*\)'
    tr.check('any', tr.run([], [(up_, ('c', '<ITEM>'))]),
             lambda t: re.fullmatch(r"«\('§' \* %s\)» <ITEM>\n" % lv,
                                    V(t.value)), 'is marked with its level')
    tr = TraceRule(ctx, r, 'TocRef.html_fmt')
    for v in (True, False):
        out = tr.run([], [(r"'level' in self\.attributes", v)])
        tr.check('level' if v else 'no level', out, lambda t: is_call(
            t.value, 'xhtml_tag', name="'li'", method='method',
            attributes=r'class="toc-level-«%s»"' % lv if v else '',
            formatted_content=lambda x: is_call(
                x, 'SUPER.html_fmt', attributes='attributes', cache='cache',
                content='content', format_func='format_func',
                method='method')), 'is an item with the reference')
    tr = TraceRule(ctx, r, 'Toc.tex_fmt')
    tr.check('any', tr.run([('mark', 'store', r'list\(self\.reference_tags\)'
                             r'\[slice\(0, 0, None\)\] = .*ListProperties.*'),
                            ('mark', 'call', r'list\(self\.reference_tags\)'
                             r'\.insert\(0, .*ListProperties.*\)')], []),
             lambda t: is_call(t.value, 'SUPER.tex_fmt',
                               attributes=r'self\.list_style',
                               content=r'.*self\.reference_tags.*'),
             'has all the references')
    tr = TraceRule(ctx, r, 'Toc.html_fmt')
    item = r'getattr\(elem\(self\.reference_tags\), format_func\)\(cache=.*,' \
        r' level=\(level \+ 1\), method=method\)'
    tr.expect('any', [], [
        ('head', 'iter', r'self\.reference_tags'),
        ('item', 'collect', r"tuple\(elem\(self\.reference_tags\)"
         r"\.attributes\['level'\], %s\)" % item)], must=('item',),
        it='head', msg='has each reference')
    tr.check('list', tr.run([], []), lambda t: re.fullmatch(
        r'xhtml_list\(star\((list\(\)|comp\(.*\))\), attributes=.*toc.*, '
        r'level=level, listtype=self\.html_name, method=method\)',
        S(t.value)), 'is a list of its kind')


DEFAULTS = {'content': {None}, 'attributes': {None}, 'mathmode': {False},
            'level': {1}, 'cache': {None}, 'context': {None}}
FORMATS = re.compile(r'(default|tex|html|xhtml)_fmt$|(tex|html)_table$')


def signatures(ctx):
    r = 'R03.defaults'
    ctx.rule(r, 'Without arguments, a format is that of the tag itself: its '
             'own content and attributes, as text')
    for f in all_functions(ctx.repo):
        if not f.module.name.startswith('disseminate.tags') or \
                not FORMATS.search(f.short) or f.cls is None:
            continue
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            want = DEFAULTS.get(x.arg)
            fn = f.short.split('.')[-1].replace('table', 'fmt')
            if x.arg == 'format_func':
                want = {fn}
            elif x.arg == 'method':
                want = {'html_fmt': {'html'},
                        'xhtml_fmt': {'xhtml', 'xml'}}.get(fn)
            if want is None:
                continue
            d = f.default_of(x.arg)
            try:
                v = ctx.repo.eval_const(f.module, d)
                v = v[0] if isinstance(v, tuple) and len(v) == 1 else v
                ok = any(v is w or type(v) is type(w) and v == w
                         for w in want)
            except Exception:
                v, ok = '?', False
            ctx.ob(r, '%s, %s' % (f.short, x.arg), ok, ctx.where(f),
                   'is %s by default, not %s' % (
                       ' or '.join(repr(w) for w in want), v))


def made(ctx):
    r = 'R03.made'
    ctx.rule(r, 'Tags of all types have the name, content, attributes and '
             'context they are made with')
    tr = TraceRule(ctx, r, 'tag:Tag.__init__')
    tr.expect('any', [], [
        ('name', 'store', r'self\.name = name'),
        ('content', 'store', r'self\.content = content'),
        ('attributes', 'store', r'self\.attributes = Attributes\(.*'
         r'attributes\)'),
        ('context', 'store', r'self\.context = context'),
        ('signal', 'call', r'.*tag_created\.emit\(.*tag=self.*\)'),
        ('other', 'store', r'self\..*')],
        must=('name', 'content', 'attributes', 'context', 'signal'),
        never=('other',), order=[(x, 'signal') for x in (
            'name', 'content', 'attributes', 'context')],
        msg='has what it is given, then is processed')
    for c in ctx.repo.subclasses(ctx.cls('Tag', 'tags.tag')):
        f = c.own.get('__init__')
        if f is None or not hasattr(f, 'node'):
            continue
        a = f.node.args
        own = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        tr = TraceRule(ctx, r, f)
        if not any(tr.g.cname(n) == '__init__' for n in tr.g.calls()):
            tr.expect('any', [], [
                ('name', 'store', r'self\.name = name'),
                ('content', 'store', r'self\.content = .*'),
                ('attributes', 'store', r'self\.attributes = Attributes\(.*'
                 r'attributes\)'),
                ('context', 'store', r'self\.context = context')],
                must=('name', 'content', 'attributes', 'context'),
                msg='has all it is given')
            continue

        def full(t):
            """Some initialisation is given all that is needed"""
            for k, s, term in t.ev:
                name, args, kws = parts(term)
                vals = {v: k for k, v in kws.items()}
                text = [S(x) for x in args] + [S(x) for x in kws.values()]
                rest = '**' in kws or None in kws
                stars = any(x[0] == 'star' for x in args)
                ok = (a.kwarg is None or rest) and (
                    a.vararg is None or stars)
                for p in ('name', 'content', 'attributes', 'context'):
                    if p in own:
                        ok = ok and (p in kws or p in text)
                    if p in kws and p in own and p in (
                            'attributes', 'context'):
                        ok = ok and S(kws[p]) == p
                if ok:
                    return True
            return False
        out = ctx.trace(tr.g, init_calls, facts(), exc=False, limit=2000)
        out = [t for t in out if t.kind == 'return']
        tr.check('any', out, full, 'is made with all it is given')


def init_calls(n, env):
    return [('init', s, t) for k, s, t in effects(n, env)
            if k == 'call' and call_name(t) == '__init__'] or None


def references(ctx):
    texts(ctx, 'R03.references')
    anchors(ctx, 'R03.references')


def texts(ctx, r):
    ctx.rule(r, 'Labels and references have the text of their format, for '
             'their target, in an element of their own')
    ok = [(r'self\.label_manager is None', False),
          (r'self\.label_id is None', False),
          (r'self\.context is None', False),
          (r"self\.context\.get\('label_manager'.*\) is None", False),
          (r'LABEL is None', False), (r'(cache|dict\(\))\.setdefault\('
                                      r"'label', self\.label\)",
                                      ('v', 'LABEL')),
          (r'.*\.format_string\(.*\)', ('v', 'FORMAT')),
          (r'Tag\(.*FORMAT.*\)\.content', ('v', 'PARTS'))]
    none = {'LabelTag': [[(r'self\.label_manager is None', True)],
                         [(r'self\.label_id is None', True)],
                         [(r'self\.context is None', True)]],
            'Ref': [[(r'LABEL is None', True)]]}
    for cls, name in (('LabelTag', 'label'), ('Ref', 'ref')):
        for fn, target in (('default_fmt', None), ('tex_fmt', '.tex'),
                           ('html_fmt', '.html')):
            tr = TraceRule(ctx, r, '%s.%s' % (cls, fn))
            t_ = r", target='\%s'" % target if target else ''
            if cls == 'Ref':
                call = r'.*\.format_string\(LABEL\.id, star\(tuple\(' \
                    r"'ref', star\(LABEL\.kind\)\)\)%s\)" % t_
            else:
                call = r'self\.label_manager\.format_string\(id=self' \
                    r'\.label_id%s\)' % t_
            ev = [('format', 'call', call),
                  ('other', 'call', r'.*\.format_string\(.*'),
                  ('tag', 'call', r"Tag\(attributes='', content=FORMAT, "
                   r"context=self\.context, name='%s'\)" % name)]
            for miss in none[cls]:
                tr.expect('nothing to show', miss + ok, ev, ret="''",
                          never=('format', 'other'), msg='is empty')
            math_ = r'(, mathmode=mathmode)?' if cls == 'Ref' else \
                ', mathmode=mathmode'
            if fn == 'default_fmt':
                cases = [('text', [], lambda t: re.fullmatch(
                    r'content_to_str\(content=PARTS\)', S(t.value)))]
            elif fn == 'tex_fmt':
                f = r"format_content\(content=PARTS, format_func='tex_fmt'" \
                    r', level=\(level \+ 1\)%s\)' % math_
                cases = []
                for j, jf, p in joined(f):
                    p = r'«?%s»?' % p
                    if cls == 'LabelTag':
                        cases.append((j, jf, lambda t, p=p: re.fullmatch(
                            p, V(t.value))))
                        continue
                    u = r"self\.url\(.*target='\.pdf'.*\)"
                    cases.append((j + ', link', jf + [
                        (u, True), (r"\(%s \+ '\.tex'\)" % u, True)],
                        lambda t, p=p: is_call(
                            t.value, 'tex_cmd', cmd="'href'",
                            formatted_content=p, attributes='.*' + u + '.*')))
                    cases.append((j + ', no link', jf + [(u, False)],
                                  lambda t, p=p: re.fullmatch(p, V(t.value))))
            else:
                f = r'format_content\(content=PARTS, format_func=format_func' \
                    r', level=\(level \+ 1\)\)'
                cases = [(nm, af, lambda t, a=a: is_call(
                    t.value, 'xhtml_tag', attributes=a, level='level',
                    method='method', formatted_content=f,
                    name="'span'" if cls == 'LabelTag' else "'a'"))
                    for nm, af, a in attrs()]
                for nm, af, a in attrs():
                    sets_class(tr, nm, ok + af, a, name)
            for nm, fs, pr in cases:
                out = tr.run(ev, fs + ok)
                tr.check(nm, out, lambda t: pr(t) and t.has('format', 'tag')
                         and not t.has('other'), 'has the text')


def anchors(ctx, r):
    tr = TraceRule(ctx, r, 'LabelAnchor.html_fmt')
    tr.check('any', tr.run([], []), lambda t: is_call(
        t.value, 'xhtml_tag', name="'span'", method='method', level='level',
        attributes=r'id=«self\.label_id»'), 'is an anchor with the id')
    for cls in ('Next', 'Prev'):
        for fn in ('html_fmt', 'tex_fmt'):
            tr = TraceRule(ctx, r, '%s.%s' % (cls, fn))
            key = r"'%s_%s'" % (cls.lower(), fn.split('_')[0])
            lab = r"'label' in (cache|dict\(\))"
            other = key + r' in self\.context'
            ev = [('find', 'call', r'self\.context\[%s\]\(\)' % key),
                  ('put', 'store', r"(cache|dict\(\))\['label'\] = self"
                   r'\.context\[%s\]\(\)' % key),
                  ('other', 'store', '.*')]
            tr.expect('nothing', [(lab, False), (other, False)], ev,
                      ret="''", never=('put', 'other'), msg='is empty')
            out = tr.run(ev, [(lab, True)])
            tr.check('known label', out, lambda t: is_call(
                t.value, 'SUPER.' + fn, cache='(cache|dict\\(\\))',
                star='kwargs') and not t.some('put', 'other'),
                'is a reference')
            out = tr.run(ev, [(other, True)])
            out = [t for t in out if t.has('find')]
            tr.check('another document', out, lambda t: t.has('put') and
                     not t.has('other'), 'is the label for the reference')
    titlepage(ctx, r)


def data(ctx):
    """Data without a header keeps its first row"""
    r = 'R03.data'
    ctx.rule(r, 'The columns of data have all of their rows')
    tr = TraceRule(ctx, r, 'DelimData.load')
    first = r'.*next\(.*'
    ev = [('front', 'call', r'.*\.insert\(0, (?P<x>.*)\)'),
          ('other', 'call', r'(elem|list|tuple)\(.*\.(insert|append|extend|'
           r'pop|remove|clear|reverse|sort)\(.*'),
          ('col', 'store', r'(OrderedDict|dict)\(\)\[.*?\] = '
           r'(?P<x>(tuple|list|\(|\[).*)')]
    for no in (True, False):
        ts = [t for t in tr.run(ev, [
            (r'self\.data is None', True),
            (r"'noheader' in self\.attributes", no)], limit=5000)
            if t.some('col')]

        def good(t, no=no):
            plain = all(not re.search(r'\[0\]', x[1]) or re.fullmatch(
                r'(tuple|list)\(.*\[1\]\)', x[1]) for x in t.get('col'))
            front = t.some('front') or not plain
            return not t.has('other') and front == no
        tr.check('noheader' if no else 'header', ts, good,
                 'the first row is the first entry only without a header')


def nested(ctx):
    """Lists in lists"""
    r = 'R03.nested'
    ctx.rule(r, 'An html list has the first item of each group and a list of '
             'the others')
    tr = TraceRule(ctx, r, 'xhtml_list')
    G = r'(list\()?elem\(itertools\.groupby\(.*|(list\()?elem\(groupby\(.*'
    own = ('own', 'call', r'.*\.append\((elem=)?(?P<x>.*)\)')
    g = tr.g
    rec = [n for n in g.calls() if g.cname(n) == 'xhtml_list']
    ctx.need(r, rec, 1, 'lists in lists')
    for n in rec:
        kw = {k: S(g.expand(v, n)) for k, v in n.term[3]}
        stars = [S(g.expand(a[1], n)) for a in n.term[2] if a[0] == 'star']
        w = ctx.where(n)
        ctx.ob(r, 'inner list: items', len(stars) == 1 and re.fullmatch(
            r'.*\[(slice\()?\(?1(:None|, None).*', stars[0]) is not None, w,
            'all but the first item of the group, not %s' % stars)
        ctx.ob(r, 'inner list: inner', kw.get('inner') == 'True', w,
               'must be an inner list')
        ctx.ob(r, 'inner list: level', kw.get('level') in (
            '(level + 1)', '(1 + level)'), w, 'must be one level down')
        for k, v in (('listtype', 'listtype'), ('target', 'target'),
                     ('method', r"method|.*method.*")):
            ctx.ob(r, 'inner list: ' + k, re.fullmatch(v, kw.get(k, ''))
                   is not None, w, 'must be that of the list')
    for inner in (True, False):
        for level in (True, False):
            tr.check('attributes, inner %s, level 1 %s' % (inner, level),
                     tr.run([('make', 'call', r'xhtml_tag\(.*?attributes='
                              r"(?P<x>attributes|''|None)[,)].*")],
                            [('inner', inner), ('level == 1', level)]),
                     lambda t, inner=inner: t.kind == 'return' and
                     [e[1] for e in t.get('make')] in (
                         [["''"], ['None']] if inner else [['attributes']]),
                     'only the outer list has the attributes')


def imagefile(ctx):
    """Names of files in LaTeX"""
    r = 'R03.imagefile'
    ctx.rule(r, 'The name of an image file that is not ascii is detokenized')
    tr = TraceRule(ctx, r, 'Img.tex_fmt')
    g, f = tr.g, tr.f
    calls = [n for n in g.calls() if g.cname(n) == 'tex_cmd' and any(
        S(v) == "'detokenize'" for v in list(n.term[2]) + [
            v for _, v in n.term[3]])]
    ctx.ob(r, 'Img.tex_fmt', bool(calls), ctx.where(f),
           'no name is detokenized')
    tr.check('used', [t for t in tr.run([
        ('det', 'call', r"tex_cmd\(.*'detokenize'.*")], [], exc=True)
        if t.has('det')
        and t.kind == 'return'], lambda t: 'detokenize' in S(t.value),
        'the command has the detokenized name')


def titlepage(ctx, r):
    tr = TraceRule(ctx, r, 'Authors.html_fmt')
    names_ = r'«?self\.author_string\(\)»?'
    tr.check('any', tr.run([], []), lambda t: is_call(
        t.value, 'xhtml_tag', name="'span'", method='method', level='level',
        formatted_content=names_), 'has the authors')
    tr = TraceRule(ctx, r, 'Authors.tex_fmt')
    tr.check('any', tr.run([], []), lambda t: re.fullmatch(
        names_, V(t.value)), 'has the authors')
    tr = TraceRule(ctx, r, 'Authors.author_string')
    lst = r'(self\.content|str_to_list\((string=)?self\.content\))'
    string, many = r'isinstance\(self\.content, str\)', \
        r'isinstance\(self\.content, list\)'
    for kind, kf, c in (
            ('a string', [(string, True), (many, False)],
             r'str_to_list\((string=)?self\.content\)'),
            ('a list', [(string, False), (many, True)], r'self\.content')):
        size = r'len\(%s\)' % c
        for n, want in ((0, "''"), (1, c + r'\[0\]'),
                        (2, r".*' and '\.join\(%s.*" % c),
                        (3, r"\(\(', '\.join\(%s\[slice\(None, -2, None\)\]"
                            r"\) \+ ', '\) \+ ' and '\.join\(%s\[slice\("
                            r"-2, None, None\)\]\)\)" % (c, c))):
            tr.expect('%s of %d' % (kind, n), kf + [
                (size, ('c', n)), (c, n > 0)], [], ret=want,
                msg='lists all authors')
    tr = TraceRule(ctx, r, 'Titlepage.html_fmt')
    sub = lambda x: r'getattr\(self\.%s_tag, format_func\)\(.*level=\(level' \
        r' \+ 1\), method=method\)' % x
    tr.check('any', tr.run([], []), lambda t: is_call(
        t.value, 'xhtml_tag', name="'div'", method='method', level='level',
        formatted_content=r'(list|tuple)\(%s, %s\)' % (
            sub('title'), sub('authors'))), 'has the title and authors')


def run(ctx):
    base(ctx)
    text(ctx)
    labelled(ctx)
    code(ctx)
    tables(ctx)
    boxes(ctx)
    lists(ctx)
    references(ctx)
    signatures(ctx)
    made(ctx)
    data(ctx)
    nested(ctx)
    imagefile(ctx)
    t01.delimiters(ctx, 'R03.verb')
