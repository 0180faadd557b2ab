"""T01: verbatim content is taken literally"""
import itertools

from . import s01
from .common import *
from sa.repo import FuncInfo

ASSUMPTIONS = ['The regular expressions of the markup are not interpreted; '
               'only which content they are applied to is decided.']

# tags whose content is literal: confirmed by reading the classes
VERBATIM = ['Verb', 'Code', 'Python', 'Html', 'Ruby', 'Java', 'Javascript',
            'Dm']
UNPARSED = VERBATIM + ['Img', 'Asy', 'Data', 'DelimData', 'LabelTag']
UNTYPESET = VERBATIM + ['Img', 'Eq', 'LabelTag', 'Toc']


def delimiters(ctx, r):
    """Literal text in LaTeX"""
    ctx.rule(r, 'LaTeX for literal text: the text itself between delimiters '
             'that do not occur in it')
    tr = TraceRule(ctx, r, 'tex_verb')
    X = 'formatted_content'
    for combo in itertools.product((True, False), repeat=3):
        fs = [(r'isinstance\(formatted_content, str\)', True)]
        for ch, present in zip('|!^', combo):
            fs.append((r"'%s' in formatted_content" % re.escape(ch), present))
            fs.append((r"formatted_content\.find\('%s'\) < 0"
                       % re.escape(ch), not present))

        def okv(t):
            if t.kind != 'return':
                return False
            s = pieces(t.value)
            if s and len(s) == 3 and s[1] == ('p', X) and \
                    isinstance(s[0], str) and isinstance(s[2], str):
                m = re.fullmatch(r'\\verb(.)', s[0])
                if not m or s[2] != m.group(1):
                    return False
                d = m.group(1)
                return d not in '|!^' or not dict(zip('|!^', combo))[d]
            # the text is split at the delimiter and every piece is verbatim
            txt = S(t.value)
            m = re.search(r"formatted_content\.split\('(.)'\)", txt)
            return bool(m) and '.join(' in txt and \
                "'\\\\verb" in txt and all(combo) and \
                txt.count("%s'.join(" % m.group(1)) + txt.count(
                    "\\verb!%s!'.join(" % m.group(1)) >= 1
        tr.check('delimiters %s' % ''.join(
            c for c, p in zip('|!^', combo) if p), tr.run([], fs), okv,
            'the delimiter must not occur in the text, and the text must be '
            'complete')


def run(ctx):
    repo = ctx.repo
    r = 'T01.switches'
    ctx.rule(r, 'Tags with literal content switch off the parsing of '
             'sub-tags and the typographic replacements')
    for name in sorted(set(UNPARSED + UNTYPESET)):
        c = ctx.cls(name, 'tags')
        for flag, lst in (('process_content', UNPARSED),
                          ('process_typography', UNTYPESET)):
            if name in lst:
                ctx.ob(r, '%s.%s' % (name, flag),
                       repo.class_const(c, flag) is False, ctx.where(c),
                       'must be False')
    # instances must not switch them on
    for f in repo.functions:
        if f.cls is None or f.cls.name not in UNPARSED:
            continue
        g = ctx.graph(f)
        for n in g.nodes:
            if n.kind == 'store' and n.pred and n.target[0] == 'attr' and \
                    n.target[2] in ('process_content', 'process_typography'):
                ctx.ob(r, '%s sets %s' % (f.short, n.target[2]),
                       S(g.expand(n.term, n)) == 'False', ctx.where(n),
                       'the switch must stay off')

    # ---- the parser leaves such tags alone
    r = 'T01.parse'
    ctx.rule(r, 'Parsing a tree does not change tags whose content is '
             'literal, at any depth')
    tr = TraceRule(ctx, r, 'parse_tags')
    ev = [('write', 'store', r'content\..*'),
          ('write', 'call', r'setattr\(content, .*\)'),
          ('mutate', 'call', r'content\.content\.(append|extend|clear|insert|'
           r'pop|remove|sort|reverse)\(.*\)'),
          ('write', 'store', r'content\.content\[.*'),
          ('recurse', 'call', r'parse_tags\(.*\)'),
          ('make', 'call', r'tag_factory\.tag\(.*\)')]
    base = [(r'level < settings\.tag_max_depth', True),
            (r'isinstance\(content, str\)', False),
            (r'isinstance\(content, list\)', False),
            (r'content\.content is None', False),
            (r"hasattr\(content, 'content'\)", True)]
    tr.expect('literal tag', base + [(r'content\.process_content', False)],
              ev, ret='content', never=('write', 'mutate', 'recurse', 'make'),
              msg='a tag with literal content must come back untouched')
    tr.expect('parsed tag', base + [
        (r'content\.process_content', True),
        (r'isinstance\(content\.content, list\)', False)], ev,
        ret='content', must=('recurse', 'write'),
        msg='the content of other tags is parsed')
    # the text of a tag goes to the tag as it is in the source: the tag
    # class decides whether it is parsed
    r = 'T01.raw'
    ctx.rule(r, 'The text between the braces of a tag is handed over '
             'unparsed; the created tag decides whether to parse it')
    g = ctx.graph('parse_tags')
    mk = [n for n in g.calls() if g.cname(n) == 'tag']
    ctx.need(r, mk, 1, 'tag creations in parse_tags')
    for n in mk:
        args = dict(n.term[3])
        t = g.expand(args.get('tag_content', ('c', None)), n)
        bad = [x for x in subterms(t) if x[0] == 'call' and
               call_name(x) in ('parse_tags', 'sub', 'replace', 'strip',
                                'process_typography', 'escape', 'parse',
                                'format', 'lower', 'upper', 'rstrip',
                                'lstrip', 'expandtabs', 'translate')]
        ctx.ob(r, 'parse_tags tag_content', not bad and any(
            x[0] == 'sub' and x[2][0] == 'slice' for x in subterms(t)),
            ctx.where(n), 'content is %s' % S(t)[:80])
    # ---- typography
    r = 'T01.typography'
    ctx.rule(r, 'Typographic replacements enter a tag only if its switch '
             'is on')
    tr = TraceRule(ctx, r, 'process_tag_typography')
    ev = [('write', 'store', r'tag\.content = .*'),
          ('write', 'call', r'setattr\(tag, .*\)'),
          ('recurse', 'call', r'process_(tag_)?typography\(.*\)'),
          ('sub', 'call', r'.*\.sub\(.*')]
    base = [(r'isinstance\(tag, str\)', False),
            (r'isinstance\(tag, list\)', False),
            (r'isinstance\(tag, tag_base_cls\)', True),
            (r"hasattr\(tag, 'content'\)", True)]
    tr.expect('switched off', base + [(r'tag\.process_typography', False)],
              ev, ret='tag', never=('write', 'recurse', 'sub'),
              msg='the content of such a tag must not be changed')
    tr.expect('switched on', base + [(r'tag\.process_typography', True)],
              ev, ret='tag', must=('recurse', 'write'),
              msg='other tags are processed')
    tr.expect('other objects', [(r'isinstance\(tag, .*\)', False)], ev,
              ret='tag', never=('write', 'recurse', 'sub'),
              msg='anything else stays as it is')
    # ---- macros
    r = 'T01.macros'
    ctx.rule(r, 'Macro replacement applies to text only')
    tr = TraceRule(ctx, r, 'process_macros')
    tr.expect('not text', [(r'isinstance\(tag\.content, str\)', False)],
              [('write', 'store', r'.*'),
               ('repl', 'call', r'replace_macros\(.*')],
              never=('write', 'repl'),
              msg='content that is not text must be left alone')
    # ---- rendering
    r = 'T01.stages'
    ctx.rule(r, 'Tags are found before the text is replaced or '
             'grouped')
    s01.ordered(ctx, r, 'tag_created', ['process_content', 'process_typography', 'process_paragraphs'])

    delimiters(ctx, 'T01.tex')
    r = 'T01.verb'
    ctx.rule(r, 'A verb tag renders its own content unchanged')
    tr = TraceRule(ctx, r, 'Verb.tex_fmt')
    tr.expect('block', [(r"self\.name == 'verbatim'", True)], [],
              ret=r"tex_env\(.*env='verbatim'.*formatted_content="
              r"self\.default_fmt\(\)\)",
              msg='block text belongs in a verbatim environment')
    tr.expect('inline', [(r"self\.name == 'verbatim'", False)], [],
              ret=r"tex_verb\(formatted_content=self\.default_fmt\(\)\)",
              msg='inline text belongs in a verb command')
    v = ctx.cls('Verb', 'tags.text')
    owner, d = repo.lookup(v, 'default_fmt')
    ctx.ob(r, 'Verb.default_fmt', isinstance(d, FuncInfo) and
           d.cls.name == 'Tag', ctx.where(v), 'the plain content is used')
    r = 'T01.code'
    ctx.rule(r, 'A code tag renders its own text: highlighted or literal')
    for m, inl, blk in (
            ('html_fmt', r"xhtml_tag\(.*formatted_content=content_to_str\("
             r"content=(self\.)?content\).*\)",
             r"xhtml_tag\(.*formatted_content=Markup\(highlight\("
             r"content_to_str\(content=(self\.)?content\), .*\).*\)"),
            ('tex_fmt', r"tex_verb\(formatted_content=content_to_str\("
             r"content=(self\.)?content\)\)",
             r"highlight\(content_to_str\(content=(self\.)?content\), .*\)")):
        tr = TraceRule(ctx, r, 'Code.' + m)
        tr.expect(m + ' inline', [(r"self\.paragraph_role == 'block'",
                                   False)], [], ret=inl,
                  msg='inline code is literal text')
        tr.expect(m + ' block', [(r"self\.paragraph_role == 'block'",
                                  True)], [], ret=blk,
                  msg='block code is highlighted text')
    # ---- paragraphs only for the tags named in the context
    r = 'T01.paragraphs'
    ctx.rule(r, 'Paragraphs are formed only in tags that the context lists')
    tr = TraceRule(ctx, r, 'process_paragraphs')
    ev = [('para', 'call', r'process_paragraph_tags\(.*')]
    C = r"tag\.name in tag\.context\.get\('process_paragraphs'.*\)"
    tr.expect('not listed', [(C, False)], ev, never=('para',),
              msg='tag must not be split into paragraphs')
    tr.expect('listed', [(C, True)], ev, must=('para',),
              msg='tag must be split into paragraphs')
