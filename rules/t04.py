"""T04: no text is lost between the source and the tags"""
import re as _re
from . import s01
from .common import *

ASSUMPTIONS = [
    'Regular expressions match as documented; the patterns themselves are '
    'judged by the characters they can match',
]

P = r'(?:0|POS|S0)'
# words for the positions of the scanner: M is a match of an opening tag in
# the rest of the text, B one of a brace; S0 the position after the opening
# of a tag, POS the one after a brace
SCAN = [
    (r're_open_tag\.search\(content\[slice\(%s, None, None\)\]\)' % P,
     ('v', 'M')),
    (r're_brace\.search\(content\[slice\(%s, None, None\)\]\)' % P,
     ('v', 'B')),
    (r'\(?%s \+ M\.end\(\)\)?' % P, ('v', 'S0')),
    (r'\(?%s \+ B\.end\(\)\)?' % P, ('v', 'POS')),
    (r'\(?(0|1|LV) [-+] 1\)?', ('v', 'LV')),
    (r'level < settings\.tag_max_depth', True),
    (r'settings\.tag_max_depth <= level', False),
    (r'isinstance\(content, str\)', True),
    (r"B\.group\(0?\) == '}'", True), (r"B\.group\(0?\) == '{'", False),
    (r'LV < \d+', True), (r'hasattr\(content, .*', False),
]
BEFORE = r'content\[slice\((?P<p>%s), \(?(?P=p) \+ M\.start\(\)\)?, None\)\]' \
    % P
REST = r'content\[slice\(%s, None, None\)\]' % P
INNER = r'content\[slice\(S0, \(?(?:S0|POS) - 1\)?, None\)\]'
MADE = r'tag_factory\.tag\(.*\)'


def scanner(ctx):
    """The loops of parse_tags search the rest of the text (text[position:])
    for tags and braces"""
    g = ctx.graph('parse_tags')
    got = set()
    for n in g.calls():
        if n.pred and g.cname(n) == 'search':
            f, a = n.term[1], n.term[2]
            if f[0] == 'attr' and a and a[0][0] == 'sub':
                got.add(S(f[1]))
    return len(got) >= 2


def run(ctx):
    parse(ctx)
    group(ctx)
    clean(ctx)
    paragraphs(ctx)
    strings(ctx)
    typography(ctx)
    macros(ctx)


# ------------------------------------------------------------------- parsing
def parse(ctx):
    r = 'T04.parse'
    ctx.rule(r, 'Parsing keeps the text before, between and after tags, in '
             'order, and gives each tag the text between its braces')
    tr = TraceRule(ctx, r, 'parse_tags')
    ctx.ob(r, 'parse_tags: scanner', True, ctx.where(tr.f))
    braces(ctx, r)
    if scanner(ctx):
        text(ctx, r, tr)
    # lists and tags
    base = [(r'level < settings\.tag_max_depth', True),
            (r'settings\.tag_max_depth <= level', False)]
    REC = r'parse_tags\((content=)?%s, (?:.*, )?level=\(level \+ 1\).*\)'
    fs = base + [(r'isinstance\(content, str\)', False),
                 (r'isinstance\(content, list\)', True)]
    out = tr.run([('item', 'collect', r'.*'), ('it', 'iter', 'content'),
                  ('rec', 'call', r'parse_tags\(.*elem\(content\).*\)')], fs)
    tr.check('list: all items', out, lambda t: t.kind == 'return' and (
        t.has('rec') or not t.has('item')) and not re.search(
            r'filter\(|reversed\(|slice\(|sorted\(|set\(', S(t.value)),
        'each item of the list is parsed, in order')
    tr.check('list: some item', [t for t in out if t.has('rec')],
             lambda t: True, 'the items of the list are parsed')
    fs = base + [(r'isinstance\(content, (str|list)\)', False),
                 (r"hasattr\(content, 'content'\)", True),
                 (r"(getattr\(content, 'process_content', True\)|"
                  r"content\.process_content)", True)]
    ev = [('set', 'store', r'content\.content = (?P<v>.*)'),
          ('rec', 'call', r'parse_tags\(.*content\.content.*\)'),
          ('item', 'collect', r'.*')]
    tr.expect('tag', fs, ev, ret='content', each=lambda t: len(
        t.get('set')) == 1 and (t.has('rec') or not t.has('item')) and
        not re.search(r'filter\(|reversed\(|slice\(|sorted\(|set\(',
                      t.get('set')[0][1]),
        msg='the parsed content replaces the content of the tag')
    tr.expect('tag taken literally', fs[:-1] + [
        (r"(getattr\(content, 'process_content', True\)|"
         r"content\.process_content)", False)], ev, ret='content',
        never=('set', 'rec'), msg='literal content is left alone')
    # the receiver
    tr = TraceRule(ctx, r, 'process_content')
    out = tr.run([('set', 'store', r'tag\.content = (?P<v>.*)'),
                  ('other', 'store', r'tag\..*')], [])
    tr.check('stage', out, lambda t: t.kind == 'return' and [
        e[1] for e in t.get('set')] and all(re.fullmatch(
            r'parse_tags\((.*, )?content=tag\.content(, .*)?\)', e[1])
            for e in t.get('set')) and not t.has('other') and
        S(t.value) in ('tag', 'None'),
        'the content of the tag is replaced by its parsed content')
    # the pattern of an opening tag
    r = 'T04.pattern'
    ctx.rule(r, 'The pattern of tags reads whole names, the attributes in '
             'brackets and the opening brace')
    v = regex_const(ctx, 'tags.receivers.content', 're_open_tag')
    w = ctx.fn('parse_tags')
    for s, want in (('@b{x', ('b', None, '{')), ('@b', ('b', None, None)),
                    ('@fig2_a{', ('fig2_a', None, '{')),
                    ('@ref[a=1 b="x.y{"]{', ('ref', '[a=1 b="x.y{"]', '{')),
                    ('@img[a]x', ('img', '[a]', None)),
                    ('@toc {', ('toc', None, None)),
                    ('@h1[id=a\nb=2]{', ('h1', '[id=a\nb=2]', '{')),
                    ('@b[]{', ('b', None, None)),
                    ('@13C', ('13C', None, None))):
        got = None
        if v is not None:
            m = v.match(s)
            d = m.groupdict() if m else {}
            got = (d.get('tag'), d.get('attributes'), d.get('open'))
        ctx.ob(r, 'opening %r' % s, got == want, ctx.where(w),
               'the pattern reads %r' % (got,))
    v = regex_const(ctx, 'tags.receivers.content', 're_brace')
    ctx.ob(r, 'braces', v is not None and v.match('{') and v.match('}') and
           not v.search('[]()<>\\ab \n') and v.match('{{').end() == 1,
           ctx.where(w), 'single braces are found')


def text(ctx, r, tr):
    ev = [('tail', 'call', r'(?:.*\.)?append\(%s\)' % REST),
          ('before', 'call', r'(?:.*\.)?append\(%s\)' % BEFORE),
          ('add', 'call', r'(?:.*\.)?append\(%s\)' % MADE),
          ('addother', 'call', r'(?:.*\.)?append\((?P<v>.*)\)'),
          ('make', 'call', r'tag_factory\.tag\((?P<v>.*)\)'),
          ('extend', 'call:extend|insert|pop|remove|clear|reverse|sort', r'.*'),
          ('group', 'call', r'group_strings\(.*\)'),
          ('head', 'iter', 'while')]
    full = [(BEFORE.replace('(?P<p>', '(').replace('(?P=p)', P), True),
            (REST, True)]
    out = [t for t in tr.run(ev, SCAN + full, limit=4000)
           if t.kind == 'return']
    tr.check('only text and tags', out, lambda t: not t.has('addother') and
             not t.has('extend'), 'nothing but the text and the tags is '
             'added to the content')
    tr.check('text after', out, lambda t: t.some('tail') and
             'add' not in seq(t)[len(seq(t)) - seq(t)[::-1].index('tail'):]
             and 'before' not in seq(t)[seq(t).index('tail'):],
             'the text after the last tag is kept, at the end')
    tags = [t for t in out if t.has('make') and t.has('add')]
    tr.check('text before', tags, lambda t: t.has('before') and
             seq(t).index('before') < seq(t).index('add') and
             seq(t).count('add') == 1,
             'the text before a tag is kept, before the tag')
    tr.check('tags', [t for t in out if t.has('make')],
             lambda t: t.has('add'), 'each tag is added to the content')
    tr.check('grouped', out, lambda t: not t.has('group') or seq(t).index(
        'group') > seq(t).index('tail'), 'strings are joined at the end')
    inner(ctx, r, tr)
    for case, n in (('nothing', 0), ('one', 1), ('many', 2)):
        fs = [(r'len\(.*\) == 1', n == 1), (r'len\(.*\) == 0', n == 0),
              (r'0 < len\(.*\)|1 <= len\(.*\)', n > 0),
              (r'1 < len\(.*\)|2 <= len\(.*\)', n > 1),
              (r'list\(\)|new_content', n > 0)]
        o = [t for t in tr.run(ev, SCAN + fs, limit=4000)
             if t.kind == 'return']
        tr.check('result of %s' % case, o, lambda t: re.fullmatch(
            [r"''|''\.join\(.*\)", r'(?!.*-1).*\[(0|-1)\]|.*\.pop\(\)',
             r'list\(\)|new_content|group_strings\(.*\)'][n], S(t.value)),
            'an empty text, the one piece or the list is returned')


def inner(ctx, r, tr):
    """The content of tags is the text between the braces; without braces,
    it is empty"""
    ev = [('make', 'call', r'tag_factory\.tag\((?P<v>.*)\)')]
    for opened in (True, False):
        fs = [(r"M\.groupdict\(\)\['open'\] is None", not opened),
              (r"M\.groupdict\(\)\['open'\]", opened),
              (r"M\.group\('open'\) is None", not opened),
              (r"M\.group\('open'\)", opened), (INNER, True)]
        o = [t for t in tr.run(ev, SCAN + fs, limit=4000)]
        o = [t for t in o if t.has('make') and re.search(
            r'tag_name=M\.', t.get('make')[0][1])]
        tr.check('content of a tag %s braces' % (
            'with' if opened else 'without'), o, lambda t: all(re.search(
                r'(^|, )tag_content=(%s)(, |$)' % (
                    INNER if opened else "''"), e[1])
                for e in t.get('make')), 'the content of a tag is the '
            'unchanged text between its braces')


def braces(ctx, r):
    """The level counts opening and closing braces: it begins with 1 for a
    tag with an opening brace, is increased by '{' and decreased by '}', and
    the text is read on while it is above 0"""
    g = ctx.graph('parse_tags')
    from .t03 import brace_vars
    vs = brace_vars(g)
    for v in sorted(vs):
        for n in g.nodes:
            if not (n.pred and n.dst == v and n.kind == 'asg' and n.extra !=
                    'init'):
                continue
            t = n.term
            if t[0] in ('aug', 'op') and len(t) == 4 and t[3] == ('c', 1):
                want = '{' if t[1] == '+' else '}'
                known = [(S(c), pol) for c, pol, tn in g.conds(n) if re.search(
                    r"'[{}]'", S(c))]
                if not known:
                    continue
                ok = any(("'%s'" % want in c) == pol for c, pol in known) and \
                    not any(("'%s'" % want in c) != pol for c, pol in known
                            if '==' in c and "'%s'" % want in c)
                ctx.ob(r, 'parse_tags: level %s= 1' % t[1], ok, ctx.where(n),
                       'the level counts %r: %s' % (want, known))
        tests = [n for n in g.nodes if n.kind == 'test' and n.pred and any(
            x == ('v', v) for x in subterms(cond_of(g, n)))]
        for n in tests:
            c, w = S(cond_of(g, n)), v.split('.')[-1]
            cmps = re.findall(r'\d+ (?:<|<=|==) %s\b|\b%s (?:<|<=|==) \d+' % (
                w, w), c)
            ctx.ob(r, 'parse_tags: test of the level', all(re.fullmatch(
                r'0 (<|==) {0}|{0} (<=|==) 0|{0} <=? \d\d+|1 <= {0}|{0} < 1'
                .format(w), x) for x in cmps), ctx.where(n),
                'the level is compared with 0: %s' % c)


# ---------------------------------------------------------------- paragraphs
def lists_of(g, term, node):
    """The empty lists that a variable can refer to at a node"""
    ds = allocs(g, term, node) if term[0] == 'v' else set()
    return frozenset(ds) if ds and all(
        d.kind == 'asg' and d.term and S(d.term) in ('list()', '[]')
        for d in ds) else frozenset()


def two_lists(g):
    """(outer, inner): where the list of paragraphs, and the lists of the
    elements of a paragraph, which are added to it, are made"""
    for n in g.calls():
        if n.pred and g.cname(n) == 'append' and n.term[1][0] == 'attr' and \
                n.term[2]:
            a = lists_of(g, n.term[1][1], n)
            b = lists_of(g, n.term[2][0], n)
            if a and b and not a & b:
                more = [lists_of(g, m.term[2][0], m) for m in g.calls()
                        if m.pred and g.cname(m) == 'append' and m.term[2]
                        and lists_of(g, m.term[1][1], m) & a]
                return a, b.union(*[x for x in more if not x & a])
    return None


def group(ctx):
    r = 'T04.group'
    ctx.rule(r, 'Grouping into paragraphs keeps all pieces of text and all '
             'tags, in order')
    f = ctx.fn('group_paragraphs')
    g = ctx.graph(f)
    two = two_lists(g)
    ctx.ob(r, 'group_paragraphs: form', True, ctx.where(f))
    if two is None:
        return
    over, sub = two
    E = r'elem\((?:list\(elements\)|elements)\)'
    base = matcher(('clear', 'call', r'elements\.clear\(\)'),
                   ('fill', 'aug', r'elements \+= .*'),
                   ('fill', 'call', r'elements\.extend\(.*\)'),
                   ('set', 'store', r'elements\[slice\(None, None, None\)\] '
                    r'= .*'),
                   ('it', 'iter', r'elements|list\(elements\)'))

    def classify(n, env):
        if n.kind == 'call' and n.pred and n.term[1][0] == 'attr' and \
                n.term[1][2] in ('append', 'extend', 'insert') and \
                lists_of(g, n.term[1][1], n) & (over | sub):
            to = 'over' if lists_of(g, n.term[1][1], n) & over else 'sub'
            a = n.term[2][-1] if n.term[2] else ('c', None)
            if n.term[1][2] != 'append':
                return ('bad', n.term[1][2])
            if lists_of(g, a, n) & sub:
                return ('over<sub',) if to == 'over' else ('bad', 'self')
            return (to, S(env.ev(a)))
        if n in sub and n.extra != 'init':
            return ('new',)
        return base(n, env)
    tr = TraceRule(ctx, r, f)

    def runs(*fs):
        return ctx.trace(g, classify, facts(*fs), limit=3000)

    def evs(t):
        return [(e,) if isinstance(e, str) else e for e in t.ev]
    it = [(r'isinstance\(elements, str\)', False)]
    string = (r'isinstance\(%s, str\)' % E, True)
    other = (r'isinstance\(%s, str\)' % E, False)
    listy = r'isinstance\(%s, list\)' % E
    inc = r"(getattr\(%s, 'include_paragraphs', True\)|%s\." \
        r"include_paragraphs)" % (E, E)

    def turn(t):
        """events of the last iteration over the elements"""
        s = evs(t)
        k = [i for i, e in enumerate(s) if e[0] == 'it']
        return [e for e in s[k[0] + 1:k[-1]]] if len(k) > 1 else None

    def turns(*fs):
        return [x for x in (turn(t) for t in runs(*fs)) if x is not None]

    def chk(case, got, pred, msg):
        bad = [x for x in got if not pred(x)]
        ctx.ob(r, 'group_paragraphs: ' + case, got and not bad,
               ctx.where(f), msg + (' -- %s' % (bad[0],) if bad else ''))
    names = lambda x: [e[0] for e in x]                        # noqa
    chk('tags', turns(*it, other, (inc, True), (listy, False)),
        lambda x: names(x) == ['sub'] and re.fullmatch(E, x[0][1]),
        'a tag is added to its paragraph')
    for why, fs in (('tags of their own', [(inc, False), (listy, False)]),
                    ('lists', [(inc, True), (listy, True)])):
        for open_ in (True, False):
            chk('%s after %s' % (why, 'text' if open_ else 'nothing'),
                turns(*it, other, *fs, (r'list\(\)|sublist', open_)),
                lambda x: [n for n in names(x) if n != 'new'] == (
                    ['over<sub', 'over'] if open_ else ['over']) and
                re.fullmatch(E, x[-1][1] if x[-1][0] == 'over' else
                             [e for e in x if e[0] == 'over'][0][1]) and
                (not open_ or 'new' in names(x) and names(x).index(
                    'new') > names(x).index('over<sub')),
                'it is added after the paragraph before it is closed')
    SPL = r're_para\.split\(%s\)' % E
    chk('text without breaks', turns(*it, string, (
        r'len\(%s\) == 1' % SPL, True), (r'%s\[0\]' % SPL, True),
        (r'1 < len\(%s\)|2 <= len\(%s\)' % (SPL, SPL), False),
        (r'elem\(%s\)' % SPL, True)),
        lambda x: 'sub' in names(x) and all(e[0] != 'sub' or re.fullmatch(
            r'(%s\[0\]|%s|elem\(%s\)|.*elem\(enumerate\(%s\)\)\[1\])' % (
                SPL, E, SPL, SPL), e[1]) for e in x) and
        'over' not in names(x), 'the text is added to its paragraph')
    EP = r'(elem\(%s\)|elem\(enumerate\(%s\)\)\[1\])' % (SPL, SPL)
    # several pieces: the last iteration over the pieces
    got = turns(*it, string, (r'len\(%s\) == 1' % SPL, False),
                (r'1 < len\(%s\)|2 <= len\(%s\)' % (SPL, SPL), True),
                (EP, True))
    got2 = [x for x in got if 'sub' in names(x)]
    chk('pieces of text', got2, lambda x: all(
        e[0] != 'sub' or re.fullmatch(EP, e[1]) for e in x) and not any(
            e[0] in ('over', 'bad') for e in x),
        'each piece is added to its paragraph')
    LAST = (r'elem\(enumerate\(%s\)\)\[0\] == \(len\(%s\) - 1\)' % (SPL, SPL),
            r'elem\(enumerate\(%s\)\)\[0\] < \(len\(%s\) - 1\)' % (SPL, SPL),
            r'\(elem\(enumerate\(%s\)\)\[0\] \+ 1\) < len\(%s\)' % (SPL, SPL),
            r'\(len\(%s\) - 1\) <= elem\(enumerate\(%s\)\)\[0\]' % (
                SPL, SPL))
    conds = [S(g.expand(n.term, n)) for n in g.nodes
             if n.kind == 'test' and n.pred]
    if any(re.fullmatch('not\\(?%s\\)?|\\(?%s\\)?' % (p, p), c)
           for c in conds for p in LAST):
        for last in (True, False):
            fs = [(LAST[0], last), (LAST[1], not last), (LAST[2], not last),
                  (LAST[3], last)]
            got = [x for x in turns(*it, string, (
                r'len\(%s\) == 1' % SPL, False), (
                r'1 < len\(%s\)|2 <= len\(%s\)' % (SPL, SPL), True),
                (EP, True), (r'list\(\)|sublist', True), *fs)
                if 'sub' in names(x)]
            chk('%s piece' % ('last' if last else 'other'), got,
                lambda x: ('over<sub' in names(x) and 'new' in names(x)) !=
                last and (last or names(x)[-1] == 'new'), 'a paragraph ends '
                'after each piece of text but the last')
    # a new list is only begun when the last one was added, or is empty
    out = runs(*it, (r'list\(\)|sublist', True))
    starts = set()
    bad = []
    for t in out:
        last = None
        for e in evs(t):
            if e[0] == 'sub':
                last = 'open'
            elif e[0] == 'over<sub':
                last = 'closed'
            elif e[0] == 'new':
                if last == 'open':
                    bad.append(t)
                last = None
        starts.add(t.kind)
    ctx.ob(r, 'group_paragraphs: no text dropped', out and not bad,
           ctx.where(f), 'a paragraph is begun before the last one was '
           'added')
    tr.check('end', [t for t in out if t.kind == 'return'],
             lambda t: seq(t).count('over<sub') >= 1 and
             'sub' not in seq(t)[len(seq(t)) - seq(t)[::-1].index(
                 'over<sub'):] and t.some('fill', 'set') and seq(t).index(
                     'fill' if t.has('fill') else 'set') >
             len(seq(t)) - 1 - seq(t)[::-1].index('over<sub'),
             'the last paragraph is added, and the list filled with all')
    tr.check('result', [t for t in out if t.kind == 'return'],
             lambda t: (seq(t).index('clear') < seq(t).index('fill') if
                        t.has('clear') else t.has('set')) and
             S(t.value) not in ('None', 'list()'),
             'the list is emptied before it is filled, and returned')
    # text is a list of one
    for n in g.nodes:
        if n.kind == 'iter' and n.pred and 'elements' in S(g.expand(
                n.term, n)) and 'split' not in S(g.expand(n.term, n)):
            o = ctx.trace(g, matcher(('it', 'iter', r'(?P<v>(?!.*split).*)')),
                          facts((r'isinstance\(elements, str\)', True)),
                          limit=3000)
            ctx.ob(r, 'group_paragraphs: text', o and all(
                e[1] in ('list(elements)', 'tuple(elements)', '[elements]')
                for t in o for e in t.ev), ctx.where(n),
                'text is a list of one element')
            break
    # empty pieces only are left out
    v = regex_const(ctx, 'tags.receivers.paragraphs', 're_para')
    ok = v is not None
    if ok:
        for s in ('\n\n', ' \n \n ', '\n\n\n', '\n \t\n\n'):
            ok &= bool(v.fullmatch(s))
        for s in ('\n', ' ', 'a\nb', '\n a', '', 'ab'):
            ok &= not v.search(s)
        ok &= matched_chars(v.pattern, v.flags) <= {'\\s', '\n'}
    ctx.ob(r, 'paragraph breaks', ok, ctx.where(f),
           'text is split at blank lines, and only these are left out')


def clean(ctx):
    r = 'T04.clean'
    ctx.rule(r, 'Only paragraphs that hold no more than white space are '
             'removed')
    tr = TraceRule(ctx, r, 'clean_paragraphs')
    E = r'elem\(elements\)'
    ev = [('keep', 'collect', E), ('other', 'collect', r'.*'),
          ('it', 'iter', 'elements'),
          ('clear', 'call', r'elements\.clear\(\)'),
          ('fill', 'aug', r'elements \+= .*'),
          ('fill', 'call', r'elements\.extend\(.*\)'),
          ('fill', 'store', r'elements\[slice\(None, None, None\)\] = .*')]
    tr.expect('tags and text', [(r'isinstance\(%s, list\)' % E, False)], ev,
              it='it', must=('keep', 'fill'), order=(('keep', 'fill'),),
              exactly={'keep': 1}, msg='the element is kept')
    I = r'elem\(%s\)' % E                                       # noqa
    for case, fs, kept in (
            ('text', [(r'isinstance\(%s, str\)' % I, True),
                      (I + r'\.(strip|isspace)\(\)', True)], True),
            ('tags', [(r'isinstance\(%s, str\)' % I, False)], True)):
        fs = [(r'isinstance\(%s, list\)' % E, True)] + fs
        if case == 'text':
            fs = fs[:-1] + [(I + r'\.strip\(\)', True),
                            (I + r"\.strip\(\) == ''", False),
                            (I + r'\.isspace\(\)', False)]
        out = [t for t in tr.run(ev + [('in', 'iter', E)], fs)
               if seq(t).count('it') >= 2 and seq(t).count('in') >= 2 or
               seq(t).count('it') >= 2 and seq(t).count('in') == 1 and
               t.has('keep')]
        tr.check('paragraph with ' + case, out, lambda t: t.has('keep') or
                 seq(t).count('in') == 0, 'the paragraph is kept')
    g = tr.g
    conds = ' '.join(S(g.expand(n.term, n)) for n in g.nodes
                     if n.kind == 'test' and n.pred)
    tr.expect('result', [(r'isinstance\(elements, list\)', True)], ev,
              must=('fill',), each=lambda t: S(t.value) != 'None' and (
                  not t.has('clear') and any(
                      'slice' in S(n.target) for n in g.nodes
                      if n.kind == 'store' and n.pred) or seq(t).index(
                          'clear') < seq(t).index('fill')),
              msg='the list is emptied before it is filled, and returned')
    ctx.ob(r, 'clean_paragraphs: order', not re.search(
        r'reversed|sorted|set\(', conds), ctx.where(tr.f), 'order is kept')


def paragraphs(ctx):
    r = 'T04.paragraphs'
    ctx.rule(r, 'Each group of elements becomes one paragraph with all of '
             'these elements, everything else is left as it is')
    tr = TraceRule(ctx, r, 'process_paragraph_tags')
    G = r'group_paragraphs\((?:elements=)?(?:element|element\.content)\)'
    I = r'(?:elem\(%s\)|elem\(enumerate\(%s\)\)\[1\]|' \
        r'%s\[elem\(enumerate\(%s\)\)\[0\]\])' % (G, G, G, G)   # noqa
    ev = [('group', 'call', G), ('make', 'call', r'p_cls\((?P<v>.*)\)'),
          ('put', 'store', r'%s\[.*\] = p_cls\(.*\)' % G),
          ('put', 'collect', r'p_cls\(.*\)'),
          ('keep', 'collect', I), ('other', 'collect', r'.*'),
          ('set', 'store', r'element\.content = (?P<v>.*)'),
          ('clean', 'call', r'clean_paragraphs\((?:elements=)?%s\)' % G),
          ('roles', 'call', r'assign_paragraph_roles\((?:.*=)?%s(?:, .*)?\)'
           % G),
          ('it', 'iter', r'.*' + G + r'.*'),
          ('write', 'store', r'.*')]
    for tag in (True, False):
        C = 'element.content' if tag else 'element'
        fs = [(r'isinstance\(element, tag_base_cls\)', tag),
              (r'isinstance\(%s, list\)' % _re.escape(C), True),
              (r'isinstance\(%s, str\)' % _re.escape(C), False)]
        case = 'tag' if tag else 'list'
        for n in (1, 2):
            f2 = fs + [(r'isinstance\(%s, list\)' % I, True),
                       (r'len\(%s\) == 1' % I, n == 1),
                       (r'1 < len\(%s\)' % I, n > 1)]
            tr.expect('%s: group of %d' % (case, n), f2, ev, it='it',
                      must=('make', 'put', 'clean', 'roles'),
                      never=('keep', 'other', 'write'),
                      order=(('group', 'clean'), ('clean', 'roles'),
                             ('roles', 'make')),
                      each=lambda t: len(t.get('make')) == 1 and
                      re.search(r"(^|, )name='p'", t.get('make')[0][1]) and
                      re.search(r'(^|, )context=(context|element\.context)',
                                t.get('make')[0][1]) and
                      re.search(r"(^|, )attributes=('')",
                                t.get('make')[0][1]) and re.search(
                          r'(^|, )content=%s%s(, |$)' % (
                              I, r'\[(0|-1)\]' if n == 1 else ''),
                          t.get('make')[0][1]),
                      msg='the group becomes a paragraph with its elements')
        tr.expect('%s: others' % case, fs + [
            (r'isinstance\(%s, list\)' % I, False)], ev, it='it',
            never=('make', 'put', 'other', 'write'),
            msg='other elements are left alone')
        for n in (1, 2):
            o = tr.run(ev, fs + [(r'len\(%s\) == 1' % G, n == 1),
                                 (r'1 < len\(%s\)' % G, n > 1)])
            o = [t for t in o if not (t.kind == 'raise')]
            V = G + (r'\[(0|-1)\]' if n == 1 else '')
            if tag:
                tr.check('%s: result of %d' % (case, n), o, lambda t: [
                    bool(re.fullmatch(V + r'|list\(\)|t\.\d+', e[1]))
                    for e in t.get('set')] == [True] and
                    S(t.value) == 'element',
                    'the paragraphs replace the content')
            else:
                tr.check('%s: result of %d' % (case, n), o, lambda t:
                         not t.has('set') and re.fullmatch(
                             V + r'|list\(\)', S(t.value)),
                         'the paragraphs are returned')
    tr.expect('nothing to do', [
        (r'isinstance\(element, tag_base_cls\)', True),
        (r'isinstance\(element\.content, (list|str)\)', False)], ev,
        never=('group', 'make', 'set', 'write'),
        msg='a tag in a tag is left alone')
    tr = TraceRule(ctx, r, 'process_paragraphs')
    INN = r"tag\.name in (tag\.context\.get\('process_paragraphs'.*\)|" \
        r"tag\.context\['process_paragraphs'\])"
    ev = [('do', 'call', r"process_paragraph_tags\((?=.*element=tag,)"
           r"(?=.*p_cls=tag_factory\.tag_class\(.*tag_name='[Pp]'.*\)).*\)"),
          ('write', 'store', r'.*')]
    tr.expect('listed', [(INN, True), (r"'process_paragraphs' in "
                                       r"tag\.context", True)], ev,
              must=('do',), exactly={'do': 1}, never=('write',),
              msg='listed tags are processed once')
    tr.expect('not listed', [(INN, False)], ev, never=('do', 'write'),
              msg='other tags are not')


# ------------------------------------------------------------------- strings
def strings(ctx):
    r = 'T04.strings'
    ctx.rule(r, 'Joining strings keeps all of them, and all tags, in order')
    tr = TraceRule(ctx, r, 'group_strings')
    L = r'(?:lst|new_list|list\(\)|groupby\(.*)'
    ev = [('str', 'collect', r"''\.join\(.*\)"),
          ('other', 'collect', r'.*'),
          ('list', 'aug', r'(?!lst ).* \+= .*elem\(groupby\(.*\)\[1\]\)?'),
          ('list', 'call', r'(?!lst).*\.extend\(.*elem\(groupby\(.*\)'),
          ('it', 'iter', r'groupby\(.*'),
          ('clear', 'call', r'lst\.clear\(\)'),
          ('fill', 'aug', r'lst \+= .*')]
    fs = [(r"hasattr\(lst, 'content'\)", False),
          (r'isinstance\(lst, list\)', True),
          (r'\(?lst \+ .*', ('v', 'lst'))]
    g = tr.g
    if not any(n.pred and n.kind == 'iter' and 'groupby(' in S(
            g.expand(n.term, n)) for n in g.nodes):
        ctx.ob(r, 'group_strings: form', True, ctx.where(tr.f))
        return
    C = r'elem\(groupby\(.*\)\)\[0\]'

    def after(t):
        s = seq(t)
        return s[s.index('it'):] if 'it' in s else ()
    for case, c, want in (('text', True, ('str',)),
                          ('tags', False, ('list', 'other'))):
        out = [t for t in tr.run(ev, fs + [(C, c)])
               if seq(t).count('it') >= 2]
        tr.check(case, out, lambda t: t.kind == 'return' and any(
            w in after(t) for w in want) and (
                c or 'str' not in after(t)) and (
                    not c or not {'other', 'list'} & set(after(t))),
            'the strings of a run are joined' if c else 'tags are kept')
    tr.expect('end', fs, ev, ret='lst', must=('fill',),
              each=lambda t: 'fill' in after(t) and (
                  after(t).count('clear') <= after(t).count('fill')),
              msg='the list is filled again')
    tr.expect('tag', [(r"hasattr\(lst, 'content'\)", True)], [
        ('set', 'store', r'lst\.content = group_strings\((lst=)?'
         r'lst\.content\)'), ('write', 'store', r'.*')], ret='lst',
        must=('set',), never=('write',),
        msg='the strings in a tag are joined')
    calls = [n for n in g.calls() if n.pred and g.cname(n) == 'filter']
    for n in calls:
        ctx.ob(r, 'group_strings: filter', n.term[2] and S(n.term[2][0]) in (
            'bool', 'None', 'builtins.bool') or 'bool' in S(
                g.expand(n.term, n)), ctx.where(n),
            'only empty strings are dropped')


# ---------------------------------------------------------------- typography
ALLOWED = {
    're_endash': {'-', '\u2013', '\\s', '\u00a0'},
    're_emdash': {'-', '\u2014', '\\s', '\u00a0'},
    're_apostrophe': {"'"}, 're_single_start': {"'"},
    're_single_end': {"'"}, 're_double_start': {'"'},
    're_double_end': {'"'},
}
# what the sign is replaced by
SIGN = {'re_endash': '\u2013', 're_emdash': '\u2014',
        're_apostrophe': '\u2019', 're_single_start': '\u2018',
        're_single_end': '\u2019', 're_double_start': '\u201c',
        're_double_end': '\u201d'}


def typography(ctx):
    r = 'T04.typography'
    ctx.rule(r, 'Typography replaces dashes and quotes by the signs of the '
             'same kind and nothing else')
    f = ctx.fn('process_tag_typography')
    g = ctx.graph(f)
    subs = [n for n in g.calls() if n.pred and g.cname(n) in ('sub', 'subn')]
    known, seen = 0, set()
    for n in subs:
        recv = n.term[1][1] if n.term[1][0] == 'attr' else None
        name = S(recv).split('.')[-1] if recv else ''
        args = [g.expand(a, n) for a in n.term[2]]
        v = regex_const(ctx, 'tags.receivers.typography', name)
        if v is None:
            continue
        known += 1
        seen.add(name)
        rep = args[0][1] if args and args[0][0] == 'c' else None
        chars = matched_chars(v.pattern, v.flags)
        sign = {c for c in chars if c not in ('\\s', '\u00a0')}
        ctx.ob(r, 'typography: %s' % name, isinstance(rep, str) and
               len(rep) == 1 and rep in (
                   '\u2013\u2014' if sign & {'-'} else
                   '\u2018\u2019' if sign == {"'"} else '\u201c\u201d'),
               ctx.where(n), 'replaced by %r' % (rep,))
        ctx.ob(r, 'typography: characters of %s' % name,
               sign <= {'-', '\u2013', '\u2014', "'", '"'} and
               len(sign & {'-', "'", '"'}) == 1 and
               (name not in ALLOWED or chars <= ALLOWED[name]),
               ctx.where(n), 'the pattern takes %s' % sorted(chars))
        if name in SIGN:
            ctx.ob(r, 'typography: sign of %s' % name, rep == SIGN[name],
                   ctx.where(n), 'replaced by %r' % (rep,))
        ctx.ob(r, 'typography: text of %s' % name, len(args) == 2,
               ctx.where(n), 'all of the text is taken')
    for name in sorted(SIGN):
        if regex_const(ctx, 'tags.receivers.typography', name) is not None:
            ctx.ob(r, 'typography: %s is used' % name, name in seen,
                   ctx.where(f), 'the sign is not replaced')
    ctx.ob(r, 'typography: replacements', known >= 5, ctx.where(f),
           '%d found' % known)
    tr = TraceRule(ctx, r, f)
    ev = [('em', 'call', r're_emdash\.sub\(.*'),
          ('en', 'call', r're_endash\.sub\(.*'),
          ('set', 'store', r'tag\.content = (?P<v>.*)'),
          ('put', 'store', r'tag\[.*\] = (?P<v>.*)'),
          ('write', 'store', r'.*')]
    fs = [(r'isinstance\(tag, str\)', True)]
    out = tr.run(ev, fs)
    tr.check('dashes', out, lambda t: not t.has('em', 'en') or seq(t).index(
        'em') < seq(t).index('en'), 'em dashes are replaced before en '
        'dashes, which are a part of them')
    tr.check('text result', out, lambda t: t.kind == 'return' and
             re.match(r'\w+\.sub\(|.*\.(sub|replace)\(', S(t.value)),
             'the replaced text is returned')
    PR = r'process_(tag_)?typography\((?:.*, )?tag=%s(?:, .*)?\)'
    tr.expect('tag without typography', [
        (r'isinstance\(tag, (str|list)\)', False),
        (r"(getattr\(tag, 'process_typography', False\)|"
         r"tag\.process_typography)", False)], ev, ret='tag',
        never=('set', 'put', 'write', 'em', 'en'), msg='it is left alone')
    tr.expect('others', [
        (r'isinstance\(tag, (str|list|tag_base_cls)\)', False)], ev,
        ret='tag', never=('set', 'put', 'write', 'em', 'en'),
        msg='other content is left alone')
    tr.expect('tag', [(r'isinstance\(tag, str\)', False),
                      (r'isinstance\(tag, tag_base_cls\)', True),
                      (r"(getattr\(tag, 'process_typography', False\)|"
                       r"tag\.process_typography)", True)], ev, ret='tag',
              exactly={'set': 1}, never=('write',), each=lambda t:
              re.fullmatch(PR % r'tag\.content', t.get('set')[0][1]),
              msg='the content of the tag is replaced')
    o = tr.run(ev, [(r'isinstance\(tag, (str|tag_base_cls)\)', False),
                    (r'isinstance\(tag, list\)', True)])
    tr.check('list', [t for t in o if t.has('put')] or [
        t for t in o if S(t.value) != 'tag'], lambda t: t.kind ==
             'return' and S(t.value) == 'tag' and all(re.fullmatch(
                 PR % r'(elem\(tag\)|elem\(enumerate\(tag\)\)\[1\]|'
                 r'tag\[.*\])', e[1]) for e in t.get('put')) and
             not t.has('write') or re.match(r'comp\(', S(t.value)),
             'each element is replaced in its place')


# -------------------------------------------------------------------- macros
def macros(ctx):
    r = 'T04.stages'
    ctx.rule(r, 'Macros are replaced before tags are parsed; then '
             'the text is replaced and grouped')
    s01.ordered(ctx, r, 'tag_created')

    r = 'T04.macros'
    ctx.rule(r, 'Macros are replaced by their values, other text is kept')
    f = ctx.fn('replace_macros')
    sub = (f.nested or {}).get('_substitute') if isinstance(
        f.nested, dict) else None
    ctx.ob(r, 'replace_macros: form', True, ctx.where(f))
    if sub is not None:
        tr = TraceRule(ctx, r, sub)
        substitute(ctx, r, tr)
    tr = TraceRule(ctx, r, 'process_macros')
    ev = [('set', 'store', r'tag\.content = (?P<v>.*)'),
          ('write', 'store', r'.*')]
    tr.expect('text', [(r'isinstance\(tag\.content, str\)', True),
                       (r".* in tag\.content", True)], ev,
              exactly={'set': 1}, never=('write',), each=lambda t:
              re.fullmatch(r'replace_macros\(.*tag\.content, '
                           r'tag\.context.*\)', t.get('set')[0][1]),
              msg='the macros in the text of the tag are replaced')
    tr.expect('others', [(r'isinstance\(tag\.content, str\)', False)], ev,
              never=('set', 'write'), msg='only text has macros')


def substitute(ctx, r, tr):
    """The value of a macro: the first part of its name is looked up in the
    dicts, the next ones are attributes, and the rest is kept"""
    X = r'(?:None|VAL|OBJ)'
    PI = r"m\.(?:groupdict\(\)\['macro'\]|group\('macro'\)|" \
        r"\['macro'\])\.split\('\.'\)"
    base = [(PI, ('v', 'PS')), (r'PS\.pop\(0\)|PS\.popleft\(\)', ('v', 'N')),
            (r'getattr\(%s, N\)' % X, ('v', 'OBJ')),
            (r'elem\(dicts\)\[N\]|elem\(dicts\)\.get\(N\)', ('v', 'VAL')),
            (r'(VAL|OBJ) is None', False), (r'VAL|OBJ', True),
            (r'hasattr\(None, N\)', False)]
    ev = [('pop', 'call', r'PS\.pop\(0\)'),
          ('has', 'call', r'hasattr\(.*, N\)'),
          ('back', 'call', r'PS\.insert\(0, N\)'),
          ('alter', 'call', r'PS\.(?!split)\w+\(.*\)')]
    out = tr.run(ev, base, limit=3000)
    if not any('VAL' in S(t.value) for t in out if t.value):
        return                      # written in another way
    tr.check('result', out, lambda t: t.kind == 'return' and re.fullmatch(
        r"m\.group\(0?\)|\(?(str\((VAL|OBJ)\)|VAL|OBJ) \+ ''\.join\(comp\("
        r"gen, (\('\.' \+ elem\(PS\)\)|unk\(none\)), tuple\(PS\)\)\)\)?",
        S(t.value)) and not t.has('alter'),
        'the match, or its value with the rest of the name is returned')
    miss = tr.run(ev, base + [(r'any\(.*\)|N in elem\(dicts\)', False),
                              (r'hasattr\(.*, N\)', False)], limit=3000)
    tr.check('unknown', miss, lambda t: re.fullmatch(
        r'm\.group\(0?\)', S(t.value)), 'an unknown macro is kept')
    found = tr.run(ev, base + [(r'PS', True), (
        r'any\(.*\)|N in elem\(dicts\)', True), (
        r'hasattr\(.*, N\)', False)], limit=3000)
    found = [t for t in found if 'VAL' in S(t.value) and t.has('has')]
    tr.check('rest', found, lambda t: list(seq(t))[-1] == 'back',
             'the rest of the name is kept')
    attr = tr.run(ev, base + [(r'hasattr\(VAL, N\)', True),
                              (r'hasattr\(OBJ, N\)', True)], limit=3000)
    tr.check('attribute', [t for t in attr if 'OBJ' in S(t.value)],
             lambda t: True, 'attributes of values are found')
    # the first dict that has the name is taken
    g = tr.g
    its = [n for n in g.nodes if n.kind == 'iter' and n.pred and S(
        g.expand(n.term, n)) == 'dicts' and n.dst]
    for n in g.nodes:
        if n.kind == 'asg' and n.pred and n.term and n.term[0] == 'sub' and \
                re.search(r'elem\(dicts\)', S(g.expand(n.term, n))):
            outer = [m for m in g.nodes if m.extra == 'loophead' and
                     m not in its]
            again = [m for m in its if n in g.reachable(m) and
                     m in g.reachable(n, avoid=lambda x: x in outer)]
            ctx.ob(r, 'replace_macros: first value', not again, ctx.where(n),
                   'the first of the dicts with the name is used')


# ------------------------------------------------------------------- helpers
def regex_const(ctx, mod, name):
    """The compiled pattern of a module constant made by regex.compile of
    constant text"""
    import ast
    for k, v in ctx.repo.modules.items():
        if k.endswith(mod):
            for st in v.tree.body:
                if isinstance(st, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name
                        for t in st.targets) and isinstance(
                            st.value, ast.Call) and st.value.args:
                    try:
                        p = ctx.repo.eval_const(v, st.value.args[0])
                        return _re.compile(p) if isinstance(p, str) else None
                    except Exception:
                        return None
    return None


def matched_chars(pattern, flags=0):
    """The characters and classes a pattern can consume (look-around is not
    consumed)"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    out = set()

    def walk(seqn):
        for op, av in seqn:
            o = getattr(op, 'name', str(op))
            if o == 'LITERAL':
                out.add(chr(av))
            elif o == 'IN':
                walk(av)
            elif o == 'CATEGORY':
                out.add({'CATEGORY_SPACE': '\\s'}.get(str(av), str(av)))
            elif o == 'RANGE':
                out.update(map(chr, range(av[0], min(av[1], av[0] + 300) + 1)))
            elif o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                walk(av[2])
            elif o == 'SUBPATTERN':
                walk(av[-1])
            elif o == 'BRANCH':
                for b in av[1]:
                    walk(b)
            elif o in ('ASSERT', 'ASSERT_NOT', 'AT'):
                pass
            elif o == 'ATOMIC_GROUP':
                walk(av)
            else:
                out.add(o)
    walk(sp.parse(pattern))
    return out
