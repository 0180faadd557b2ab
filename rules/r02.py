"""R02: formats do not mix"""
import ast
import os
from .common import *
from sa.core import all_functions
from . import l02

ASSUMPTIONS = [
    'the format functions of tags are those named *_fmt, *_table and the '
    'functions of the formats package; content that is not processed has no '
    'tags in it']

FAMILY = {'default_fmt': 'default', 'tex_fmt': 'tex', 'html_fmt': 'html',
          'xhtml_fmt': 'html', 'tex_table': 'tex', 'html_table': 'html',
          'tex_cmd': 'tex', 'tex_env': 'tex', 'tex_verb': 'tex',
          'xhtml_tag': 'html', 'xhtml_entity': 'html', 'xhtml_list': 'html',
          'html_tag': 'html', 'tex_percentwidth': 'tex',
          'xhtml_percentwidth': 'html'}
PROPS = {'tex': 'tex', 'html': 'html', 'xhtml': 'html', 'default': 'default',
         'txt': 'default'}
TARGETS = {'.tex': 'tex', '.pdf': 'tex', 'tex': 'tex', 'pdf': 'tex',
           '.html': 'html', 'html': 'html', '.xhtml': 'html',
           'xhtml': 'html', '.epub': 'html', '.txt': 'default',
           'txt': 'default'}
USES_TARGET = {'content_to_str', 'format_string', 'url', 'add_file', 'filter',
               'get', 'find_item', 'get_url', 'other_relpath',
               'tex_percentwidth', 'xhtml_percentwidth'}


def formatters(ctx):
    for f in all_functions(ctx.repo):
        if f.module.name.startswith('disseminate.tags') and f.short.split(
                '.')[-1] in FAMILY and f.cls is not None:
            yield f


def kwargs(g, n):
    """The named arguments of a call, and whether it passes on others"""
    named, rest = {}, False
    for k, v in n.term[3]:
        if k in (None, '**'):
            rest = True
        else:
            named[k] = S(g.expand(v, n))
    return named, rest


def literal(ctx, f):
    """The content of the tag is taken literally, and has no tags"""
    c = ctx.repo.class_const(f.cls, 'process_content')
    return c is False or getattr(c, 'value', None) is False or S(c) == 'False'


def params(f):
    a = f.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}, \
        a.kwarg.arg if a.kwarg else None


def format_calls(ctx, f):
    """The calls of a format function, with the format they are for"""
    g = ctx.graph(f)
    for n in g.calls():
        if not n.pred or n.inlined and g.cname(n) not in FAMILY:
            continue
        name = g.cname(n)
        s = S(g.expand(n.term, n))
        fn = S(g.expand(n.term[1], n)) if len(n.term) > 1 and isinstance(
            n.term[1], tuple) else ''
        dyn = re.match(r'getattr\(.*, (.*)\)$', fn)
        if name not in FAMILY and re.search(r'\.(\w+)$', fn) and fn.rsplit(
                '.', 1)[1] in FAMILY and s.count('(') > fn.count('('):
            name = fn.rsplit('.', 1)[1]
        if dyn and not s.startswith('getattr') or dyn and s.count('(') > fn \
                .count('('):
            yield n, 'getattr', dyn.group(1)
        elif name in FAMILY:
            yield n, name, None
        elif name == 'format_content':
            named, _ = kwargs(g, n)
            yield n, name, named.get('format_func', '')
        elif name == 'content_to_str':
            yield n, name, None


def mixing(ctx):
    r = 'R02.family'
    ctx.rule(r, 'A format function uses the functions, targets and renderings '
             'of its own format only')
    total = 0
    for f in formatters(ctx):
        own = f.short.split('.')[-1]
        fam = FAMILY[own]
        g = ctx.graph(f)
        lit = literal(ctx, f)
        for n, name, func in format_calls(ctx, f):
            total += 1
            named, rest = kwargs(g, n)
            w = ctx.where(n)
            if func is not None:
                # the function of the nested tags
                good = {'tex': ["'tex_fmt'"], 'default': ["'default_fmt'"],
                        'html': ['format_func' if 'format_func' in params(f)[
                            0] else "'%s'" % own]}[fam]
                ctx.ob(r, '%s, nested tags' % f.short, func in good, w,
                       'are formatted with %s, not %s' % (
                           ' or '.join(good), func))
            elif name == 'content_to_str':
                t = named.get('target', "'.txt'").strip("'")
                ctx.ob(r, '%s, content' % f.short, TARGETS.get(t) == fam or
                       t == '.txt' and lit, w, 'is for its format, not ' + t)
            else:
                ctx.ob(r, '%s, %s' % (f.short, name), FAMILY[name] == fam or
                       FAMILY[name] == 'default' and lit, w,
                       'is a function of its format')
        for n in g.calls():
            if not n.pred or g.cname(n) not in USES_TARGET:
                continue
            named, rest = kwargs(g, n)
            for k in ('target', 'this_target'):
                if k in named:
                    total += 1
                    t = named[k]
                    ok = TARGETS.get(t.strip("'")) == fam if "'" in t and \
                        re.fullmatch("'[^']*'", t) else \
                        fam == 'html' and 'method' in t or t == 'target'
                    if g.cname(n) == 'format_string' and fam == 'default':
                        ok = ok or t == 'None'
                    if g.cname(n) in ('url', 'add_file', 'get_url') and \
                            'method' in params(f)[0]:
                        ok = 'method' in t
                    ctx.ob(r, '%s, target of %s' % (f.short, g.cname(n)), ok,
                           ctx.where(n), 'is one of its format, not ' + t)
            if g.cname(n) == 'format_string':
                ctx.ob(r, '%s, text of a label' % f.short, fam == 'default' or
                       'target' in named or rest, ctx.where(n),
                       'is for its format')
        # names of entries and targets
        good = {'tex': ('tex', 'pdf'), 'html': ('html', 'xhtml', 'svg'),
                'default': ('txt',)}[fam]
        for c in ast.walk(f.node):
            m = re.fullmatch(r'\w*[._](html|xhtml|tex|txt|pdf|epub)', c.value
                             ) if isinstance(c, ast.Constant) and isinstance(
                                 c.value, str) else None
            if m and not lit and c.value[0] != '_':
                ctx.ob(r, '%s, %s' % (f.short, c.value), m.group(1) in good,
                       ctx.where(f), 'is for another format')
    ctx.ob(r, 'calls', total >= 80, 'disseminate/tags', 'are found')


#: what these tags nest is text, or a box of its own, also within formulas
TEXT = {'Ref', 'BaseTable', 'Toc'}


def passing(ctx):
    r = 'R02.pass'
    ctx.rule(r, 'Nested tags are rendered for the same format, with the same '
             'parameters')
    for f in formatters(ctx):
        own = f.short.split('.')[-1]
        fam = FAMILY[own]
        g = ctx.graph(f)
        par, kw = params(f)
        lit = literal(ctx, f)
        for n, name, func in format_calls(ctx, f):
            named, rest = kwargs(g, n)
            s = S(g.expand(n.term[1], n)) if isinstance(
                n.term[1], tuple) else ''
            up = 'super(' in s or re.fullmatch(r'self\.\w+', s)
            w = ctx.where(n)
            if name == 'content_to_str' and fam == 'tex' and not lit and \
                    'mathmode' in par and not rest:
                ctx.ob(r, '%s, mathmode of the content' % f.short, named.get(
                    'mathmode') == 'mathmode', w, 'is passed on')
            if name in ('html_fmt', 'xhtml_fmt') and not up and \
                    'format_func' in par:
                ctx.ob(r, '%s, function of %s' % (f.short, s[:40]), False, w,
                       'is that of the format asked for')
            if name == 'html_table' and 'format_func' in par:
                ctx.ob(r, '%s, function of %s' % (f.short, name), named.get(
                    'format_func') == 'format_func', w, 'is passed on')
            if name in ('tex_cmd', 'tex_env', 'tex_verb', 'content_to_str',
                        'tex_percentwidth', 'xhtml_percentwidth'):
                continue
            if up and kw and f.cls.name not in TEXT and fam != 'default' and not lit and not (
                    {'method', 'level', 'format_func'} <= set(named)):
                ctx.ob(r, '%s, other parameters of %s' % (f.short, name),
                       rest, w, 'are passed on')
            if fam == 'html' and name != 'format_content' and 'method' in par:
                ctx.ob(r, '%s, method of %s' % (f.short, name), named.get(
                    'method') == 'method', w, 'is passed on')
            if up and 'level' in par and fam == 'html':
                ctx.ob(r, '%s, level of %s' % (f.short, name), named.get(
                    'level') in ('level', '(level + 1)'), w, 'is passed on')
            if up and 'format_func' in par and (
                    not rest or own == 'xhtml_fmt'):
                ctx.ob(r, '%s, function of %s' % (f.short, name),
                       named.get('format_func') == 'format_func', w,
                       'is passed on')
            if fam == 'tex' and 'mathmode' in par and not any(
                    c.name in TEXT for c in ctx.repo.mro(f.cls)) and (
                    name in ('format_content', 'tex_fmt', 'tex_table')):
                ctx.ob(r, '%s, mathmode of %s' % (f.short, name),
                       named.get('mathmode') == 'mathmode', w,
                       'is passed on')


def mathmode(ctx):
    r = 'R02.math'
    ctx.rule(r, 'Math is put in math mode in text, and not again within '
             'formulas')
    total = 0
    for f in formatters(ctx):
        g = ctx.graph(f)
        if FAMILY[f.short.split('.')[-1]] != 'tex' or not any(
                n.pred and g.cname(n) == 'tex_cmd' and "'ensuremath'" in S(
                    g.expand(n.term, n)) for n in g.calls()):
            continue
        total += 1
        tr = TraceRule(ctx, r, f)
        ev = [('math', 'call', r".*tex_cmd\(.*'ensuremath'.*"),
              ('env', 'call', r'.*tex_env\(.*')]
        tr.expect('formula', [('mathmode', True)], ev, never=('math', 'env'),
                  msg='is not put in math mode again')
        out = [t for t in tr.run(ev, [('mathmode', False)])
               if t.kind == 'return']
        tr.check('text', out, lambda t: t.some('math', 'env'),
                 'is put in math mode')
    ctx.ob(r, 'math tags', total >= 5, 'disseminate/tags', 'are found')
    tr = TraceRule(ctx, r, 'Eq.__init__')
    tr.expect('equation', [], [
        ('tex', 'call', r"content_to_str\((?=.*content=self\.content)(?=.*"
         r"mathmode=True)(?=.*target='\.?tex').*\)"),
        ('bad', 'call', r'.*(content_to_str|format_content)\(.*')],
        must=('tex',), never=('bad',), msg='has the LaTeX of its content, '
        'in math mode')


def links(ctx):
    r = 'R02.links'
    ctx.rule(r, 'The links to other formats and documents are for the format '
             'of their name, set for each format')
    for c, t in (('Txtlink', '.txt'), ('Texlink', '.tex'), (
            'Pdflink', '.pdf'), ('Epublink', '.epub')):
        v = ctx.repo.class_const(ctx.cls(c), 'other_target')
        ctx.ob(r, c, S(v).strip("'") == t or getattr(
            v, 'value', None) == t, 'disseminate/tags/navigation.py',
            'is for ' + t)
    l02.navigation(ctx, r)


def entries(ctx):
    r = 'R02.entry'
    ctx.rule(r, 'The renderings of a tag are those of their format')
    for prop, fn in (('html', 'html_fmt'), ('xhtml', 'xhtml_fmt'),
                     ('tex', 'tex_fmt'), ('default', 'default_fmt'),
                     ('txt', 'default_fmt')):
        tr = TraceRule(ctx, r, 'Tag.' + prop)
        tr.expect(prop, [], [], ret=r'self\.%s\(\)' % fn,
                  msg='is that format')
        for c in ctx.repo.subclasses(ctx.cls('Tag')):
            ctx.ob(r, '%s of %s' % (prop, c.name), c.name == 'Tag' or
                   prop not in c.own, ctx.where(tr.f),
                   'is not changed by it')
    for f in formatters(ctx):
        own = f.short.split('.')[-1]
        if own not in ('html_fmt', 'xhtml_fmt', 'html_table'):
            continue
        for par, want in (('method', ('html',) if own != 'xhtml_fmt' else
                           ('xhtml', 'xml')),
                          ('format_func', ('html_fmt',) if own != 'xhtml_fmt'
                           else ('xhtml_fmt',)), ('level', (1,))):
            if par in params(f)[0]:
                d = f.default_of(par)
                ctx.ob(r, '%s, default of %s' % (f.short, par), isinstance(
                    d, ast.Constant) and d.value in want, ctx.where(f),
                    'is %s' % (want[0],))
    tr = TraceRule(ctx, r, 'content_to_str')
    T = r"(target|target\[slice\(1, None, None\)\]|target\.l?strip\('\.'\)" \
        r"|target\.removeprefix\('\.'\))"
    for dot in (True, False):
        t = T if dot else 'target'
        base = [(r"target\.startswith\('\.'\)", dot)]
        for txt in (True, False):
            out = tr.run([('fmt', 'call', r"format_content\(\*\*=kwargs, .*|"
                           r"format_content\(.*\*\*=kwargs.*"),
                          ('bad', 'call:format_content', '.*')],
                         base + [(r"%s == 'txt'" % T, txt)])
            F = r"'default_fmt'" if txt else \
                r"('_'\.join\((tuple|list)\(%s, 'fmt'\)\)|\(%s \+ '_fmt'\)|" \
                r"'\{\}_fmt'\.format\(%s\)|.*%s.*_fmt.*)" % (T, T, T, T)
            tr.check('string, dot %s, text %s' % (dot, txt), out, lambda t:
                     t.kind == 'return' and t.has('fmt') and not t.has('bad')
                     and re.match(r"''\.join\(format_content\(", S(t.value))
                     and re.search(r'content=content\b', S(t.value)) and
                     re.search(r'format_func=%s(,|\))' % F, S(t.value)),
                     'has the format of the target')
    d = tr.f.default_of('target')
    ctx.ob(r, 'string', isinstance(d, ast.Constant) and d.value in (
        '.txt', 'txt'), ctx.where(tr.f), 'is text by default')
    tr = TraceRule(ctx, r, 'format_content')
    L = r'isinstance\(content, list\)'
    for lst in (True, False):
        for one in (True, False):
            C = 'content' if lst else r'list\(content\)'
            E_ = r'elem\(%s\)' % C if lst else r'(elem\(%s\)|content)' % C
            H = r'hasattr\(%s, format_func\)' % E_
            for has in (True, False):
                out = [t for t in tr.run([
                    ('fmt', 'collect', r'getattr\(%s, format_func\)\(\*\*='
                     r'kwargs\)' % E_), ('same', 'collect', E_),
                    ('bad', 'collect', '.*')], [
                        (L, lst), (r'isinstance\(content, \(?(list|tuple).*',
                                   lst), (H, has),
                        (r'len\(.*\) == 1', one)])]
                got = [t for t in out if t.some('fmt', 'same', 'bad')]
                if lst:
                    tr.check('list, tag %s, one %s' % (has, one), got,
                             lambda t, h=has, o=one: t.kind == 'return' and
                             not t.has('bad') and t.has(
                                 'fmt' if h else 'same') and not t.has(
                                 'same' if h else 'fmt') and (
                                 S(t.value).endswith('[0]') or o is False
                                 and not S(t.value).endswith('[0]')),
                             'is formatted')
                else:
                    vals = {S(t.value) for t in out if t.kind == 'return'}
                    ctx.ob(r, 'element, tag %s, one %s' % (has, one),
                           bool(vals), ctx.where(tr.f), 'is formatted')


def block_spans(text):
    """The names of the blocks around each position with the body"""
    out, stack = [], []
    for m in re.finditer(r'\{%-?\s*(block|endblock)\b\s*(\w*)|\{\{-?\s*body'
                         r'\.(\w+)\b[^}]*\}\}', text):
        if m.group(1) == 'block':
            stack.append(m.group(2))
        elif m.group(1):
            if stack:
                stack.pop()
        else:
            out.append((m.group(3), tuple(stack)))
    return out


def templates(ctx):
    r = 'R02.templates'
    ctx.rule(r, 'The template of a format renders the body, in that format')
    base = os.path.join(ctx.repo.src, 'disseminate', 'templates')
    texts = {}
    for d, _, files in sorted(os.walk(base)):
        for fn in files:
            if os.path.splitext(fn)[1] in ('.html', '.xhtml', '.tex', '.txt'):
                p = os.path.join(d, fn)
                if 'server' in os.path.relpath(p, base).split(os.sep):
                    continue
                with open(p, encoding='utf-8') as f:
                    texts[os.path.relpath(p, base)] = f.read()

    def body(rel, depth=0):
        """Where a template renders the body: (format, blocks)"""
        t = texts.get(rel)
        if t is None or depth > 9:
            return []
        own = block_spans(t)
        m = re.search(r"""\{%-?\s*extends\s+['"]([^'"]+)""", t)
        if m is None:
            return own
        defined = set(re.findall(r'\{%-?\s*block\s+(\w+)', t))
        up = [(f, b) for f, b in body(m.group(1), depth + 1)
              if not defined & set(b)]
        below = {x for f, b in body(m.group(1), depth + 1) for x in b}
        return [(f, b) for f, b in own if b] + up

    n = 0
    for rel, t in texts.items():
        ext = os.path.splitext(rel)[1].strip('.')
        where = 'disseminate/templates/' + rel
        for m in re.finditer(r'\{[{%][^}]*?\b\w+\.(html|tex|xhtml|txt|default)'
                             r'\b(?![\'"/.\w])[^}]*\}', t):
            if re.search(r"""['"][^'"]*\.%s['"]""" % m.group(1), m.group()):
                continue
            ctx.ob(r, 'rendering in ' + rel, m.group(1) == ext or
                   {m.group(1), ext} == {'default', 'txt'}, where,
                   'is for its format: ' + m.group()[:60])
        for m in re.finditer(r"""\{%-?\s*(extends|include)\s+['"]([^'"]+)""",
                             t):
            ctx.ob(r, '%s in %s' % (m.group(1), rel), m.group(2).endswith(
                '.' + ext), where, 'is a template of its format')
            ctx.ob(r, '%s in %s' % (m.group(1), rel), m.group(2) in texts,
                   where, 'exists: ' + m.group(2))
        if os.path.basename(rel).startswith('template.'):
            n += 1
            got = body(rel)
            ctx.ob(r, 'body in ' + rel, len(got) == 1 and got[0][0] == ext,
                   where, 'is rendered once')
    ctx.ob(r, 'templates', n >= 6, 'disseminate/templates', 'are given')


def run(ctx):
    mixing(ctx)
    passing(ctx)
    mathmode(ctx)
    links(ctx)
    entries(ctx)
    templates(ctx)
