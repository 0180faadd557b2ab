"""G01: the templates that come with the program show the documents"""
import ast
import builtins
import os

from .common import *

ASSUMPTIONS = ['Jinja2 and Tornado templates are rendered as documented: a '
               'template that extends another one only has its blocks shown']

JINJA = re.compile(r'\{#.*?#\}|\{%[-+]?\s*raw\s*[-+]?%\}.*?\{%[-+]?\s*endraw'
                    r'\s*[-+]?%\}|\{%[-+]?(.*?)[-+]?%\}|\{\{[-+]?(.*?)[-+]?'
                    r'\}\}', re.S)
OPEN = {'block', 'if', 'for', 'filter', 'call', 'macro', 'with', 'autoescape'}
SITE = ('html', 'xhtml', 'tex', 'txt')


class Template:
    """The statements and expressions of a template, by block"""

    def __init__(self, root, name):
        self.name, self.root = name, root
        self.text = open(os.path.join(root, name), encoding='utf-8').read()
        self.extends, self.includes, self.errors = None, [], []
        self.blocks = {}        # block -> list of items
        self.top = []           # the items outside of blocks
        stack, out = [], [self.top]
        guards = []
        for m in JINJA.finditer(self.text):
            line = self.text.count('\n', 0, m.start()) + 1
            st, ex = m.group(1), m.group(2)
            if ex is not None:
                out[-1].append(('expr', ex.strip(), tuple(guards), line))
            if st is None:
                continue
            words = st.split(None, 1)
            if not words:
                continue
            kw, rest = words[0], words[1].strip() if len(words) > 1 else ''
            if kw == 'extends':
                self.extends = lit(rest)
                if stack:
                    self.errors.append((line, 'extends inside of a block'))
            elif kw in ('include', 'import', 'from'):
                self.includes.append((lit(rest.split(' ')[0]), line,
                                      'ignore missing' in rest))
                out[-1].append(('include', lit(rest.split(' ')[0]),
                                tuple(guards), line))
            elif kw == 'block':
                nm = rest.split()[0]
                if nm in self.blocks:
                    self.errors.append((line, 'block %s twice' % nm))
                out[-1].append(('block', nm, tuple(guards), line))
                stack.append(('block', nm, len(guards)))
                self.blocks[nm] = []
                out.append(self.blocks[nm])
            elif kw in OPEN:
                stack.append((kw, rest, len(guards)))
                if kw in ('if', 'for'):
                    guards.append(rest)
            elif kw in ('else', 'elif'):
                if not stack or stack[-1][0] not in ('if', 'for'):
                    self.errors.append((line, kw + ' without if'))
                else:
                    guards[-1] = 'not ' + guards[-1]
            elif kw.startswith('end'):
                if not stack or kw != 'end' + stack[-1][0]:
                    self.errors.append((line, kw + ' does not match'))
                    continue
                k, _, n = stack.pop()
                del guards[n:]
                if k == 'block':
                    out.pop()
        for k, nm, _ in stack:
            self.errors.append((0, '%s %s is not ended' % (k, nm)))


def lit(text):
    m = re.match(r'''(["'])(.*?)\1''', text)
    return m.group(2) if m else None


def tree(root):
    names = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            names.append(os.path.relpath(os.path.join(d, f), root)
                         .replace(os.sep, '/'))
    return names


def templates(ctx):
    root = os.path.join(ctx.repo.src, 'disseminate', 'templates')
    if not os.path.isdir(root):
        raise AnalysisBroken('the templates are gone')
    return root


def chain(all_, t):
    """A template and the ones that it extends"""
    out = [t]
    while out[-1].extends in all_ and all_[out[-1].extends] not in out:
        out.append(all_[out[-1].extends])
    return out


def shown(all_, ch, items=None, seen=(), guards=()):
    """The expressions that a template shows, with blocks resolved"""
    base = ch[-1]
    items = base.top if items is None else items
    for kind, val, gs, line in items:
        if kind == 'expr':
            yield val, guards + gs
        elif kind == 'block' and val not in seen:
            own = next((t for t in ch if val in t.blocks), None)
            if own:
                yield from shown(all_, ch, own.blocks[val], seen + (val,),
                                 guards + gs)
        elif kind == 'include' and val in all_ and all_[val] not in ch:
            yield from shown(all_, chain(all_, all_[val]), None, seen,
                             guards + gs)


def whole(ctx):
    """The structure and contents of the templates"""
    root = templates(ctx)
    names = tree(root)
    have = set(names)
    r = 'G01.structure'
    ctx.rule(r, 'Templates are well formed, extend and include templates '
             'that there are, and set blocks that the extended ones show')
    all_ = {}
    for n in names:
        if n.split('/')[0] == 'server' or 'starters' in n.split('/') or \
                'media' in n.split('/'):
            continue
        if n.rsplit('.', 1)[-1] in SITE + ('opf', 'xml', 'ncx') and \
                not n.endswith('context.txt'):
            all_[n] = Template(root, n)
    ctx.ob(r, 'templates', len(all_) >= 10, 'templates', '%d' % len(all_))
    for n, t in all_.items():
        w = 'templates/' + n
        ctx.ob(r, n + ': form', not t.errors, w + (
            ':%d' % t.errors[0][0] if t.errors else ''), str(t.errors[:1]))
        if t.extends is not None or 'extends' in [
                k for k in re.findall(r'\{%[-+]?\s*(\w+)', t.text)]:
            ctx.ob(r, n + ': extends', t.extends in have, w,
                   'extends %s' % t.extends)
            ctx.ob(r, n + ': extends itself', chain(all_, t)[-1].extends is
                   None, w, 'the last one extends none')
        for inc, line, ok in t.includes:
            ctx.ob(r, '%s: include %s' % (n, inc), ok or inc in have,
                   '%s:%d' % (w, line), 'the included file exists')
        if t.extends in all_:
            up = chain(all_, t)[1:]
            for b in t.blocks:
                ctx.ob(r, '%s: block %s' % (n, b), any(
                    b in u.blocks for u in up) or any(
                        x[0] == 'block' and x[1] == b for v in
                        t.blocks.values() for x in v), w,
                    'the extended template has the block')
            ctx.ob(r, n + ': outside of blocks', not any(
                x[0] in ('expr', 'include') for x in t.top), w,
                'nothing outside of blocks, as it is not shown')

    r = 'G01.body'
    ctx.rule(r, 'A template shows the whole body of the document once, in '
             'the format of the template, and no tag in another format')
    n_body = 0
    for n, t in all_.items():
        w = 'templates/' + n
        parts = n.split('/')
        ext = n.rsplit('.', 1)[-1]
        fmt_ = parts[-2] if len(parts) > 1 and parts[-2] in SITE else \
            'xhtml' if 'xhtml' in parts else ext
        ex = list(shown(all_, chain(all_, t)))
        if parts[-1] == 'template.' + ext:
            body = [(e, gs) for e, gs in ex if re.match(
                r'body\b', e.replace(' ', ''))]
            n_body += 1
            ctx.ob(r, n + ': name', parts[-2] == ext, w,
                   'the template is for the format of its directory')
            ctx.ob(r, n + ': body', len(body) == 1 and not body[0][1] and
                   re.fullmatch(r'body\.%s(\s*\|\s*safe)?' % ext, body[0][0])
                   is not None, w, 'body in %s: %s' % (ext, body[:2]))
        for e, gs in ex:
            m = re.match(r'(\w+)\.(html|xhtml|tex|txt)\b', e)
            if m:
                ctx.ob(r, '%s: %s' % (n, m.group(0)), m.group(2) == fmt_, w,
                       'the format of the template')
    ctx.ob(r, 'templates with a body', n_body >= 8, 'templates',
           '%d' % n_body)
    base = ctx.repo.module('settings')
    name = 'default'
    b = base.bindings.get('default_context')
    if b and isinstance(b[-1][1], ast.Dict):
        for k, v in zip(b[-1][1].keys, b[-1][1].values):
            if isinstance(k, ast.Constant) and k.value == 'template' and \
                    isinstance(v, ast.Constant):
                name = v.value
    for f in SITE:
        ctx.ob(r, 'default template for ' + f, '%s/%s/template.%s' % (
            name, f, f) in have, 'templates', 'there is a default template')
    for nm, want in (('default/xhtml/toc.xhtml', r'toc\.xhtml'),
                     ('default/tex/eq.tex', r'eq\.tex')):
        if nm in all_:
            ex = list(shown(all_, chain(all_, all_[nm])))
            ctx.ob(r, nm, sum(1 for e, gs in ex if re.fullmatch(
                want + r'(\s*\|\s*safe)?', e) and not gs) == 1,
                'templates/' + nm, 'the contents are shown once')

    r = 'G01.entries'
    ctx.rule(r, 'Entries which need not be there are tested before they are '
             'used, and links are shown if there is the link')
    for n, t in all_.items():
        w = 'templates/' + n
        for items in [t.top] + list(t.blocks.values()):
            for kind, val, gs, line in items:
                if kind != 'expr':
                    continue
                m = re.match(r'(prev|next|\w+link)\.(\w+)', val)
                if m:
                    ctx.ob(r, '%s: %s' % (n, m.group(0)), any(
                        re.search(r'\b%s\b' % m.group(1), g_) and
                        not g_.startswith('not ') for g_ in gs),
                        '%s:%d' % (w, line), 'is tested before')
                    ctx.ob(r, '%s: %s, own test' % (n, m.group(0)), not any(
                        re.search(r'\b(?!%s\b)(prev|next|\w+link)\b' %
                                  m.group(1), g_) for g_ in gs),
                        '%s:%d' % (w, line), 'the test is of this link')

    r = 'G01.files'
    ctx.rule(r, 'The files that templates name are among the files of the '
             'template or the ones that it extends or includes')
    for n, t in all_.items():
        w = 'templates/' + n
        parts = n.split('/')
        dirs = {n.rsplit('/', 1)[0]} | {
            u.name.rsplit('/', 1)[0] for u in chain(all_, t)}
        dirs |= {d.rsplit('/', 1)[0] for d in dirs if '/' in d}
        for m in re.finditer(r'''\{\{[-+]?\s*(["'])(.*?)\1\s*\|\s*'''
                             r'''rewrite_path\s*[-+]?\}\}''', t.text):
            f = m.group(2).strip('/')
            ctx.ob(r, '%s: %s' % (n, f), any(
                d + '/' + f in have for d in dirs), '%s:%d' % (
                    w, t.text.count('\n', 0, m.start()) + 1),
                'the file exists')
        for m in re.finditer(r'''(?:href|src)=(["'])(/media/.*?)\1''', t.text):
            ctx.ob(r, '%s: %s' % (n, m.group(2)), False, '%s:%d' % (
                w, t.text.count('\n', 0, m.start()) + 1),
                'the path is made relative to the document')
    settings_(ctx, root, names)
    starters(ctx, root, names)


def settings_(ctx, root, names):
    """The context files of templates"""
    r = 'G01.settings'
    ctx.rule(r, 'The settings of templates name tags and values of labels '
             'that there are')
    tags = tag_names(ctx)
    values = label_values(ctx)
    ctx.ob(r, 'tags', len(tags) > 30 and len(values) > 10, 'tags',
           '%d tags, %d values' % (len(tags), len(values)))
    for n in names:
        if n.rsplit('/', 1)[-1] != 'context.txt':
            continue
        w = 'templates/' + n
        text = open(os.path.join(root, n), encoding='utf-8').read()
        m = re.search(r'^inactive_tags:(.*)$', text, re.M)
        for x in (m.group(1).split(',') if m else ()):
            ctx.ob(r, '%s: inactive %s' % (n, x.strip()), x.strip() in tags,
                   w, 'the tag exists')
        for x in sorted(set(re.findall(r'@label\.(\w+)', text))):
            ctx.ob(r, '%s: @label.%s' % (n, x), x in values, w,
                   'labels have the value')
        m = re.search(r'^label_fmts:\n((?:[ \t]+.*\n?)*)', text, re.M)
        for key, val in re.findall(r'^\s+(\w+):(.*)$', m.group(1) if m else '',
                                   re.M):
            ctx.ob(r, '%s: format %s' % (n, key), re.fullmatch(
                r'(ref_)?(heading|caption|document|citation)(_\w+)?', key) is
                not None, w, 'a kind of label')
            k = re.match(r'(?:ref_)?heading_(\w+?)(_(html|tex|xhtml))?$', key)
            if k:
                nums = [x for x in re.findall(r'@label\.(\w+)_number', val)
                        if x != 'tree']
                ctx.ob(r, '%s: number of %s' % (n, key), all(
                    x == k.group(1) for x in nums), w,
                    'the number is that of the kind')


def tag_names(ctx):
    out = set()
    for c in ctx.repo.classes:
        if '.tags.' not in c.module.name + '.':
            continue
        out.add(c.name.lower())
        for st in c.node.body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == 'aliases'
                    for t in st.targets):
                try:
                    out |= {x.lower() for x in ast.literal_eval(st.value)}
                except (ValueError, SyntaxError, TypeError):
                    pass
    return out


def label_values(ctx):
    out = set()
    for c in ctx.repo.classes:
        if 'label_manager' not in c.module.name:
            continue
        for st in ast.walk(c.node):
            if isinstance(st, ast.FunctionDef):
                out.add(st.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        out.add(t.id)
                    elif isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


def starters(ctx, root, names):
    """The starters of projects"""
    r = 'G01.starters'
    ctx.rule(r, 'Starters have a description and documents, and these '
             'include files, use templates and have tags that there are')
    tags = tag_names(ctx)
    have = set(names)
    found = {}
    for n in names:
        p = n.split('/')
        if 'starters' in p and len(p) > p.index('starters') + 2:
            i = p.index('starters')
            found.setdefault('/'.join(p[:i + 2]), []).append(n)
    ctx.ob(r, 'starters', len(found) >= 3, 'templates', '%d' % len(found))
    for s, files in sorted(found.items()):
        w = 'templates/' + s
        ctx.ob(r, s + ': description', s + '/description.yaml' in have, w,
               'there is a description')
        dms = [f for f in files if f.endswith('.dm')]
        ctx.ob(r, s + ': documents', dms != [], w, 'there are documents')
        for f in dms:
            text = open(os.path.join(root, f), encoding='utf-8').read()
            head = re.match(r'\s*---\n(.*?)\n---', text, re.S)
            body = text[head.end():] if head else text
            h = head.group(1) if head else ''
            m = re.search(r'^include:(.*)\n((?:[ \t]+.*\n?)*)', h + '\n', re.M)
            inc = ((m.group(1) + '\n' + m.group(2)).split() if m else [])
            for x in inc:
                ctx.ob(r, '%s: include %s' % (f, x), os.path.normpath(
                    f.rsplit('/', 1)[0] + '/' + x) in have,
                    'templates/' + f, 'the included document exists')
            m = re.search(r'^template:\s*(\S+)', h, re.M)
            if m:
                ts = re.search(r'^targets:(.*)$', h, re.M)
                ctx.ob(r, f + ': template', any(
                    x.startswith(m.group(1) + '/') for x in names),
                    'templates/' + f, 'the template exists: ' + m.group(1))
                for t in (ts.group(1).replace(',', ' ').split()
                          if ts else ()):
                    for d in {'pdf': ('tex',), 'epub': ('xhtml',)}.get(
                            t.lstrip('.'), (t.lstrip('.'),)):
                        if d not in SITE:
                            continue
                        ctx.ob(r, '%s: target %s' % (f, t), '%s/%s/template'
                               '.%s' % (m.group(1), d, d) in have,
                               'templates/' + f, 'the template has the target')
            ctx.ob(r, f + ': included', f == dms[0] or len(dms) == 1 or any(
                f.endswith('/' + x) for g_ in dms for x in includes(
                    root, g_)) or not f.count('/') > s.count('/') + 2,
                'templates/' + f, 'the document is included')


def includes(root, f):
    text = open(os.path.join(root, f), encoding='utf-8').read()
    head = re.match(r'\s*---\n(.*?)\n---', text, re.S)
    m = re.search(r'^include:(.*)\n((?:[ \t]+.*\n?)*)',
                  (head.group(1) if head else '') + '\n', re.M)
    return (m.group(1) + '\n' + m.group(2)).split() if m else []


def select(ctx):
    """The choice of templates"""
    r = 'G01.select'
    ctx.rule(r, 'The template for the target is preferred, then the one with '
             'the extension of the target and then the one that is named')
    tr = TraceRule(ctx, r, 'JinjaRender.template')
    tr.expect('template', [], [
        ('get', 'call', r'self\.jinja_environment\(\)\.(get_or_)?'
         r'select_template\(.*\)'),
        ('bad', 'store', '.*')], must=('get',), never=('bad',),
        ret=r'self\.jinja_environment\(\)\.(get_or_)?select_template\(.*\)',
        msg='the template is looked up')
    ctx.ob(r, 'template of the entries', any(
        re.search(r"self\.context(\.get\('template'|\['template'\])",
                  S(tr.g.expand(n.term, n))) for n in tr.g.nodes
        if n.pred and n.term is not None), ctx.where(tr.f),
        'the entry is used')
    n_lists = 0
    g = tr.g
    for n in g.nodes:
        if not n.pred or not isinstance(n.ast, (ast.Assign, ast.Call,
                                                ast.Return, ast.Expr)):
            continue
        for x in ast.walk(n.ast):
            if isinstance(x, (ast.List, ast.Tuple)) and len(x.elts) == 3 and \
                    all(isinstance(e, (ast.Name, ast.BinOp, ast.Call,
                                       ast.JoinedStr)) for e in x.elts):
                n_lists += 1
                forms = [origin(tr.f.node, e) for e in x.elts]
                if not all(forms):
                    continue
                named = re.compile(r'''['"/{]template(?!_file)''' +
                                   '|template_basename')
                ctx.ob(r, 'order', named.search(forms[0]) is not None,
                       ctx.where(n), 'the template for the target first: ' +
                       forms[0])
                ctx.ob(r, 'last', not named.search(re.sub(
                    r"\.(get\(|\[)?'template'", '', forms[1] + forms[2]
                    ).replace("['template']", '').replace(
                        "get('template'", '')) and
                       ('suffix' in forms[1] or "'.'" in forms[1]) and
                       'suffix' not in forms[2] and "'.'" not in forms[2],
                       ctx.where(n), 'the one that is named last')
    tr = TraceRule(ctx, r, 'rewrite_path')
    F = r"find_file\((?=.*path=stub(\.l?strip\('/'\))?[,)])(?=.*paths).*\)"
    out = tr.run([('find', 'call', F), ('bad', 'call', r'find_file\(.*')],
                 exc=False)
    links = [t for t in out if t.kind == 'return' and t.value and
             'get_url(' in S(t.value)]
    ctx.ob(r, 'rewrite_path: url', links != [], ctx.where(tr.f),
           'there is a url')
    tr.check('found', links, lambda t: t.has('find') and not t.has('bad') and
             re.search(r"\.get_url\((?=.*context=context)(?=.*target=context"
                       r"(\['target'\]|\.get\('target'.*\)))", S(t.value))
             is not None, 'the url of the file')


def origin(fn, e):
    """The expression that a name stands for, with all values it was given"""
    if isinstance(e, ast.Name):
        vals = [st.value for st in ast.walk(fn) if isinstance(st, ast.Assign)
                and any(isinstance(t, ast.Name) and t.id == e.id
                        for t in st.targets)]
        return ' ; '.join(ast.unparse(v) for v in vals)
    return ast.unparse(e)


TORNADO = {'reverse_url', 'request', 'handler', 'enumerate', 'len', 'str',
           'current_user', 'locale', 'static_url', 'xsrf_form_html', 'escape',
           'url_escape', 'json_encode', 'squeeze', 'linkify', 'datetime', '_',
           'range', 'sorted', 'list', 'dict', 'min', 'max', 'int', 'Template',
           'raw', 'None', 'True', 'False'} | set(dir(builtins))


def pages(ctx):
    """The pages of the preview server"""
    r = 'G01.pages'
    ctx.rule(r, 'The pages of the preview server are templates that there '
             'are, and have the values that the server gives them')
    root = os.path.join(templates(ctx), 'server')
    have = set(tree(root))
    given, words, used = {}, set(), set()
    n_calls = 0
    for m in ctx.repo.modules.values():
        if '.server' not in m.name:
            continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                words.add(x.value)
            if isinstance(x, ast.keyword) and x.arg:
                words.add(x.arg)
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        'render', 'render_string') and x.args:
                if not isinstance(x.args[0], ast.Constant):
                    continue
                nm = x.args[0].value
                n_calls += 1
                used.add(nm)
                kws = {k.arg for k in x.keywords}
                given.setdefault(nm, set()).update(kws)
                ctx.ob(r, 'page %s' % nm, nm in have, '%s:%d' % (
                    m.relpath, x.lineno), 'the template exists')
    used |= {w for w in words if w in have}
    ctx.ob(r, 'pages', len(used) >= 4, 'server', '%d' % len(used))
    seen = set()

    def look(nm, names):
        key = (nm, frozenset(names))
        if key in seen or nm not in have:
            return
        seen.add(key)
        w = 'templates/server/' + nm
        text = open(os.path.join(root, nm), encoding='utf-8').read()
        names, depth = set(names), []
        # names of loops are known in the whole page
        for m in re.finditer(r'\{%\s*(?:for\s+(.*?)\s+in\b|set\s+(\w+))',
                             text):
            names |= set(re.findall(r'\w+', m.group(1) or m.group(2)))
        for m in re.finditer(r'\{\{(.*?)\}\}|\{%(.*?)%\}', text, re.S):
            line = text.count('\n', 0, m.start()) + 1
            code, st = m.group(1), m.group(2)
            if st is not None:
                kw, _, rest = st.strip().partition(' ')
                if kw == 'comment':
                    continue
                if kw in ('extends', 'include'):
                    f = lit(rest.strip())
                    ctx.ob(r, '%s: %s %s' % (nm, kw, f), f in have,
                           '%s:%d' % (w, line), 'the template exists')
                    look(f, names)
                    continue
                if kw == 'module':
                    c = re.match(r'\s*Template\(\s*["\'](.*?)["\'](.*)\)',
                                 rest, re.S)
                    if c:
                        ctx.ob(r, '%s: module %s' % (nm, c.group(1)),
                               c.group(1) in have, '%s:%d' % (w, line),
                               'the template exists')
                        look(c.group(1), set(re.findall(
                            r'(\w+)\s*=', c.group(2))))
                    continue
                if kw in ('for', 'if', 'block', 'while', 'try', 'apply'):
                    depth.append(line)
                if kw == 'end':
                    ctx.ob(r, '%s: end' % nm, depth != [], '%s:%d' % (
                        w, line), 'ends a statement')
                    if depth:
                        depth.pop()
                if kw == 'for':
                    code = rest.partition(' in ')[2]
                elif kw in ('if', 'elif', 'while'):
                    code = rest
            if not code:
                continue
            try:
                e = ast.parse(code.strip(), mode='eval')
            except SyntaxError:
                continue
            bound = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and
                     isinstance(x.ctx, ast.Store)}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id not in bound:
                    ctx.ob(r, '%s: %s' % (nm, x.id), x.id in names or x.id in
                           TORNADO or x.id in words, '%s:%d' % (w, line),
                           'the server gives the value')
                if isinstance(x, ast.Subscript) and isinstance(
                        x.slice, ast.Constant) and isinstance(
                            x.slice.value, str):
                    ctx.ob(r, '%s: %s' % (nm, x.slice.value), x.slice.value in
                           words, '%s:%d' % (w, line),
                           'the server gives the entry')
        ctx.ob(r, '%s: ended' % nm, depth == [], w, 'statements are ended')
    for nm in sorted(used):
        look(nm, given.get(nm, set()))


def run(ctx):
    pages(ctx)
    select(ctx)
    whole(ctx)
