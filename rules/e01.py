"""E01: an epub file holds, and lists, all files of the book"""
import os
from .common import *
from . import base

ASSUMPTIONS = [
    'zipfile stores each file that is written under the given name',
    'The files of the package are the outfilepaths of the builders before']

#: The media types of the EPUB 3 core media types (for the formats that
#: xhtml files may use)
MEDIA = {'.xhtml': 'application/xhtml+xml', '.css': 'text/css',
         '.svg': 'image/svg+xml', '.png': 'image/png', '.jpg': 'image/jpeg',
         '.jpeg': 'image/jpeg', '.gif': 'image/gif', '.webp': 'image/webp',
         '.js': 'application/javascript', '.otf': 'font/otf',
         '.ttf': 'font/ttf', '.woff': 'font/woff', '.woff2': 'font/woff2',
         '.mp3': 'audio/mpeg', '.mp4': 'audio/mp4'}


def path_of(t):
    """A path made with / as text parts"""
    if t[0] == 'op' and t[1] == '/':
        return path_of(t[2]) + path_of(t[3])
    if t[0] == 'c' and isinstance(t[1], str):
        return [x for x in t[1].split('/') if x not in ('', '.')]
    if call_name(t) in ('Path', 'PurePath', 'PurePosixPath', 'str',
                        'joinpath') and not t[3]:
        r = path_of(t[1][1]) if call_name(t) == 'joinpath' else []
        for x in t[2]:
            r = r + path_of(x)
        return r
    return [S(t)]


def archive(ctx):
    r = 'E01.archive'
    ctx.rule(r, 'The archive starts with the stored mimetype, has the '
             'container file, the package file and every file of the book, '
             'after they were built, and counts as built only afterwards')
    tr = TraceRule(ctx, r, 'XHtml2Epub.build')
    g = tr.g

    def classify(n, env):
        ev = []
        for kind, text, t in effects(n, env):
            if kind in ('iter',):
                if t is not None and S(t) == 'self.infilepaths':
                    ev.append('files')
                if t is not None and S(t) == 'self.subbuilders':
                    ev.append('subs')
            if kind == 'withexit':
                ev.append('close')
            if kind != 'call' or t[0] != 'call':
                continue
            nm = call_name(t)
            kw = dict(t[3])
            if nm == 'scan_parameters':
                ev.append('scan')
            elif nm == 'ZipFile':
                mode = kw.get('mode', t[2][1] if len(t[2]) > 1 else None)
                f = kw.get('file', t[2][0] if t[2] else None)
                ev.append('open' if mode == ('c', 'w') and f is not None and
                          S(f) == 'self.outfilepath' else 'badopen')
            elif nm == 'build' and t[1][0] == 'attr':
                full = kw.get('complete', t[2][0] if t[2] else None)
                who = S(t[1][1])
                ok = full == ('c', True)
                if who == 'elem(self.subbuilders)':
                    ev.append('sub' if ok else 'badbuild')
                elif who == 'self.create_opf_builder()':
                    ev.append('buildopf' if ok else 'badbuild')
            elif nm == 'writestr' or nm == 'write' and len(t[2]) + len(
                    t[3]) >= 1 and t[1][0] == 'attr' and \
                    'ZipFile' in S(t[1][1]):
                args = list(t[2])
                if nm == 'writestr':
                    name = kw.get('zinfo_or_arcname', args[0] if args else
                                  ('c', None))
                    data = kw.get('data', args[1] if len(args) > 1 else
                                  ('c', None))
                    how = kw.get('compress_type', args[2] if len(args) > 2
                                 else ('c', None))
                    body = data[1] if data[0] == 'c' else None
                    if call_name(data) == 'encode' and \
                            data[1][1][0] == 'c':
                        body = data[1][1][1]
                    if call_name(data) == 'bytes' and data[2] and \
                            data[2][0][0] == 'c':
                        body = data[2][0][1]
                    if isinstance(body, bytes):
                        body = body.decode('latin-1')
                    good = path_of(name) == ['mimetype'] and \
                        body == 'application/epub+zip' and \
                        S(how).endswith('ZIP_STORED') or \
                        path_of(name) == ['mimetype'] and how == ('c', 0) \
                        and body == 'application/epub+zip'
                    ev.append('mimetype' if good else 'otherwrite')
                    continue
                src = kw.get('filename', args[0] if args else ('c', None))
                arc = kw.get('arcname', args[1] if len(args) > 1 else
                             ('c', None))
                s, p = S(src), path_of(arc)
                pk = ['self.package_subdir']
                if s.startswith('find_file('):
                    a = dict(src[3])
                    q = path_of(a.get('path', ('c', '')))
                    c = S(a.get('context', ('c', None)))
                    ev.append('container' if p == ['META-INF',
                                                   'container.xml'] and
                              q == ['xhtml', 'META-INF', 'container.xml'] and
                              c in ('self.context', 'context')
                              else 'otherwrite')
                elif s.endswith('.outfilepath') and s.startswith(
                        'self.create_opf_builder('):
                    ev.append('opf' if p == pk + [s + '.subpath'] else
                              'otherwrite')
                elif s == 'elem(self.infilepaths)':
                    either = "getattr(%s, 'subpath', %s)" % (s, s)
                    ev.append(('file', 'both') if p == pk + [either] else
                              ('file', 'sub') if p == pk + [s + '.subpath']
                              else ('file', 'raw') if p == pk + [s] else
                              'otherwrite')
                else:
                    ev.append('otherwrite')
            elif nm == 'build_needed':
                v = kw.get('reset', t[2][0] if t[2] else None)
                ev.append('done' if v == ('c', True) else 'asked')
        return ev or None

    def paths(fs):
        return ctx.trace(g, classify, facts(*fs), exc=False, limit=500)
    for sub in (True, False):
        fs = [(r"hasattr\(elem\(self\.infilepaths\), 'subpath'\)", sub)]
        out = paths(fs)
        tr.check('kept, subpath %s' % sub, out, lambda t:
                 t.kind == 'return' and S(t.value) == "'done'" and
                 all(x in seq(t) for x in ('scan', 'open', 'mimetype',
                                           'container', 'opf', 'buildopf',
                                           'close', 'done', 'files', 'subs'))
                 and not any(x in seq(t) for x in (
                     'otherwrite', 'badopen', 'badbuild')),
                 'all parts of the archive are written')
        tr.check('order, subpath %s' % sub, out, lambda t: (
            lambda s: [x for x in s if x in ('mimetype', 'container', 'opf',
                                             'file')][0] == 'mimetype' and
            s.count('mimetype') == s.count('container') == s.count('opf')
            == 1 and s.index('scan') < s.index('files') and
            s.index('subs') < s.index('open') < s.index('mimetype') and
            s.index('buildopf') < s.index('opf') and
            len(s) - 1 - s[::-1].index('close') < s.index('done') and
            all(i < len(s) - 1 - s[::-1].index('close') for i, x in
                enumerate(s) if x in ('container', 'opf', 'file')))(seq(t)),
            'mimetype first; the parts are built before they are written; '
            'the archive is closed before the build counts')
        full = [t for t in out if seq(t).count('files') >= 2]
        tr.check('each file, subpath %s' % sub, full, lambda t:
                 seq(t).count('file') == 1 and
                 t.get('file')[0][1] in ('sub' if sub else 'raw', 'both'),
                 'every file of the book is written with its path in the '
                 'package')
        subs = [t for t in out if seq(t).count('subs') >= 2]
        tr.check('subbuilders, subpath %s' % sub, subs,
                 lambda t: t.has('sub'), 'the subbuilders are built')
    c = ctx.cls('XHtml2Epub')
    # the container file refers to the package file
    f = os.path.join(ctx.repo.src, 'disseminate', 'templates', 'default',
                     'xhtml', 'META-INF', 'container.xml')
    text = open(f, encoding='utf-8').read() if os.path.exists(f) else ''
    full = re.findall(r'full-path\s*=\s*["\']([^"\']*)', re.sub(
        r'(?s)<!--.*?-->', '', text))
    ctx.ob(r, 'container.xml', len(full) == 1, 'container.xml',
           'one package file is given: %s' % full)
    o, v = ctx.repo.lookup(c, 'package_subdir')
    sub = None
    gi = S(_classterm(ctx, c, 'package_subdir'))
    m = re.fullmatch(r"(?:\w+\.)*Path\('([^']*)'\)|'([^']*)'", gi)
    sub = (m.group(1) or m.group(2)) if m else None
    tr2 = TraceRule(ctx, r, 'XHtml2Epub.create_opf_builder')
    names = set()
    for n in tr2.g.calls():
        if n.pred and tr2.g.cname(n) == 'use_subpath' and n.term[2]:
            v = tr2.g.expand(n.term[2][0], n)
            names.add(v[1] if v[0] == 'c' else S(v))
        elif n.pred and tr2.g.cname(n) == 'use_subpath':
            v = tr2.g.expand(dict(n.term[3]).get('subpath', ('c', None)), n)
            names.add(v[1] if v[0] == 'c' else S(v))
    ctx.ob(r, 'package file', [sub + '/' + x if sub else x for x in names]
           == full, 'builders/xhtml2epub.py',
           'the container file gives %s, the package file is %s in %s' %
           (full, sorted(map(str, names)), sub))


def _classterm(ctx, c, name):
    """The term of a class attribute"""
    import ast
    for k in ctx.repo.mro(c):
        for st in k.node.body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in st.targets):
                v = st.value
                if isinstance(v, ast.Constant):
                    return ('c', v.value)
                if isinstance(v, ast.Call) and len(v.args) == 1 and \
                        isinstance(v.args[0], ast.Constant):
                    return ('call', ('g', '', ast.unparse(v.func)),
                            (('c', v.args[0].value),), ())
    return ('c', None)


def manifest(ctx):
    r = 'E01.manifest'
    ctx.rule(r, 'Every format that xhtml files may use is listed in the '
             'package file, with its media type; the pages are in the '
             'reading order, title and contents first')
    tr = TraceRule(ctx, r, 'XHtml2Epub.create_opf_builder')
    g = tr.g
    deps = ctx.repo.const('settings', 'tracked_deps')
    formats = ['.xhtml'] + [x for x in deps.get('.xhtml', ())]
    CX = r'(self\._render_context|self\.context\.filter\(.*?\))'
    ev = [('list', 'store', CX + r"\['(?P<x>\w+)'\] = self\.filepath_dict_"
           r"list\((?P<y>.*)\)"),
          ('tmpl', 'store', CX + r"\['template'\] = template_name"),
          ('keep', 'store', r'self\._render_context = ' + CX),
          ('filter', 'call:filter', r'self\.context\.filter\(.*\)'),
          ('dflt', 'call', CX + r"\.setdefault\('(?P<x>\w+)', .*\)"),
          ('new', 'call', r"self\.find_builder_cls\(in_ext='\.render'\)\("
           r"(?=.*env=self\.env)(?=.*context=%s)(?=.*outfilepath=self\."
           r"outfilepath\.use_subpath\(.*\))(?=.*render_ext='\.opf')"
           r"(?=.*use_cache=True).*\)" % CX)]
    lists = {}
    for n in g.nodes:
        if n.kind != 'store' or not n.pred or n.target[0] != 'sub' and \
                n.target[0] != 'item':
            continue
        k = g.expand(n.target[2], n)
        v = g.expand(n.term, n)
        if call_name(v) == 'filepath_dict_list' and k[0] == 'c':
            kw = dict(v[3])
            sx = kw.get('suffix', v[2][1] if len(v[2]) > 1 else None)
            fp = kw.get('filepaths', v[2][0] if v[2] else None)
            if sx is not None and sx[0] == 'c':
                lists[k[1]] = (sx[1], fp, n)
    by = {}
    for k, (sx, fp, n) in lists.items():
        by.setdefault(sx, []).append(k)
    path = os.path.join(ctx.repo.src, 'disseminate', 'templates')
    d = ctx.fn('XHtml2Epub.create_opf_builder')
    t = ctx.repo.eval_const(d.module, d.default_of('template_name'))
    f = os.path.join(path, *t.split('/')) if isinstance(t, str) else ''
    text = open(f, encoding='utf-8').read() if os.path.isfile(f) else ''
    text = re.sub(r'(?s)<!--.*?-->|\{#.*?#\}', '', text)
    ctx.ob(r, 'template', bool(text), 'create_opf_builder',
           'the template %s' % t)
    # loops of the template
    loops = {}
    for m in re.finditer(r'(?s)\{%-?\s*for\s+(\w+)\s+in\s+(\w+)\s*-?%\}(.*?)'
                         r'\{%-?\s*endfor\s*-?%\}', text):
        loops.setdefault(m.group(2), []).append((m.group(1), m.group(3),
                                                 m.start()))
    man = text.find('<manifest'), text.find('</manifest')
    sp = text.find('<spine'), text.find('</spine')
    for fmt_ in formats:
        ks = by.get(fmt_, [])
        ctx.ob(r, 'list of %s files' % fmt_, len(ks) == 1,
               ctx.where(d), 'the %s files are given to the package file' %
               fmt_)
        for k in ks[:1]:
            items = [(v, b) for v, b, i in loops.get(k, ())
                     if man[0] < i < man[1]]
            ok = len(items) == 1
            ctx.ob(r, 'items of %s files' % fmt_, ok, t,
                   'the %s are listed once' % k)
            if not ok:
                continue
            v, b = items[0]
            attrs = dict(re.findall(r'([\w-]+)\s*=\s*"([^"]*)"',
                                    b[b.find('<item'):]))
            ctx.ob(r, 'item of %s files' % fmt_, b.count('<item') == 1 and
                   re.fullmatch(r'\{\{\s*%s\.subpath\s*\}\}' % v,
                                attrs.get('href', '')) and
                   re.fullmatch(r'\{\{\s*%s\.id\s*\}\}' % v,
                                attrs.get('id', '')) and
                   MEDIA.get(fmt_) == attrs.get('media-type'), t,
                   'path, id and media type: %s' % attrs)
            if fmt_ == '.xhtml':
                ctx.ob(r, 'contents page', re.search(
                    r'\{%%-?\s*if\s+%s\.is_toc\s*-?%%\}\s*properties="nav"'
                    r'\s*\{%%-?\s*endif' % v, b) is not None, t,
                    'the contents page is the navigation document')
    for k in by.get('.xhtml', [])[:1]:
        items = [(v, b) for v, b, i in loops.get(k, ())
                 if sp[0] < i < sp[1]]
        ok = len(items) == 1 and re.search(
            r'<itemref\s+idref\s*=\s*"\{\{\s*%s\.id\s*\}\}"' % items[0][0],
            items[0][1])
        ctx.ob(r, 'reading order', bool(ok), t,
               'every page is in the reading order once')
    mu = re.search(r'unique-identifier\s*=\s*"([^"]+)"', text)
    ctx.ob(r, 'identifier', mu and re.search(
        r'<dc:identifier\s+id="%s">[^<]*\{\{\s*uuid\s*\}\}' % mu.group(1),
        text) is not None, t, 'the book has its identifier')
    for k, tag in (('title', 'dc:title'),):
        ctx.ob(r, tag, re.search(r'<%s[^>]*>\s*\{\{\s*%s\s*\}\}' % (tag, k),
                                 text) is not None, t, 'the book has its title')
    ctx.ob(r, 'modified', re.search(
        r'property="dcterms:modified">\s*\{\{\s*date\s*\}\}', text)
        is not None, t, 'the book has its date')
    for known in (True, False):
        fs = [(r'self\._render_context', known),
              (r'self\._render_context is None', not known)]
        out = tr.run(ev, fs, limit=3000)
        tr.check('package builder, context made %s' % known, out, lambda t_:
                 t_.kind == 'return' and 'tmpl' in seq(t_) and
                 'new' in seq(t_) and 'keep' in seq(t_) and
                 ('filter' in seq(t_)) is not known and
                 len({e[1] for e in t_.get('list')}) >= len(lists) and
                 {e[1] for e in t_.get('dflt')} >= {'uuid', 'title', 'date'}
                 and all(seq(t_).index('new') > i for i, e in enumerate(
                     seq(t_)) if e in ('list', 'tmpl', 'dflt')) and
                 re.fullmatch(r"self\.find_builder_cls\(in_ext='\.render'\)"
                              r'\(.*\)', S(t_.value)),
                 'the package file is rendered with the lists')
    # the context keeps the identifier and has what the template shows
    for n in g.calls():
        if n.pred and g.cname(n) == 'filter' and n.term[1][0] == 'attr' and \
                S(g.expand(n.term[1][1], n)) == 'self.context':
            v = g.expand(n.term[2][0] if n.term[2] else
                         dict(n.term[3]).get('keys', ('c', None)), n)
            ks = {x[1] for x in v[1:] if x[0] == 'c'} \
                if v[0] in ('list', 'tuple', 'set') else set()
            ctx.ob(r, 'entries', {'paths', 'title', 'date', 'epub'} <= ks,
                   ctx.where(n), 'the entries of the book: %s' % sorted(ks))


def order(ctx, r='E01.files'):
    """Which files, in which order"""
    ctx.rule(r, 'All files of the parameters are listed once, with title '
             'and contents pages first, each under the path it has in the '
             'archive')
    tr = TraceRule(ctx, r, 'XHtml2Epub.create_opf_builder')
    g = tr.g
    P = r'self\.(parameters|infilepaths)'

    # the sequence of files given to the lists: a concatenation whose parts
    # together are the parameters with a suffix
    def parts(v):
        if v[0] == 'op' and v[1] == '+':
            return parts(v[2]) + parts(v[3])
        return [v]
    n_lists = 0
    lists = set()
    for n in g.calls():
        if not n.pred or n.kind != 'call' or \
                g.cname(n) != 'filepath_dict_list':
            continue
        n_lists += 1
        kw = dict(n.term[3])
        fp = kw.get('filepaths', n.term[2][0] if n.term[2] else ('c', None))
        v = g.expand(fp, n)
        s = S(v)
        lists.add(s)
        ctx.ob(r, 'order of the lists', not re.search(
            r'\b(sorted|set|reversed|slice)\(', s), ctx.where(n),
            'in the order of the parameters')
        ctx.ob(r, 'files of the lists', re.search(P, s) is not None,
               ctx.where(n), 'made of the parameters')
        if v[0] == 'op':
            ps = parts(v)
            ctx.ob(r, 'parts of the lists', len(ps) >= 2 and all(
                re.search(P, S(x)) for x in ps), ctx.where(n),
                'title, contents and the others')
    ctx.ob(r, 'same files', len(lists) == 1, 'builders/xhtml2epub.py',
           'all files are looked through for each of the lists')
    ctx.ob(r, 'lists', n_lists >= 3, 'builders/xhtml2epub.py',
           '%d lists' % n_lists)
    # a file that is neither the title nor the contents, and those that are
    el = r'elem\((comp\(list, .*|self\.(parameters|infilepaths))\)'
    nm = r'(%s|elem\(.*\))\.name' % el
    for name, ti, to, infront in (('title', True, False, True),
                                  ('contents', False, True, True),
                                  ('other', False, False, False)):
        fs = [(nm + r" == 'title\.xhtml'", ti),
              (nm + r" == ('toc\.xhtml'|self\.toc_filename)", to),
              (r"elem\(.*\) in .*", infront),
              (r"hasattr\(.*, 'suffix'\)", True),
              (r'isinstance\(.*\)', True),
              (r'self\._render_context', True)]
        out = tr.run([('put', 'collect', r'elem\(.*\)'),
                      ('head', 'iter', r'.*')], fs, limit=3000)
        most = max([seq(t).count('head') for t in out] or [0])
        full = [t for t in out if seq(t).count('head') == most]
        # once with the parameters, then once in front or among the others
        tr.check('%s page' % name, full, lambda t: seq(t).count('put') >= 2,
                 'the %s page is listed' % name, minimum=1)
        tr.check('%s page once' % name, full, lambda t:
                 seq(t).count('put') == 2, 'the %s page is listed once' %
                 name)
    tr = TraceRule(ctx, r, 'XHtml2Epub.filepath_dict_list')
    E = r'elem\(filepaths\)'
    for same in (True, False):
        for toc in (True, False):
            fs = [(E + r'\.suffix == suffix', same),
                  (E + r'\.name == self\.toc_filename', toc)]
            ev = [('each', 'iter', r'filepaths'),
                  ('put', 'collect', r"dict\((?=.*tuple\('id', (?P<x>'toc'|"
                   r"slugify\(.*%s\.subpath\)+))(?=.*tuple\('subpath', (str\("
                   r"|os\.fspath\()?os\.path\.normpath\(%s\.subpath\)+)(?=.*"
                   r"'is_toc').*\)" % (E, E)),
                  ('other', 'collect', r'.*')]
            out = [t for t in tr.run(ev, fs) if seq(t).count('each') >= 2]
            tr.check('suffix %s, contents %s' % (same, toc), out, lambda t:
                     ('put' in seq(t)) is same and 'other' not in seq(t) and
                     all((e[1] == "'toc'") is toc for e in t.get('put')),
                     'files of the format are listed with id and path')
    tr = TraceRule(ctx, r, 'XHtml2Epub.parameters')
    # all the parameters, each file once
    P = r'.*\.parameters(\.fget\(self\)|\.__get__\(self.*\))?'
    EL = r'elem\(%s\)' % P
    for name, path, seen, keep in (('text', False, False, True),
                                   ('new file', True, False, True),
                                   ('known file', True, True, False)):
        fs = [(r"hasattr\(%s, 'resolve'\)" % EL, path),
              (r'isinstance\(%s, .*\)' % EL, path),
              (EL + r'\.resolve\(\) in .*', seen)]
        ev = [('each', 'iter', P),
              ('res', 'collect', EL + r'\.resolve\(\)'),
              ('asked', 'call', EL + r'\.resolve\(\)'),
              ('put', 'collect', EL)]
        out = [t for t in tr.run(ev, fs) if seq(t).count('each') >= 2]
        tr.check(name, out, lambda t: ('put' in seq(t)) is keep and
                 ('res' in seq(t)) is (path and not seen) and
                 ('asked' in seq(t)) is path, 'the parameter is %s' % ('kept' if keep else 'there once'))
    # the same name of the contents page everywhere
    c = ctx.cls('XHtml2Epub')
    toc = ctx.repo.class_const(c, 'toc_filename')
    ctx.ob(r, 'toc_filename', toc == 'toc.xhtml', 'builders/xhtml2epub.py',
           'the name of the contents page is %r' % (toc,))
    for spec in ('EpubBuilder.has_toc_xhtml',
                 'EpubBuilder.create_toc_xhtml_builder'):
        f = ctx.fn(spec)
        gg = ctx.graph(f)
        texts = ' '.join(S(gg.expand(n.term, n)) for n in gg.nodes
                         if n.pred and n.term)
        ctx.ob(r, f.short + ': name', repr(toc) in texts, ctx.where(f),
               'the contents page has the name the package file expects')
    path = os.path.join(ctx.repo.src, 'disseminate', 'templates')
    d = ctx.fn('EpubBuilder.create_toc_xhtml_builder')
    t = ctx.repo.eval_const(d.module, d.default_of('template_name'))
    f = os.path.join(path, *t.split('/')) if isinstance(t, str) else ''
    text = open(f, encoding='utf-8').read() if os.path.isfile(f) else ''
    text = re.sub(r'(?s)<!--.*?-->|\{#.*?#\}', '', text)
    ctx.ob(r, 'contents template', re.search(
        r'(?s)<nav[^>]*epub:type="toc"[^>]*>\s*\{\{\s*toc\.xhtml\s*\}\}\s*'
        r'</nav>', text) is not None and 'xmlns:epub=' in text, t,
        'the contents are the navigation element')


def required(ctx):
    r = 'E01.required'
    ctx.rule(r, 'The formats that epub files may contain are those that are '
             'taken from the pages, and the files are from all documents')
    tr = TraceRule(ctx, r, 'EpubBuilder.xhtml_filepaths')
    g = tr.g
    seen = 0
    for n in g.nodes:
        if n.kind != 'test' or not n.pred:
            continue
        t = g.expand(n.term, n)
        while t[0] == 'not':
            t = t[1]
        if t[0] == 'cmp' and t[1] in ('in', 'not in') and S(t[2]).endswith('.suffix'):
            seen += 1
            s = S(t[3])
            ctx.ob(r, 'formats', "tracked_deps['.xhtml']" in s and
                   "'.xhtml'" in s.replace("tracked_deps['.xhtml']", ''),
                   ctx.where(n), 'pages and the formats they use: %s' % s)
    ctx.ob(r, 'filter', seen >= 1, ctx.where(tr.f),
           'files of other formats are left out')
    ev = [('put', 'collect', r'.*'), ('each', 'iter', r'.*')]
    n_put = {}
    for v in (True, False):
        out = tr.run(ev, [(r'.*\.suffix in .*', v), ('xhtml_builders', True)],
                     limit=3000)
        n_put[v] = max([seq(t).count('put') for t in out] or [0])
    ctx.ob(r, 'kept', n_put[True] > n_put[False], ctx.where(tr.f),
           'files of the formats are kept, others are not')
    tr = TraceRule(ctx, r, 'XHtml2Epub.__init__')
    tr.expect('setup', [('context is None', False)], [
        ('sup', 'call', r'super\(.*\)\.__init__\((env|.*env=env\b).*\*\*='
         r'kwargs\)'),
        ('ctx', 'store', r'self\.context = context'),
        ('opf', 'call:create_opf_builder', r'self\..*'),
        ('put', 'collect', r'self\.create_opf_builder\(.*\)')],
        must=('sup', 'ctx', 'opf', 'put'), order=[
            ('sup', 'opf'), ('ctx', 'opf'), ('sup', 'ctx'), ('sup', 'put')],
        msg='the package file is a part of the book')
    tr = TraceRule(ctx, r, 'XHtml2Epub.parameters')
    tr.expect('result', [], [], ret=r'(?!None$).*', msg='are returned')
    tr = TraceRule(ctx, r, 'XHtml2Epub.filepath_dict_list')
    tr.expect('result', [], [], ret=r'(?!None$).*', msg='are returned')


def book(ctx):
    """The parts of the book"""
    r = 'E01.book'
    ctx.rule(r, 'The book has the pages of all documents, the files they use '
             'and a contents page, which are built before it is, and it is '
             'copied to its place')
    tr = TraceRule(ctx, r, 'EpubBuilder.find_or_create_xhtml_builders')
    D = r'self\.context\.document\.documents_list\((?P<x>.*?)\)'
    E = r'elem\(self\.context\.document\.documents_list\(.*?\)\)'
    made = r'XHtmlBuilder\((?P<x>.*)\)'
    for has in (True, False):
        out = [t for t in tr.run([
            ('docs', 'iter', D), ('make', 'call', made),
            ('store', 'store', r".*\['\.xhtml'\] = XHtmlBuilder\(.*"),
            ('add', 'collect', r'.*(XHtmlBuilder\(|\[\'\.xhtml\'\]|get\('
             r'|pop\(|setdefault\().*')],
            [(r"'\.xhtml' in .*", has)])
            if seq(t).count('docs') >= 2]
        tr.check('documents, known %s' % has, out, lambda t, has=has: all(
            re.search(r'recursive=True|^[^,=]*, *True', e[1]) and not
            re.search('only_subdocuments=True', e[1])
            for e in t.get('docs')) and t.some('add') and (
                has or t.some('store') and all(re.search(
                    r'context=%s\.context' % E, e[1]) and re.search(
                        r"target='\.?xhtml'", e[1]) for e in t.get('make'))),
            'the builder of each document', kinds=('return',))
    tr = TraceRule(ctx, r, 'EpubBuilder.xhtml_filepaths')
    texts = [S(tr.g.expand(n.term, n)) for n in tr.g.nodes
             if n.pred and n.kind in ('iter', 'for')] + [
        S(e[1]) for t in tr.run([('each', 'iter', r'(?P<x>.*)')], [])
        for e in t.ev if e[0] == 'each']
    ctx.ob(r, 'xhtml_filepaths: files of pages', any(re.fullmatch(
        r'.*\._parallel_builder\.subbuilders', t) for t in texts),
        ctx.where(tr.f), 'the files of all builders of a page are used')
    tr = TraceRule(ctx, r, 'EpubBuilder.has_toc_xhtml')
    sub = r"(str\(elem\(.*\)\.subpath\)|elem\(.*\)\.subpath\.as_posix" \
        r"\(\)|elem\(.*\)\.subpath)"
    cond = r"(%s == (.*'toc\.xhtml'.*)|.*'toc\.xhtml'\)? == %s)" % (sub, sub)
    for v in (True, False):
        vals = {S(t.value) for t in tr.run([], [(cond, v)])
                if t.kind == 'return'}
        ctx.ob(r, 'has_toc_xhtml: subpath %s' % v, ('True' in vals) == v or
               not vals & {'True', 'False'}, ctx.where(tr.f),
               'the contents page is the one at the top')
    g = tr.g
    ctx.ob(r, 'has_toc_xhtml: top', any('.subpath' in S(g.expand(n.term, n))
                                        for n in g.nodes if n.pred and n.term),
           ctx.where(tr.f), 'a page of this name elsewhere is not the '
           'contents')
    tr = TraceRule(ctx, r, 'EpubBuilder.create_subbuilders')
    TOC = r'self\.create_toc_xhtml_builder\(.*?\)'
    HAS = r'self\.has_toc_xhtml\(.*\)'
    EP = r"self\.find_builder_cls\(in_ext='\.xhtml', out_ext='\.epub'\)\(" \
        r'(?P<x>.*)\)'
    CP = r"self\.find_builder_cls\(in_ext='\.\*', out_ext='\.\*'\)\(.*?\)"
    ev = [('pages', 'aug', r'self\.subbuilders \+= self\.find_or_create_'
           r'xhtml_builders\(\)'),
          ('pages', 'call', r'self\.subbuilders\.extend\(self\.find_or_create'
           r'_xhtml_builders\(\)\)'),
          ('tocfile', 'collect', TOC + r'\.outfilepath'),
          ('toc', 'collect', TOC), ('epub', 'call', EP),
          ('addepub', 'collect', EP), ('addcopy', 'collect', CP),
          ('copyin', 'store', CP + r'\.parameters = (list\(|tuple\(|\[)?'
           + EP + r'\.outfilepath.*'),
          ('copyin', 'call', r"self\.find_builder_cls\(in_ext='\.\*'.*"
           r'parameters=.*\.outfilepath.*'),
          ('copyout', 'store', CP + r'\.outfilepath = self\.outfilepath'),
          ('copyout', 'call', r"self\.find_builder_cls\(in_ext='\.\*'.*"
           r'outfilepath=self\.outfilepath.*')]
    for has in (True, False):
        def good(t, has=has):
            q = seq(t)
            need = ['pages', 'addepub', 'addcopy', 'copyin', 'copyout'] + (
                [] if has else ['toc', 'tocfile'])
            if any(k not in q for k in need) or has and (
                    'toc' in q or 'tocfile' in q):
                return False
            first = [q.index(k) for k in ['pages'] + (
                [] if has else ['toc']) + ['addepub', 'addcopy']]
            return first == sorted(first) and (has or q.index('tocfile') <
                                               q.index('epub'))
        tr.check('parts, contents %s' % has, tr.run(ev, [(HAS, has)]), good,
                 'the pages, the contents, the book and its copy, in order',
                 kinds=('return',))
    # the builders run in this order
    c = ctx.cls('EpubBuilder')
    names = [k.name for k in ctx.repo.mro(c) if hasattr(k, 'name')]
    ctx.ob(r, 'EpubBuilder: order', 'SequentialBuilder' in names,
           ctx.where(c), 'the parts must be built one after the other')
    tr = TraceRule(ctx, r, 'EpubBuilder.create_toc_xhtml_builder')
    tr.check('empty contents', tr.run([
        ('set', 'store', r".*\.empty_toc_kind = .*'all'.*'documents?'.*")],
        []), lambda t: t.kind == 'return' and t.has('set'),
        'the contents list the documents if there are no headings')
    tr = TraceRule(ctx, r, 'XHtml2Epub.filepath_dict_list')
    T = r'elem\(.*\)\.name == self\.toc_filename'
    for toc in (True, False):
        tr.check('id, contents %s' % toc, [t for t in tr.run([
            ('item', 'collect', r'(?P<x>.*)')], [
                (T, toc), (r'self\.toc_filename == .*', toc)])
            if t.some('item')], lambda t, toc=toc: all(re.search(
                r"'id'(: |, )'toc'" if toc else
                r"'id'(: |, )[\w.]+\((\w+=)?str\(.*\.subpath.*", e[1])
                for e in t.get('item') if "'id'" in e[1]),
            'the id is made of the path', kinds=('return',))
    tr = TraceRule(ctx, r, 'XHtml2Epub.status')
    st = r'(SequentialBuilder\.status\.fget\(self\)|super\(.*\)\.status)'
    done = [(r"(%s == 'done'|'done' == %s)" % (st, st), True)]
    ev = [('scan', 'call', r'self\.scan_parameters\(\)'),
          ('need', 'call', r'self\.build_needed\(.*\)')]
    tr.expect('missing', done + [(r'self\.missing_parameters', True),
                                 (r'len\(self\.missing_parameters\).*',
                                  True)], ev, ret=r"'missing.*'",
              msg='files that are missing')
    for need in (True, False):
        tr.expect('needed %s' % need, done + [
            (r'self\.missing_parameters', False),
            (r'self\.build_needed\(.*\)', need)], ev,
            ret="'ready'" if need else r"(%s|'done')" % st,
            must=('scan', 'need'), order=[('scan', 'need')],
            msg='it is only done if its files are unchanged')


def run(ctx):
    base.distinct(ctx, 'E01.distinct')
    archive(ctx)
    manifest(ctx)
    order(ctx)
    required(ctx)
    book(ctx)
