"""V01: the preview server"""
import ast
import builtins
import os
from .common import *

ASSUMPTIONS = [
    'tornado uses the first route whose whole pattern matches the path, '
    'serves files below the given path only, calls initialize with the '
    'arguments of the route, set_default_headers for every response, and '
    'escapes the values in templates']

#: Names that tornado gives to templates of request handlers
TORNADO = {'handler', 'request', 'current_user', 'locale', '_', 'translate',
           'pgettext', 'static_url', 'xsrf_form_html', 'reverse_url',
           'escape', 'xhtml_escape', 'url_escape', 'json_encode', 'squeeze',
           'linkify', 'datetime', '_tt_utf8', '_tt_string_types', 'modules',
           '_tt_modules'} | set(dir(builtins))

#: path, handler, is it a file handler, are the documents built before
ROUTES = [('/', 'TreeHandler', None), ('/checkers', 'CheckerHandler', None),
          ('/signals', 'SignalHandler', None),
          ('/media/css/base.css', 'static', None),
          ('/media/icons/menu.html.svg', 'static', None),
          ('/src/a.dm', 'PygmentizeHandler', None),
          ('/a b/c.d.dm', 'PygmentizeHandler', None),
          ('/tex/a.tex', 'PygmentizeHandler', True),
          ('/html/a.html', 'static', True), ('/a.html', 'static', True),
          ('/epub/a.epub', 'static', True), ('/pdf/a.pdf', 'static', None),
          ('/html/media/img.png', 'static', None),
          ('/html/media/css/default.css', 'static', None),
          ('/html/media/dm/a.svg', 'static', None)]


def local(ctx):
    r = 'V01.local'
    ctx.rule(r, 'The server only listens for this computer, and serves the '
             'project it was given')
    n = 0
    for f in server_functions(ctx) + [ctx.fn('preview')]:
        g = ctx.graph(f)
        for c in g.calls():
            if not c.pred or g.cname(c) not in ('listen', 'bind',
                                                'bind_sockets',
                                                'bind_unix_socket'):
                continue
            t = g.expand(c.term, c)
            if t[0] != 'call':
                continue
            n += 1
            kw = dict(t[3])
            a = kw.get('address', t[2][1] if len(t[2]) > 1 else None)
            ctx.ob(r, 'address', a is not None and a[0] == 'c' and a[1] in
                   ('127.0.0.1', 'localhost', '::1'), ctx.where(c),
                   'the address is that of this computer, not %s' % S(a))
            p = kw.get('port', t[2][0] if t[2] else None)
            ctx.ob(r, 'port', S(p) == 'port', ctx.where(c),
                   'the port that was asked for')
    ctx.ob(r, 'listen', n >= 1, 'disseminate/server/app.py',
           'the server listens')
    tr = TraceRule(ctx, r, 'run_server')
    app = r'get_app\((?=.*in_path=in_path).*\)'
    tr.expect('start', [], [
        ('listen', 'call', r'(tornado\.)?(httpserver\.)?HTTPServer\(%s\)\.'
         r'listen\(.*|%s\.listen\(.*' % (app, app)),
        ('start', 'call', r'.*(IOLoop\.(instance|current)\(\)\.start'
         r'|asyncio\.run|serve_forever|run_forever)\(.*')],
        must=('listen', 'start'), order=[('listen', 'start')],
        msg='the application is served')
    tr = TraceRule(ctx, r, 'get_app')
    tr.expect('application', [], [
        ('app', 'call', r'TornadoApp\((?=.*in_path=in_path).*\)')],
        must=('app',), ret=r'TornadoApp\(.*', msg='with the given project')
    tr = TraceRule(ctx, r, 'preview')
    tr.expect('command', [], [
        ('run', 'call', r'run_server\((?=.*in_path=in_path)(?=.*port=port)'
         r'.*\)')], must=('run',), msg='with the given path and port')
    cls = ctx.cls('TornadoApp')
    tr = TraceRule(ctx, r, 'TornadoApp.__init__')
    tr.expect('routes', [], [
        ('init', 'call', r'(.*super\(.*\)|tornado\.web\.Application|'
         r'Application)(\.__init__)?\((self, )?(handlers=)?url_patterns, '
         r'.*kwargs\)')],
        must=('init',), msg='all routes and settings are used')


def server_functions(ctx):
    from sa.core import all_functions
    return [f for f in all_functions(ctx.repo)
            if f.module.name.startswith('disseminate.server')
            and f.parent is None and f.short in ctx.known]


def sources(ctx):
    r = 'V01.source'
    ctx.rule(r, 'Source files are only read and shown when they are below '
             'the current directory or the directories of a loaded project')
    tr = TraceRule(ctx, r, 'PygmentizeHandler.get')
    ok = r'(self|PygmentizeHandler)\.is_allowed\((filepath=)?(pathlib\.)?' \
         r'Path\(path\)\)'
    ev = [('read', 'call', r'(pathlib\.)?Path\(path\)\.(read_text|open)\('
           r'.*\)|open\(path.*\)'),
          ('other', 'call:read_text|open|read_bytes|get_content', '.*'),
          ('write', 'call', r'self\.write\(.*highlight\(.*'),
          ('out', 'call:write|finish|render', '.*')]
    tr.expect('outside', [(ok, False)], ev, error='HTTPError',
              never=('read', 'other', 'write', 'out'), exc=False,
              msg='files that are not allowed are not read')
    tr.expect('outside status', [(ok, False)], [
        ('403', 'call', r'(tornado\.web\.)?HTTPError\((status_code=)?40[34]'
         r'\b.*')], must=('403',), error='HTTPError', msg='they are forbidden')
    tr.expect('inside', [(ok, True)], ev, must=('read', 'write'),
              never=('other',), order=[('read', 'write')],
              msg='files that are allowed are shown')
    # every read, on whatever path, is after the test
    for t in tr.run([('ok', 'call:is_allowed', '.*'),
                     ('read', 'call:read_text|open|read_bytes', '.*')], []):
        s = seq(t)
        ctx.ob(r, 'order', 'read' not in s or 'ok' in s[:s.index('read')],
               ctx.where(tr.f), 'no file is read before the test')
    tr = TraceRule(ctx, r, 'PygmentizeHandler.is_allowed')
    inn = [('.* in .*parents.*', True), (r'.*\.is_relative_to\(.*\)', True)]
    out = [('.* in .*parents.*', False), (r'.*\.is_relative_to\(.*\)', False)]
    got = tr.run([], inn)
    ctx.ob(r, 'below a directory', any(S(t.value) == 'True' or ' in ' in
                                       S(t.value) for t in got),
           ctx.where(tr.f), 'is allowed')
    tr.expect('not below any', out, [], ret='False', msg='is not allowed')
    seen = set()
    for n in tr.g.nodes:
        for t in terms_of(n):
            for c in subterms(t):
                if c[0] == 'cmp' and c[1] in ('in', 'not in') and \
                        'parents' in S(c[3]):
                    a, b = S(tr.g.expand(c[2], n)), S(tr.g.expand(c[3], n))
                elif c[0] == 'call' and call_name(c) == 'is_relative_to':
                    e = tr.g.expand(c, n)
                    a, b = S(e[2][0]) if e[2] else '', S(e[1][1])
                else:
                    continue
                if (a, b) in seen:
                    continue
                seen.add((a, b))
                ctx.ob(r, 'compared directory', '.resolve()' in a,
                       ctx.where(n), "without '..' and links: %s" % a)
                ctx.ob(r, 'compared file', 'filepath' in b and
                       '.resolve()' in b, ctx.where(n),
                       "without '..' and links: %s" % b)
    ctx.ob(r, 'test', len(seen) >= 1, ctx.where(tr.f),
           'the path is compared with the directories')
    # the directories
    attrs, paths, key, more = set(), set(), False, set()
    for n in tr.g.nodes:
        if not n.pred:
            continue
        for t in terms_of(n):
            for c in subterms(tr.g.expand(t, n)):
                if c[0] == 'attr' and c[1][0] == 'elem' and \
                        "store" in S(c[1]):
                    attrs.add(c[2])
                    key = key or "'root_documents'" in S(c[1])
                if c[0] == 'attr' and c[2] in ('parent', 'anchor', 'root',
                                               'parents', 'drive') and \
                        'filepath' not in S(c[1]) and \
                        'store' in S(c[1]):
                    more.add(c[2])
                if c[0] == 'call' and call_name(c) in (
                        'Path', 'cwd', 'getcwd', 'home', 'expanduser'):
                    a = c[2][0] if c[2] else ('c', '.')
                    if a[0] == 'c' or call_name(c) != 'Path':
                        paths.add(a[1] if call_name(c) == 'Path' else
                                  '.' if 'cwd' in call_name(c) else S(c))
    ctx.ob(r, 'directories of projects', {'project_root', 'target_root'} <=
           attrs and key, ctx.where(tr.f), 'are allowed: %s' %
           ', '.join(sorted(attrs)))
    ctx.ob(r, 'directories above', not more, ctx.where(tr.f),
           'are not allowed: %s' % ', '.join(sorted(more)))
    ctx.ob(r, 'other directories', paths <= {'.', ''} and paths and
           attrs <= {'project_root', 'target_root'}, ctx.where(tr.f),
           'only the current one is allowed: %s' % ', '.join(
               sorted(map(str, paths | attrs))))


def terms_of(n):
    for x in (n.term, getattr(n, 'value', None)):
        if isinstance(x, tuple):
            yield x


def routes(ctx):
    r = 'V01.routes'
    ctx.rule(r, 'Each kind of page has its handler; documents are built '
             'before their rendered files are shown; all handlers send the '
             'safe headers and the error pages')
    m = ctx.repo.module('server.urls')
    res = []
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.List, ast.Tuple)):
            els = [route(ctx, m, e) for e in n.elts]
            els = [e for e in els if e]
            if len(els) > len(res):
                res = els
    ctx.ob(r, 'routes', len(res) >= 5, m.relpath, 'are listed')
    base = ctx.cls('ServerHandler')
    for path, want, reload in ROUTES:
        hit = next((e for e in res if re.match(
            e[0] if e[0].endswith('$') else e[0] + '$', path)), None)
        if hit is None:
            ctx.ob(r, 'route ' + path, False, m.relpath, 'has a handler')
            continue
        cls, kw, line = hit[1], hit[2], hit[3]
        where = '%s:%s' % (m.relpath, line)
        name = getattr(cls, 'name', None)
        static = name is not None and any(
            str(b).endswith('StaticFileHandler') for b in ext_bases(ctx, cls))
        ctx.ob(r, 'route ' + path, static if want == 'static'
               else name == want, where, 'is handled by %s, not %s' % (
                   want, name or cls))
        if want == 'static':
            p = kw.get('path')
            ctx.ob(r, 'files of ' + path, p is not None and
                   (p == "'.'" or p == 'server_static_path'), where,
                   'the files of the server or of the current directory, '
                   'not %s' % p)
            ctx.ob(r, 'media of ' + path, (p == 'server_static_path') ==
                   path.startswith('/media/'), where, 'from the right place')
        if reload is not None:
            ctx.ob(r, 'build of ' + path, kw.get('reload_projects') == 'True',
                   where, 'the documents are built before')
    for e in res:
        if not hasattr(e[1], 'name'):
            ctx.ob(r, 'handler %s' % e[0], False, m.relpath,
                   'a handler of the server, not %s' % e[1])
            continue
        c = e[1]
        ctx.ob(r, 'handler %s of %s' % (c.name, e[0]),
               ctx.repo.is_subclass(c, base), m.relpath,
               'has the headers and error pages of the server')
        for meth in ('initialize', 'set_default_headers', 'write_error',
                     'get_template_path'):
            f = ctx.repo.lookup(c, meth)[-1]
            own = ctx.repo.lookup(base, meth)[-1]
            ctx.ob(r, '%s of %s' % (meth, c.name), f is not None and (
                f is own or super_called(ctx, f, meth)), m.relpath,
                'is that of the server')
        # the class of the server comes before those of tornado
        bs = [ctx.repo.resolve_expr(c.module, b) for b in c.node.bases]
        ext = [i for i, b in enumerate(bs) if not hasattr(b, 'node')]
        own = [i for i, b in enumerate(bs) if hasattr(b, 'node')]
        if own and ext:
            ctx.ob(r, 'bases of ' + c.name, min(own) < min(ext),
                   '%s' % c.module.relpath,
                   'the class of the server is the first')
    tr = TraceRule(ctx, r, 'ServerHandler.initialize')
    ev = [('load', 'call', r'load_projects\((app=)?self\.application\)'),
          ('super', 'call', r'super\(.*\)(\.initialize)?\(.*kwargs\)')]
    tr.expect('build', [('reload_projects', True)], ev,
              must=('load', 'super'), msg='the documents are built')
    tr.expect('no build', [('reload_projects', False)], ev, must=('super',),
              never=('load',), msg='nothing is built')
    tr = TraceRule(ctx, r, 'ServerHandler.set_default_headers')
    tr.expect('headers', [], [
        ('no', 'call', r"self\.(set|add)_header\((name=)?'X-Content-Type-"
         r"Options', (value=)?'nosniff'\)")], must=('no',),
        msg='browsers do not guess the type of files')


def super_called(ctx, f, meth):
    g = ctx.graph(f)
    return any(c.pred and g.cname(c) == meth and 'super' in S(
        g.expand(c.term, c)) for c in g.calls())


def ext_bases(ctx, c):
    out = []
    for k in ctx.repo.mro(c):
        for b in k.node.bases:
            x = ctx.repo.resolve_expr(k.module, b)
            if not hasattr(x, 'node'):
                out.append(getattr(x, 'dotted', str(x)))
    return out


def route(ctx, m, e):
    """(pattern, handler, arguments, line) of a route"""
    if isinstance(e, ast.Call):
        args, kws = list(e.args), {k.arg: k.value for k in e.keywords}
    elif isinstance(e, ast.Tuple):
        args, kws = list(e.elts), {}
    else:
        return None
    pat = args[0] if args else kws.get('pattern')
    cls = args[1] if len(args) > 1 else kws.get('handler')
    opt = args[2] if len(args) > 2 else kws.get('kwargs')
    if pat is None or cls is None:
        return None
    try:
        pat = ctx.repo.eval_const(m, pat)
    except Exception:
        return None
    if not isinstance(pat, str):
        return None
    kw = {}
    if isinstance(opt, ast.Dict):
        for k, v in zip(opt.keys, opt.values):
            if isinstance(k, ast.Constant):
                kw[k.value] = ast.unparse(v)
    elif isinstance(opt, ast.Call):
        kw = {k.arg: ast.unparse(k.value) for k in opt.keywords}
    c = ctx.repo.resolve_expr(m, cls)
    return pat, c, kw, e.lineno


def projects(ctx):
    r = 'V01.projects'
    ctx.rule(r, 'The documents are loaded once, for the path of the server, '
             'and all of them are built each time; every one is in the tree')
    tr = TraceRule(ctx, r, 'load_projects')
    env = r"Environment\.create_environments\((?=.*root_path=(app\.settings" \
        r"(\.get\('in_path'.*\)|\['in_path'\]))).*\)"
    has = r"'root_documents' in store"
    ev = [('load', 'call', env), ('other', 'call:create_environments', '.*'),
          ('doc', 'collect', r'elem\(%s\)\.root_document' % env),
          ('set', 'store', r"store\['root_documents'\] = .*"),
          ('each', 'iter', r"store\['root_documents'\]|comp\(.*|list\(.*"),
          ('build', 'call', r"(elem\(store\['root_documents'\]\)|"
           r"elem\(%s\)\.root_document|elem\(.*\))\.build\(\)" % env)]
    out = tr.run(ev, [(has, True)])
    tr.check('loaded', out, lambda t: not t.some('load', 'set', 'other') and
             t.kind == 'return' and S(t.value) == "store['root_documents']",
             'the documents are not loaded again')
    tr.check('built', [t for t in out if seq(t).count('each') >= 2],
             lambda t: t.has('build'), 'each document is built')
    tr.check('looked at', out, lambda t: t.has('each'),
             'the documents are built each time')
    tr.expect('not loaded', [(has, False)], ev, must=('load', 'set'),
              never=('other',), order=[('load', 'set')],
              msg='the documents are loaded')
    out = tr.run(ev, [(has, False)])
    tr.check('new ones are built', [t for t in out if t.has('doc')],
             lambda t: t.has('build') or seq(t)[-1] != 'each' or
             seq(t).count('each') < 2, 'each new document is built')
    tr.check('returned', out, lambda t: t.kind == 'return' and
             t.value != ('c', None), 'the documents are returned')
    ctx.ob(r, 'building', any(t.has('doc', 'build') for t in out),
           ctx.where(tr.f), 'new documents are built')
    tr = TraceRule(ctx, r, 'TreeHandler.tree_to_dict')
    D = r'elem\((enumerate\()?docs(, 1)?\)*(\[1\])?'
    vals = {'number': r'.*', 'level': 'level', 'title': D + r'\.title',
            'src_filepath': D + r'\.src_filepath',
            'project_root': D + r'\.project_root', 'targets': r'.*',
            'date': '.*'}
    ev = [('each', 'iter', r'(enumerate\()?docs.*')]
    ev += [(k, 'store', r".*\['%s'\] = %s" % (k, v))
           for k, v in vals.items()]
    ev += [('sub', 'call', r'self\.tree_to_dict\((?=.*docs=%s\.subdocuments'
            r'\.values\(\))(?=.*level=\(level \+ 1\)).*\)' % D),
           ('subdocs', 'store', r".*\['subdocs'\] = self\.tree_to_dict.*"),
           ('put', 'collect', r'dict\(.*'),
           ('link', 'collect|call', r'.*')]
    out = [t for t in tr.run(ev[:-1], [
        (r'%s\.subdocuments is None' % D, False),
        (r'%s\.subdocuments' % D, True), ('0 < len.*', True)])
        if seq(t).count('each') >= 2]
    keys = tr_keys(ctx)
    tr.check('list', out, lambda t: t.kind == 'return' and re.fullmatch(
        r'list\(.*\)|comp\(.*', S(t.value)), 'is returned')
    tr.check('document', out, lambda t: t.has('put', 'sub', 'subdocs'),
             'each document is listed with its subdocuments')
    for k in sorted(keys):
        tr.check('key ' + k, out, lambda t, k=k: k not in vals or t.has(k) or
                 "'%s'" % k in S(t.value), 'is set')
    n = 0
    for c in tr.g.calls():
        if c.pred and tr.g.cname(c) == 'target_filepath':
            n += 1
            s = S(tr.g.expand(c.term, c))
            ctx.ob(r, 'links', re.search(
                D + r'\.target_filepath\((target=)?.*elem\(', s) is not None,
                ctx.where(c), 'of the targets of the document')
    ctx.ob(r, 'links', n >= 1, ctx.where(tr.f), 'the targets are linked')
    tr = TraceRule(ctx, r, 'TreeHandler.get')
    L = r'load_projects\((app=)?self\.application\)'
    tr.expect('page', [], [
        ('render', 'call', r'self\.render\(.*self\.tree_to_dict\((docs=)?%s'
         r'\).*' % L)], must=('render',), msg='shows all projects')


def tr_keys(ctx):
    """The keys of documents that the template of the tree uses"""
    d = template_dir(ctx)
    out = set()
    for fn in ('tree.html', 'tree_item.html'):
        p = os.path.join(d, fn)
        if os.path.isfile(p):
            with open(p) as f:
                out |= set(re.findall(r"\b(?:doc|project)\['(\w+)'\]",
                                      f.read()))
    return out - {'subdocs'}


def template_dir(ctx):
    return os.path.join(ctx.repo.src, 'disseminate', 'templates', 'server')


# Tornado templates

def parts(text):
    return re.findall(r'\{%\s*(.*?)\s*%\}|\{\{\s*(.*?)\s*\}\}', text, re.S)


def names_of(expr, mode='eval'):
    """The free names of a python expression"""
    tree = ast.parse(expr.strip(), mode=mode)
    bound, used = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            (used if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        if isinstance(n, ast.arg):
            bound.add(n.arg)
    return used - bound


def template(ctx, r, d, fn, given, seen, where):
    """Check that a template uses only known names"""
    if (fn, tuple(sorted(given))) in seen:
        return
    seen.add((fn, tuple(sorted(given))))
    p = os.path.join(d, fn)
    if not os.path.isfile(p):
        ctx.ob(r, 'template ' + fn, False, where, 'exists')
        return
    with open(p) as f:
        text = f.read()
    scope = [set(given)]
    bad = []

    def need(expr, mode='eval'):
        try:
            un = names_of(expr, mode)
        except SyntaxError:
            bad.append('%s is not an expression' % expr)
            return
        for x in un:
            if x not in TORNADO and not any(x in s for s in scope):
                bad.append('%s is not a known name' % x)
    for stmt, expr in parts(text):
        if expr:
            need(expr)
            continue
        if not stmt:
            continue
        op, _, rest = stmt.partition(' ')
        if op in ('for', 'while', 'if', 'try', 'block', 'apply'):
            scope.append(set())
        if op == 'for':
            try:
                lp = ast.parse('for %s: pass' % rest).body[0]
                need(ast.unparse(lp.iter))
                scope[-1] |= {x.id for x in ast.walk(lp.target)
                              if isinstance(x, ast.Name)}
            except SyntaxError:
                bad.append('%s is not a loop' % stmt)
        elif op in ('if', 'elif', 'while'):
            need(rest)
        elif op == 'set':
            need(rest, 'exec')
            scope[-1] |= {x.id for x in ast.walk(ast.parse(rest))
                          if isinstance(x, ast.Name) and
                          isinstance(x.ctx, ast.Store)}
        elif op in ('raw', 'autoescape'):
            bad.append('%s is not escaped' % (rest or op))
        elif op in ('import', 'from'):
            scope[0] |= {(a.asname or a.name).split('.')[0] for x in
                         ast.walk(ast.parse(stmt)) if hasattr(x, 'names')
                         for a in x.names}
        elif op == 'end':
            if len(scope) > 1:
                scope.pop()
        elif op in ('include', 'extends'):
            template(ctx, r, d, rest.strip('"\' '),
                     set().union(*scope), seen, where)
        elif op == 'module':
            try:
                call = ast.parse(rest, mode='eval').body
            except SyntaxError:
                bad.append('%s is not a call' % rest)
                continue
            if call.args and isinstance(call.args[0], ast.Constant):
                for k in call.keywords:
                    need(ast.unparse(k.value))
                template(ctx, r, d, call.args[0].value,
                         {k.arg for k in call.keywords}, seen, where)
        elif op == 'extends':
            pass
    ctx.ob(r, 'template ' + fn, not bad, os.path.join(
        'disseminate/templates/server', fn), 'uses names that it is given '
        'and escapes them: %s' % ', '.join(bad[:3]))


def templates(ctx):
    r = 'V01.templates'
    ctx.rule(r, 'Every page that is rendered has a template, which only uses '
             'values that it is given, and these are escaped')
    d = template_dir(ctx)
    n, seen = 0, set()
    for f in server_functions(ctx):
        g = ctx.graph(f)
        for c in g.calls():
            if not c.pred or g.cname(c) not in ('render', 'render_string'):
                continue
            t = g.expand(c.term, c)
            if t[0] != 'call' or not t[2]:
                continue
            given = set()
            for k, v in t[3]:
                if k in ('', '**', None):
                    given |= stored_keys(f, ctx)
                else:
                    given.add(k)
            for fn in text_values(t[2][0]):
                n += 1
                template(ctx, r, d, fn, given, seen, ctx.where(c))
    ctx.ob(r, 'pages', n >= 4, 'disseminate/server', 'are rendered')
    tr = TraceRule(ctx, r, 'ServerHandler.write_error')
    ev = [('page', 'call', r'self\.render\((?=.*status_code=status_code).*\)'),
          ('other', 'call:render', '.*')]
    e404, e500 = r'status_code == 404', r'status_code == 500'
    for nm, a, b, want in (('404', True, False, '404.html'),
                           ('500', False, True, '500.html'),
                           ('other', False, False, 'error.html')):
        tr.expect('page ' + nm, [(e404, a), (e500, b)], [
            ('page', 'call', r"self\.render\((?=(template_name=)?'%s')"
             r"(?=.*status_code=status_code)(?=.*kwargs).*\)" % re.escape(
                 want)), ('other', 'call:render', '.*')],
            exactly={'page': 1}, never=('other',),
            msg='is the one of the status')
    exc = [(r"kwargs\.get\('exc_info'.*\) is None", False),
           (r"len\(kwargs\.get\('exc_info'.*\)\) == 3", True),
           (r"kwargs\.get\('exc_info'.*\)", True)]
    E_ = r"kwargs\.get\('exc_info'.*\)"
    tr.expect('error', exc, [
        ('exc', 'store', r"kwargs\['exc'\] = %s\[1\]" % E_),
        ('type', 'store', r"kwargs\['exc_type'\] = .*%s\[[01]\].*__name__" % E_),
        ('tb', 'store', r"kwargs\['traceback'\] = .*%s\[2\].*" % E_)],
        must=('exc', 'type', 'tb'), msg='is described on the page')
    more = [('exc', 'store', r"kwargs\['exc'\] = .*"),
            ('first', 'store', r"kwargs\['exc_msg'\] = .*\.args\[0\]")]
    tr.expect('no error', [(r"kwargs\.get\('exc_info'.*\) is None", True),
                           (r"kwargs\.get\('exc_info'.*\)", False)], more,
              never=('exc', 'first'), msg='is described when there is none')
    for nm, some in (('message', True), ('no message', False)):
        tr.expect(nm, exc + [(r'0 < len\(.*args\)', some),
                             (r'len\(.*args\) == 0', not some),
                             (r'.*\.args', some)], more,
                  must=('first',) if some else (),
                  never=() if some else ('first',),
                  msg='is that of the error')
    tr = TraceRule(ctx, r, 'ServerHandler.get_template_path')
    tr.expect('path', [], [], ret=r'(str|os\.fspath)\(server_template_path\)',
              msg='is that of the templates of the server')


def text_values(t):
    if t[0] == 'c' and isinstance(t[1], str):
        return [t[1]]
    if t[0] in ('phi', 'ifexp'):
        return [x for u in t[1:] if isinstance(u, tuple)
                for x in text_values(u)]
    return []


def stored_keys(f, ctx):
    """The keys that are stored in the keyword arguments of a function, or
    in its helpers"""
    from sa.core import all_functions
    out = set()
    fs = [f] + [h for h in all_functions(ctx.repo) if h.module is f.module
                and h.short not in ctx.known]
    for n in (x for h in fs for x in ast.walk(h.node)):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
                isinstance(n.slice, ast.Constant):
            out.add(n.slice.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('update', 'setdefault'):
            out |= {k.arg for k in n.keywords if k.arg}
            for a in n.args:
                if isinstance(a, ast.Dict):
                    out |= {k.value for k in a.keys
                            if isinstance(k, ast.Constant)}
                if isinstance(a, ast.Constant):
                    out.add(a.value)
    return out


def run(ctx):
    local(ctx)
    sources(ctx)
    routes(ctx)
    projects(ctx)
    templates(ctx)
