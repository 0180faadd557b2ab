"""R05: the text of documents is not taken as markup"""
import ast
import os

from .common import *
from sa.core import all_functions
from sa.repo import External

ASSUMPTIONS = ['lxml escapes the text and attributes it writes',
               'pygments escapes the code it formats as html',
               'jinja2 and tornado escape the values shown where '
               'autoescaping is on']

PARSE = {'fromstring', 'HTML', 'XML', 'XMLID', 'parse', 'fromstringlist',
         'fragment_fromstring', 'fragments_fromstring', 'iterparse',
         'document_fromstring'}
HL = r'(pygments\.)?highlight\((code=)?.*HtmlFormatter\(.*'


def dotted(g, t):
    e = g.entity(t)
    return e.dotted if isinstance(e, External) else None


def safe(t, f):
    """Whether a term is html written by a library that escapes"""
    if t[0] == 'phi':
        return len(t) > 1 and all(safe(x, f) for x in t[1:])
    if t[0] == 'c':
        return isinstance(t[1], str) and not re.search('[<>&]', t[1])
    if t[0] == 'call':
        nm = call_name(t)
        if nm in ('decode', 'strip', 'rstrip', 'lstrip') and \
                t[1][0] == 'attr':
            return safe(t[1][1], f)
        if nm in ('tostring', 'tounicode'):
            kw = dict(t[3])
            return kw.get('method', ('c', 'xml')) != ('c', 'text')
        if nm == 'highlight':
            fm = dict(t[3]).get('formatter', t[2][2] if len(t[2]) > 2
                                else None)
            return fm is not None and html_formatter(fm)
        if nm in ('escape', 'Markup') and len(t[2]) == 1:
            return nm == 'escape' or safe(t[2][0], f)
        if nm == 'str' and len(t[2]) == 1:
            return safe(t[2][0], f)
    return False


def html_formatter(t):
    if t[0] == 'phi':
        return len(t) > 1 and all(html_formatter(x) for x in t[1:])
    return call_name(t) == 'HtmlFormatter'


def bound(f, n, g, t, depth=3):
    """A term with its variables replaced by what they are made of"""
    return g.expand(t, n)


def code(ctx):
    r = 'R05.markup'
    ctx.rule(r, 'Only html written by lxml or pygments is marked as safe')
    p = 'R05.parse'
    ctx.rule(p, 'Only text marked as safe is read as html')
    w = 'R05.environment'
    ctx.rule(w, 'Templates that write markup escape the values they show')
    marks = 0
    for f in all_functions(ctx.repo):
        if f.short not in ctx.known:
            continue
        try:
            g = ctx.graph(f)
        except RecursionError:
            continue
        parses = False
        for n in g.nodes:
            if not n.pred or n.kind != 'call' or n.inlined is not None:
                continue
            d = dotted(g, n.term[1])
            nm = g.cname(n)
            args = list(n.term[2]) + [v for _, v in n.term[3]]
            if d and d.split('.')[-1] == 'Markup' or nm == 'Markup':
                marks += 1
                v = g.expand(args[0], n) if args else ('c', '')
                ctx.ob(r, '%s: Markup' % f.short, safe(v, f), ctx.where(n),
                       'marked as safe: %s' % S(v)[:160])
            elif nm == 'literal' or nm == 'unescape' and d and \
                    d.startswith(('markupsafe', 'html')):
                ctx.ob(r, '%s: %s' % (f.short, nm), False, ctx.where(n),
                       'text is turned into markup')
            if d and d.startswith('lxml.') and d.split('.')[-1] in PARSE:
                parses = True
            if d in ('jinja2.Environment', 'jinja2.environment.Environment',
                     'jinja2.Template', 'jinja2.environment.Template',
                     'jinja2.sandbox.SandboxedEnvironment',
                     'jinja2.nativetypes.NativeEnvironment'):
                environment(ctx, w, f, g, n)
            if nm == 'overlay' and any(k == 'autoescape'
                                       for k, _ in n.term[3]):
                ctx.ob(w, '%s: overlay' % f.short, False, ctx.where(n),
                       'escaping is changed')
            if nm == 'write' and n.term[1][0] == 'attr' and f.cls and \
                    'handlers' in f.module.name and args:
                v = g.expand(args[0], n)
                ctx.ob(r, '%s: written' % f.short, safe(v, f) or
                       v[0] == 'dict', ctx.where(n), 'written: %s' % S(v)[:160])
        for n in g.nodes:
            if n.pred and n.kind == 'store' and n.target[0] == 'attr' and \
                    n.target[2] == 'autoescape':
                ctx.ob(w, '%s: autoescape' % f.short, False, ctx.where(n),
                       'escaping is changed')
        if parses:
            tr = TraceRule(ctx, p, f)
            tr.check('text that is not marked', tr.run([
                ('parse', 'call:' + '|'.join(sorted(PARSE)), r'.*(etree|html|'
                 r'lxml)\.\w+\(.*')],
                [(r'isinstance\(.*Markup.*', False),
                 (r'hasattr\(.*, \'__html__\'\)', False),
                 (r'\w+ (not )?in settings\..*|.*\.xhtml_tag_\w+', True),
                 (r'\'\w+\' in .*', True), (r'level == 1', True),
                 (r'.* is None', False)], limit=20000),
                lambda t: not t.has('parse'),
                'text is read as html without being marked as safe')
    ctx.ob(r, 'marks', marks > 0, 'src/disseminate', 'no html is marked as '
           'safe: what the templates show would be escaped twice')


def markup_templates(ctx):
    root = os.path.join(ctx.repo.src, 'disseminate', 'templates')
    out = {}
    for d, ds, fs in os.walk(root):
        for x in fs:
            out.setdefault(os.path.splitext(x)[1].lstrip('.'), []).append(
                os.path.join(d, x))
    return out


def environment(ctx, w, f, g, n):
    kw = dict(n.term[3])
    v = kw.get('autoescape')
    v = g.expand(v, n) if v is not None else ('c', False)
    exts = markup_templates(ctx)
    need = {e for e in exts if e in ('html', 'htm', 'xhtml', 'xml', 'opf',
                                     'ncx', 'svg')
            and any(os.sep + 'server' + os.sep not in x and
                    os.sep + 'media' + os.sep not in x for x in exts[e])}
    plain = {'tex', 'txt', 'asy'}
    ok, msg = False, 'escaping is off'
    if call_name(v) == 'select_autoescape':
        k = dict(v[3])
        e = k.get('enabled_extensions', v[2][0] if v[2] else
                  ('list', ('c', 'html'), ('c', 'htm'), ('c', 'xml')))
        on = {x[1].lower().lstrip('.') for x in e[1:] if x[0] == 'c'} if \
            e[0] in ('list', 'tuple', 'set') else set()
        dflt = k.get('default', v[2][3] if len(v[2]) > 3 else ('c', False))
        dis = k.get('disabled_extensions', v[2][1] if len(v[2]) > 1 else
                    ('tuple',))
        off = {x[1].lower().lstrip('.') for x in dis[1:] if x[0] == 'c'} if \
            dis[0] in ('list', 'tuple', 'set') else set()
        if e[0] not in ('list', 'tuple', 'set'):
            ok, msg = True, 'the extensions are not constant'
        else:
            miss = (set() if dflt == ('c', True) else need - on) | (
                need & off - on)
            over = plain & on | (plain - off if dflt == ('c', True) else
                                 set())
            ok = not miss and not over
            msg = 'not escaped: %s, escaped: %s' % (sorted(miss),
                                                    sorted(over))
    elif v == ('c', True):
        msg = 'LaTeX is escaped as html'
    elif v[0] in ('v', 'p', 'func', 'g', 'attr', 'call'):
        ok = v[0] in ('func', 'g')      # a function of the template's name
        msg = 'escaping is decided by %s' % S(v)
    ctx.ob(w, '%s: autoescape' % f.short, ok, ctx.where(n), msg)


def templates(ctx):
    r = 'R05.templates'
    ctx.rule(r, 'No template shows a value without escaping it')
    for ext, paths in sorted(markup_templates(ctx).items()):
        if ext not in ('html', 'htm', 'xhtml', 'xml', 'opf', 'ncx'):
            continue
        for path in sorted(paths):
            with open(path, encoding='utf-8') as fh:
                text = fh.read()
            rel = os.path.relpath(path, os.path.dirname(ctx.repo.src))
            text2 = re.sub(r'\{#.*?#\}', lambda m: '\n' * m.group().count(
                '\n'), text, flags=re.S)
            bad = None
            for m in re.finditer(r'\{\{.*?\}\}|\{%.*?%\}', text2, re.S):
                s = m.group()
                if re.search(r'\|\s*safe\b|\bMarkup\s*\(|\|\s*unescape|'
                             r'__html__', s) or re.match(
                        r'\{%[-+]?\s*(autoescape\s+(false|None|False)|raw\s+'
                        r'\w|module\s+(?!Template\())', s):
                    bad = (text2[:m.start()].count('\n') + 1, s)
                    break
            ctx.ob(r, rel, bad is None, '%s:%d' % (rel, bad[0] if bad else 1),
                   'shown without escaping: %s' % (bad[1] if bad else ''))
    s = 'R05.server'
    ctx.rule(s, 'The templates of the server escape the values they show')
    n_app = 0
    for f in all_functions(ctx.repo):
        if 'server' not in f.module.name:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.keyword) and x.arg == 'autoescape' and \
                    isinstance(x.value, ast.Constant):
                ctx.ob(s, '%s: autoescape' % f.short,
                       x.value.value not in (None, False, ''),
                       '%s:%d' % (f.path if hasattr(f, 'path') else
                                  f.module.name, x.value.lineno),
                       'escaping is off')
            if isinstance(x, ast.Call):
                n_app += 1
    ctx.ob(s, 'calls', n_app > 0, 'src/disseminate/server', 'no server code')


def relpaths(ctx):
    """Paths that come from outside are escaped"""
    r = 'R05.paths'
    ctx.rule(r, 'The path in the link of a document is escaped')
    tr = TraceRule(ctx, r, 'OtherLink.other_relpath')
    P = r'(os\.path\.)?relpath\(.*\)'
    tr.check('path', tr.run([], [
        (r'self\.(this|other)_filepath\(.*\) is None', False),
        (r'.*_filepath\(.*\) == .*_filepath\(.*', False)]),
        lambda t: t.kind == 'return' and re.fullmatch(
            r'(html\.|markupsafe\.)?escape\((s=)?%s\)' % P, S(t.value))
        is not None, 'must be escaped')


def run(ctx):
    code(ctx)
    templates(ctx)
    relpaths(ctx)
