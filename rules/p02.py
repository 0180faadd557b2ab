"""P02: projects, documents and their files are found in their places"""
import ast

from .common import *

ASSUMPTIONS = ['Path.glob, Path.match and Path.parents are those of pathlib']


# conditions that are no choice of elements
SKIP = ('iterating(', 'True', 'False')


def collects(n):
    """Whether a node puts an element in a list, set or generator"""
    if not n.pred:
        return False
    return n.kind == 'yield' or n.kind == 'call' and n.term[1][0] == 'attr' \
        and n.term[1][2] in ('append', 'add') or n.kind == 'asg' and (
            isinstance(n.ast, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                               ast.DictComp)) or n.extra == 'item') and \
        n.term[0] != 'comp' and str(n.dst).startswith('t.')


def whole(ctx, r, tr):
    """No part of a list is taken only"""
    for n in tr.g.nodes:
        if n.pred and n.term is not None:
            t = S(tr.g.expand(n.term, n))
            ctx.ob(r, 'whole lists', 'slice(' not in t and not re.search(
                r'(?<!parents)\[-?\d+\]|\bislice\(|\.pop\(|\bnext\(', t),
                ctx.where(n), 'all are taken')


def projects(ctx):
    """The projects of a path"""
    r = 'P02.projects'
    ctx.rule(r, 'A file is a project of its own, and the projects of a '
             'directory are all document files of its topmost directories '
             'with document files')
    tr = TraceRule(ctx, r, 'Environment.create_environments')
    P = r'(pathlib\.)?Path\(root_path\)(\.expanduser\(\))?'
    new = r'(Environment|cls)\((?=.*src_filepath=%s)(?=.*target_root=' \
        r'target_root).*\)'
    ONE = r'SourcePath\((?=.*project_root=%s\.parent)(?=.*subpath=%s\.name).' \
        r'*\)' % (P, P)
    SRC = r'(Environment|cls)\._get_src_filepaths\((?=.*document_extension=' \
        r'document_extension)(?=.*root_path=%s).*\)' % P
    isf, isd = (P + r'\.is_file\(\)'), (P + r'\.is_dir\(\)')
    for nm, fs, src, made in (
            ('a file', [(isf, True), (isd, False)],
             r'((list|tuple)\(SourcePath\(.*\)\)|\[SourcePath\(.*\)\])',
             r'.*'),
            ('a directory', [(isf, False), (isd, True)], SRC, r'.*')):
        ev = [('each', 'iter', src),
              ('one', 'call', ONE),
              ('get', 'call', SRC),
              ('new', 'call', new % (r'.*')),
              ('other', 'call:Environment', '.*')]
        out = tr.run(ev, fs)
        want = 'one' if nm == 'a file' else 'get'
        tr.check(nm, out, lambda t: t.kind == 'return' and t.has(want) and
                 not t.has('get' if want == 'one' else 'one') and
                 not t.has('other') and ('Environment(' in S(t.value) or
                                         'comp(list' in S(t.value) or
                                         'cls(' in S(t.value)),
                 'is given to the projects')
        ctx.ob(r, nm, any(t.has('new') for t in out), ctx.where(tr.f),
               'a project is made of each, with the output directory')
    for n in tr.g.nodes:
        if collects(n):
            left = [S(c[0]) for c in tr.g.conds(n)
                    if 'elem(' in S(tr.g.expand(c[0], n))]
            ctx.ob(r, 'all projects', not left, ctx.where(n),
                   'none is left out by %s' % left)
    whole(ctx, r, tr)
    # the files
    tr = TraceRule(ctx, r, 'Environment._get_src_filepaths')
    g = tr.g
    globs = [n for n in g.calls() if n.pred and g.cname(n) in (
        'glob', 'rglob', 'iterdir', 'listdir', 'walk')]
    first = [n for n in globs if re.match(r'root_path\.', S(g.expand(
        n.term, n)))]
    ctx.ob(r, 'search', len(first) == 1 and (
        re.search(r"glob\(.*'\*\*'", S(g.expand(first[0].term, first[0])))
        or g.cname(first[0]) == 'rglob' or "'**/*'" in S(g.expand(
            first[0].term, first[0]))) and re.search(
                r"\*' \+ document_extension\)", S(
                    g.expand(first[0].term, first[0]))) is not None,
        ctx.where(tr.f), 'document files are looked for in all directories')
    whole(ctx, r, tr)
    second = [n for n in globs if n not in first]
    ctx.ob(r, 'files', len(second) == 1 and g.cname(second[0]) == 'glob' and
           re.search(r"glob\((str\()?((pathlib\.)?Path\()?\(?'\*' \+ "
                     r"document_extension", S(g.expand(
                         second[0].term, second[0]))) is not None,
           ctx.where(tr.f), 'the document files of the directory are taken')
    top = r'elem\(.*\)\.parents'
    par = r'elem\(elem\(.*\)\.parents\) in .*'
    # a directory is taken exactly when none of its parents has documents
    adds = [n for n in g.nodes if n.pred and (
        n.kind == 'call' and g.cname(n) in ('add', 'append') or
        collects(n)) and re.search(
            r'root_path\.', S(g.expand(n.term, n))) and not re.search(
                r'(relative_to|subpath=)', S(g.expand(n.term, n)))]
    ok = False
    ctx.ob(r, 'topmost', bool(adds), ctx.where(tr.f), 'directories are taken')
    for n in g.nodes:
        if n.pred and n.kind == 'test':
            t = S(g.expand(n.term, n))
            if re.match(r'elem\(.*\.parents\) in ', t):
                ctx.ob(r, 'topmost', re.search(
                    r'\) in .*root_path.*\.parent', t) is not None,
                    ctx.where(n), 'all directories with documents count')
    for t in tr.run([], []):
        ctx.ob(r, 'result', t.kind != 'return' or S(t.value) != 'None',
               ctx.where(tr.f), 'the documents are given')
    for n in adds:
        cs = [(S(g.expand(c[0], n)), c[1]) for c in g.conds(n)]
        cs = [c for c in cs if not c[0].startswith(SKIP)]
        tests = [(c, v) for c, v in cs if 'parents' in c]
        if not tests:
            continue
        ok = True
        ctx.ob(r, 'topmost', all(
            v is False and (re.match(r'any\(', c) or ' in ' in c or
                            ' & ' in c or 'intersection(' in c) or
            v is True and (re.match(r'all\(', c) or
                           re.search(r'isdisjoint', c) or ' not in ' in c)
            for c, v in tests), ctx.where(n),
            'taken only if no parent has documents, not %s' % tests)
        ctx.ob(r, 'topmost', len(cs) == len(tests), ctx.where(n),
               'every such directory is taken, not only if %s' % [
                   c for c in cs if c not in tests])
    # any/all over the parents may be unrolled: the outcomes by trace
    if adds and not ok:
        ev = [('add', 'call', r'set\(\)\.add\(.*|list\(\)\.append\(.*'),
              ('add', 'collect',
               r'(?!.*(\.parent$|relative_to|SourcePath)).*elem\(.*root_path.*'),
              ('parents', 'iter', top)]
        out = [t for t in tr.run(ev, [(par, False)]) if t.has('parents')]
        tr.check('topmost', out, lambda t: seq(t).index('parents') <
                 len(seq(t)) - 1 - seq(t)[::-1].index('add') if t.has('add')
                 else False, 'a directory is taken if no parent has documents')
        out = [t for t in tr.run(ev, [(par, True)]) if t.has('parents')]
        ctx.ob(r, 'topmost', any(not t.has('add') for t in out) and not any(
            t.has('add') and seq(t).count('parents') > 1 for t in out),
            ctx.where(tr.f), 'a directory is left out if a parent has '
            'documents')
    pieces = [n for n in g.calls() if n.pred and g.cname(n) == 'SourcePath'
              and 'subpath' in dict(n.term[3])]
    ctx.ob(r, 'documents', len(pieces) >= 1, ctx.where(tr.f),
           'are paths below their project')
    for n in pieces:
        kw = {k: S(g.expand(v, n)) for k, v in n.term[3]}
        ctx.ob(r, 'documents', '.relative_to(' in kw['subpath'] or
               kw['subpath'].endswith('.name'), ctx.where(n),
               'are relative to the project')
        ctx.ob(r, 'documents', kw.get('project_root', '').startswith(
            ('SourcePath(project_root=elem(', 'elem(')), ctx.where(n),
            'the project is their directory')
        cs = [S(c[0]) for c in g.conds(n) if 'parents' not in S(
            g.expand(c[0], n)) and not S(c[0]).startswith(SKIP)]
        ctx.ob(r, 'documents', not cs, ctx.where(n),
               'all files are taken, not only if %s' % cs)
    # several documents cannot have the same output directory
    tr = TraceRule(ctx, r, 'check_out_dir')
    for n in (True, False):
        for o in (True, False):
            fs = [(r'1 < len\(root_docs\)', n), (r'len\(root_docs\) > 1', n),
                  (r'len\(root_docs\) <= 1', not n),
                  ('out_dir is None', not o), ('out_dir', o)]
            out = tr.run([('it', 'iter', '.*')], fs)
            if n and o:
                tr.check('several projects', out, lambda t: raises(
                    t, 'BadParameter') or raises(t, 'UsageError'),
                    'one output directory is refused')
            else:
                tr.check('one project', out, lambda t: t.kind == 'return',
                         'is built')


def environment(ctx):
    r = 'P02.project'
    ctx.rule(r, 'The directory of a project is that of its document, its '
             'output directory is the one given or found from it, and its '
             'document is the one given')
    tr = TraceRule(ctx, r, 'Environment.__init__')
    sp = r'(pathlib\.)?Path\(src_filepath\)'
    for is_sp in (True, False):
        SRC = 'src_filepath' if is_sp else (
            r'SourcePath\((?=.*project_root=%s\.parent)(?=.*subpath=%s\.name)'
            r'.*\)' % (sp, sp))
        ROOT = r'(SourcePath\(project_root=%s\.project_root(\)?, subpath=' \
            r"'')?\)|%s\.project_root)" % (SRC, SRC)
        for given in (True, False):
            OUT = (r'(TargetPath\(target_root=target_root\)|target_root)'
                   if given else
                   r'(self|Environment)\.get_target_root\(project_root=.*'
                   r'src_filepath.*\)')
            doc = r'Document\((?=.*environment=self)(?=.*parent_context=' \
                r'parent_context)(?=.*src_filepath=%s).*\)' % SRC
            ev = [('root', 'store', r'self\.project_root = ' + ROOT),
                  ('out', 'store', r'self\.target_root = ' + OUT),
                  ('ctx', 'store', r'self\.context = %s\.context' % doc),
                  ('doc', 'store', r'self\.root_document = ' + doc),
                  ('dec', 'store', r'self\.decider = .*Decider\.__subclasses_'
                   r'_\(\).*\(env=self\)'),
                  ('scan', 'store', r'self\.scanner = Scanner'),
                  ('bad', 'store', r'self\.(project_root|target_root|'
                   r'context|root_document) = .*')]
            out = tr.run(ev, [
                (r'isinstance\(src_filepath, SourcePath\)', is_sp),
                ('target_root is None', not given),
                ('target_root', given)])
            nm = '%s, output directory %sgiven' % (
                'path of a document' if is_sp else 'other path',
                '' if given else 'not ')
            dec = [t for t in out if t.kind == 'return']
            tr.check('decider', dec, lambda t: t.has('dec', 'scan') and
                     seq(t).index('dec') < seq(t).index('ctx'),
                     'the environment has a decider and a scanner')
            out = [t for t in out if t.kind == 'return']
            tr.check(nm, out, lambda t: t.has('root', 'out', 'ctx', 'doc')
                     and not t.has('bad') and
                     seq(t).index('root') < seq(t).index('ctx') and
                     seq(t).index('out') < seq(t).index('ctx'),
                     'project, output directory and document are set')
    for n in tr.g.nodes:
        if collects(n) and 'Decider' in S(tr.g.expand(
                n.term, n)):
            cs = [(S(c[0]), c[1]) for c in tr.g.conds(n)
                  if not S(c[0]).startswith(SKIP)]
            ctx.ob(r, 'decider', len(cs) == 1 and cs[0][1] is True and
                   re.fullmatch(r'(elem\(.*\)\.__name__ == settings\.default_'
                                r'decider|settings\.default_decider == elem'
                                r'\(.*\)\.__name__)', cs[0][0]) is not None,
                   ctx.where(n), 'is the one with the name of the settings, '
                   'not %s' % cs)
    tr = TraceRule(ctx, r, 'Environment.get_target_root')
    m = r'project_root\.(match\((path_pattern=)?settings\.document_src_dire' \
        r'ctory\)|name == settings\.document_src_directory)'
    T = r'TargetPath\(target_root=%s\)'
    for v in (True, False):
        tr.expect('source directory' if v else 'other directory', [(m, v)],
                  [], ret=T % ('project_root' + (r'\.parent' if v else '')),
                  msg='is the output directory')
    tr = TraceRule(ctx, r, 'Environment.cache_path')
    C = r'SourcePath\((?=.*project_root=self\.target_root)(?=.*subpath=' \
        r'settings\.cache_path).*\)'
    ev = [('mk', 'call', C + r'\.mkdir\((?=.*exist_ok=True)(?=.*parents=True)'
           r'.*\)|os\.makedirs\(.*exist_ok=True.*'),
          ('put', 'store', r'self\._cache_path = ' + C)]
    tr.expect('first use', [(r'self\._cache_path is None', True),
                            (r'self\._cache_path', False)], ev,
              must=('mk', 'put'), ret=r'self\._cache_path|' + C,
              msg='the cache is made below the output directory')
    tr.expect('later', [(r'self\._cache_path is None', False),
                        (r'self\._cache_path', True)], ev,
              never=('put',), ret=r'self\._cache_path', msg='is kept')
    tr = TraceRule(ctx, r, 'Environment.media_path')
    tr.expect('media path', [(r'self\.context', True),
                             (r'self\.context is None', False)], [],
              ret=r"self\.context(\.get\('media_path'(, None)?\)|"
              r"\['media_path'\])", msg='is that of the document')


def documents(ctx):
    r = 'P02.document'
    ctx.rule(r, 'A document has the path it is given, below the directory of '
             'its project, and the directories of the project')
    tr = TraceRule(ctx, r, 'Document.__init__')
    p = r'((pathlib\.)?Path\()?src_filepath\)?'
    made = r'SourcePath\((?=.*project_root=environment\.project_root)(?=.*su' \
        r'bpath=%s\.relative_to\(environment\.project_root\)).*\)' % p
    cx = r'DocumentContext\((?=.*document=self)(?=.*environment=environment)' \
        r'(?=.*parent_context=parent_context)(?=.*project_root=environment\.' \
        r'project_root)(?=.*target_root=environment\.target_root).*\)'
    for is_sp in (True, False):
        ev = [('src', 'store', r'self\.src_filepath = ' + (
            'src_filepath' if is_sp else made)),
              ('badsrc', 'store', r'self\.src_filepath = .*'),
              ('ctx', 'store', r'self\.context = ' + cx),
              ('badctx', 'store', r'self\.context = .*'),
              ('load', 'call', r'self\.load\((?=.*level=level).*\)'),
              ('badload', 'call', r'self\.load\(.*'),
              ('sig', 'call', r'(signals\.)?document_created\.emit\(document='
               r'self\)')]
        tr.expect('path of a document' if is_sp else 'other path', [
            (r'isinstance\(src_filepath, SourcePath\)', is_sp)], ev,
            must=('src', 'ctx', 'load', 'sig'), order=(
                ('src', 'ctx'), ('ctx', 'load'), ('load', 'sig')),
            never=('badsrc', 'badctx', 'badload'),
            msg='the path is kept, and the document loaded')
    for nm, key in (('project_root', 'project_root'),
                    ('target_root', 'target_root'), ('mtime', 'mtime'),
                    ('label_manager', 'label_manager')):
        tr = TraceRule(ctx, r, 'Document.' + nm)
        tr.expect(nm, [], [], ret=r"self\.context(\.get\('%s'(, None)?\)|\['"
                  r"%s'\])" % (key, key), msg='is that of the context')
    tr = TraceRule(ctx, r, 'Document.doc_id')
    tr.expect('doc_id', [], [], ret=r'str\(self\.src_filepath\.subpath\)',
              msg='is the path below the project')
    # titles
    val = r"self\.context(\['%s'\]|\.get\('%s'(, None)?\))"
    for nm, other in (('title', r"str\(self\.src_filepath\.subpath\.with_"
                       r"suffix\((suffix=)?''\)\)"),
                      ('short', r'self\.title')):
        tr = TraceRule(ctx, r, 'Document.' + nm)
        v = val % (nm, nm)
        inn = (r"'%s' in self\.context" % nm, True)
        out_ = (r"'%s' in self\.context" % nm, False)
        isn = v + ' is None'
        tag = r"hasattr\(%s, 'default_fmt'\)|isinstance\(%s, (\w+\.)?Tag\)" % (
            v, v)
        tr.expect('tag as ' + nm, [inn, (isn, False), (v, True), (tag, True)],
                  [], ret=v + r'\.(default_fmt\(.*\)|default)(\.strip\(\))?',
                  msg='its text is the ' + nm)
        tr.expect('text as ' + nm, [inn, (isn, False), (v, True),
                                    (tag, False)], [],
                  ret=r'(str\()?%s\)?(\.strip\(\))?' % v,
                  msg='is the ' + nm)
        tr.expect('no ' + nm, [out_, (isn, True), (v, False)], [], ret=other,
                  msg='has the usual %s' % nm)


def targets(ctx):
    r = 'P02.targets'
    ctx.rule(r, 'The file of a document for a target is that of the builder '
             'for the target; there is an error if there is none; and the '
             'files of a document are those of all its builders')
    E = r'(\w+\.)?find_builder\.emit\((?=.*context=self[,)])%s.*\)'
    T = r'(?=.*target=target)'
    L = r'(list\()?flatten\((lst=)?%s\)\)?'
    F = L % (E % T)
    tr = TraceRule(ctx, r, 'DocumentContext.target_filepath')
    some = [(F, True), (r'len\(%s\) == 0' % F, False),
            (r'0 < len\(%s\)' % F, True)]
    none = [(a, not b) for a, b in some]
    tr.expect('builder', some, [], ret=r'(%s\[0\]|next\((iter\()?%s\)?\))\.'
              r'outfilepath' % (F, F), msg='the file is that of the builder')
    tr.check('no builder', tr.run([], none), lambda t: raises(
        t, 'TargetNotFound'), 'there is an error')
    A = L % (E % r'(?!.*target=(?!None\b))')
    tr = TraceRule(ctx, r, 'DocumentContext.target_filepaths')
    ev = [('each', 'iter', A), ('again', 'iter', r'.*\.outfilepath.*'),
          ('put', 'collect', r'.*elem\(.*\)\.outfilepath.*'),
          ('put', 'store', r'.*elem\(.*\)\.outfilepath\.suffix\] = .*'
           r'elem\(.*\)\.outfilepath')]
    out = tr.run(ev, [])
    tr.check('all targets', [t for t in out if seq(t).count('each') >= 2],
             lambda t: t.kind == 'return' and t.has('put'),
             'the files of all builders are given')
    for n in tr.g.nodes:
        if collects(n):
            left = [S(c[0]) for c in tr.g.conds(n)
                    if not S(c[0]).startswith(SKIP)]
            ctx.ob(r, 'all targets', not left, ctx.where(n),
                   'none is left out by %s' % left)
    ctx.ob(r, 'all targets', any('suffix' in S(tr.g.expand(n.term, n))
                                 for n in tr.g.nodes if n.pred and
                                 n.term is not None) or any(
        'suffix' in S(t.value) for t in out if t.kind == 'return'),
        ctx.where(tr.f), 'are listed by their format')
    for nm, ret in (('Document.target_filepath',
                     r'self\.context\.target_filepath\((target=)?target\)'),
                    ('Document.targets',
                     r'self\.context\.target_filepaths\(\)')):
        tr = TraceRule(ctx, r, nm)
        tr.expect(nm, [], [], ret=ret, msg='is that of the context')
    # the targets of a document
    tr = TraceRule(ctx, r, 'DocumentContext.targets')
    v = r"self(\['%s'\]|\.get\('%s'(, .*)?\))"
    one, many = v % ('target', 'target'), v % ('targets', 'targets')
    for nm, fs, src in (
            ('target', [("'target' in self", True),
                        ("'targets' in self", False)], one),
            ('target of both', [("'target' in self", True),
                                ("'targets' in self", True)], one),
            ('targets', [("'target' in self", False),
                         ("'targets' in self", True)], many)):
        for s in (True, False):
            LST = (r'(str_to_list\((string=)?%s\))' if s else r'%s') % src
            t_ = r'elem\(.*%s.*\)' % src
            for dot in (True, False):
                for none in (True, False):
                    fs2 = fs + [(r'isinstance\(%s, str\)' % src, s),
                                (r"'none' in .*", none),
                                (t_ + r"\.startswith\('\.'\)", dot),
                                (t_, True)]
                    what = r"\('\.' \+ %s\)" % t_ if not dot else t_
                    ev = [('each', 'iter', r'(?P<v>.*%s.*)' % src),
                          ('put', 'collect', what),
                          ('put', 'call', r'.*\.add\(%s\)' % what),
                          ('bad', 'collect', r"\('\.' \+ .*|.*startswith.*")]
                    out = tr.run(ev, fs2)
                    nn = '%s, %s, dot %s, none %s' % (nm, 'text' if s else
                                                      'list', dot, none)
                    if none:
                        tr.check(nn, out, lambda t: t.kind == 'return' and
                                 S(t.value) in ('list()', 'set()'),
                                 'there are no targets')
                        continue
                    ctx.ob(r, nn, bool(out), ctx.where(tr.f),
                           'the targets are given')
                    res = [t for t in out if t.has('put')]
                    tr.check(nn, res, lambda t: t.kind == 'return' and
                             not t.has('bad'), 'each target has one dot')
                    tr.check(nn, res, lambda t, s=s: all(
                        ('str_to_list(' in S(e[1])) is s
                        for e in t.get('each')), 'text is split')
    tr.check('no targets', tr.run([], [("'target' in self", False),
                                       ("'targets' in self", False)]),
             lambda t: t.kind == 'return', 'there are none')
    for n in tr.g.nodes:
        if collects(n):
            left = [c for c in (S(c[0]) for c in tr.g.conds(n))
                    if 'elem(' in c and not c.startswith(SKIP) and
                    "'none' in" not in c and (
                        re.search(r'\)\.(?!startswith\()\w+\([^()]*\)$', c)
                        or re.search(r"( in | [<>!=]=? )(?!''$|'\.'$)", c))]
            ctx.ob(r, 'all targets', not left, ctx.where(n),
                   'none is left out by %s' % left)


def run(ctx):
    from . import p01
    projects(ctx)
    environment(ctx)
    documents(ctx)
    targets(ctx)
