"""F01: files that documents name are found where they are looked for"""
from .common import *

ASSUMPTIONS = [
    'is_file tells whether a file exists; files are not removed between '
    'being found and being read']

P = r"(path|pathlib\.Path\((path\.strip\(\)\.splitlines\(\)\[0\]|" \
    r"\.\.\.[a-z.()]*(\[0\])?|'')\)|pathlib\.\.\.)"
LIST = r".*context\['paths'\].*"
EL = r"elem\(%s\)" % LIST


def find(ctx):
    r = 'F01.find'
    ctx.rule(r, 'A path that is returned is one that exists: the path '
             'itself, otherwise the first of the directories of the context '
             'in order that has it; otherwise an error, or None')
    tr = TraceRule(ctx, r, 'paths.utils:find_file')
    new = r'(\(%s / %s\)|%s\.use_subpath\(\(?(%s\.subpath / )?%s\)+)' % (
        EL, P, EL, EL, P)
    pre = [(r"'paths' in context", True),
           (r"isinstance\(context\['paths'\], list\)", True)]
    ev = [('own', 'call', P + r'\.is_file\(\)'),
          ('dirs', 'iter', LIST),
          ('try', 'call', new + r'\.is_file\(\)'),
          ('badtry', 'call', r'.*\.(is_file|exists|is_dir)\(\)'),
          ('abs', 'call', P + r'\.is_absolute\(\)')]
    isstr, isp = r'isinstance\(path, str\)', r'isinstance\(.*, pathlib\.Path\)'
    own, ab = P + r'\.is_file\(\)', P + r'\.is_absolute\(\)'
    there = new + r'\.is_file\(\)'
    hs = r"hasattr\(%s, 'use_subpath'\)" % EL
    nosub = EL + r'\.subpath is None'
    for s in (True, False):
        nm = 'text' if s else 'path'
        src = r"pathlib\.Path\(.*\)" if s else 'path'
        b = pre + [(isstr, s), (isp, True), (r'path\.strip\(\)\.splitlines\('
                                              r'\)', True)]
        for err in (True, False):
            e = b + [('raise_error', err)]
            kw = {'error': 'FileNotFoundError'} if err else {'ret': 'None'}
            n2 = '%s, raise_error=%s' % (nm, err)
            tr.expect(n2 + ': exists', e + [(own, True)], ev, ret=src,
                      must=('own',), never=('badtry', 'try'),
                      msg='the path itself')
            tr.expect(n2 + ': absolute', e + [(own, False), (ab, True)], ev,
                      never=('try', 'badtry'),
                      msg='an absolute path is not looked for elsewhere',
                      **kw)
            rel = e + [(own, False), (ab, False)]
            for sp in (True, False):
                for sub in (True, False) if sp else (None,):
                    fs = rel + [(hs, sp)] + ([(nosub, not sub)] if sp
                                             else [])
                    want = r'\(?' + EL + r' / ' + src + r'\)?' if not sp \
                        else EL + r'\.use_subpath\(' + (
                            r'\(' + EL + r'\.subpath / ' if sub else '') + \
                        src + r'\)+'
                    n3 = n2 + (': directory' if not sp else
                               ': project path, subpath %s' % sub)
                    out = tr.run(ev, fs + [(there, True)])
                    tr.check(n3, [t for t in out if t.has('try')], lambda t,
                             w=want: t.kind == 'return' and
                             re.fullmatch(w, S(t.value)) and
                             seq(t).count('try') == 1 and
                             not t.has('badtry'),
                             'the file in the directory is returned')
                    out = tr.run(ev, fs + [(there, False)])
                    tr.check(n3 + ', missing', [
                        t for t in out if t.has('try')], lambda t, er=err:
                        (raises(t, 'FileNotFoundError') if er else
                         t.kind == 'return' and t.value == ('c', None)) and
                        not t.has('badtry'), 'a file that is not there is '
                        'not returned, the next directory is tried')
            tr.expect(n2 + ': no directories', [
                x for x in rel], ev + [('never', 'call', 'x')],
                allow=('FileNotFoundError',), ret=r'None|.*',
                msg='the search ends', minimum=0 if err else 1)
    for err in (True, False):
        kw = {'error': 'FileNotFoundError'} if err else {'ret': 'None'}
        tr.expect('not a path, raise_error=%s' % err, pre + [
            (isstr, False), (isp, False), ('raise_error', err)], ev,
            never=('own', 'try', 'dirs'), msg='other objects have no file',
            **kw)
    # what the directories are: the current one, then those of the context
    g = tr.g
    n_it = 0
    for n in g.nodes:
        if n.kind == 'iter' and n.pred:
            s = S(g.expand(n.term, n))
            if "context['paths']" in s:
                n_it += 1
                ctx.ob(r, 'directories', re.fullmatch(
                    r"(\(list\('\.'\) \+ )?(list\()?context\['paths'\]\)*|"
                    r"list\('\.', star\(context\['paths'\]\)\)", s)
                    is not None, ctx.where(n), 'in the order of the context, '
                    'not %s' % s)
    ctx.ob(r, 'search', n_it >= 1, ctx.where(tr.f), 'the directories are '
           'searched')
    # with raise_error=False, errors of the file system are not raised
    r = 'F01.quiet'
    ctx.rule(r, 'Text that cannot be a file name is not found, without an '
             'error')
    for n in g.calls():
        if n.pred and g.cname(n) == 'is_file':
            ctx.ob(r, 'is_file of ' + S(g.expand(n.term[1][1], n))[:50],
                   bool({'OSError', 'Exception', 'IOError',
                         'EnvironmentError'} & caught(n)), ctx.where(n),
                   'names that are too long are handled')
    f = ctx.fn('paths.utils:find_file')
    d = f.default_of('raise_error')
    ctx.ob(r, 'raise_error', d is not None and
           ctx.repo.eval_const(f.module, d) is True, ctx.where(f),
           'an error by default')
    for n in g.nodes:
        if n.kind == 'raise' and n.pred and n.term is not None and \
                'FileNotFoundError' not in S(g.expand(n.term, n)):
            out = tr.run([], pre + [('raise_error', False)], exc=True)
            ctx.ob(r, 'errors', not any(
                t.kind == 'raise' and not raises(t, 'AssertionError') and
                t.node is n for t in out), ctx.where(n),
                'no error is raised when none is wanted')


def streams(ctx):
    r = 'F01.text'
    ctx.rule(r, 'Each line of a text is looked for as a file, only found '
             'files are listed, in order; what is read is the file, or the '
             'text when it names none')
    tr = TraceRule(ctx, r, 'paths.utils:find_files')
    pre = [(r"'paths' in context", True),
           (r"isinstance\(context\['paths'\], list\)", True)]
    L = r'(str\()?string\)?(\.strip\(\))?\.splitlines\(\)'
    E = r'elem\(%s\)' % L
    F = r'find_file\((?=.*context=context)(?=.*path=%s)(?=.*raise_error=' \
        r'False).*\)' % E
    ev = [('each', 'iter', L), ('find', 'call', F),
          ('put', 'collect', F), ('other', 'collect', '.*')]
    for name, empty, none in (('file', False, False), ('no file', False, True)):
        fs = pre + [(E + r" == ''", empty), (E, not empty),
                    (F + ' is None', none), (F, not none)]
        out = [t for t in tr.run(ev, fs) if seq(t).count('each') >= 2]
        tr.check(name, out, lambda t: t.has('find') and
                 ('put' in seq(t)) is not none and 'other' not in seq(t)
                 and t.kind == 'return', 'found files are listed')
    tr.expect('result', pre, ev, ret=r'(?!None$).*', msg='are returned')
    tr = TraceRule(ctx, r, 'paths.utils:load_io_stream')
    X = 'filepath_or_buffer'
    ist = lambda c: r'isinstance\(%s, %s\)' % (X, c)
    FF = r'find_files\((?=.*context=context)(?=.*string=%s).*\)' % X
    rd = r'(io\.)?StringIO\(%s\.read_text\((encoding=.*)?\)\)'
    tr.expect('stream', [(ist(r'io\.IOBase'), True)], [], ret=X,
              msg='streams are used as they are')
    tr.expect('path', [(ist(r'io\.IOBase'), False),
                       (ist(r'pathlib\.Path'), True), (ist('str'), False)],
              [], ret=rd % X, msg='the contents of the file')
    s = [(ist(r'io\.IOBase'), False), (ist(r'pathlib\.Path'), False),
         (ist('str'), True)]
    tr.expect('text with a file', s + [
        (FF, True), (r'len\(%s\)' % FF, True), (r'0 < len\(%s\)' % FF, True),
        (r'len\(%s\) == 0' % FF, False)], [],
        ret=r'load_io_stream\((?=.*context=context)(?=.*%s=%s\[0\]).*\)|' % (
            X, FF) + rd % (FF + r'\[0\]'), msg='the first file is read')
    tr.expect('text', s + [
        (FF, False), (r'len\(%s\)' % FF, False), (r'0 < len\(%s\)' % FF,
                                                  False),
        (r'len\(%s\) == 0' % FF, True)], [],
        ret=r'(io\.)?StringIO\(%s\)' % X, msg='the text itself')
    tr.expect('other', [(ist('.*'), False)], [], error='ValueError',
              msg='other objects are an error')


def uses(ctx):
    r = 'F01.uses'
    ctx.rule(r, 'Images, data and code are taken from the files found for '
             'the document, others are reported')
    tr = TraceRule(ctx, r, 'Code.__init__')
    F = r'find_files\((?=.*context=self\.context)(?=.*string=self\.content)' \
        r'.*\)'
    some = [(r'len\(%s\)' % F, True), (r'0 < len\(%s\)' % F, True), (F, True),
            (r'len\(%s\) == 0' % F, False)]
    none = [(r'len\(%s\)' % F, False), (r'0 < len\(%s\)' % F, False),
            (F, False), (r'len\(%s\) == 0' % F, True)]
    ev = [('sup', 'call', r'super\(.*\)\.__init__\(.*\)'),
          ('find', 'call', F), ('read', 'call', r'elem\(%s\)\.read_text\(.*'
                                r'\)' % F),
          ('lines', 'collect', r'elem\(%s\)\.read_text\(.*\)' % F),
          ('set', 'store', r"self\.content = '\\n'\.join\("
           r'(?!.*(slice\(|sorted\(|reversed\(|set\()).*'),
          ('other', 'store', r'self\.content = .*')]
    tr.expect('code from files', some, ev, must=('sup', 'find', 'set'),
              never=('other',), order=[('sup', 'find'), ('find', 'set')],
              msg='the text of the files is shown')
    tr.expect('code', none, ev, must=('sup', 'find'), never=('set', 'other'),
              msg='the text is shown as it is')
    tr = TraceRule(ctx, r, 'Img.content_as_filepath')
    C = r'(content|self\.content)'
    K = r'(context|self\.context)'
    FF = r'find_files\((?=.*context=%s)(?=.*string=%s).*\)' % (K, C)
    isp, iss = r'isinstance\(%s, pathlib\.Path\)' % C, \
        r'isinstance\(%s, str\)' % C
    tr.expect('path', [(isp, True), (C + r'\.is_file\(\)', True)], [], ret=C,
              msg='the file itself')
    tr.expect('missing path', [(isp, True), (iss, False),
                               (C + r'\.is_file\(\)', False)], [],
              ret='None', msg='no file')
    tr.expect('text', [(isp, False), (iss, True), (FF, True),
                       (r'len\(%s\)' % FF, True), (r'0 < len\(%s\)' % FF,
                                                   True)], [],
              ret=FF + r'\[0\]', msg='the first file that is found')
    tr.expect('text without file', [
        (isp, False), (iss, True), (FF, False), (r'len\(%s\)' % FF, False),
        (r'0 < len\(%s\)' % FF, False)], [], ret='None', msg='no file')
    tr.expect('other', [(isp, False), (iss, False)], [], ret='None',
              msg='no file')
    # the file is the one that is converted
    tr = TraceRule(ctx, r, 'Img.add_file')
    P = r'self\.content_as_filepath\(.*?\)'
    for has in (True, False):
        fs = [(P, has), (P + ' is None', not has),
              (r'target in self\._outfilepaths', False),
              (r'isinstance\(%s, pathlib\.Path\)' % P, has)]
        tr.check('file found %s' % has, [t for t in tr.run([
            ('find', 'call', r'self\.content_as_filepath\((?P<x>.*)\)'),
            ('add', 'call', r'.*add_file\.emit\((?P<x>.*)\)')], fs)
            if t.has('add')], lambda t, has=has: t.has('find') and all(
                re.search(r'parameters=\(?(list\(|\[|tuple\(|\()' + (
                    r'self\.content_as_filepath\(' if has else
                    r'(self\.)?content\b'), e[1]) for e in t.get('add')),
            'the file that is found is used')


def run(ctx):
    find(ctx)
    streams(ctx)
    uses(ctx)
