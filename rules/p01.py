"""P01: files are only written in the output directories"""
import ast
from .common import *
from sa.core import all_functions
from sa.repo import External

ASSUMPTIONS = ['Paths made from a root, a relative path without .. parts and '
               'no links stay below the root']

# operations of libraries that create, replace or remove files -> the
# position and name of the file
LIB = {'shutil.copyfile': (1, 'dst'), 'shutil.copy': (1, 'dst'),
       'shutil.copy2': (1, 'dst'), 'shutil.copytree': (1, 'dst'),
       'shutil.move': (1, 'dst'), 'shutil.rmtree': (0, 'path'),
       'shutil.make_archive': (0, 'base_name'),
       'shutil.unpack_archive': (1, 'extract_dir'),
       'os.remove': (0, 'path'), 'os.unlink': (0, 'path'),
       'os.rmdir': (0, 'path'), 'os.removedirs': (0, 'name'),
       'os.mkdir': (0, 'path'), 'os.makedirs': (0, 'name'),
       'os.link': (1, 'dst'), 'os.symlink': (1, 'dst'),
       'os.rename': (1, 'dst'), 'os.renames': (1, 'new'),
       'os.replace': (1, 'dst'), 'os.truncate': (0, 'path'),
       'os.chmod': (0, 'path'), 'os.chown': (0, 'path'),
       'os.utime': (0, 'path'), 'os.mkfifo': (0, 'path'),
       'os.open': (0, 'path'), 'os.chdir': (0, 'path'),
       'diskcache.Cache': (0, 'directory')}
# these also take away the source
MOVES = {'shutil.move': (0, 'src'), 'os.rename': (0, 'src'),
         'os.renames': (0, 'old'), 'os.replace': (0, 'src')}
REMOVES = {'shutil.rmtree', 'shutil.move', 'os.remove', 'os.unlink',
           'os.rmdir', 'os.removedirs', 'os.rename', 'os.renames',
           'os.replace', 'os.truncate', 'rmdir', 'unlink', 'rename'}
METHODS = {'write_text', 'write_bytes', 'mkdir', 'rmdir', 'unlink', 'touch',
           'symlink_to', 'hardlink_to', 'link_to', 'chmod', 'lchmod',
           'rename', 'extractall'}
OPENS = {'builtins.open', 'io.open', 'codecs.open', 'zipfile.ZipFile',
         'tarfile.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen'}


def arg(n, pos, name):
    t = n.term
    kws = dict(t[3])
    if name in kws:
        return kws[name]
    return t[2][pos] if pos < len(t[2]) else None


def sink(g, n):
    """(operation, file) for a call that changes the file system"""
    t = n.term
    e = g.entity(t[1])
    d = e.dotted if isinstance(e, External) else None
    nm = g.cname(n)
    if d in LIB:
        return d, arg(n, *LIB[d])
    if d in OPENS or d is None and nm == 'open' and t[1][0] == 'attr':
        pos = 1 if d in OPENS else 0
        m = arg(n, pos, 'mode')
        m = g.expand(m, n) if m is not None else ('c', 'r')
        if m[0] == 'c' and isinstance(m[1], str) and not set(m[1]) & set(
                'wax+'):
            return None
        return 'open', arg(n, 0, 'file') if d in OPENS else t[1][1]
    if d is None and t[1][0] == 'attr':
        if nm in METHODS or nm == 'replace' and len(t[2]) == 1 and not t[3]:
            return nm, t[1][1]
    return None


# parameters that receive output paths, checked where they are given
OUT_PARAMS = {('builders.jinja_render.run', 'outfilepath'),
              ('utils.file.link_or_copy', 'dst')}


def contained(t, f):
    """Whether a term is a file in an output directory"""
    k = t[0]
    if k == 'phi':
        return len(t) > 1 and all(contained(x, f) for x in t[1:]
                                  if x != ('c', None))
    if k == 'attr':
        if t[2] in ('outfilepath', '_outfilepath', 'cache_path',
                    'target_root', '_cache_path'):
            return True
        if t[2] == '_temp_dir' and t[1] == ('p', t[1][1]) and \
                f.short.endswith('Document.__del__'):
            return True
        if t[2] == 'parent':
            x = t[1]
            return contained(x, f) and (x[0] != 'attr' or x[2] in (
                'outfilepath', '_outfilepath'))
        if t[2] in ('db_path', '_db_path'):
            return True         # see P01.roots
        return False
    if k == 'p':
        return (f.short, t[1].split('.', 1)[1]) in OUT_PARAMS
    if k == 'op' and t[1] == '/':
        return (contained(t[2], f) or f.short.endswith('init.clone_starter')
                and S(t[2]).startswith('phi(pathlib.Path(out_dir)')) and \
            relative(t[3])
    if k == 'call':
        nm = call_name(t)
        kw = dict(t[3])
        if nm == 'generate_outfilepath':
            return True
        if nm in ('use_name', 'use_suffix', 'use_subpath', 'absolute',
                  'resolve') and t[1][0] == 'attr':
            return contained(t[1][1], f) and all(
                relative(x) for x in list(t[2]) + list(kw.values()))
        if nm in ('TargetPath', 'SourcePath'):
            root = kw.get('target_root', kw.get('project_root', t[2][0] if
                                                t[2] else None))
            if kw.get('**') or root is None or not contained(root, f):
                return False
            return all(relative(v) for n, v in kw.items() if n not in (
                'target_root', 'project_root')) and all(
                relative(v) for v in t[2][1:])
        if nm in ('Path', 'str') and len(t[2]) == 1 and not t[3]:
            return contained(t[2][0], f)
        if nm == 'copy' and not t[2] and t[1][0] == 'attr':
            return contained(t[1][1], f)
        if nm in ('get', 'enter') and t[2]:
            return False
    return False


def relative(t):
    """Names that stay below the directory they are used in"""
    if t[0] == 'c':
        return t[1] is None or isinstance(t[1], str) and not \
            t[1].startswith('/') and '..' not in t[1].split('/')
    if t[0] == 'phi':
        return all(relative(x) for x in t[1:])
    s = S(t)
    if t[0] == 'attr':
        return t[2] in ('subpath', 'name', 'stem', 'suffix', 'target',
                        'outfilepath_ext', 'cache_path', 'cache_subpath')
    if t[0] == 'ent' or t[0] == 'g':
        return True
    if t[0] == 'elem':
        return re.match(r'elem\((sorted\(|list\()*starter_filepaths\(', s) \
            is not None
    if t[0] == 'op' and t[1] in '+/':
        return relative(t[2]) and relative(t[3])
    return False


def writes(ctx):
    r = 'P01.writes'
    ctx.rule(r, 'Every operation that creates, replaces or removes files '
             'acts on an output path')
    found, n_calls = {}, 0
    for f in all_functions(ctx.repo):
        g = ctx.graph(f)
        for n in g.calls():
            if not n.pred or n.kind != 'call':
                continue
            n_calls += 1
            s = sink(g, n)
            if s is None:
                continue
            if f.short not in ctx.known:
                continue    # a helper: judged where it is called
            op, x = s
            v = g.expand(x, n) if x is not None else ('c', None)
            found.setdefault(f.short, set()).add(op)
            ctx.ob(r, '%s: %s' % (f.short, op), contained(v, f),
                   ctx.where(n), 'acts on %s, which is not an output path' %
                   S(v)[:120])
            e = MOVES.get(op)
            if op in REMOVES:
                ok = f.short.split('.')[-1] in ('link_or_copy', '__del__')
                ctx.ob(r, '%s: %s' % (f.short, op), ok and e is None,
                       ctx.where(n), 'files are not removed')
    ctx.ob(r, 'operations', len(found) >= 6 and n_calls > 300, 'builders',
           'the operations are found: %s' % sorted(found))

    # what is given to the parameters
    names = {s.rsplit('.', 1)[1]: p for s, p in OUT_PARAMS}
    for f in all_functions(ctx.repo):
        g = ctx.graph(f)
        for n in g.calls():
            nm = g.cname(n)
            if n.kind != 'call' or not n.pred or nm not in names or \
                    n.term[1][0] == 'attr' or n.term[3] == ():
                continue
            kws = dict(n.term[3])
            if names[nm] in kws and f.short in ctx.known:
                v = g.expand(kws[names[nm]], n)
                ctx.ob(r, '%s: %s' % (f.short, nm), contained(v, f),
                       ctx.where(n), 'given an output path')


def origins(ctx):
    r = 'P01.outfilepaths'
    ctx.rule(r, 'The output paths of builders are generated paths or made '
             'from them; other paths are not accepted')
    n_found = 0
    for f in all_functions(ctx.repo):
        if f.short not in ctx.known:
            continue
        g = ctx.graph(f)
        for n in g.nodes:
            if not n.pred:
                continue
            vals = []
            if n.kind == 'store' and n.target[0] == 'attr' and \
                    n.target[2] in ('outfilepath', '_outfilepath'):
                vals.append(g.expand(n.term, n))
            if n.kind == 'call' and n.inlined is None and \
                    g.cname(n) not in ('render',):
                vals += [g.expand(v, n) for k, v in n.term[3]
                         if k == 'outfilepath']
            for v in vals:
                n_found += 1
                ctx.ob(r, '%s: outfilepath' % f.short, origin(v, f),
                       ctx.where(n), 'set to %s' % S(v)[:150])
    ctx.ob(r, 'origins', n_found >= 12, 'builders', 'the paths are found')

    tr = TraceRule(ctx, r, 'Builder.__init__')
    T = r'isinstance\(outfilepath, TargetPath\)'
    ev = [('given', 'store', r'self\.(_)?outfilepath = outfilepath'),
          ('none', 'store', r'self\.(_)?outfilepath = None'),
          ('bad', 'store', r'self\.(_)?outfilepath = .*'),
          ('target', 'store', r"self\.target = target\.strip\('\.'\)"),
          ('notarget', 'store', r'self\.target = None'),
          ('badtarget', 'store', r'self\.target = .*')]
    tr.expect('path given', [(T, True)], ev, must=('given',),
              never=('none', 'bad', 'badtarget'), msg='used')
    tr.expect('other values', [(T, False)], ev, must=('none',),
              never=('given', 'bad', 'badtarget'), msg='not used')

    BLANK = [(r'isinstance\(target, str\)', False)]
    tr.expect('target given', [(T, False), (BLANK[0][0], True)], ev,
              must=('target',), never=('notarget', 'badtarget'), msg='kept')
    tr.expect('no target', [(T, False)] + BLANK, ev, must=('notarget',),
              never=('target', 'badtarget'), msg='none')
    for o in ('use_cache', 'use_media'):
        ev = [('given', 'store', r'self\.%s = %s' % (o, o)),
              ('class', 'store', r'self\.%s = self\.%s' % (o, o)),
              ('bad', 'store', r'self\.%s = .*' % o)]
        tr.expect(o, [(o + ' is None', False), (o + ' is not None', True)],
                  ev, must=('given',), never=('class', 'bad'), msg='used')
        tr.expect('no ' + o, [(o + ' is None', True),
                              (o + ' is not None', False)], ev,
                  never=('given', 'bad'), msg='that of the class')

    tr = TraceRule(ctx, r, 'link_or_copy', depth=3)
    DI = r'os\.stat\(dst\)\.st_ino'
    ev = [('rm', 'call', r'os\.remove\(dst\)'),
          ('link', 'call', r'os\.link\((src=)?src, (dst=)?dst\)'),
          ('copy', 'call', r'shutil\.copyfile\((src=)?src, (dst=)?dst\)'),
          ('stat', 'call', r'os\.stat\(dst\)')]
    DIFF = r'os\.stat\(src\)\.st_ino (==|!=) (%s|None)|(%s|None) (==|!=) ' \
        r'os\.stat\(src\)\.st_ino' % (DI, DI)
    for same in (True, False):
        fs = [(DIFF.replace('(==|!=)', '=='), same),
              (DIFF.replace('(==|!=)', '!='), not same)]
        tr.check('same file' if same else 'different file', [
            t for t in tr.run(ev, fs) if t.has('stat')],
            (lambda t: not t.some('rm', 'link', 'copy')) if same else
            (lambda t: t.some('link', 'copy')),
            'left as it is' if same else 'linked or copied')

    # the properties
    for spec, gen in (
            ('Builder.outfilepath',
             {'parameters': None, 'target': r'self\.target',
              'append': r'self\.outfilepath_append', 'ext':
              r'self\.outfilepath_ext'}),
            ('JinjaRender.outfilepath',
             {'parameters': None, 'target': r'self\.target',
              'append': r'self\.outfilepath_ext', 'ext':
              r'self\.render_ext'})):
        tr = TraceRule(ctx, r, spec)
        ev = [('make', 'call', r'.*\.parent\.mkdir\(exist_ok=True, '
               r'parents=True\)'),
              ('gen', 'call:generate_outfilepath', '.*'),
              ('mock', 'call:generate_mock_parameters', '.*')]
        known = [(r'self\._outfilepath is None', False)]
        new = [(r'self\._outfilepath is None', True)]
        out = tr.run(ev, known)
        tr.check('given', out, lambda t: S(t.value) == 'self._outfilepath'
                 and not t.some('gen', 'mock'), 'used')
        out = [t for t in tr.run(ev, new) if S(t.value) not in (
            'None', 'self._outfilepath')]

        def args(t):
            v = t.value
            if call_name(v) != 'generate_outfilepath':
                return False
            kw = {k: S(x) for k, x in v[3]}
            return kw.get('env') == 'self.env' and kw.get(
                'use_cache') == 'self.use_cache' and kw.get(
                'use_media') == 'self.use_media' and all(
                p is None or re.fullmatch(p, kw.get(k, ''))
                for k, p in gen.items()) and re.fullmatch(
                r'self\.infilepaths|self\.parameters|'
                r'generate_mock_parameters\((?=.*parameters=self\.'
                r'parameters)(?=.*env=self\.env).*\)',
                kw.get('parameters', '')) is not None
        tr.check('generated', out, args, 'from the options of the builder')
        out = tr.run(ev, new + [(r'.*\.parent\.is_dir\(\)', False),
                                (r'generate_outfilepath\(.*\)', True)])
        out = [t for t in out if S(t.value) not in ('None',
                                                    'self._outfilepath')]
        if spec.startswith('Builder'):
            for has in (True, False):
                tr.check('generated, %s' % ('files' if has else 'no files'), [
                    t for t in tr.run(ev, new + [(r'self\.infilepaths', has)])
                    if call_name(t.value) == 'generate_outfilepath'],
                    lambda t, has=has: (S(dict(t.value[3])['parameters']) ==
                                        'self.infilepaths') is has,
                    'from the files, if any')
            b = ctx.cls('Builder')
            setters = [f for f in all_functions(ctx.repo)
                       if f.name == 'outfilepath' and 'value' in f.params and
                       f.cls is not None]
            for f in setters:
                tr2 = TraceRule(ctx, r, f)
                tr2.check('given', tr2.run([(
                    'put', 'store', r'self(\._render_builder\.|\._)'
                    r'outfilepath = value'),
                    ('put', 'call', r'.*outfilepath\.fset\(self, value\)')],
                    []), lambda t: t.has('put'), 'kept')
            ctx.ob(r, 'setters', len(setters) >= 2, ctx.where(b), 'found')
        tr.check('directory', out, lambda t: t.has('make'),
                 'the directory of the file is made')


    # the files of documents and of fragments
    tr = TraceRule(ctx, r, 'TargetBuilder.__init__')
    DOC = r'self\.outfilepath_ext in context\.targets'
    ev = [('gen', 'call:generate_outfilepath', r'(?=.*\btarget=self\.'
           r'outfilepath_ext)(?=.*\bext=self\.outfilepath_ext)(?=.*'
           r'env=env)(?=.*use_cache=(?P<x>\w+)).*'),
          ('badgen', 'call:generate_outfilepath', '.*'),
          ('init', 'call:__init__', r'super(?=.*use_cache=(?P<x>\w+)).*'
           r'outfilepath=(outfilepath|generate_outfilepath\(.*\)).*'),
          ('render', 'call:JinjaRender', r'(?=.*outfilepath=(outfilepath|'
           r'generate_outfilepath\(.*\)))(?=.*render_ext=self\.'
           r'outfilepath_ext).*'),
          ('badrender', 'call:JinjaRender', '.*')]
    for name, fs, want in (
            ('target of the document', [('use_cache is None', True),
                                        (DOC, True)], 'False'),
            ('other target', [('use_cache is None', True), (DOC, False)],
             'True'),
            ('given', [('use_cache is None', False)], 'use_cache')):
        for given in (True, False):
            out = tr.run(ev, fs + [('outfilepath is None', not given),
                                   (r'self\.add_render_builder', True)])
            tr.check('%s, %s' % (name, 'path' if given else 'no path'), out,
                     lambda t, want=want, given=given: t.has(
                         'init', 'render') and not t.some(
                         'badgen', 'badrender') and all(
                         e[1] == want for e in t.get('init') + t.get('gen'))
                     and t.has('gen') is not given,
                     'the target or cache directory', kinds=('return',))


def origin(v, f):
    if v == ('c', None):
        return True
    if v[0] == 'phi':
        return all(origin(x, f) for x in v[1:])
    s = S(v)
    if v[0] == 'p':
        nm = v[1].split('.', 1)[1]
        # passed on by constructors and setters
        return nm in ('outfilepath', 'value')
    if v[0] == 'attr' and v[2] in ('outfilepath', '_outfilepath'):
        return True
    if call_name(v) == 'fget' or s.endswith('.outfilepath.fget(self)'):
        return True
    if call_name(v) in ('use_name', 'use_suffix', 'use_subpath') and \
            v[1][0] == 'attr':
        return origin(v[1][1], f) and all(relative(x) for x in v[2])
    return contained(v, f)


def generate(ctx):
    r = 'P01.generate'
    ctx.rule(r, 'Generated paths are in the target or cache directory, '
             'whatever path they are made from')
    tr = TraceRule(ctx, r, 'generate_outfilepath')
    ev = [('isfile', 'call', r'isinstance\(elem\(.*\), (pathlib\.)?Path\)'),
          ('part', 'collect', r'elem\(.*\.parts\)'),
          ('file', 'collect', r'elem\(.*parameters.*\)'),
          ('parts', 'iter', r'.*\.parts')]
    SEQ = (r'isinstance\(parameters, (list|tuple)\)', True)
    FILES = [SEQ, (r'len\(.*\) == 0', False), (r'comp\(list((?!\)\[).)*\)', True),
             (r'isinstance\(elem\(parameters\), (pathlib\.)?Path\)', True)]
    NOABS = (r'.*\.is_absolute\(\)', False)
    ABS = (r'.*\.is_absolute\(\)', True)
    HASABS = (r"hasattr\(.*, 'is_absolute'\)", True)
    UP = r"'\.\.' in .*\.parts"
    NOUP, ISUP = (UP, False), (UP, True)
    SUB = (r"hasattr\(.*, 'subpath'\)", True)
    NOSUB = (r"hasattr\(.*, 'subpath'\)", False)
    TG = (r'isinstance\(target, str\)', True)
    T1 = (r"target\.strip\('\.'\)", True)
    CACHE = lambda v: ('use_cache', v)
    MEDIA = [('use_media', True), (r'env\.media_path', True),
             (r'.*\.startswith\((prefix=)?env\.media_path\)', False)]
    NOMEDIA = [('use_media', False)]
    X = r'(comp\(.*\)\[0\]|next\(.*\)|elem\(parameters\)|parameters\[0\])'

    def path(root, sub, target=None):
        def pred(t):
            v = t.value
            if call_name(v) != 'TargetPath':
                return False
            kw = dict(v[3])
            if S(kw.get('target_root', ('c', 0))) != root:
                return False
            tg = kw.get('target', ('c', None))
            if target is not None and not re.fullmatch(target, S(tg)):
                return False
            p = kw.get('subpath')
            if call_name(p) != 'rename':
                return False
            k2 = dict(p[3])
            return S(k2.get('append')) == 'append' and \
                S(k2.get('extension')) == 'ext' and \
                re.fullmatch(sub, S(k2.get('path'))) is not None
        return pred
    base = FILES + [TG, T1]
    case = lambda name, fs, pred, msg: tr.check(
        name, tr.run(ev, fs, limit=3000), pred, msg)
    TARGET = r"target\.strip\('\.'\)"
    for c, root in ((True, 'env.cache_path'), (False, 'env.target_root')):
        case('root %s' % root, base + [CACHE(c), NOABS, NOUP, SUB] + NOMEDIA,
             path(root, X + r'\.subpath', TARGET),
             'in this directory')
    base.append(CACHE(False))
    root = 'env.target_root'
    case('path without subpath', base + [NOABS, NOUP, NOSUB] + NOMEDIA,
         path(root, X, TARGET), 'the path')
    case('absolute path', base + [HASABS, ABS, NOUP, NOSUB] + NOMEDIA,
         path(root, r'(pathlib\.)?Path\(%s\.name\)' % X, TARGET),
         'only the name is used')
    case('media', base + [NOABS, NOUP, SUB] + MEDIA,
         path(root, r'\(env\.media_path / %s\.subpath\)' % X, TARGET),
         'in the media directory')
    fs = base + [NOABS, ISUP, SUB] + NOMEDIA
    UPPART = r"elem\(.*\.parts\) (==|!=|is|is not) '\.\.'"

    def filtered(t):
        # only parts known to be different from '..'
        k = dict(t.value[3])['subpath']
        p = dict(k[3])['path']
        return call_name(p) == 'Path' and len(p[2]) == 1 and \
            p[2][0][0] == 'star' and not t.has('bad')
    out = tr.run(ev, fs, limit=3000)
    tr.check('parent directories', out, filtered, 'removed')
    NEG = [(r"elem\(.*\.parts\) == '\.\.'|'\.\.' == elem\(.*\.parts\)", True),
           (r"elem\(.*\.parts\) != '\.\.'|'\.\.' != elem\(.*\.parts\)",
            False)]
    tr.check('parent directory, part', [
        t for t in tr.run(ev, fs + NEG, limit=3000)
        if seq(t).count('parts') >= 2], lambda t: not t.has('part'),
        'not kept')
    POS = [(p, not v) for p, v in NEG]
    tr.check('other part', [t for t in tr.run(ev, fs + POS, limit=3000)
                            if seq(t).count('parts') >= 2],
             lambda t: t.has('part'), 'kept')
    case('target of the path', FILES + [
        CACHE(False), NOABS, NOUP, SUB, (TG[0], False),
        (r"hasattr\(.*, 'target'\)", True), (X + r'\.target', True)] +
        NOMEDIA, path(root, X + r'\.subpath', X + r'\.target'),
        'the same target')
    case('no target', FILES + [
        CACHE(False), NOABS, NOUP, SUB, (TG[0], False),
        (r"hasattr\(.*, 'target'\)", False)] +
        NOMEDIA, path(root, X + r'\.subpath', r"None|''"), 'no target')
    tr.check('no files', tr.run(ev, [
        SEQ, (r'len\(comp.*\) == 0', True), (r'comp\(list((?!\)\[).)*\)', False)],
        limit=3000), lambda t: S(t.value) == 'None', 'no path')
    tr.check('other parameters', [t for t in tr.run(ev, [
        SEQ, (FILES[3][0], False)], limit=3000)], lambda t: not t.has(
            'file'), 'only paths are used')

    # rename
    tr = TraceRule(ctx, r, 'paths.utils:rename')
    P = r'(path|(pathlib\.)?Path\(path\))'
    name = {True: P + r'\.stem', False: 'filename'}
    ext = {True: P + r'\.suffix', False: 'extension'}
    for nofile in (True, False):
        for app in (True, False):
            for noext in (True, False):
                for dot in (True, False):
                    fs = [('filename is None', nofile), ('append', app),
                          ('extension is None', noext),
                          (r'%s\.startswith\((prefix=)?\'\.\'\)' %
                           ext[noext], dot)]

                    def pred(t, nofile=nofile, app=app, noext=noext,
                             dot=dot):
                        v = t.value
                        if v[0] == 'op' and v[1] == '/':
                            if not re.fullmatch(P + r'\.parent', S(v[2])):
                                return False
                            v = v[3]
                        elif call_name(v) == 'with_name' and re.fullmatch(
                                P, S(v[1][1])):
                            v = v[2][0]
                        else:
                            return False
                        ps = pieces(v)
                        want = [name[nofile]] + (['append'] if app else []) \
                            + ([] if dot else [r"'\.'"]) + [ext[noext]]
                        return len(ps) == len(want) and all(
                            re.fullmatch(w, repr(p) if isinstance(p, str)
                                         else S(p))
                            for w, p in zip(want, ps))
                    tr.check('%s%s%s%s' % (
                        'stem' if nofile else 'filename',
                        ', append' if app else '',
                        ', own extension' if noext else ', extension',
                        '' if dot else ', no dot'), tr.run([], fs), pred,
                        'directory, name, appended text and extension')


def paths(ctx):
    r = 'P01.paths'
    ctx.rule(r, 'Source and target paths have a relative subpath, and keep '
             'their root and target when they are changed or copied')
    for cls, root in (('SourcePath', 'project_root'),
                      ('TargetPath', 'target_root')):
        tr = TraceRule(ctx, r, cls + '.__new__')
        SUB = r'(pathlib\.)?Path\((str\()?subpath\)?\)'
        ev = [('root', 'store', r'.*\.%s = .*\((str\()?%s\)?, .*\)' % (
                  root, root)),
              ('sub', 'store', r".*\.subpath = .*\('',( '',)? %s\)" % SUB),
              ('target', 'store', r".*\.target = .*\('', (str\(target\)|"
               r"target)\.strip\('\.'\), ''\)"),
              ('badroot', 'store', r'.*\.(%s|subpath|target) = .*' % root)]
        out = tr.run(ev, [(SUB + r'\.is_absolute\(\)', True)])
        tr.check('absolute', out, lambda t: raises(t, 'AssertionError') or
                 raises(t, 'ValueError'), 'not accepted')
        fs = [(SUB + r'\.is_absolute\(\)', False),
              (r'isinstance\(str\(target\), str\)', True)]
        out = tr.run(ev, fs)

        def made(t, cls=cls, root=root):
            v = t.value
            if call_name(v) != '__new__':
                return False
            a = [S(x) for x in v[2][1:]]
            ok = re.fullmatch(r'(str\()?%s\)?' % root, a[0]) and \
                re.fullmatch(SUB, a[-1])
            if cls == 'TargetPath':
                ok = ok and len(a) == 3 and re.fullmatch(
                    r"(str\()?target\)?\.strip\('\.'\)", a[1]) and \
                    t.has('target')
            else:
                ok = ok and len(a) == 2
            return ok and t.has('root', 'sub') and not t.has('badroot')
        tr.check('relative', out, made, 'the parts are joined and kept')

        keep = {root: 'self.' + root}
        if cls == 'TargetPath':
            keep['target'] = 'self.target'
        for m, sub in (('__copy__', r'self\.subpath'),
                       ('__deepcopy__', r'self\.subpath'),
                       ('use_name', r'self\.subpath\.with_name\((name=)?'
                        r'name\)'),
                       ('use_suffix', r'self\.subpath\.with_suffix\('
                        r'(suffix=)?suffix\)'),
                       ('use_subpath', 'subpath')):
            tr = TraceRule(ctx, r, '%s.%s' % (cls, m))

            def same(t, sub=sub, keep=keep, cls=cls):
                v = t.value
                if v[0] != 'call' or not re.fullmatch(
                        cls + r'|type\(self\)|self\.__class__|.*\b%s\)?' %
                        cls, S(v[1])):
                    return False
                kw = {k: S(x) for k, x in v[3]}
                return all(kw.get(k) == x for k, x in keep.items()) and \
                    re.fullmatch(sub, kw.get('subpath', '')) is not None
            tr.check('new path', tr.run([], []), same,
                     'the root and target are kept')


def depends(g, term, node, pred, seen=None):
    """Whether the value of a term can be made from one that satisfies
    pred"""
    seen = set() if seen is None else seen
    for x in subterms(term):
        if pred(x):
            return True
        if x[0] == 'v':
            for d in g.defs(x[1], node):
                if d in seen:
                    continue
                seen.add(d)
                ts = [d.term] if d.term is not None else []
                if any(depends(g, t, d, pred, seen) for t in ts):
                    return True
    return False


def mock(ctx):
    r = 'P01.names'
    ctx.rule(r, 'Files made from text are named after all of the text, so '
             'that different contents are in different files')
    tr = TraceRule(ctx, r, 'generate_mock_parameters')
    ev = [('hash', 'call', r'hash_items\(star\((list\()?(parameters|'
           r'list\(.*parameters.*\))\)?\)(, sort=(True|False))?\)'),
          ('badhash', 'call:hash_items', '.*')]
    for p in (True, False):
        fs = [('gen_hash', True), ('parameters', True), ('project_root', p),
              (r'isinstance\(parameters, (list|tuple)\)', True),
              ('subpath is None', False)]
        root = 'project_root' if p else r'env\.project_root'
        tr.check('%s' % root, tr.run(ev, fs, limit=5000), lambda t, root=root:
                 t.has('hash') and not t.has('badhash') and
                 call_name(t.value) == 'SourcePath' and re.fullmatch(
                     root, S(dict(t.value[3])['project_root'])),
                 'a source path with the hash of the parameters')
    g = tr.g
    H = lambda x: x[0] == 'call' and call_name(x) == 'hash_items'
    n_ret = 0
    for n in g.calls():
        if n.pred and g.cname(n) == 'SourcePath':
            n_ret += 1
            ctx.ob(r, 'generate_mock_parameters: file name', depends(
                g, dict(n.term[3]).get('subpath', ('c', None)), n, H),
                ctx.where(n), 'includes the hash')
        if n.pred and n.kind == 'call' and n.term[1][0] == 'attr' and \
                n.term[1][2] in ('with_suffix', 'with_name', 'with_stem'):
            ctx.ob(r, 'generate_mock_parameters: %s' % n.term[1][2],
                   not depends(g, n.term[1][1], n, H), ctx.where(n),
                   'the hash is not taken away')
        if n.pred and n.kind == 'call' and g.cname(n) == 'rename':
            ctx.ob(r, 'generate_mock_parameters: rename', not depends(
                g, ('tuple',) + tuple(n.term[2]) + tuple(
                    v for _, v in n.term[3]), n, H), ctx.where(n),
                'the hash is not taken away')
    for n in g.nodes:
        for t in [n.term] if n.pred and isinstance(n.term, tuple) else []:
            for x in subterms(t):
                if x[0] == 'attr' and x[2] == 'stem':
                    ctx.ob(r, 'generate_mock_parameters: stem', not depends(
                        g, x[1], n, H), ctx.where(n),
                        'the hash is not taken away')
                if x[0] == 'sub' and x[2][0] == 'slice' and depends(
                        g, x[1], n, H):
                    e = x[2][2] if len(x[2]) > 2 else None
                    b = x[2][1]
                    ok = (b == ('c', None) or b == ('c', 0)) and e is not \
                        None and e[0] == 'c' and (
                            e[1] is None or e[1] >= 8)
                    ctx.ob(r, 'generate_mock_parameters: part of the hash',
                           ok, ctx.where(n), 'enough of it to differ')
    ctx.ob(r, 'generate_mock_parameters: result', n_ret >= 1,
           ctx.where(tr.f), 'a source path')

    tr = TraceRule(ctx, r, 'hash_items')
    E = r'elem\((sorted\()?items\)?\)'
    ev = [('it', 'iter', 'items'),
          ('file', 'collect', r'hash_file\(.*%s.*\)' % E),
          ('part', 'collect', r'hashfunc\(.*%s.*\)(\.digest\(\))?|.*%s.*' %
           (E, E)),
          ('up', 'call', r'.*\.update\(.*\)'),
          ('up2', 'iter', r'.*list\(\).*|comp.*')]
    out = [t for t in tr.run(ev, []) if seq(t).count('it') >= 2]
    tr.check('every item', out, lambda t: t.some('part', 'file', 'up'),
             'is included')
    out = [t for t in tr.run(ev, []) if seq(t).count('up2') >= 2]
    tr.check('every hash', out, lambda t: t.has('up') and call_name(
        t.value) == 'hexdigest', 'is included')


def roots(ctx):
    r = 'P01.roots'
    ctx.rule(r, 'The output directories are the project directory, or its '
             'parent if that is a source directory, and a cache directory '
             'in it')
    tr = TraceRule(ctx, r, 'Environment.get_target_root')
    M = r'project_root\.match\(settings\.document_src_directory\)|' \
        r'project_root\.name == settings\.document_src_directory'
    tr.expect('source directory', [(M, True)], [],
              ret=r'TargetPath\(target_root=project_root\.parent\)',
              msg='the directory above it')
    tr.expect('other directory', [(M, False)], [],
              ret=r'TargetPath\(target_root=project_root\)',
              msg='the directory')
    tr = TraceRule(ctx, r, 'Environment.cache_path')
    K = r'self\._cache_path is None'
    CP = r'SourcePath\(project_root=self\.target_root, ' \
        r'subpath=settings\.cache_path\)'
    ev = [('mk', 'call', r'.*\.mkdir\(exist_ok=True, parents=True\)'),
          ('put', 'store', r'self\._cache_path = ' + CP),
          ('bad', 'store', '.*')]
    tr.expect('known', [(K, False), (r'self\._cache_path', True)], ev,
              ret=r'self\._cache_path',
              never=('bad', 'put'), msg='the same directory')
    tr.expect('new', [(K, True)], ev, ret=CP, must=('mk', 'put'),
              never=('bad',), msg='a directory in the target directory')
    src = None
    for m in ctx.repo.modules.values():
        if m.name.endswith('settings'):
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and getattr(
                        s.targets[0], 'id', '') == 'cache_path':
                    src = s.value
    ok = isinstance(src, ast.Constant) and isinstance(src.value, str) and \
        relative(('c', src.value)) and src.value not in ('', '.')
    ctx.ob(r, 'settings.cache_path', ok, 'settings.py',
           'a relative directory')


def run(ctx):
    writes(ctx)
    origins(ctx)
    generate(ctx)
    paths(ctx)
    mock(ctx)
    roots(ctx)
    from . import b02
    r = 'P01.copy'
    ctx.rule(r, 'A file is copied from the input to the output, unless they '
             'are the same file')
    b02.copies(ctx, r)
