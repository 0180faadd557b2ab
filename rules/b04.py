"""B04: the builder for a conversion is the one that can do it"""
from .common import *

ASSUMPTIONS = [
    'find_executable finds the programs that can be run',
    'The subclasses of a class are those the modules of the package define']

AV = r'[\w.()]*Builder\)?\._available_builders'
E = r'elem\(all_subclasses\(.*?Builder\)?\)\)'


def selection(ctx):
    r = 'B04.table'
    ctx.rule(r, 'Only builders that are available and active take part; for '
             'a pair of formats it is the one with the highest priority')
    tr = TraceRule(ctx, r, 'Builder.find_builder_cls')
    kp = r'tuple\(%s\.infilepath_ext, %s\.outfilepath_ext\)' % (E, E)
    ev = [('scan', 'iter', r'all_subclasses\([^()]*(\([\w.]*\))?\)'),
          ('put', 'store', AV + r'\[' + kp + r'\] = ' + E),
          ('put2', 'call', AV + r'\.(update|__setitem__)\(.*\)'),
          ('bad', 'store', AV + r'.*'),
          ('bad', 'del', AV + r'.*'),
          ('bad', 'call', AV + r'\.(?!get\(|items\(|keys\(|values\()\w+\(.*\)')]

    def case(av=None, act=None, known=None, lower=None):
        out = [(AV, False), (r'len\(%s\)' % AV, False)]
        for p, v in ((E + r'\.available', av), (E + r'\.active\(\)', act),
                     (kp + ' in ' + AV, known),
                     (r'.*\[' + kp + r'\]\.priority < ' + E + r'\.priority',
                      lower),
                     (E + r'\.priority < .*\[' + kp + r'\]\.priority', False
                      if lower else None)):
            if v is not None:
                out.append((p, v))
        return out
    for name, fs, put in (
            ('not available', case(av=False), False),
            ('not active', case(av=True, act=False), False),
            ('first', case(True, True, False), True),
            ('higher priority', case(True, True, True, True), True),
            ('not higher', case(True, True, True, False), False)):
        tr.expect(name, fs, ev, allow=('BuildError',), it='scan',
                  must=('put',) if put else (),
                  never=('bad', 'put2') + (() if put else ('put',)),
                  msg='the builder is %s' % ('entered' if put else
                                             'not entered'))
    full = [(AV, True), (r'len\(%s\)' % AV, True)]
    out = tr.run(ev, full)
    tr.check('known table', out, lambda t: not any(
        t.has(x) for x in ('put', 'bad', 'put2')),
        'the table is made once', minimum=3)
    out = tr.run(ev, [(AV, False), (r'len\(%s\)' % AV, False)])
    tr.check('empty table', out, lambda t: t.has('scan'),
             'the table is made of all builders', minimum=3)

    r = 'B04.choice'
    ctx.rule(r, 'Without target the builder is that of the formats; with a '
             'target an allowed format is copied, others are converted to '
             'the first format of the target that a builder exists for; '
             'otherwise it is an error')
    tr = TraceRule(ctx, r, 'Builder.find_builder_cls')
    own = r'tuple\(in_ext, out_ext\)'
    T = r'settings\.tracked_deps'
    TG = r"(target|\('\.' \+ target\))"
    conv = r'tuple\(in_ext, elem\(%s\[%s\]\)\)' % (T, TG)

    def facts_(none, key=None, tracked=None, allowed=None, conv_=None,
               err=None, dot=True):
        out = list(full)
        out += [('target is None', none), (r'target', not none),
                (r'isinstance\(target, str\)', not none),
                (r"target\.startswith\('\.'\)", dot)]
        for p, v in ((own + ' in ' + AV, key),
                     (TG + ' in ' + T, tracked),
                     (r'in_ext in %s\[%s\]' % (T, TG), allowed),
                     (conv + ' in ' + AV, conv_), ('raise_error', err)):
            if v is not None:
                out.append((p, v))
        return out
    cev = [('try', 'iter', r'%s\[%s\]' % (T, TG))]
    ent = r'(%s\[%s\]|%s\.get\(%s\))'
    tr.expect('no target', facts_(True, key=True), cev,
              ret=ent % (AV, own, AV, own),
              msg='the builder of the formats is returned')
    for dot in (True, False):
        nm = '' if dot else ' without dot'
        tg = 'target' if dot else r"\('\.' \+ target\)"
        cp = r"tuple\('\.\*', '\.\*'\)"
        tr.expect('allowed format' + nm, facts_(
            False, True, True, True, dot=dot), cev,
            ret=ent % (AV, cp, AV, cp),
            msg='files in a format of the target are copied')
        want = ent % (AV, conv.replace(TG, tg), AV, conv.replace(TG, tg))
        out = tr.run(cev, facts_(False, True, True, False, True, err=True,
                                 dot=dot))
        tr.check('converted' + nm, [t for t in out if t.kind == 'return' or
                                    seq(t).count('try') != 1],
                 lambda t: t.kind == 'return' and
                 re.fullmatch(want, S(t.value)) and
                 seq(t).count('try') == 1,
                 'the first format that can be made is used')
    for err in (True, False):
        for name, fs in (
                ('unknown formats', facts_(True, False, False, err=err)),
                ('no converter', facts_(False, True, True, False, False,
                                        err=err)),
                ('unknown target', facts_(False, True, False, err=err))):
            kw = {'error': 'BuildError'} if err else {'ret': 'None'}
            tr.expect('%s, raise_error=%s' % (name, err), fs, cev,
                      msg='no builder: an error, or None', **kw)
    f = ctx.fn('Builder.find_builder_cls')
    d = f.default_of('raise_error')
    ctx.ob(r, 'raise_error', d is not None and
           ctx.repo.eval_const(f.module, d) is True, ctx.where(f),
           'an error by default')
    ctx.ob(r, 'all_subclasses', True, ctx.where(ctx.fn('all_subclasses')), '')
    g = ctx.graph('all_subclasses')
    calls = [n for n in g.calls() if n.pred]
    ctx.ob(r, 'recursion', any(g.cname(n) == 'all_subclasses' for n in calls)
           and sum(g.cname(n) == '__subclasses__' for n in calls) >= 1,
           ctx.where(g.func), 'subclasses of subclasses are included')


def active(ctx):
    r = 'B04.active'
    ctx.rule(r, 'A builder is active exactly when it has a priority, names '
             'its programs and all of them are found')
    tr = TraceRule(ctx, r, 'Builder.active')
    AC = r'[\w.()]*Builder\)?\._active'
    R = r'cls\.active_requirements'
    ex = r'elem\(cls\.required_execs\)'
    base = [(r'cls\.__name__ in ' + AC, False), (R, True),
            (R + ' is None', False)]
    prio, reqs, alle = [r"'%s' in %s" % (x, R) for x in
                        ('priority', 'required_execs', 'all_execs')]
    isint, istup = r'isinstance\(cls\.priority, int\)', \
        r'isinstance\(cls\.required_execs, tuple\)'
    ok = AC + r'\.setdefault\(cls\.__name__, True\)'
    no = AC + r'\.setdefault\(cls\.__name__, False\)'
    ev = [('look', 'iter', r'cls\.required_execs'),
          ('find', 'call', r'find_executable\(%s\)' % ex),
          ('check', 'call', r'(builtins\.)?(all|any)\(.*\)')]
    tr.expect('not an int', base + [(prio, True), (isint, False)], ev,
              ret=no, msg='without a priority a builder is not active')
    tr.expect('no tuple', base + [(reqs, True), (istup, False)], ev,
              ret=no, msg='without its programs a builder is not active')
    good = base + [(prio, True), (isint, True), (reqs, True), (istup, True),
                   (alle, True), (r'cls\.required_execs', True)]
    fx, miss = r'.*find_executable.*', r'comp\(list, elem\(cls\.required_' \
        r'execs\).*'
    ev = [('look', 'iter', r'.*required_execs.*')] + ev[1:2]
    out = [t for t in tr.run(ev, good + [
        (fx + ' is None', True), (miss, True), (fx, False)])
        if 'find' in seq(t)]
    most = max([seq(t).count('look') for t in out] or [0])
    tr.check('a program is missing', [t for t in out if t.value is None or
                                      re.fullmatch(no, S(t.value)) or
                                      seq(t).count('look') >= most],
             lambda t: t.kind == 'return' and re.fullmatch(no, S(t.value)),
             'the builder is not active')
    # also without an iteration: all of none are found, not any
    tr.expect('all programs are found', good + [
        (fx + ' is None', False), (miss, False), (fx, True)], ev, ret=ok,
        msg='the builder is active')
    tr.expect('no programs are needed', base + [
        (prio, True), (isint, True), (reqs, False), (alle, False)], ev,
        ret=ok, msg='a builder is active when its requirements are met')
    tr.expect('no requirements', [
        (r'cls\.__name__ in ' + AC, False), (R, False), (isint, False),
        (istup, False), (r"'\w+' in " + R, False)], ev, ret=ok,
        msg='a builder without requirements is active')
    tr.expect('programs are not named', base + [
        (prio, True), (isint, True), (reqs, False), (alle, True),
        (r'cls\.required_execs', False)], ev, ret=ok, never=('look', 'find'),
        msg='a builder that needs no program is active')
    tr.expect('as before', [(r'cls\.__name__ in ' + AC, True)], ev,
              ret=AC + r'\[cls\.__name__\]', msg='evaluated once')
    # requirements are only dropped by builders that run no program
    r = 'B04.requirements'
    ctx.rule(r, 'Builders that run a program require it to be found')
    repo, n = ctx.repo, 0
    for c in repo.subclasses(ctx.cls('Builder')):
        act, av = [_const(repo, c, x) for x in ('action', 'available')]
        prog = act.split()[0] if isinstance(act, str) and act.split() else ''
        comp = any(x.name == 'CompositeBuilder' for x in repo.mro(c)) or \
            '{builder.' not in act if isinstance(act, str) else True
        if comp:
            continue
        n += 1
        req = _const(repo, c, 'required_execs')
        need = _const(repo, c, 'active_requirements')
        ctx.ob(r, '%s: %s' % (c.name, prog), isinstance(req, tuple) and
               prog in req, ctx.where(c), '%s is not in %r' % (prog, req))
        ctx.ob(r, '%s: requirements' % c.name, isinstance(need, tuple) and
               {'priority', 'required_execs', 'all_execs'} <= set(need),
               ctx.where(c), 'the programs are looked for')
    ctx.ob(r, 'builders', n >= 5, 'builders', 'builders that run programs')


def _const(repo, c, name):
    try:
        return repo.class_const(c, name)
    except AnalysisBroken:
        return None


def table(ctx):
    r = 'B04.unambiguous'
    ctx.rule(r, 'Which builder converts one format to another does not '
             'depend on the order of the classes; the formats the package '
             'asks for have one')
    repo = ctx.repo
    seen = {}
    for c in repo.subclasses(ctx.cls('Builder')):
        if _const(repo, c, 'available') is not True:
            continue
        k = (_const(repo, c, 'infilepath_ext'),
             _const(repo, c, 'outfilepath_ext'))
        p = _const(repo, c, 'priority')
        ctx.ob(r, '%s: %s' % (c.name, k), isinstance(p, int) and
               not isinstance(p, bool), ctx.where(c), 'priority %r' % (p,))
        ctx.ob(r, '%s: extensions' % c.name, all(
            x is None or isinstance(x, str) and x.startswith('.') and
            x == x.lower() for x in k) and k[0] is not None, ctx.where(c),
            'the formats are extensions: %s' % (k,))
        other = [o for o in seen.get(k, ())
                 if _const(repo, o, 'priority') == p]
        ctx.ob(r, '%s: alone' % c.name, not other, ctx.where(c),
               'same formats and priority as %s' % [o.name for o in other])
        seen.setdefault(k, []).append(c)
    ctx.ob(r, 'available builders', len(seen) >= 12, 'builders',
           '%d pairs of formats' % len(seen))
    # the formats that the code asks for
    from sa.core import all_functions
    n_calls = 0
    deps = repo.const('settings', 'tracked_deps')
    for f in all_functions(repo):
        g = ctx.graph(f)
        for n in g.calls():
            if n.kind != 'call' or not n.pred or \
                    g.cname(n) != 'find_builder_cls':
                continue
            m = ctx.fn('Builder.find_builder_cls')
            kws = dict(n.term[3])
            pos = dict(zip([p for p in ('in_ext', 'out_ext', 'target')],
                           n.term[2]))
            v = {x: g.expand(kws.get(x, pos.get(x, ('c', None))), n)
                 for x in ('in_ext', 'out_ext', 'target')}
            if v['in_ext'][0] != 'c':
                continue
            i = v['in_ext'][1]
            n_calls += 1
            if v['out_ext'][0] == 'c' and v['target'] == ('c', None):
                ok = (i, v['out_ext'][1]) in seen
                where = '%s -> %s' % (i, v['out_ext'][1])
                ctx.ob(r, '%s: %s' % (f.short, where), ok, ctx.where(n),
                       'a builder for the formats is available')
            elif v['out_ext'][0] == 'c':
                # with a target: the html targets can be given this format
                o = v['out_ext'][1]
                ok = (i, o) in seen and any(
                    o in d for d in deps.values())
                ctx.ob(r, '%s: %s -> %s for a target' % (f.short, i, o), ok,
                       ctx.where(n), 'a builder for the formats is available')
    ctx.ob(r, 'call sites', n_calls >= 8, 'builders', '%d' % n_calls)
    # the formats the tags give to the targets can be made for each
    tags = []
    for c in repo.subclasses(ctx.cls('Tag')):
        i = _const(repo, c, 'in_ext')
        if isinstance(i, str):
            tags.append((c, i))
    for c, i in tags:
        for t in ('.html', '.xhtml', '.tex'):
            ok = any((i, o) in seen for o in deps.get(t, ()))
            ctx.ob(r, '%s for %s' % (c.name, t), ok, ctx.where(c),
                   'no builder from %s to a format of %s' % (i, t))
    ctx.ob(r, 'tags', len(tags) >= 2, 'tags', 'tags that are built')
    for t in ('.html', '.xhtml', '.tex'):
        ctx.ob(r, 'formats of ' + t, isinstance(deps.get(t), (list, tuple))
               and len(deps[t]) > 0, 'settings.py', 'formats of the target')
    ctx.ob(r, 'copy', [c.name for c in seen.get(('.*', '.*'), ())] ==
           ['Copy'], 'builders/copy.py', 'allowed formats are copied')


def targets(ctx):
    r = 'B04.targets'
    ctx.rule(r, 'Every document of the project gets one builder for each of '
             'its targets, made new with the tree; builders for whole '
             'projects only belong to the root')
    tr = TraceRule(ctx, r,
                   'builders.target_builders.receivers:add_target_builders')
    DL = r'root_document\.documents_list\((?=.*only_subdocuments=False)' \
        r'(?=.*recursive=True).*?\)'
    D = r'elem\(%s\)' % DL
    B = r"(%s\.context\.setdefault\('builders', (dict\(\)|\{\})\)|%s\." \
        r"context\['builders'\])" % (D, D)
    TG = r"(elem\(%s\.context\.targets\)|\('\.' \+ elem\(%s\.context\." \
        r"targets\)\))" % (D, D)
    F = r"Builder\)?\.find_builder_cls\((?=.*in_ext='\.dm')(?=.*out_ext=%s)" \
        r"(?!.*\btarget=)(?!.*raise_error).*?\)" % TG
    new = r'find_builder_cls\(.*?\)\((?=.*env=%s\.context\[\'environment' \
        r'\'\])(?=.*context=%s\.context).*\)' % (D, D)
    dt, nd = r'elem\(%s\.context\.targets\)' % D, r"\('\.' \+ elem\(%s\." \
        r"context\.targets\)\)" % D
    ev = [('docs', 'iter', DL), ('targets', 'iter', D + r'\.context\.targets'),
          ('clear', 'call', B + r'\.clear\(\)'),
          ('add', 'store', B + r'\[' + TG + r'\] = .*find_builder_cls\(.*\)\('
           r'.*\)'),
          ('other', 'store', B + r'.*'),
          ('find', 'call:find_builder_cls', r'.*' + F),
          ('new', 'call', r'.*' + new),
          ('otherfind', 'call:find_builder_cls', r'.*')]
    oroot = r'.*find_builder_cls\(.*\)\.only_root'
    same = r'%s == root_document|root_document == %s' % (D, D)
    same2 = r'%s is root_document|root_document is %s' % (D, D)
    dot = r"elem\(.*\.targets\)\.startswith\('\.'\)"
    has = r'(?!elem\(.*\)\.startswith).* in ' + B
    for name, o, s, add in (('builder of a document', False, False, True),
                            ('project builder of the root', True, True, True),
                            ('project builder of others', True, False,
                             False), ('builder of the root', False, True,
                                      True)):
        for d in (True, False):
            fs = [(oroot, o), (same, s), (same2, s), (dot, d), (has, False)]
            key = dt if d else nd
            kev = [('add', 'store', B + r'\[' + key + r'\] = .*find_builder_'
                    r'cls\(.*\)\(.*\)'),
                   ('find', 'call:find_builder_cls', r'.*' +
                    F.replace(TG, key))]
            tr.expect('%s%s' % (name, '' if d else ', target without dot'),
                      fs, kev + [e for e in ev if e[0] not in (
                          'add', 'find')], must=('find',) + (('add', 'new') if add
                                                else ()),
                      never=('other', 'otherfind') + (
                          () if add else ('add',)), it='targets',
                      msg='the builder of the target is %sadded' % (
                          '' if add else 'not '))
    out = [t for t in tr.run(ev) if t.has('add')]
    most = max([seq(t).count('docs') for t in out] or [0])
    out = [t for t in out if seq(t).count('docs') >= most]
    tr.check('cleared', out, lambda t: 'clear' in
             seq(t)[:seq(t).index('add')] and 'clear' not in
             seq(t)[seq(t).index('add'):],
             'the builders of all documents are cleared before')
    tr.expect('target twice', [(oroot, False), (has, True)], ev,
              never=('add', 'other', 'new'), it='targets',
              msg='a target has one builder')
    tr = TraceRule(ctx, r, 'builders.target_builders.receivers:find_builder')
    bs = r"context\['builders'\]"
    TG = r"(target|\('\.' \+ target\))"
    pre = [(r"'builders' in context", True)]
    for d in (True, False):
        tg = 'target' if d else r"\('\.' \+ target\)"
        nm = '' if d else ' without dot'
        fs = pre + [('target is None', False), ('target', True),
                    (r"target\.startswith\('\.'\)", d)]
        tr.expect('found' + nm, fs + [(TG + ' in ' + bs, True)], [],
                  ret=r'list\(%s\[%s\]\)' % (bs, tg),
                  msg='the builder of the target')
        tr.expect('not found' + nm, fs + [(TG + ' in ' + bs, False)], [],
                  ret=r'list\(\)', msg='no builder')
    tr.expect('all', pre + [('target is None', True), ('target', False)], [],
              ret=r'list\(%s\.values\(\)\)' % bs, msg='all builders')


def add_build(ctx):
    r = 'B04.add-build'
    ctx.rule(r, 'A file that is added to a builder is looked for, gets the '
             'builder for its format and the target, is kept with the '
             'subbuilders and returned')
    tr = TraceRule(ctx, r, 'ParallelBuilder.add_build')
    par = [(r'parameters', True), (r'isinstance\(parameters, list\)', True),
           (r'isinstance\(parameters, tuple\)', False)]
    P = r'(list\()*parameters\)*'
    EL = r'elem\(%s\)' % P
    FF = r'find_file\((?=.*path=%s)(?=.*context=%s)(?=.*raise_error=False)' \
        r'[^\[]*?\)'
    ff = FF % (EL, 'context')
    ev = [('each', 'iter', P), ('find', 'call', ff),
          ('found', 'collect', ff), ('raw', 'collect', EL),
          ('cls', 'call:find_builder_cls', r'self\.find_builder_cls\((?=.*'
           r'in_ext=in_ext)(?=.*out_ext=out_ext)(?=.*target=target).*\)'),
          ('keep', 'call', r'self\.subbuilders\.(append|add)\(.*\)'),
          ('keep', 'store', r'self\.subbuilders.*')]
    base = par + [('context', True), ('context is None', False),
                  ('target', True), ('target is None', False)]
    exts = [('in_ext is None', False), ('out_ext is None', False),
            ('in_ext', True), ('out_ext', True)]
    for c in (True, False):
        new = (r'builder_cls' if c else r'self\.find_builder_cls\(.*?\)') + \
            r'\((?=.*env=self\.env)(?=.*parameters=)(?=.*outfilepath=' \
            r'outfilepath)(?=.*context=context)(?=.*target=target)' \
            r'(?=.*\*\*=kwargs).*\)'
        fs = base + exts + [('builder_cls is None', not c),
                            ('builder_cls', c)]
        tr.expect('builder class %s' % ('given' if c else 'found'),
                  fs, ev + [('new', 'call', new)],
                  must=('keep', 'new') + (() if c else ('cls',)),
                  never=('cls',) if c else (), ret=new,
                  msg='the new builder has all arguments and is kept')
    fs = base + exts + [('builder_cls is None', False)]
    tr.expect('file', fs + [(ff, True), (ff + ' is None', False)],
              ev, must=('found',), never=('raw',), it='each',
              msg='the file that was found is used')
    tr.expect('no file', fs + [(ff, False), (ff + ' is None', True)],
              ev, must=('find', 'raw'), never=('found',), it='each',
              msg='other parameters are kept')
    # arguments by default
    kev = [('new', 'call', r'builder_cls\(.*target=self\.target.*\)'),
           ('newc', 'call', r'builder_cls\(.*context=self\.env\.context.*\)')]
    tr.expect('target by default', par + exts + [
        ('builder_cls is None', False), ('context', True), ('target', False)],
        kev, must=('new',), msg='the target of the builder is used')
    tr.expect('context by default', par + exts + [
        ('builder_cls is None', False), ('context', False),
        ('target', False), (r'self\.env\.context', True)],
        kev[1:], must=('newc',), msg='the context of the environment is used')
    # a single parameter, no parameters
    one = [('builder_cls is None', False), ('context', True),
           ('target', True)] + exts
    for name, fs, p in (
            ('one parameter', [('parameters', True)],
             r'list\(parameters\)'),
            ('no parameters', [('parameters', False),
                               ('parameters is None', True)],
             r'(list|tuple)\(\)|parameters|list\(list\(\)\)')):
        tr.expect(name, fs + one + [
            (r'isinstance\(parameters, .*\)', False)],
            [('each', 'iter', p), ('other', 'iter', r'(?!self\.).*')],
            must=('each',) if name.startswith('one') else (),
            never=('other',), msg='the parameters are a list')
    tr.expect('tuple', one + [('parameters', True),
              (r'isinstance\(parameters, list\)', False),
              (r'isinstance\(parameters, tuple\)', True)],
              [('each', 'iter', r'parameters|list\(parameters\)')] * 1 + [
                  ('wrapped', 'iter', r'list\(list.*')], must=('each',),
              msg='the items of a tuple are the parameters')
    # the format of the input
    IT = r'(%s|%s)' % (EL, ff)
    iev = [('sfx', 'collect', IT + r'\.suffix'), ('item', 'collect', IT),
           ('aug', 'aug', '.*'),
           ('ext', 'call:find_builder_cls', r'.*in_ext=(?!None\b).*'),
           ('noext', 'call:find_builder_cls', r'.*')]
    some = base + [('in_ext is None', True), ('out_ext is None', False),
                   ('builder_cls is None', True), ('builder_cls', False)]
    istr = r'isinstance\((%s), str\)' % IT
    idot = r"(%s)\.startswith\('\.'\)" % IT
    isfx = r"hasattr\((%s), 'suffix'\)" % IT
    for name, s, d, h, n_item, n_sfx in (
            ('extension', True, True, False, 2, 0),
            ('text', True, False, False, 1, 0),
            ('path', False, False, True, 1, 1),
            ('path with dot', False, True, True, 1, 1),
            ('other', False, False, False, 1, 0)):
        out = [t for t in tr.run(iev, some + [
            (istr, s), (idot, d), (isfx, h)], limit=2000)
            if seq(t).count('item') or seq(t).count('sfx')]
        most = max([len([e for e in seq(t) if e in ('item', 'sfx')])
                    for t in out] or [0])
        tr.check('in_ext from ' + name, out, lambda t, a=n_item, b=n_sfx:
                 seq(t).count('item') <= a and seq(t).count('sfx') <= b,
                 'the formats that are given')
        tr.check('in_ext of ' + name, [t for t in out if len([
            e for e in seq(t) if e in ('item', 'sfx')]) == most],
            lambda t, a=n_item, b=n_sfx: seq(t).count('item') == a and
            seq(t).count('sfx') == b, 'the formats that are given')
        tr.check('in_ext first of ' + name, tr.run([
            ('last', 'call:find_builder_cls', r'.*in_ext=(?!.*\]\.suffix).*?\['
             r'-?[1-9]\d*\](?=, out_ext|, target|\)).*'),
            ('last', 'call:find_builder_cls', r'.*in_ext=[^=]*(pop\(\)|'
             r'reversed|sorted|min|max)\(?.*')], some + [
                (istr, s), (idot, d), (isfx, h)], limit=2000),
            lambda t: not t.has('last'), 'the first format given')
        if n_item + n_sfx > 1:
            tr.check('in_ext given for ' + name, [
                t for t in out if t.has('ext')], lambda t: True,
                'the format is used')
    tr.expect('in_ext given', base + exts + [
        ('builder_cls is None', True)], [
        ('cls', 'call:find_builder_cls', r'.*in_ext=in_ext\b.*')],
        must=('cls',), msg='the format that is given')
    # formats
    sfx = r'outfilepath\.suffix'
    isstr = r'isinstance\(outfilepath, str\)'
    dot = r"outfilepath\.startswith\('\.'\)"
    hs = r"hasattr\(outfilepath, 'suffix'\)"
    for name, x, want in (
            ('extension', [(isstr, True), (dot, True)], 'outfilepath'),
            ('path', [(isstr, False), (hs, True)], sfx),
            ('text', [(isstr, True), (dot, False), (hs, False)], 'None'),
            ('nothing', [(isstr, False), (dot, True), (hs, False)],
             'None')):
        tr.expect('out_ext from ' + name, base + [
            ('in_ext is None', False), ('out_ext is None', True),
            ('builder_cls is None', True)] + x,
            [('cls', 'call:find_builder_cls', r'.*out_ext=%s\b.*' % want)],
            must=('cls',), msg='the format comes from the output path')


def run(ctx):
    selection(ctx)
    active(ctx)
    table(ctx)
    targets(ctx)
    add_build(ctx)
    from . import b03
    r = 'B04.added'
    ctx.rule(r, 'A file that is added to a document is added to the builder '
             'of the target, with its format and target')
    b03.added(ctx, r)
