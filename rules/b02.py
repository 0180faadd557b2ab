"""B02: the status of a build is truthful"""
from .common import *

ASSUMPTIONS = ['A future reports the end of the process it runs']

STATES = ('ready', 'building', 'done', 'inactive', 'missing (parameters)',
          'missing (outfilepath)', 'cancelled')




def status(ctx):
    r = 'B02.status'
    ctx.rule(r, 'A builder is done only if no build is needed or its '
             'process succeeded and the output exists; a failure raises')
    tr = TraceRule(ctx, r, 'Builder.status')
    ACT, MISS = r'self\.active\(\)', r'self\.missing_parameters'
    NEED = r'self\.build_needed\((reset=False)?\)'
    FUT = r'self\.future'
    OK = r'(self\.|Builder\.)?runtime_success\((future=)?self\.future\)'
    OUT = r'self\.outfilepath\.(exists|is_file)\(\)'
    ev = [('reset', 'call', r'self\.build_needed\((reset=)?True\)'),
          ('error', 'call', r'self\.runtime_error\((future=)?self\.future\)'),
          ('baderror', 'call', r'.*runtime_error\(.*\)'),
          ('success', 'call', OK),
          ('badsuccess', 'call', r'.*runtime_success\(.*\)'),
          ('bad', 'store', '.*'), ('run', 'call', r'.*\.run_cmd\(.*\)')]
    never = ('bad', 'baderror', 'badsuccess', 'run')

    def case(name, fs, **kw):
        nv = tuple(kw.pop('never', ())) + never
        tr.expect(name, fs, ev, never=nv, **kw)
    a = [(ACT, True)]
    m = a + [(MISS, False)]
    n = m + [(NEED, True)]
    f = n + [(FUT + ' is None', False), (FUT, True)]
    d = f + [(FUT + r'\.done\(\)', True)]
    c = d + [(FUT + r'\.cancelled\(\)', False)]
    e = c + [(FUT + r'\.exception\(\) is None', True),
             (FUT + r'\.exception\(\)', False)]
    end = dict(never=('reset', 'error'))
    case('inactive', [(ACT, False)], ret="'inactive'", msg='inactive', **end)
    case('missing', a + [(MISS, True)], ret=r"'missing \(parameters\)'",
         msg='parameters are missing', **end)
    case('not needed', m + [(NEED, False)], ret="'done'",
         msg='nothing to do', **end)
    case('not started', n + [(FUT + ' is None', True), (FUT, False)],
         ret="'ready'", msg='to be started', **end)
    case('running', f + [(FUT + r'\.done\(\)', False),
                         (FUT + r'\.running\(\)', True)], ret="'building'",
         msg='not finished', **end)
    case('cancelled', d + [(FUT + r'\.cancelled\(\)', True)],
         ret="'cancelled'", msg='cancelled', **end)
    case('exception', c + [(FUT + r'\.exception\(\) is None', False),
                           (FUT + r'\.exception\(\)', True)],
         error=r'exception', msg='raised', **end)
    case('no output', e + [(OK, True), (OUT, False)], must=('success',),
         ret=r"'missing \(outfilepath\)'", msg='the output is missing', **end)
    case('success', e + [(OK, True), (OUT, True)], must=('success', 'reset'),
         ret=r"'done'", never=('error',), order=(('success', 'reset'),),
         msg='done; the inputs are recorded')
    case('failure', e + [(OK, False)], must=('success', 'error'),
         ret=r"(?!'(done|ready|building)').*", never=('reset',),
         msg='the error is reported')

    tr = TraceRule(ctx, r, 'Builder.missing_parameters')
    E = r'elem\(self\.parameters\)'
    KNOWN = r'self\._missing_parameters'
    ev = [('ask', 'call', E + r'\.exists\(\)'),
          ('badask', 'call', r'.*\.exists\(\)'),
          ('found', 'store', r'self\._missing_parameters = False'),
          ('bad', 'store', '.*'), ('it', 'iter', r'self\.parameters')]
    new = [(KNOWN, ('c', None))]
    some = new + [(r'self\.parameters', True), (r'0 < len\(self\.parameters'
                                                r'\)', True),
                  (r'len\(self\.parameters\) == 0', False)]
    none = new + [(r'self\.parameters', False), (r'0 < len\(self\.parameters'
                                                 r'\)', False),
                  (r'len\(self\.parameters\) == 0', True)]
    has = [(r"hasattr\(%s, 'exists'\)" % E, True)]
    tr.expect('found before', [(KNOWN, ('c', False))], ev, truth=False,
              never=('bad',), msg='found')
    tr.expect('no parameters', none, ev, truth=True, never=('bad', 'found'),
              msg='missing')
    tr.check('file missing', [
        t for t in tr.run(ev, some + has + [(E + r'\.exists\(\)', False)])
        if t.has('ask')], lambda t: t.truth is True and not t.some(
            'found', 'bad', 'badask'), 'missing, and asked again')
    tr.expect('files exist', some + has + [(E + r'\.exists\(\)', True)], ev,
              truth=False, must=('found',), never=('bad', 'badask'),
              msg='found')
    tr.check('all asked', [
        t for t in tr.run(ev, some + has) if seq(t).count('it') >= 2],
        lambda t: t.has('ask'), 'all files are looked for')


def build(ctx):
    repo = ctx.repo
    r = 'B02.build'
    ctx.rule(r, 'A build runs the command only when ready, a complete build '
             'until it has ended, and returns the status')
    tr = TraceRule(ctx, r, 'Builder.build')
    ev = [('run', 'call', r'self\.run_cmd\(\)'),
          ('badrun', 'call', r'.*\.run_cmd\(.*\)'),
          ('loop', 'iter', 'while'), ('bad', 'store', '.*')]
    for s in STATES:
        busy = s in ('ready', 'building')
        for comp in (True, False):
            fs = [('complete', comp), (r'self\.status', ('c', s))]
            if busy and comp:
                tr.check('%s, complete' % s, tr.run(ev, fs), lambda t: False,
                         'goes on until the end', minimum=0)
            elif s == 'building':
                tr.expect(s, fs, ev, never=('badrun', 'bad'), ret="'%s'" % s,
                          msg='goes on in the background')
            else:
                tr.expect('%s, %s' % (s, 'complete' if comp else 'once'), fs,
                          ev, never=('badrun', 'bad') + (() if busy else (
                              'run',)), must=('run',) if busy else (),
                          ret=re.escape(repr(s)),
                          msg='only started when ready')
    tr.check('each round', [t for t in tr.run(ev, [('complete', True)])
                            if seq(t).count('loop') >= 2],
             lambda t: t.has('run') and S(t.value) == 'self.status',
             'the command is started')
    tr = TraceRule(ctx, r, 'Builder.run_cmd')
    # commands are started once
    SUB = r'executor\.submit\(.*\)'
    ev = [('submit', 'call', r'executor\.submit\((?=.*\brun\b).*\)'),
          ('put', 'store', r'self\.future = executor\.submit\(.*\)'),
          ('bad', 'store', '.*')]
    idle = [(r'self\.future is None', True), (r'self\.future', False)]
    tr.expect('running', [(r'self\.future is None', False), (r'self\.future',
                                                             True)], ev,
              never=('submit', 'put', 'bad'), msg='not started twice')
    for act in (True, False):
        for args in (True, False):
            fs = idle + [(r'isinstance\(self\.action, str\)', act),
                         ('args', args), (r'0 < len\(args\)', args)]
            must, never = (('submit', 'put'), ('bad',)) if act or args else (
                (), ('submit', 'put', 'bad'))
            tr.expect('idle, action %s, arguments %s' % (act, args), fs, ev,
                      must=must, never=never, order=(('submit', 'put'),),
                      exactly={'submit': 1, 'put': 1} if must else None,
                      msg='started, once')


def composite(ctx):
    repo = ctx.repo
    r = 'B02.composite'
    ctx.rule(r, 'A composite builder is done only when all subbuilders are; '
             'they run in order, each after the end of the one before, '
             'unless parallel; finished ones may be removed, no others')
    tr = TraceRule(ctx, r, 'CompositeBuilder.status')
    SB = r'elem\(self\.subbuilders\)'
    ST = SB + r'\.status'
    ev = [('it', 'iter', r'self\.subbuilders'),
          ('badit', 'iter', r'.*self\.subbuilders\[.*'),
          ('ask', 'call', ST), ('bad', 'store', '.*')]
    D = [(ST + " == 'done'", True), (ST + ' is None', False)]
    ND = [(ST + " == 'done'", False), (ST + ' is None', False)]
    tr.expect('all done', D, ev, ret="'done'", never=('bad', 'badit'),
              msg='done')
    tr.check('one not done', [t for t in tr.run(ev, ND)
                              if seq(t).count('it') >= 2 or t.has('ask')],
             lambda t: re.search(r'\.status', S(t.value)) is not None and
             re.fullmatch(r'comp\(.*\)\[0\]|%s|next\(.*\)' % ST, S(t.value))
             is not None, 'the status of the first that is not done')
    ctx.ob(r, tr.name + ': reads', any(t.has('ask') or seq(t).count('it') > 1
                                       for t in tr.run(ev, D)),
           ctx.where(tr.f), 'the subbuilders are asked')

    tr = TraceRule(ctx, r, 'CompositeBuilder.build')
    ALL = r'(?:self\.subbuilders|list\(self\.subbuilders\)|self\.subbuilders' \
          r'(?:\.copy\(\)|\[:\]))'
    E = r'elem\(self\.subbuilders\)'
    ev = [('reset', 'call', r'self\.build_needed\((reset=)?True\)'),
          ('badreset', 'call', r'.*\.build_needed\(.*\)'),
          ('build', 'call', E + r'\.build\((complete=False)?\)'),
          ('badbuild', 'call', r'.*\.build\(.*\)'),
          ('rm', 'call', r'self\.subbuilders\.remove\(%s\)' % E),
          ('bad', 'call', r'self\.subbuilders\.(?!copy\()\w+\(.*\)'),
          ('new', 'store', r'self\.subbuilders = comp\(.*\)'),
          ('new', 'store', r'self\.subbuilders\[:\] = comp\(.*\)'),
          ('it', 'iter', ALL),
          ('loop', 'iter', 'while'),
          ('bad', 'store', '.*'), ('bad', 'del', '.*')]
    nv = ('bad', 'badbuild', 'badreset')
    for own in ('ready', 'building', 'done', 'missing (parameters)'):
        for sub in ('ready', 'building', 'done', 'cancelled'):
            for par in (True, False):
                name = '%s, subbuilder %s, %s' % (
                    own, sub, 'parallel' if par else 'in order')
                fs = [('complete', False), (r'self\.parallel', par),
                      (r'self\.status', ('c', own)),
                      (E + r'\.status', ('c', sub)),
                      (r'self\.clear_done', False)]
                out = tr.run(ev, fs)
                busy = own in ('ready', 'building')
                goes = busy and sub == 'ready'

                def pred(t):
                    if t.some('rm', 'new', *nv):
                        return False
                    if S(t.value) != repr(own):
                        return False
                    if t.has('reset') is not (own == 'done'):
                        return False
                    s = seq(t)
                    if not goes:
                        return not t.has('build')
                    if not par and t.has('build'):
                        return s.count('build') == 1 and \
                            'it' not in s[s.index('build'):]
                    return True
                tr.check(name, out, pred, 'what is ready is built')
                if goes:
                    tr.check(name + ', built', [
                        t for t in out if seq(t).count('it') >= 2],
                        lambda t: t.has('build'), 'built', minimum=0)
                    tr.check(name + ', started', [
                        t for t in out if t.has('build')], lambda t: not par
                        or 'it' in seq(t)[seq(t).index('build'):],
                        'all that may run are started')
                if busy and sub in ('building', 'done'):
                    again = any(seq(t).count('it') >= 2 for t in out)
                    ctx.ob(r, tr.name + ': ' + name + ', next', again is (
                        par or sub == 'done'), ctx.where(tr.f),
                        'the next subbuilder has its turn only if allowed')
    for s in ('ready', 'building'):
        tr.check('%s, complete' % s, tr.run(ev, [
            ('complete', True), (r'self\.status', ('c', s))]),
            lambda t: False, 'goes on until the end', minimum=0)
    for sub in ('ready', 'done', 'building', 'cancelled'):
        # the finished ones may be gathered first
        FIN = r'comp\(list, %s, .*self\.subbuilders\)?\)' % E
        ev2 = [('rm', 'call', r'self\.subbuilders\.remove\(elem\(%s\)\)' % FIN),
               ('sel', 'collect', E), ('more', 'iter', FIN)] + ev
        out = tr.run(ev2, [('complete', False), (r'self\.status', ('c', 'x')),
                           (E + r'\.status', ('c', sub)),
                           (r'self\.clear_done', True)])
        two = any(t.has('more') for t in out)
        tr.check('removed, subbuilder ' + sub, out, lambda t: not t.has(
            'sel' if two else 'rm') if sub != 'done' else True,
            'only finished ones')
        if sub == 'done':
            tr.check('removed', [t for t in out if seq(t).count('it') >= 2 and
                                 (not two or seq(t).count('more') >= 2)],
                     lambda t: t.has('rm') and (t.has('sel') or not two) or
                     t.has('new'), 'removed')
    g = tr.g
    for n in g.calls():
        if n.pred and g.cname(n) == 'remove':
            heads = [h for h in g.nodes if h.pred and h.kind == 'iter' and
                     n in g.reachable(h) and h in g.reachable(n)]
            ok = not any(g.expand(h.term, h)[0] == 'attr' for h in heads
                         if S(g.expand(h.term, h)) == 'self.subbuilders')
            ctx.ob(r, 'removal', ok, ctx.where(n), 'the list is not changed '
                   'while it is iterated')
    for c in repo.subclasses(repo.cls('CompositeBuilder')):
        if 'status' not in c.own or c.name == 'CompositeBuilder':
            continue
        # the status of the subbuilders, and builds of the builder itself
        tr = TraceRule(ctx, r, c.name + '.status')
        SUP = r'(?:\w+\.status\.fget\(self\)|super\(.*\)\.status)'
        ev = [('needed', 'call', r'self\.build_needed\(\)'),
              ('reset', 'call', r'self\.build_needed\(.+\)'),
              ('scan', 'call', r'self\.scan_parameters\(\)')]
        done = SUP + " == 'done'"
        tr.expect('status, subbuilders not done', [(done, False)], ev,
                  ret=SUP, msg='the status of the subbuilders')
        tr.expect('status, build needed', [
            (done, True), (r'self\.missing_parameters', False),
            (r'self\.build_needed\(\)', True)], ev, ret="'ready'",
            never=['reset'], msg='ready')
        tr.expect('status, build not needed', [
            (done, True), (r'self\.missing_parameters', False),
            (r'self\.build_needed\(\)', False)], ev,
            ret=SUP + "|'done'", must=['needed'], never=['reset'],
            order=[('scan', 'needed')], msg='done')
        tr.expect('status, missing', [
            (done, True), (r'self\.missing_parameters', True)], ev,
            ret=r"'missing \(parameters\)'", msg='missing')
    seqb = repo.cls('SequentialBuilder')
    for name, want in (('SequentialBuilder', False),
                       ('ParallelBuilder', True)):
        o, v = repo.lookup(repo.cls(name), 'parallel')
        ctx.ob(r, name + ': parallel', const_of(repo, o, v) is want,
               repo.cls(name).module.relpath, str(want))
    for c in repo.subclasses(seqb):
        o, v = repo.lookup(c, 'parallel')
        ctx.ob(r, c.name + ': parallel', const_of(repo, o, v) is False,
               c.module.relpath, 'in order')


def const_of(repo, owner, v):
    try:
        return repo.eval_const(owner.module, v)
    except Exception:
        return None


def copies(ctx, r):
    """a file is copied to its output, unless that is the file itself"""
    tr = TraceRule(ctx, r, 'Copy.build')
    SRC = r'(?:self\.parameters\[0\]|self\.infilepaths\[0\])'
    ev = [('copy', 'call', r'(shutil\.)?copy(file|2)?\((?=.*%s)(?=.*self\.'
           r'outfilepath).*\)' % SRC),
          ('badcopy', 'call', r'(shutil\.)?(copy\w*|move)\(.*\)'),
          ('reset', 'call', r'self\.build_needed\((reset=)?True\)'),
          ('bad', 'store', '.*')]
    for s in ('ready', 'done', 'missing (parameters)'):
        go = s == 'ready'
        tr.expect(s, [(r'self\.status', ('c', s))], ev, exc=False,
                  must=('copy', 'reset') if go else (),
                  never=('bad', 'badcopy') + (() if go else ('copy',
                                                             'reset')),
                  order=(('copy', 'reset'),), ret=re.escape(repr(s)),
                  msg='the file is copied')
    for n in tr.g.calls():
        if n.pred and re.match('copy', tr.g.cname(n) or ''):
            args = [S(tr.g.expand(a, n)) for a in n.term[2]]
            ctx.ob(r, 'order', len(args) < 2 or 'outfilepath' in args[1],
                   ctx.where(n), 'the input is copied to the output')
            ctx.ob(r, 'same file', bool(caught(n) & {
                'SameFileError', 'Exception', 'BaseException', 'OSError',
                'Error'}), ctx.where(n), 'copying a file to itself is not '
                'an error')
    tr = TraceRule(ctx, r, 'Copy.status')
    NEED = r'self\.build_needed\((reset=False)?\)'
    SAME = r'self\.infilepaths\[0\] == self\.outfilepath'
    E = r'elem\(self\.infilepaths\)\.exists\(\)'
    ev = [('ask', 'call', E), ('reset', 'call', r'.*build_needed\(.*True\)')]
    tr.expect('not needed', [(NEED, False)], ev, ret="'done'",
              never=('reset',), msg='nothing to do')
    tr.expect('same file', [(NEED, True), (r'self\.infilepaths', True),
                            (SAME, True)], ev, ret="'done'",
              never=('reset',), msg='nothing to do')
    go = [(NEED, True), (SAME, False)]
    tr.check('missing', [t for t in tr.run(ev, go + [(E, False)])
                         if t.has('ask')], lambda t: S(t.value) ==
             "'missing (parameters)'" and not t.has('reset'), 'missing')
    tr.expect('ready', go + [(E, True)], ev, ret="'ready'",
              never=('reset',), msg='ready')


def inprocess(ctx):
    repo = ctx.repo
    r = 'B02.inprocess'
    ctx.rule(r, 'Builders that write their output themselves write it, then '
             'record the inputs')
    copies(ctx, r)
    tr = TraceRule(ctx, r, 'SaveTempFile.build')
    STR = r'(?:comp\(list, elem\(self\.parameters\), tuple\(self\.parameters' \
          r'\)\)\[0\]|elem\(self\.parameters\)|next\(.*\))'
    ev = [('write', 'call', r'self\.outfilepath\.write_text\((data=)?%s'
           r'(, encoding=.*)?\)' % STR),
          ('badwrite', 'call', r'.*\.write\w*\(.*\)'),
          ('reset', 'call', r'self\.build_needed\((reset=)?True\)'),
          ('bad', 'store', '.*')]
    I = r'isinstance\(elem\(self\.parameters\), str\)'
    tr.check('text', [t for t in tr.run(ev, [(I, True)])
                      if t.kind == 'return'],
             lambda t: t.has('write', 'reset') and not t.some(
                 'badwrite', 'bad') and seq(t).index('write') <
             seq(t).index('reset') and S(t.value) == 'self.status',
             'the text is written')
    tr.check('no text', tr.run(ev, [(I, False)]), lambda t: raises(
        t, 'BuildError') and not t.some('write', 'badwrite', 'reset'),
        'an error')
    tr = TraceRule(ctx, r, 'JinjaRender.build')
    REND = r'self\.template\(\)\.render\((?=.*\*\*=self\.context)(?=.*' \
           r'outfilepath=self\.outfilepath)%s.*\)'
    EXT = {True: r'(?!.*target=)', False: r'(?=.*target=self\.render_ext)'}
    ev = [('write', 'call', r'self\.outfilepath\.write_text\((data=)?self\.'
           r'template\(\)\.render\(.*\)(, encoding=.*)?\)'),
          ('badwrite', 'call', r'.*\.write\w*\(.*\)'),
          ('own', 'call', REND % EXT[True]),
          ('ext', 'call', REND % EXT[False]),
          ('badrender', 'call', r'.*\.render\(.*\)'),
          ('reset', 'call', r'self\.build_needed\((reset=)?True\)'),
          ('bad', 'store', '.*')]
    for own in (True, False):
        tr.expect('render, target in context %s' % own, [
            (r"'target' in self\.context", own)], ev,
            must=('write', 'reset', 'own' if own else 'ext'),
            never=('bad', 'badwrite', 'badrender', 'ext' if own else 'own'),
            order=(('write', 'reset'),), ret=r'self\.status',
            msg='the rendered text is written')
    recorded(ctx, r)


def recorded(ctx, r):
    repo = ctx.repo
    for c in repo.subclasses(repo.cls('Builder')):
        f = c.own.get('build')
        if f is None or c.name in ('Builder', 'CompositeBuilder'):
            continue
        tr = TraceRule(ctx, r, f, self_cls=c)
        ev = [('write', 'call', r'.*\.write(str|_text|_bytes)?\(.*\)'),
              ('write', 'call', r'(shutil\.)?(copy\w*|move)\(.*\)'),
              ('reset', 'call', r'self\.build_needed\((reset=)?True\)')]
        out = [t for t in tr.run(ev, []) if t.kind == 'return' and
               t.has('write')]
        tr.check(c.name + ': recorded', out, lambda t: t.has('reset') and
                 seq(t)[-1] == 'reset', 'recorded after the last write',
                 minimum=0)


def process(ctx):
    r = 'B02.process'
    ctx.rule(r, 'A process succeeds only with exit code 0; a failure is '
             'raised with its command and output; a timeout ends the process')
    tr = TraceRule(ctx, r, 'builders.executor:run')
    PO = r'(subprocess\.)?Popen\(.*\)'
    CM = PO + r'\.communicate\((timeout=)?timeout\)'
    ev = [('text', 'call', r'.*\.decode\(.*\)'),
          ('result', 'call', r'PopenResult\(.*\)'),
          ('wait', 'call', CM),
          ('wait2', 'call', PO + r'\.(communicate|wait)\(\)'),
          ('kill', 'call', PO + r'\.(kill|terminate)\(\)'),
          ('popen', 'call', r'subprocess\.Popen\((?=.*\*\*=kwargs)(?=.*stdout='
           r'subprocess\.PIPE)(?=.*stderr=subprocess\.PIPE).*\)'),
          ('badpopen', 'call', r'subprocess\..*')]
    tr.check('finished', tr.run(ev, []), lambda t: t.has('popen', 'wait')
             and not t.some('badpopen', 'kill') and re.fullmatch(
                 r'PopenResult(?=.*[( ]args=%s\.args)(?=.*[( ]returncode=%s'
                 r'\.returncode)(?=.*[( ]stdout=%s\[0\]\.decode\()(?=.*[( ]'
                 r'stderr=%s\[1\]\.decode\()\(.*\)' % (PO, PO, CM, CM), S(t.value)), 'the result of the process',
             kinds=('return',))
    out = tr.run(ev, [], exc=True)
    tr.check('timeout', [t for t in out if t.has('kill')],
             lambda t: t.kind == 'raise' and not (
                 t.has('wait2') and seq(t).index('wait2') <
                 seq(t).index('kill')), 'a timeout is an error; the process '
             'is ended first')
    f = ctx.fn('builders.executor:run')
    for n in tr.g.calls():
        if n.pred and tr.g.cname(n) == 'communicate' and (
                n.term[2] or n.term[3]):
            ctx.ob(r, 'timeout', bool(caught(n) & {
                'TimeoutExpired', 'Exception', 'BaseException'}),
                ctx.where(n), 'the process is ended')
    tr = TraceRule(ctx, r, 'builders.executor:runtime_success')
    tr.expect('success', [(r'future\.result\(\)\.returncode', ('c', 0))], [],
              truth=True, msg='exit code 0')
    for code in (1, 2, -9, 127):
        tr.expect('exit code %d' % code, [
            (r'future\.result\(\)\.returncode', ('c', code))], [],
            truth=False, msg='a failure')
    tr = TraceRule(ctx, r, 'builders.executor:runtime_error')
    R = r'future\.result\(\)'
    for none in (True, False):
        tr.expect('raised, message %s' % none, [
            ('raise_error', True), ('error_msg is None', none)], [
            ('cmd', 'store', r"BuildError\(.*\)\.cmd = ' '\.join\(%s\.args\)"
             % R),
            ('code', 'store', r'BuildError\(.*\)\.returncode = %s\.returncode'
             % R),
            ('out', 'store', r'BuildError\(.*\)\.shell_out = %s\.stdout' % R),
            ('err', 'store', r'BuildError\(.*\)\.shell_err = %s\.stderr' % R),
            ('bad', 'store', '.*')], error='BuildError', never=('bad',),
            must=('cmd', 'code', 'out', 'err'),
            msg='the command and its output')
    tr.expect('not raised', [('raise_error', False)], [], ret='None',
              msg='a warning only')
    d = tr.f.default_of('raise_error')
    ctx.ob(r, 'default of raise_error', d is not None and
           ctx.repo.eval_const(tr.f.module, d) is True, ctx.where(tr.f),
           'errors are raised')


def active(ctx):
    r = 'B02.active'
    ctx.rule(r, 'A builder is active only if all that it requires is there: '
             'a priority, its list of executables and each of these')
    tr = TraceRule(ctx, r, 'Builder.active')
    PRI = r"'priority' in cls\.active_requirements"
    REQ = r"'required_execs' in cls\.active_requirements"
    ALL = r"'all_execs' in cls\.active_requirements"
    HASP = r'isinstance\(cls\.priority, int\)'
    HASR = r'isinstance\(cls\.required_execs, tuple\)'
    FIND = r'((distutils\.spawn\.)?find_executable|(shutil\.)?which)\(.*\)'
    CACHE = r'.* in Builder\._active'
    ev = [('put', 'call', r'Builder\._active\.setdefault\(cls\.__name__, '
           r'(?P<x>True|False)\)'),
          ('put', 'store', r'Builder\._active\[cls\.__name__\] = '
           r'(?P<x>True|False)'),
          ('find', 'call', FIND), ('bad', 'store', '.*')]
    any_ = (r'cls\.active_requirements', True)
    ex = (r'cls\.required_execs', True)
    found = [(r'%s is None' % FIND, False), (FIND, True)]
    good = [(PRI, True), (REQ, True), (ALL, True), (HASP, True), (HASR, True)]

    def val(t, v):
        puts = t.get('put')
        return len(puts) == 1 and puts[0][1] == str(v) and not t.has('bad')
    base = [(CACHE, False), any_, ex]
    tr.check('all there', [t for t in tr.run(ev, base + good + found)],
             lambda t: val(t, True), 'active', kinds=('return',))
    tr.check('no priority', tr.run(ev, base + [(PRI, True), (HASP, False)]),
             lambda t: val(t, False), 'inactive', kinds=('return',))
    tr.check('no list', tr.run(ev, base + [(REQ, True), (HASR, False)]),
             lambda t: val(t, False), 'inactive', kinds=('return',))
    nf = [(r'.*is None', True), (FIND, False)]
    tr.check('executable missing', [t for t in tr.run(
        ev, base + [(PRI, True), (REQ, True), (ALL, True), (HASP, True),
                    (HASR, True)] + [
            (r'(%s|elem\(.*\)|.*elem\(.*\)\]) is None' % FIND, True),
            (r'(%s|.*elem\(.*\)\])' % FIND, False)]) if t.has('find')],
        lambda t: val(t, False), 'inactive', kinds=('return',))
    tr.check('requirements', tr.run(ev, [
        (CACHE, False), (r'cls\.active_requirements', False)]),
        lambda t: val(t, True), 'no requirements', kinds=('return',))
    tr.check('not required', tr.run(ev, base + [
        (PRI, False), (REQ, False), (ALL, False), (HASP, False),
        (HASR, False)]), lambda t: val(t, True), 'not required',
        kinds=('return',))
    tr.expect('known', [(CACHE, True)], ev, never=('put', 'find', 'bad'),
              ret=r'Builder\._active(\[cls\.__name__\]|\.get\(.*\))',
              msg='as determined before')


def receivers(ctx):
    r = 'B02.document'
    ctx.rule(r, 'The build of a document goes on until its builders have '
             'ended, and returns their status')
    tr = TraceRule(ctx, r, 'builders.target_builders.receivers:build')
    RB = r'.*\.create_root_builder\((document=)?document\)'
    ev = [('build', 'call', RB + r'\.build\((complete=\w+)?\)'),
          ('badbuild', 'call', r'.*\.build\(.*\)'),
          ('loop', 'iter', 'while'), ('bad', 'store', '.*')]
    for s in STATES:
        busy = s in ('ready', 'building')
        for comp in (True, False):
            fs = [('complete', comp), (RB + r'\.status', ('c', s))]
            if busy and comp:
                tr.check('%s, complete' % s, tr.run(ev, fs), lambda t: False,
                         'goes on until the end', minimum=0)
            else:
                tr.expect('%s, %s' % (s, 'complete' if comp else 'once'), fs,
                          ev, never=('badbuild', 'bad') + (() if busy else (
                              'build',)), must=('build',) if busy else (),
                          ret=re.escape(repr(s)), msg='while needed')
    d = tr.f.default_of('complete')
    ctx.ob(r, 'default of complete', d is not None and
           ctx.repo.eval_const(tr.f.module, d) is True, ctx.where(tr.f),
           'until the end')
    tr = TraceRule(ctx, r, 'builders.target_builders.receivers:build_needed')
    E = r'(.*\[elem\(.*\)\]|elem\(.*\))\.build_needed\((reset=False)?\)'
    ev = [('ask', 'call', E), ('badask', 'call', r'.*\.build_needed\(.*\)')]
    tr.check('one needed', [t for t in tr.run(ev, [(E, True)])
                            if t.has('ask')], lambda t: t.truth is True and
             not t.has('badask'), 'needed')
    tr.expect('none needed', [(E, False)], ev, truth=False,
              never=('badask',), msg='not needed')


def reset_done(ctx, r):
    """a group records its inputs only when it is done"""
    tr = TraceRule(ctx, r, 'CompositeBuilder.build')
    ev = [('reset', 'call', r'self\.build_needed\((reset=)?True\)'),
          ('badreset', 'call', r'.*\.build_needed\(.*\)')]
    for own in STATES:
        tr.check('status ' + own, tr.run(ev, [
            ('complete', False), (r'self\.status', ('c', own))]),
            lambda t: not t.has('badreset') and t.has('reset') is (
                own == 'done'), 'recorded when done', kinds=('return',))


def programs(ctx, r):
    """the programs that commands need, and their time limits"""
    repo = ctx.repo
    base = repo.cls('Builder')
    calls = {('latexmk', '-pdf'): 'pdflatex'}
    n = 0
    for c in repo.subclasses(base):
        owner, m = repo.lookup(c, 'build')
        action = repo.class_const(c, 'action')
        if owner is not base or not isinstance(action, str):
            continue
        n += 1
        w = c.module.relpath
        words = action.split()
        execs = repo.class_const(c, 'required_execs')
        need = {words[0]} | {p for (x, o), p in calls.items()
                             if words[0] == x and o in words}
        ctx.ob(r, c.name + ': programs', isinstance(
            execs, (tuple, list)) and need <= set(execs), w,
            'the programs it runs have to be there')
        act = repo.class_const(c, 'active_requirements')
        ctx.ob(r, c.name + ': requirements', isinstance(
            act, (tuple, list)) and 'all_execs' in act and
            'required_execs' in act, w, 'the programs are looked for')
        t = repo.class_const(c, 'timeout')
        ctx.ob(r, c.name + ': time limit', isinstance(t, (int, float)) and
               t > 0, w, 'a time limit')
    ctx.need(r, list(range(n)), 6, 'commands')
    tr = TraceRule(ctx, r, 'Builder.run_cmd')
    ev = [('submit', 'call', r'executor\.submit\((?=.*\brun\b)(?=.*timeout=self'
           r'\.timeout[,)]).*\)'), ('bad', 'call', r'executor\.submit\(.*\)')]
    tr.check('time limit', tr.run(ev, []), lambda t: not t.has('bad'),
             'the time limit of the builder')


def chained(ctx):
    repo = ctx.repo
    r = 'B02.chain'
    ctx.rule(r, 'The members of a sequential build are given, one after the '
             'other, the output of the one before as their input; the output '
             'of the last is the output of the build')
    tr = TraceRule(ctx, r, 'SequentialBuilder.chain_subbuilders')
    SB = r'(?:self\.subbuilders|list\(self\.subbuilders\)|self\.subbuilders' \
         r'(?:\.copy\(\)|\[:\]))'
    E = r'elem\(%s\)' % SB
    OWN = r'(?:self\.parameters|list\(self\.parameters\)|self\.parameters' \
          r'\.copy\(\))'
    NEXT = r'\(?list\(%s\.outfilepath\) \+ (?:list\()?%s\.not_infilepaths' \
           r'\)*' % (E, E)
    ev = [('first', 'store', r'%s\.parameters = %s' % (E, OWN)),
          ('next', 'store', r'%s\.parameters = %s' % (E, NEXT)),
          ('clear', 'store', r'%s\.outfilepath = None' % E),
          ('last', 'store', r'self\.subbuilders\[-1\]\.outfilepath = self\.'
           r'outfilepath'),
          ('sub', 'call', E + r'\.chain_subbuilders\(\)'),
          ('it', 'iter', SB), ('badit', 'iter', r'.*subbuilders.*'),
          ('bad', 'store', '.*'), ('bad', 'aug', '.*'), ('bad', 'del', '.*'),
          ('bad', 'call', r'self\.(subbuilders|parameters)\.(?!copy\()\w+\('
           r'.*\)')]
    fs = [(E + r'\.outfilepath', True), (E + r'\.outfilepath is None', False),
          (OWN, True), (NEXT, True)]
    for cp in (True, False):
        for sub in (True, False):
            out = tr.run(ev, fs + [
                (r'isinstance\(self\.subbuilders\[-1\], Copy\)', cp),
                (r"hasattr\(%s, 'chain_subbuilders'\)" % E, sub)])
            out = [t for t in out if t.kind == 'return']
            name = 'copy %s, nested %s' % (cp, sub)

            def pred(t):
                s = seq(t)
                puts = [e for e in s if e in ('first', 'next')]
                both = [e for e in s if e in ('first', 'next', 'clear')]
                return not t.some('bad', 'badit') and \
                    puts[:1] in ([], ['first']) and \
                    'first' not in puts[1:] and \
                    both[1::2] == ['clear'] * len(puts) and \
                    'clear' not in both[::2] and t.has('last') == cp and (
                        sub or not t.has('sub'))
            tr.check('chain, ' + name, out, pred, 'the output of one is the '
                     'input of the next')
            if sub:
                tr.check('chained, ' + name, out, lambda t: sum(
                    e in ('first', 'next') for e in seq(t)) >= seq(t).count(
                        'it') - 2 - seq(t).count('sub'),
                    'all are given their inputs')
                ctx.ob(r, tr.name + ': nested, ' + name, any(
                    t.has('sub') for t in out), ctx.where(tr.f),
                    'nested builds are chained')
    g = tr.g
    for n in g.nodes:
        if n.kind == 'store' and n.pred and re.fullmatch(
                E + r'\.parameters', S(g.expand(n.target, n))):
            v = S(g.expand(n.term, n))
            ctx.ob(r, tr.name + ': next', re.fullmatch(
                r'(phi\()?(%s|%s)( \| (%s|%s))*\)?' % (
                    OWN, NEXT, OWN, NEXT), v) is not None and
                re.search(NEXT, v) is not None, ctx.where(n),
                'the next has the output as its input: ' + v)
    tr = TraceRule(ctx, r, 'SequentialBuilder.__init__')
    ev = [('copy', 'call', r'self\.subbuilders\.append\(Copy\((env=)?env, '
           r'use_cache=self\.use_cache\)\)'),
          ('chain', 'call', r'self\.chain_subbuilders\(\)'),
          ('super', 'call', r'super\(.*\)\.__init__\((env=)?env, \*\*=kwargs'
           r'\)'),
          ('bad', 'call', r'self\.subbuilders\..*'), ('bad', 'store', '.*')]
    for some in (True, False):
        for cp in (True, False):
            for ch in (True, False):
                must = ['super']
                never = ['bad']
                (must if some and cp else never).append('copy')
                (must if some and ch else never).append('chain')
                tr.expect('subbuilders %s, copy %s, chain %s' % (
                    some, cp, ch), [(r'self\.subbuilders', some),
                                    (r'self\.copy', cp),
                                    (r'self\.chain_on_creation', ch)], ev,
                          must=must, never=never, order=(
                              ('super', 'copy'), ('copy', 'chain')
                          ) if some and cp and ch else (),
                          msg='the copy is the last of the chain')


def collected(ctx):
    r = 'B02.all'
    ctx.rule(r, 'A build of a document includes the builders of all targets '
             'of the document and of all documents below it')
    tr = TraceRule(ctx, r, 'Environment.collect_target_builders')
    for given in (True, False):
        D = 'document' if given else r'self\.root_document'
        DL = D + r'\.documents_list\((?=.*only_subdocuments=False)(?=.*' \
            r'recursive=True).*\)'
        E = r'elem\(%s\)\.context' % DL
        VAL = E + r"\[?(\['builders'\]|\.get\('builders'.*\))\.values\(\)"
        ev = [('add', 'collect', r'(elem\(|list\(|tuple\(|star\()?%s\)?' % VAL),
              ('bad', 'collect', '.*'),
              ('add', 'call', r'(?:unk|list).*\.extend\((?:%s|elem\(\.\.\..*'
               r"\.documents_list\(only_subdocuments=False, recursive=True\)\)"
               r"\.context\['builders'\]\.values\(\))\)" % VAL),
              ('add', 'aug', r'.* \+= (?:list\()?%s\)?' % VAL),
              ('it', 'iter', DL), ('badit', 'iter', r'.*documents_list.*|.*'
                                   r'documents\b.*\[.*'),
              ('bad', 'store', '.*'), ('bad', 'del', '.*'),
              ('bad', 'call', r'.*\.(pop|remove|clear)\(.*\)')]
        fs = [('document is None', not given),
              (r"'builders' in " + E, True)]
        tr.expect('document %s' % given, fs, ev, it='it', must=('add',),
                  never=('bad', 'badit'),
                  ret=r'(?!.*slice\().*comp\(.*|list\(.*|\(list\(.*',
                  msg='the builders of all documents')
    tr = TraceRule(ctx, r, 'Environment.create_root_builder')
    CT = r'self\.collect_target_builders\((document=)?document\)'
    RB = r'ParallelBuilder\((env=)?self\)'
    tr.expect('root builder', [], [
        ('add', 'aug', r'%s\.subbuilders \+= (list\()?%s\)?' % (RB, CT)),
        ('add', 'call', r'%s\.subbuilders\.extend\(%s\)' % (RB, CT)),
        ('add', 'store', r'%s\.subbuilders = (list\()?%s\)?' % (RB, CT)),
        ('bad', 'call', r'.*subbuilders\..*'),
        ('bad', 'store', r'(?!.*\.clear_done = )')], must=('add',),
        never=('bad',), ret=RB, msg='the builders of the documents')
    tr = TraceRule(ctx, r, 'Environment.build')
    tr.expect('environment', [], [], ret=r'self\.create_root_builder\(\)\.'
              r'build\(complete=complete\)', msg='the whole project')


def loaded(ctx, r):
    """the build of a target loads the document first"""
    tr = TraceRule(ctx, r, 'TargetBuilder.build')
    DOC = r'(?:self\.context\.document|getattr\(self\.context, \'document\'' \
          r'(?:, None)?\))'
    ev = [('load', 'call', DOC + r'\.load\((reload=\w+)?\)'),
          ('build', 'call', r'super\(.*\)\.build\((complete=)?complete\)'),
          ('badbuild', 'call', r'.*\.build\(.*\)'), ('bad', 'store', '.*')]
    for doc in (True, False):
        tr.expect('build, document %s' % doc, [
            (DOC + ' is None', not doc), (DOC, doc),
            (r"hasattr\(self\.context, 'document'\)", doc)], ev,
            must=('build', 'load') if doc else ('build',),
            never=('bad', 'badbuild') + (() if doc else ('load',)),
            order=(('load', 'build'),) if doc else (), ret=r'super\(.*\)\.build\(.*\)',
            msg='the document is loaded, then built')


def raised(ctx):
    """errors of builds are not hidden"""
    r = 'B02.raised'
    ctx.rule(r, 'Errors of a build are not caught on the way')
    names = {'build', 'status', 'runtime_error', 'run_cmd', 'build_needed',
             'create_root_builder', 'result', 'exception'}
    for f in ctx.repo.functions:
        if '/builders/' not in f.module.relpath:
            continue
        g = ctx.graph(f)
        for n in g.calls():
            if n.pred and g.cname(n) in names:
                ctx.ob(r, '%s: %s' % (f.short, g.cname(n)), not hidden(n),
                       ctx.where(n), 'errors are passed on')


def run(ctx):
    status(ctx)
    build(ctx)
    composite(ctx)
    inprocess(ctx)
    process(ctx)
    active(ctx)
    receivers(ctx)
    chained(ctx)
    collected(ctx)
    r = 'B02.load'
    ctx.rule(r, 'The build of a target loads its document before')
    loaded(ctx, r)
    raised(ctx)
    from . import b01
    r = 'B02.group'
    ctx.rule(r, 'The build of a group is needed if that of a member is')
    b01.parallel(ctx, r)
    r = 'B02.programs'
    ctx.rule(r, 'Builders with a command require its program and those it '
             'runs, and limit its time')
    programs(ctx, r)
