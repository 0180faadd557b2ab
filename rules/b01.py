"""B01: changes of inputs are detected"""
from .common import *

ASSUMPTIONS = ['MD5 digests of different contents differ',
               'Only the content of a file (not its date or name) counts']


def run(ctx):
    repo = ctx.repo
    r = 'B01.exist'
    ctx.rule(r, 'A build is needed whenever an input file or the output file '
             'does not exist')
    tr = TraceRule(ctx, r, 'Decision.build_needed')
    IN = r'(?:inputs|list\(\)|comp\(\w+, (?:unk\(.*?\)|elem\(inputs\)), ' \
         r'tuple\(inputs\)\))'
    EL = r'elem\(%s\)' % IN
    ev = [('ask', 'call', EL + r'\.(exists|is_file)\(\)'),
          ('out', 'call', r'output\.(exists|is_file)\(\)'),
          ('badask', 'call', r'.*\.(exists|is_file|is_dir)\(\)'),
          ('keep', 'collect', r'elem\(inputs\)'),
          ('bad', 'store', '.*'),
          ('it', 'iter', 'inputs'), ('itn', 'iter', IN)]
    path = [(r'isinstance\(%s, .*\)' % EL, True),
            (r'hasattr\(%s, .*\)' % EL, True)]
    outs = {True: (r'isinstance\(output, .*\)', True),
            False: (r'isinstance\(output, .*\)', False)}
    ex = (EL + r'\.(exists|is_file)\(\)', True)
    nex = (EL + r'\.(exists|is_file)\(\)', False)
    oex = (r'output\.(exists|is_file)\(\)', True)
    onex = (r'output\.(exists|is_file)\(\)', False)

    def kinds(fs):
        return [t for t in tr.run(ev, fs) if not raises(t, 'AssertionError')]
    for p in (True, False):
        out = kinds(path + [outs[p], oex, nex])
        tr.check('input missing, output path %s' % p,
                 [t for t in out if t.has('ask')],
                 lambda t: t.truth is True and not t.some('badask', 'bad'),
                 'a build is needed')
        tr.check('input asked, output path %s' % p, [
            t for t in out if seq(t).count('it') >= 2 and not t.has('keep')],
            lambda t: t.has('ask'), 'all paths are tested', minimum=0)
        tr.check('all inputs, output path %s' % p, [
            t for t in kinds(path + [outs[p], ex, oex]) if t.has('ask')],
            lambda t: any(e in ('it', 'itn') for e in seq(t)[
                seq(t).index('ask'):]), 'the search goes on until an input '
            'is missing')
        tr.check('nothing missing, output path %s' % p,
                 kinds([outs[p], ex, oex]), lambda t: t.truth is False and
                 not t.some('badask', 'bad'), 'the files exist')
    tr.check('output missing', kinds([outs[True], ex, onex]),
             lambda t: t.truth is True, 'a build is needed')
    tr.check('no path as output', kinds([outs[False], ex, onex]),
             lambda t: t.truth is False, 'nothing is missing')

    r = 'B01.hashes'
    ctx.rule(r, 'With all files there, a build is needed if and only if the '
             'hash stored for the inputs is not that of the output; a reset '
             'stores the current hash')
    tr = TraceRule(ctx, r, 'Md5Decision.build_needed')
    SUP = r'super\(.*\)\.build_needed\((?=.*inputs=inputs[,)])(?=.*output=' \
          r'output[,)]).*\)'
    H = r'self\.calculate_hash\(inputs=inputs, output=output\)'
    DB = r'self\.parent_decider\.db'
    GET = r'(?:%s\.get\(%s\[0\](?:, None)?\)|%s\[%s\[0\]\])' % (DB, H, DB, H)
    ev = [('super', 'call', SUP),
          ('badsuper', 'call', r'super\(.*\)\.build_needed\(.*'),
          ('put', 'store', r'%s\[%s\[0\]\] = %s\[1\]' % (DB, H, H)),
          ('put', 'call', r'%s\.set\(%s\[0\], %s\[1\]\)' % (DB, H, H)),
          ('bad', 'store', '.*'), ('bad', 'del', '.*'),
          ('bad', 'call', DB + r'\.(?!get\().*\(.*\)')]
    have = [(DB + ' is None', False), (SUP, False)]
    for reset in (True, False):
        tr.expect('missing files, reset %s' % reset, [
            (SUP, True), (DB + ' is None', False), ('reset', reset)], ev,
            must=('super',), never=('put', 'bad', 'badsuper'), truth=True,
            msg='a build is needed')
    tr.expect('reset', have + [('reset', True)], ev, must=('super', 'put'),
              never=('bad', 'badsuper'), truth=False,
              msg='the hashes are stored')
    if_in = (H + r'\[0\] in ' + DB, True)
    tr.expect('compare', have + [('reset', False), if_in], ev,
              must=('super',), never=('put', 'bad', 'badsuper'),
              ret=r'\(?%s != %s\[1\]\)?|\(?%s\[1\] != %s\)?' % (
                  GET, H, H, GET) if not splits(tr) else None,
              msg='the hashes are compared')
    for same in (True, False):
        tr.expect('compare, same %s' % same, have + [
            ('reset', False), if_in, (r'%s == %s\[1\]' % (GET, H), same),
            (r'%s\[1\] == %s' % (H, GET), same)], ev, truth=not same,
            msg='the result of the comparison')
    tr = TraceRule(ctx, r, 'Md5Decision.calculate_hash')
    # in the order of their names, so that inputs that swap their contents count
    SI = r'star\(sorted\(inputs, key=(?!(len|hash|id)\b)[\w.]+\)\), sort=False'
    tr.expect('hashes', [], [], ret=r'tuple\(hash_items\(%s\), '
              r'hash_items\(output\)\)' % SI, msg='of all inputs, in the '
              'order of their names, and of the output')

    r = 'B01.items'
    ctx.rule(r, 'A hash depends on every item: on the content of files, the '
             'bytes of bytes and the text of anything else')
    tr = TraceRule(ctx, r, 'hash_items')
    E = r'elem\(items\)'
    FP = r'\((?=.*filepath=%s[,)])(?=.*chunk_size=chunk_size)' \
         r'(?=.*hashfunc=hashfunc).*\)' % E
    ISP, ISB = (r'isinstance\(%s, (\w+\.)?(Pure)?Path\)' % E,
                r'isinstance\(%s, bytes\)' % E)
    DIG = r'\.(hex)?digest\(\)'
    val = {'pdf': r'hash_pdf' + FP, 'file': r'hash_file' + FP,
           'bytes': r'hashfunc\(%s\)%s' % (E, DIG),
           'text': r"hashfunc\(str\(%s\)\.encode\((?:'utf-?8')?\)\)%s" % (
               E, DIG)}
    fs = {'pdf': [(ISP, True), (ISB, False), (E + r"\.suffix == '\.pdf'",
                                              True)],
          'file': [(ISP, True), (ISB, False), (E + r"\.suffix == '\.pdf'",
                                               False)],
          'bytes': [(ISP, False), (ISB, True)],
          'text': [(ISP, False), (ISB, False)]}
    L = r'(?:list\(\)|sorted\(list\(\)\)|comp\(.*\)|sorted\(comp\(.*\)\))'
    for case in fs:
        ev = [('hash', 'collect', val[case]), ('bad', 'collect', '.*'),
              ('it', 'iter', 'items'),
              ('upd', 'call', r'hashfunc\(\)\.update\((elem\(%s\)|.*join\('
               r'%s\))\)' % (L, L)),
              ('badupd', 'call', r'.*\.update\(.*\)'),
              ('sort', 'call', r'sorted\(.*\)|.*\.sort\(\)'),
              ('it2', 'iter', L),
              ('cut', 'call', r'.*\.(pop|remove|clear)\(.*\)'),
              ('cut', 'del', '.*'), ('bad', 'store', '.*')]
        for sort in (True, False):
            fss = fs[case] + [('sort', sort)]
            tr.expect('%s, sort %s' % (case, sort), fss, ev, it='it',
                      must=('hash',), never=('bad', 'badupd', 'cut'),
                      msg='the hash of the item is included')
            out = tr.run(ev, fss)
            tr.check('%s, all used, sort %s' % (case, sort), [
                t for t in out if seq(t).count('it2') >= 2],
                lambda t: t.has('upd') and re.fullmatch(
                    r'hashfunc\(\)\.hexdigest\(\)', S(t.value)),
                'all hashes are used', minimum=0)
            tr.check('%s, used, sort %s' % (case, sort), [
                t for t in out if t.has('upd')], lambda t: True, 'used')
            tr.check('%s, order, sort %s' % (case, sort), [
                t for t in out if t.has('upd')],
                lambda t: t.has('sort') == sort and (
                    not sort or seq(t).index('sort') < seq(t).index('upd')),
                'sorted if desired')
    d = tr.f.default_of('sort')
    ctx.ob(r, 'default of sort', d is not None and
           repo.eval_const(tr.f.module, d) is True, ctx.where(tr.f),
           'the order of the items does not matter')

    r = 'B01.files'
    ctx.rule(r, 'The hash of a file covers its whole content, only the lines '
             'of a PDF file with dates and ids excepted')
    tr = TraceRule(ctx, r, 'hash_file')
    OPEN = r"enter\(open\(filepath, (?:mode=)?'rb'\)\)|enter\(filepath\." \
           r"open\((?:mode=)?'rb'\)\)"
    RD = r'(?:%s)\.read\((?:chunk_size)?\)' % OPEN
    ALL = r'(?:(?:%s)\.read\(\)|filepath\.read_bytes\(\))' % OPEN
    ev = [('all', 'call', ALL), ('read', 'call', RD),
          ('upd', 'call', r'hashfunc\(\)\.update\((?:%s|%s)\)' % (RD, ALL)),
          ('badupd', 'call', r'.*\.update\(.*\)'),
          ('badread', 'call', r'.*\.read\w*\(.*\)')]
    def chunk(v):
        return [(RD, v), ("%s == b''" % RD, not v),
                (r'len\(%s\) == 0' % RD, not v),
                (r'0 < len\(%s\)' % RD, v)]
    out = tr.run(ev, chunk(True))
    tr.check('to the end', [t for t in out if not t.has('all') and
                            t.kind == 'return'], lambda t: False,
             'the file is read until nothing is left', minimum=0)
    tr.check('all chunks', tr.run(ev, []), lambda t: used(seq(t)) and
             not t.some('badread', 'badupd') and t.has('upd') and
             re.fullmatch(r'hashfunc\(\)\.digest\(\)', S(t.value))
             if t.kind == 'return' and seq(t).count('read') != 1 else
             not t.some('badread', 'badupd'),
             'each chunk that was read is used')
    g = tr.g
    rd = [n for n in g.calls() if n.pred and g.cname(n) in ('read', 'read1')]
    up = [n for n in g.calls() if n.pred and g.cname(n) == 'update']
    ctx.ob(r, 'used', bool(up), ctx.where(tr.f), 'the hash is updated')
    for n in rd:
        ctx.ob(r, 'chunks', n not in g.reachable(n, avoid=lambda x: x in up),
               ctx.where(n), 'each chunk is used before the next is read')
    tr.check('digest', tr.run(ev, chunk(False)), lambda t: re.fullmatch(
        r'hashfunc\(\)\.(hex)?digest\(\)', S(t.value)), 'the digest')
    tr = TraceRule(ctx, r, 'hash_pdf')
    LS = r'(?:line_splitter\((?=.*chunk_size=chunk_size)(?=.*file=(?:%s)[,)])' \
         r"(?=.*newline=b'\\n')(?=.*tail=b'').*\)|%s)" % (OPEN, OPEN)
    ST = r'elem\(%s\)\.startswith\((?:elem\(|tuple\()?startswith\)?\)' % LS
    ev = [('it', 'iter', LS),
          ('upd', 'call', r"hashfunc\(\)\.update\(\(elem\(%s\) \+ b'\\n'\)\)"
           % LS),
          ('upd1', 'call', r'hashfunc\(\)\.update\(elem\(%s\)\)' % LS),
          ('upd', 'call', r"hashfunc\(\)\.update\(b'\\n'\)"),
          ('badupd', 'call', r'.*\.update\(.*\)'), ('ask', 'call', ST)]
    tr.expect('other lines', [(ST, False)], ev, it='it', must=('upd',),
              never=('badupd',), ret=r'hashfunc\(\)\.(hex)?digest\(\)',
              msg='all lines but the ignored ones count, with their ends')
    tr.check('ignored lines', [t for t in tr.run(ev, [(ST, True)])
                               if t.has('ask')],
             lambda t: not t.some('badupd', 'upd', 'upd1'), 'they do not count')
    d = tr.f.default_of('startswith')
    want = {b'/CreationDate', b'/ModDate', b'/ID'}
    ctx.ob(r, 'ignored lines: which', d is not None and set(
        repo.eval_const(tr.f.module, d)) == want, ctx.where(tr.f),
        'only the creation date, modification date and id')
    tr = TraceRule(ctx, r, 'line_splitter')
    RD = r'file\.read\(chunk_size\)'
    ev = [('read', 'call', RD), ('badread', 'call', r'.*\.read\w*\(.*\)'),
          ('rest', 'collect', '.*')]
    out = tr.run(ev, [(RD, False), ("%s == b''" % RD, True),
                      ('tail is None', False), ('tail', True)])
    tr.check('the last line', out, lambda t: t.has('rest') and
             not t.has('badread'), 'the last line is not lost',
             kinds=('return',))
    out = tr.run(ev, [(RD, True), ("%s == b''" % RD, False)])
    tr.check('to the end', out, lambda t: False, 'read until nothing is left',
             kinds=('return',), minimum=0)
    g = tr.g
    sp = [n for n in g.calls() if n.pred and g.cname(n) in (
        'split', 'splitlines', 'partition')]
    ok = any(re.search(r'\+ %s\b' % RD[:-2], S(g.expand(n.term, n)))
             for n in g.nodes if n.pred and n.term is not None)
    ctx.ob(r, 'rest and chunk', ok, ctx.where(tr.f),
           'a chunk continues the rest of the one before')

    SP = r'.*\.split\(newline\)'
    ev = [('read', 'call', RD), ('split', 'call', SP),
          ('first', 'call', SP + r'\.pop\(0\)'),
          ('y1', 'collect', SP + r'(\.pop\(0\)|\[0\])'),
          ('last', 'call', SP + r'\.pop\((-1)?\)'),
          ('rest', 'collect', r'elem\(%s(\[.*\])?\)' % SP),
          ('other', 'call', SP + r'\.pop\(.*\)'), ('other', 'collect', SP +
                                                     r'.*'),
          ('deep', 'collect', r'(elem\()?unk\(.*\)')]
    for more in (True, False):
        out = [t for t in tr.run(ev, [
            (SP, more), (r'0 < len\(%s\)' % SP, more)]) if t.has('split')]
        for t in out:
            while t.ev and t.ev[-1] in ('other', 'deep', 'read'):
                t.ev = t.ev[:-1]        # the last line
        if not any(t.has('first') for t in out):
            tr.check('lines, more %s' % more, [
                t for t in out if not t.has('deep')], lambda t: t.has(
                    'last', 'rest') and not t.some('other', 'y1') or not more,
                'every line but the last is produced, in order; the last is '
                'continued', kinds=('return',))
        else:
            tr.check('lines, more %s' % more, [t for t in out if not t.has('deep')],
                lambda t: t.has('first') and (t.has('y1') and t.has('last') and t.has('rest')
                              and cut(seq(t)) if more else not t.has('last')),
                'every line but the last is produced, in order; the last is '
                'continued', kinds=('return',))

    r = 'B01.store'
    ctx.rule(r, 'The hashes are stored on disk, in the cache directory of '
             'the project')
    tr = TraceRule(ctx, r, 'Md5Decider.db')
    ev = [('open', 'call', r'diskcache\.Cache\((directory=)?self\.db_path\)'),
          ('badopen', 'call', r'diskcache\..*'),
          ('put', 'store', r'self\._db = diskcache\.Cache\(.*\)'),
          ('bad', 'store', '.*')]
    tr.expect('closed', [(r'self\._db is None', True), (r'self\._db', False)],
              ev, must=('open', 'put'), never=('badopen', 'bad'),
              ret=r'diskcache\.Cache\(.*\)|self\._db', msg='opened')
    tr.expect('open', [(r'self\._db is None', False)], ev,
              never=('open', 'put', 'badopen', 'bad'), ret=r'self\._db',
              msg='the open database is used')
    tr = TraceRule(ctx, r, 'Md5Decider.db_path')
    tr.check('path', tr.run([]), lambda t: re.fullmatch(
        r"str\(\(?self\.environment\.cache_path (/ .*)\)?\)|self\.environment"
        r"\.cache_path / .*", S(t.value)), 'in the cache directory')
    tr = TraceRule(ctx, r, 'Decider.decision')
    tr.expect('decision', [], [], ret=r'self\.decision_cls\((parent_decider='
              r')?self\)', msg='a decision of this decider')
    tr = TraceRule(ctx, r, 'Decision.__init__')
    tr.expect('decider', [], [('put', 'store', r'self\.parent_decider = '
                               r'parent_decider'), ('bad', 'store', '.*')],
              must=('put',), never=('bad',), msg='the decider is kept')
    tr = TraceRule(ctx, r, 'Decider.__init__')
    tr.expect('environment', [], [('put', 'store', r'self\.environment = '
                                   r'env'), ('bad', 'store', '.*')],
              must=('put',), never=('bad',), msg='the environment is kept')
    tr = TraceRule(ctx, r, 'Md5Decider.__init__')
    tr.expect('environment', [], [
        ('super', 'call', r'super\(.*\)\.__init__\(env=env\)'),
        ('put', 'store', r'self\.name = name'), ('bad', 'store', '.*')],
        must=('put', 'super'), never=('bad',), msg='the environment is kept')
    for spec in ('Decision.build_needed', 'Md5Decision.build_needed',
                 'Builder.build_needed', 'ParallelBuilder.build_needed'):
        f = ctx.fn(spec)
        d = f.default_of('reset')
        ctx.ob(r, f.short + ': default of reset', d is not None and
               repo.eval_const(f.module, d) is False, ctx.where(f),
               'asking does not reset')
    md5 = repo.cls('Md5Decider')
    o, v = repo.lookup(md5, 'decision_cls')
    ctx.ob(r, 'decision class', v is not None and o is md5, md5.module.relpath,
           'the decisions compare hashes')

    r = 'B01.builder'
    ctx.rule(r, 'A builder asks its decision with all its parameters, its '
             'action and its output file, and passes resets on')
    tr = TraceRule(ctx, r, 'Builder.build_needed')
    PL = r'(?:list\(self\.parameters\)|self\.parameters(?:\.copy\(\))?)'
    for act in (True, False):
        for dec in (True, False):
            D = r'self\.decision' if dec else r'self\.env\.decider\.decision'
            D = r'(?:self\.decision|%s)' % D
            I = PL
            ev = [('act', 'call', PL + r'\.append\(self\.action\)'),
                  ('act', 'aug', PL + r' \+= list\(self\.action\)'),
                  ('act', 'call', PL + r'\.extend\((list|tuple)\(self\.'
                   r'action\)\)'),
                  ('badact', 'call', PL + r'\.(append|extend|remove|pop|clear'
                   r'|insert)\(.*\)'),
                  ('put', 'store', r'self\.decision = self\.env\.decider\.'
                   r'decision'), ('bad', 'store', '.*'),
                  ('ask', 'call', D + r'\.build_needed\((?=.*inputs=\(?%s'
                   r'(?P<x>( \+ (list|tuple)\(self\.action\))?))(?=.*output='
                   r'self\.outfilepath[,)])(?=.*reset=reset).*\)' % I),
                  ('badask', 'call', r'.*\.build_needed\(.*\)')]
            out = tr.run(ev, [(r'self\.action', act), (
                r'self\.action is None', not act), (
                r'self\.decision is None', not dec), (
                r'self\.decision', dec)])
            tr.check('action %s, decision %s' % (act, dec), out, lambda t: (
                t.has('put') != dec and not t.some('bad', 'badact', 'badask')
                and t.has('ask') and acted(t) == act and re.fullmatch(
                    D + r'\.build_needed\(.*\)', S(t.value)) is not None),
                'the inputs are the parameters and the action')
    o = repo.cls('Builder')
    for c in repo.subclasses(o):
        if 'build_needed' in c.own and c.own['build_needed'] is not None:
            f = c.own['build_needed']
            tr = TraceRule(ctx, r, f, self_cls=c)
            ps = [p for p in tr.run([
                ('sub', 'call', r'(elem\(.*\)|super\(.*\)|self\.[\w.]+)\.'
                 r'build_needed\(.*reset=reset\)'),
                ('badsub', 'call', r'.*\.build_needed\(.*\)')], [])]
            tr.check('reset', ps, lambda t: not t.has('badsub'),
                     'passed on', minimum=0)
    parallel(ctx, r)
    r = 'B01.recorded'
    ctx.rule(r, 'The inputs and the output are recorded as built after the '
             'last write of a build, and when the command has succeeded')
    from . import b02
    b02.recorded(ctx, r)
    b02.reset_done(ctx, r)
    r = 'B01.parameters'
    ctx.rule(r, 'The inputs include all dependencies the signals of a '
             'builder name')
    from . import b03
    b03.signalled(ctx, r)


def parallel(ctx, r):
    """builds of groups are needed if that of a member is"""
    tr = TraceRule(ctx, r, 'ParallelBuilder.build_needed')
    SB = r'elem\(self\.subbuilders\)\.build_needed\(reset=reset\)'
    ev = [('sub', 'call', SB), ('badsub', 'call', r'.*\.build_needed\(.*\)')]
    tr.check('one needed', [t for t in tr.run(ev, [(SB, True)])
                            if t.has('sub')], lambda t: t.truth is not False
             and not t.has('badsub'), 'needed if a subbuilder needs it')
    tr.expect('none needed', [(SB, False)], ev, truth=False,
              never=('badsub',), msg='not needed otherwise')


def splits(tr):
    """The result of the comparison is a constant"""
    return all(n.kind != 'return' or n.term is None or n.term[0] == 'c'
               for n in tr.g.nodes if n.pred)


def cut(s):
    i = s.index('split')
    s = [e for e in s[i:] if e in ('first', 'y1', 'last', 'rest')]
    return s.index('first') < s.index('y1') < s.index('rest') and \
        s.index('last') < s.index('rest')


def acted(t):
    return t.has('act') or any(isinstance(e, tuple) and e[0] == 'ask' and
                               e[1] for e in t.ev)


def used(s):
    """after each read the chunk is used before the next read"""
    s = [e for e in s if e in ('read', 'upd', 'all')]
    for i, e in enumerate(s[:-1]):
        if e in ('read', 'all') and s[i + 1] != 'upd':
            return False
    return True
