"""B05: external programs are run safely"""
import ast
import string
from .common import *
from sa.core import all_functions
from sa.repo import External

ASSUMPTIONS = [
    'Popen with a list of arguments and no shell passes each unchanged',
    'The programs themselves honour their safe-mode options']

# calls that run programs, or text as a program
RUNS = re.compile(
    r'os\.(system|popen\w*|exec\w+|spawn\w+|posix_spawn\w*|startfile)'
    r'|subprocess\.(?!PIPE|DEVNULL|STDOUT|TimeoutExpired|CalledProcessError|'
    r'SubprocessError|list2cmdline|CompletedProcess)\w+'
    r'|asyncio\.(create_subprocess_\w+|subprocess\.\w+)|pty\.\w+'
    r'|commands\.\w+|multiprocessing\.Process|runpy\.\w+')
EVALS = re.compile(
    r'builtins\.(eval|exec|compile|__import__|execfile)'
    r'|(pickle|marshal|shelve|dill|cPickle)\.(load\w*|Unpickler|open)'
    r'|yaml\.(load|load_all|unsafe_load\w*|full_load\w*)|code\.\w+'
    r'|importlib\.(import_module|__import__)')


def const_head(t):
    """The first item of a sequence of arguments, when it is a constant or
    the running interpreter"""
    while t[0] == 'call' and t[1][0] == 'g' and t[1][2] in ('list', 'tuple') \
            and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == 'op' and t[1] == '+':
        return const_head(t[2])
    if t[0] in ('list', 'tuple') and len(t) > 1:
        return t[1] if t[1][0] == 'c' and isinstance(t[1][1], str) or \
            S(t[1]) == 'sys.executable' else None
    return None


def sinks(ctx):
    repo = ctx.repo
    r = 'B05.no-shell'
    ctx.rule(r, 'Programs are run from a list of arguments with a fixed '
             'program, never through a shell; no text is run as code')
    n_calls = 0
    for f in all_functions(repo):
        if not any(w in ast.dump(f.node) for w in (
                'os', 'subprocess', 'eval', 'exec', 'compile', 'import',
                'load', 'shell', 'pty', 'asyncio', 'submit', 'commands')):
            continue
        g = ctx.graph(f)
        for n in g.calls():
            if not n.pred or n.kind != 'call':
                continue
            e = g.entity(n.term[1])
            d = e.dotted if isinstance(e, External) else None
            n_calls += 1
            kws = dict(n.term[3])
            if 'shell' in kws:
                v = g.expand(kws['shell'], n)
                ctx.ob(r, '%s: shell' % f.short, v[0] == 'c' and not v[1],
                       ctx.where(n), 'no shell')
            if d is None:
                continue
            if EVALS.fullmatch(d):
                ctx.ob(r, '%s: %s' % (f.short, d), False, ctx.where(n),
                       'text is not run as code')
            if not RUNS.fullmatch(d):
                continue
            ctx.ob(r, '%s: %s' % (f.short, d), d in (
                'subprocess.Popen', 'subprocess.run', 'subprocess.call',
                'subprocess.check_call', 'subprocess.check_output'),
                ctx.where(n), 'not through a shell')
            args = n.term[2][0] if n.term[2] else kws.get('args')
            if f.short not in ctx.known:
                continue        # a helper: judged where it is called
            if args is None:
                # the arguments of the function are passed on
                v = g.expand(kws.get('**', ('c', None)), n)
                ok = f.short.endswith('executor.run') and \
                    v[0] == 'p' and v[1].endswith('.' + (f.kwarg() or '?')
                                                  if callable(f.kwarg)
                                                  else f.kwarg)
                ctx.ob(r, '%s: arguments' % f.short, ok, ctx.where(n),
                       'a list that begins with the program')
                continue
            v = g.expand(args, n)
            ctx.ob(r, '%s: arguments' % f.short, const_head(v) is not None,
                   ctx.where(n), 'a list that begins with the program')
    ctx.need(r, list(range(n_calls)), 300, 'calls')


def arguments(ctx):
    r = 'B05.arguments'
    ctx.rule(r, 'Commands are split before the values are filled in; each '
             'file is one argument, and no value can begin as an option')
    tr = TraceRule(ctx, r, 'CustomFormatter.clean_field')
    P = r'isinstance\(f, (pathlib\.)?Path\)'
    CLEAN = r'%s\.(?:l?strip)\((?:chars=)?%s\)'

    def strips(t, base):
        v = t.value
        if call_name(v) not in ('strip', 'lstrip') or not v[2] or \
                v[2][0][0] != 'c':
            return False
        return {'-'} <= set(v[2][0][1]) and not set(v[2][0][1]) & set(
            string.ascii_letters + string.digits + '/.') and \
            re.fullmatch(base, S(v[1][1])) is not None
    tr.check('path', tr.run([], [(P, True)]), lambda t: strips(
        t, r'str\((pathvalidate\.)?sanitize_filepath\((file_path=)?f\b.*\)\)'
        ), 'the characters of file paths are checked')
    tr.check('other', tr.run([], [(P, False)]), lambda t: strips(
        t, r'str\(f\)'), 'it is a value, not an option')
    ctx.ob(r, 'clean_field', tr.f.is_static or tr.f.is_classmethod or
           'self' in tr.f.params, ctx.where(tr.f), 'callable')
    tr = TraceRule(ctx, r, 'CustomFormatter.get_field')
    V = r'super\(.*\)\.get_field\(field_name, args, kwargs\)'
    seqs_ = [(r'isinstance\(%s\[0\], (list|tuple)\)' % V, True)]
    plain = [(r'isinstance\(%s\[0\], (list|tuple)\)' % V, False)]
    ev = [('clean', 'call', r'self\.clean_field\((f=)?elem\(%s\[0\]\)\)' % V),
          ('one', 'call', r'self\.clean_field\((f=)?%s\[0\]\)' % V),
          ('it', 'iter', V + r'\[0\]'), ('bad', 'store', '.*')]
    out = tr.run(ev, seqs_)

    def joined(t):
        v = t.value
        if v[0] != 'tuple' or len(v) != 3 or not re.fullmatch(
                V + r'\[1\]', S(v[2])):
            return False
        j = v[1]
        return call_name(j) == 'join' and j[1][1] == ('c', '\0') and \
            j[2][0][0] == 'comp' and not t.some('one', 'bad')
    tr.check('several values', out, joined, 'separated arguments')
    tr.check('several values, each', [t for t in out
                                      if seq(t).count('it') >= 2],
             lambda t: t.has('clean') and re.fullmatch(
                 r'self\.clean_field\(.*\)', S(t.value[1][2][0][2])),
             'each is cleaned')
    tr.check('one value', tr.run(ev, plain), lambda t: t.value[0] == 'tuple'
             and re.fullmatch(r'self\.clean_field\((f=)?%s\[0\]\)' % V,
                              S(t.value[1])) and re.fullmatch(
                 V + r'\[1\]', S(t.value[2])), 'it is cleaned')
    # splitting
    tr = TraceRule(ctx, r, 'Builder.run_cmd_args')
    STR = r'isinstance\(self\.action, str\)'
    ev = [('pieces', 'call', r"CustomFormatter\(\)\.format\(elem\(self\."
           r"action\.split\(\)\), builder=self\)\.split\('\\x00'\)"),
          ('fill', 'call', r'CustomFormatter\(\)\.format\(elem\(self\.action'
           r'\.split\(\)\), builder=self\)'),
          ('badfill', 'call:format|format_map|vformat', '.*'),
          ('words', 'iter', r'self\.action\.split\(\)'),
          (None, 'call', r'self\.action\.split\(\)'),
          ('badsplit', 'call:split|rsplit|splitlines|partition', '.*'),
          ('bad', 'store', '.*')]
    tr.check('no command', tr.run(ev, [(STR, False)]), lambda t: S(
        t.value) in ('tuple()', '()') and not t.some(
            'words', 'fill', 'badfill'), 'no arguments')
    out = tr.run(ev, [(STR, True)])
    tr.check('command', out, lambda t: not t.some('badfill', 'badsplit',
                                                  'bad'),
             'split into words only before the values are filled in')
    tr.check('words', [t for t in out if seq(t).count('words') >= 2],
             lambda t: t.has('fill', 'pieces'), 'values are filled in')

    def tuple_of(v):
        """a tuple of the non-empty items"""
        if v[0] == 'tuple' or v == ('c', ()):
            return True
        if call_name(v) == 'tuple':
            return True
        return v[0] == 'comp' and v[1] == 'gen'
    tr.check('result', out, lambda t: tuple_of(t.value) and re.search(
        r'self\.action\.split', S(t.value)), 'a tuple of arguments')
    ITEM = r'elem\((?!.*builder\.)(?=.*flatten|.*chain|.*comp).*\)'
    for full in (True, False):
        out = tr.run(ev + [('collect', 'collect', ITEM),
                           ('it', 'iter', r'.*(flatten|chain).*')],
                     [(STR, True), (ITEM, full)])
        its = [t for t in out if seq(t).count('it') >= 2]
        if its:
            tr.check('empty arguments' if not full else 'arguments', its,
                     lambda t: t.has('collect') is full,
                     'all but the empty ones')
    tr = TraceRule(ctx, r, 'Builder.run_cmd')
    idle = [(r'self\.future is None', True), (r'self\.future', False),
            (r'isinstance\(self\.action, str\)', True)]
    for given in (True, False):
        a = 'args' if given else r'self\.run_cmd_args\(\)'
        tr.expect('start, arguments given %s' % given, idle + [
            ('args', given), (r'0 < len\(args\)', given)], [
            ('submit', 'call', r'executor\.submit\((fn=)?run, args=%s, '
             r'timeout=self\.timeout\)' % a),
            ('badsubmit', 'call', r'.*\.submit\(.*\)')], must=('submit',),
            never=('badsubmit',), msg='the arguments and the time limit of '
            'the builder')
    f = ctx.fn('CompositeBuilder.run_cmd_args')
    tr = TraceRule(ctx, r, f)
    tr.check('subbuilders', [t for t in tr.run(
        [('it', 'iter', r'self\.subbuilders')], [])
        if seq(t).count('it') >= 2], lambda t: call_name(t.value) == 'tuple'
        or t.value[0] in ('tuple', 'comp'), 'a tuple')


def flat(t):
    """The items of a concatenation of argument lists"""
    while t[0] == 'call' and t[1][0] == 'g' and t[1][2] in ('list', 'tuple') \
            and len(t[2]) == 1:
        t = t[2][0]
    if t[0] in ('op', 'aug') and t[1] in ('+', '+='):
        a, b = flat(t[2]), flat(t[3])
        return None if a is None or b is None else a + b
    if t[0] in ('list', 'tuple'):
        out = []
        for x in t[1:]:
            if x[0] == 'star':
                y = flat(x[1])
                if y is None:
                    return None
                out += y
            else:
                out.append(S(x))
        return out
    if t[0] == 'comp':
        return [] if t[2] == ('unk', 'none') else [S(t[2]) + '*']
    if t[0] == 'call' and call_name(t) == 'run_cmd_args' and \
            t[1][1][0] == 'super':
        return ['program', 'rest*']
    if t[0] == 'sub':
        b = flat(t[1])
        if b is None:
            return None
        i = t[2]
        if i == ('c', 0):
            return b[0] if b else None
        if i[0] == 'slice' and len(i) > 2 and i[1][0] == 'c' and \
                i[2] == ('c', None):
            n = i[1][1] or 0
            return b[n:] if n <= 1 else None
        if i[0] == 'slice' and i[1] == ('c', None) and i[2] == ('c', 1):
            return b[:1]
    return None


def flat_items(t):
    """flat, with items such as args[0] replaced by what they denote"""
    while t[0] == 'call' and t[1][0] == 'g' and t[1][2] in ('list', 'tuple') \
            and len(t[2]) == 1:
        t = t[2][0]
    if t[0] in ('op', 'aug') and t[1] in ('+', '+='):
        a, b = flat_items(t[2]), flat_items(t[3])
        return None if a is None or b is None else a + b
    if t[0] in ('list', 'tuple'):
        out = []
        for x in t[1:]:
            if x[0] == 'star':
                y = flat_items(x[1])
                if y is None:
                    return None
                out += y
            elif x[0] == 'sub' and x[2][0] == 'c':
                b = flat_items(x[1])
                if not b or x[2][1] != 0:
                    return None
                out.append(b[0])
            else:
                out.append(S(x))
        return out
    if t[0] == 'sub':
        b = flat_items(t[1])
        i = t[2]
        if b is None or i[0] != 'slice':
            return None
        lo, hi = i[1], i[2]
        if lo[0] != 'c' or hi[0] != 'c' or lo[1] not in (None, 0, 1) or \
                hi[1] not in (None, 1):
            return None
        return b[lo[1] or 0:hi[1]]
    return flat(t)


def overrides(ctx):
    repo = ctx.repo
    r = 'B05.options'
    ctx.rule(r, 'Options that a builder adds come after the program, and '
             'their values are numbers')
    NUM = r'str\((elem\()?self\.(\w+)\)?\)\*?'
    used = {}
    for c in repo.subclasses(repo.cls('Builder')):
        f = c.own.get('run_cmd_args')
        if f is None or c.name == 'CompositeBuilder':
            continue
        tr = TraceRule(ctx, r, f, self_cls=c)

        def pred(t):
            x = flat_items(t.value)
            if not x or x[0] != 'program' or x.count('rest*') != 1 or \
                    x.count('program') != 1:
                return False
            for i in x[1:]:
                m = re.fullmatch(NUM, i)
                if m:
                    used.setdefault(c, set()).add(m.group(2))
                elif i != 'rest*' and not re.fullmatch(
                        r"'-{1,2}\w[\w-]*'", i):
                    return False
            return True
        tr.check('arguments', tr.run([], []), pred,
                 'the program, its options, the rest', kinds=('return',))
    ctx.ob(r, 'builders with options', len(used) >= 1, 'builders',
           'found')
    for c, attrs in used.items():
        own = c.own.get('__init__')
        for a in sorted(attrs):
            d = repo.class_const(c, a)
            ctx.ob(r, '%s.%s: default' % (c.name, a), d is None or isinstance(
                d, (int, float)), c.module.relpath, 'none or a number')
        for f in c.own.values():
            if not hasattr(f, 'node') or not isinstance(
                    f.node, ast.FunctionDef):
                continue
            tr = TraceRule(ctx, r, f, self_cls=c)
            stores = [n for n in tr.g.nodes if n.pred and n.kind == 'store'
                      and n.target[0] == 'attr' and n.target[2] in attrs]
            if not stores:
                continue
            V = r'validate_tuple\((?=.*\btype=(int|float)\b)' \
                r'(?!.*raise_error=False).*\)'
            for case, isint in (('a number', True), ('no number', False)):
                out = tr.run([
                    ('num', 'store', r'self\.\w+ = (int|float)\(.*\)'),
                    ('num', 'store', r'self\.\w+ = ' + V),
                    ('int', 'store', r'self\.(%s) = .*' % '|'.join(attrs))],
                    [(r'isinstance\(.*, \(?(int|float|tuple\(int, float\))'
                      r'\)?\)', isint)], limit=600)
                tr.check(case, out, lambda t: isint or not t.has('int'),
                         'options are numbers', kinds=('return',))


def validation(ctx):
    r = 'B05.numbers'
    ctx.rule(r, 'Options given as several values are converted to numbers, '
             'one by one, and anything else is refused')
    tr = TraceRule(ctx, r, 'validate_tuple')
    RE = (('raise_error', True),)
    S_ = (r'isinstance\(arg, str\)', True)
    N = (r'isinstance\(arg, str\)', False)
    H = (r"hasattr\(arg, '__iter__'\)", True)
    LEN = r'len\((tuple\()?arg\)?\) == length'

    def refused(t):
        return t.kind == 'raise' or t.truth is False or S(
            t.value) == 'False' or (call_name(t.value) == '_raise_error' and
                                    'raise_error=raise_error' in S(t.value))
    tr.check('text', tr.run([], [S_]), refused, 'refused')
    tr.check('no values', tr.run([], [N, (H[0], False)]), refused, 'refused')
    tr.check('number of values', tr.run([], [
        N, H, ('length is None', False), (LEN, False)]), refused, 'refused')
    CONV = r'(tuple\()?comp\(\w+, (type\(elem\((tuple\()?arg\)?\)\)|' \
           r'unk\(none\)), tuple\((tuple\()?arg\)?\)\)\)?'
    tr.check('type', tr.run([], [
        N, H, ('length is None', False), (LEN, True),
        ('type is None', False), ('type', True)]), lambda t: refused(t) or
        re.fullmatch(CONV, S(t.value)), 'each is converted')
    tr.check('no type', tr.run([], [
        N, H, ('length is None', True), ('type is None', True)]),
        lambda t: re.fullmatch(r'(tuple\()?arg\)?', S(t.value)),
        'the values', kinds=('return',))
    tr = TraceRule(ctx, r, '_raise_error')
    tr.expect('raised', [('raise_error', True)], [],
              error=r'exception\((msg=)?msg', msg='raised')
    tr.expect('not raised', [('raise_error', False)], [], truth=False,
              msg='not valid')
    for n in ('validate_tuple', '_raise_error'):
        f = ctx.fn(n)
        d = f.default_of('raise_error')
        ctx.ob(r, n + ': default', d is not None and ctx.repo.eval_const(
            f.module, d) is True, ctx.where(f), 'refused')


def actions(ctx):
    repo = ctx.repo
    r = 'B05.actions'
    ctx.rule(r, 'The commands of builders: a required program, the files '
             'of the builder, and the safe mode of the program')
    base = repo.cls('Builder')
    n = 0
    SAFE = {'asy': ({'-safe'}, {'-nosafe', '-unsafe', '-globalwrite'}),
            'pdflatex': ({'-interaction=nonstopmode', '-halt-on-error'},
                         {'-shell-escape', '--shell-escape',
                          '-enable-write18', '--enable-write18'}),
            'latexmk': ({'-norc'}, {'-shell-escape', '--shell-escape'})}
    for c in repo.subclasses(base):
        owner, m = repo.lookup(c, 'build')
        if owner is not base:
            continue
        action = repo.class_const(c, 'action')
        execs = repo.class_const(c, 'required_execs')
        if action is None and execs is None:
            continue
        n += 1
        w = c.module.relpath
        if not isinstance(action, str) or not isinstance(execs, tuple):
            ctx.ob(r, c.name, False, w, 'a command and its programs')
            continue
        words = action.split()
        ctx.ob(r, c.name + ': program', bool(words) and words[0] in execs,
               w, 'the program is checked to be there')
        fields = []
        for x in words:
            try:
                fs = [p[1] for p in string.Formatter().parse(x)
                      if p[1] is not None]
            except ValueError:
                fs = ['?']
            fields += fs
            ctx.ob(r, '%s: %s' % (c.name, x), len(fs) <= 1 and all(
                re.fullmatch(r'builder\.(\w+)', y) and isinstance(
                    repo.lookup(c, y[8:]), tuple) and repo.lookup(
                        c, y[8:])[1] is not None for y in fs), w,
                'one value of the builder')
        ctx.ob(r, c.name + ': input', 'builder.infilepaths' in fields, w,
               'the input files')
        ctx.ob(r, c.name + ': output', 'builder.outfilepath' in fields or
               'builder.jobname' in fields, w, 'the output file')
        need, never = SAFE.get(words[0] if words else '', (set(), set()))
        ctx.ob(r, c.name + ': safe mode', need <= set(words) and
               not never & set(words), w, 'the safe mode of the program')
        act = repo.class_const(c, 'active_requirements')
        ctx.ob(r, c.name + ': requirements', isinstance(
            act, (tuple, list)) and 'all_execs' in act and
            'required_execs' in act, w, 'the program has to be there')
        t = repo.class_const(c, 'timeout')
        ctx.ob(r, c.name + ': time limit', isinstance(t, (int, float)) and
               t > 0, w, 'a time limit')
    ctx.need(r, list(range(n)), 6, 'commands')
    for c in repo.subclasses(base):
        for p, want in (('cache_path', r'self\.outfilepath\.parent'),
                        ('jobname', r'self\.outfilepath\.stem')):
            f = c.own.get(p)
            if f is not None:
                TraceRule(ctx, r, f, self_cls=c).expect(
                    p, [], [], ret=want, msg='of the output file')


def run(ctx):
    sinks(ctx)
    arguments(ctx)
    overrides(ctx)
    validation(ctx)
    actions(ctx)
    from . import b02
    b02.programs(ctx, 'B05.actions')
