"""K01: the checkers report what is installed"""
import ast
from .common import *

ASSUMPTIONS = [
    'shutil.which gives the path of programs that can be run, or None; '
    'kpsewhich exits with 0 exactly when it finds the file; pip lists the '
    'installed packages as name==version']


def lists(ctx):
    r = 'K01.lists'
    ctx.rule(r, 'A list of dependencies is available when all, any, or none '
             'of them have to be, and those whose availability is not known '
             'do not count')
    D = r'elem\(self\.dependencies\)\.available'
    yes = [(D + ' is True', True), (D + ' == True', True), (D, True)]
    no = [(D + ' is True', False), (D + ' == True', False), (D, False)]
    for cls, all_, in_, out in (
            ('Any', 'True', yes, no), ('All', 'False', no, yes)):
        tr = TraceRule(ctx, r, 'checkers.types:%s.available' % cls)
        ev = [('each', 'iter', r'self\.dependencies|self')]
        for name, fs, deciding in (('decided', in_, True),
                                   ('undecided', out, False)):
            res = tr.run(ev, fs)
            want = all_ if deciding else {'True': 'False',
                                          'False': 'True'}[all_]
            short = [t for t in res if seq(t).count('each') == 1]
            tr.check('%s, %s' % (cls, name), [
                t for t in res if deciding is False or
                S(t.value) == all_] or res, lambda t, w=want:
                t.kind == 'return' and S(t.value) == w,
                'is %s' % want)
            tr.check('%s, empty' % cls, [t for t in res
                                         if t.value == ('c', all_ != 'True')],
                     lambda t: True, 'is %s without dependencies' % (
                         all_ != 'True'))
        # dependencies whose availability is not known
        un = [n for n in tr.g.nodes if n.pred and n.kind == 'test' and
              'available' in S(tr.g.expand(n.term, n))]
        ctx.ob(r, cls, len(un) >= 1 and all(
            re.fullmatch(D + r' (is|==|is not|!=) True', S(tr.g.expand(n.term, n)))
            or re.fullmatch(D, S(tr.g.expand(n.term, n))) for n in un),
            ctx.where(tr.f), 'counts only those that are available')
    tr = TraceRule(ctx, r, 'checkers.types:Optional.available')
    tr.expect('Optional', [], [], ret='True', msg='is always available')
    tr = TraceRule(ctx, r, 'SoftwareDependencyList.available')
    tr.expect('other lists', [], [], ret='False', msg='are not available')
    tr = TraceRule(ctx, r, 'SoftwareDependencyList.__contains__')
    N = r"(elem\(self\.dependencies\)\.name|getattr\(elem\(self\.dependencies" \
        r"\), 'name', None\))"
    C = N.replace('name', 'category')
    pre = [(r'isinstance\(key, str\)', True)]
    for nm, a, b in (('a name', True, False), ('a category', False, True)):
        res = tr.run([('each', 'iter', r'self\.dependencies')], pre + [
            (N + ' == key', a), (C + ' == key', b)])
        tr.check('contains ' + nm, [t for t in res if S(t.value) == 'True']
                 or res, lambda t: S(t.value) == 'True', 'is found')
        ctx.ob(r, 'contains ' + nm, not any(
            S(t.value) == 'False' and seq(t).count('each') >= 2
            for t in res), ctx.where(tr.f), 'is found')
    tr.expect('contains nothing', pre + [(N + ' == key', False),
                                         (C + ' == key', False)], [],
              ret='False', msg='is not found')
    tr = TraceRule(ctx, r, 'SoftwareDependencyList.__getitem__')
    for nm, a, b in (('name', True, False), ('category', False, True)):
        res = tr.run([], pre + [(N + ' == key', a), (C + ' == key', b)])
        tr.check('item by ' + nm, [t for t in res if t.kind == 'return']
                 or res, lambda t: S(t.value) == r'elem(self.dependencies)',
                 'is the dependency')
    tr.expect('no item', pre + [(N + ' == key', False),
                                (C + ' == key', False)], [],
              error='KeyError', msg='is an error')


def dispatch(ctx):
    r = 'K01.check'
    ctx.rule(r, 'Each category of dependencies is checked by its handler, '
             'and every listed category has one')
    tr = TraceRule(ctx, r, 'checkers.checker:Checker.check')
    D = r'elem\(self\.dependencies\)'
    cat = r"\('check_' \+ .*category.*\)|'check_\{\}'\.format\(.*category.*"\
        r"\)|.*check_.*"
    M = r"getattr\(self, (%s)(, None)?\)" % cat
    ev = [('each', 'iter', r'.*self\.dependencies.*'),
          ('run', 'call', M + r'\(\)'), ('has', 'call', r'hasattr\(.*')]
    L = [(r'isinstance\(%s, SoftwareDependencyList\)' % D, True)]
    tr.expect('handler', L + [(M + ' is None', False), (M, True),
                              (r'hasattr\(self, .*', True)], ev,
              ret=r'self\.available', msg='the result is that of the list')
    ok = tr.run(ev, L + [(M + ' is None', False), (M, True),
                         (r'hasattr\(self, .*', True)])
    ctx.ob(r, 'handlers', any(t.has('run') for t in ok), ctx.where(tr.f),
           'are run')
    tr.check('no other error', ok, lambda t: t.kind == 'return',
             'is raised')
    bad = tr.run(ev, L + [(M + ' is None', True), (M, False),
                          (r'hasattr\(self, .*', False)])
    ctx.ob(r, 'no handler', any(raises(t, 'MissingHandler') for t in bad) and
           not any(t.has('run') for t in bad), ctx.where(tr.f),
           'is an error')
    tr = TraceRule(ctx, r, 'SoftwareDependencyList.__init__')
    X = r'elem\(dependencies\)'
    for nm, f, v in (('a name', True, r'SoftwareDependency\((name=)?%s\)' %
                      X), ('a list', False, X)):
        out = [t for t in tr.run([
            ('ok', 'collect', v), ('bad', 'collect', '.*'),
            ('cat', 'store', r'self\.category = category'),
            ('each', 'iter', 'dependencies')], [
                (r'isinstance\(%s, str\)' % X, f),
                (r'isinstance\(%s, SoftwareDependency.*\)' % X, not f)])
            if seq(t).count('each') >= 2]
        tr.check(nm, out, lambda t: t.has('ok', 'cat') and
                 not t.has('bad'), 'is one of the dependencies')
    # the listed categories
    mod = ctx.repo.module('software_dependencies')
    tops = {}
    for st in mod.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and \
                isinstance(st.targets[0], ast.Name):
            tops[st.targets[0].id] = [
                a.args[0].value for a in st.value.args[1:]
                if isinstance(a, ast.Call) and a.args and
                isinstance(a.args[0], ast.Constant)]
    base = ctx.cls('Checker', 'checkers.checker')
    n = 0
    for c in ctx.repo.subclasses(base):
        f = ctx.repo.lookup(c, '__init__')[1]
        src = ast.unparse(f.node) if hasattr(f, 'node') else ''
        for name, cats in tops.items():
            if not re.search(r'\b%s\b' % name, src):
                continue
            n += 1
            for cat in cats:
                ctx.ob(r, '%s of %s' % (cat, c.name), ctx.repo.lookup(
                    c, 'check_' + cat)[1] is not None,
                    'disseminate/software_dependencies.py', 'has a handler')
            g = ctx.graph(f, self_cls=c)
            sup = [S(g.expand(k.term, k)) for k in g.calls()
                   if k.pred and 'super' in S(g.expand(k.term, k))]
            ctx.ob(r, 'dependencies of ' + c.name, any(re.search(
                r'star\(%s\.dependencies\)' % name, s) for s in sup),
                ctx.where(f), 'are all checked')
    ctx.ob(r, 'checkers', n >= 3, mod.relpath, 'have lists of dependencies')
    # handlers that run the handlers of a prefix
    for spec, pre, sc in (
            ('checkers.checker:Checker.check_packages', 'check_packages_',
             None), ('PdfChecker.check_classes', 'check_classes_', None)):
        tr = TraceRule(ctx, r, spec)
        a = {'check_packages_': 'packages', 'check_classes_': 'classes'}[pre]
        E_ = r'elem\(.*dir\(self\).*\)'
        ev = [('each', 'iter', r'.*dir\(self\).*'),
              ('run', 'call', r'getattr\(self, %s\)\((%s=)?%s\)' % (
                  E_, a, a))]
        sel = r"%s\.startswith\('%s'\)" % (E_, pre)
        res = tr.run(ev, [(sel, True)])
        ctx.ob(r, 'handlers of ' + pre, any(t.has('run') for t in res),
               ctx.where(tr.f), 'are run')
        ctx.ob(r, 'prefix ' + pre, any(
            re.fullmatch(sel, S(tr.g.expand(n.term, n)))
            for n in tr.g.nodes if n.pred and n.term is not None and
            n.kind in ('test', 'call', 'eval')) or any(
            re.search(r"startswith\('%s'\)" % pre, S(x))
            for n in tr.g.nodes if n.pred and isinstance(n.term, tuple)
            for x in [tr.g.expand(n.term, n)]), ctx.where(tr.f),
            'selects the handlers')


def programs(ctx):
    r = 'K01.programs'
    ctx.rule(r, 'A program is available exactly when it is found, and every '
             'program of a list is looked for')
    tr = TraceRule(ctx, r, 'checkers.checker:Checker.check_executables')
    L = r"(executables|self\['executables'\])"
    E_ = r'elem\(%s\)' % L
    which = r'(shutil\.which|self\.find_executable)\((executable=|cmd=)?%s' \
        r'\.name\)' % E_
    isd = r'isinstance\(%s, SoftwareDependency\)' % E_
    isl = r'isinstance\(%s, SoftwareDependencyList\)' % E_
    given = [('executables is None', False), ('executables', True)]
    own = [('executables is None', True), ('executables', False),
           (r"'executables' in self", True)]
    ev = [('each', 'iter', L),
          ('which', 'call', which),
          ('yes', 'store', r'%s\.available = (True|%s is not None|not \(?%s '
           r'is None\)?)' % (E_, which, which)),
          ('raw', 'store', E_ + r'\.available = .*'),
          ('path', 'store', r'%s\.path = %s' % (E_, which)),
          ('sub', 'call', r'self\.check_executables\((executables=)?%s\.'
           r'dependencies\)' % E_)]
    for nm, fs in (('given', given), ('own', own)):
        res = [t for t in tr.run(ev, fs + [
            (isd, True), (isl, False), (E_ + r'\.available is None', True)])
            if seq(t).count('each') >= 2]
        tr.check('program, ' + nm, res, lambda t: t.has('which', 'path') and
                 t.some('yes', 'raw') and (t.has('yes') or t.has('raw')),
                 'is looked for and kept')
        res = [t for t in tr.run(ev, fs + [(isd, False), (isl, True)])
               if seq(t).count('each') >= 2]
        tr.check('list, ' + nm, res, lambda t: t.has('sub') and
                 not t.some('which', 'raw', 'yes'), 'is checked in turn')
        for kn, isn in (('a known program', [
                (isd, True), (isl, False),
                (E_ + r'\.available is None', False)]),
                ('other entries', [(isd, False), (isl, False)])):
            res = [t for t in tr.run(ev, fs + isn)
                   if seq(t).count('each') >= 2]
            tr.check('%s, %s' % (kn, nm), res, lambda t: t.kind in (
                'return', 'end', 'fall'), 'the rest of the list is still '
                'looked for')
    tr.expect('none', [('executables is None', True), ('executables', False),
                       (r"'executables' in self", False)], ev,
              never=('which', 'yes', 'raw'), msg='nothing is looked for')
    n = 0
    for k in tr.g.nodes:
        if k.pred and k.kind == 'store' and 'available' in S(
                tr.g.expand(k.target, k) if k.target is not None else ()):
            pass
    for t in tr.run([('st', 'store', r'%s\.available = (?P<v>.*)' % E_)],
                    given + [(isd, True), (isl, False),
                             (E_ + r'\.available is None', True)]):
        for e in t.get('st'):
            n += 1
            s = S(e[1])
            ctx.ob(r, 'availability', re.fullmatch(
                r'(not )?\(?%s is (not )?None\)?' % which, s) is not None and
                ('not ' in s) or s in ('True', 'False'), ctx.where(tr.f),
                'of programs that are found, not %s' % s)
    tr = TraceRule(ctx, r, 'checkers.checker:Checker.find_executable')
    tr.expect('find_executable', [], [], ret=r'shutil\.which\((cmd=)?'
              r'executable\)', msg='is the path of the program')


def latex(ctx):
    r = 'K01.latex'
    ctx.rule(r, 'Every LaTeX package, class and font is looked for with its '
             'extension, and is available exactly when it is found')
    tr = TraceRule(ctx, r, 'PdfChecker.check_kpsewhich')
    L = r'elem\(chunks\((?=.*lst=listing).*\)\)'
    E_ = r'elem\((%s|listing)\)' % L
    isd = r'isinstance\(%s, SoftwareDependency\)' % E_
    isl = r'isinstance\(%s, SoftwareDependencyList\)' % E_
    has = r"self\.find_executable\((executable=)?'kpsewhich'\)"
    run_ = r"subprocess\.(Popen|run|call)\((args=)?(tuple|list)\('kpsewhich'"\
        r", \(%s\.name \+ ext\)\).*\)" % E_
    ev = [('each', 'iter', L + '|listing'), ('run', 'call', run_),
          ('other', 'call:Popen|run|call|check_output', '.*'),
          ('sub', 'call', r'self\.check_kpsewhich\((?=.*listing=%s\.'
           r'dependencies)(?=.*ext=ext).*\)' % E_),
          ('set', 'store', r'elem\(.*\)(\[0\])?\.available = (elem\(.*\)'
           r'(\[1\])?|%s)\.returncode == 0' % run_),
          ('wrong', 'store', r'.*\.available = .*')]
    res = [t for t in tr.run(ev, [(has + ' is None', False), (has, True),
                                  (isd, True), (isl, False)])
           if seq(t).count('each') >= 2]
    tr.check('package', res, lambda t: t.has('run') and
             not t.some('other', 'wrong', 'sub'), 'is looked for')
    keep = tr.run(ev + [('keep', 'collect', r'.*kpsewhich.*')], [
        (has + ' is None', False), (has, True), (isd, True), (isl, False)])
    tr.check('process', [t for t in keep if t.has('run')], lambda t:
             t.has('keep') or t.has('set') and 'elem(list())' not in S(
                 t.get('set')[0]), 'is waited for')
    ctx.ob(r, 'result', any(t.has('set') for t in res), ctx.where(tr.f),
           'is whether it was found')
    res = [t for t in tr.run(ev, [(has + ' is None', False), (has, True),
                                  (isd, False), (isl, True)])
           if seq(t).count('each') >= 2]
    tr.check('list', res, lambda t: t.has('sub') and not t.some(
        'other', 'run'), 'is checked in turn')
    tr.expect('no kpsewhich', [(has + ' is None', True), (has, False)], ev,
              never=('run', 'other', 'set', 'wrong'),
              msg='nothing is known')
    for spec, ext in (('check_packages_kpsewhich', '.sty'),
                      ('check_fonts', '.tfm'),
                      ('check_classes_kpsewhich', '.cls')):
        a = {'.sty': 'packages', '.tfm': 'fonts', '.cls': 'classes'}[ext]
        tr = TraceRule(ctx, r, 'PdfChecker.' + spec)
        for nm, given, want in (('given', True, a),
                                ('own', False, r"self\['%s'\]" % a)):
            tr.expect('%s, %s' % (a, nm), [
                (a + ' is None', not given), (a, given),
                ("'%s' in self" % a, True)], [
                ('run', 'call', r"self\.check_kpsewhich\((?=.*listing=%s[,)])"
                 r"(?=.*ext='\%s').*\)" % (want if given else want, ext)),
                ('other', 'call:check_kpsewhich', '.*')],
                exactly={'run': 1}, never=('other',),
                msg='are looked for with their extension')
        tr.expect(a + ', none', [(a + ' is None', True), (a, False),
                                 ("'%s' in self" % a, False)], [
            ('other', 'call:check_kpsewhich', '.*')], never=('other',),
            msg='are not looked for')
    # kpsewhich runs in parts of the list
    tr = TraceRule(ctx, r, 'utils.list:chunks')
    kinds = [k for k in tr.g.nodes if k.pred and k.kind == 'yield']
    for k in kinds:
        s = S(tr.g.expand(k.term, k))
        ctx.ob(r, 'chunks', re.fullmatch(
            r'(list\()?lst\[slice\((elem\(range\((0, )?len\(lst\), N\)\)), '
            r'\(\1 \+ N\)(, None)?\)\]\)?|.*islice\(.*N.*\).*',
            s.replace("c('", '').strip()) is not None or 'lst' in s,
            ctx.where(k), 'are consecutive: %s' % s)
    ctx.ob(r, 'chunks', len(kinds) >= 1, ctx.where(tr.f), 'are given')


def packages(ctx):
    r = 'K01.python'
    ctx.rule(r, 'A Python package is available when one of exactly its name '
             'is installed, in a version that the comparison accepts')
    tr = TraceRule(ctx, r, 'PythonChecker.check_packages_pip')
    isd = r'isinstance\(packages, SoftwareDependency\)'
    isl = r'isinstance\(packages, SoftwareDependencyList\)'
    W = r'name_and_version\((string=)?packages\.name\)'
    G = r'name_and_version\((string=)?(?!packages).*\)'
    M = r'(comp\(list, elem\(self\.freeze\).*\)|filter.*)'
    ev = [('yes', 'store', r'packages\.available = True'),
          ('wrong', 'store', r'.*\.available = .*'),
          ('cmp', 'call', W + r'\[1\]\(' + G + r'\[2\], ' + W + r'\[2\]\)'),
          ('badcmp', 'call', W + r'\[1\]\(.*'),
          ('pick', 'collect', r'elem\(self\.freeze\)'),
          ('each', 'iter', r'self\.freeze')]
    base = [(r'self\.freeze is None', False), (r'self\.freeze', True),
            ('packages is None', False), ('packages', True),
            (isd, True), (isl, False), (W + ' is None', False),
            (G + ' is None', False)]
    some = [(r'len\(.*freeze.*\) == 0', False), (r'(0 < )?len\(.*freeze.*\)',
                                                 True)]
    noop = [(W + r'\[1\] is None', True), (W + r'\[2\] is None', True)]
    op = [(W + r'\[1\] is None', False), (W + r'\[2\] is None', False),
          (G + r'\[2\] is None', False)]
    ok = W + r'\[1\]\(.*'
    name = r".*elem\(self\.freeze\).*(==|in) .*%s\[0\]\.lower\(\).*|" \
        r".*%s\[0\]\.lower\(\).* == .*elem\(self\.freeze\).*" % (W, W)
    def case(nm, fs, must, never, msg):
        out = [t for t in tr.run(ev, base + some + fs + [(name, True)])
               if t.has('pick')]
        tr.check(nm, out, lambda t: t.kind == 'return' and t.has(*must) and
                 not t.some(*never), msg)
    case('any version', noop, ('yes',), ('wrong', 'badcmp'), 'is available')
    case('right version', op + [(ok, True)], ('yes', 'cmp'),
         ('wrong', 'badcmp'), 'is available')
    case('wrong version', op + [(ok, False)], ('cmp',), ('yes', 'badcmp'),
         'is not available')
    case('no version', [
        (W + r'\[1\] is None', False), (W + r'\[2\] is None', False),
        (G + r'\[2\] is None', True)], (), ('yes', 'badcmp'),
        'is not available')
    out = tr.run(ev, base + op + [(ok, True), (name, False)])
    tr.check('not installed', out, lambda t: not t.some('yes', 'wrong', 'cmp',
                                                        'badcmp'),
             'is not available')
    out = [t for t in tr.run(ev, base + some + noop + [(name, False)])
           if seq(t).count('each') >= 2]
    tr.check('another name', out, lambda t: 'pick' not in seq(t),
             'does not count')
    n = 0
    for k in tr.g.nodes:
        if k.pred and k.kind == 'test':
            s = S(tr.g.expand(k.term, k))
            if 'elem(self.freeze)' in s and '.lower()' in s:
                n += 1
                ctx.ob(r, 'name', re.fullmatch(
                    r"elem\(self\.freeze\)\.(r?split\('==', 1\)|split\('=='"
                    r"\)|partition\('=='\))\[0\](\.lower\(\))? == %s\[0\]"
                    r"\.lower\(\)|%s\[0\]\.lower\(\) == elem\(self\.freeze\)"
                    r"\.(split|partition)\('=='\)\[0\](\.lower\(\))?" % (W, W),
                    s) is not None or 'startswith' not in s and ' in ' not in
                    s and '==' in s, ctx.where(k),
                    'is compared as a whole: %s' % s[:90])
    ctx.ob(r, 'names', n >= 1, ctx.where(tr.f), 'are compared')
    lists_ = [(r'self\.freeze is None', False), (r'self\.freeze', True),
              (isd, False), (isl, True)]
    for nm, fs, w in (
            ('given list', [('packages is None', False), ('packages', True)],
             'packages'),
            ('own list', [('packages is None', True), ('packages', False),
                          ("'packages' in self", True),
                          (r"isinstance\(self\['packages'\], SoftwareDep"
                           r"endency\)", False),
                          (r"isinstance\(self\['packages'\], SoftwareDep"
                           r"endencyList\)", True)],
             r"self\['packages'\]")):
        e = [('each', 'iter', w + r'(\.dependencies)?'),
             ('sub', 'call', r'self\.check_packages_pip\((packages=)?elem\('
              r'%s(\.dependencies)?\)\)' % w)]
        res = [t for t in tr.run(e, lists_ + fs)
               if seq(t).count('each') >= 2]
        tr.check(nm, res, lambda t: t.has('sub'), 'each package is checked')
    # installed packages
    tr = TraceRule(ctx, r, 'PythonChecker.__init__')
    out = tr.run([('set', 'store', r'self\.freeze = .*lower\(\).*|self\.'
                   r'freeze = .*check_output.*'),
                  ('none', 'store', r'self\.freeze = None'),
                  ('list', 'call', r"subprocess\.(check_output|run)\(.*'-m', "
                   r"'pip', 'list', '--format=freeze'.*")], [])
    ctx.ob(r, 'installed packages', any(t.has('set', 'list') for t in out),
           ctx.where(tr.f), 'are listed in lower case')
    out = tr.run([('decode', 'call', r'.*check_output\(.*\)\.decode\(.*'),
                  ('none', 'store', r'self\.freeze = None')],
                 [(r'.*check_output\(.*\) is None', False)])
    ctx.ob(r, 'listing', any(t.has('decode') for t in out) and not any(
        t.has('decode', 'none') for t in out), ctx.where(tr.f),
        'is used when there is one')
    ctx.ob(r, 'no listing', any({'CalledProcessError', 'Exception',
                                 'SubprocessError'} & caught(k)
                                for k in tr.g.calls() if k.pred and
                                tr.g.cname(k) in ('check_output', 'run')),
           ctx.where(tr.f), 'is not an error')
    # names and versions
    r = 'K01.versions'
    ctx.rule(r, 'A requirement has the name, comparison and version that are '
             'written, versions being compared as numbers')
    tr = TraceRule(ctx, r, 'name_and_version')
    ops = {'==': 'eq', '>': 'gt', '<': 'lt', '>=': 'ge', '<=': 'le',
           '!=': 'ne'}
    found = {}
    for n in ast.walk(tr.f.module.tree):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value in ops and \
                        isinstance(v, (ast.Attribute, ast.Name)):
                    found[k.value] = (v.attr if isinstance(v, ast.Attribute)
                                      else v.id, n.lineno)
    for k, v in ops.items():
        ctx.ob(r, 'operator ' + k, k in found and found[k][0] in (
            v, '__%s__' % v), '%s:%s' % (tr.f.file, found.get(k, (0, 0))[1]),
            'is the comparison of that name')
    pats = [n.value for n in ast.walk(tr.f.module.tree)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and
            '(' in n.value and r'\d' in n.value]
    ctx.ob(r, 'pattern', len(pats) == 1, tr.f.file, 'is given')
    samples = {'test': ('test', None, None),
               'test-ab_one': ('test-ab_one', None, None),
               'test-ab_one>=0.3.1': ('test-ab_one', '>=', '0.3.1'),
               'new-package>1.2': ('new-package', '>', '1.2'),
               'jinja2>=2.10': ('jinja2', '>=', '2.10'),
               'a.b-c_d <= 10.11.12': ('a.b-c_d', '<=', '10.11.12'),
               'pygments >=2.6': ('pygments', '>=', '2.6'),
               'x!=3': ('x', '!=', '3'), 'x<3': ('x', '<', '3'),
               'x==20.1': ('x', '==', '20.1')}
    for p in pats:
        for s, want in samples.items():
            m = re.search(p, s)
            got = m.groups() if m else None
            ctx.ob(r, 'pattern for ' + s, got == want, tr.f.file,
                   'gives %s, not %s' % (want, got))
    mt = r're\.(search|match)\(.*, (string=)?string\)|.*\.(search|match)\(' \
        r'string\)'
    tr.expect('no name', [(r'(%s) is None' % mt, True), (mt, False)], [],
              ret='None', msg='is not a requirement')
    g2, g3 = r'.*\.group\(2\)', r'.*\.group\(3\)'
    for nm, o, v in (('with version', True, True), ('name', False, False)):
        out = tr.run([('int', 'call', r'int\(elem\(.*group\(3\).*\)\)'),
                      ('ints', 'call', r'tuple\(.*int\(.*'),
                      ('map', 'iter', r'.*group\(3\)\.split\(\'\.\'\)')], [
            (r'(re\.search\(.*string\)|.*search\(string\)) is None', False),
            (g2 + ' is None', not o), (g3 + ' is None', not v)])
        tr.check(nm, out, lambda t, w=v, o_=o: t.kind == 'return' and re.match(
            r'tuple\(.*group\(1\)', S(t.value)) is not None and
            ('map' in seq(t)) is w and (
                t.value[0] != 'tuple' or len(t.value) != 4 or
                'group(2)' in S(t.value[2]) and (
                    'operator.' in S(t.value[2]) or not o_)),
            'has its parts')


def shown(ctx):
    r = 'K01.shown'
    ctx.rule(r, 'The status that is shown is that of the dependency: missing '
             'is a failure only where it is required')
    av = r"(getattr\(item, 'available', None\)|item\.available)"
    req = [('required', True)]
    for spec, table in (
            ('CheckerHandler.checker_to_dict',
             ('ok', 'fail', 'missing', 'unknown')),
            ('print_dependencies', ('PASS', 'FAIL', 'MISSING', 'UNKNOWN'))):
        tr = TraceRule(ctx, r, spec)
        isa = [r'isinstance\(item, %s\)' % c for c in ('All', 'Any',
                                                       'Optional')]
        for nm, a, q, want in (
                ('available', True, None, table[0]),
                ('required', False, True, table[1]),
                ('not required', False, False, table[2]),
                ('not known', None, None, table[3])):
            fs = [(av + ' is True', a is True), (av + ' is False',
                                                 a is False),
                  (av + ' == True', a is True), (av + ' == False',
                                                 a is False),
                  (av + ' is None', a is None)]
            if q is not None:
                fs.append(('required', q))
            fs += [(x, False) for x in isa] + [
                (r"hasattr\(item, 'name'\)", True)]
            ev = [('st', 'store', r".*\['status'\] = '(?P<v>\w+)'"),
                  ('st', 'call', r"print_single_check\(.*status='(?P<v>\w+)'"
                   r".*\)")]
            got = set()
            out = tr.run(ev, fs)
            for t in out:
                vals = [S(e[1]).strip("'") for e in t.get('st')]
                ctx.ob(r, '%s of %s' % (nm, spec), (not vals and
                       "'%s'" % want in S(t.value)) or
                       bool(vals) and vals[-1] == want, ctx.where(tr.f),
                       'is shown as %s, not %s' % (want, vals))
            ctx.ob(r, '%s of %s' % (nm, spec), bool(out), ctx.where(tr.f),
                   'is shown')
        call = spec.split('.')[-1]
        for i, (c, q) in enumerate((('All', True), ('Any', False),
                                    ('Optional', False))):
            fs = [(x, j == i) for j, x in enumerate(isa)]
            ev = [('each', 'iter', r'item(\.dependencies)?'),
                  ('sub', 'call', r'(self\.)?%s\((?=.*item=elem\(item(\.'
                   r'dependencies)?\))(?=.*level=\(level \+ 1\))%s.*\)' % (
                       call, r'(?=.*required=False)' if not q else
                       r'(?!.*required=(?!True\b))')),
                  ('bad', 'call:' + call, '.*')]
            out = [t for t in tr.run(ev, fs) if seq(t).count('each') >= 2]
            tr.check('parts of ' + c, out, lambda t: t.has('sub') and
                     not t.has('bad'), 'are shown as %srequired' % (
                         '' if q else 'not '))
        kinds = [(c, [(x, j == i) for j, x in enumerate(isa)], 'category')
                 for i, c in enumerate(('All', 'Any', 'Optional'))]
        kinds.append(('a dependency', [(x, False) for x in isa] + [
            (r"hasattr\(item, 'name'\)", True)], 'name'))
        for c, fs, what in kinds:
            if call == 'print_dependencies':
                tr.expect('line of ' + c, fs, [
                    ('print', 'call', r'(click\.)?(print|echo)\(print_single_'
                     r'check\((?=.*msg=.*item\.%s.*)(?=.*status=)(?=.*level='
                     r'level).*\)\)' % what)],
                    must=('print',), msg='is printed')
                continue
            for k, v in (('level', 'level'), ('msg', r'.*item\.%s.*' % what),
                         ('status', '.*')) + ((
                             ('subcheckers', '.*'),) if what != 'name'
                             else ()):
                out = tr.run([('st', 'store', r".*\['%s'\] = %s" % (k, v))],
                             fs)
                tr.check('%s of %s' % (k, c), out, lambda t, k=k:
                         t.has('st') or "'%s'" % k in S(t.value),
                         'is given to the page')
        f = tr.f
        d = f.default_of('required')
        ctx.ob(r, 'required by ' + spec, d is not None and
               ctx.repo.eval_const(f.module, d) is True, ctx.where(f),
               'is the default')
    for spec, made in (('CheckerHandler.get', r'self\.checker_to_dict'),
                       ('print_checkers', 'print_dependencies')):
        tr = TraceRule(ctx, r, spec)
        K = r'elem\((Checker\.checker_subclasses\(\)|.*)\)\(\)'
        ev = [('each', 'iter', r'Checker\.checker_subclasses\(\)'),
              ('check', 'call', K + r'\.check\(\)'),
              ('show', 'call', made + r'\((item=)?%s.*\)' % K)]
        out = tr.run(ev, [])
        ctx.ob(r, 'all of ' + spec, any(t.has('each', 'check', 'show')
                                        for t in out), ctx.where(tr.f),
               'are checked and shown')
        for t in out:
            s = seq(t)
            ctx.ob(r, 'order of ' + spec, 'show' not in s or (
                'check' in s and s.index('check') < s.index('show')),
                ctx.where(tr.f), 'is checked before it is shown')


def run(ctx):
    lists(ctx)
    dispatch(ctx)
    programs(ctx)
    latex(ctx)
    packages(ctx)
    shown(ctx)
