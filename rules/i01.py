"""I01: starting a project overwrites nothing unasked, and gives a project
that can be built"""
import ast
import os
from .common import *

ASSUMPTIONS = [
    'click.confirm returns whether the user agreed; glob lists all files '
    'below a directory; copy2 copies the contents of a file']

DESTROY = {'rmtree', 'unlink', 'remove', 'rmdir', 'rename', 'replace', 'move',
           'write_text', 'write_bytes', 'truncate', 'copytree', 'chmod'}


def asked(ctx):
    r = 'I01.asked'
    ctx.rule(r, 'Files are only copied to an empty directory, when the user '
             'agrees, or when questions were switched off')
    tr = TraceRule(ctx, r, 'clone_starter')
    OUT = r"(pathlib\.)?Path\((out_dir|'\.')\)"
    emp = r'is_empty\((path=)?%s\)' % OUT
    ask = r'click\.confirm\(.*\)'
    ev = [('ask', 'call', ask), ('mkdir', 'call', r'.*\.mkdir\(.*'),
          ('copy', 'call:copy2|copy|copyfile|copytree|move|link|symlink|'
           'symlink_to', '.*'),
          ('empty', 'call', emp)]
    # the answer is no unless it is given
    for n in tr.g.calls():
        if n.pred and tr.g.cname(n) == 'confirm':
            kw = {k: S(v) for k, v in n.term[3]}
            pos = S(n.term[2][1]) if len(n.term[2]) > 1 else None
            ctx.ob(r, 'default answer', kw.get('default', pos) in (
                None, 'False', 'None'), ctx.where(n), 'must not be yes')
    for o in (True, False):
        b = [('out_dir is None', not o), ('out_dir', o)]
        nm = 'a directory' if o else 'the current directory'
        out = tr.run(ev, b + [('non_interactive', False), (emp, False),
                              (ask, False)])
        tr.check('refused, ' + nm, out, lambda t: t.has('ask') and
                 not t.some('mkdir', 'copy'), 'nothing is copied')
        out = tr.run(ev, b + [('non_interactive', False), (emp, False),
                              (ask, True)])
        tr.check('agreed, ' + nm, out, lambda t: t.has('ask') and (
            not t.has('copy') or seq(t).index('ask') < seq(t).index('copy')),
            'the question comes first')
        ctx.ob(r, 'agreed, ' + nm, any(t.has('copy') for t in out),
               ctx.where(tr.f), 'the project is copied')
        out = tr.run(ev, b + [('non_interactive', False), (emp, True)])
        tr.check('empty, ' + nm, out, lambda t: t.kind == 'return',
                 'the project is copied')
        ctx.ob(r, 'empty, ' + nm, any(t.has('copy') for t in out),
               ctx.where(tr.f), 'the project is copied')
        out = tr.run(ev, b + [('non_interactive', True)])
        tr.check('no questions, ' + nm, out, lambda t: not t.has('ask') and
                 t.kind == 'return', 'nothing is asked')
    tr = TraceRule(ctx, r, 'is_empty')
    p = r'(pathlib\.)?Path\((path=)?path\)'
    tr.expect('directory', [(r'(path|%s)\.is_dir\(\)' % p, False)], [
        ('list', 'call', r'.*(iterdir|listdir)\(.*')], never=('list',),
        ret='False', msg='that does not exist is not listed')
    tr.expect('no directory', [(p + r'\.is_dir\(\)', False),
                               (r'path\.is_dir\(\)', False)], [], ret='False',
              msg='is not an empty directory')
    dr = [(r'(path|%s)\.is_dir\(\)' % p, True)]
    lst = r'(next\(.*\.iterdir\(\).*|any\(.*\.iterdir\(\).*|list\(.*\.iterdir' \
        r'\(\).*|os\.listdir\(.*|.*iterdir\(\).*)'
    ev = [('list', 'call', lst), ('list', 'iter', lst)]
    out = tr.run(ev, dr, exc=True)
    ctx.ob(r, 'is_empty', any(t.has('list') or re.search(
        r'iterdir|listdir', S(t.value) if t.value else '') for t in out),
        ctx.where(tr.f), 'the files of the directory are looked at')
    # the two outcomes of the list of files
    left = {S(c[0]) for n in tr.g.nodes if n.pred for c in tr.g.conds(n)
            if re.search(r'elem\(.*(iterdir|listdir|scandir|glob)\(',
                         S(tr.g.expand(c[0], n)))}
    ctx.ob(r, 'all files', not left, ctx.where(tr.f),
           'no file of the directory is left out by %s' % ', '.join(left))
    its = [n for n in tr.g.calls() if n.pred and tr.g.cname(n) == 'next']
    for n in its:
        t = tr.g.expand(n.term, n)
        ctx.ob(r, 'is_empty', 'iterdir' in S(t), ctx.where(n),
               'the files of the directory are looked at')
        if len(t[2]) == 1:
            res = {S(x.value) for x in tr.run([
                ('next', 'call:next', '.*')], dr)
                if x.kind == 'return' and x.has('next')}
            ctx.ob(r, 'with files', res == {'False'}, ctx.where(n),
                   'is not empty, not %s' % ', '.join(res))
            exc = {S(x.value) for x in tr.run([
                ('next', 'call:next', '.*')], dr, exc=True)
                if x.kind == 'return' and not x.has('next')}
            ctx.ob(r, 'without files', 'StopIteration' in caught(n) and
                   'True' in exc | {S(x.value) for x in tr.run(
                       [], dr, exc=True) if x.kind == 'return'},
                   ctx.where(n), 'is empty')


def copied(ctx):
    r = 'I01.copied'
    ctx.rule(r, 'Every file of the starter, but its description, is copied to '
             'its place below the output directory, and nothing else changes')
    tr = TraceRule(ctx, r, 'clone_starter')
    OUT = r"(pathlib\.)?Path\((out_dir|'\.')\)"
    F = r'starter_filepaths\((starter=)?starter\)'
    K = r'elem\((sorted\()?%s(\.keys\(\))?(, .*)?\)' % F
    KI = r'elem\((sorted\()?%s\.items\(\)(, .*)?\)' % F
    key = r'(%s|%s\[0\])' % (K, KI)
    val = r'(%s\[%s\]|%s\[1\])' % (F, K, KI)
    D = r'\(%s / %s\)|%s\.joinpath\(%s\)' % (OUT, key, OUT, key)
    ev = [('each', 'iter', r'(sorted\()?%s(\.items\(\)|\.keys\(\))?(, .*)?'
           % F),
          ('mkdir', 'call', r'(%s)\.parent\.mkdir\((?=.*exist_ok=True)'
           r'(?=.*parents=True).*\)|os\.makedirs\(.*parent.*exist_ok=True.*'
           % D),
          ('copy', 'call', r'(shutil\.)?copy2?(file)?\(%s, (%s)\)' % (
              val, D)),
          ('other', 'call:copy2|copy|copyfile|copytree|move', '.*')]
    for o in (True, False):
        out = [t for t in tr.run(ev, [
            ('out_dir is None', not o), ('out_dir', o),
            ('non_interactive', True)]) if seq(t).count('each') >= 2]
        # the loop that copies is the last one
        out = [t for t in out if t.some('copy', 'other', 'mkdir')] or out
        tr.check('with a directory' if o else 'without directory', out,
                 lambda t: t.has('mkdir', 'copy') and not t.has('other') and
                 seq(t).index('mkdir') < seq(t).index('copy'),
                 'each file is copied')
    outs = set()
    for n in tr.g.calls():
        if n.pred and tr.g.cname(n) in ('copy2', 'copy', 'copyfile'):
            outs.add(S(tr.g.expand(n.term, n)))
    ctx.ob(r, 'destination', outs and all('out_dir' in s for s in outs),
           ctx.where(tr.f), 'is the output directory')
    outd = tr.run([('here', 'call', r"(shutil\.)?copy2?(file)?\(.*Path\('\.'\)"
                   r".*\)"), ('copy', 'call:copy2|copy|copyfile', '.*')],
                  [('out_dir is None', True), ('out_dir', False),
                   ('non_interactive', True)])
    ctx.ob(r, 'no output directory', any(t.some('here') for t in outd) and
           not any(t.has('copy') for t in outd), ctx.where(tr.f),
           'is the current one')
    tr.expect('output directory', [
        ('out_dir is None', False), ('out_dir', True),
        ('non_interactive', True)], [
            ('copy', 'call', r"(shutil\.)?copy2?(file)?\(.*Path\('\.'\).*\)")],
        never=('copy',), msg='is the given one', minimum=0)
    tr = TraceRule(ctx, r, 'starter_filepaths')
    R = r"starter\['_path'\]\.parent"
    E_ = r"elem\(%s\.(glob\('\*\*/\*'\)|rglob\('\*'\))\)" % R
    isf, desc = E_ + r'\.is_file\(\)', E_ + \
        r"\.name == (settings\.template_starter_desc_filename|'description" \
        r"\.yaml')"
    ev = [('each', 'iter', r"%s\.(glob\('\*\*/\*'\)|rglob\('\*'\))" % R),
          ('put', 'store|collect', r'.*(%s)\.relative_to\(%s\)\)*(\] = |, )%s'
           r'\)?' % (E_, R, E_)),
          ('part', 'store', r'.*\.(name|stem|parent|suffix)\)?\] = %s' % E_),
          ('short', 'store', r'.*\] = %s' % E_),
          ('other', 'store', r'dict\(.*')]
    for nm, f, d, want in (('file', True, False, True),
                           ('description', True, True, False),
                           ('directory', False, False, False)):
        out = [t for t in tr.run(ev, [(isf, f), (desc, d),
                                      (r"'_path' in starter", True)])
               if seq(t).count('each') >= 2]
        tr.check(nm, out, lambda t, w=want: t.kind == 'return' and
                 not t.has('part') and (t.some('put', 'short') and
                                        not t.has('other')) is w and
                 (w or not t.some('put', 'short', 'other')),
                 'is %sone of the files' % ('' if want else 'not '))
    tr.expect('files', [(r"'_path' in starter", True)], [],
              ret=r'dict\(.*|comp\(dict.*', msg='are returned')
    for n in tr.g.nodes:
        if n.pred and n.kind == 'store' and n.target is not None:
            s = S(tr.g.expand(n.target, n)) if isinstance(
                n.target, tuple) else ''
            if 'relative_to' in s or 'elem(' in s:
                ctx.ob(r, 'names', 'relative_to(starter' in s, ctx.where(n),
                       'are relative to the starter: %s' % s[:90])
    # nothing else is changed
    from sa.core import all_functions
    for f in all_functions(ctx.repo):
        if f.module.name != 'disseminate.cli.init' or f.short not in \
                ctx.known:
            continue
        g = ctx.graph(f)
        bad = [c for c in g.calls() if c.pred and g.cname(c) in DESTROY and
               not (g.cname(c) == 'replace')]
        bad += [c for c in g.calls() if c.pred and g.cname(c) == 'open']
        ctx.ob(r, 'changes in ' + f.short, not bad, ctx.where(
            bad[0] if bad else f), 'none but the copies')


def command(ctx):
    r = 'I01.command'
    ctx.rule(r, 'Only a listed starter is copied, and only when neither the '
             'list nor the information was asked for')
    tr = TraceRule(ctx, r, 'init')
    SD = r'generate_starters_dict\(\)'
    N = r'names\[0\]'
    ev = [('clone', 'call', r'clone_starter\((?=.*name=%s)(?=.*starter=%s\[%s'
           r'\])(?=.*out_dir=out_dir)(?=.*non_interactive=non_interactive)'
           r'.*\)' % (N, SD, N)),
          ('badclone', 'call:clone_starter', '.*'),
          ('list', 'call', r'print_starters_list\(.*'),
          ('info', 'call', r'print_starter_info\((?=.*name=%s)(?=.*starter=%s'
           r'\[%s\]).*\)' % (N, SD, N))]
    some = [('0 < len.names.', True), (r'len\(names\) == 0', False),
            (r'len\(names\)', True), ('names', True)]
    none = [('0 < len.names.', False), (r'len\(names\) == 0', True),
            (r'len\(names\)', False), ('names', False)]
    known = [(r'%s in %s' % (N, SD), True)]
    for nm, fs, must in (
            ('no name', none, 'list'),
            ('list', some + [('show_list', True)], 'list'),
            ('info', some + known + [('show_list', False), ('info', True)],
             'info'),
            ('unknown', some + [('show_list', False),
                                (r'%s in %s' % (N, SD), False)], None)):
        out = tr.run(ev, fs)
        tr.check(nm, out, lambda t, m=must: not t.some('clone', 'badclone')
                 and (m is None and raises(t, 'BadParameter') or
                      m is not None and t.has(m)), 'copies nothing')
    tr.expect('copy', some + known + [('show_list', False), ('info', False)],
              ev, must=('clone',), never=('badclone', 'list', 'info'),
              msg='the starter is copied')
    # the options
    opts = {}
    for d in ctx.fn('init').node.decorator_list:
        if isinstance(d, ast.Call):
            names = [a.value for a in d.args if isinstance(a, ast.Constant)]
            kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
            for x in names:
                opts[x] = kw
    for par, flags in (('non_interactive', ('-n', '--non-interactive')),
                       ('info', ('--info',)), ('show_list', ('-l', '--list'))):
        for o in flags:
            kw = opts.get(o, {})
            ctx.ob(r, 'option ' + o, o in opts and kw.get('is_flag') == 'True'
                   and kw.get('default', 'False') == 'False',
                   ctx.where(tr.f), 'is a flag, which is off by default')
        ctx.ob(r, 'parameter ' + par, any(
            x.lstrip('-').replace('-', '_') == par and opts[x] ==
            opts.get(flags[0]) for x in opts), ctx.where(tr.f),
            'is set by its option')
    tr = TraceRule(ctx, r, 'generate_starters_dict')
    P_ = r"elem\(template_path\.(glob|rglob)\(.*?\)\)"
    ev = [('each', 'iter', r'template_path\.(glob|rglob)\(.*'),
          ('path', 'store', r".*\['_path'\] = %s" % P_),
          ('tmpl', 'store', r".*\['template'\] = starter_path_template_name\("
           r"(relpath=)?%s\.relative_to\(template_path\)\)" % P_),
          ('put', 'store', r"dict\(\)\[starter_path_to_name\((relpath=)?"
           r".*relative_to\(template_path\)\)\] = str_to_dict\(.*")]
    out = [t for t in tr.run(ev, []) if seq(t).count('each') >= 2]
    tr.check('starters', out, lambda t: t.has('path', 'put', 'tmpl'),
             'each description gives a starter')
    tr.expect('starters are', [], [], ret=r'dict\(.*|comp\(dict.*',
              msg='returned')
    for n in tr.g.calls():
        if n.pred and tr.g.cname(n) in ('glob', 'rglob'):
            s = S(tr.g.expand(n.term, n))
            ctx.ob(r, 'descriptions in all directories', tr.g.cname(n) ==
                   'rglob' or "'**/" in s, ctx.where(n), 'are found')
            ctx.ob(r, 'descriptions', 'template_starter_desc_filename' in s or
                   'description.yaml' in s, ctx.where(n), 'are found')
    tr = TraceRule(ctx, r, 'starter_path_to_name')
    Q = r'elem\(relpath\.parts\)'
    q1 = Q + r' == (settings\.template_starter_dir|.starters.)'
    q2 = Q + r' == (settings\.template_starter_desc_filename|.description.*)'
    for nm, a, b in (('directory', True, False), ('file', False, True),
                     ('part', False, False)):
        out = [t for t in tr.run([('each', 'iter', r'relpath\.parts'),
                                  ('put', 'collect', Q)],
                                 [(q1, a), (q2, b),
                                  (Q + r' in \(.*|' + Q + ' in .*', a or b)])
               if seq(t).count('each') >= 2]
        tr.check('name, ' + nm, out, lambda t, w=not (a or b):
                 t.has('put') is w and re.match(r"'/'\.join\(", S(t.value)),
                 'is %spart of the name' % ('' if not (a or b) else 'not '))
    tr = TraceRule(ctx, r, 'starter_path_template_name')
    tr.expect('template', [], [], ret=r"'/'\.join\(relpath\.parts\[slice\((0|"
              r"None|), relpath\.parts\.index\((settings\.template_starter_"
              r"dir|'starters')\)(, None)?\)\]\)",
              msg='is the directory of the starters')


# the starters

def header(path):
    """The entries of the header of a document"""
    with open(path, encoding='utf-8') as f:
        text = f.read()
    m = re.match(r'\s*-{3}[^\n]*\n(.*?)\n-{3}', text, re.S)
    out, key = {}, None
    for line in (m.group(1) if m else '').splitlines():
        k = re.match(r'(\w+)\s*:\s*(.*)$', line)
        if k:
            key = k.group(1)
            out[key] = [k.group(2)] if k.group(2) else []
        elif key and line.strip():
            out[key].append(line.strip())
    return out


def starters(ctx):
    r = 'I01.starters'
    ctx.rule(r, 'Every starter has a description, its documents include '
             'files of the starter, and their templates exist for all of '
             'their targets')
    base = os.path.join(ctx.repo.src, 'disseminate', 'templates')
    exts = {'html': ('html',), 'pdf': ('tex',), 'tex': ('tex',),
            'epub': ('xhtml',), 'xhtml': ('xhtml',), 'txt': ('txt',)}
    n = 0
    for d, _, files in sorted(os.walk(base)):
        if 'description.yaml' not in files:
            continue
        n += 1
        rel = os.path.relpath(d, base)
        with open(os.path.join(d, 'description.yaml'), encoding='utf-8') as f:
            ctx.ob(r, 'description of ' + rel, re.search(
                r'^description\s*:\s*(\S|\n\s+\S)', f.read(), re.M)
                is not None, 'disseminate/templates/' + rel, 'is given')
        dms, inc = {}, set()
        for dd, _, fs in sorted(os.walk(d)):
            for fn in fs:
                if fn.endswith('.dm'):
                    p = os.path.join(dd, fn)
                    dms[p] = header(p)
        ctx.ob(r, 'documents of ' + rel, bool(dms),
               'disseminate/templates/' + rel, 'are there')
        for p, h in dms.items():
            for x in h.get('include', []):
                q = os.path.normpath(os.path.join(os.path.dirname(p), x))
                inc.add(q)
                ctx.ob(r, 'included %s of %s' % (x, rel), q in dms,
                       os.path.relpath(p, ctx.repo.src), 'is there')
        for p, h in dms.items():
            ctx.ob(r, 'document %s' % os.path.relpath(p, base), p in inc or
                   os.path.basename(os.path.dirname(p)) == 'src',
                   os.path.relpath(p, ctx.repo.src),
                   'is included, or is the root document')
        for p, h in dms.items():
            t = ' '.join(h.get('template', ['default'])).strip()
            if not h.get('targets') or h['targets'][0].strip() == 'none':
                continue
            for tg in re.split(r'[\s,]+', ' '.join(h['targets'])):
                for e in exts.get(tg.strip('.'), ()):
                    ok = any(os.path.isfile(os.path.join(base, q)) for q in (
                        os.path.join(t, e, 'template.' + e),
                        os.path.join(t, 'template.' + e), t + '.' + e))
                    ctx.ob(r, 'template %s for %s of %s' % (t, tg, rel), ok,
                           os.path.relpath(p, ctx.repo.src), 'exists')
    ctx.ob(r, 'starters', n >= 3, 'disseminate/templates', 'are given')


def run(ctx):
    asked(ctx)
    copied(ctx)
    command(ctx)
    starters(ctx)
