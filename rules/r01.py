"""R01: rendering has no side effects"""
import ast
from .common import *
from .purity import Purity, roots

ASSUMPTIONS = [
    'Objects of other libraries are only changed by the mutating methods of '
    'the built-in containers',
    'An object returned by a call other than get, setdefault, values, items '
    'or getattr is not shared',
]

# caches that rendering may fill (their keys are checked below) and the lazy
# registration of labels (checked in L01)
MEMO = {'_outfilepaths', '_target_context', 'processed_headers',
        'processed_rows', 'registered', '__weakrefattrs__'}
RENDER = ('default', 'txt', 'html', 'tex', 'xhtml', 'title', 'short')
HELPERS = ['content_to_str', 'format_content', 'percentage', 'tex_cmd',
           'tex_env', 'tex_verb', 'xhtml_entity', 'xhtml_list',
           'Tag.flatten', 'copy_tag', 'Attributes.get',
           'Attributes.find_item', 'Attributes.filter',
           'Attributes.totuple', 'Attributes.tex_arguments',
           'Attributes.tex_optionals', 'Attributes.html',
           'LabelManager.get_labels_by_kind', 'LabelManager.get_label',
           'LabelManager.format_string', 'Ref.url', 'Ref.document',
           'Ref.label', 'Toc.get_labels', 'Toc.reference_tags',
           'Authors.author_string', 'OtherLink.this_filepath',
           'OtherLink.other_filepath', 'OtherLink.other_relpath',
           'Code.lexer', 'Data.rows', 'Data.headers', 'Data.rows_transpose',
           'Data.num_cols', 'Img.add_file', 'Img.content_as_filepath',
           'Tag.copy', 'DelimData.html_table', 'DelimData.tex_table',
           'Eq.block_equation']


def renderers(repo, tag):
    out = []
    for c in [tag] + repo.subclasses(tag):
        for f in repo.functions:
            if f.cls is c and f.parent is None and (
                    f.name.endswith('_fmt') or f.name in RENDER) and \
                    'setter' not in str(f.decorators):
                out.append(f)
    return out


def run(ctx):
    repo = ctx.repo
    tag = ctx.cls('Tag', 'tags')
    p = Purity(ctx, ['disseminate.tags', 'disseminate.formats',
                     'disseminate.attributes', 'disseminate.label_manager'],
               lazy=[ctx.fn('LabelManager.register')])
    r = 'R01.pure'
    ctx.rule(r, 'A function that renders a tag does not change the tag, its '
             'attributes, content or context, or a module variable, on any '
             'path')
    fs = renderers(repo, tag)
    ctx.need(r, fs, 60, 'rendering methods')
    for h in HELPERS:
        f = ctx.fn(h)
        fs += [x for x in repo.functions if x.cls is f.cls and
               x.name == f.name and x.module is f.module]
    for f in fs:
        if f not in p.sum or 'setter' in str(f.decorators):
            continue
        bad = []
        for a, path in sorted(p.sum[f]):
            first = f.pos_params[0] if f.cls is not None and \
                f.pos_params and not f.is_static else None
            if a == '<global>':
                bad.append((a, path))
            elif a == first or (f.cls is None and a in (
                    'content', 'tag', 'attributes', 'context')):
                if not any(x in MEMO for x in path):
                    bad.append((a, path))
        where, msg = ctx.where(f), ''
        if bad:
            n, how = p.sites[(f,) + bad[0]][0]
            where = ctx.where(n)
            msg = '%s is changed (%s)' % ('.'.join((bad[0][0],) + bad[0][1]),
                                          how)
        ctx.ob(r, f.short, not bad, where, msg)

    # ---- caches
    r = 'R01.cache'
    ctx.rule(r, 'Cached results are per target and only used or filled for '
             'the content, attributes and context of the tag itself')
    tr = TraceRule(ctx, r, 'Img.add_file')
    ev = [('emit', 'call', r'add_file\.emit\(.*\)'),
          ('put', 'store', r'self\._outfilepaths\[target\] = .*'),
          ('badput', 'store', r'self\._outfilepaths.*'),
          ('badput', 'call', r'self\._outfilepaths\.(update|setdefault|'
           r'clear|pop)\(.*\)')]
    none = dict(content=True, attributes=True, context=True)
    hit = (r'target in self\._outfilepaths', True)
    miss = (r'target in self\._outfilepaths', False)

    def fs_(d):
        allnone = all(d.values())
        out = [('%s is None' % k, v) for k, v in d.items()]
        out += [(k, False if v else None) for k, v in d.items() if v]
        # all(i is None for i in (...)) over a generator
        out.append((r'all\(comp\(.*', allnone))
        out.append((r'any\(comp\(.*', not allnone))
        return out
    tr.expect('own values, cached', fs_(none) + [hit], ev,
              ret=r'self\._outfilepaths\[target\]', never=('badput', 'put'),
              msg='the cached path of this target is used')
    tr.expect('own values, not cached', fs_(none) + [miss], ev,
              must=('emit', 'put'), never=('badput',),
              msg='the path is stored for this target')
    for k in none:
        d = dict(none, **{k: False})
        tr.expect('other ' + k, fs_(d), ev, must=('emit',),
                  never=('put', 'badput'),
                  ret=r'(?!self\._outfilepaths).*',
                  msg='the cache of the tag itself must not be used')
    # equations: a context per target method
    tr = TraceRule(ctx, r, 'Eq.html_fmt')
    ev = [('put', 'store', r'self\._target_context\[method\] = .*'),
          ('badput', 'store', r'self\._target_context.*'),
          ('ctx', 'store', r"self\.context\..*filter\(.*\)\['eq'\] = self"),
          ('badctx', 'store', r'self\.context(\[.*?\]|\.\w+) = .*'),
          ('super', 'call', r'super\(.*\)\.html_fmt\(.*context='
           r'(?P<c>[^,]*(\(.*?\))?[^,]*),.*\)')]
    for case, fs2 in (
            ('first', [('context is None', True), ('context', False),
                       (r'method in self\._target_context', False)]),
            ('again', [('context is None', True), ('context', False),
                       (r'method in self\._target_context', True)])):
        tr.expect('equation context, ' + case, fs2, ev,
                  must=('put',) if case == 'first' else (),
                  never=('badput', 'badctx') + (
                      () if case == 'first' else ('put',)),
                  exactly={'super': 1},
                  msg='the equation has a context per target')
    # tables: filled once
    tr = TraceRule(ctx, r, 'Data.process_tags')
    ev = [('hdr', 'store', r'self\.processed_headers = .*'),
          ('rows', 'store', r'self\.processed_rows = .*')]
    for h in (True, False):
        for rows in (True, False):
            tr.expect('headers %s rows %s' % (h, rows), [
                (r'self\.processed_headers is None', not h),
                (r'self\.processed_headers', h),
                (r'self\.processed_rows is None', not rows),
                (r'self\.processed_rows', rows),
                (r"'noheader' in self\.attributes", False),
                (r'self\.data is None', False)], ev,
                exactly={'hdr': 0 if h else 1, 'rows': 0 if rows else 1},
                msg='cells are created once')
    tr.expect('noheader', [
        (r"'noheader' in self\.attributes", True),
        (r'self\.data is None', False)], ev, never=('hdr',),
        msg='no header cells with noheader')

    own_values(ctx)

    # ---- copies
    r = 'R01.copy'
    ctx.rule(r, 'A copied tag shares neither attributes, references nor '
             'content with the original, at any depth')
    tr = TraceRule(ctx, r, 'copy_tag')
    ev = [('rec', 'call', r'copy_tag\(tag=(?P<x>.*)\)'),
          ('put', 'collect', r'copy_tag\(tag=elem\(tag\)\)'),
          ('badput', 'collect', '.*'),
          ('shallow', 'call', r'copy\((x=)?tag\)'),
          ('attr', 'call', r"setattr\((?P<o>.*), (?P<n>'\w+'|elem\(.*\)), "
           r"(?P<v>.*)\)"),
          ('attr', 'store', r'(?P<o>[^=]*)\.(?P<n>\w+) = (?P<v>.*)')]
    tr.expect('text', [(r'isinstance\(tag, str\)', True)], ev, ret='tag',
              never=('rec', 'shallow', 'attr'), msg='text is returned')
    tr.expect('list', [(r'isinstance\(tag, str\)', False),
                       (r'isinstance\(tag, list\)', True)], ev,
              ret=r'comp\(list, .*|list\(.*\)|\[.*\]|\(.*\)|.*iter\(tag\).*',
              each=lambda t: all(e[1] == 'elem(tag)' for e in t.get('rec'))
              and t.count('badput') == 0 and
              t.count('put') == t.count('rec'),
              never=('attr', 'shallow'),
              msg='a new list with copies of all elements')
    tr.check('elements', [t for t in tr.run(ev, [
        (r'isinstance\(tag, str\)', False),
        (r'isinstance\(tag, list\)', True)]) if t.has('rec')],
        lambda t: True, 'are copied')
    fields = copied_fields(ctx)
    for x in ('attributes', '__weakrefattrs__'):
        ctx.ob(r, 'copy_tag ' + x, x in fields, ctx.where(ctx.fn('copy_tag')),
               'the field must be copied')

    def tagcopy(t):
        st = [e for e in t.ev if isinstance(e, tuple) and e[0] == 'attr']
        cont = [e for e in st if e[1].strip("'") == 'content']
        o = S(t.value)
        return cont and all(
            re.fullmatch(r'copy_tag\(tag=(copy\((x=)?tag\)|tag)\.content\)',
                         e[3]) and e[2] == o for e in cont) and \
            all(e[2] == o for e in st)
    tr.expect('tag', [(r'isinstance\(tag, str\)', False),
                      (r'isinstance\(tag, list\)', False),
                      (r'isinstance\(tag, \(str, list\)\)', False),
                      (r'hasattr\(.*\)', True)], ev,
              ret=r'copy\((x=)?tag\)', must=('shallow', 'rec', 'attr'),
              each=lambda t: tagcopy(t) or not t.has('attr'),
              msg='content is copied recursively, the original is untouched')
    tr = TraceRule(ctx, r, 'Tag.copy')
    ev = [('copy', 'call', r'copy_tag\(tag=self\)'),
          ('ctx', 'call', r'replace_context\(new_context=new_context, '
           r'tag=copy_tag\(tag=self\)\)'),
          ('bad', 'call', r'replace_context\(.*\)')]
    tr.expect('same context', [('new_context is None', True),
                               ('new_context', False)], ev,
              ret=r'copy_tag\(tag=self\)', never=('ctx', 'bad'),
              msg='a copy with the same context')
    tr.expect('new context', [('new_context is None', False),
                              ('new_context', True)], ev,
              ret=r'copy_tag\(tag=self\)', must=('copy', 'ctx'),
              never=('bad',), msg='only the copy gets the new context')
    tr = TraceRule(ctx, r, 'replace_context')
    tr.expect('all tags', [], [
        ('flat', 'call', r'tag\.flatten\(filter_tags=True\)'),
        ('iter', 'iter', r'tag\.flatten\(filter_tags=True\)'),
        ('set', 'store', r'elem\(tag\.flatten\(filter_tags=True\)\)\.context'
         r' = new_context'),
        ('bad', 'store', '.*')], must=('flat',), never=('bad',),
        each=lambda t: seqs(t, ('iter', 'set')) in ('iter', 'iter set iter'),
        msg='every tag of the tree gets the new context')
    # ---- results of filter and copy are new objects
    r = 'R01.fresh'
    ctx.rule(r, 'Filtered attributes are new objects')
    tr = TraceRule(ctx, r, 'Attributes.filter')
    rets = [n for n in tr.g.nodes if n.kind == 'ret' and n.pred and
            n.depth == 0]
    ctx.need(r, rets, 1, 'return of Attributes.filter')
    for n in rets:
        rs = [x for x, _ in roots(tr.g.expand(n.term, n))]
        ctx.ob(r, 'Attributes.filter', rs and all(
            x[0] in ('call', 'dict', 'comp') for x in rs), ctx.where(n),
            'filter returns a new object, not ' + ' '.join(map(S, rs)))
    for c in ('Attributes',):
        ci = ctx.cls(c)
        for m in ('copy', '__copy__', '__deepcopy__'):
            owner, f = repo.lookup(ci, m)
            if f is not None and hasattr(f, 'node'):
                tr = TraceRule(ctx, r, f)
                tr.check(m, tr.run([]), lambda t: t.value is not None and
                         call_name(t.value) is not None and
                         t.value != ('p', 'self'),
                         'copy returns a new object')


def own_values(ctx):
    r = 'R01.own'
    ctx.rule(r, 'What tags fill is their own, not a value of the class that '
             'all tags share')
    total = 0
    for c in [ctx.cls('Tag')] + list(ctx.repo.subclasses(ctx.cls('Tag'))):
        for f in c.own.values():
            if not hasattr(f, 'node') or not isinstance(
                    f.node, ast.FunctionDef):
                continue
            for n in ast.walk(f.node):
                t = None
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr in (
                        'append', 'add', 'update', 'setdefault', 'extend',
                        'insert'):
                    t = n.func.value
                if not (isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Name) and t.value.id == 'self'):
                    continue
                total += 1
                v = None
                for k in ctx.repo.mro(c):
                    if t.attr in k.own:
                        v = k.own[t.attr]
                        break
                v = getattr(v, 'value', v)
                ctx.ob(r, '%s.%s' % (c.name, t.attr), not isinstance(
                    v, (ast.Dict, ast.List, ast.Set, ast.DictComp,
                        ast.ListComp, ast.SetComp, ast.Call)),
                    ctx.where(f), 'is a value of each tag')
    ctx.ob(r, 'values', total >= 5, 'disseminate/tags', 'are found')


def copied_fields(ctx):
    """Names of the fields that copy_tag gives a copy of"""
    g = ctx.graph('copy_tag')
    out = set()
    for n in g.nodes:
        if not n.pred:
            continue
        if n.kind == 'call' and g.cname(n) == 'setattr' and \
                len(n.term[2]) == 3:
            v = g.expand(n.term[2][2], n)
            if call_name(v) in ('copy', 'deepcopy', 'dict', 'Attributes'):
                nm = g.expand(n.term[2][1], n)
                if nm[0] == 'c':
                    out.add(nm[1])
                for x in subterms(nm):
                    if x[0] in ('tuple', 'list'):
                        out |= {y[1] for y in x[1:] if y[0] == 'c'}
        elif n.kind == 'store' and n.target[0] == 'attr':
            v = g.expand(n.term, n)
            if call_name(v) in ('copy', 'deepcopy', 'dict', 'Attributes'):
                out.add(n.target[2])
    return out
