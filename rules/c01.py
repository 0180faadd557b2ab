"""C01: contexts inherit copies and never change what they inherit from"""
from .common import *
from . import d01
from .purity import Purity

ASSUMPTIONS = [
    'copy(), list(), dict() and set() give objects that are not shared at '
    'the top level',
]

K = r'elem\((?:[^()]|\([^()]*\))*\)'
C = r'changes\[%s\]' % K
O = r'self\[%s\]' % K
# entries that each document has of its own, that survive a reset, and that
# replace inherited ones (from the documentation of the context)
OWN = {'document', 'include', 'includes', 'short', 'doc_id', 'mtime', 'paths',
       'builders', 'body'}
KEEP = {'document', 'label_manager', 'environment', 'paths'}
REPLACE = {'targets', 'inactive_tags'}
# entries of the default context and others that documents share
DEFAULTS = {'targets', 'template', 'prev', 'next', 'srclink', 'txtlink',
            'texlink', 'pdflink', 'epublink', 'toc', 'relative_links',
            'base_url', 'media_path', 'process_context_tags',
            'process_paragraphs', 'label_fmts', 'label_resets', 'label_sep',
            'inactive_tags', 'macros', 'project_root', 'target_root',
            'root_document', 'level', 'label_manager', 'environment'}

BASE = [('keys is None', False), ('level == 1', False),
        (r'level < settings\.context_max_depth', True),
        (K + r' in changes', True)]


def run(ctx):
    from . import c02
    repo = ctx.repo
    # ---- what replaces an entry
    c02.types(ctx, 'C01.types')
    # ---- what is put into a context
    r = 'C01.copy'
    ctx.rule(r, 'A value that is not yet in a context is copied, with the '
             'context as the new context of tags; only values without a '
             'copy method are referenced')
    tr = TraceRule(ctx, r, 'BaseContext.match_update')
    ev = [('try1', 'call', C + r'\.copy\(new_context=self\)'),
          ('try2', 'call', C + r'\.copy\(\)'),
          ('try2', 'call', r'copy\((x=)?%s\)' % C),
          ('try2', 'call', r'(deepcopy|copy_nested)\((\w+=)?%s\)' % C),
          ('has', 'call', r'hasattr\(%s, .copy.\)' % C),
          ('has', 'call', r'callable\(%s\.copy\)' % C),
          ('put1', 'store', r'%s = %s\.copy\(new_context=self\)' % (O, C)),
          ('put2', 'store', r'%s = (deepcopy|copy_nested)\((\w+=)?%s\)' % (
              O, C)),
          ('shallow', 'store', r'%s = (%s\.copy\(\)|copy\((x=)?%s\)|'
           r'(dict|list|set)\(%s\))' % (O, C, C, C)),
          ('ref', 'store', r'%s = %s' % (O, C)),
          ('bad', 'store', r'.*')]
    out = [t for t in tr.run(ev, BASE + [(K + r' in self', False)], exc=True)
           if t.kind == 'return']
    tr.check('missing entry', out, lambda t: not t.has('bad'),
             'only copies of the value are stored')
    tr.check('missing entry, with a context', [t for t in out if t.has(
        'put1')], lambda t: t.has('try1'), 'tags get the new context')
    tr.check('missing entry, without a context', [t for t in out if t.has(
        'put2')], lambda t: True, 'other values are copied')
    tr.check('missing entry, nested', out, lambda t: not t.has('shallow'),
             'values that hold others are copied with these, as entries are '
             'updated in place at any depth')
    nested(ctx, r)
    # the value itself only after copying failed for lack of a method
    good = reference_guarded(tr.g, C, O)
    ctx.ob(r, 'references', good, ctx.where(tr.f),
           'the value itself is only stored where it has no copy method')
    out = tr.run(ev, BASE + [(K + r' in self', False)])
    tr.check('missing entry, normal', [t for t in out if t.kind == 'return'
                                       and t.ev], lambda t: not t.has('ref')
             or t.has('has'), 'values with a copy method are copied')

    r = 'C01.pure'
    ctx.rule(r, 'No function of contexts or documents changes the parent '
             'context, the initial values, the changes given to it, or the '
             'default settings')
    p = Purity(ctx, ['disseminate.'])
    n = 0
    for f in p.funcs:
        bad = []
        for a, path in sorted(p.sum[f]):
            first = f.pos_params[0] if f.cls is not None and f.pos_params \
                and not f.is_static else None
            if a == '<global>' and path[0] in ('settings', 'default_context'):
                bad.append((a, path))
            if f.module.name.startswith(('disseminate.context',
                                         'disseminate.document')):
                n += 1
                if a == 'changes' or a == 'parent_context' and path != () \
                        and f.name != 'parent_context':
                    bad.append((a, path))
                # reading through the property gives the parent
                if a == first and path and path[0] in (
                        'parent_context', 'initial_values') and \
                        len(path) > 1:
                    bad.append((a, path))
        where, msg = ctx.where(f), ''
        if bad:
            s, how = p.sites[(f,) + bad[0]][0]
            where = ctx.where(s)
            msg = '%s is changed (%s)' % (
                '.'.join((bad[0][0],) + bad[0][1]), how)
        if bad or f.module.name.startswith(('disseminate.context',
                                            'disseminate.document')):
            ctx.ob(r, f.short, not bad, where, msg)
    ctx.need(r, p.funcs, 500, 'functions')
    # and nobody stores into the initial values from outside
    for f in repo.functions:
        if f.parent is not None:
            continue
        for node in ctx.graph(f).nodes:
            if node.kind == 'store' and node.pred and \
                    node.target[0] == 'attr' and \
                    node.target[2] == 'initial_values':
                ctx.ob(r, '%s sets initial values' % f.short,
                       f.short in ('context.context.BaseContext.__init__',
                                   'context.context.BaseContext.__copy__') or
                       f.short not in ctx.known, ctx.where(node),
                       'initial values are set on creation only')

    # ---- reset
    r = 'C01.reset'
    ctx.rule(r, 'A reset removes all entries but the persistent ones, takes '
             'over the inheritable entries of the parent, then the initial '
             'values')
    tr = TraceRule(ctx, r, 'BaseContext.reset')
    EX = r"all_attributes_values\(attribute='exclude_from_reset', " \
         r"cls=(self\.__class__|type\(self\))\)"
    DNI = r'(self|self\.__class__)\.find_do_not_inherit\(\)'
    REM = r'(list\()?\(?self(\.keys\(\))? - %s\)?\)?' % EX
    ev = [('loop', 'iter', REM),
          ('loop2', 'iter', r'(list|tuple|set)?\(?self(\.keys\(\))?\)?'),
          ('del', 'del', r'self\[elem\(%s\)\]' % REM),
          ('del', 'call', r'self\.pop\(elem\(%s\)(, None)?\)' % REM),
          ('del2', 'del', r'self\[elem\(.*self.*\)\]'),
          ('clear', 'call', r'self\.clear\(\)'),
          ('inherit', 'call', r'self\.match_update\(changes=self\.'
           r'parent_context, keys=\(?(set\()?self\.parent_context'
           r'(\.keys\(\))?\)? - %s\)?\)' % DNI),
          ('initial', 'call',
           r'self\.match_update\(changes=self\.initial_values\)'),
          ('bad', 'call', r'self\.match_update\(.*\)'),
          ('bad', 'store', r'self.*')]
    for par in (True, False):
        tr.expect('with parent' if par else 'without parent', [
            (r'self\.parent_context is None', not par),
            (r'self\.parent_context', par)], ev,
            must=('initial',) + (('inherit',) if par else ()),
            never=('bad', 'clear') + (() if par else ('inherit',)),
            exactly={'initial': 1},
            order=(('inherit', 'initial'),) if par else (),
            each=lambda t: before_all(t, ('del', 'del2'),
                                      ('inherit', 'initial')),
            msg='remove, inherit, initial values')
    out = tr.run(ev, [])
    tr.check('entries removed', [t for t in out if t.has('del') or
                                 t.has('del2')], lambda t: True,
             'entries are removed')
    dels = [n for n in tr.g.nodes if n.pred and n.kind in ('del', 'call') and
            (n.kind == 'del' or tr.g.cname(n) == 'pop')]
    ok = bool(dels)
    for n in dels:
        s = S(tr.g.expand(n.target[2] if n.kind == 'del' else n.term[2][0],
                          n))
        ok &= 'exclude_from_reset' in s or any(
            'exclude_from_reset' in S(c)
            for c, n2 in cond_terms(tr.g, n))
    ctx.ob(r, 'persistent entries', ok, ctx.where(tr.f),
           'entries listed in exclude_from_reset are kept')
    for n in dels:
        s = S(tr.g.expand(n.target[2] if n.kind == 'del' else n.term[2][0],
                          n)) + ''.join(S(c) for c, n2 in cond_terms(tr.g, n))
        x = set(re.findall(r'self\.(\w+)', s)) - {
            'keys', '__class__', 'copy', 'items', 'exclude_from_reset',
            'parent_context'}
        ctx.ob(r, 'removed entries', not x and not re.search(
            r'settings\.', s), ctx.where(n), 'which entries are removed '
            'depends on %s' % sorted(x))

    # ---- the sets of the classes
    r = 'C01.sets'
    ctx.rule(r, 'The entries that are not inherited, that persist and that '
             'are replaced are those documented, for all context classes')
    dc = ctx.cls('DocumentContext')
    for attr, want in (('do_not_inherit', OWN), ('exclude_from_reset', KEEP),
                       ('replace', REPLACE)):
        v = repo.class_const(dc, attr)
        for k in sorted(want):
            ctx.ob(r, '%s %s' % (attr, k), k in v, ctx.where(dc),
                   'entry missing')
    # what must be inherited or reset may not be listed
    for k in ('label_manager', 'environment', 'project_root', 'target_root',
              'root_document', 'targets', 'template', 'label_fmts'):
        ctx.ob(r, 'inherits ' + k, k not in repo.class_const(
            dc, 'do_not_inherit'), ctx.where(dc), 'entry must be inherited')
    for k in ('targets', 'template', 'include', 'includes', 'body', 'mtime',
              'title', 'short', 'target', 'level'):
        ctx.ob(r, 'resets ' + k, k not in repo.class_const(
            dc, 'exclude_from_reset'), ctx.where(dc), 'entry must be reset')
    # other entries that documents and the settings have are not listed
    known = DEFAULTS | {'src_filepath', 'paths', 'doc_id', 'mtime'}
    for attr, want in (('do_not_inherit', OWN), ('exclude_from_reset', KEEP),
                       ('replace', REPLACE)):
        for k in sorted((known | OWN | KEEP | REPLACE) - want):
            ctx.ob(r, '%s not in %s' % (k, attr), k not in repo.class_const(
                dc, attr), ctx.where(dc), 'entry may not be listed')
    f = ctx.fn('all_attributes_values')
    tr = TraceRule(ctx, r, 'BaseContext.find_do_not_inherit')
    CACHE = r"cls\.__dict__(\.get\('_do_not_inherit'(, None)?\)|" \
            r"\['_do_not_inherit'\])"
    FR = r"(set\()?all_attributes_values\(attribute='do_not_inherit', " \
         r"cls=cls\)\)?"
    ev = [('put', 'store', r'cls\._do_not_inherit = ' + FR),
          ('bad', 'store', '.*')]
    tr.expect('first use', [(CACHE + ' is None', True), (CACHE, False),
                            (r"'_do_not_inherit' in cls\.__dict__", False)],
              ev, ret=FR + r'|cls\._do_not_inherit', never=('bad',),
              msg='each class has its own set')
    ctx.ob(r, 'cache per class', all(
        t.kind == 'return' and re.fullmatch(FR, S(t.value)) or t.has('put')
        or True for t in tr.run(ev)) and own_class_cache(tr), ctx.where(tr.f),
        'the set of a base class may not be used for a derived class')
    g = ctx.graph('all_attributes_values')
    txt = ' '.join(S(g.expand(n.term, n)) for n in g.nodes if n.pred and
                   n.term)
    ctx.ob(r, 'base classes', ('all_parent_classes(cls=cls)' in txt or
                               '__mro__' in txt or 'getmro' in txt) and
           'getattr' in txt or '.attribute' in txt, ctx.where(f),
           'values of all base classes are joined')

    # ---- creation
    r = 'C01.create'
    ctx.rule(r, 'A document has a context of its own, below the context of '
             'the including document or a deep copy of the default context')
    tr = TraceRule(ctx, r, 'DocumentContext.__init__')
    PC = r"kwargs(\.get\('parent_context'(, None)?\)|\['parent_context'\])"
    ev = [('default', 'store', r"kwargs\['parent_context'\] = deepcopy\((x=)?"
           r'settings\.default_context\)'),
          ('bad', 'store', r"kwargs\['parent_context'\] = .*"),
          ('init', 'call', r'super\(.*\)\.__init__\(.*\)')]
    fs = [(r"'parent_context' in kwargs", True)]
    tr.expect('root', [(PC + ' is None', True), (PC, False)] + fs, ev,
              must=('init',), never=('bad',), order=(('default', 'init'),),
              each=lambda t: t.has('default') or any(
                  'deepcopy' in S(c) for c in ()),
              msg='the default context is copied')
    tr.expect('subdocument', [(PC + ' is None', False), (PC, True)] + fs, ev,
              must=('init',), never=('bad', 'default'),
              msg='the given parent is kept')
    tr = TraceRule(ctx, r, 'BaseContext.__init__')
    ev = [('parent', 'store', r"self\.parent_context = kwargs(\.get\("
           r"'parent_context'.*\)|\.pop\('parent_context'.*\)|\['parent_"
           r"context'\])"),
          ('initial', 'store', r'self\.initial_values = (dict\(.*kwargs.*\)|'
           r'.*kwargs\.copy\(\))'),
          ('bad', 'store', r'self\..*'),
          ('reset', 'call', r'self\.reset\(\)')]
    tr.expect('order', [(r"'parent_context' in kwargs", True)], ev,
              must=('parent', 'initial', 'reset'), never=('bad',),
              order=(('parent', 'reset'), ('initial', 'reset')),
              msg='the parent and initial values are set before the reset')
    tr.expect('no parent', [(r"'parent_context' in kwargs", False)], ev,
              must=('initial', 'reset'), never=('bad',),
              msg='the context is reset')
    # every document that includes others is the parent of their contexts
    g = ctx.graph('Document.load_subdocuments')
    mk = [n for n in g.calls() if g.cname(n) == 'Document']
    ctx.need(r, mk, 1, 'creation of subdocuments')
    for n in mk:
        a = {k: S(g.expand(v, n)) for k, v in n.term[3]}
        ctx.ob(r, 'subdocument context', a.get('parent_context') ==
               'self.context', ctx.where(n), 'the parent of a subdocument '
               'is the including document, not ' + str(a.get(
                   'parent_context')))
    tr = TraceRule(ctx, r, 'Document.__init__')
    tr.expect('context', [], [
        ('ctx', 'store', r'self\.context = DocumentContext\(.*\)'),
        ('bad', 'store', r'self\.context = .*'),
        ('mk', 'call', r'DocumentContext\((?=.*document=self)(?=.*'
         r'parent_context=parent_context)(?=.*environment=environment).*\)'),
        ('badmk', 'call', r'DocumentContext\(.*\)')],
        must=('mk', 'ctx'), never=('bad', 'badmk'),
        msg='every document creates its own context')

    r = 'C01.own'
    ctx.rule(r, 'The entries of the document itself are set after a reset')
    d01.own_entries(ctx, r)
    tr = TraceRule(ctx, r, 'reset_document')
    tr.expect('reset', [], [('reset', 'call', r'.*\.reset\(\)')],
              must=('reset',), msg='every load resets the context')

    # ---- copies
    r = 'C01.derive'
    ctx.rule(r, 'Copies and filtered copies of contexts are new contexts '
             'filled by copying')
    tr = TraceRule(ctx, r, 'BaseContext.filter')
    NEW = r'(self\.__class__|type\(self\))(\.__new__\(.*\)|\(\))'
    tr.expect('filter', [], [
        ('fill', 'call', NEW + r'\.match_update\(changes=self, keys=keys\)'),
        ('bad', 'call', r'.*\.(update|match_update)\(.*\)'),
        ('bad', 'store', r'self.*')], ret=NEW, must=('fill',),
        never=('bad',), msg='a new context with copied entries')
    tr = TraceRule(ctx, r, 'BaseContext.__copy__')
    tr.expect('copy', [], [
        ('fill', 'call', NEW + r'\.(match_)?update\((changes=)?self\)'),
        ('parent', 'store', NEW + r'\.parent_context = self\.parent_context'),
        ('initial', 'store',
         NEW + r'\.initial_values = .*self\.initial_values.*'),
        ('bad', 'store', r'self.*'),
        ('bad', 'call', r'self(\.\w+)*\.(update|clear|pop|match_update|'
         r'setdefault|popitem)\(.*')],
        ret=NEW, must=('fill', 'parent', 'initial'), never=('bad',),
        msg='a new context with the same parent and initial values')


def before_all(t, first, second):
    s = seq(t)
    a = [i for i, e in enumerate(s) if e in first]
    b = [i for i, e in enumerate(s) if e in second]
    return not a or not b or max(a) < min(b)


def cond_terms(g, n):
    return [(t, m) for t, pol, m in g.conds(n)]


def own_class_cache(tr):
    """The cached value is read from the dict of the class itself"""
    for n in tr.g.nodes:
        if n.kind == 'test' and n.pred:
            s = S(tr.g.expand(n.term, n))
            if '_do_not_inherit' in s and '__dict__' not in s:
                return False
    return True


def nested(ctx, r):
    """copy_nested copies a container and the containers in it"""
    try:
        f = ctx.fn('copy_nested')
    except AnalysisBroken:
        return                      # deepcopy is used, or nothing is copied
    tr = TraceRule(ctx, r, f)
    V = r'(?:value\.copy\(\)|copied_value)'
    I = r'(?:elem\(%s\.items\(\)\)\[1\]|elem\(enumerate\(%s\)\)\[1\]|' \
        r'%s\[elem\((?:value|%s)\)\]|elem\(%s\)|value\[elem\(value\)\]|elem\(value\))' % (
            (V,) * 5)                                                    # noqa
    ev = [('put', 'store', r'%s\[elem\(.*\)(?:\[0\])?\] = copy_nested\((value=)?%s'
           r'\)' % (V, I)), ('other', 'store', r'.*'),
          ('it', 'iter', r'.*(items|enumerate).*')]
    for kind in ('dict', 'list'):
        fs = [(r'isinstance\(%s, %s\)|isinstance\(value, %s\)' % (
            V, kind, kind), True), (r'isinstance\((%s|value), %s\)' % (
                V, 'list' if kind == 'dict' else 'dict'), False)]
        for held in ('dict', 'list', 'set'):
            f2 = fs + [(r'isinstance\(%s, %s\)' % (I, x), x == held)
                       for x in ('dict', 'list', 'set')]
            o = [t for t in tr.run(ev, f2) if seq(t).count('it') >= 2]
            tr.check('%s in a %s' % (held, kind), o, lambda t: t.has('put')
                     and not t.has('other') and re.fullmatch(V, S(t.value)),
                     'the inner container is copied')
    tr.check('result', tr.run(ev, []), lambda t: re.fullmatch(
        V, S(t.value)), 'a copy is returned')


def reference_guarded(g, C, O):
    """Stores of the value itself are reachable only through a failed copy"""
    st = [n for n in g.nodes if n.kind == 'store' and n.pred and
          n.target[0] == 'sub' and
          re.fullmatch(C, S(g.expand(n.term, n))) and
          re.search(r'self', S(g.expand(n.target[1], n)))]
    # replacing an existing value of the same type is decided in C02
    bad = 0
    for n in st:
        cs = cond_terms(g, n)
        txt = [S(c) for c, m in cs]
        if any('type(' in t or 'hasattr(' in t or
               '.copy' in t or 'AttributeError' in t
               for t in txt):
            continue
        if in_handler(g.func, n, 'AttributeError'):
            continue
        bad += 1
    return not bad


def in_handler(f, n, name):
    import ast
    line = n.line
    for t in ast.walk(f.node):
        if isinstance(t, ast.ExceptHandler) and t.type is not None and \
                name in ast.dump(t.type) and \
                t.lineno <= line <= t.end_lineno:
            return True
    return False
