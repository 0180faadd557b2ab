"""T02: tag names select tag classes"""
import ast
from .common import *
from sa.repo import FuncInfo
from .s01 import imported

ASSUMPTIONS = ['type.__subclasses__ lists the direct subclasses defined in '
               'imported modules']

# names of the markup language that must be understood (confirmed from the
# documentation and the classes)
NAMES = '''asy caption code python html ruby java javascript dm cell
headercell delimdata csv tsv eq term termb featurebox examplebox problembox
marginfigure marginfig figure fig fullfigure ffig fullfig panel title h1 part
chapter h2 section h3 subsection h4 subsubsection h5 para h6 img list
orderedlist outline next prev srclink txtlink texlink pdflink epublink
sidenote marginnote authors author titlepage ref margintable margintbl table
tbl fulltable ftbl fulltbl body p bold b textbf strong italics i textit sup
sub supsub symbol smb verb v pre verbatim toc'''.split()


def run(ctx):
    repo = ctx.repo
    tag = ctx.cls('Tag', 'tags.tag')
    subs = repo.subclasses(tag)
    ctx.need('T02.unique', subs, 55, 'tag classes')
    r = 'T02.unique'
    ctx.rule(r, 'No two tag classes claim the same name, and every name can '
             'be looked up (lookups are in lower case)')
    names = {}
    for c in subs:
        al = repo.class_const(c, 'aliases')
        # aliases are read from the class, so they are inherited
        al = list(al) if isinstance(al, (tuple, list, set)) else []
        for n in [c.name.lower()] + al:
            ctx.ob(r, '%s as %s' % (c.name, n), n not in names,
                   ctx.where(c), 'the name is also claimed by %s' % (
                       names[n].name if n in names else ''))
            ctx.ob(r, '%s as %s can be found' % (c.name, n), n == n.lower(),
                   ctx.where(c), 'names are looked up in lower case')
            names.setdefault(n, c)
    r = 'T02.known'
    ctx.rule(r, 'Every documented tag name denotes an active tag class')
    for n in NAMES:
        c = names.get(n)
        ctx.ob(r, n, c is not None and repo.class_const(c, 'active') is True,
               ctx.where(c) if c else 'disseminate/tags',
               'name does not denote an active tag')
    r = 'T02.imported'
    ctx.rule(r, 'All modules with tag classes are loaded with the tags '
             'package')
    mods = imported(repo, 'disseminate.tags')
    for m in sorted({c.module.name for c in subs}):
        ctx.ob(r, m, m in mods, m, 'module is not imported')
    r = 'T02.select'
    ctx.rule(r, 'A name selects its class if that is active and not '
             'inactivated in the context; otherwise the plain tag')
    tr = TraceRule(ctx, r, 'TagFactory.tag_class')
    K = r'cls\.tag_classes\(\)\.get\(tag_name\.lower\(\)(, None)?\)'
    K2 = r'cls\.tag_classes\(\)\[tag_name\.lower\(\)\]'
    cls_pat = r'(%s|%s)' % (K, K2)
    for found in (True, False):
        for active in (True, False):
            for inact in (True, False):
                if not found and (active or inact):
                    continue
                fs = [(cls_pat + ' is None', not found),
                      (r'tag_name\.lower\(\) in cls\.tag_classes\(\)',
                       found),
                      (cls_pat + r'\.active', active), (cls_pat, found),
                      (cls_pat + r'\.__name__\.lower\(\) in context\.get\('
                       r"'inactive_tags'.*\)", inact),
                      (r"'inactive_tags' in context", True),
                      (cls_pat + r'\.__name__\.lower\(\) in context\['
                       r"'inactive_tags'\]", inact)]
                want = cls_pat if found and active and not inact else 'Tag'
                tr.expect('found=%s active=%s inactivated=%s' % (
                    found, active, inact), fs, [], ret=want,
                    msg='wrong class')
    tr = TraceRule(ctx, r, 'TagFactory.tag')
    tr.expect('creation', [], [(
        'make', 'call', r'cls\.tag_class\(context=context, '
        r'tag_name=tag_name\)\(attributes=tag_attributes, '
        r'content=tag_content, context=context, name=tag_name\)')],
        ret=r'cls\.tag_class\(context=context, tag_name=tag_name\)\(.*\)',
        exactly={'make': 1},
        msg='the tag is created from the given name, content, attributes '
        'and context')
    r = 'T02.registry'
    ctx.rule(r, 'The registry holds every subclass under its own name and '
             'all of its aliases')
    g = ctx.graph('TagFactory.tag_classes')
    st = [n for n in g.nodes if n.kind == 'store' and n.pred and
          n.target[0] == 'sub']
    calls = [S(g.expand(n.term, n)) for n in g.calls()]
    txt = ' '.join(calls + [S(g.expand(n.term, n)) for n in g.nodes
                            if n.pred and n.term])
    ctx.ob(r, 'classes', any(re.search(r'all_subclasses\(cls=Tag\)', c)
                             for c in calls), ctx.where(g.func),
           'all subclasses of Tag are listed')
    ctx.ob(r, 'own names', '.__name__.lower()' in txt, ctx.where(g.func),
           'classes are registered by lower-case class name')
    ctx.ob(r, 'aliases', re.search(r'elem\(all_subclasses\(cls=Tag\)\)'
                                   r'\.aliases', txt), ctx.where(g.func),
           'classes are registered by their aliases')
    tr = TraceRule(ctx, r, 'TagFactory.tag_classes')
    SC = r'elem\(all_subclasses\(cls=Tag\)\)'
    out = tr.run([('reg', 'store', r'.*\[.*\] = (?P<v>elem\(all_.*)'),
                  ('cache', 'store', r'cls\._tag_classes = .*')],
                 [(r'cls\._tag_classes is None', True)])
    tr.check('first use', out, lambda t: t.kind == 'raise' or
             t.has('cache') and all(re.fullmatch(SC, e[1])
                                    for e in t.get('reg')),
             'names map to the class they were read from')
    tr.check('some registered', [t for t in out if t.has('reg')],
             lambda t: True, 'classes are registered')
    tr.expect('cached', [(r'cls\._tag_classes is None', False),
                         (r'cls\._tag_classes', True)],
              [('cache', 'store', r'cls\._tag_classes = .*')],
              ret=r'cls\._tag_classes', never=('cache',),
              msg='the registry is built once')
    # the registry is not changed afterwards
    from sa.core import all_functions
    for fn in all_functions(repo):
        if fn.name == 'tag_classes' or not re.search(
                r'tag_classes', ast.dump(fn.node)):
            continue
        fg = ctx.graph(fn)
        for n in fg.nodes:
            if not n.pred:
                continue
            what = None
            if n.kind == 'call' and n.term[1][0] == 'attr' and n.term[1][
                    2] in ('pop', 'popitem', 'update', 'clear', 'setdefault',
                           '__setitem__', '__delitem__'):
                what = fg.expand(n.term[1][1], n)
            elif n.kind in ('store', 'del'):
                what = fg.expand(n.target[1], n) if n.target[0] == 'sub' \
                    else None
            if what is not None:
                ctx.ob(r, '%s: registry' % fn.short, not re.search(
                    r'\.tag_classes\(\)$|tag_classes\(cls.*\)$', S(what)),
                    ctx.where(n),
                    'the registry of tag classes is changed')
    f = ctx.fn('all_subclasses')
    g = ctx.graph(f)
    txt = ' '.join(S(g.expand(n.term, n)) for n in g.nodes
                   if n.pred and n.term)
    ctx.ob(r, 'all_subclasses', 'cls.__subclasses__()' in txt and
           re.search(r'all_subclasses\(cls=elem\(', txt), ctx.where(f),
           'subclasses at every level are found')
    # ---- the parser passes what it read
    r = 'T02.parse'
    ctx.rule(r, 'The parser creates tags with the name and attributes '
             'that were matched and with the context of the text')
    g = ctx.graph('parse_tags')
    mk = [n for n in g.calls() if g.cname(n) == 'tag']
    for n in mk:
        a = {k: S(g.expand(v, n)) for k, v in n.term[3]}
        ctx.ob(r, 'tag_name', re.search(
            r"(groupdict\(\)\['tag'\]|group\('tag'\)|\['tag'\])$",
            a.get('tag_name', '')), ctx.where(n), a.get('tag_name'))
        ctx.ob(r, 'tag_attributes', re.search(
            r"(groupdict\(\)\['attributes'\]|group\('attributes'\)|"
            r"\['attributes'\])$", a.get('tag_attributes', '')),
            ctx.where(n), a.get('tag_attributes'))
        ctx.ob(r, 'context', a.get('context') == 'context', ctx.where(n),
               a.get('context'))
    from . import t04
    if t04.scanner(ctx):
        t04.inner(ctx, r, TraceRule(ctx, r, 'parse_tags'))
    v = t04.regex_const(ctx, 'tags.receivers.content', 're_open_tag')
    if v is not None:
        for n in NAMES + ['a_b', 'H2O', 'x1_y2']:
            m = v.match('@%s{' % n)
            ctx.ob(r, 'name %s is read' % n, m is not None and
                   m.groupdict().get('tag') == n and
                   m.groupdict().get('open') == '{',
                   'disseminate/tags/receivers/content.py',
                   'the pattern of tags does not match it')
    # ---- the constructor
    r = 'T02.init'
    ctx.rule(r, 'A new tag holds its name, content, attributes and context '
             'before the processing stages run')
    tr = TraceRule(ctx, r, 'Tag.__init__')
    tr.expect('fields', [], [
        ('name', 'store', r'self\.name = name'),
        ('attributes', 'store',
         r'self\.attributes = Attributes\(.*attributes\)'),
        ('content', 'store', r'self\.content = content'),
        ('context', 'store', r'self\.context = context'),
        ('other', 'store', r'self\.(name|attributes|content|context) = .*'),
        ('emit', 'call', r'tag_created\.emit\(.*tag=self.*\)')],
        must=('name', 'attributes', 'content', 'context', 'emit'),
        never=('other',), exactly={'emit': 1},
        order=(('name', 'emit'), ('attributes', 'emit'),
               ('content', 'emit'), ('context', 'emit')),
        msg='fields are set, then the stages run once')
    # every tag class that defines a constructor reaches the base one
    for c in subs:
        f = c.own.get('__init__')
        if isinstance(f, FuncInfo):
            ok, why = reaches_init(ctx, f, c, tag)
            ctx.ob(r, c.name + '.__init__', ok, ctx.where(f),
                   'every path to a normal end must construct the base tag')


def reaches_init(ctx, f, c, tag):
    g = ctx.graph(f)
    base = {id(k.own['__init__']) for k in [tag] + ctx.repo.subclasses(tag)
            if isinstance(k.own.get('__init__'), FuncInfo)}

    def isbase(n):
        return n.kind == 'call' and any(id(x) in base and x is not f
                                        for x in n.callees) and (
            n.term[1][0] == 'attr')
    if g.before(isbase, g.exit):
        return True, ''
    # or sets all of the fields itself
    return all(g.before(
        lambda n: n.kind == 'store' and n.target[0] == 'attr' and
        n.target[2] == a and S(g.expand(n.target[1], n)) == 'self', g.exit)
        for a in ('name', 'content', 'attributes', 'context')), ''
