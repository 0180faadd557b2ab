"""L02: labels are ordered as in the project, and numbered and grouped by
headings; documents are linked in their order"""
import ast

from . import d01, s01
from .common import *

ASSUMPTIONS = ['Labels are added in the order of the text of a document']

HEADS = ('part', 'chapter', 'section', 'subsection', 'subsubsection')
LV = r'labels(\.values\(\))?'
LAB = r'(labels\[elem\(labels\)\]|elem\(.*\))'


def run(ctx):
    repo = ctx.repo
    r = 'L02.order'
    ctx.rule(r, 'At registration the labels of documents that are not in the '
             'project any more are removed, and the others sorted by the '
             'order of the documents, then the order they were added in')
    tr = TraceRule(ctx, r, 'reorder_and_purge_labels_by_doc_id')
    for root in (True, False):
        ids = r'root_context\.root_document\.doc_ids' if root else r'.*'
        fs = [(r'root_context\.root_document is None', not root),
              (r'root_context\.root_document', root)]
        for hit in (True, False):
            H = [(r'%s\.doc_id in %s' % (LAB, ids), hit)]
            ev = [('sort', 'call', r'(sorted\(.*|.*\.sort\(.*)'),
                  ('clear', 'call', r'labels\.clear\(\)'),
                  ('put', 'store', r'labels\[tuple\((elem|labels).*\.doc_id, '
                   r'(elem|labels).*\.id\)\] = (elem|labels).*'),
                  (None, 'store', r'.*unk\(.*'),
                  ('keep', 'collect', r'.*labels\[elem\(labels\)\]\)?'),
                  ('bad', 'store', r'.*'),
                  ('look', 'iter', r'labels(\.values\(\))?')]
            out = tr.run(ev, fs + H)
            name = 'project known %s' % root
            tr.check(name, out, lambda t: t.has('clear') and t.has('sort') and
                     seq(t).index('sort') < seq(t).index('clear') and
                     not t.has('bad') and t.has('look') and
                     (not t.has('put') or seq(t).index('clear') <
                      seq(t).index('put')),
                     'sorted, then cleared, then added', kinds=('return',))
            if hit:
                tr.check(name + ', kept', [t for t in out if t.has('put') and
                                           t.has('keep')], lambda t: True,
                         'labels of the project are kept')
            else:
                tr.check(name + ', removed', out, lambda t: not
                         t.has('keep'), 'other labels are removed')
    texts = [S(tr.g.expand(n.term, n)) for n in tr.g.nodes
             if n.pred and n.kind in ('test',)]
    ctx.ob(r, 'compared with documents', any(re.search(
        r'\.doc_id in ', t) for t in texts), ctx.where(tr.f),
        'labels are compared with the documents of the project')
    # the sort key
    keys = []
    for f in [tr.f] + [x for x in tr.g.inlined_funcs]:
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and (
                    isinstance(c.func, ast.Name) and c.func.id == 'sorted' or
                    isinstance(c.func, ast.Attribute) and
                    c.func.attr == 'sort'):
                keys.append((f, c))
    for f, c in keys:
        k = next((x.value for x in c.keywords if x.arg == 'key'), None)
        rev = next((x.value for x in c.keywords if x.arg == 'reverse'), None)
        body = None
        if isinstance(k, ast.Lambda):
            body = k.body
        elif isinstance(k, ast.Name):
            d = next((x for x in ast.walk(f.node) if isinstance(
                x, ast.FunctionDef) and x.name == k.id), None)
            rs = [x.value for x in ast.walk(d) if isinstance(x, ast.Return)] \
                if d else []
            body = rs[0] if len(rs) == 1 else None
            a = [x.value for x in ast.walk(f.node) if isinstance(
                x, ast.Assign) and isinstance(x.targets[0], ast.Name) and
                x.targets[0].id == k.id and isinstance(x.value, ast.Lambda)]
            body = a[0].body if a else body
        first = body.elts[0] if isinstance(body, ast.Tuple) and body.elts \
            else body
        txt = ast.unparse(first) if first is not None else ''
        ctx.ob(r, 'sorted by document', '.doc_id' in txt and (
            '.index(' in txt or '[' in txt) and '-' not in txt and
            rev is None, ctx.where(f), 'first by the order of the documents')
        if isinstance(body, ast.Tuple) and len(body.elts) > 1:
            second = ast.unparse(body.elts[1])
            ctx.ob(r, 'then as added', len(body.elts) == 2 and re.fullmatch(
                r'\w+\[0\]|\w+', second) is not None, ctx.where(f),
                'labels of a document stay in order')
    ctx.ob(r, 'sorting', len(keys) >= 1, ctx.where(tr.f), 'labels are sorted')

    r = 'L02.number'
    ctx.rule(r, 'The order of a label is the running number of each of its '
             'kinds, in order; a kind resets those it is to reset')
    tr = TraceRule(ctx, r, 'register_orders')
    K = r'elem\(%s\.kind\)' % LAB
    CT = r'(Counter\(\)|dict\(\)|defaultdict\(int\))'
    ev = [('sort', 'call', r'reorder_and_purge_labels_by_doc_id\(labels='
           r'labels, root_context=root_context\)'),
          ('inc', 'aug', r'%s\[%s\] \+= 1' % (CT, K)),
          ('bad', 'aug', r'%s\[.*' % CT),
          ('inc', 'store', r'%s\[%s\] = \(%s(\[%s\]|\.get\(%s, 0\)) \+ 1\)'
           % (CT, K, CT, K, K)),
          ('zero', 'store', r"%s\[elem\(root_context\['label_resets'\]\[%s\]"
           r"\)\] = 0" % (CT, K)),
          (None, 'store', r'%s\[%s\] = unk\(aug\)' % (CT, K)),
          ('order', 'store', LAB + r'\.order = tuple\(.*\)'),
          ('bad', 'store', '.*'),
          ('num', 'collect', r'%s\[%s\]' % (CT, K)),
          ('num', 'collect', r'unk\(aug\)|\(.* \+ 1\)|' + CT + r'\[.*'),
          ('bad', 'collect', r'(?!labels\[elem\(labels\)\]|elem\().*'),
          ('kinds', 'iter', LAB + r'\.kind'),
          ('resets', 'iter', r".*'label_resets'.*"),
          ('label', 'iter', LV + r'|comp\(.*|list\(\)')]
    base = [("'label_resets' in root_context", True),
            (LAB + r'\.kind is None', False)]
    for reset in (True, False):
        out = tr.run(ev, base + [
            (K + r" in root_context\['label_resets'\]", reset)])
        sel = [t for t in out if t.has('order') and t.has('inc')]
        tr.check('resets %s' % reset, sel, lambda t: not t.has('bad') and
                 seq(t)[0] == 'sort' and seq(t).index('inc') <
                 seq(t).index('num') and t.has('kinds') and
                 t.has('resets') is reset and (
                     reset or not t.has('zero')), 'labels are numbered')
        tr.check('each kind, resets %s' % reset, out, lambda t:
                 steps_ok(seq(t), reset), 'one number for each kind')
        if reset:
            tr.check('counters reset', [t for t in out if t.has('zero')],
                     lambda t: True, 'counters are reset')
    out = tr.run(ev, [("'label_resets' in root_context", False),
                      (LAB + r'\.kind is None', False),
                      (r".* in (dict\(\)|root_context\.get\(.*)", False)])
    tr.check('no resets', [t for t in out if t.has('order')], lambda t: not
             t.has('resets') and not t.has('zero'), 'nothing is reset')
    out = tr.run([('lab', 'collect', r'labels\[elem\(labels\)\]'),
                  ('order', 'store', LAB + r'\.order = .*')],
                 base[:1] + [(LAB + r'\.kind is None', True),
                             (LAB + r'\.kind', False)])
    comps = any(n.pred and n.kind == 'asg' and n.term and n.term[0] == 'comp'
                for n in tr.g.nodes)
    tr.check('no kind', out, lambda t: not t.has('lab') and (
        comps or not t.has('order')), 'labels without kind are not numbered')

    r = 'L02.headings'
    ctx.rule(r, 'Labels refer to the part, chapter, section, subsection and '
             'subsubsection they are in: a heading replaces the one of its '
             'kind and ends the ones below')
    tr = TraceRule(ctx, r, 'register_content_labels')
    g = tr.g
    E = r'(elem\(comp\(.*\)\)|labels\[elem\(labels\)\]|elem\(.*\))'
    CUR = {}
    for i, h in enumerate(HEADS + ('other',)):
        fs = [(r".*\.kind\[-1\] == '%s'" % x, x == h) for x in HEADS]
        fs += [(E + r'\.kind', True), (r'isinstance\(.*, ContentLabel\)',
                                       True)]
        ev = [('%s' % x, 'store', E + r'\.%s_label = (?P<x>.*)' % x)
              for x in HEADS] + [('bad', 'store', '.*'),
                                 ('it', 'iter', r'(comp\(.*|%s)' % LV)]
        out = tr.run(ev, fs)
        first = []
        for t in out:
            evs = [e for e in t.ev]
            names = seq(t)
            if not any(x in names for x in HEADS):
                continue
            # the first label after the beginning
            got = {}
            for e in evs:
                if isinstance(e, tuple) and e[0] in HEADS and \
                        e[0] not in got:
                    got[e[0]] = e[1]
            first.append((t, got))
        tr.check('in %s' % h, [t for t, _ in first], lambda t: not
                 t.has('bad'), 'labels get their headings')
        bad = []
        for t, got in first:
            for j, x in enumerate(HEADS):
                v = got.get(x)
                own = v is not None and re.fullmatch(E, v) is not None and \
                    not v.startswith('unk')
                if x == h and not own:
                    bad.append((t, x, v))
                elif h in HEADS and j > i and v != 'None':
                    bad.append((t, x, v))
                elif (h == 'other' or j < i) and (
                        v is None or own):
                    bad.append((t, x, v))
        ctx.ob(r, 'kind ' + h, first != [] and not bad, ctx.where(tr.f),
               'headings below are ended, those above kept'
               + (' -- %s = %s' % bad[0][1:] if bad else ''))
        # headings above are kept, also later ones
        later = []
        for t, got in first:
            for e in t.ev:
                if isinstance(e, tuple) and e[0] in HEADS:
                    j = HEADS.index(e[0])
                    if h in HEADS and j > i and e[1] != 'None':
                        later.append((t, e))
        ctx.ob(r, 'below ' + h, not later, ctx.where(tr.f),
               'headings below are ended')
    # the heading kept from the labels before, in variables
    flows = {}
    for n in g.nodes:
        if n.pred and n.kind == 'store' and n.target[0] == 'attr' and \
                n.target[2].endswith('_label') and n.term[0] == 'v':
            flows[n.target[2][:-6]] = (n, n.term[1])
    if set(flows) == set(HEADS):
        copies = {x: closure(g, n, v) for x, (n, v) in flows.items()}
        ctx.ob(r, 'own variables', all(
            not copies[x] & copies[y] for x in HEADS for y in HEADS
            if x != y), ctx.where(tr.f),
            'each kind of heading is kept by itself')
        loops = [h for h in g.nodes if h.kind == 'iter' and h.pred and
                 all(n in g.reachable(h) and h in g.reachable(n)
                     for n, _ in flows.values())]
        ctx.need(r, loops, 1, 'loops over labels')

        def sets(n, x):
            """None, 'none' or 'label': what n puts into the variable"""
            if n.kind != 'asg' or n.dst not in copies[x]:
                return None
            if n.term == ('c', None):
                return 'none'
            if n.term[0] == 'v' and n.term[1] in copies[x]:
                return None
            return 'label' if n.term[0] == 'v' and 'elem(' in S(
                g.expand(n.term, n)) else 'other'
        def steps(n, env):
            if n in loops:
                return ['it']
            if n.kind == 'asg' and n.pred:
                return [(x, sets(n, x)) for x in HEADS if sets(n, x)] or None
            x = [x for x in HEADS if flows[x][0] is n]
            return [('store', x[0])] if x else None
        for i, h in enumerate(HEADS + ('other',)):
            fs = [(r".*\.kind\[-1\] == '%s'" % x, x == h) for x in HEADS]
            out = ctx.trace(g, steps, facts(*(fs + [
                (E + r'\.kind', True)])))
            parts = []
            for t in out:
                cur = None
                for e in t.ev:
                    if e == 'it':
                        if cur:
                            parts.append(cur)
                        cur = []
                    elif cur is not None:
                        cur.append(e)
            parts = [p for p in parts if any(e[0] == 'store' for e in p)]
            for j, x in enumerate(HEADS):
                want = 'label' if x == h else 'none' if \
                    h in HEADS and j > i else None
                ok = bool(parts)
                for p in parts:
                    if ('store', x) not in p:
                        ok = False
                        continue
                    got = [e[1] for e in p[:p.index(('store', x))]
                           if e[0] == x]
                    # the values set before the label is changed
                    ok = ok and (got[-1:] == [want] if want else not got)
                    late = [e for e in p[p.index(('store', x)):]
                            if e[0] == x]
                    ok = ok and not late
                ctx.ob(r, '%s, in %s' % (x, h), ok,
                       ctx.where(flows[x][0]),
                       'the heading is set' if x == h else
                       'the heading below is ended' if want else
                       'the heading above is kept')
    values(ctx, r)

    r = 'L02.stages'
    ctx.rule(r, 'The links are set when the tree of documents was '
             'updated, after the documents have their builders')
    s01.ordered(ctx, r, 'document_tree_updated')
    d01.loading(ctx, r)

    navigation(ctx, 'L02.navigation')


def values(ctx, r):
    """The numbers and titles that labels have"""
    for x in HEADS:
        C = r'ContentLabel.%s_' % x
        tr = TraceRule(ctx, r, C + 'number')
        tr.expect(x + ' number', [], [], ret=r"get_label_number\(.*label="
                  r"self\.%s_label.*\)" % x, msg='the number of the heading')
        tr = TraceRule(ctx, r, C + 'title')
        tr.expect(x + ' title', [], [], ret=r"self\.%s_label\.title|getattr"
                  r"\(self\.%s_label, 'title', ''\)" % (x, x),
                  msg='the title of the heading')
    tr = TraceRule(ctx, r, 'get_label_number')
    O = r"label\.order"
    tr.expect('number', [(r'isinstance\(%s, tuple\)' % O, True),
                         (r'%s' % O, True), (r'0 < len\(%s\)' % O, True),
                         (r'len\(%s\) < 1' % O, False)], [],
              ret=O + r'\[-1\]', msg='the number of the most specific kind')
    tr.expect('no number', [(r'isinstance\(%s, tuple\)' % O, False)], [],
              ret='default', msg='no number')
    tr = TraceRule(ctx, r, 'label_manager:Label.number')
    O = r'self\.order'
    tr.expect('own number', [(r'isinstance\(%s, tuple\)' % O, True),
                             (r'%s' % O, True), (r'0 < len\(%s\)' % O, True),
                             (r'len\(%s\) < 1' % O, False)], [],
              ret=O + r'\[-1\]', msg='the number of the most specific kind')
    tr.expect('no own number', [(r'isinstance\(%s, tuple\)' % O, False)], [],
              ret='None', msg='no number')
    tr = TraceRule(ctx, r, 'ContentLabel.tree_number')
    NUM = ', '.join(r'self\.%s_number' % x for x in HEADS)
    out = tr.run([('it', 'iter', r'(tuple|list)\(%s\)' % NUM)])
    tr.check('tree number', out, lambda t: t.has('it') and re.match(
        r"'\.'\.join\(", S(t.value)), 'the numbers of all headings, in order')


def navigation(ctx, r):
    ctx.rule(r, 'The entries for the previous, own and next document refer '
             'to the first heading of the document before, itself and after '
             'it, among the documents with the target; entries that do not '
             'apply any more are removed')
    tr = TraceRule(ctx, r, 'set_navigation_labels')
    g = tr.g
    DOCS = r'root_document\.documents_list\((?=.*recursive=True)(?!.*only_' \
           r'subdocuments=True).*\)'
    D = r'elem\(%s\)' % DOCS
    KEY = r"'_'\.join\((tuple|list)\(elem\(.*\)\[0\], .*\.(strip|lstrip)" \
          r"\('\.'\)\)\)"
    ev = [('docs', 'call', DOCS),
          ('baddocs', 'call', r'.*\.documents_\w+\([^()]*\)'),
          ('group', 'collect', D + r'\.doc_id'),
          ('head', 'call', r".*\.get_labels_by_kind\(kinds='heading'\)"),
          ('badhead', 'call', r'[^()]*(\([^()]*\))?\.get_label\w*\(.*'),
          ('unk', 'store', r'(document|elem\(documents\))\.context\[.*'),
          ('put', 'store', D + r"\.context\[%s\] = weakref\.ref\(.*\)"
           % KEY),
          ('bad', 'store', r'.*'),
          ('rm', 'del', r"(%s|document|elem\(documents\))\.context\[.*\]" % D),
          ('rm', 'call', r"(%s|document|elem\(documents\))\.context\.pop\(.*"
           % D),
          ('names', 'iter', r"tuple\(tuple\('prev', -1\), tuple\('curr', 0\), "
           r"tuple\('next', 1\)\)|list\(tuple\('prev', -1\), tuple\('curr', 0"
           r"\), tuple\('next', 1\)\)|dict\(.*prev.*\)(\.items\(\))?"),
          ('badnames', 'iter', r".*'prev'.*"),
          ('find', 'call', r'.*\.index\(.*doc_id\)')]
    def some(*names):
        return [e if e[0] in names else (None,) + e[1:] for e in ev]
    known = [(r'.* < 0', False), (r'.* is None', False)]
    out = tr.run(some('docs', 'head', 'baddocs', 'badhead'), known)
    tr.check('linked', out, lambda t: t.has('docs') and t.has('head') and
             not t.has('baddocs') and not t.has('badhead'),
             'the headings of all documents', kinds=('return',))
    out = tr.run(some('put', 'bad', 'names', 'badnames'), known)
    tr.check('entries', out, lambda t: not t.has('bad') and not
             t.has('badnames') and (not t.has('put') or t.has('names')),
             'an entry for each neighbour')
    tr.check('entries set', [t for t in out if t.has('put')], lambda t:
             True, 'an entry for each neighbour')
    out = tr.run(some('group'), known)
    tr.check('documents by target', [t for t in out if t.has('group')],
             lambda t: True, 'documents are listed by target')
    tg = [n for n in g.nodes if n.kind == 'iter' and n.pred and re.search(
        r'\.targets$', S(g.expand(n.term, n)))]
    for n in tg:
        ctx.ob(r, 'own targets', not re.match(
            r'root_(document|context)\b(?!\.documents)', S(g.expand(
                n.term, n))), ctx.where(n), 'the targets of each document')
    ctx.ob(r, 'targets', len(tg) >= 1, ctx.where(tr.f),
           'the targets of each document')
    # indices do not go backwards
    for n in g.nodes:
        if n.pred and n.kind == 'store' and n.target[0] == 'sub' and \
                'context' in S(g.expand(n.target[1], n)):
            deps = S(g.expand(n.term, n))
            cs = [S(c) for c, _, _ in g.conds(n)]
            tests = [S(g.expand(m.term, m)) for m in g.nodes if m.pred and
                     m.kind == 'test' and n in g.reachable(m)]
            ctx.ob(r, 'no index below 0', any(
                re.search(r' < 0| <= -1|^0 <= |-1 < ', x)
                for x in cs + tests), ctx.where(n),
                'the first document has none before it')
            hs = caught(n)
            guard = any(re.search(r' in |< len', x) for x in cs)
            ctx.ob(r, 'no neighbour', guard or {
                'IndexError', 'KeyError'} <= hs or 'LookupError' in hs or
                'Exception' in hs, ctx.where(n),
                'documents at the end have no neighbour')
    for case, fs in (('no position', [(r'.*\.index\(.*\) is None', True),
                                      ('None is None', True)]),
                     ('before the first', [(r'.* is None', False),
                                           (r'.* < 0', True)])):
        out = tr.run([('ok', 'store', r'.*\[None\]\]\)'),
                      ('unk', 'store', r'(document|elem\(documents\))\.'
                       r'context\[.*'),
                      ('put', 'store', r".*\.context\[.*"),
                      ('names', 'iter', r".*'prev'.*")], fs)
        if case == 'before the first':
            tr.check(case, out, lambda t: not t.has('put'),
                     'there is no such document')
    def positions(n, env):
        if n.kind == 'store' and n.pred and n.target[0] == 'sub' and \
                'context' in S(g.expand(n.target[1], n)):
            return [('put', env.ev(n.term))]
    out = ctx.trace(g, positions, facts(*known))
    puts = [x for t in out for e in t.ev for x in [e[1]]]
    ctx.ob(r, 'neighbours', bool(puts) and all(offset(x) for x in puts),
           ctx.where(tr.f), 'the position of the document plus the offset')
    # stale entries
    dels = [n for n in g.nodes if n.pred and (
        n.kind == 'del' and n.target[0] == 'sub' or n.kind == 'call' and
        g.cname(n) == 'pop')]
    dels = [n for n in dels if 'context' in S(g.expand(
        n.target[1] if n.kind == 'del' else n.term[1], n))]
    ctx.ob(r, 'former entries', len(dels) >= 1, ctx.where(tr.f),
           'entries that do not apply are removed')
    out = tr.run(some('rm'), [(r'.* in .*\.context', True)], exc=True)
    tr.check('former entries are removed', [t for t in out if t.has('rm')],
             lambda t: True, 'entries that do not apply are removed')
    for n in dels:
        cs = [(S(c), v) for c, v, _ in g.conds(n)]
        ctx.ob(r, 'condition of removal', n.kind == 'call' or any(
            re.search(r' in .*\.context$', c) and v is True or
            re.search(r' not in .*\.context$', c) and v is False
            for c, v in cs), ctx.where(n), 'entries that are there')
        puts = [m for m in g.nodes if m.pred and m.kind == 'store' and
                m.target[0] == 'sub' and
                'context' in S(g.expand(m.target[1], m))]
        if n.kind == 'del':
            ctx.ob(r, 'same entry', any(
                S(g.expand(n.target[2], n)) == S(g.expand(m.target[2], m))
                for m in puts), ctx.where(n), 'the entry of the neighbour')
    # first heading of a document
    nx = [n for n in g.calls() if n.pred and g.cname(n) == 'next']
    gb = [n for n in g.calls() if n.pred and g.cname(n) == 'groupby']
    sd = [n for n in g.calls() if n.pred and g.cname(n) == 'setdefault']
    ni = [n for n in g.nodes if n.pred and n.kind == 'test' and re.search(
        r'doc_id (not )?in ', S(g.expand(n.term, n)))]
    ctx.ob(r, 'first heading', bool(gb and nx) or bool(ni) or
           len(sd) > 1, ctx.where(tr.f), 'the first heading of a document')
    for name, cls in (('next', 'Next'), ('prev', 'Prev')):
        for fmt_ in ('html', 'tex'):
            tr = TraceRule(ctx, r, '%s.%s_fmt' % (cls, fmt_))
            KEY = "%s_%s" % (name, fmt_)
            tr.expect('%s %s' % (name, fmt_), [
                ("'%s' in self.context" % KEY, True),
                (r"'label' in (cache|dict\(\))", False)], [
                ('use', 'store', r"(cache|dict\(\))\['label'\] = self\.context"
                 r"(\['%s'\]|\.get\('%s'.*\))\(\)" % (KEY, KEY)),
                ('bad', 'store', '.*')], never=('bad',), must=('use',),
                msg='the label of the neighbour')
            LC = [(r"'label' in (cache|dict\(\))", True),
                  (r"'%s' in self\.context" % KEY, True)]
            tr.expect('given %s %s' % (name, fmt_), LC, [
                ('bad', 'store', '.*')], never=('bad',),
                ret=r"super\(.*\)\.%s_fmt\(.*cache=(cache|dict\(\)).*"
                    r"\*\*?=kwargs.*\)" % fmt_, msg='a link to the label')
            tr.expect('no %s %s' % (name, fmt_), [
                ("'%s' in self.context" % KEY, False),
                (r"'label' in (cache|dict\(\))", False)], [], ret="''",
                msg='there is no link')


def offset(t):
    """Whether a term has an index: position plus offset of the neighbour"""
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == 'op' and x[1] == '+':
            a = [S(y) for y in x[2:]]
            if any(re.fullmatch(r"elem\(.*'prev'.*\)\[1\]|.*\[elem\(.*"
                                r"'prev'.*\)\]|rel\w*", y)
                   for y in a) and any(
                    re.search(r'\.index\(.*doc_id\)|^position|^elem\(enum',
                              y) for y in a):
                return True
    return False


def closure(g, node, var):
    """Variables a variable is copied from"""
    out, todo = set(), [var]
    while todo:
        v = todo.pop()
        if v in out:
            continue
        out.add(v)
        for d in g.nodes:
            if d.pred and d.kind == 'asg' and d.dst == v and \
                    d.term[0] == 'v' and 'elem(' not in S(
                        g.expand(d.term, d)):
                todo.append(d.term[1])
    return out


def steps_ok(s, reset):
    """For each kind: counted once, then collected once"""
    cnt = 0
    for e in s:
        if e == 'inc':
            if cnt:
                return False
            cnt = 1
        elif e == 'num':
            if not cnt:
                return False
            cnt = 0
        elif e in ('zero', 'resets') and not cnt:
            return False
        elif e in ('kinds', 'order') and cnt:
            return False
    return True
