"""L01: labels are unique, and found"""
from . import s01
from .common import *

ASSUMPTIONS = ['Labels are only added through the label manager']

PID = r'parse_id\(context=%s, id=id\)'
OWN = r'%s\.doc_id|%s'


def run(ctx):
    repo = ctx.repo
    r = 'L01.ids'
    ctx.rule(r, 'A label id has the form [document id][separator]label id; '
             'without a separator there is no document id')
    tr = TraceRule(ctx, r, 'parse_id')
    for case, fs, sep in (
            ('own separator', [('context is None', False), ('context', True),
                               ("'label_sep' in context", True)],
             r"context(\['label_sep'\]|\.get\('label_sep'.*\))"),
            ('no context', [('context is None', True), ('context', False)],
             r"settings\.default_context\['label_sep'\]|'::'"),
            ('no separator', [('context is None', False), ('context', True),
                              ("'label_sep' in context", False)],
             r"settings\.default_context\['label_sep'\]|'::'|"
             r"context\.get\('label_sep', .*\)")):
        SP = r"id\.split\((?:%s)\)" % sep
        tr.expect(case + ', two parts', fs + [
            (r"len\(%s\) == 2" % SP, True)], [],
            ret=r'tuple\((star\()?%s(\[0\], %s\[1\])?\)?\)|%s' % (SP, SP, SP),
            msg='the id is split')
        tr.expect(case + ', one part', fs + [
            (r"len\(%s\) == 2" % SP, False)], [],
            ret=r'tuple\(None, (id|%s\[0\])\)' % SP, msg='a label id')

    r = 'L01.add'
    ctx.rule(r, 'A label is added under its document id (its own, else that '
             'of the context) and label id, once; a second one is an error '
             'and the first is kept; the labels are then to be registered')
    tr = TraceRule(ctx, r, 'LabelManager.add_label')
    P = PID % 'context'
    for case, none, did in (('other document', False, P + r'\[0\]'),
                            ('own document', True, r"context(\['doc_id'\]|"
                             r"\.get\('doc_id'.*\))")):
        KEY = r'tuple\(%s, %s\[1\]\)' % (did, P)
        fs = [(P + r'\[0\] is None', none), (P + r'\[0\]', not none)]
        for text in (True, False):
            KIND = r'tuple\(kind\)' if text else 'kind'
            ev = [('unreg', 'store', r'self\.registered = False'),
                  ('make', 'call', r'label_cls\((?=.*star\(args\))(?=.*doc_id'
                   r'=%s[,)])(?=.*[ (]id=%s\[1\][,)])(?=.*kind=%s[,)])(?=.*'
                   r'order=None)(?=.*\*\*?=kwargs).*\)' % (did, P, KIND)),
                  ('badmake', 'call', r'label_cls\(.*\)'),
                  ('put', 'store', r'self\.labels\[%s\] = label_cls\(.*\)'
                   % KEY),
                  ('bad', 'store', '.*'), ('bad', 'del', '.*')]
            ft = fs + [(r'isinstance\(kind, str\)', text)]
            tr.expect('%s, new, %s' % (case, 'name' if text else 'names'),
                      ft + [(KEY + r' in self\.labels', False)], ev,
                      must=('unreg', 'make', 'put'),
                      never=('bad', 'badmake'), ret=r'label_cls\(.*\)',
                      exactly={'make': 1, 'put': 1}, msg='the label is added')
            tr.expect(case + ', duplicate', ft + [
                (KEY + r' in self\.labels', True)], ev,
                error='DuplicateLabel', never=('put', 'bad'),
                msg='duplicates are errors')
    for m, cls in (('content', 'ContentLabel'), ('document',
                                                 'DocumentLabel')):
        tr = TraceRule(ctx, r, 'LabelManager.add_%s_label' % m)
        tr.expect(m, [], [
            ('add', 'call', r'self\.add_label\(context=context, id=id, kind='
             r'kind, label_cls=%s, title=title\)' % cls),
            ('title', 'store', r'self\.add_label\(.*\)\.title = title'),
            ('bad', 'store', '.*')], must=('add',), never=('bad',),
            ret=r'self\.add_label\(.*\)', msg='a label of this type')
    for cls in ('ContentLabel', 'DocumentLabel'):
        tr = TraceRule(ctx, r, cls + '.__init__')
        tr.expect(cls, [], [
            ('super', 'call', r'super\(.*\)\.__init__\(doc_id=doc_id, id=id, '
             r'kind=kind, order=order\)'),
            ('title', 'store', r'self\.title = title'),
            ('bad', 'store', '.*')], must=('super', 'title'), never=('bad',),
            msg='the entries of the label')
    tr = TraceRule(ctx, r, 'label_manager:Label.__init__')
    for text in (True, False):
        tr.expect('Label, ' + ('name' if text else 'names'),
                  [(r'isinstance\(kind, str\)', text)], [
            ('doc', 'store', r'self\.doc_id = doc_id'),
            ('id', 'store', r'self\.id = id'),
            ('order', 'store', r'self\.order = order'),
            ('kind', 'store', r'self\.kind = ' + (
                r'tuple\(kind\)' if text else 'kind')),
            ('bad', 'store', '.*')], must=('doc', 'id', 'order', 'kind'),
            never=('bad',), msg='the entries of the label')
    K = r'tuple\(%s\.doc_id, %s\.id\)'
    s, o = K % ('self', 'self'), K % ('other', 'other')
    for m, pat in (('__eq__', '{s} == {o}|{o} == {s}|not {s} != {o}'),
                   ('__lt__', '{s} < {o}|not {o} <= {s}'),
                   ('__le__', '{s} <= {o}|not {o} < {s}'),
                   ('__gt__', '{o} < {s}|not {s} <= {o}'),
                   ('__ge__', '{o} <= {s}|not {s} < {o}'),
                   ('__ne__', '{s} != {o}|{o} != {s}|not {s} == {o}')):
        tr = TraceRule(ctx, r, 'label_manager:Label.' + m)
        pats = pat.format(s=s, o=o).split('|')
        tr.check(m, tr.run([]), lambda t: any(
            re.fullmatch(p.replace('not ', r'not \(?') + r'\)?', S(t.value))
            for p in pats), 'by both ids')

    r = 'L01.find'
    ctx.rule(r, 'A label is found by document and label id, without a '
             'document id as the first with the label id; otherwise an '
             'error is raised; the labels are registered before')
    tr = TraceRule(ctx, r, 'LabelManager.get_label')
    for c in (True, False):
        P = PID % ('context' if c else r'self\.root_context')
        KEY = r'(tuple\(%s\[0\], %s\[1\]\)|%s)' % (P, P, P)
        e = r'(elem\(self\.labels\)|elem\(self\.labels\.items\(\)\)\[0\])'
        ID = [(e + r'\[1\] == %s\[1\]' % P, True),
              (P + r'\[1\] == %s\[1\]' % e, True),
              (r'self\.labels\[elem\(self\.labels\)\]\.id == %s\[1\]' % P,
               True)]
        NOID = [(p, False) for p, _ in ID]
        ev = [('reg', 'call', r'self\.register\(.*\)'),
              ('look', 'call', r'self\.labels\.(items|keys|values)\(.*'),
              ('get', 'call', r'self\.labels\.get\(.*'),
              ('look', 'iter', r'self\.labels(\.(items|keys|values)\(\))?'),
              ('hit', 'collect', r'self\.labels\[elem\(self\.labels\)\]'),
              ('bad', 'store', '.*'), ('bad', 'collect', '.*')]
        fs = [('context', c), ('context is None', not c)]
        tr.expect('exact %s' % c, fs + [(KEY + r' in self\.labels', True),
                                        (r'self\.labels\.get\(%s.*\) is None'
                                         % KEY, False)], ev,
                  must=('reg',), never=('bad', 'hit'),
                  order=(('reg', 'look'), ('reg', 'get')),
                  ret=r'self\.labels(\[%s\]|\.get\(%s.*\))' % (KEY, KEY),
                  msg='the label with both ids')
        miss = fs + [(KEY + r' in self\.labels', False),
                     (r'self\.labels\.get\(%s.*\) is None' % KEY, True)]
        tr.expect('missing %s' % c, miss + [
            (P + r'\[0\] is None', False), (P + r'\[0\]', True)], ev,
            error='LabelNotFound', never=('hit', 'bad'),
            msg='no other label is returned')
        out = tr.run(ev, miss + [(P + r'\[0\] is None', True),
                                 (P + r'\[0\]', False)] + NOID, exc=True)
        tr.check('without document, no match %s' % c, out,
                 lambda t: not t.has('hit') and not t.has('bad'),
                 'labels with other ids are skipped')
        tr.check('without document, not found %s' % c, [
            t for t in out if t.kind == 'raise'], lambda t: raises(
                t, 'LabelNotFound') or not re.search(
                    'StopIteration|None', S(t.value) if t.value else ''),
            'not found')
        out = tr.run(ev, miss + [(P + r'\[0\] is None', True),
                                 (P + r'\[0\]', False)] + ID)
        tr.check('without document, match %s' % c, [
            t for t in out if t.has('hit') or seq(t).count('look') > 2 or
            seq(t).count('look') == 2 and t.kind == 'return'],
            lambda t: t.kind == 'return' and re.fullmatch(
                r'next\(.*|self\.labels\[elem\(self\.labels\)\]|.*\[0\]',
                S(t.value)), 'the first one is returned')
    tr = TraceRule(ctx, r, 'LabelManager.get_label')
    nx = [n for n in tr.g.calls() if n.pred and tr.g.cname(n) == 'next' and
          len(n.term[2]) == 1]
    for n in nx:
        ctx.ob(r, 'not found', bool(caught(n) & {
            'StopIteration', 'Exception', 'BaseException'}), ctx.where(n),
            'an error about the label is raised')

    tr = TraceRule(ctx, r, 'LabelManager.get_labels_by_id')
    for lst in (True, False):
        I = 'ids' if lst else r'list\(ids\)|tuple\(ids\)'
        out = tr.run([('reg', 'call', r'self\.register\(.*\)'),
                      ('get', 'call', r'self\.get_label\(context=context, '
                       r'id=elem\((%s)\)(, register=\w+)?\)' % I),
                      ('badget', 'call', r'self\.get_label\(.*'),
                      ('it', 'iter', I)],
                     [(r'any\(.*', lst), (r'isinstance\(ids, .*\)', lst)])
        tr.check('each of %s' % ('ids' if lst else 'one id'),
                 [t for t in out if t.has('get') or t.has('badget')],
                 lambda t: not t.has('badget') and (
                     not t.has('reg') or seq(t).index('reg') <
                     seq(t).index('get')) and t.kind == 'return' and
                 'get_label' in S(t.value) or t.kind == 'return' and
                 'unk' in S(t.value), 'the labels of the ids, in order')
    tr = TraceRule(ctx, r, 'LabelManager.get_labels_by_kind')
    e = r'(self\.labels\[elem\(self\.labels\)\]|elem\(.*\))'
    for doc in (False, True):
        D = [('doc_id is None', not doc), ('doc_id', doc)]
        for kinds in ('none', 'one', 'list'):
            Kf = [('kinds', kinds != 'none'), ('kinds is None', kinds ==
                                               'none'),
                  (r'isinstance\(kinds, (list|tuple)\)', kinds == 'list'),
                  (r'isinstance\(list\(\), list\)', True),
                  (r'isinstance\(tuple\(\), tuple\)', True)]
            KT = r'(list|tuple)\(kinds\)' if kinds == 'one' else 'kinds'
            name = 'by kind, document %s, kinds %s' % (doc, kinds)
            for df in (True, False):
                for kf in (True, False):
                    H = [(r'%s\.doc_id == doc_id' % e, df),
                         (r'doc_id == %s\.doc_id' % e, df),
                         (r'.* in %s\.kind' % e, kf)]
                    out = tr.run([
                        ('reg', 'call', r'self\.register\(.*\)'),
                        ('look', 'call', r'self\.labels\..*'),
                        ('look', 'iter', r'self\.labels.*'),
                        ('kinds', 'iter', KT),
                        ('bad', 'iter', r'.*\bkinds\b.*'),
                        ('khit' if not doc else 'dhit', 'collect',
                         r'self\.labels\[elem\(self\.labels\)\]|'
                         r'elem\(self\.labels.*\)'),
                        ('khit', 'collect', r'elem\((comp|list).*'),
                        ('bad', 'collect', e),
                        ('bad', 'store', '.*')], D + Kf + H)
                    tr.check(name, out, lambda t: seq(t)[:1] == ['reg'] and
                             not t.has('bad') and t.has('kinds') is
                             (kinds != 'none'), 'registered before')
                    if kinds == 'none' and not doc:
                        tr.check(name + ', result', out, lambda t:
                                 'self.labels' in S(t.value),
                                 'labels are returned')
                    if doc:
                        tr.check(name + ', same document' if df else name +
                                 ', other document', [
                                     t for t in out if t.has('dhit')]
                                 if df else out,
                                 lambda t: t.has('dhit') is df,
                                 'labels of the document')
                    if kinds != 'none' and (df or not doc):
                        tr.check(name + ', same kind' if kf else name +
                                 ', other kind', [
                                     t for t in out if t.has('khit')]
                                 if kf else out,
                                 lambda t: t.has('khit') is kf,
                                 'labels of the kind')
    f = tr.f
    for p in ('doc_id', 'kinds'):
        d = f.default_of(p)
        ctx.ob(r, 'by kind: default of ' + p, d is not None and
               repo.eval_const(f.module, d) is None, ctx.where(f), 'default')

    r = 'L01.register'
    ctx.rule(r, 'Registration is done by one thread at a time, orders the '
             'labels first, and is marked as done at its end; adding or '
             'removing labels requires a new one')
    tr = TraceRule(ctx, r, 'LabelManager.register')
    FN = r'(elem\(.*\)|%s)\((?=.*labels=self\.labels[,)])(?=.*root_context=' \
         r'%s[,)]).*\)'
    for c in (True, False):
        cc = 'context' if c else r'self\.root_context'
        ev = [('lock', 'with', r'self\._lock'), ('unlock', 'withexit', ''),
              ('orders', 'call', FN % ('register_orders', cc)),
              ('content', 'call', FN % ('register_content_labels', cc)),
              ('bad', 'call', r'(elem\(|register_)\w*.*'),
              ('done', 'store', r'self\.registered = True'),
              ('bad', 'store', '.*')]
        fs = [('context', c), ('context is None', not c)]
        tr.expect('registered %s' % c, fs + [
            (r'self\.registered', True)], ev,
            never=('orders', 'content', 'done', 'bad'),
            msg='nothing is done')
        out = tr.run(ev, fs + [(r'self\.registered', False)])
        tr.check('to register %s' % c, [t for t in out if t.has('orders')],
                 lambda t: not t.has('bad') and t.has('done') and
                 t.has('lock') and seq(t).index('lock') < seq(t).index(
                     'orders') < seq(t).index('done') and
                 seq(t).index('done') < seq(t).index('unlock'),
                 'registered with the lock held, then marked')
    g = tr.g
    regs = [n for n in g.nodes if n.pred and n.kind == 'iter' and
            'register_orders' in S(g.expand(n.term, n))]
    calls = [n for n in g.calls() if n.pred and g.cname(n) in (
        'register_orders', 'register_content_labels')]
    ok = any(re.fullmatch(r'(tuple|list)\(register_orders, '
                          r'register_content_labels\)',
                          S(g.expand(n.term, n))) for n in regs)
    if calls and not regs:
        os_ = [n for n in calls if g.cname(n) == 'register_orders']
        cs = [n for n in calls if g.cname(n) == 'register_content_labels']
        ok = bool(os_) and bool(cs) and all(
            c in g.reachable(o) and o not in g.reachable(c)
            for o in os_ for c in cs)
    ctx.ob(r, 'both registrations, orders first', ok, ctx.where(tr.f),
           'the order is set before the headings')
    # a check under the lock
    ins = [n for n in g.nodes if n.pred and n.kind == 'test' and
           'self.registered' in S(g.expand(n.term, n)) and any(
               w in {m for m in g.nodes if n in g.reachable(m)}
               for w in g.nodes if w.kind == 'with')]
    ctx.ob(r, 'checked under the lock', bool(ins), ctx.where(tr.f),
           'a thread that waited does not register again')
    tr = TraceRule(ctx, r, 'LabelManager.__init__')
    tr.expect('new', [], [
        ('lock', 'store', r'self\._lock = R?Lock\(\)|self\._lock = '
         r'threading\.R?Lock\(\)'),
        ('labels', 'store', r'self\.labels = OrderedDict\(\)|self\.labels = '
         r'dict\(\)'),
        ('root', 'store', r'self\.root_context = root_context')],
        must=('lock', 'labels', 'root'), msg='own lock and labels')
    ctx.ob(r, 'initially not registered', repo.class_const(
        ctx.cls('LabelManager'), 'registered') is False,
        ctx.where(ctx.cls('LabelManager')), 'labels are registered first')

    r = 'L01.stages'
    ctx.rule(r, 'Labels are removed after the header is read and '
             'before labels are added')
    s01.ordered(ctx, r, 'document_onload', ['process_headers', 'reset_label_manager', 'process_document_label', 'process_tags'])

    r = 'L01.reset'
    ctx.rule(r, 'A reset removes the labels of the given documents, or all, '
             'and only those; documents are reset when they are loaded')
    tr = TraceRule(ctx, r, 'LabelManager.reset')
    ev = [('clear', 'call', r'self\.labels\.clear\(\)'),
          ('unk', 'del', r'.*unk\(.*'), ('unk', 'call', r'.*unk\(.*'),
          ('rm', 'del', r'self\.labels\[elem\(.*\)\]'),
          ('rm', 'call', r'self\.labels\.pop\(elem\(.*\).*'),
          ('unreg', 'store', r'self\.registered = False'),
          ('keep', 'store', r'self\.labels = .*'),
          ('hit', 'collect', r'elem\(self\.labels\)'),
          ('bad', 'store', '.*'), ('bad', 'del', '.*')]
    tr.expect('all', [('doc_ids is None', True), ('doc_ids', False),
                      (r'isinstance\(doc_ids, str\)', False)], ev,
              must=('clear', 'unreg'), never=('rm', 'bad', 'keep'),
              msg='all labels are removed')
    for text in (True, False):
        D = r'(set|list|tuple)\(doc_ids\)' if text else 'doc_ids'
        for hit in (True, False):
            out = tr.run(ev, [
                ('doc_ids is None', False),
                (r'isinstance\(doc_ids, str\)', text),
                (r'elem\(self\.labels\)\[0\] in %s' % D, hit),
                (r'self\.labels\[elem\(self\.labels\)\]\.doc_id in %s' % D,
                 hit),
                (r'elem\(self\.labels\)\[0\] == doc_ids', hit)])
            name = 'given, ' + ('name' if text else 'names')
            tr.check(name, out, lambda t: t.has('unreg') and not
                     t.has('clear') and not t.has('bad'),
                     'the labels are to be registered again')
            if hit:
                tr.check(name + ', own', [t for t in out if t.has('rm')],
                         lambda t: True, 'labels are removed')
            else:
                tr.check(name + ', others', out, lambda t: not t.has('rm')
                         and not t.has('hit'), 'other labels are kept')
    tr = TraceRule(ctx, r, 'reset_label_manager')
    LM = r"context(\.setdefault\('label_manager', LabelManager\(root_context=" \
         r"context\)\)|\['label_manager'\]|\.get\('label_manager'.*\)|" \
         r"\.label_manager)"
    DI = r"context(\.get\('doc_id'(, None)?\)|\['doc_id'\])"
    tr.expect('load', [(DI + ' is None', False), (DI, True),
                       (r"'doc_id' in context", True)], [
        ('reset', 'call', LM + r'\.reset\(doc_ids=%s\)' % DI),
        ('bad', 'call', r'.*\.reset\(.*')], must=('reset',), never=('bad',),
        msg='the labels of the document are removed')
    tr.expect('no id', [(DI + ' is None', True), (DI, False),
                        (r"'doc_id' in context", False)], [
        ('bad', 'call', r'.*\.reset\(.*')], never=('bad',),
        msg='labels of other documents are kept')

    r = 'L01.create'
    ctx.rule(r, 'The label of a tag has the id given with it, else one made '
             'from the document and its title; tag, anchor and label have '
             'the same id')
    tr = TraceRule(ctx, r, 'generate_label_id')
    A = r'(tag\.attributes|Attributes\(tag\.attributes\))'
    DOC = r"tag\.context(\['doc_id'\]|\.get\('doc_id'.*\))"
    tr.expect('given id', [(r"'id' in %s" % A, True)], [],
              ret=A + r"(\['id'\]|\.get\('id'.*\))", msg='the id is kept')
    J = r"'-'\.join\((tuple|list)\(%s, %s\)\)"
    noid = [(r"'id' in %s" % A, False)]
    tr.expect('short title', noid + [(r"'short' in %s" % A, True)], [],
              ret=r'slugify\(' + J % (DOC, r"titlelize\(string=%s\['short'\]"
                                           r"\)" % A) + r'\)',
              msg='made from the short title')
    sh = noid + [(r"'short' in %s" % A, False)]
    T = [(r'isinstance\(tag\.content, str\)', True)]
    E_ = [(r"tag\.content\.strip\(\) == ''", True),
          (r"tag\.content\.strip\(\)", False)]
    ev = [('count', 'store', r"tag\.context\['label_count'\] = \(tag\.context"
           r"\.(setdefault|get)\('label_count', 0\) \+ 1\)"),
          ('bad', 'store', '.*')]
    tr.expect('no content', sh + T + E_, ev, must=('count',), never=('bad',),
              ret=r"'-'\.join\((tuple|list)\(slugify\(%s\), str\(.*label_count"
                  r".*\)\)\)" % DOC, msg='a number is used')
    title = r'slugify\(' + J % (
        DOC, r"titlelize\(string=content_to_str\(content=tag\.content\)\)") \
        + r'\)'
    tr.expect('text', sh + T + [(p, not v) for p, v in E_], ev,
              never=('count', 'bad'), ret=title,
              msg='made from the content')
    tr.expect('tags', sh + [(r'isinstance\(tag\.content, str\)', False)], ev,
              never=('count', 'bad'), ret=title, msg='made from the content')
    tr = TraceRule(ctx, r, 'create_label')
    LM = r"tag\.context(\['label_manager'\]|\.get\('label_manager'.*\)|" \
         r"\.label_manager)"
    for given in (True, False):
        L = 'label_id' if given else r'generate_label_id\(tag=tag\)'
        for short in (True, False):
            TT = A + r"\['short'\]" if short else \
                r'titlelize\(string=content_to_str\(content=tag\.content\)\)'
            tr.expect('label, %sid, %stitle' % (
                'given ' if given else '', 'short ' if short else ''),
                [('label_id is None', not given),
                 (r"'short' in %s" % A, short)], [
                ('add', 'call', LM + r'\.add_content_label\(context=tag\.'
                 r'context, id=%s, kind=kind, title=%s\)' % (L, TT)),
                ('bad', 'call', r'.*\.add_\w+\(.*')],
                must=('add',), never=('bad',), exactly={'add': 1}, ret=L,
                msg='the label is added')
    for spec, made in (
            ('LabelMixin.generate_label_id', r'generate_label_id\(tag=self\)'),
            ('Heading.generate_label_id', r"':'\.join\((tuple|list)\("
             r"(Heading|self)\.id_mappings\[self\.__class__\.__name__\.lower"
             r"\(\)\], .*generate_label_id\(.*\)\)\)")):
        tr = TraceRule(ctx, r, spec)
        tr.expect('given id', [(r"'id' in self\.attributes", True)], [],
                  ret=r"self\.attributes(\['id'\]|\.get\('id'.*\))",
                  msg='the id is kept')
        tr.expect('no id', [(r"'id' in self\.attributes", False)], [],
                  ret=made, msg='an id is made')
    tr = TraceRule(ctx, r, 'Caption.generate_label_id')
    for case, fs, ret in (
            ('own id', [(r'self\.label_id is None', False)],
             r'self\.label_id'),
            ('id attribute', [(r'self\.label_id is None', True),
                              (r"'id' in self\.attributes", True)],
             r"self\.attributes\['id'\]"),
            ('no id', [(r'self\.label_id is None', True),
                       (r"'id' in self\.attributes", False)],
             r"\('caption-' \+ hashtxt\(.*self\.default_fmt\(.*\)\)\)|"
             r"fstr\('caption-', .*hashtxt.*\)")):
        tr.expect('caption, ' + case, fs, [
            ('attr', 'store', r"self\.attributes\['id'\] = (%s)" % ret),
            ('bad', 'store', '.*')], must=('attr',), never=('bad',), ret=ret,
            msg='the id of the caption')
    for cls, kind in (('BaseFigure', 'figure'), ('BaseTable', 'table')):
        tr = TraceRule(ctx, r, cls + '.__init__')
        e = r'elem\(.*\)'
        out = tr.run([
            ('id', 'store', e + r"\.label_id = self\.attributes\.pop\('id', "
             r"None\)"),
            ('kind', 'store', e + r"\.kind = tuple\('caption', '%s'\)" % kind),
            ('make', 'call', e + r'\.create_label\(\)'),
            ('bad', 'store', r'elem\(.*\)\.(label_id|kind) = .*'),
            ('it', 'iter', r'comp\(list, elem.*|self\.flatten.*')],
            [(r'isinstance\(elem\(.*\), Caption\)', True)])
        tr.check(cls, [t for t in out if t.has('make') or t.has('id')],
                 lambda t: t.has('id') and t.has('kind') and t.has('make')
                 and not t.has('bad') and seq(t).index('make') > max(
                     seq(t).index('id'), seq(t).index('kind')),
                 'captions get the label of the ' + kind)
    tr = TraceRule(ctx, r, 'Heading.__init__')
    NL = r"'nolabel' in self\.attributes"
    ev = [('tag', 'call', r'(Tag|super\(.*\))\.__init__\(.*'),
          ('label', 'call', r'LabelMixin\.__init__\(.*'),
          ('label', 'call', r'self\.create_label\(\)')]
    tr.expect('heading', [(NL, False)], ev, must=('tag', 'label'),
              order=(('tag', 'label'),), msg='headings get labels')
    tr.expect('heading without label', [(NL, True)], ev, must=('tag',),
              never=('label',), msg='no label')
    tr = TraceRule(ctx, r, 'LabelMixin.create_label')
    C = r'create_label\(kind=self\.generate_label_kind\(\), label_id=' \
        r'self\.generate_label_id\(\), tag=self\)'
    ATT = r"self\.attributes\.filter\('id', 'class', 'short'\)"
    tr.expect('mixin', [], [
        ('id', 'store', r'self\.label_id = ' + C),
        ('attr', 'store', r"self\.attributes\['id'\] = " + C),
        ('filter', 'call', r'self\.attributes\.filter\(.*'),
        ('tag', 'store', r"self\.label_tag = LabelTag\((?=.*content=%s[,)])"
         r"(?=.*context=self\.context[,)]).*\)" % C),
        ('anchor', 'store', r"self\.label_anchor = LabelAnchor\((?=.*content="
         r"%s[,)])(?=.*context=self\.context[,)]).*\)" % C),
        ('bad', 'store', '.*')],
        must=('id', 'attr', 'tag', 'anchor'), never=('bad',),
        order=(('attr', 'filter'),), msg='one id for all')
    for spec in ('LabelAnchor.__init__', 'LabelTag.__init__'):
        tr = TraceRule(ctx, r, spec)
        tr.expect('id', [], [
            ('id', 'store', r'self\.label_id = content\.strip\(\)'),
            ('bad', 'store', r'self\.label_id = .*')], must=('id',),
            never=('bad',), msg='the id is the content')
    tr = TraceRule(ctx, r, 'Ref.__init__')
    tr.expect('id', [], [
        ('id', 'store', r'self\.label_id = self\.content\.strip\(\)'),
        ('bad', 'store', r'self\.label_id = .*')], must=('id',),
        never=('bad',), msg='the id is the content')

    formats(ctx, 'L01.format')


def formats(ctx, r):
    """The text of labels"""
    ctx.rule(r, 'The text of a label is made for the label from the format '
             'of the project for the given keys, else its kind, and target')
    tr = TraceRule(ctx, r, 'LabelManager.format_string')
    L = r'self\.get_label\(id=id\)'
    FM = r"(tuple|list)\(self\.root_context\['label_fmts'\]\)"
    for keys in (True, False):
        Kk = 'keys' if keys else L + r'\.kind'
        for tgt in ('dot', 'plain', 'none'):
            TG = r'target\[(slice\()?1.*\]|target\.lstrip\(.\..\)' \
                if tgt == 'dot' else 'target'
            out = tr.run([('fmts', 'collect', r"self\.root_context\["
                           r"'label_fmts'\]")], [
                (r'len\(keys\) < 1|keys == .*|not keys', not keys),
                (r'0 < len\(keys\)|keys', keys),
                (r"'label_fmts' in self\.root_context", True),
                (r'isinstance\(target, str\)', tgt != 'none'),
                (r"target\.startswith\('\.'\)", tgt == 'dot'),
                ('target is None', tgt == 'none')])
            tr.check('format, keys %s, target %s' % (keys, tgt), out,
                     lambda t: re.fullmatch(
                r"replace_macros\((?=.*find_entry\((?=.*star\(%s\))(?=.*"
                r"suffix=(%s)[,)]).*\))(?=.*dict\(tuple\('@label', %s\)\))"
                r".*\)" % (Kk, TG, L), S(t.value)) and t.has('fmts') or
                re.search(FM, S(t.value)) is not None and re.search(
                    r'find_entry\((?=.*star\(%s\)).*' % Kk, S(t.value)),
                'the format of the label', kinds=('return',))
    for spec, tgt in (('default_fmt', None), ('tex_fmt', '.tex'),
                      ('html_fmt', '.html')):
        tr = TraceRule(ctx, r, 'LabelTag.' + spec)
        ok = [(r'all\(.*\)', True), (r'.* is None', False)]
        tr.expect(spec, ok, [
            ('fmt', 'call', r"self\.label_manager\.format_string\(id=self\."
             r"label_id%s\)" % (r", target='\%s'" % tgt if tgt else '')),
            ('bad', 'call', r'[\w.]+\.format_string\([^()]*\)')],
            must=('fmt',),
            never=('bad',), msg='the format for the target')
