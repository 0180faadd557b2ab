"""D02: the documents of a project form a tree given by the includes"""
from .common import *

ASSUMPTIONS = ['Paths of the same file are spelt alike (no links)']

E = r'elem\(self\.context\.includes\)'
DD = r'.*\.documents_dict\((?=.*recursive=True).*\)'
SUBS = r'self\.documents_dict\((?=.*recursive=True).*\)'


def run(ctx):
    repo = ctx.repo
    r = 'D02.includes'
    ctx.rule(r, 'Each included document that is not in the project yet '
             'becomes a subdocument, in order; documents already included, '
             'the document itself and documents that include it do not')
    includes(ctx, r)

    from . import d01
    r = 'D02.load'
    ctx.rule(r, 'The documents that are included are looked up with every '
             'load, and changes of the tree are announced')
    d01.loading(ctx, r)

    r = 'D02.listing'
    ctx.rule(r, 'The documents of a project are listed once each, parents '
             'before their subdocuments, in the order of inclusion')
    tr = TraceRule(ctx, r, 'Document.documents_dict')
    for case, doc, owner in (('self', True, 'self'),
                             ('other', False, 'document')):
        D = [('document is None', doc), ('document', not doc)]
        SD = r'%s\.subdocuments' % owner
        e = r'%s\[elem\(%s\)\]' % (SD, SD)
        REC = r'%s\.documents_dict\((?!.*only_subdocuments=(?!False))(?=.*' \
              r'recursive=(recursive|True)).*\)' % e
        ev = [('own', 'store', r'OrderedDict\(\)\[%s\.src_filepath\] = %s' % (
            owner, owner)),
            ('it', 'iter', SD + r'(\.(items|values|keys)\(\))?'),
            ('rec', 'call', REC),
            ('merge', 'store', r'OrderedDict\(\)\[elem\(%s\)\] = %s\[elem\('
             r'%s\)\]' % (REC, REC, REC)),
            ('merge', 'call', r'OrderedDict\(\)\.update\(%s\)' % REC),
            ('sub', 'store', r'OrderedDict\(\)\[(%s\.src_filepath|elem\(%s'
             r'\))\] = %s' % (e, SD, e)),
            ('bad', 'store', '.*')]
        tr.expect(case + ', flat', D + [
            ('only_subdocuments', False), ('recursive', False)], ev,
            must=('own', 'sub'), never=('rec', 'merge', 'bad'), it='it',
            order=(('own', 'it'),), ret=r'OrderedDict\(\)',
            msg='the document, then its subdocuments')
        tr.expect(case + ', only subdocuments', D + [
            ('only_subdocuments', True), ('recursive', False)], ev,
            must=('sub',), never=('own', 'rec', 'merge', 'bad'), it='it',
            msg='only its subdocuments')
        out = tr.run(ev, D + [('only_subdocuments', False),
                              ('recursive', True)])
        tr.check(case + ', recursive', [t for t in out
                                        if seq(t).count('it') >= 2],
                 lambda t: t.has('rec') and t.has('own') and
                 not t.has('sub') and not t.has('bad') and
                 seq(t).index('own') < seq(t).index('rec'),
                 'all documents below', kinds=('return',))
        tr.check(case + ', merged', [t for t in out if t.has('merge')],
                 lambda t: True, 'all documents below are listed')
    for m, ret in (('documents_list', r'list\(self\.documents_dict\(document='
                    r'document, only_subdocuments=only_subdocuments, '
                    r'recursive=recursive\)\.values\(\)\)'),):
        tr = TraceRule(ctx, r, 'Document.' + m)
        tr.check(m, tr.run([]), lambda t: re.fullmatch(ret, S(t.value)) or
                 'documents_dict(document=document, only_subdocuments='
                 'only_subdocuments, recursive=recursive)' in S(t.value),
                 'the documents in order')
    tr = TraceRule(ctx, r, 'Document.documents_by_id')
    LESS = r'len\(.*\) < len\(self\.documents_dict\(.*\)'
    tr.expect('shared ids', [(LESS, True), (r'len\(.*\) == len\(.*\)', False)
                             ], [], error='DocumentException',
              msg='documents with the same id are an error')
    tr.expect('unique ids', [(LESS, False), (r'len\(.*\) == len\(.*\)', True)
                             ], [], msg='returned by id')
    tr = TraceRule(ctx, r, 'Document.doc_ids')
    out = tr.run([('it', 'iter', r'self\.documents_list\((?=.*recursive=True)'
                   r'.*\)'), ('id', 'collect', r'elem\(self\.documents_list'
                              r'\(.*recursive=True.*\)\)\.doc_id')])
    tr.check('ids', out, lambda t: t.has('it') and (
        seq(t).count('it') < 2 or t.has('id')), 'ids of all documents')
    for spec, owner in (('Document.doc_id', 'self'),):
        tr = TraceRule(ctx, r, spec)
        tr.expect('id', [], [], ret=r'str\(self\.src_filepath\.subpath\)|'
                  r'self\.context.*doc_id.*',
                  msg='the path within the project')

    for spec, ds in (
            ('documents_dict', {'only_subdocuments': False,
                                'recursive': False, 'document': None}),
            ('documents_list', {'only_subdocuments': False,
                                'recursive': False, 'document': None}),
            ('documents_by_id', {'only_subdocuments': False,
                                 'recursive': True, 'document': None})):
        f = ctx.fn('Document.' + spec)
        for p, want in ds.items():
            d = f.default_of(p)
            ctx.ob(r, '%s: default of %s' % (spec, p), d is not None and
                   repo.eval_const(f.module, d) is want, ctx.where(f),
                   'default of the listing')

    r = 'D02.dates'
    ctx.rule(r, 'After a load the documents below are at least as new as '
             'the document, so that they are not loaded again')
    dates(ctx, r)

    r = 'D02.paths'
    ctx.rule(r, 'Includes are lines of text, relative to the directory of '
             'the document, within the project; targets are extensions')
    tr = TraceRule(ctx, r, 'DocumentContext.includes')
    for key, fs in (('include', [("'include' in self", True)]),
                    ('includes', [("'include' in self", False),
                                  ("'includes' in self", True)])):
        INC = r"self(\['%s'\]|\.get\('%s'.*\))" % (key, key)
        tr.expect(key + ' not text', fs + [
            (r'isinstance\(%s, str\)' % INC, False)], [],
            ret=r'list\(\)|tuple\(\)', msg='nothing is included')
        LINE = r"%s(\.split\('\\n'\)|\.splitlines\(\))" % INC
        BL = [(r"elem\(%s\)\.isspace\(\)" % LINE, False),
              (r"elem\(%s\) == ''" % LINE, False),
              (r"elem\(%s\)\.strip\(\)" % LINE, True),
              (r"elem\(%s\)" % LINE, True)]
        out = tr.run([
            ('line', 'collect', r'elem\(%s\)\.strip\(\)' % LINE),
            ('path', 'collect', r"SourcePath\(project_root=self\["
             r"'src_filepath'\]\.project_root, subpath=\(self\['src_filepath"
             r"'\]\.subpath\.parent / elem\(.*\)\)\)"),
            ('path', 'collect', r"SourcePath\(project_root=self\["
             r"'src_filepath'\]\.project_root, subpath=\(self\['src_filepath"
             r"'\]\.subpath\.parent / .*\)\)"),
            ('bad', 'collect', r'SourcePath\(.*'),
            ('it', 'iter', LINE)],
            fs + [(r'isinstance\(%s, str\)' % INC, True)] + BL)
        tr.check(key, [t for t in out if t.has('path') or t.has('bad')],
                 lambda t: not t.has('bad'),
                 'paths relative to the document')
        tr.check(key + ' lines', out, lambda t: t.has('it'),
                 'lines are split', kinds=('return',))
    tr.expect('nothing', [("'include' in self", False),
                          ("'includes' in self", False)], [],
              ret=r'list\(\)|tuple\(\)', msg='nothing is included')
    for blank in (True, False):
        B = [(r"elem\(.*split.*\)\.isspace\(\)", blank),
             (r"elem\(.*split[^.]*\)\.strip\(\)", not blank),
             (r"elem\(.*split.*\) == ''", False)]
        if not blank:
            continue
        out = tr.run([('line', 'collect', r'elem\(.*split.*'),
                      ('path', 'collect', r'SourcePath\(.*')], B + [
            ("'include' in self", True), (r'isinstance\(.*, str\)', True)])
        tr.check('blank lines', out, lambda t: not t.has('line'),
                 'blank lines are skipped', kinds=('return',))
    f = ctx.fn('Document._update_mtime')
    tr = TraceRule(ctx, r, 'DocumentContext.targets')
    tr.expect('no entry', [("'target' in self", False),
                           ("'targets' in self", False)], [
        ('use', 'call', r"self(\.get|\.__getitem__)\(.*")], never=('use',),
        msg='no targets')
    out = tr.run([], [("'target' in self", True),
                      ("'targets' in self", True)])
    tr.check('both entries', out, lambda t: "self['targets']" not in S(
        t.value) and "'targets'" not in str(t.ev), 'the entry target is used')
    for case, fs, src in (
            ('target', [("'target' in self", True)], r"self\['target'\]"),
            ('targets', [("'target' in self", False),
                         ("'targets' in self", True)],
             r"self\['targets'\]")):
        for txt in (True, False):
            lst = r'str_to_list\(string=%s\)' % src if txt else src
            IS = [(r'isinstance\(%s, str\)' % src, txt)]
            tr.expect('%s none%s' % (case, txt), fs + IS + [
                (r"'none' in .*", True)], [], truth=False,
                msg='no targets')
            out = tr.run([('it', 'iter', '(.*)%s(.*)' % lst),
                          ('dot', 'collect', r"\('\.' \+ elem\(.*\)\)"),
                          ('dot', 'collect', r"fstr\('\.', .*\)"),
                          ('asis', 'collect', r'elem\(.*\)')],
                         fs + IS + [(r"'none' in .*", False),
                                    (r".*\.startswith\('\.'\)", False),
                                    (r".*\[0\] == '\.'", False)])
            tr.check('%s%s without dot' % (case, txt), [
                t for t in out if t.has('dot')], lambda t: True,
                'a dot is added')
            out2 = tr.run([('dot', 'collect', r"\('\.' \+ elem\(.*\)\)"),
                           ('dot', 'collect', r"fstr\('\.', .*\)")],
                          fs + IS + [(r"'none' in .*", False),
                                     (r".*\.startswith\('\.'\)", True),
                                     (r".*\[0\] == '\.'", True)])
            tr.check('%s%s with dot' % (case, txt), out2,
                     lambda t: not t.has('dot'), 'no dot is added',
                     kinds=('return',))


def includes(ctx, r):
    tr = TraceRule(ctx, r, 'Document.load_subdocuments')
    LOAD = r'%s(\[%s\]|\.get\(%s.*\))\.load\(level=\(level \+ 1\)\)' % (
        SUBS, E, E)
    OLD = r'%s(\[%s\]|\.get\(%s.*\))' % (SUBS, E, E)
    NEW = r'Document\((?=.*environment=self\.(context\[.environment.\]|' \
          r'context\.get\(.environment.*\)))(?=.*level=\(level \+ 1\))' \
          r'(?=.*parent_context=self\.context[,)])(?=.*src_filepath=%s' \
          r'[,)]).*\)' % E
    ev = [('it', 'iter', r'self\.context\.includes'),
          ('clear', 'call', r'self\.subdocuments\.clear\(\)'),
          ('clear', 'store', r'self\.subdocuments = OrderedDict\(\)'),
          ('load', 'call', LOAD),
          ('new', 'call', NEW),
          ('bad', 'call', r'Document\(.*\)'),
          ('bad', 'call', r'.*\.load\(.*\)'),
          ('old', 'call', SUBS),
          ('put', 'store', r'self\.subdocuments\[%s\] = (%s|%s)' % (
              E, OLD, NEW)),
          ('bad', 'store', r'self\..*'),
          ('mtime', 'call', r'(Document|self)\._update_mtime\(document=self'
           r'(, mtime=None)?\)')]

    def known(v):
        return [(r'any\(.*', v), (E + ' in ' + DD, v),
                (E + r' in .*documents_(dict|list).*', v),
                (r'.*\.documents_dict\(.*\)(\.get\(%s.*\)|\[%s\])( is not '
                 'None)?' % (E, E), v)] if v else [
                    (r'any\(.*', v), (E + ' in ' + DD, v),
                    (E + r' in .*documents_(dict|list).*', v)]
    ctrl = [(E + ' in ' + SUBS, True), (OLD + ' is None', False),
            (OLD, True)]
    free = [(E + ' in ' + SUBS, False), (OLD + ' is None', True),
            (OLD, False)]
    # the documents of this document are looked up in their own dict
    own = r'%s in self\.documents_dict\(only_subdocuments=False, ' \
          r'recursive=True\)' % E
    back = r'self\.src_filepath in .*\.subdocuments'
    OTHER = r'elem\(.*\)\.documents_dict\((?=.*recursive=True).*\)'
    out = tr.run([('doc', 'call', OTHER)] + ev, [(E + ' in ' + OTHER, True)])
    tr.check('known', [t for t in out if seq(t).count('it') == 2 and
                       'doc' in seq(t)], lambda t: not any(
        t.has(x) for x in ('load', 'new', 'put', 'bad')),
        'documents of the project are not added again', minimum=0)
    tr.expect('controlled', ctrl + known(False) + [(back, False)], ev,
              must=('load', 'put'), never=('new', 'bad'), it='it',
              order=(('load', 'put'),), msg='the document is kept')
    tr.expect('not controlled', free + known(False), ev,
              must=('new', 'put'), never=('load', 'bad'), it='it',
              order=(('new', 'put'),), msg='a document is created')
    out = tr.run(ev, known(False))
    tr.check('preparation', out, lambda t: t.has('clear') and
             t.has('old') and t.has('it') and
             seq(t).index('old') < seq(t).index('clear') <
             seq(t).index('it'),
             'the former documents are remembered, then removed',
             kinds=('return',))
    tr.check('dates', out, lambda t: t.has('mtime') and
             seq(t)[-1] == 'mtime', 'the dates are updated at the end',
             kinds=('return',))
    tr.check('result, created', [t for t in tr.run(
        ev, free + known(False)) if t.has('new')],
        lambda t: t.truth is not False and 'True' in S(t.value) or
        t.truth is True or S(t.value) in ('document_loaded',) or
        t.value is not None and t.value[0] == 'unk',
        'a created document counts as loaded', kinds=('return',))
    tr.check('result, nothing included', [t for t in tr.run(ev, []) if seq(
        t).count('it') < 2 and not t.has('new')],
        lambda t: t.truth is False or t.value[0] == 'unk' or not
        t.has('it'), 'nothing is loaded', kinds=('return',))
    # what counts as known: this document, those that include it and all
    # documents of those, also while they are loading
    g = tr.g
    put = [n for n in g.nodes if n.pred and (
        n.kind == 'store' and n.target[0] == 'sub' and
        S(g.expand(n.target[1], n)) == 'self.subdocuments')]
    ctx.need(r, put, 1, 'additions of subdocuments')
    text = ' ; '.join(S(g.expand(n.term, n)) for n in g.nodes
                      if n.pred and n.term is not None)
    for n in put:
        t = reach_text(g, n)
        ctx.ob(r, 'known documents', bool(re.search(
            E + r' (?:not )?in (?!self\.)[^;]{1,200}?(documents_dict\((?![^;)]*'
            r'only_subdocuments=True)[^;)]*recursive=True|documents_list\('
            r'[^;)]*recursive=True)', t)), ctx.where(n),
            'looked up in the documents of the project')
    members = set()
    for n in g.nodes:
        if not n.pred or n.term is None:
            continue
        ls = [n.term] if n.kind == 'asg' and n.term[0] in ('list', 'tuple') \
            else []
        for x in ls:
            members |= {S(y) for y in x[1:]} | {
                S(g.expand(y, n)) for y in x[1:]}
        for k, _, term in effects(n, NoEnv(g, n)) if n.kind == 'call' else ():
            if k == 'collect':
                members.add(S(term))
    ctx.ob(r, 'documents: itself', 'self' in members, ctx.where(tr.f),
           'a document does not include itself')
    ctx.ob(r, 'documents: the root', any(
        re.search('root', m) for m in members), ctx.where(tr.f),
        'all documents of the root are known')
    for what, p in (('including', r"parent_context[^;]*\.document\b|"
                     r"parent_context[^;]*'document'|parent_context[^;]*"
                     r"src_filepath"),):
        ctx.ob(r, 'documents: ' + what, bool(re.search(p, text)),
               ctx.where(tr.f), 'compared with these documents')
    # all ancestors are visited
    heads = [n for n in g.nodes if n.pred and n.extra == 'loophead']
    up = [n for n in g.nodes if n.pred and n.kind == 'asg' and n.term and
          re.search(r'\.parent_context', S(g.expand(n.term, n)))]
    ok = any(n in g.reachable(h) and h in g.reachable(n) for h in heads
             for n in up)
    ctx.ob(r, 'all including documents', ok, ctx.where(tr.f),
           'the including documents are followed up to the root')
    # a subdocument created: own parent, one deeper
    f = ctx.fn('Document.load_subdocuments')


def dates(ctx, r):
    tr = TraceRule(ctx, r, 'Document._update_mtime')
    S1 = r"document\.context\['mtime'\] = mtime"
    DMT = r"document(\.mtime|\.context\.get\('mtime'.*\))"
    ev = [('put', 'store', S1), ('bad', 'store', r'.*mtime.*'),
          ('it', 'iter', r'document\.subdocuments(\.(values|items)\(\))?'),
          ('rec', 'call', r'(\w+\.)?_update_mtime\((?=.*document=document\.'
           r'subdocuments\[elem\(document\.subdocuments\)\])(?=.*mtime='
           r'mtime[,)]).*\)'),
          ('badrec', 'call', r'(\w+\.)?_update_mtime\(.*')]
    base = [('mtime is None', False), (DMT + ' is None', False)]
    tr.expect('older', base + [(DMT + ' < mtime', True),
                               (r'mtime < ' + DMT, False)], ev,
              must=('put',), never=('bad', 'badrec'), msg='the date is set')
    tr.expect('newer', base + [(DMT + ' < mtime', False)], ev,
              never=('put', 'bad', 'badrec'), msg='the date is kept')
    tr.expect('below', base, ev, must=('rec',), it='it',
              msg='all documents below are updated')
    tr.expect('start', [('mtime is None', True)], [
        ('rec', 'call', r'(\w+\.)?_update_mtime\((?=.*document=document\.'
         r'subdocuments\[elem\(document\.subdocuments\)\])(?=.*mtime='
         r'%s[,)]).*\)' % DMT),
        ('it', 'iter', r'document\.subdocuments(\.(values|items)\(\))?')],
        must=('rec',), it='it', msg='starting from the own date')


class NoEnv:
    """Evaluation of terms by their definitions"""

    def __init__(self, g, n):
        self.g, self.n = g, n

    def ev(self, t):
        return self.g.expand(t, self.n)


def reach_text(g, n):
    """Text of all conditions and membership tests that can decide whether n
    is reached"""
    back = {m for m in g.nodes if m.pred and n in g.reachable(m)}
    return ' ; '.join(S(g.expand(m.term, m)) for m in back
                      if m.term is not None and m.kind in (
                          'test', 'asg', 'call', 'yield', 'iter'))
