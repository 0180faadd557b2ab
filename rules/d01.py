"""D01: documents are loaded when they changed, completely"""
from . import d02, s01
from .common import *

ASSUMPTIONS = ['File modification times tell whether a file was changed']

MT = r"(self\.mtime|self\.context\.get\('mtime'(, None)?\)|" \
     r"self\.context\['mtime'\])"
SRC = r'self\.src_filepath\.stat\(\)\.st_mtime'
PC = r'self\.context\.parent_context'
PMT = r"self\.context\.parent_context(\.get\('mtime'(, None)?\)|" \
      r"\['mtime'\])"
BODY = r"self\.context(\.get\(settings\.body_attr(, None)?\)|" \
       r"\[settings\.body_attr\])"
FLAG = r'self\._succesfully_loaded'
NEVERLOADED = [(FLAG, False)]
LOADED = [(FLAG, True)]


def less(a, b, v):
    return [(r'%s < %s' % (a, b), v), (r'%s < %s' % (b, a), False) if v
            else ('(?!)', False)]


def run(ctx):
    repo = ctx.repo
    r = 'D01.required'
    ctx.rule(r, 'Loading is required if the last load did not succeed, the '
             'body is missing, the source file is newer than the load, or '
             'the parent is newer; otherwise not')
    tr = TraceRule(ctx, r, 'Document.load_required')
    body = [(BODY + ' is None', False), (BODY, True),
            (r'settings\.body_attr in self\.context', True)]
    nobody = [(BODY + ' is None', True), (BODY, False)]
    known = [(MT + ' is None', False), (PC + ' is None', False),
             (PMT + ' is None', False)]
    same = [(MT + ' < ' + SRC, False)]
    newer = [(MT + ' < ' + SRC, True)]
    psame = [(MT + ' < ' + PMT, False)]
    pnewer = [(MT + ' < ' + PMT, True)]
    for case, fs, want in (
            ('not loaded', NEVERLOADED, True),
            ('no body', LOADED + nobody, True),
            ('never dated', LOADED + body + [(MT + ' is None', True)], True),
            ('newer source', LOADED + body + known + newer, True),
            ('newer parent', LOADED + body + known + same + pnewer, True),
            ('unchanged', LOADED + body + known + same + psame, False),
            ('unchanged, no parent', LOADED + body + [
                (MT + ' is None', False), (PC + ' is None', True)] + same,
             False),
            ('unchanged, parent without date', LOADED + body + [
                (MT + ' is None', False), (PC + ' is None', False),
                (PMT + ' is None', True)] + same, False)):
        tr.expect(case, fs, [], truth=want, msg='load required is %s' % want)

    r = 'D01.load'
    ctx.rule(r, 'A load checks the source file first, is marked as failed '
             'until all stages are done, then loads the subdocuments; the '
             'tree is announced once if something was loaded')
    loading(ctx, r)

    r = 'D01.first'
    ctx.rule(r, 'A document is loaded when it is created, and before it is '
             'checked or built')
    from . import b02
    b02.loaded(ctx, r)
    tr = TraceRule(ctx, r, 'Document.__init__')
    tr.expect('creation', [], [
        ('ctx', 'store', r'self\.context = .*'),
        ('src', 'store', r'self\.src_filepath = .*'),
        ('load', 'call', r'self\.load\(level=level\)'),
        ('bad', 'call', r'self\.load\(.*\)'),
        ('created', 'call', r'signals\.document_created\.emit\(document=self'
         r'\)')],
        must=('ctx', 'src', 'load', 'created'), never=('bad',),
        order=(('src', 'ctx'), ('ctx', 'load'), ('load', 'created')),
        exactly={'load': 1, 'created': 1}, msg='the document is loaded')
    SP = r'isinstance\(src_filepath, SourcePath\)'
    tr.expect('given source path', [(SP, True)], [
        ('ok', 'store', r'self\.src_filepath = src_filepath'),
        ('bad', 'store', r'self\.src_filepath = .*')], must=('ok',),
        never=('bad',), msg='the path is kept')
    tr.expect('plain path', [(SP, False)], [
        ('ok', 'store', r'self\.src_filepath = SourcePath\(project_root='
         r'environment\.project_root, subpath=.*\.relative_to\(environment'
         r'\.project_root\)\)'),
        ('bad', 'store', r'self\.src_filepath = .*')], must=('ok',),
        never=('bad',), msg='the path is relative to the project')
    for m, sig in (('build_needed', 'document_build_needed'),
                   ('build', 'document_build')):
        tr = TraceRule(ctx, r, 'Document.' + m)
        tr.expect(m, [], [
            ('load', 'call', r'self\.load\(\)'),
            ('emit', 'call', r'signals\.%s\.emit\((?=.*document=self)%s.*\)'
             % (sig, '(?=.*complete=complete)' if m == 'build' else ''))],
            must=('load', 'emit'), order=(('load', 'emit'),),
            msg='the document is loaded first')

    r = 'D01.reset'
    ctx.rule(r, 'A load starts from a reset context, with the date of the '
             'source file taken before its text is read')
    tr = TraceRule(ctx, r, 'reset_document')
    DC = r'document\.context'
    tr.expect('reset', [(DC, True), (DC + ' is None', False)], [
        ('reset', 'call', DC + r'\.reset\(\)')], must=('reset',),
        msg='the context is reset')
    tr = TraceRule(ctx, r, 'load_document')
    tr.expect('text', [], [
        ('put', 'store', r'document\.context\[settings\.body_attr\] = '
         r'document\.src_filepath\.read_text\(.*\)'),
        ('bad', 'store', '.*')], must=('put',), never=('bad',),
        msg='the text of the source becomes the body')
    own_entries(ctx, r)

    r = 'D01.entries'
    ctx.rule(r, 'Only text entries that are listed become tags, with the '
             'name of the entry, in the context of the document')
    tr = TraceRule(ctx, r, 'process_tags')
    KEYS = r'.*'
    e = r"elem\(.*process_context_tags.*\)"
    C = r"context\[%s\]" % e
    ev = [('it', 'iter', r'.*process_context_tags.*'),
          ('make', 'call', r"TagFactory\.tag\((?=.*context=context[,)])(?=.*"
           r"tag_attributes='')(?=.*tag_content=%s[,)])(?=.*tag_name=%s"
           r"[,)]).*\)" % (C, e)),
          ('bad', 'call', r'TagFactory\.tag\(.*'),
          ('put', 'store', r"%s = TagFactory\.tag\(.*\)" % C),
          ('bad', 'store', '.*')]
    tr.expect('text', [(r'isinstance\(context\[.*\], str\)', True),
                       (r'elem\(.*\) in context', True)], ev,
              must=('make', 'put'), never=('bad',), it='it',
              msg='text becomes a tag')
    tr.expect('other', [(r'isinstance\(context\[.*\], str\)', False)], ev,
              never=('make', 'put', 'bad'), it='it',
              msg='other entries are kept')
    its = [n for n in tr.g.nodes if n.kind == 'iter' and n.pred]
    ctx.ob(r, 'entries', any(re.search(
        r"intersection\(.*process_context_tags|& .*process_context_tags|"
        r"process_context_tags.*&", S(tr.g.expand(n.term, n))) or
        'process_context_tags' in S(tr.g.expand(n.term, n))
        for n in its), ctx.where(tr.f), 'the listed entries are processed')

    s01.ordered(ctx, r, 'document_onload')

    r = 'D01.below'
    ctx.rule(r, 'The documents that are included are loaded with the document '
             'that includes them, and are not loaded again without a change')
    d02.includes(ctx, r)
    d02.dates(ctx, r)

    r = 'D01.label'
    ctx.rule(r, 'Every document gets a label with its name, title and level')
    tr = TraceRule(ctx, r, 'process_document_label')
    LV = r"context\.get\('level', 1\)"
    tr.expect('label', [], [
        ('add', 'call', r"context\['label_manager'\]\.add_document_label\("
         r"(?=.*context=context[,)])(?=.*id=\(?.*'doc:'.*slugify\(.*subpath"
         r".*\))(?=.*kind=tuple\('document', .*document-level-.*level.*\))"
         r"(?=.*title=context\['document'\]\(\)\.short[,)]).*\)"),
        ('bad', 'call', r'.*\.add_\w*label\(.*')],
        must=('add',), never=('bad',), exactly={'add': 1},
        msg='the label of the document is added')


def loading(ctx, r):
    repo = ctx.repo
    tr = TraceRule(ctx, r, 'Document.load')
    ISF = r'self\.src_filepath\.(is_file|exists)\(\)'
    SIZE = r'settings\.document_max_size < self\.src_filepath\.stat\(\)' \
           r'\.st_size'
    ev = [('req', 'call', r'self\.load_required\(\)'),
          ('clear', 'store', FLAG + ' = False'),
          ('set', 'store', FLAG + ' = True'),
          ('bad', 'store', r'self\..*'),
          ('bad', 'call', r'self\.context\.(reset|clear|update|'
           r'match_update|load)\(.*'),
          ('onload', 'call', r'signals\.document_onload\.emit\((?=.*context='
           r'self\.context[,)])(?=.*document=self[,)]).*\)'),
          ('bad', 'call', r'.*document_onload\.emit\(.*'),
          ('subs', 'call', r'self\.load_subdocuments\(level=\(level \+ 1\)'
           r'\)'),
          ('bad', 'call', r'self\.load_subdocuments\(.*'),
          ('tree', 'call', r'signals\.document_tree_updated\.emit\('
           r'root_document=self\.context\.root_document\)'),
          ('bad', 'call', r'.*document_tree_updated\.emit\(.*')]
    ok = [(ISF, True), (SIZE, False)]
    do = [(r'self\.load_required\(\)', True)]
    no = [(r'self\.load_required\(\)', False)]
    tr.expect('no source', [(ISF, False)], ev, error='DocumentException',
              never=('clear', 'set', 'onload', 'subs', 'tree', 'bad'),
              msg='a missing source is an error')
    for fs in (do, no + [('reload', True)]):
        tr.expect('too large', [(ISF, True), (SIZE, True)] + fs, ev,
                  error='DocumentException',
                  never=('set', 'onload', 'subs', 'tree', 'bad'),
                  msg='a source that is too large is an error')
        tr.expect('loading' if fs is do else 'reloading', ok + fs, ev,
                  must=('clear', 'onload', 'set', 'subs'), never=('bad',),
                  order=(('clear', 'onload'), ('onload', 'set'),
                         ('onload', 'subs')),
                  exactly={'onload': 1, 'subs': 1},
                  msg='all stages run between clearing and setting the mark')
        # an error in a stage leaves the mark cleared
        out = tr.run(ev, ok + fs, exc=True)
        tr.check('failing', [t for t in out if t.kind == 'raise' or
                             True], lambda t: t.kind != 'raise' or
                 not t.has('set') or t.has('subs') or
                 seq(t).index('onload') < seq(t).index('set')
                 if t.has('onload') else not t.has('set'),
                 'a failed load is not marked as done')
    tr.expect('not loading', [(ISF, True), ('reload', False)] + no, ev,
              must=('subs',), never=('clear', 'set', 'onload', 'bad'),
              msg='an unchanged document is kept')
    SUBS = r'.*self\.load_subdocuments\(level=\(level \+ 1\)\).*'
    for case, fs, top, want in (
            ('loaded', ok + do, True, True),
            ('below the root', ok + do, False, False),
            ('subdocument loaded', [(ISF, True), ('reload', False),
                                    (SUBS, True)] + no, True, True),
            ('nothing loaded', [(ISF, True), ('reload', False),
                                (SUBS, False)] + no, True, False)):
        lv = [('level == 1', top), ('1 < level', not top),
              ('level < 2', top), ('level < 1', False)]
        out = tr.run(ev, fs + lv)
        if case == 'loaded':
            # True | x is true
            out = [t for t in out if not (
                t.kind == 'return' and t.truth is False)]
        tr.check('tree updates, ' + case, out, lambda t: (
            t.has('tree')) is want and not t.has('bad') and (
            not want or seq(t).index('subs') < seq(t).index('tree')),
            'the tree update is %sannounced' % ('' if want else 'not '))
    for case, fs in (('loaded', ok + do), ('kept', [
            (ISF, True), ('reload', False)] + no)):
        tr.check('result when ' + case, [t for t in tr.run(ev, fs)],
                 lambda t: re.search(r'load_subdocuments', S(t.value)) and
                 (case == 'kept' or 'True' in S(t.value)) or
                 case == 'loaded' and S(t.value) == 'True' or
                 t.truth is not None,
                 'the result tells what was loaded', kinds=('return',))
    f = ctx.fn('Document.load')
    for p, want in (('reload', False), ('level', 1)):
        d = f.default_of(p)
        ctx.ob(r, 'default of ' + p, d is not None and
               repo.eval_const(f.module, d) == want, ctx.where(f), 'default')
    ctx.ob(r, 'initially not loaded', repo.class_const(
        ctx.cls('Document'), '_succesfully_loaded') is False,
        ctx.where(ctx.cls('Document')), 'documents start as not loaded')
    for m in ctx.repo.functions:
        if m.parent is not None:
            continue
        for n in ctx.graph(m).nodes:
            if n.kind == 'store' and n.pred and n.target[0] == 'attr' and \
                    n.target[2] == '_succesfully_loaded' and \
                    m.short in ctx.known:
                ctx.ob(r, m.short + ' sets the mark', m.short ==
                       'document.document.Document.load' or
                       S(n.term) == 'False', ctx.where(n),
                       'only a load sets the mark')


def own_entries(ctx, r):
    """The entries of a document that are set after a reset"""
    tr = TraceRule(ctx, r, 'DocumentContext.reset')
    D = r"self(\['document'\]\(\)|\.document)"
    SF = r"(%s\.src_filepath|self\['src_filepath'\])" % D
    G = r"self(\.get\('%s'(, None)?\)|\['%s'\])"
    ev = [('super', 'call', r'super\(.*\)\.reset\(\)'),
          ('src', 'store', r"self\['src_filepath'\] = %s" % SF),
          ('mtime', 'store', r"self\['mtime'\] = %s\.stat\(\)\.st_mtime"
           % SF),
          ('newid', 'store', r"self\['doc_id'\] = (str\()?%s\.doc_id\)?"
           % D),
          ('keepid', 'store', r"self\['doc_id'\] = str\(self.*doc_id.*\)"),
          ('root', 'store', r"self\['root_document'\] = weakref\.ref\(%s\)"
           % D),
          ('isroot', 'store', r"self\['is_root_document'\] = True"),
          ('noroot', 'store', r"self\['is_root_document'\] = False"),
          ('lm', 'store', r"self\['label_manager'\] = LabelManager\("
           r"root_context=self\)"),
          ('level', 'store', r"self\['level'\] = \(self(\.get\('level', 0\)|"
           r"\['level'\]) \+ 1\)"),
          ('clear', 'call', r".*paths.*\.clear\(\)"),
          ('local', 'collect', r'SourcePath\(project_root=%s\.project_root, '
           r'subpath=%s\.subpath\.parent\)' % (SF, SF)),
          ('proot', 'collect', r"self\['project_root'\]"),
          ('bad', 'store', r"self\['(src_filepath|mtime|doc_id|root_document|"
           r"is_root_document|label_manager|level)'\].*"),
          ('badp', 'collect', '.*')]
    first = [(G % ('root_document', 'root_document') + ' is None', True),
             (r"'root_document' in self", False)]
    later = [(G % ('root_document', 'root_document') + ' is None', False),
             (r"'root_document' in self", True)]
    haslm = [(G % ('label_manager', 'label_manager') + ' is None', False),
             (r"'label_manager' in self", True)]
    nolm = [(G % ('label_manager', 'label_manager') + ' is None', True),
            (r"'label_manager' in self", False)]
    ex = [(SF + r'\.(exists|is_file)\(\)', True), (r'.*SourcePath.* in .*',
                                                  False),
          (r"self\['project_root'\] in .*", False)]
    ident = [(G % ('doc_id', 'doc_id') + ' is None', True)]
    tr.expect('root', first + nolm + ex + ident, ev,
              must=('super', 'src', 'mtime', 'newid', 'root', 'isroot', 'lm',
                    'level', 'clear', 'local', 'proot'),
              never=('bad', 'badp', 'noroot', 'keepid'),
              order=tuple(('super', x) for x in (
                  'src', 'mtime', 'newid', 'root', 'lm', 'level', 'clear'))
              + (('clear', 'local'), ('local', 'proot')),
              msg='entries of the root document')
    tr.expect('subdocument', later + haslm + ex + ident, ev,
              must=('super', 'src', 'mtime', 'newid', 'noroot', 'level',
                    'clear', 'local', 'proot'),
              never=('bad', 'badp', 'root', 'isroot', 'lm', 'keepid'),
              order=(('super', 'level'), ('super', 'mtime')),
              msg='entries of a subdocument')
    tr.expect('given id', later + haslm + ex + [
        (G % ('doc_id', 'doc_id') + ' is None', False)], ev,
        never=('newid', 'bad'), msg='the given id is kept')
