"""B03: everything a build depends on is among the inputs its decision is
made from"""
import ast
import string

from .common import *
from . import base

ASSUMPTIONS = [
    'jinja2.meta.find_referenced_templates finds the templates named in a '
    'template',
    'The entries of a context are those of the headers and the tags']

TAGS = r'builder\.context(\[elem\(builder\.context\)\]|\.values\(\))'


def signalled(ctx, r):
    """what receivers of the signals of a builder add"""
    tr = TraceRule(ctx, r, 'Builder.get_parameters_from_signals')
    for one in (True, False):
        names = r'self\.parameters_from_signals'
        ev = [('add', 'aug', r'.*\+= (list\()?flatten\(lst=signal\(elem\((list\('
               r'|tuple\()?.*parameters_from_signals.*\)\)\.emit\(builder=self\)\)+'),
              ('skip', 'aug', r'.*'),
              ('loop', 'iter', r'.*parameters_from_signals.*'),
              ('one', 'store', r'%s = (list|tuple)\(%s\)' % (names, names))]
        tr.expect('signals are asked, %s name' % ('one' if one else 'more'),
                  [(r'isinstance\(%s, str\)' % names, one),
                   (r'isinstance\((list\()?%s\)?, \(?(list|tuple|list, tuple)\)?\)'
                    % names, True), (r'(%s|.*) is None' % names, False)],
                  ev, must=('add', 'loop') + (('one',) if one else ()),
                  never=('skip',) + (() if one else ('one',)),
                  ret=r'(?!.*slice\()(list\()?(sorted\()?\(?(unk\(aug\)|list\(\) \+ .*).*',
                  it='loop')


def builders(ctx):
    repo = ctx.repo
    r = 'B03.parameters'
    ctx.rule(r, 'The inputs of a build are its own parameters, the files '
             'found in them, and what the receivers of its signals add; '
             'none are left out')
    tr = TraceRule(ctx, r, 'Builder.parameters')
    tr.expect('all', [], [], ret=r'uniq\(lst=\(list\((self\._parameters|'
              r'getattr\(self, \'_parameters\', list\(\)\))\) \+ '
              r'self\.get_parameters_from_signals\(\)\)\)')
    signalled(ctx, r)
    tr = TraceRule(ctx, r, 'Builder.scan_parameters')
    tr.expect('files found are added', [], [
        ('scan', 'call', r'self\.env\.scanner\.scan\(.*parameters=self\.'
         r'_?parameters\)'),
        ('put', 'store', r'self\._?parameters = uniq\(lst=\(self\._?parameters'
         r' \+ self\.env\.scanner\.scan\(.*\)+'),
        ('put', 'store', r'self\._?parameters = .*scanner\.scan.*'),
        ('bad', 'store', r'self\._?parameters = .*')],
        must=('scan', 'put'), never=('bad',))
    tr = TraceRule(ctx, r, 'Builder.__init__')
    for given in ('list', 'one', 'none'):
        for scan in (True, False):
            fs = [(r'parameters is None', given == 'none'),
                  (r'isinstance\((list\(\)|parameters), .*', given != 'one'),
                  (r'self\.scan_parameters_on_init', scan),
                  (r'target is None|isinstance\(target, str\)', True),
                  (r'use_(cache|media) is None', True),
                  (r'isinstance\(outfilepath, .*', True)]
            src = {'list': r'(list\(parameters\)|parameters\.copy\(\)|parameters'
                   r'\[None:None(:None)?\])', 'one': r'list\(parameters\)',
                   'none': r'(list\(\)|list\(list\(\)\))'}[given]
            tr.expect('parameters kept, %s, scan %s' % (given, scan), fs, [
                ('keep', 'store', r'self\._?parameters = ' + src),
                ('bad', 'store', r'self\._?parameters = .*'),
                ('scan', 'call', r'self\.scan_parameters\(\)')],
                must=('keep',) + (('scan',) if scan else ()),
                never=('bad',) + (() if scan else ('scan',)),
                order=[('keep', 'scan')])

    r = 'B03.render'
    ctx.rule(r, 'A rendered file depends on its templates with all they '
             'refer to, their context files, the files in the page, the '
             'headers of the document and of its parents, the contents of '
             'its tags, and the labels it shows')
    tr = TraceRule(ctx, r, 'JinjaRender.parameters')
    AUG = [('own', 'aug', r'.*\+= template_filepaths\(.*template=self\.'
            r'template\(\)\)'),
           ('ctx', 'aug', r'.*\+= context_filepaths\(template_filepaths='
            r'template_filepaths\(.*\)\)'),
           ('scan', 'aug', r'.*\+= self\.env\.scanner\.scan\(.*parameters='
            r'(unk\(aug\)|.*context_filepaths.*)\)'),
           ('hash', 'aug', r'.*\+= (sorted|list)\(comp\(\w+, self\.context\['
            r'elem\(self\.context\)\]\.hash, .*'),
           ('nohash', 'aug', r'.*\+= (sorted|list)\(comp\(.*'),
           ('sig', 'aug', r'.*\+= self\.get_parameters_from_signals\(\)'),
           ('other', 'aug', '.*')]
    for has in (True, False):
        tr.expect('with a context, hash %s' % has,
                  [(r'self\._parameters', True),
                   (r'self\.context is None', False),
                   (r'hasattr\(.*, \'hash\'\)', True),
                   (r'.*\.hash is None', not has)],
                  AUG + [('each', 'iter', r'self\.context\.values\(\)')],
                  must=('own', 'ctx', 'scan', 'sig',
                        'hash' if has else 'nohash'), never=('other',),
                  order=[('own', 'scan'), ('ctx', 'scan')], it='each',
                  ret=r'uniq\(lst=.*')
    for n in tr.g.calls():
        if n.pred and tr.g.cname(n) == 'scan':
            v = S(tr.g.expand(n.term, n))
            v = v.replace('context_filepaths(template_filepaths='
                          'template_filepaths(', 'context_filepaths(')
            ctx.ob(r, tr.name + ': scanned', re.search(
                r'(?<!context_filepaths\()\btemplate_filepaths\(', v)
                is not None or 'unk(' in v, ctx.where(n),
                'the templates and their context files are scanned')
    tr.expect('without a context', [(r'self\._parameters', True),
                                    (r'self\.context is None', True)],
              AUG, ret=r'uniq\(lst=\(list\(self\._parameters\) \+ self\.'
              r'get_parameters_from_signals\(\)\)\)')
    r_inputs(ctx, r, TraceRule(ctx, r, 'JinjaRender.build_inputs'))

    tr = TraceRule(ctx, r, 'builders.jinja_render:template_filepaths')
    src = r'environment\.loader\.get_source\(environment, template\.name\)'
    ref = r'jinja2\.meta\.find_referenced_templates\(environment\.parse\(.*' \
          r'get_source\(environment, template\.name\).*'
    tr.expect('a template and those it refers to', [], [
        ('own', 'collect', r'SourcePath\(project_root=pathlib\.Path\(template\.'
         r'filename\)\.parent, subpath=pathlib\.Path\(template\.filename\)'
         r'\.name\)'),
        ('refs', 'call', ref),
        ('each', 'iter', r'(?!comp).*find_referenced_templates.*'),
        ('rest', 'aug', r'.*\+= template_filepaths\(environment=environment, '
         r'template=environment\.get_template\(elem\(.*'),
        ('other', 'aug', r'.*'), ('other', 'collect', r'(?!environment\.'
                                  r'get_template).*')],
        must=('own', 'refs', 'rest'), never=('other',), it='each',
        ret=r'\((list\(\)|unk\(aug\)) \+ template_filepaths.*|unk\(aug\)')
    for n in tr.g.nodes:
        if n.pred and n.term is not None and n.kind == 'iter':
            ctx.ob(r, tr.name + ': all', 'slice(' not in S(
                tr.g.expand(n.term, n)) and '[0]' not in S(
                    tr.g.expand(n.term, n)), ctx.where(n),
                'none of the templates is left out')
    tr = TraceRule(ctx, r, 'builders.jinja_render:context_filepaths')
    for has in (True, False):
        p = r'SourcePath\(project_root=elem\(template_filepaths\)\.parent\.' \
            r'parent, subpath=settings\.template_context_filename\)'
        tr.expect('the context files of the templates, present %s' % has,
                  [(p + r'\.is_file\(\)', has), (p + r' in .*', False)],
                  [('each', 'iter', r'template_filepaths'),
                   ('put', 'collect', p), ('bad', 'collect', '.*')],
                  must=('put',) if has else (),
                  never=('bad',) if has else ('put', 'bad'), it='each',
                  ret=r'(?!None).*')


def r_inputs(ctx, r, tr):
    T = r'self\.context\[elem\(self\.context\)\]'
    P = r'(self\.context\.parent_context|getattr\(self\.context, ' \
        r'\'parent_context\', None\))'
    up = [(P + ' is None', True), (r'self\.context is None', False),
          (r'.*src_filepath.* is None', False), (r'.*\.is_file\(\)', True)]
    ev = [('sup', 'enter', r'super\(.*\)\.build_inputs\(\)'),
          ('flat', 'call', T + r'\.flatten\(filter_tags=True\)'),
          ('tags', 'collect', r'elem\(%s\.flatten\(filter_tags=True\)\)\.hash'
           % T),
          ('add', 'aug', r'.*\+= comp\(\w+, (elem\(%s|.*\.hash).*' % T),
          ('emit', 'call', r'signal\((name=)?self\.inputs_from_signals\)\.emit'
           r'\(builder=self\)'),
          ('addsig', 'aug', r'.*\+= (list\()?flatten\(lst=signal\((name=)?self\.'
           r'inputs_from_signals\)\.emit\(builder=self\)\)+'),
          ('src', 'collect', r'self\.context\.get\(\'src_filepath\'(, None)?'
           r'\)'),
          ('up', 'collect', P + r'\.get\(\'src_filepath\'(, None)?\)'),
          ('in', 'iter', T + r'\.flatten\(filter_tags=True\)'),
          ('other', 'collect', '.*')]
    own = [(r'isinstance\(self\.parameters, .*', True)]
    for sig in (True, False):
        tr.expect('hashes of tags, labels %s' % sig, up + own + [
            (r'isinstance\(%s, Tag\)' % T, True), (r'.*\.hash is None', False),
            (r'self\.inputs_from_signals is None', not sig)], ev,
            must=('flat', 'tags', 'add') + (('emit', 'addsig') if sig
                                            else ()), it='in',
            ret=r'(?!None).*')
    rest = [(r'isinstance\(%s, Tag\)' % T, False),
            (r'self\.inputs_from_signals is None', True)]
    tr.expect('source file', up + rest, ev, must=('src',), never=('tags',))
    tr.expect('source files of parents', [(P + ' is None', False)] + up[1:] +
              [(r'.*parent_context.*parent_context.* is None', True)] + rest,
              ev, must=('up',))
    tr.expect('no context', [(r'self\.context is None', True)], ev,
              never=('src', 'up', 'tags'))


def receivers(ctx):
    r = 'B03.labels'
    ctx.rule(r, 'The labels a page refers to, lists, owns and links to, and '
             'the files of its images, are given as inputs')
    V = r'builder\.context\[elem\(builder\.context\)\]'
    flat = r'elem\((%s|elem\(comp\(\w+, %s, .*)\.flatten\(filter_tags=True\)\)' \
        % (V, V)

    def per_tag(spec, kind, value, name):
        tr = TraceRule(ctx, r, spec)
        for tag in (True, False):
            for hit in ((True, False) if tag else (True,)):
                fs = [(r'isinstance\(%s, Tag\)' % V, tag),
                      (r'isinstance\(.*, %s\)' % kind, hit),
                      (r'builder\.context\.get\(\'label_manager\'.*\) is None',
                       False), (r'set\(\)|.*content_as_filepath\(\)', True),
                      (r'.* is None', False)]
                out = tr.run([
                    ('flat', 'call', r'(%s|elem\(comp.*)\.flatten\(filter_tags='
                     r'True\)' % V),
                    ('badflat', 'call', r'.*\.flatten\((?!filter_tags=True\))[^()]*\)'),
                    ('look', 'iter', r'.*\.flatten\(filter_tags=True\)'),
                    ('vals', 'iter', r'(list\()?builder\.context(\.values\(\)|'
                     r'\.items\(\))?'),
                    ('put', 'collect', value), ('put', 'aug', value),
                    ('put', 'call', value),
                    ('is', 'call', r'isinstance\(.*flatten\(.*, %s\)'
                     % kind)], fs)
                if not tag:
                    tr.check('only the tags of the context', out,
                             lambda t: not t.some('flat', 'put'),
                             'other entries are skipped', kinds=('return',))
                elif hit:
                    tr.check('all %s tags' % kind, [
                        t for t in out if t.has('is') or t.has('put')],
                        lambda t: t.has('flat', 'put', 'vals')
                        and not t.has('badflat'), name + ' added',
                        kinds=('return',))
                else:
                    tr.check('other tags', out, lambda t: not t.has('put'),
                             'nothing is added for other tags',
                             kinds=('return',))
        return tr
    tr = per_tag('tags.ref:add_ref_labels', 'Ref', r'elem\(.*\)\.label_id',
                 'the label ids of references are')
    LM = r'builder\.context\.get\(\'label_manager\'(, None)?\)'
    tr.expect('the labels are found', [
        (LM + r' is None|builder\.context\.get\(\'label_manager\'.* is None',
         False), (r'set\(.*\)', True)], [
        ('get', 'call', LM + r'\.get_labels_by_id\(ids=(?!.*label_id).*\)'),
        ('get', 'enter', LM + r'\.get_labels_by_id\(.*'),
        ('in', 'collect', r'.*\.label_id'),
        ('upd', 'call', r'.*\.(update|add)\(.*label_id.*'),
        ('upd', 'aug', r'.*label_id.*'), ('upd', 'call', r'.*get_labels_by_id'
        r'\(ids=.*label_id.*')], must=('get',), each=lambda t: not
        t.has('in') or t.has('upd'),
        ret=r'(sorted|list)\(%s\.get_labels_by_id\(ids=.*' % LM + '|' + LM +
        r'\.get_labels_by_id.*')
    per_tag('tags.toc:add_toc_labels', 'Toc',
            r'.*\+= elem\(.*flatten\(filter_tags=True\)\)\.get_labels\(\)|'
            r'.*\.extend\(elem\(.*flatten\(filter_tags=True\)\)\.get_labels'
            r'\(\)\)|elem\(elem\(.*flatten\(filter_tags=True\)\)\.'
            r'get_labels\(\)\)', 'the labels listed are')
    per_tag('tags.img:add_image_files', 'Img',
            r'elem\(.*flatten\(filter_tags=True\)\)\.content_as_filepath\(\)',
            'the image files are')
    for spec, what in (('tags.img:add_image_files', 'files'),
                       ('tags.navigation:add_navigation_labels', 'labels')):
        tr = TraceRule(ctx, r, spec)
        ctx.ob(r, '%s: none' % tr.name, any(
            n.kind == 'test' and re.search(r'is (not )?None', S(
                tr.g.expand(n.term, n))) for n in tr.g.nodes if n.pred) or
            any('filter' in S(tr.g.expand(n.term, n)) for n in tr.g.calls()
                if n.pred and n.term), ctx.where(tr.f),
            'missing %s are left out' % what)
    tr = TraceRule(ctx, r, 'tags.ref:add_document_labels')
    labs = LM + r'\.get_labels_by_kind\((kinds=None, )?doc_id=builder\.' \
        r'context\.get\(\'doc_id\'(, None)?\)\)'
    for own in (True, False):
        tr.expect('labels of the document, heading of the document %s' % own, [
            (LM + ' is None', False),
            (r'builder\.context\.get\(\'doc_id\'.* is None', False),
            (r'isinstance\(elem\(.*\), DocumentLabel\)', own)], [
            ('look', 'iter', labs), ('put', 'collect', r'elem\(%s\)' % labs)],
            never=('put',) if own else (), must=('look',) if own else (
                'look', 'put'), it='look')
    tr = TraceRule(ctx, r, 'tags.navigation:add_navigation_labels')
    for pre in (True, False):
        tr.expect('labels of the pages around, %s' % pre, [
            (r'isinstance\(elem\(builder\.context\), str\)', True),
            (r'elem\(builder\.context\)\.startswith\(.*', pre),
            (r'isinstance\(%s, weakref\.ref.*\)' % V, True),
            (r'%s\(\) is None' % V, False)], [
            ('look', 'iter', r'builder\.context(\.items\(\))?'),
            ('pre', 'call', r'elem\(builder\.context\)\.startswith\((tuple\()?'
             r'\'(prev|next)_\', \'(prev|next)_\'\)+'),
            ('put', 'collect', V + r'\(\)')],
            must=('look', 'pre') + (('put',) if pre else ()),
            never=() if pre else ('put',), it='look')
    # the text of labels
    r = 'B03.label-text'
    ctx.rule(r, 'The text a label has as an input tells apart labels whose '
             'ids, kinds, numbers or titles differ')
    tr = TraceRule(ctx, r, 'Label.__repr__')
    for pair in (True, False):
        tr.expect('text, numbered %s' % pair, [
            (r'isinstance\(self\.(kind|order), .*', pair),
            (r'isinstance\(elem\(.*', pair), (r'params', True)], [
            ('id', 'call', r'.*\.format\(.*self\.doc_id, self\.id.*'),
            ('num', 'iter', r'zip\(self\.kind, self\.order\)'),
            ('par', 'iter', r'(sorted\()?params(\.items\(\))?\)?')],
            must=('id', 'par') + (('num',) if pair else ()),
            never=() if pair else ('num',), ret=r'(?!None).*')
    shown = ' '.join(S(tr.g.expand(n.term, n)) for n in tr.g.nodes
                     if n.term and n.pred)
    for attr in ('id', 'kind', 'order'):
        ctx.ob(r, 'Label.__repr__: ' + attr, re.search(
            r'self\.%s\b' % attr, shown) is not None, ctx.where(tr.f),
            'the %s of a label is part of its text' % attr)
    for c in ('ContentLabel', 'DocumentLabel'):
        o, f = ctx.repo.lookup(ctx.cls(c), '__repr__')
        if o is None or not hasattr(f, 'node'):
            ctx.ob(r, c, False, '-', '%s has a text' % c)
            continue
        tr = TraceRule(ctx, r, f)
        tr.expect('%s: title' % c, [(r'self\.title is None', False)], [],
                  ret=r'.*self\.title.*')


def hashes(ctx):
    r = 'B03.content'
    ctx.rule(r, 'The hash of a tag is computed from all of its content, '
             'before it is processed, and from the contents of files it '
             'reads')
    tr = TraceRule(ctx, r, 'tags.receivers.hash:process_hash')
    tr.expect('text', [(r'isinstance\(tag\.content, str\)', True)], [
        ('set', 'store', r'tag\.hash = hashtxt\((text=)?tag\.content\)'),
        ('bad', 'store', '.*')], must=('set',), never=('bad',))
    tr = TraceRule(ctx, r, 'Code.__init__')
    out = tr.run([('set', 'store', r'self\.hash = hashtxt\((text=)?(?!content).*'
                   r'\)'), ('bad', 'store', r'self\.hash = .*'),
                  ('read', 'call', r'.*read_text\(.*')], [])
    tr.check('code read from files', [t for t in out if t.has('read')],
             lambda t: t.has('set') and not t.has('bad'),
             'the hash is that of the text of the files', kinds=('return',))
    tr = TraceRule(ctx, r, 'Data.__init__')
    tr.expect('data loaded', [], [
        ('load', 'call', r'self\.load\(.*|.*read_.*'),
        ('set', 'store', r'self\.hash = hashtxt\((text=)?(repr|str)\(self\.'
         r'_?data\)\)'), ('bad', 'store', r'self\.hash = .*')],
        must=('set',), never=('bad',), order=[('load', 'set')])


def scanner(ctx):
    r = 'B03.scan'
    ctx.rule(r, 'The files used by a page are found in every file given, by '
             'the scanner for its type, and must exist')
    tr = TraceRule(ctx, r, 'Scanner.scan')
    P = r'elem\((parameters|list\(parameters\))\)'
    many = [(r'isinstance\(parameters, .*', True)]
    here = [(r'isinstance\(%s, .*\)' % P, True)]
    ev = [('other', 'aug', r'.*\+= (list\()?cls\.get_scanner\(extension=%s\.'
           r'suffix\)\.scan\(parameters=%s, raise_error=raise_error\)\)?'
           % (P, P)),
          ('bad', 'aug', '.*'),
          ('read', 'call', r'cls\.scan_function\(content=%s\.read_text\(\)\)'
           % P),
          ('stubs', 'iter', r'cls\.scan_function\(content=%s\.read_text\(\)\)'
           % P),
          ('near', 'call', r'SourcePath\(project_root=.*, subpath=\(%s\.'
           r'subpath\.parent / .*strip\(\'/\'\)\)\)' % P),
          ('root', 'call', r'SourcePath\(project_root=.*, subpath=elem\(cls\.'
           r'scan_function\(.*\)\)\.l?strip\(\'/\'\)\)'),
          ('exists', 'call', r'.*SourcePath\(.*\.is_file\(\)'),
          ('found', 'collect', r'comp\(list, .*SourcePath.*\)\[0\]|'
           r'next\(.*SourcePath.*'),
          ('paths', 'iter', r'(list|tuple)\(SourcePath.*'),
          ('each', 'iter', r'(list\()?parameters\)?')]
    for k in ('known', 'other', 'none', 'text', 'gone'):
        fs = many + [(r'isinstance\(%s, .*\)' % P, k != 'text'),
                     (r'%s\.suffix in cls\.extensions' % P,
                      k in ('known', 'gone')),
                     (r'cls\.get_scanner\(.*\) is None', k == 'none'),
                     (P + r'\.is_file\(\)', k != 'gone'),
                     (r'raise_error', True),
                     (r'.*SourcePath.*is_file\(\)', True),
                     (r'.*(root|target).* is None', False)]
        out = tr.run(ev, fs)
        if k == 'known':
            tr.check('files found', [t for t in out if t.has('paths')],
                     lambda t: t.has('read', 'stubs', 'near', 'root') and
                     seq(t).index('near') < seq(t).index('root') and
                     not t.has('bad'), 'beside the page, then in the root',
                     kinds=('return', 'raise'))
            tr.check('files added', [t for t in out if t.has('exists')],
                     lambda t: t.has('found') or t.kind == 'raise',
                     'those found are added', kinds=('return',))
        elif k == 'other':
            tr.check('another type', [t for t in out if t.count('each') > 1],
                     lambda t: t.has('other') and not t.some('bad', 'read'),
                     'scanned by the scanner for it', kinds=('return',))
        else:
            tr.check('skipped: ' + k, [t for t in out if t.count('each') > 1],
                     lambda t: not t.some('other', 'bad', 'found'),
                     'nothing is added', kinds=('return',))
    for proj, targ, sub in ((1, 0, 0), (0, 1, 0), (0, 1, 1)):
        A = {k: r'(%s\.%s|getattr\(%s, \'%s\', None\))' % (P, k, P, k)
             for k in ('project_root', 'target_root', 'target')}
        root = A['project_root'] if proj else A['target_root']
        if sub:
            root = r'\(%s / %s\)' % (root, A['target'])
        out = tr.run([('ok', 'call', r'SourcePath\(project_root=%s, subpath=.*'
                       % root), ('bad', 'call', r'SourcePath\(.*')],
                     many + here + [
            (r'%s\.suffix in cls\.extensions' % P, True),
            (r'.*is_file\(\)', True), (A['project_root'] + ' is None', not proj),
            (A['target_root'] + ' is None', not targ),
            (A['target'] + ' is None', not sub)])
        tr.check('root, project %s, target %s %s' % (proj, targ, sub),
                 [t for t in out if t.some('ok', 'bad')], lambda t:
                 not t.has('bad'), 'files are found from the root of the page',
                 kinds=('return', 'raise'))
    out = tr.run(ev, many + here + [
        (r'%s\.suffix in cls\.extensions' % P, True),
        (P + r'\.is_file\(\)', True), (r'.*(root|target).* is None', False),
        (r'raise_error', True), (r'.*SourcePath.*is_file\(\)', False)])
    tr.check('not found', [t for t in out if t.has('exists')], lambda t:
             raises(t, 'FileNotFoundError'), 'a missing file is an error')
    tr = TraceRule(ctx, r, 'HtmlScanner.scan_function')
    for url in (True, False):
        links = r'(elem\(.*finditer\(content\)\)\.group(s\(\)\[0\]|\(1\))|' \
                r'elem\(.*findall\(content\)\))'
        tr.expect('links, url %s' % url, [(r"'://' in .*", url)], [
            ('find', 'iter', r'(list\()?elem\((tuple|list)\(_re_html_\w+, '
             r'_re_html_\w+\)\)\.(finditer|findall)\(content\)\)?'),
            ('find', 'iter', r'_re_html_\w+\.(finditer|findall)\(content\)'),
            ('put', 'collect', links), ('bad', 'collect', '.*')],
            must=('find',) + (() if url else ('put',)),
            never=('put', 'bad') if url else ('bad',), it='find')
    names = {m for n in tr.g.nodes if n.term and n.pred
             for m in re.findall(r'_re_html_\w+', S(tr.g.expand(n.term, n)))}
    ctx.ob(r, 'HtmlScanner: links and images', {
        '_re_html_link', '_re_html_img'} <= names, ctx.where(tr.f),
        'both the links and the images of a page are found')
    exts = set(ctx.repo.class_const(ctx.cls('HtmlScanner'), 'extensions')
               or ())
    ctx.ob(r, 'HtmlScanner: types', {'.html', '.xhtml'} <= exts,
           ctx.where(tr.f), 'html and xhtml files are scanned')
    tr = TraceRule(ctx, r, 'Scanner.get_scanner')
    tr.expect('by extension', [(r'cls\._scanners is None', False)], [],
              ret=r'cls\._scanners\.get\(extension(, None)?\)')
    tr.expect('all scanners', [(r'cls\._scanners is None', True)], [
        ('all', 'iter', r'(list\()?all_subclasses\(cls=(Scanner|cls)\)+'),
        ('exts', 'iter', r'elem\(all_subclasses\(cls=(Scanner|cls)\)\)\.'
         r'extensions'),
        ('set', 'store', r'cls\._scanners = .*')], must=('all', 'set'),
        ret=r'.*\.get\(extension(, None)?\)')


def targets(ctx):
    repo = ctx.repo
    r = 'B03.targets'
    ctx.rule(r, 'The builder for a target has the source file among its '
             'parameters, is told from other targets, holds a builder for '
             'the files used and then one for the page, and asks for the '
             'labels')
    tr = TraceRule(ctx, r, 'TargetBuilder.__init__')
    base = [(r'__debug__.*', False), (r'subbuilders', True),
            (r"'target' in kwargs", True), (r'outfilepath is None', False),
            (r'use_cache is None', False),
            (r'isinstance\(.*parameters.*|isinstance\(list\(\), .*', True)]
    ev = [('par', 'call', r'ParallelBuilder\(.*env=env, \*\*=kwargs\)'),
          ('ren', 'call', r'JinjaRender\(env=env, context=context, outfilepath='
           r'outfilepath, render_ext=self\.outfilepath_ext, \*\*=kwargs\)'),
          ('badren', 'call', r'JinjaRender\(.*'),
          ('addpar', 'collect', r'parallel_builder|ParallelBuilder\(.*|'
           r'self\._parallel_builder'),
          ('addren', 'collect', r'render_builder|JinjaRender\(.*|'
           r'self\._render_builder'),
          ('sig', 'store', r"(\w*render_builder|JinjaRender\(.*\))\.parameters_"
           r"from_signals = '(ref_label_dependencies)'"),
          ('sig2', 'store', r"(\w*render_builder|JinjaRender\(.*\))\.inputs_"
           r"from_signals = 'render_dependencies'"),
          ('clear', 'store', r'(\w*parallel_builder|ParallelBuilder\(.*\))\.'
           r'clear_done = False'),
          ('setpar', 'store', r'self\._parallel_builder = .*'),
          ('setren', 'store', r'self\._render_builder = .*'),
          ('src', 'collect', r"context\['src_filepath'\]"),
          ('src', 'call', r".*\.(append|insert)\(.*context\['src_filepath'\]\)"),
          ('name', 'call', r".*\.insert\(0, .*self\.__class__\.__name__.*\)"),
          ('reg', 'store', r"context(\.setdefault\('builders', dict\(\)\)|\["
           r"'builders'\])\[self\.outfilepath_ext\] = self"),
          ('ctx', 'store', r'self\.context = context'),
          ('sup', 'call', r'super\(.*\)\.__init__\(env=env, outfilepath='
           r'outfilepath, parameters=.*, subbuilders=.*, use_cache=use_cache, '
           r'\*\*=kwargs\)|super\(.*\)\.__init__\(env=env, parameters=.*, '
           r'outfilepath=outfilepath, subbuilders=.*, use_cache=use_cache, '
           r'\*\*=kwargs\)')]
    for par in (True, False):
        for ren in (True, False):
            for own in (True, False):
                tr.expect('own files %s, page %s, parameters given %s' % (
                    par, ren, own), base + [
                        (r'self\.add_parallel_builder', par),
                        (r'self\.add_render_builder', ren),
                        (r'list\(.*\)|parameters', own),
                        (r"'src_filepath' in context", True)], ev,
                    must=('name', 'reg', 'ctx', 'sup') +
                    (('par', 'addpar', 'clear', 'setpar') if par else ()) +
                    (('ren', 'addren', 'sig', 'sig2', 'setren') if ren
                     else ()) + (() if own else ('src',)),
                    never=('badren',) + (('src',) if own else ()) +
                    (() if par else ('par',)) + (() if ren else ('ren',)),
                    order=[('addpar', 'addren')] if par else [],
                    exactly={'sup': 1})
    gen = r'generate_outfilepath\((?=.*env=env)(?=.*parameters=)(?=.*target=' \
          r'self\.outfilepath_ext).*ext=self\.outfilepath_ext, .*use_cache=' \
          r'%s, use_media=self\.use_media\)'
    for doc in (True, False):
        fs = [x for x in base if 'use_cache' not in x[0] and
              'outfilepath is None' not in x[0]] + [
            (r'use_cache is None', True), (r'outfilepath is None', True),
            (r'self\.outfilepath_ext in context\.targets', doc),
            (r'self\.add_\w+_builder', False),
            (r'len\(.*\).*|.*< len\(.*\)', False)]
        tr.expect('path of the target, in the targets of the document %s'
                  % doc, fs, [
                      ('cached', 'call', gen % 'True'),
                      ('kept', 'call', gen % 'False'),
                      ('either', 'call', gen % r'.*')],
                  must=('kept',) if doc else ('cached',),
                  never=('cached', 'either') if doc else ('kept', 'either'))
    for given, own, ext in ((1, 1, 1), (0, 1, 1), (0, 0, 1), (0, 0, 0)):
        fs = [x for x in base if "'target' in" not in x[0]] + [
            (r"'target' in kwargs", bool(given)),
            (r'self\.target is None', not own),
            (r'self\.outfilepath_ext is None', not ext),
            (r'self\.add_\w+_builder', False)]
        out = tr.run([
            ('own', 'store', r"kwargs\['target'\] = self\.target"),
            ('ext', 'store', r"kwargs\['target'\] = self\.outfilepath_ext"),
            ('bad', 'store', r"kwargs\['target'\] = .*")], fs)
        want = 'none' if given else 'own' if own else 'ext' if ext else 'err'
        tr.check('target, given %s, class %s, extension %s' % (
            given, own, ext), out, lambda t: t.kind == 'raise'
            if want == 'err' else t.kind == 'return' and not t.has('bad') and
            [e for e in ('own', 'ext') if t.has(e)] ==
            ([] if want == 'none' else [want]), 'the target given, of the '
            'builder, or its extension')
    for c in [ctx.cls('TargetBuilder')] + list(
            repo.subclasses(ctx.cls('TargetBuilder'))):
        for k, v in (('chain_on_creation', False), ('clear_done', False)):
            ctx.ob(r, '%s.%s' % (c.name, k), repo.class_const(c, k) is v,
                   c.name, 'the builders of a target are not chained nor '
                   'dropped')
        ctx.ob(r, c.name + '.parameters_from_signals', repo.class_const(
            c, 'parameters_from_signals') == 'ref_label_dependencies', c.name,
            'a target builder asks for the labels referred to')
    added(ctx, r)
    page_files(ctx, r)


def added(ctx, r):
    """files that are added to the builders of targets"""
    tr = TraceRule(ctx, r, 'TargetBuilder.add_build')
    for c in (True, False):
        tr.expect('added to the files used, cached %s' % c, [
            (r'use_cache', c)], [], ret=r'self\._parallel_builder'
            r'\.add_build\((?=.*parameters=parameters)(?=.*outfilepath='
            r'outfilepath)(?=.*context=context)(?=.*use_cache=%s[,)]).*'
            r'\*\*=kwargs\)' % ('use_cache' if c else r'self\.use_cache'))
    tr = TraceRule(ctx, r, 'PdfBuilder.add_build')
    tr.expect('added to the tex file', [], [], ret=r'self\._tex_builder\.'
              r'add_build\((?=.*parameters=parameters)(?=.*outfilepath='
              r'outfilepath)(?=.*context=context).*\*\*=kwargs\)')
    tr = TraceRule(ctx, r, 'builders.target_builders.receivers:add_file')
    for dot in (True, False):
        t = r"target" if dot else r"\('\.' \+ target\)"
        b = r"context(\.get\('builders'(, .*)?\)|\['builders'\])(\.get\(%s" \
            r"(, None)?\)|\[%s\])" % (t, t)
        tr.expect('files of tags, dot %s' % dot, [
            (r"target\.startswith\('\.'\)", dot), (b, True),
            (b + ' is None', False), (r'.*is_valid.*', True)], [],
            ret=b + r'\.add_build\((?=.*parameters=parameters)(?=.*context='
            r'context)(?=.*in_ext=in_ext)(?=.*target=%s)(?=.*use_cache='
            r'use_cache).*\)\.outfilepath' % t)


def page_files(ctx, r):
    """The files used by html pages are copied; the chains for pdf, epub"""
    tr = TraceRule(ctx, r, 'HtmlBuilder.__init__')
    ext = r'elem\(self\.ext_wildcards\)'
    inf = r'elem\(self\.subbuilders\)\.infilepaths'
    for hit in (True, False):
        for cache in (True, False):
            root = r'env\.cache_path' if cache else r'env\.target_root'
            out = tr.run([
                ('sup', 'call', r'super\(.*\)\.__init__\((?=.*env=env)(?=.*'
                 r'context=context).*\*\*=kwargs\)'),
                ('match', 'call', r'elem\(%s\)\.match\(%s\)' % (inf, ext)),
                ('copy', 'call', r'Copy\((?=.*env=env)(?=.*outfilepath=TargetPath'
                 r'\((?=.*subpath=[^=]*\.subpath[,)])(?=.*target=self\.outfilepath_'
                 r'ext)(?=.*target_root=%s))(?=.*parameters=).*' % root),
                ('badcopy', 'call', r'Copy\(.*'),
                ('put', 'collect', r'Copy\(.*|copy'),
                ('files', 'iter', inf),
                ('add', 'aug', r'self\._parallel_builder\.subbuilders \+= .*'),
                ('addone', 'call', r'self\._parallel_builder\.subbuilders\.'
                 r'append\(Copy\(.*'),
                ('add', 'call', r'self\._parallel_builder\.subbuilders\.'
                 r'extend\(.*')], [
                     (r'.*\.match\(.*', hit), (r'self\.use_cache', cache)])
            name = 'files of the page, matching %s, cached %s' % (hit, cache)
            if hit:
                sel = [t for t in out if t.some('copy', 'badcopy')]
                tr.check(name, sel, lambda t: t.has('sup', 'copy') and
                         t.some('add', 'addone') and t.some('put', 'addone') and
                         not t.has('badcopy'), 'copied to the same path in the target',
                         kinds=('return',))
                tr.check(name + ', each', [t for t in out if t.has('match')],
                         lambda t: True, 'files are matched',
                         kinds=('return',))
            else:
                tr.check(name, out, lambda t: not t.some('copy', 'badcopy'),
                         'other files are not copied', kinds=('return',))
    tr = TraceRule(ctx, r, 'PdfBuilder.__init__')
    tex = r"(self\._tex_builder|context(\.setdefault\('builders', dict\(\)\)|" \
          r"\['builders'\])\['\.tex'\]|TexBuilder\(.*\)|tex_builder)"
    find = r"self\.find_builder_cls\(in_ext='%s', out_ext='%s'.*\)"
    for has in (True, False):
        tr.expect('tex, then pdf, then copied, tex present %s' % has, [
            (r"'\.tex' in .*", has), (r'subbuilders', True)], [
            ('new', 'call', r"TexBuilder\((?=.*env=env)(?=.*context=context)"
             r"(?=.*target='tex').*\*\*=kwargs\)"),
            ('reg', 'store', r".*\['\.tex'\] = .*"),
            ('set', 'store', r'self\._tex_builder = .*'),
            ('pdf', 'call', find % (r'\.tex', r'\.pdf') + r"\((?=.*env=env)"
             r"(?=.*target='\.?pdf')(?=.*use_cache=True)(?=.*use_media=False)"
             r".*\*\*=kwargs\)"),
            ('copy', 'call', find % (r'\.\*', r'\.\*') + r"\((?=.*env=env)"
             r"(?=.*target='\.?pdf')(?=.*use_cache=False).*\*\*=kwargs\)"),
            ('a', 'collect', tex),
            ('b', 'collect', r'tex2pdf|self\._pdf_builder|' + find % (
                r'\.tex', r'\.pdf') + r'\(.*'),
            ('c', 'collect', r'copy_builder|' + find % (
                r'\.\*', r'\.\*') + r'\(.*'),
            ('sup', 'call', r'super\(.*\)\.__init__\((?=.*env=env)(?=.*context='
             r'context)(?=.*parameters=parameters)(?=.*outfilepath='
             r'outfilepath)(?=.*subbuilders=).*\*\*=kwargs\)'),
            ('in1', 'store', r'(tex2pdf|self\._pdf_builder|.*)\.parameters = '
             r'(list|tuple)\(%s\.outfilepath\)' % tex),
            ('in2', 'store', r'(copy_builder|.*)\.parameters = (list|tuple)\(('
             r'tex2pdf|self\._pdf_builder|%s.*)\.outfilepath\)' % (
                 find % (r'\.tex', r'\.pdf'))),
            ('out', 'store', r'(copy_builder|.*find_builder_cls.*)\.outfilepath'
             r' = self\.outfilepath')],
            must=('pdf', 'copy', 'set', 'a', 'b', 'c', 'sup', 'in1', 'in2', 'out') +
            (() if has else ('new', 'reg')), never=('new',) if has else (),
            order=[('a', 'b'), ('b', 'c'), ('c', 'sup'), ('sup', 'out')])
    tr = TraceRule(ctx, r, 'EpubBuilder.create_subbuilders')
    xb = r'self\.find_or_create_xhtml_builders\(\)'
    for toc in (True, False):
        tr.expect('pages, contents, epub, then copied, contents given %s'
                  % toc, [(r'self\.has_toc_xhtml\(.*', toc)], [
            ('clear', 'call', r'self\.subbuilders\.clear\(\)'),
            ('pages', 'aug', r'self\.subbuilders \+= ' + xb),
            ('pages', 'call', r'self\.subbuilders\.extend\(%s\)' % xb),
            ('toc', 'collect', r'self\.create_toc_xhtml_builder\(.*\)'),
            ('tocout', 'collect', r'self\.create_toc_xhtml_builder\(.*\)\.'
             r'outfilepath'),
            ('epub', 'collect', find % (r'\.xhtml', r'\.epub') +
             r"\((?=.*parameters=self\.xhtml_filepaths\(xhtml_builders=%s\))"
             r"(?=.*context=context|.*context=self\.context)(?=.*env=self\.env)"
             r"(?=.*target='\.?epub')(?=.*use_cache=True)(?=.*use_media=False)"
             r".*" % xb),
            ('copy', 'collect', find % (r'\.\*', r'\.\*') + r"\((?=.*env=self"
             r"\.env)(?=.*target='\.?epub')(?=.*use_cache=False).*"),
            ('in', 'store', r'.*\.parameters = (list|tuple)\(.*\.outfilepath\)'),
            ('out', 'store', r'.*\.outfilepath = self\.outfilepath')],
            must=('clear', 'pages', 'epub', 'copy', 'in', 'out') +
            (() if toc else ('toc', 'tocout')), never=('toc',) if toc else (),
            order=[('clear', 'pages'), ('pages', 'epub'),
                   ('epub', 'copy')] + ([] if toc else [('toc', 'epub')]))
    tr = TraceRule(ctx, r, 'EpubBuilder.find_or_create_xhtml_builders')
    docs = r'self\.context\.document\.documents_list\(only_subdocuments=' \
           r'False, recursive=True\)'
    for has in (True, False):
        tr.expect('pages of all documents, present %s' % has, [
            (r"'\.xhtml' in .*", has)], [
            ('docs', 'iter', docs),
            ('new', 'call', r"XHtmlBuilder\((?=.*env=self\.env)(?=.*context="
             r"elem\(%s\)\.context)(?=.*target='\.?xhtml').*" % docs),
            ('put', 'collect', r".*\['\.xhtml'\]|XHtmlBuilder\(.*")],
            must=('docs', 'put') + (() if has else ('new',)),
            never=('new',) if has else (), it='docs')
    tr = TraceRule(ctx, r, 'EpubBuilder.xhtml_filepaths')
    for ev, it in ((('pages', 'collect', r'elem\(xhtml_builders\)\.outfilepath'
                     ), 'each'),
                   (('subout', 'collect', r'elem\(elem\(xhtml_builders\)\.'
                     r'_parallel_builder\.subbuilders\)\.outfilepath'),
                    'sub')):
        out = [t for t in tr.run([
            ev, ('each', 'iter', r'xhtml_builders'),
            ('sub', 'iter', r'elem\(xhtml_builders\)\._parallel_builder\.'
             r'subbuilders')], [(r'xhtml_builders', True),
                                (r'.*\.suffix in .*', True)])
               if t.has(it)]
        tr.check('listed: ' + ev[0], [t for t in out if t.has(ev[0])],
                 lambda t: True, 'the pages and their files are listed',
                 kinds=('return',))
        tr.check('files of all pages', [
            t for t in out if seq(t).count('each') >= 4], lambda t: t.has(
                'sub'), 'the files of each page', minimum=0,
            kinds=('return',))
    tr = TraceRule(ctx, r, 'EpubBuilder.create_toc_xhtml_builder')
    own = r'context\.filter\((list|tuple)\(.*\)\)'
    tr.expect('contents page', [(r'context is None|context', True)], [
        ('sig', 'store', r".*\.inputs_from_signals = 'render_dependencies'"),
        ('filter', 'call', r"context\.filter\((list|tuple)\((?=.*'toc')(?=.*"
         r"'label_manager')(?=.*'root_document')(?=.*'relative_links').*\)\)"),
        ('keep', 'store', r'self\.\w+ = ' + own),
        ('tmpl', 'store', own + r"\['template'\] = template_name"),
        ('toc', 'store', own + r"\['toc'\] = %s\['toc'\]\.copy\(\)" % own),
        ('id', 'store', own + r"\['doc_id'\] = '.+'"),
        ('tocid', 'store', own + r"\['toc'\](\.copy\(\))?\.doc_id = '.+'"),
        ('tocctx', 'store', own + r"\['toc'\](\.copy\(\))?\.context = " + own),
        ('empty', 'store', own + r"\['toc'\](\.copy\(\))?\.empty_toc_kind = "
         r"(tuple|list)\('all', 'documents', 'expanded'\)"),
        ('new', 'call', r"self\.find_builder_cls\(in_ext='\.render'.*\)\((?=.*"
         r"env=self\.env)(?=.*context=%s)(?=.*outfilepath=TargetPath\("
         r"subpath='toc\.xhtml', target='\.?xhtml', target_root=self\.env\."
         r"cache_path\))(?=.*render_ext='\.xhtml')(?=.*use_cache=True)(?=.*"
         r"use_media=False)(?=.*target='\.?xhtml').*" % own)],
        must=('sig', 'filter', 'keep', 'tmpl', 'toc', 'id', 'tocid', 'tocctx',
              'empty', 'new'), ret=r'self\.find_builder_cls.*')


def results(ctx):
    r = 'B03.results'
    ctx.rule(r, 'What is found is returned')
    for spec in ('EpubBuilder.find_or_create_xhtml_builders',
                 'EpubBuilder.xhtml_filepaths', 'EpubBuilder.has_toc_xhtml',
                 'tags.ref:add_ref_labels', 'tags.ref:add_document_labels',
                 'tags.toc:add_toc_labels', 'tags.img:add_image_files',
                 'tags.navigation:add_navigation_labels',
                 'HtmlScanner.scan_function',
                 'builders.jinja_render:template_filepaths',
                 'builders.jinja_render:context_filepaths',
                 'JinjaRender.build_inputs', 'JinjaRender.parameters',
                 'Builder.parameters', 'Builder.get_parameters_from_signals',
                 'tags.receivers.hash:process_hash'):
        f = ctx.fn(spec)
        g = ctx.graph(f)
        bad = [n for n in g.nodes if n.kind == 'return' and n.pred and (
            n.term is None or n.term == ('c', None))]
        last = _falls(f.node.body)
        ctx.ob(r, f.short, not bad and not last, ctx.where(f),
               'the result is returned on all paths')
    tr = TraceRule(ctx, r, 'EpubBuilder.has_toc_xhtml')
    texts = ' '.join(S(tr.g.expand(n.term, n)) for n in tr.g.nodes
                     if n.pred and n.term)
    ctx.ob(r, 'EpubBuilder.has_toc_xhtml: path', re.search(
        r"\.subpath\)? == '[^']+'|'[^']+' == ", texts) is not None,
        ctx.where(tr.f), 'the contents page is recognised by its path')
    tr = TraceRule(ctx, r, 'EpubBuilder.__init__')
    tr.expect('subbuilders', [], [
        ('sup', 'call', r'super\(.*\)\.__init__\(star\(args\), \*\*=kwargs\)'),
        ('sup', 'call', r'super\(.*\)\.__init__\(.*'),
        ('sub', 'call', r'self\.create_subbuilders\(\)')],
        must=('sup', 'sub'), order=[('sup', 'sub')])


def _falls(body):
    """Whether the end of a function's statements can be reached"""
    if not body:
        return True
    last = body[-1]
    if isinstance(last, (ast.Return, ast.Raise)):
        return False
    if isinstance(last, ast.If):
        return _falls(last.body) or _falls(last.orelse)
    if isinstance(last, (ast.With, ast.Try)):
        return _falls(last.body) and not any(isinstance(x, ast.Return)
                                             for x in ast.walk(last))
    return not (isinstance(last, ast.While) and isinstance(
        last.test, ast.Constant))


def run(ctx):
    base.flat(ctx, 'B03.flat')
    base.distinct(ctx, 'B03.distinct')
    results(ctx)
    builders(ctx)
    receivers(ctx)
    hashes(ctx)
    scanner(ctx)
    targets(ctx)
    from . import e01
    e01.order(ctx, 'B03.epub')
