"""L03: references and tables of contents lead to the labels they are for"""
import itertools

from .common import *

ASSUMPTIONS = ['Labels have the ids and documents that L01 and L02 decide']

C = r'(cache|dict\(\))'
LABEL = (r"%s\.setdefault\('label', self\.label\)" % C, ('v', 'LABEL'))
DOCID = (r"self\.context(\.get\('doc_id'(, None)?\)|\['doc_id'\])",
         ('v', 'OWN'))


def urls(ctx):
    """The url of a reference"""
    r = 'L03.url'
    ctx.rule(r, 'The url of a reference is the anchor of its label in the '
             'same document, and the file of the other document for the '
             'target with the anchor otherwise')
    tr = TraceRule(ctx, r, 'Ref.url')
    valid = (r"self\.context\.is_valid\('doc_id'\)", True)
    ids = [LABEL, DOCID, valid, (r'LABEL is None', False)]
    same = r'(OWN == LABEL\.doc_id|LABEL\.doc_id == OWN)'
    for nm, fs in (('label without a document', [
            (r'LABEL\.doc_id is None', True), (r'OWN is None', False)]),
            ('tag without a document', [(r'OWN is None', True)])):
        tr.check(nm, tr.run([], fs + ids), lambda t: raises(t, 'RefError'),
                 'RefError must be raised')
    known = ids + [(r'OWN is None', False), (r'LABEL\.doc_id is None', False)]
    for anchor in (True, False):
        a = ('include_anchor', anchor)
        tr.check('same document, anchor %s' % anchor, tr.run(
            [], [a, (same, True)] + known), lambda t, anchor=anchor:
            t.kind == 'return' and (list(pieces(t.value) or ()) == [
                '#', ('attr', ('v', 'LABEL'), 'id')]
                if anchor else S(t.value) == "''"),
            'the anchor of the label only')
        for dot in (True, False):
            T = 'target' if dot else r"\('\.' \+ target\)"
            url = r'self\.document\((cache=)?%s\)\.target_filepath\(' \
                r'(target=)?%s\)\.get_url\(context=self\.context\)' % (C, T)
            tr.check('other document, anchor %s, dot %s' % (anchor, dot), [
                t for t in tr.run([], [a, (same, False), (
                    r"target\.startswith\('\.'\)", dot)] + known)
                if t.kind != 'return' or S(t.value) != 'None'],
                lambda t, url=url, anchor=anchor: t.kind == 'return' and
                re.fullmatch(r"\(+%s \+ '#'\) \+ LABEL\.id\)|\(%s \+ \('#' "
                             r'\+ LABEL\.id\)\)' % (url, url) if anchor
                             else url, S(t.value)) is not None,
                'the file of the other document')
    # handled here
    g = tr.g
    for n in g.calls():
        if n.pred and n.kind == 'call' and n.term[1][0] == 'attr' and \
                n.term[1][2] in ('target_filepath', 'get_url'):
            ctx.ob(r, 'Ref.url: %s' % n.term[1][2], any(
                re.search(r'TargetNotFound|^(Document|Base)?Exception', str(x))
                for x in caught(n)) or any(
                    re.search(r'\btargets\b', S(g.expand(x.term, x)))
                    for x in g.nodes if x.pred and x.kind == 'test'), ctx.where(n),
                'a missing target must not stop the rendering')

    r = 'L03.document'
    ctx.rule(r, 'The document of a reference is the one with the id that the '
             'label has')
    tr = TraceRule(ctx, r, 'Ref.document')
    base = [LABEL, DOCID, (r"self\.context\.is_valid\('root_document'\)",
                           True)]
    tr.check('own', tr.run([], [(same, True), (r'OWN is None', False)] +
                           base), lambda t: t.kind == 'return' and re.fullmatch(
        r'self\.context\.document', S(t.value)) is not None,
        'the document of the tag')
    other = [(same, False)] + base
    docs = r"%s\.get\('documents_by_id'(, None)?\)" % C
    root = r"(self\.context\['root_document'\]\(\)|self\.context\." \
        r'root_document)'
    for nm, fs, d in (
            ('cached', [(docs + ' is None', False)], docs),
            ('project', [(docs + ' is None', True),
                         (r"'root_document' in self\.context", True),
                         (root + ' is None', False)],
             root + r'\.documents_by_id\((recursive=)?True\)')):
        for has in (True, False):
            tr.check('%s, found %s' % (nm, has), tr.run([], [
                (r'LABEL\.doc_id in ' + d, has)] + fs + other),
                lambda t, d=d, has=has: t.kind == 'return' and (re.fullmatch(
                    d + r'(\[LABEL\.doc_id\]|\.get\(LABEL\.doc_id'
                    r'(, None)?\))', S(t.value)) if has else
                    S(t.value) == 'None' or re.fullmatch(
                        d + r'\.get\(LABEL\.doc_id(, None)?\)', S(t.value)))
                is not None and t.kind == 'return',
                'the document with the id of the label')
    tr = TraceRule(ctx, r, 'Ref.label')
    v = (r"self\.context\.is_valid\('label_manager'\)", True)
    tr.expect('an id', [v, (r'self\.label_id is None', False)], [],
              ret=r"self\.context\['label_manager'\]\.get_label\((id=)?"
              r'self\.label_id\)', msg='the label with the id')
    tr.expect('no id', [v, (r'self\.label_id is None', True)], [],
              ret='None', msg='no label')
    tr = TraceRule(ctx, r, 'Ref.__init__')
    tr.expect('id', [], [('id', 'store', r'self\.label_id = self\.content'
                          r'\.strip\(\)'), ('bad', 'store',
                                            r'self\.label_id = .*')],
              must=('id',), never=('bad',), msg='the id is the content')

    r = 'L03.href'
    ctx.rule(r, 'Links of references go to the url, with the anchor unless '
             'they are for a document')
    some = [LABEL, (r"self\.context\.get\('label_manager'.*\) is None",
                    False), (r'LABEL is None', False),
            (r'self\.context is None', False)]
    inc = r'include_anchor=\(?not isinstance\(LABEL, DocumentLabel\)\)?'

    def args(target):
        return lambda s: all(re.search(p, s) for p in (
            inc, r'cache=' + C, r'target=' + target))
    tr = TraceRule(ctx, r, 'Ref.html_fmt')
    ok = args('method')
    tr.check('html', tr.run([
        ('href', 'store', r".*\['href'\] = self\.url\((?P<x>.*)\)"),
        ('other', 'store', r".*\['href'\] = .*")], some),
        lambda t: t.kind == 'return' and len(t.get('href')) == 1 and
        not t.has('other') and ok(t.get('href')[0][1]),
        'the url for the method')
    tr = TraceRule(ctx, r, 'Ref.tex_fmt')
    okt = args(r"'\.pdf'")
    tr.check('tex', [t for t in tr.run([
        ('url', 'call', r'self\.url\((?P<x>.*)\)')], some) if
        t.kind == 'return'], lambda t: len({e[1] for e in t.get('url')}) == 1
        and okt(t.get('url')[0][1]), 'the url of the pdf')
    for has in (True, False):
        u = r'self\.url\(.*\)'
        tr.check('tex, url %s' % has, tr.run([], [
            (r"\(%s \+ '\.tex'\)" % u, True), (u, has)] + some), lambda t,
            has=has: t.kind == 'return' and ((
                call_name(t.value) == 'tex_cmd' and re.search(
                    r"attributes=\(%s \+ '\.tex'\)" % u, S(t.value))
                is not None) if has else 'tex_cmd' not in S(t.value)),
            'a link if there is an url')




def paths(ctx):
    """Urls of files"""
    r = 'L03.paths'
    ctx.rule(r, 'The url of a file is relative to the directory of the '
             'document in its target, or made of the base url with target '
             'and subpath')
    tr = TraceRule(ctx, r, 'TargetPath.get_url')
    rel = r"context\.get\('relative_links', True\)"
    R = r'self\._get_relative_url\(.*\)'
    A = r'self\._get_absolute_url\((?P<x>[^)]*)\)'
    ev = [('rel', 'call', r'self\._get_relative_url\((?P<x>[^)]*)\)'),
          ('abs', 'call', A)]

    def args(e):
        return {x.strip() for x in e[1].split(',')} in (
            {'context=context', 'target=target'}, {'context', 'target'})

    def uses(t, k, other):
        return t.kind == 'return' and t.has(k) and not t.has(other) and all(
            args(e) for e in t.get(k)) and \
            'self._get_%s_url(' % ('relative' if k == 'rel' else
                                   'absolute') in S(t.value)
    for nm, fs, k, other in (
            ('relative', [('context is None', False), (rel, True),
                          (R + ' is None', False)], 'rel', 'abs'),
            ('absolute', [('context is None', False), (rel, False)],
             'abs', 'rel'),
            ('no context', [('context is None', True)], 'abs', 'rel')):
        tr.check(nm, tr.run(ev, fs), lambda t, k=k, other=other:
                 uses(t, k, other), 'an %s url' % nm)
    tr.check('no relative', tr.run(ev, [
        ('context is None', False), (rel, True), (R + ' is None', True)]),
        lambda t: t.has('rel') and t.has('abs') and '_get_absolute_url(' in
        S(t.value), 'the absolute url')
    tr.check('clean', tr.run([], []), lambda t: t.kind != 'return' or
             re.fullmatch(r"re_dbl_slash\.sub\('/', self\..*\.rstrip\('/'\)"
                          r"\)|re_dbl_slash\.sub\('/', self\..*\)\.rstrip"
                          r"\('/'\)", S(t.value)) is not None,
             'no slash at its end or twice')
    tr = TraceRule(ctx, r, 'TargetPath._get_relative_url')
    ds = (r"context\.get\('document'(, None)?\)",
          r"context\.get\('root_document'(, None)?\)")
    for own, ref, dot in itertools.product((True, False), repeat=3):
        for given in (True, False):
            tgt = r'str\(%s\)' % ('target' if given else r'self\.target')
            T = tgt if dot else r"\('\.' \+ %s\)" % tgt
            d = ds[0] if own else ds[1]
            D = d + (r'\(\)' if ref else '')
            fs = [('target', given), (r"%s\.startswith\('\.'\)" % tgt, dot),
                  (r'isinstance\(.*, weakref\.ref\)', ref),
                  (ds[0], own), (ds[0] + ' is None', not own),
                  (ds[1], True), (ds[1] + ' is None', False),
                  (r'.*\(\) is None', False)]
            tr.check('own %s, weak %s, dot %s, target %s' % (
                own, ref, dot, given), tr.run([], fs), lambda t, D=D, T=T:
                t.kind == 'return' and re.fullmatch(
                    r'str\(os\.path\.relpath\(self, (start=)?%s\.target_'
                    r'filepath\((target=)?%s\)\.parent\)\)|os\.path\.relpath'
                    r'\(self, (start=)?%s\.target_filepath\((target=)?%s\)'
                    r'\.parent\)' % (D, T, D, T), S(t.value)) is not None,
                'relative to the directory of the document for the target')
    tr.check('no document', tr.run([], [
        (ds[0], False), (ds[0] + ' is None', True), (ds[1], False),
        (ds[1] + ' is None', True), (r'isinstance\(.*', False)]),
        lambda t: t.kind == 'return' and S(t.value) == 'None',
        'no relative url')
    tr = TraceRule(ctx, r, 'TargetPath._get_absolute_url')
    for given, base in itertools.product((True, False), repeat=2):
        tr.check('base %s, target %s' % (base, given), tr.run([], [
            ('target', given), (r"'base_url' in context", base),
            (r'isinstance\(context, .*\)', True)]), lambda t, given=given,
            base=base: t.kind == 'return' and re.fullmatch(
                (r"context\['base_url'\]" if base else
                 r"'/\{target\}/\{subpath\}'") + r'\.format\(.*\)',
                S(t.value)) is not None and all(re.search(p, S(t.value))
                                                for p in (
                    r'subpath=str\(self\.subpath\)\.strip',
                    r'target=str\(%s\)\.strip' % (
                        'target' if given else r'self\.target'),
                    r'target_root=str\(self\.target_root\)')),
            'made of target and subpath')

    # links to the same document in other targets
    r = 'L03.otherlinks'
    ctx.rule(r, 'Links to a document in another target or its source go to '
             'the file of that target, relative to the file they are in')
    for m, T, arg in (('this_filepath', 'target', None),
                      ('other_filepath', r'(target|self\.other_target)',
                       None)):
        tr = TraceRule(ctx, r, 'OtherLink.' + m)
        for has in (True, False):
            tr.check('%s, a target of the document %s' % (m, has), tr.run([], [
                (r'%s in self\.context\.targets' % T, has),
                (r'self\.context is None', False), (T + ' is None', False)]),
                lambda t, T=T, has=has: t.kind == 'return' and re.fullmatch(
                    r'self\.context\.target_filepath\((target=)?%s\)' % T
                    if has else 'None', S(t.value)) is not None,
                'the file for the target')
    tr = TraceRule(ctx, r, 'OtherLink.other_relpath')
    th = r'self\.this_filepath\((target=)?this_target\)'
    ot = r'self\.other_filepath\((target=)?other_target\)'
    eq = r'(%s == %s|%s == %s)' % (th, ot, ot, th)
    for nm, fs, want in (
            ('no file', [(th + ' is None', True)], "''"),
            ('no other file', [(ot + ' is None', True)], "''"),
            ('same file', [(th + ' is None', False), (ot + ' is None', False),
                           (eq, True)], "''"),
            ('other file', [(th + ' is None', False),
                            (ot + ' is None', False), (eq, False)],
             r'.*relpath\((path=)?%s, (start=)?%s\.parent\).*' % (ot, th))):
        tr.check(nm, tr.run([], fs), lambda t, want=want: t.kind == 'return'
                 and re.fullmatch(want, S(t.value)) is not None,
                 'the path to the other file, if there is one')
    for m, tgt in (('tex_fmt', '.tex'), ('html_fmt', '.html')):
        tr = TraceRule(ctx, r, 'OtherLink.' + m)
        tr.expect(m, [], [], ret=r"self\.other_relpath\((this_target=)?'\%s'"
                  r'\)' % tgt, msg='from the file of its target')
    for cls, tgt in (('Txtlink', '.txt'), ('Texlink', '.tex'),
                     ('Pdflink', '.pdf'), ('Epublink', '.epub')):
        c = ctx.cls(cls)
        ctx.ob(r, cls, ctx.repo.class_const(c, 'other_target') == tgt,
               ctx.where(c), 'the target must be ' + tgt)
    tr = TraceRule(ctx, r, 'Srclink.other_filepath')
    tr.expect('source', [(r'self\.context is None', False),
                         (r"'src_filepath' in self\.context", True)], [],
              ret=r"self\.context(\['src_filepath'\]|\.get\('src_filepath'"
              r'(, None)?\))', msg='the source file')
    tr = TraceRule(ctx, r, 'Epublink.other_filepath')
    RC = r'self\.context\.root_document\.context'
    for has in (True, False):
        tr.expect('epub %s' % has, [
            (RC + ' is None', False), (r'self\.context\.root_document is '
                                       r'None', False),
            (r"'\.epub' in %s\.targets" % RC, has)], [],
            ret=RC + r"\.target_filepath\((target=)?'\.epub'\)" if has else
            'None', msg='the file of the project')


def tocs(ctx):
    """Tables of contents"""
    r = 'L03.toc'
    ctx.rule(r, 'A table of contents lists the labels of the kinds it is for, '
             'in their order, each with a reference to it at its level')
    tr = TraceRule(ctx, r, 'Toc.get_labels_by_toc_kind')
    v = (r"self\.context\.is_valid\('label_manager'\)", True)
    own = r"self\.context(\.get\('doc_id'(, None)?\)|\['doc_id'\])"
    G = r"self\.context\['label_manager'\]\.get_labels_by_kind\((?P<x>.*)\)"
    K = ('heading', 'document')
    for all_, h, d, ab in itertools.product((True, False), repeat=4):
        for plural in (True, False):
            fs = [v, (r"'all' in toc_kind", all_),
                  (r"'abbreviated' in toc_kind", ab)]
            for k, want in zip(K, (h, d)):
                fs += [(r"'%ss' in toc_kind" % k, want and plural),
                       (r"'%s' in toc_kind" % k, want and not plural)]
            exp = {k: ('None' if all_ else own) for k, want in zip(K, (h, d))
                   if want}

            def good(t, exp=exp):
                got = {}
                for e in t.get('get'):
                    m = re.search(r"kinds=\(?'(\w+)'", e[1])
                    i = re.search(r"doc_id=(.*?)(, kinds|$)", e[1])
                    if not m or m.group(1) in got:
                        return False
                    got[m.group(1)] = i.group(1) if i else 'None'
                return set(got) == set(exp) and all(
                    re.fullmatch(exp[k], got[k]) for k in exp)
            tr.check('all %s, headings %s, documents %s, abbreviated %s, '
                     'plural %s' % (all_, h, d, ab, plural), tr.run(
                         [('get', 'call', G)], fs), good,
                     'the labels of these kinds are asked for',
                     kinds=('return',))
            if not ab and h != d:
                tr.check('result, all %s, headings %s, plural %s' % (
                    all_, h, plural), tr.run([], fs), lambda t: re.search(
                        r'get_labels_by_kind', S(t.value)) is not None,
                    'the labels are returned', kinds=('return',))
    ev = [('keep', 'collect', r'elem\((?!unk\(none).*'),
          ('each', 'iter', r'(unk|\(list|.*get_labels_by_kind).*')]
    ol = r'elem\(.*\)\.doc_id'
    O = r'(%s == %s|%s == %s)' % (ol, own, own, ol)
    last = r'(%s is None|%s == (?!self).*|%s in .*)' % (ol, ol, ol)
    g = tr.g
    ts = [g.expand(n.term, n) for n in g.nodes
          if n.pred and n.kind == 'test']
    doc = lambda x: isinstance(x, tuple) and x[:1] == ('attr',) and \
        x[2] == 'doc_id'
    ctx.ob(r, 'Toc: labels of the same document', any(
        x[0] == 'phi' and any(doc(y) for z in x[1:] for y in (
            [z] + list(z) if isinstance(z, tuple) else [])) or
        x[0] == 'cmp' and x[1] in ('in', 'not in') and any(
            doc(y) for y in x[2:]) for t in ts for x in subterms(t)),
        ctx.where(tr.f), 'a label must be compared with the one before')
    for nm, fs, want in (
            ('own label', [(O, True)], True),
            ('first of another document', [(O, False), (last, False)], True),
            ('next of another document', [(O, False), (last, True)], False)):
        tr.check('abbreviated, ' + nm, [t for t in tr.run(ev, [
            v, (r"'abbreviated' in toc_kind", True)] + fs) if
            seq(t).count('each') >= 2], lambda t, want=want: t.has('keep') ==
            want, 'own labels and the first one of each other document',
            kinds=('return',))
    tr = TraceRule(ctx, r, 'Toc.get_labels')
    k = r'self\.get_labels_by_toc_kind\((toc_kind=)?self\.toc_kind\)'
    e = r'self\.get_labels_by_toc_kind\((toc_kind=)?self\.empty_toc_kind\)'
    for some, alt in itertools.product((True, False), repeat=2):
        tr.check('labels %s, alternative %s' % (some, alt), tr.run([], [
            (r'len\(%s\) == 0' % k, not some), (r'0 == len\(%s\)' % k,
                                                not some), (k, some),
            (r'self\.empty_toc_kind is None', not alt),
            (r'self\.empty_toc_kind', alt)]), lambda t, some=some, alt=alt:
            t.kind == 'return' and re.fullmatch(
                e if not some and alt else k, S(t.value)) is not None,
            'the alternative kind is only used if there are no labels')
    tr = TraceRule(ctx, r, 'Toc.__init__')
    for nm, fs, val in (
            ('text', [(r'isinstance\(self\.content, list\)', False),
                      (r'isinstance\(self\.content, str\)', True)],
             r'self\.content\.split\(\)'),
            ('list', [(r'isinstance\(self\.content, list\)', True),
                      (r'len\(self\.content\) > 0', True),
                      (r'0 < len\(self\.content\)', True),
                      (r'self\.content', True),
                      (r'isinstance\(self\.content\[0\], str\)', True)],
             r'self\.content\[0\]\.split\(\)')):
        tr.check('kind, ' + nm, tr.run([
            ('kind', 'store', r'self\.toc_kind = ' + val),
            ('bad', 'store', r'self\.toc_kind = .*')], fs),
            lambda t: t.kind != 'return' or t.has('kind') and
            not t.has('bad'), 'the words of the content')
    tr = TraceRule(ctx, r, 'Toc.reference_tags')
    L = r'elem\(self\.get_labels\(\)\)'
    for head in (True, False):
        mk = r'TocRef\((?P<x>.*)\)'
        out = [t for t in tr.run([
            ('make', 'call', mk), ('each', 'iter', r'self\.get_labels\(\)'),
            ('level', 'store', r"TocRef\(.*\)\.attributes\['level'\] = "
             r'(?P<x>.*)'), ('add', 'collect', r'TocRef\(.*')], [
            (r'%s\.kind\[-1\] in heading_toc_levels' % L, head)])
            if seq(t).count('each') >= 2]
        tr.check('heading %s' % head, out, lambda t, head=head: t.has('add')
                 and len({x[1] for x in t.get('make')}) == 1 and all(
                     re.search(p, t.get('make')[0][1]) for p in (
                         r'content=%s\.id' % L, r'context=self\.context',
                         r'attributes=self\.attributes')) and
                 len(t.get('level')) == 1 and re.fullmatch(
                     r'heading_toc_levels\.index\(%s\.kind\[-1\]\)' % L
                     if head else r'(?!heading_toc).*', t.get('level')[0][1])
                 is not None, 'a reference to the label at its level',
                 kinds=('return',))
    # without a heading, the level is the one before
    g = tr.g
    heads = [h for h in g.nodes if h.pred and h.kind == 'iter']
    again = [n for n in g.nodes if n.pred and any(
        n in g.reachable(h) and h in g.reachable(n) for h in heads)]
    const = any(n.kind == 'asg' and n.term[0] == 'c' for n in again)

    def kept(n):
        # the variable still has its value if it is not assigned again
        ds = {d in again for d in g.nodes
              if d.pred and d.kind == 'asg' and d.dst == n.term[1]} \
            if n.term[0] == 'v' else ()
        return ds == {True, False}
    ctx.ob(r, 'Toc: levels without a heading', any(
        x[0] == 'loop' or x[0] == 'phi' and not const and kept(n)
        for n in g.nodes if n.pred and n.kind == 'store' and
        'heading_toc_levels' in str(g.expand(n.term, n))
        for x in subterms(g.expand(n.term, n))), ctx.where(tr.f),
        'the level must be the one of the entry before')
    # entries in LaTeX
    tr = TraceRule(ctx, r, 'Toc.tex_fmt')
    tr.check('entries', tr.run([], []), lambda t: t.kind == 'return' and
             re.search(r'content=(list\()?.*self\.reference_tags', S(t.value))
             is not None and not re.search(
                 r'reversed|sorted|slice|set\(', S(t.value)),
             'the entries in their order')
    tr = TraceRule(ctx, r, 'TocRef.tex_fmt')
    SG, LV = "'§'", r"self\.attributes\['level'\]"
    tr.check('level', tr.run([], []), lambda t: t.kind == 'return' and
             re.search(r'\((%s \* %s|%s \* %s)\)' % (SG, LV, LV, SG),
                       S(t.value)) is not None and
             re.search(r'super\(.*\)\.tex_fmt\(', S(t.value)) is not None,
             'a sign for each level')
    tr = TraceRule(ctx, r, 'Toc.html_fmt')
    T = r'elem\(self\.reference_tags\)'
    out = [t for t in tr.run([
        ('each', 'iter', r'self\.reference_tags'),
        ('label', 'store', r"%s\['label'\] = (?P<x>.*)" % C),
        ('label', 'call', r"%s\.update\(.*?label=(?P<x>.*)\)" % C),
        ('docs', 'store', r"%s\['documents_by_id'\] = .*documents_by_id\("
         r'(recursive=)?True\)' % C),
        ('fmt', 'call', r'getattr\(%s, format_func\)\((?P<x>.*)\)' % T),
        ('add', 'collect', r"tuple\(%s\.attributes\['level'\], getattr\(%s, "
         r'format_func\)\(.*' % (T, T))],
        [(r'self\.context\.root_document is None', False)]) if
        seq(t).count('each') >= 2]
    tr.check('entries', out, lambda t: t.has('fmt') and t.has('add') and (
        t.has('label') or 'label=' in t.get('fmt')[0][1] or "'label'" in
        t.get('fmt')[0][1]) and all(
        re.search(r'(%s\.label_id|%s\.label)' % (T, T), x[1]) and
        not re.search('slice', x[1]) for x in t.get('label')) and re.search('cache=' + C, t.get('fmt')[0][1])
        is not None and re.search('method=method', t.get('fmt')[0][1])
        is not None and (not t.has('label') or seq(t).index('label') <
                         seq(t).index('fmt')),
        'each entry is formatted with its own label', kinds=('return',))
    tr.check('list', tr.run([], []), lambda t: t.kind == 'return' and
             call_name(t.value) == 'xhtml_list' and re.search(
                 r'method=method', S(t.value)) is not None and re.search(
                     r'listtype=self\.html_name', S(t.value)) is not None,
             'a list of the entries')


def run(ctx):
    urls(ctx)
    paths(ctx)
    tocs(ctx)
