"""L04: labels and references show the format for their kind"""
import ast

from .common import *
from . import l01, l02, r03

ASSUMPTIONS = []

HEADS = ('title', 'part', 'chapter', 'section', 'subsection',
         'subsubsection')


def find(ctx):
    """The entry of the longest joined key"""
    r = 'L04.find'
    ctx.rule(r, 'The format is that of the first dict with an entry for the '
             'longest start of the keys, first with the target, and it is an '
             'error if there is none')
    tr = TraceRule(ctx, r, 'utils.dict:find_entry')
    g = tr.g
    one = r'(isinstance\(dicts, (dict|tuple\(.*)\))'
    whiles = [n for n in g.nodes if n.pred and n.kind == 'test' and
              n.term is not None and re.fullmatch(
                  r'-?\d+ < (?!.* in ).*|(?!.* in ).* < -?\d+', S(n.term))]
    for single in (True, False):
        D = r'elem\(dicts\)' if not single else \
            r'(elem\((tuple|list)\(dicts\)\)|dicts)'
        for suf in (True, False):
            fs = [(one, single), ('suffix is None', not suf),
                  ('suffix', suf)]
            out = tr.run([], fs, limit=20000)
            case = 'find, %s, %s' % ('one dict' if single else 'dicts',
                                     'target' if suf else 'no target')
            if whiles:
                none = tr.run([], fs + [
                    (r'0 < .*', False), (r'.* < 1', True),
                    (r'len\(keys\)|keys', False)], limit=20000)
                tr.check(case + ', no keys', none, lambda t: t.kind ==
                         'raise', 'there is no entry without keys')
            rets = [t for t in out if t.kind == 'return']
            errs = [t for t in out if t.kind == 'raise']
            ctx.ob(r, case + ': entries', rets != [], ctx.where(tr.f),
                   'entries are found')
            ctx.ob(r, case + ': errors', errs != [] and all(
                S(t.value).startswith('KeyError(') for t in errs),
                ctx.where(tr.f), 'a missing entry is an error')
            tr.check(case + ', dict', rets, lambda t: re.match(
                r'(%s)(\[|\.get\()' % D, S(t.value)) or not re.match(
                    r'(elem\(.*?dicts.*?\)|dicts)\[', S(t.value)),
                'an entry of the dict')
            tr.check(case + ', found', rets, lambda t: present(t, suf),
                     'the dict has the entry, and the entry for the target '
                     'is tried first')
            shown = [S(t.value) for t in rets]
            ctx.ob(r, case + ': parts', not any(
                re.search(r'keys\[slice\((?!0,|None,|\.\.\.|unk)', x) or
                re.search(r'keys\[slice\([^\[\]]*, -?[1-9]\d*\)\]', x) or
                re.search(r'keys\[(?!slice|\.\.\.|unk)', x) for x in shown),
                ctx.where(tr.f), 'starts of the key are tried')
            if not suf:
                ctx.ob(r, case + ': target', not any(
                    'suffix' in x for x in shown), ctx.where(tr.f),
                    'no target is tried')
            elif all('elem(list(' not in x for x in shown):
                ctx.ob(r, case + ': target', any(
                    'suffix' in x for x in shown), ctx.where(tr.f),
                    'the target is tried')
            cut = [x for x in shown if 'keys[slice(' in x]
            if cut and whiles:
                ctx.ob(r, case + ': whole key', any(re.search(
                    r'keys\[slice\((0|None), len\(keys\), None\)\]', x)
                    for x in cut), ctx.where(tr.f), 'the whole key is tried')
    for n in g.nodes:
        if n.pred and n.kind == 'test' and isinstance(n.ast, ast.Compare):
            sides = [n.ast.left] + n.ast.comparators
            ctx.ob(r, 'choice', isinstance(n.ast.ops[0], (
                ast.In, ast.NotIn, ast.Is, ast.IsNot)) or any(
                isinstance(x, (ast.Constant, ast.UnaryOp)) for x in sides),
                ctx.where(n), 'no key is left out: ' + ast.unparse(n.ast))
    # ---- the order in which the keys are tried
    for n in g.nodes:
        if not n.pred or n.term is None:
            continue
        if n.kind == 'iter':
            t = S(g.expand(n.term, n))
            m = re.match(r'(tuple|list)\((.*)\)$', t)
            if m and 'keys' in t and 'join' in t:
                parts = split(m.group(2))
                ctx.ob(r, 'order: targets', len(parts) != 2 or
                       'suffix' in parts[0] and 'suffix' not in parts[1] or
                       'suffix' not in t and parts[0] == parts[1],
                       ctx.where(n), 'the key with the target first')
            elif 'range(' in t and 'len(keys)' in t:
                ctx.ob(r, 'order: lengths', re.fullmatch(
                    r'range\(len\(keys\), 0, -1\)|(reversed\(|sorted\()?range'
                    r'\(1, \((len\(keys\) \+ 1|1 \+ len\(keys\))\)\)'
                    r'(\)|, reverse=True\)|\[slice\(None, None, -1\)\])', t)
                    is not None, ctx.where(n), 'the longest key first: ' + t)
            elif t and 'dicts' in t:
                ctx.ob(r, 'order: dicts', not re.search(
                    r'reversed|slice|sorted', t), ctx.where(n),
                    'the first dict first')
        elif n in whiles:
            t = S(n.term)
            ctx.ob(r, 'order: last key', re.fullmatch(r'0 < .*|.* < 1', t)
                   is not None, ctx.where(n),
                   'the first part alone is tried too: ' + t)
        if isinstance(n.ast, ast.AugAssign):
            ctx.ob(r, 'order: next', isinstance(n.ast.op, ast.Sub) and
                   isinstance(n.ast.value, ast.Constant) and
                   n.ast.value.value == 1, ctx.where(n),
                   'the next key is one part shorter')
        if n.kind == 'call' and g.cname(n) == 'pop':
            t = S(n.term)
            ctx.ob(r, 'order: next', re.search(r'\.pop\((-1)?\)$', t)
                   is not None, ctx.where(n), 'the last part is left out')
    tries = any(isinstance(n, (ast.Try, ast.NamedExpr))
                for n in ast.walk(tr.f.node))
    for n in g.nodes:
        if n.pred and n.kind == 'ret' and n.term is not None and \
                n.term[0] == 'sub' and not tries:
            ctx.ob(r, 'tested first', any(
                p and ' in ' in S(t) or not p and ' not in ' in S(t)
                for t, p, _ in g.conds(n)), ctx.where(n),
                'the dict has the entry that is returned')
    if whiles:
        ctx.ob(r, 'order: end', any(
            isinstance(n.ast, ast.AugAssign) or n.kind == 'asg' and
            ' - 1)' in S(n.term) or n.kind == 'call' and g.cname(n) == 'pop'
            for n in g.nodes if n.pred and n.term is not None),
            ctx.where(tr.f), 'shorter keys are tried')
    a = tr.f.node.args
    names = [x.arg for x in a.args + a.kwonlyargs]
    dflt = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):],
                    a.defaults))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is not None})
    for nm, v in (('suffix', None), ('sep', '_')):
        if nm in names:
            d = dflt.get(nm)
            ctx.ob(r, 'default of ' + nm, isinstance(d, ast.Constant) and
                   d.value == v, ctx.where(tr.f), repr(v))


def present(t, suf):
    """Whether the entry that is returned was found in the dict, and not
    before the one for the target"""
    s = S(t.value)
    m = re.match(r'(elem\((?:tuple|list)?\(?dicts\)?\)|dicts)\[(.*?)\](\[\])?$',
                 s)
    if not m or '...' in s or 'unk(' in s:
        return True
    known = {}
    for f, v in t.state.facts.items():
        x = S(f)
        known[x[4:] if x.startswith('not ') else x] = v != x.startswith('not ')
    d, key = m.group(1), m.group(2)
    if not known.get('%s in %s' % (key, d)):
        return not any(x.endswith(' in ' + d) for x in known)
    if suf and 'suffix' in key and not key.startswith('elem('):
        return not any(not v and 'suffix' not in x and x.endswith(' in ' + d)
                       for x, v in known.items())
    return True


def split(text):
    """The parts of a text between commas outside of brackets"""
    parts, depth, last = [], 0, 0
    for i, c in enumerate(text):
        depth += (c in '([{') - (c in ')]}')
        if c == ',' and not depth:
            parts.append(text[last:i].strip())
            last = i + 1
    return parts + [text[last:].strip()]


def kinds(ctx):
    """The kinds of labels, and their formats"""
    r = 'L04.kinds'
    ctx.rule(r, 'Headings, captions and documents have labels of their kind, '
             'and every kind has a format in the settings for the label and '
             'for references to it')
    tr = TraceRule(ctx, r, 'Heading.generate_label_kind')
    tr.expect('heading', [], [], ret=r"tuple\('heading', self\.__class__\."
              r"__name__\.lower\(\)\)", msg='the kind of the heading')
    tr = TraceRule(ctx, r, 'Caption.generate_label_kind')
    for own in (True, False):
        tr.expect('caption, own kind %s' % own, [
            ('self.kind is None', not own), ('self.kind', own)], [],
            ret=r'self\.kind' if own else r"tuple\('caption'\)",
            msg='the kind of the caption')
    tr = TraceRule(ctx, r, 'label_manager:Label.__init__')
    for text in (True, False):
        tr.expect('label, kind as text %s' % text, [
            (r'isinstance\(kind, str\)', text)], [
            ('doc', 'store', r'self\.doc_id = doc_id'),
            ('id', 'store', r'self\.id = id'),
            ('order', 'store', r'self\.order = order'),
            ('kind', 'store', r'self\.kind = ' + (
                r'(tuple|list)\(kind\)' if text else r'kind|tuple\(kind\)')),
            ('bad', 'store', '.*')], must=('doc', 'id', 'order', 'kind'),
            never=('bad',), msg='the label is as given')
    for cls in ('ContentLabel', 'DocumentLabel'):
        tr = TraceRule(ctx, r, cls + '.__init__')
        tr.expect(cls, [], [
            ('super', 'call', r'(super\(.*\)|Label)\.__init__\((self, )?doc_id'
             r'=doc_id, id=id, kind=kind, order=order(, self=self)?\)'),
            ('title', 'store', r'self\.title = title'),
            ('bad', 'call', r'(super\(.*\)|Label)\.__init__\(.*'),
            ('bad', 'store', r'self\.title = .*')],
            must=('super', 'title'), never=('bad',),
            msg='the label is as given')
    # ---- formats of the settings
    fm = formats(ctx)
    ctx.ob(r, 'settings', isinstance(fm, dict) and all(
        isinstance(v, str) for v in fm.values()), 'settings.py',
        'there are formats')
    if not isinstance(fm, dict):
        return
    made = [('heading', h) for h in HEADS] + [('caption', 'figure'),
                                              ('caption', 'table'),
                                              ('document',)]

    def entry(keys):
        for n in range(len(keys), 0, -1):
            if '_'.join(keys[:n]) in fm:
                return fm['_'.join(keys[:n])]
        return None
    for k in made:
        for ref in ((), ('ref',)):
            f = entry(ref + k)
            ctx.ob(r, 'format of %s' % '_'.join(ref + k), f is not None,
                   'settings.py', 'the kind has a format')
            if f is None:
                continue
            names = re.findall(r'@label\.(\w+)', f)
            ok = all(nm in ('number', 'title', 'tree_number', 'id', 'doc_id')
                     or nm in [h + x for h in HEADS
                               for x in ('_number', '_title')]
                     for nm in names) and names
            ctx.ob(r, 'values of %s' % '_'.join(ref + k), bool(ok),
                   'settings.py', 'the format has values of labels')
            own = [nm for nm in names if nm.endswith('_number') and
                   nm != 'tree_number']
            ctx.ob(r, 'number of %s' % '_'.join(ref + k), all(
                nm == k[-1] + '_number' for nm in own), 'settings.py',
                'the number is that of the kind')
            if k[0] in ('heading', 'document'):
                ctx.ob(r, 'title of %s' % '_'.join(ref + k),
                       'title' in names, 'settings.py', 'the title is shown')


def formats(ctx):
    """The formats of the settings"""
    m = ctx.repo.module('settings')
    b = m.bindings.get('default_context')
    node = b[-1][1] if b and b[-1][0] == 'value' else None
    if isinstance(node, ast.Dict):
        for k, v in zip(node.keys, node.values):
            if isinstance(k, ast.Constant) and k.value == 'label_fmts':
                return ctx.repo.eval_const(m, v)
    elif isinstance(node, ast.Call) and not node.args:
        for k in node.keywords:
            if k.arg == 'label_fmts':
                return ctx.repo.eval_const(m, k.value)
    raise AnalysisBroken('settings.default_context: label_fmts')


def numbers(ctx):
    r = 'L04.numbers'
    ctx.rule(r, 'The number of a label is that of its most specific kind, '
             'and its numbers and titles of headings are those of the '
             'headings it is below')
    l02.values(ctx, r)


def run(ctx):
    l01.formats(ctx, 'L04.format')
    find(ctx)
    r03.texts(ctx, 'L04.texts')
    kinds(ctx)
    numbers(ctx)
