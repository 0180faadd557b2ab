"""R04: only listed commands, environments and elements are produced, with
their required arguments"""
import ast
import itertools

from .common import *
from . import t01
from .p01 import depends

ASSUMPTIONS = ['The elements made by lxml have the name and the attributes '
               'given to it']

# elements and attributes that run code or load other pages
ACTIVE = {'script', 'iframe', 'frame', 'object', 'embed', 'applet', 'base',
          'form', 'meta', 'svg', 'math', 'input', 'button', 'portal'}
# commands that read or write files, run programs, or define commands
TEXACTIVE = {'input', 'include', 'write', 'write18', 'immediate', 'openin',
             'openout', 'read', 'catcode', 'def', 'edef', 'gdef', 'xdef',
             'let', 'newcommand', 'renewcommand', 'csname', 'special',
             'directlua', 'usepackage', 'documentclass', 'include',
             'verbatiminput', 'lstinputlisting', 'ShellEscape', 'end',
             'begin', 'newenvironment'}

# the classes of the style sheets
CLASSES = {'w100', 'w75', 'w66', 'w50', 'w33', 'w25'}


def txt(t):
    """A string built from pieces as one text"""
    out = ''
    for p in pieces(t):
        if isinstance(p, str):
            out += p
        elif p[0] == 'p':
            out += '<%s>' % p[1]
        else:
            out += '<%s>' % S(p)
    return out


def get(table, key):
    return r'settings\.%s(\[%s\]|\.get\(%s(, [^()]*)?(\(\))?\))' % (
        table, key, key)


def known(table, key, value):
    s = r'settings\.' + table
    return [(r'%s in %s' % (key, s), value),
            (r'%s not in %s' % (key, s), not value),
            (get(table, key)[:-len(r'(\[%s\]|\.get\(%s(, [^()]*)?(\(\))?\))' % (
                key, key))] + r'\.get\(%s(, None)?\) is None' % key, not value)]


def latex(ctx):
    r = 'R04.latex'
    ctx.rule(r, 'A LaTeX command or environment is only written if it is '
             'listed, with all its required arguments and the optional ones '
             'it accepts')
    for fn, kind, key in (('tex_cmd', 'cmd', 'cmd'), ('tex_env', 'env', 'env')):
        A, O = 'tex_%s_arguments' % kind, 'tex_%s_optionals' % kind
        AT = r'(Attributes\(attributes\)|attributes)'
        REQ = AT + r'\.filter\(attrs=%s, sort_by_attrs=True, target=' \
            r'\'\.?tex\'\)' % get(A, key)
        OPT = AT + r'\.filter\(attrs=%s(, sort_by_attrs=True)?, target=' \
            r'\'\.?tex\'\)' % get(O, key)
        tr = TraceRule(ctx, r, fn)
        for req, opt in itertools.product((True, False), repeat=2):
            base = known(A, key, req) + known(O, key, opt) + [
                (r'.*\.filter\(.* is None', False),
                (r'%s is None' % AT, False), ('attributes', True)]
            if not (req or opt):
                tr.expect('unlisted', base, [], error='TexFormatError')
                continue
            same = r'len\(%s\) == len\(%s\)' % (REQ, get(A, key))
            alt = r'len\(%s\) == len\(%s\)' % (get(A, key), REQ)
            differ = [(same, False), (alt, False),
                      (same.replace('==', '!='), True),
                      (alt.replace('==', '!='), True)]
            agree = [(p, not v) for p, v in differ]
            if req:
                tr.expect('a required argument is missing, optionals %s' % opt,
                          base + differ, [], error='TexFormatError')
            for content, isstr, text in itertools.product(
                    (True, False), (True, False), (True, False)):
                if not content or not isstr and text:
                    continue
                for mn, ind in itertools.product((True, False), repeat=2):
                    if fn == 'tex_cmd' and mn or fn == 'tex_env' and not (
                            isstr and text):
                        continue
                    fs = base + agree + [
                        (r'isinstance\(formatted_content, str\)', isstr),
                        (r'formatted_content is None', not isstr),
                        ('formatted_content', text),
                        (r"formatted_content == ''", isstr and not text),
                        ('len\\(formatted_content\\)', text),
                        ('min_newlines', mn), (r'indent is None', not ind)]
                    R = r'<%s\.tex_arguments>' % REQ if req else ''
                    P = r'<%s\.tex_optionals>' % OPT if opt else ''
                    if fn == 'tex_cmd':
                        C = (r'\{<formatted_content>\}' if text else
                             r'\{(<formatted_content>)?\}') if isstr else ''
                        full = r'\\<cmd>%s%s%s' % (R, P, C)
                    else:
                        full = r'\\begin\{<env>\}%s%s%s\n?(<str\()?<?formatted_' \
                            r'content>?(\)>)?\n?\\end\{<env>\}' % (
                                R, P, ' %' if mn else '')

                    def ok(t, full=full, ind=ind, mn=mn, fn=fn):
                        if t.kind != 'return':
                            return False
                        s = txt(t.value)
                        if fn == 'tex_env' and not mn:
                            if s[:1] != '\n' or s[-1:] != '\n':
                                return False
                            s = s[1:-1]
                        if ind:
                            v = [x for x in subterms(t.value) if
                                 call_name(x) == 'space_indent']
                            if not v or not (s.startswith('<space_indent(')
                                             and s.endswith('>')):
                                return False
                            kw = dict(v[0][3])
                            a = kw.get('s', v[0][2][0] if v[0][2] else None)
                            if S(kw.get('number', v[0][2][1] if len(
                                    v[0][2]) > 1 else None)) != 'indent':
                                return False
                            s = txt(a)
                        return re.fullmatch(full, s) is not None
                    tr.check('text, required %s optional %s string %s '
                             'content %s minimal %s indented %s' % (
                                 req, opt, isstr, text, mn, ind),
                             tr.run([], fs, limit=3000), ok,
                             'the text must have the name, the required '
                             'arguments, the optional ones and the content')


def arguments(ctx):
    r = 'R04.arguments'
    ctx.rule(r, 'All arguments are written, each in its brackets')
    K, V = r'elem\(self\)', r'self\[elem\(self\)\]'
    ev = [('put', 'collect', r'(?P<x>.*)'), ('each', 'iter', r'self(\.items\('
          r'\)|\.keys\(\))?')]
    for spec, open_, close, sep, pair in (
            ('Attributes.tex_arguments', '{', '}', '', False),
            ('Attributes.tex_optionals', '[', ']', r',\s*', True)):
        tr = TraceRule(ctx, r, spec)
        for some, pos in itertools.product((True, False), repeat=2):
            fs = [('self', some), (r'len\(self\)', some),
                  (r'(0 < len\(self\)|len\(self\) != 0)', some),
                  (r'len\(self\) == 0', not some),
                  (r'ispositional\(p=%s\)' % V, pos),
                  (r'comp\(.*|list\(\)', some)]
            if not some:
                if not pos:
                    tr.check('none', [t for t in tr.run(ev, fs) if not
                                      t.has('put')],
                             lambda t: t.kind == 'return' and pieces(
                                 t.value) == [], 'no text for no attributes')
                continue
            item = K if pos else K + '=' + V if pair else V
            if not pair:
                item = re.escape(open_) + item + re.escape(close)

            cl = matcher(*ev)
            out = [t for t in ctx.trace(tr.g, full('put', cl), facts(*fs),
                                        exc=False)
                   if seq(t).count('each') >= 2]

            def good(t, item=item, sep=sep, open_=open_, close=close,
                     pair=pair):
                if t.kind != 'return':
                    return False
                put = [e[1] for e in t.ev if e[0] == 'put']
                ps = pieces(t.value)
                if pair:
                    if ps[0] != open_ or ps[-1] != close:
                        return False
                    ps = ps[1:-1]
                return len(put) == 1 and re.fullmatch(item, put[0]) and \
                    len(ps) == 1 and call_name(ps[0]) == 'join' and \
                    re.fullmatch(sep, ps[0][1][1][1]) is not None
            tr.check('each, positional %s' % pos, out, good,
                     'every attribute is written as %s' % item)


def full(name, classify):
    """The collected strings as flat texts"""
    def cl(n, env):
        out = [e for e in classify(n, env) or () if (
            e if isinstance(e, str) else e[0]) != name]
        for kind, s, term in effects(n, env):
            if kind == 'collect':
                out.append((name, ''.join(
                    p if isinstance(p, str) else S(p) if p[0] != 'p' else p[1]
                    for p in pieces(term))))
        return out or None
    return cl


def html(ctx):
    r = 'R04.html'
    ctx.rule(r, 'An html element is only made if it is listed (a span '
             'otherwise), with its required attributes, and only the optional '
             'attributes it accepts')
    A, O = 'xhtml_tag_arguments', 'xhtml_tag_optionals'
    AT = r'(Attributes\(attributes\)|attributes)'
    tr = TraceRule(ctx, r, 'xhtml_tag')

    def flt(table, key):
        return AT + r'\.filter\(attrs=%s, sort_by_attrs=True, target=target\)' \
            % get(table, key)
    for req, opt in itertools.product((True, False), repeat=2):
        allowed = req or opt
        key = 'name' if allowed else "'span'"
        name = key
        REQ, OPT = flt(A, key), flt(O, key)
        spanr = False       # a span needs no arguments
        base = known(A, 'name', req) + known(O, 'name', opt) + \
            known(A, "'span'", spanr) + known(O, "'span'", True) + [
            (r'isinstance\(attributes, str\)', True),
            (r'attributes is None', False),
            (r'isinstance\(formatted_content, list\)', True),
            (r'.*\.filter\(.* is None', False), (r'nsmap is None', True),
            ("method == 'xhtml'", False)]
        same = r'len\(%s\) == len\(%s\)' % (REQ, get(A, key))
        alt = r'len\(%s\) == len\(%s\)' % (get(A, key), REQ)
        differ = [(same, False), (alt, False),
                  (same.replace('==', '!='), True),
                  (alt.replace('==', '!='), True)]
        agree = [(p, not v) for p, v in differ]
        case = 'required %s optional %s' % (req, opt)
        if req:
            tr.check('an attribute is missing, ' + case, tr.run(
                [], base + differ + [('level == 1', True)], limit=20000),
                lambda t: raises(t, 'XHtmlFormatError'),
                'XHtmlFormatError must be raised')
        for level in (True, False):
            ev = [('req', 'call', REQ), ('opt', 'call', OPT),
                  ('filter', 'call:filter', r'.*'),
                  ('make', 'call', r'(E|ElementMaker\(nsmap=nsmap\)|lxml\.'
                   r'builder\.E)\((?P<x>[^(),]*)(, star\(.*\))?\)'),
                  ('make2', 'call', r'etree\.(Sub)?Element\(.*'),
                  ('set', 'call', r'(E|ElementMaker).*\.set\(.*'),
                  ('sets', 'iter', r'(.*Attributes\(.*\)\.filter.*|.*'
                   r'Attributes\(\).*)')]
            fs = base + agree + [('level == 1', level)]
            want = name if allowed else "'span'"

            def made(t, want=want, level=level, req=req, opt=opt,
                     allowed=allowed):
                if t.kind != 'return':
                    return False
                ns = [x[1] for x in t.get('make')]
                if not ns or any(x != want for x in ns) or t.has('make2'):
                    return False
                if t.has('filter') or t.has('req') != req or \
                        t.has('opt') != (opt or not allowed):
                    return False
                s = S(t.value)
                mk = r'(E|ElementMaker\(nsmap=nsmap\))\(.*\)'
                if level:
                    return re.fullmatch(
                        r'Markup\(etree\.tostring\(%s, method=(method|'
                        r"'(xml|html)'), pretty_print=pretty_print\)\.decode"
                        r"\((encoding=)?('utf-?8')?\)\)" % mk, s, re.I) \
                        is not None
                return re.fullmatch(mk, s) is not None
            tr.check('element, %s level %s' % (case, level),
                     tr.run(ev, fs, limit=20000), made,
                     'only a listed element or a span is made')
        # every attribute with a value is put on the element
        for none in (True, False):
            ts = [t for t in tr.run(
                [e for e in ev if e[0] != 'sets'] + [
                    ('kv', 'iter', r'.*\.items\(\)')], [
                    (r'.*elem\(.* is None', none)] + base + agree + [
                    ('level == 1', False), (r'.* is None', False)],
                limit=20000) if seq(t).count('kv') >= 2 and
                t.kind == 'return']
            tr.check('set, %s none %s' % (case, none), ts,
                     lambda t, none=none: t.some('set') != none,
                     'set unless it has no value', minimum=0)
    g = tr.g
    sets = [n for n in g.calls() if n.pred and n.kind == 'call' and
            n.term[1][0] == 'attr' and n.term[1][2] in ('set', 'update') and
            (n.term[1][2] == 'set' or n.term[1][1][0] == 'attr' and
             n.term[1][1][2] == 'attrib')]
    for what, need in (('required attributes', A), ('optional attributes', O)):
        N = lambda x: S(x) == 'settings.' + need
        froms = {n.term for n in g.nodes if n.pred and n.kind == 'call' and
                 g.cname(n) == 'filter' and any(
                     depends(g, v, n, N) for v in list(n.term[2]) + [
                         v for _, v in n.term[3]])}
        F = lambda x: x in froms
        ctx.ob(r, 'xhtml_tag: the %s are put on the element' % what, any(
            depends(g, a, n, F) for n in sets for a in list(n.term[2]) + [
                v for _, v in n.term[3]]), ctx.where(tr.f),
            'no attribute of the element comes from the %s' % what)

    # the name of another tag is its class, unless it has one
    other = known(A, 'name', False) + known(O, 'name', False) + \
        known(A, "'span'", False) + known(O, "'span'", True) + [
            (r'isinstance\(attributes, str\)', True), ('level == 1', False),
            (r'attributes is None', False), (r'nsmap is None', True),
            (r'isinstance\(formatted_content, list\)', True),
            (r'.*\.filter\(.* is None', False), ("method == 'xhtml'", False)]
    cls = r"'class' in (%s|Attributes\(\)|dict\(\))" % flt(O, "'span'")
    ev = [('class', 'store', r"Attributes\(\)\['class'\] = name"),
          ('class', 'call', r"(E|Elem).*\.set\('class', name\)"),
          ('bad', 'store', r".*\['class'\] = .*"),
          ('bad', 'call', r"(E|Elem).*\.set\('class', .*\)")]
    for has in (True, False):
        tr.check('other tags, class %s' % has, tr.run(ev, other + [(cls, has)],
                                                      limit=20000),
                 lambda t, has=has: t.kind == 'return' and not t.has('bad') and
                 t.some('class') != has, 'the name is the class unless there '
                 'is one')
    # the contents
    X = 'formatted_content'
    EL = r'elem\((list\(\)|%s|list\(%s\)).*\)' % (X, X)
    ev = [('put', 'collect', r'(?P<x>(etree\.fromstring\()?(\(?elem\(.*|%s)'
           r'\)?)' % X), ('each', 'iter', r'%s|list\(%s\)' % (X, X))]
    base = known(A, 'name', False) + known(O, 'name', True) + [
        (r'isinstance\(attributes, str\)', True), ('level == 1', False),
        (r'nsmap is None', True), ("method == 'xhtml'", False),
        (r'attributes is None', False),
        (r'.*(filter\(.*|Attributes\(\).*) is None', False)]
    for lst in (True, False):
        el = r'elem\(%s\)' % (X if lst else r'list\(%s\)' % X)
        for what in ('empty', 'none', 'markup', 'other'):
            fs = base + [
                (r'isinstance\(%s, list\)' % X, lst),
                (r'isinstance\(%s, .*Markup.*\)' % el, what == 'markup'),
                (r"('' == %s|%s == '')" % (el, el), what == 'empty'),
                (r'(None == %s|%s is None)' % (el, el), what == 'none'),
                (r'%s(\[None\:None.*\])? is None' % X, False)]
            want = el if what == 'other' else r'etree\.fromstring\((text=)?' \
                r'%s\)' % el if what == 'markup' else None

            def kept(t, want=want):
                p = [e[1] for e in t.get('put') if not re.search(
                    'filter|Attributes', e[1])]
                return not p if want is None else len(p) == 1 and \
                    re.fullmatch(want, p[0]) is not None
            tr.check('content, list %s, %s' % (lst, what), [
                t for t in tr.run(ev, fs, limit=20000)
                if seq(t).count('each') >= 2 and t.kind == 'return'], kept,
                'contents are kept, except empty ones')
    # the same for a span, the namespaces, and the method
    full = (r'\(%s \+ .*\)|%s|list\(\)|comp\(.*|unk.*|len\(.*' % (X, X), True)
    tr.check('contents in a span', tr.run([
        ('with', 'call', r"(E|ElementMaker\(.*?\))\('span', star\(.*\)\)"),
        ('with', 'call', r'(E|Elem).*\.(extend|append)\(.*')],
        other + [full], limit=20000), lambda t: t.kind != 'return' or
        t.some('with'), 'made with its contents')
    tr.check('namespaces', tr.run([
        ('with', 'call', r'ElementMaker\(.*nsmap=nsmap.*\)\(name, star\(.*'),
        ('bad', 'call', r'E\(.*')],
        [(r'nsmap is None', False), full, (
            r'isinstance\(%s, list\)' % X, True)] + base, limit=20000),
        lambda t: t.kind != 'return' or t.some('with') and not t.has('bad'),
        'an element with its namespaces')
    for m, want in (('html', 'html'), ('xhtml', 'xml'), ('xml', 'xml')):
        tr.check('method %s' % m, tr.run([
            ('text', 'call', r'etree\.tostring\(.*method=\'?(?P<x>\w+)\'?, .*')],
            [('method', ('c', m)), ('level == 1', True)] + [
                b for b in base if b[0] not in (
                    'level == 1', "method == 'xhtml'")], limit=20000),
            lambda t, m=m, want=want: t.kind != 'return' or
            {e[1] for e in t.get('text')} == {want},
            'html is written as html, xhtml as xml')
    made = [n for n in g.calls() if n.pred and n.kind == 'call' and any(
        a[0] == 'star' for a in n.term[2]) and any(depends(
            g, a, n, lambda x: x[0] == 'p' and x[1].split('.', 1)[1] == X)
            for a in n.term[2])]
    ctx.ob(r, 'xhtml_tag: the contents are put in the element', bool(made),
           ctx.where(tr.f), 'no element is made with the contents')
    full_ = r'.*(%s|list\(\)|comp\(|unk).*' % X
    ev = [('with', 'call', r'(E|ElementMaker\(.*?\))\(name, star\(.*\)\)'),
          ('without', 'call', r'(E|ElementMaker\(.*?\))\(name\)'),
          ('append', 'call', r'(E|Elem).*\.(extend|append)\(.*')]
    fs = base + [(r'isinstance\(%s, list\)' % X, True),
                 (r'\(%s \+ .*\)|%s|list\(\)|comp\(.*|unk.*|len\(.*' % (X, X),
                  True)]
    tr.check('contents in the element', tr.run(ev, fs, limit=20000),
             lambda t: t.kind != 'return' or t.some('with') or
             t.some('append'), 'made with its contents')


def tables(ctx):
    """The elements and commands that are listed"""
    r = 'R04.tables'
    ctx.rule(r, 'No listed element, attribute or command runs code or reads '
             'files')
    mod = ctx.repo.modules['disseminate.settings']
    found = 0
    for st in mod.tree.body:
        if not (isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict)
                and isinstance(st.targets[0], ast.Name)):
            continue
        nm = st.targets[0].id
        if nm not in ('xhtml_tag_arguments', 'xhtml_tag_optionals',
                      'tex_cmd_arguments', 'tex_cmd_optionals',
                      'tex_env_arguments', 'tex_env_optionals'):
            continue
        found += 1
        bad = []
        for k, v in zip(st.value.keys, st.value.values):
            key = k.value if isinstance(k, ast.Constant) else None
            if nm.startswith('xhtml'):
                if key in ACTIVE:
                    bad.append(key)
                bad += [x.value for x in ast.walk(v) if isinstance(
                    x, ast.Constant) and isinstance(x.value, str) and (
                    x.value.lower().startswith('on') or x.value in (
                        'srcdoc', 'formaction', 'background', 'http-equiv'))]
            elif key in TEXACTIVE:
                bad.append(key)
        ctx.ob(r, nm, not bad, 'src/disseminate/settings.py:%d' % st.lineno,
               'listed: %s' % ', '.join(map(str, bad)))


def trace_pieces(ctx, tr, pat, ev, fs):
    """Traces with the parts of what is stored"""
    base = matcher(*ev)

    def cl(n, env):
        out = list(base(n, env) or ())
        for kind, text, term in effects(n, env):
            if kind == 'store':
                out.append(('set', tuple(pieces(term[2]))) if re.fullmatch(
                    pat, text) else 'bad')
        return out or None
    return ctx.trace(tr.g, cl, facts(*fs), exc=False, limit=3000)


def windows(ctx):
    r = 'R04.windows'
    ctx.rule(r, 'Every width from 1 to 100 percent is in exactly one window, '
             'and larger windows have larger widths')
    for fn in ('tex_percentwidth', 'xhtml_percentwidth'):
        f = ctx.fn(fn)
        f_tree = f.node
        for d in ast.walk(f_tree):
            pairs = None
            if isinstance(d, ast.Dict) and d.keys:
                pairs = list(zip(d.keys, d.values))
            elif isinstance(d, (ast.Tuple, ast.List)) and d.elts and all(
                    isinstance(e, ast.Tuple) and len(e.elts) == 2
                    for e in d.elts):
                pairs = [tuple(e.elts) for e in d.elts]
            try:
                pairs = [(ast.literal_eval(a), ast.literal_eval(b))
                         for a, b in pairs or ()]
            except ValueError:
                continue
            if not pairs:
                continue
            if all(isinstance(a, tuple) for a, b in pairs):
                pairs = [(b, a) for a, b in pairs]
            if not all(isinstance(b, tuple) and len(b) == 2 and all(
                    isinstance(x, (int, float)) for x in b)
                    for a, b in pairs):
                continue
            bad = [w for w in range(1, 101) if sum(
                lo < w <= hi for a, (lo, hi) in pairs) != 1]
            size = []
            for a, (lo, hi) in pairs:
                m = re.search(r'\d+(\.\d+)?', str(a))
                size.append((lo, float(m.group()) if m else 0))
            size.sort()
            mono = all(x[1] < y[1] for x, y in zip(size, size[1:]))
            # the width of a window is one of its widths, or just below
            near = all(lo - 2 <= s * (100 if s <= 1 else 1) <= hi for (lo, hi),
                       s in ((w, dict(size)[w[0]]) for a, w in pairs)
                       if s)
            if fn.startswith('xhtml'):
                near = near and {a for a, w in pairs} <= CLASSES
            ctx.ob(r, fn, not bad and mono and near, ctx.where(f),
                   'not in one window: %s' % bad[:5] if bad else
                   'the widths do not fit the windows')
    # only whole percentages give a window, others are kept or have no width
    AT = r'(Attributes\(attributes\)|attributes)'
    W = AT + r"\.get\((attr=)?'width', (default=None, )?target=target\)"
    INT = r'isinstance\((percentage\(value=%s\)), int\)' % W
    WIN = [('win', 'iter', r'(dict|tuple|list)\(tuple\(.*|.*[wW]indows.*')]
    CLS = r"%s\['class'\]" % AT
    # the entry of the width, which may be one for the target (width.tex)
    FIND = r"find_item\((attr=)?'width', (.*, )?target=target\)"
    KEY = r'(.*%s.*|.*\btarget\b.*)' % FIND
    for inst in (True, False):
        I = [(r'isinstance\(attributes, Attributes\)', inst)]
        A_ = 'attributes' if inst else r'Attributes\(attributes\)'
        for fn in ('tex_percentwidth', 'xhtml_percentwidth'):
            tr = TraceRule(ctx, r, fn)
            ev = [('set', 'store', r'.*'), ('set', 'call', r'.*\.(update|'
                  r'__setitem__|setdefault)\(.*')] + WIN
            tr.expect('no width, attributes %s' % inst,
                      I + [(W + ' is None', True)], ev, ret=A_, never=('set',))
        tr = TraceRule(ctx, r, 'xhtml_percentwidth')
        tr.expect('no percentage, attributes %s' % inst, I + [
            (W + ' is None', False), (INT, False),
            (r'percentage\(.* is None', True)], ev, ret=A_, never=('set',))
        for has in (True, False):
            val = r"(?P<x>.*)"
            tr.check('class added, has %s, attributes %s' % (has, inst), [
                t for t in trace_pieces(ctx, tr, r"%s\['class'\] = %s" % (
                    A_, val), WIN, I + [
                        (W + ' is None', False), (INT, True),
                        (r'percentage\(.* is None', False),
                        (r"'class' in " + AT, has)])
                if t.has('win') and t.some('set')],
                lambda t, has=has, A_=A_: t.kind == 'return' and re.fullmatch(
                    A_, S(t.value)) and not t.has('bad') and all(
                    [p if isinstance(p, str) else '' for p in e[1]] == (
                        ['', ' ', ''] if has else ['']) or
                    has and len(e[1]) == 1 and call_name(e[1][0]) == 'join'
                    for e in t.get('set')),
                'the class of the window is added to the others')
        tr = TraceRule(ctx, r, 'tex_percentwidth')
        for pos in (True, False):
            fs = I + [(W + ' is None', False), ('use_positional', pos),
                      (r'percentage\(.* is None', False)]
            tr.check('other widths, positional %s, attributes %s' % (
                pos, inst), tr.run([
                    ('pos', 'store', r"%s\[(?P<x>.*)\] = (\w+\.)*String"
                     r'PositionalValue' % A_),
                    ('set', 'store', r"%s\[%s\] = (?P<x>.*)" % (A_, KEY)),
                    ('bad', 'store', r'.*')], fs + [(INT, False)]),
                lambda t, pos=pos: t.kind == 'return' and re.fullmatch(
                    A_, S(t.value)) and not t.has('bad') and [
                        e[0] for e in t.get('pos') + t.get('set')] == [
                        'pos' if pos else 'set'] and re.search(
                            W, str((t.get('pos') + t.get('set'))[0][1])),
                'the width itself is kept')
            tr.check('window, positional %s, attributes %s' % (
                pos, inst), [t for t in tr.run([
                    ('pos', 'store', r"%s\[(?P<x>.*textwidth.*)\] = (\w+\.)*"
                     r'String''PositionalValue' % A_),
                    ('set', 'store', r"%s\[%s\] = (?P<x>.*textwidth.*)"
                     % (A_, KEY)), ('bad', 'store', r'.*')] + WIN,
                    fs + [(INT, True), (r'isinstance\((elem.*)'
                           r', int\)', True), (r'elem.* is None', False)])
                    if seq(t).count('win') >= 2 and t.some('pos', 'set')],
                lambda t, pos=pos: t.kind == 'return' and re.fullmatch(
                    A_, S(t.value)) and not t.has('bad') and [
                        e[0] for e in t.get('pos') + t.get('set')] == [
                        'pos' if pos else 'set'],
                'the width of the window is used')


    # a window holds the widths above its lower end up to its upper end
    for fn in ('tex_percentwidth', 'xhtml_percentwidth'):
        tr = TraceRule(ctx, r, fn)
        for low, high in itertools.product((True, False), repeat=2):
            P = r'percentage\(.*'
            fs = [(r'isinstance\(attributes, Attributes\)', True),
                  (W + ' is None', False), (INT, True),
                  (r'percentage\([^<]* is None', False),
                  (r'.*elem\(.*\[0\] < ' + P, low),
                  (r'.*elem\(.*\[1\] < ' + P, not high),
                  (r'isinstance\(elem.*, int\)', True),
                  (r'elem.* is None', False), ('use_positional', False)]
            out = [t for t in tr.run([
                ('set', 'store', r".*\[('class'|%s)\] = .*elem\(.*" % KEY),
                ('win', 'iter', WIN[0][2])], fs) if seq(t).count('win') >= 2]
            if fn == 'xhtml_percentwidth' and low and high:
                out = [t for t in tr.run([
                    ('set', 'store', r".*\[('class'|%s)\] = .*elem\(.*" % KEY),
                    ('win', 'iter', WIN[0][2])], fs) if t.has('set')]
            tr.check('bounds, above %s, up to %s' % (low, high), out,
                     lambda t, want=low and high: t.has('set') == want,
                     'a window is ]lower, upper]', minimum=0 if fn.startswith(
                         'xhtml') and low and high else 1)


def percent(ctx):
    """The size of a percentage"""
    r = 'R04.windows'
    tr = TraceRule(ctx, r, 'percentage')
    st = [(r'isinstance\(value, str\)', True)]
    num = r'float\(value(\.strip\(\))?%s\)'
    pc = num % r"\.(r?strip\('[ %]+'\)|replace\('%', ''\)|" \
        r"removesuffix\('%'\))(\.strip\(\))?"
    ret = r'abs\((math\.)?ceil\(%s\)\)'
    for case, fs, want in (
            ('with a sign', st + [("'%' in value", True)], ret % pc),
            ('a fraction', st + [("'%' in value", False)], ret % (
                r'\(?(%s \* 100(\.0)?|100(\.0)? \* %s)\)?' % (
                    num % '', num % ''))),
            ('a number', [(r'isinstance\(value, str\)', False)],
             ret % 'value')):
        tr.check(case, [t for t in tr.run([], fs) if t.kind == 'return'],
                 lambda t, want=want: re.fullmatch(want, S(t.value))
                 is not None, 'the percentage, rounded up')


def run(ctx):
    latex(ctx)
    arguments(ctx)
    html(ctx)
    tables(ctx)
    windows(ctx)
    percent(ctx)
    t01.delimiters(ctx, 'R04.verb')
