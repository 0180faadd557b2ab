"""S01: event dispatch and the order of the processing stages"""
import ast
from .common import *
from sa.repo import FuncInfo, ValueRef

ASSUMPTIONS = [
    'weakref.ref(x)() is x while x is alive; sorted() sorts',
    'Receivers are connected at import time by decorators; code outside of '
    'the package that connects further receivers is not analysed.',
]

# stage order that the processing of documents and tags depends on
STAGES = {
    'document_onload': ['reset_document', 'load_document', 'process_headers',
                        'reset_label_manager', 'process_document_label',
                        'process_tags'],
    'tag_created': ['process_hash', 'process_macros', 'process_content',
                    'process_typography', 'process_paragraphs'],
    'document_tree_updated': ['add_target_builders', 'set_navigation_labels'],
    'document_deleted': ['delete_document'],
    'add_file': ['add_file'],
    'find_builder': ['find_builder'],
    'document_build': ['build'],
    'document_build_needed': ['build_needed'],
    'ref_label_dependencies': ['add_ref_labels'],
}


def emit_traces(ctx, rule, spec, gated):
    tr = TraceRule(ctx, rule, spec)
    R = r'self\.receivers\[elem\(sorted\(self\.receivers\)\)\]'
    TAG = 'tag=tag, ' if gated else ''
    for isref in (True, False):
        r = R + r'\(\)' if isref else R
        for alive in (True, False):
            if not isref and not alive:
                continue
            for gate in ((True, False) if gated else (None,)):
                fs = [(r'isinstance\(%s, weakref\.(ref|ReferenceType)\)' % R,
                       isref),
                      (r'type\(%s\) is weakref\.(ref|ReferenceType)' % R,
                       isref),
                      (r + ' is None', not alive), (r, alive or None)]
                if not alive:
                    fs[-1] = (r, ('c', None))
                if gate is not None:
                    fs.append((r'tag\.' + '__name__', gate))
                    fs.append((r'getattr\(tag, %s\.__name__, True\)' % r,
                               gate))
                out = tr.run([
                    ('item', 'iter', r'.*'),
                    ('sort', 'call', r'.*\.sort\(\)'),
                    ('run', 'call', r'%s\(%s\*\*=kwargs\)' % (r, TAG)),
                    ('badrun', 'call', r'%s(\(\))?\(.*\*\*=.*\)' % R),
                    ('keep', 'collect',
                     r'%s\(%s\*\*=kwargs\)' % (r, TAG)),
                    ('none', 'collect', 'None'),
                    ('other', 'collect', r'.*'),
                ], fs)
                runs = alive and gate is not False
                body = 'run keep' if runs else 'none'

                def ok(t):
                    if t.kind != 'return':
                        return False
                    s = seqs(t).replace('sort ', '')
                    return s in ('item', 'item %s item' % body, 'item ' +
                                 body + ' ' + body + ' item')
                case = 'receiver %s%s%s' % (
                    'weak' if isref else 'strong',
                    '' if alive else ' dead',
                    '' if gate is None else
                    ' enabled' if gate else ' disabled')
                tr.check(case, out, ok,
                         'each receiver is called once per event with the '
                         'event arguments and its result kept' if runs else
                         'receiver must be skipped with the result None')
                tr.check(case + ' reached', [t for t in out if seq(t).count(
                    'item') > 1], lambda t: True, 'loop runs')
    for n in tr.g.calls():
        if n.pred and n.term[1][0] != 'attr' and any(
                k == '**' for k, v in n.term[3]):
            ctx.ob(rule, tr.name + ': errors of receivers', not hidden(n),
                   ctx.where(n), 'an error of a stage must not be hidden')
    its = [n for n in tr.g.nodes if n.kind == 'iter' and n.pred]
    good = []
    for n in its:
        s = S(tr.g.expand(n.term, n))
        if re.fullmatch(r'sorted\(self\.receivers(\.items\(\))?\)', s) or (
                s in ('list(self.receivers.items())',
                      'list(self.receivers)') and
                tr.g.before(lambda m: m.kind == 'call' and
                            tr.g.cname(m) == 'sort' and not m.term[2] and
                            not m.term[3], n)):
            good.append(n)
    ctx.ob(rule, tr.name + ': iteration order', len(good) >= 1,
           ctx.where(tr.f), 'receivers must be visited sorted by order')
    rets = [n for n in tr.g.nodes if n.kind == 'ret' and n.pred and
            n.depth == 0]
    ctx.ob(rule, tr.name + ': results returned',
           rets and all(n.extra != 'implicit' for n in rets) and all(
               S(tr.g.expand(n.term, n)) != 'None' for n in rets),
           ctx.where(tr.f), 'the list of results is returned')


def registrations(repo):
    """[(signal name, order, receiver FuncInfo, weak)]"""
    out = []
    for f in repo.functions:
        for d in getattr(f.node, 'decorator_list', []):
            if isinstance(d, ast.Call) and isinstance(
                    d.func, ast.Attribute) and d.func.attr == 'connect_via':
                name = signal_name(repo, f.module, d.func.value)
                a = {k.arg: k.value for k in d.keywords}
                if d.args:
                    a.setdefault('order', d.args[0])
                if len(d.args) > 1:
                    a.setdefault('weak', d.args[1])
                order = repo.eval_const(f.module, a['order']) \
                    if 'order' in a else None
                weak = repo.eval_const(f.module, a['weak']) \
                    if 'weak' in a else True
                out.append((name, order, f, weak))
    for m in repo.modules.values():
        for st in m.tree.body:
            c = st.value if isinstance(st, ast.Expr) else None
            if isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Attribute) and c.func.attr == 'connect':
                name = signal_name(repo, m, c.func.value)
                a = dict(zip(('receiver', 'order', 'weak'), c.args))
                a.update({k.arg: k.value for k in c.keywords})
                f = repo.resolve_expr(m, a['receiver'])
                out.append((name, repo.eval_const(m, a['order']), f,
                            repo.eval_const(m, a['weak'])
                            if 'weak' in a else True))
    return out


def signal_name(repo, module, expr):
    """Name of the signal an expression denotes, else None"""
    if isinstance(expr, ast.Name):
        # a receiver may be defined under the name of its signal
        for kind, payload in module.bindings.get(expr.id, ()):
            if kind == 'from':
                m = repo.modules.get(payload[0])
                e = repo.resolve_global(m, payload[1]) if m else None
            elif kind == 'value':
                e = ValueRef(module, expr.id, payload)
            else:
                continue
            r = _signal(repo, e)
            if r is not None:
                return r
        return None
    return _signal(repo, repo.resolve_expr(module, expr))


def _signal(repo, e):
    if isinstance(e, ValueRef) and isinstance(e.node, ast.Call):
        c = e.node
        if isinstance(c.func, ast.Name) and c.func.id == 'signal' or \
                isinstance(c.func, ast.Attribute) and c.func.attr == 'signal':
            a = c.args[0] if c.args else None
            for k in c.keywords:
                if k.arg == 'name':
                    a = k.value
            try:
                return repo.eval_const(e.module, a)
            except ValueError:
                return None
    return None


def ordered(ctx, r, signal, names=None):
    """The stages of an event that a property depends on are registered, once
    each, in their order"""
    names = names or STAGES[signal]
    regs = {}
    for name, order, f, weak in registrations(ctx.repo):
        if name == signal and f is not None:
            regs.setdefault(f.name, []).append((order, f))
    last = None
    for n in names:
        got = regs.get(n, [])
        ctx.ob(r, 'stage ' + n, len(got) == 1, signal,
               'stage %s of %s is registered %d times' % (n, signal,
                                                          len(got)))
        if len(got) != 1:
            continue
        order, f = got[0]
        if last is not None and order is not None:
            ctx.ob(r, '%s before %s' % (last[1], n), last[0] is None or
                   last[0] < order, ctx.where(f), 'order of the stages')
        last = (order, n)


def imported(repo, root):
    """Modules loaded by importing `root`"""
    edges = {}
    for m, base, name in repo.import_edges:
        e = edges.setdefault(m.name, set())
        e.add(base)
        if name:
            e.add(base + '.' + name)
    seen, todo = set(), [root]
    while todo:
        n = todo.pop()
        parts = n.split('.')
        for i in range(1, len(parts) + 1):
            p = '.'.join(parts[:i])
            if p in repo.modules and p not in seen:
                seen.add(p)
                todo += list(edges.get(p, ()))
    return seen


def run(ctx):
    repo = ctx.repo
    # --- connect
    r = 'S01.connect'
    ctx.rule(r, 'Connecting at a free order stores the receiver under that '
             'order; at an occupied order it is refused and nothing changes')
    tr = TraceRule(ctx, r, 'Signal.connect')
    ev = [('set', 'store', r'self\.receivers\[order\] = (?P<v>.*)'),
          ('set', 'call', r'self\.receivers\.(setdefault|__setitem__)'
           r'\(order, (?P<v>.*)\)'),
          ('set2', 'store', r'self\.receivers.*')]
    OCC = r'order in self\.receivers'
    NG = r'self\.receivers\.get\(order\) is None'
    tr.check('occupied', tr.run(ev, [(OCC, True), (NG, False)]),
             lambda t: raises(t, 'DuplicateSignal') and not t.ev,
             'an occupied order must raise DuplicateSignal')
    for weak in (True, False):
        v = 'weakref.ref(receiver)' if weak else 'receiver'
        tr.check('free, weak=%s' % weak,
                 tr.run(ev, [(OCC, False), (NG, True), ('weak', weak)]),
                 lambda t: t.kind == 'return' and t.ev == (('set', v),),
                 'the receiver must be stored once under its order')
    dec = [f for f in repo.functions if f.parent is not None and
           f.parent.short.endswith('Signal.connect_via')]
    r = 'S01.decorator'
    ctx.rule(r, 'The decorator connects the function with the given order '
             'and gives the function back')
    if dec:
        tr = TraceRule(ctx, r, dec[0])
        out = tr.run([('con', 'call', r'self\.connect\((?P<a>.*)\)')])
        p0 = dec[0].params[0]

        tr.check('connects', out, lambda t: conn_ok(t, p0),
                 'decorator must connect and return the function')
    # --- emit
    r = 'S01.emit'
    ctx.rule(r, 'Emitting calls each live receiver once, sorted by order, '
             'with the event arguments and collects every result')
    emit_traces(ctx, r, 'Signal.emit', False)
    r = 'S01.tag-emit'
    ctx.rule(r, 'Tag creation runs the receivers like any event except for '
             'the ones the tag switches off by name')
    emit_traces(ctx, r, 'tags.signals:emit', True)
    m = repo.module('tags.signals')
    hit = False
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(
                isinstance(t, ast.Attribute) and t.attr == 'emit'
                for t in st.targets):
            for n in ast.walk(st.value):
                if isinstance(n, (ast.Name, ast.Attribute)) and \
                        repo.resolve_expr(m, n) is ctx.fn('tags.signals:emit'):
                    hit = signal_name(repo, m, st.targets[0].value) == \
                        'tag_created'
        if isinstance(st, ast.Expr) and 'setattr' in ast.dump(st.value) and \
                "'emit'" in ast.dump(st.value):
            hit = True
    ctx.ob(r, 'tag_created.emit', hit, 'disseminate/tags/signals.py',
           'the tag signal must use the emitter that honours the switches')
    # --- one signal object per name
    r = 'S01.namespace'
    ctx.rule(r, 'A name always denotes one signal object')
    tr = TraceRule(ctx, r, 'Namespace.signal')
    out = tr.run([('new', 'call', r'Signal\(.*\)'),
                  ('put', 'store', r'self\[name\] = Signal\(.*\)'),
                  ('put', 'call', r'self\.setdefault\(name, Signal\(.*\)\)'),
                  ('overwrite', 'store', r'self\[name\] = .*')], exc=True)
    tr.check('returns', out, lambda t: t.kind != 'return' or
             S(t.value) in ('self[name]', 'self.get(name)') or
             ('put' in t.ev and re.fullmatch(
                 r'(self\.setdefault\(name, )?Signal\(.*name=name\)\)?',
                 S(t.value))),
             'the stored signal must be returned')
    out = tr.run([('put', 'store', r'self\[name\] = .*'),
                  ('put', 'call', r'self\.(pop|__setitem__|update)\(.*\)')],
                 [(r'name in self', True),
                  (r'self\.get\(name\) is None', False)])
    tr.check('existing', out, lambda t: t.kind == 'return' and not t.ev,
             'an existing signal must not be replaced')
    # --- the table of stages
    regs = registrations(repo)
    ctx.need('S01.stages', regs, 17, 'connected receivers')
    r = 'S01.unique-order'
    ctx.rule(r, 'No two receivers of a signal have the same order (the '
             'second would be refused at import)')
    seen = {}
    for name, order, f, weak in regs:
        k = (name, order)
        ctx.ob(r, '%s %s' % (name, f.short), name is not None and
               isinstance(order, int) and k not in seen, ctx.where(f),
               'signal %s order %s also used by %s' % (
                   name, order, seen.get(k)))
        seen[k] = f.short
    r = 'S01.stages'
    ctx.rule(r, 'All processing stages are connected to their event in the '
             'documented order')
    for sig, names in STAGES.items():
        have = {}
        for name, order, f, weak in regs:
            if name == sig:
                have[f.name] = order
        order = [have.get(n) for n in names]
        for n in names:
            ctx.ob(r, '%s: %s connected' % (sig, n), n in have,
                   sig, 'stage %s is not connected to %s' % (n, sig))
        for a, b in zip(names, names[1:]):
            ok = have.get(a) is None or have.get(b) is None or \
                have[a] < have[b]
            ctx.ob(r, '%s: %s before %s' % (sig, a, b), ok, sig,
                   'stages run in the wrong order')
    r = 'S01.connected'
    ctx.rule(r, 'Receivers are module level functions (they stay alive) in '
             'modules that importing the document package loads')
    mods = imported(repo, 'disseminate.document') | \
        imported(repo, 'disseminate.cli.main')
    for name, order, f, weak in regs:
        ctx.ob(r, f.short, isinstance(f, FuncInfo) and f.parent is None and
               f.cls is None and f.module.name in mods, ctx.where(f),
               'receiver would be collected or never connected')
    # --- switches name receivers
    r = 'S01.switch'
    ctx.rule(r, 'Every process_* switch of a tag class names a connected '
             'stage of tag creation')
    stages = {f.name for n, o, f, w in regs if n == 'tag_created'}
    tag = ctx.cls('Tag', 'tags.tag')
    for c in [tag] + repo.subclasses(tag):
        for a in c.own:
            if a.startswith('process_') and not isinstance(
                    c.own[a], FuncInfo):
                ctx.ob(r, c.name + '.' + a, a in stages, ctx.where(c),
                       'no stage of this name: the switch has no effect')
    # --- arguments
    r = 'S01.arguments'
    ctx.rule(r, 'The arguments of every emission fit every receiver')
    sites = 0
    for f in repo.functions:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'emit':
                sig = signal_name(repo, f.module, n.func.value)
                if sig is None:
                    continue
                sites += 1
                kws = {k.arg for k in n.keywords}
                for name, order, rf, weak in regs:
                    if name != sig or None in kws:
                        continue
                    ok = not n.args and all(
                        p in kws for p in rf.required()) and all(
                        rf.accepts_kw(k) for k in kws)
                    ctx.ob(r, '%s -> %s' % (f.short, rf.short), ok,
                           '%s:%d' % (f.file, n.lineno),
                           'arguments %s do not fit' % sorted(kws))
    ctx.need(r, range(sites), 8, 'emission sites')


def conn_ok(t, p0):
    c = t.get('con')
    return (t.kind == 'return' and S(t.value) == p0 and len(c) == 1 and
            bool(re.search(r'\border\b', c[0][1])) and
            bool(re.search(r'\b%s\b' % p0, c[0][1])))
