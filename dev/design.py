"""Write DESIGN.md from the rules, claims, findings and seeds"""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.core import Ctx  # noqa

out = [open(HERE + '/dev/design_head.md').read()]
fixed = {}
for line in open(HERE + '/KNOWN_FINDINGS.txt'):
    m = re.match(r'(fixed|finding): property=(\S+) (\S+) (.*)', line)
    if m:
        fixed.setdefault(m.group(2), []).append(m.groups())
seeds = {}
for p in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(p))
    seeds.setdefault(d['property'], []).append(
        (os.path.basename(os.path.dirname(p)), d['needs']))
note = json.load(open(HERE + '/dev/design_notes.json'))
man = {c['property']: c for c in json.load(open(HERE + '/MANIFEST.json'))
       ['checks']}
props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    if i not in man:
        continue
    ctx = Ctx(i)
    mod = importlib.import_module('rules.' + i.lower())
    mod.run(ctx)
    out.append('### %s %s\n\n%s\n\n*Decided by:* %s\n' % (
        i, p['title'], p['statement'], man[i]['technique']))
    out.append('*Rules* (%d obligations over %d functions on this tree):\n'
               % (len(ctx.obs) // 10 * 10, len(ctx.analysed)))
    for k, v in ctx.rules.items():
        out.append('- `%s` (%d): %s.' % (
            k, sum(1 for o in ctx.obs if o[0] == k), v.rstrip('.')))
    if getattr(mod, 'ASSUMPTIONS', None):
        out.append('\n*Assumed:* ' + '; '.join(mod.ASSUMPTIONS) + '.')
    out.append('\n*Beyond tests:* ' + p['why_tests_cant'])
    if i in note:
        out.append('\n*Not covered:* ' + note[i])
    for kind, _, key, what in fixed.get(i, ()):
        out.append('\n*%s* (%s): %s.' % (
            'Repaired' if kind == 'fixed' else 'Known finding', key, what))
    for s, needs in seeds.get(i, ()):
        out.append('\n*Seed* `%s` (caught): needs %s.' % (
            s, needs.rstrip('.')))
    out.append('')
na = [p for p in props if p['id'] not in man]
out.append('## Not applicable\n')
for p in na:
    out.append('- **%s %s**: %s' % (p['id'], p['title'], next(
        x['reason'] for x in json.load(open(HERE + '/MANIFEST.json'))
        ['not_applicable'] if x['property'] == p['id'])))
out.append('')
out.append(open(HERE + '/dev/design_tail.md').read())
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))
