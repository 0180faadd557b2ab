#!/usr/bin/env python3
"""check.py <PROPERTY> [--thorough]: decide one property of disseminate from
the source in /repo (static analysis only; nothing of /repo is executed)."""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.core import Ctx, AnalysisBroken  # noqa


def findings(pid):
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv else \
        os.environ.get('VERIF_TIER', 'quick')
    src = os.environ.get('VERIF_SRC', '/repo/src')
    t0 = time.time()
    evp = os.path.join(os.environ.get('VERIF_EV') or os.path.join(
        HERE, 'evidence'), pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    mod = importlib.import_module('rules.' + pid.lower())
    try:
        ctx = Ctx(pid, src)
        ctx.tier = tier
        mod.run(ctx)
        err = None
    except AnalysisBroken as e:
        err = 'analysis cannot be carried out: %s' % e
    except Exception:
        err = traceback.format_exc()
    if err:
        print('ERROR property=%s %s' % (pid, err))
        return 2
    known = findings(pid)
    viol, listed = [], []
    for rule, construct, ok, where, msg in ctx.obs:
        if ok:
            continue
        key = (rule + '|' + construct).replace(' ', '_')
        rec = {'key': key, 'rule': rule, 'rule_text': ctx.rules.get(rule, ''),
               'construct': construct, 'where': where, 'message': msg}
        (listed if key in known else viol).append(rec)
    per = {}
    for rule, construct, ok, where, msg in ctx.obs:
        d = per.setdefault(rule, {'rule': ctx.rules.get(rule, ''),
                                  'obligations': 0, 'held': 0,
                                  'constructs': []})
        d['obligations'] += 1
        d['held'] += ok
        if len(d['constructs']) < 60 and construct not in d['constructs']:
            d['constructs'].append(construct)
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': (
                'Static analysis of the source under %s. Each obligation is '
                'one rule applied to one construct (function, class, call '
                'site, or class of paths through a function); it is decided '
                'over all paths of the flow graph, with helpers that are not '
                'in inventory.json inlined. Nothing of the code is run.'
                % src),
            'obligations': len(ctx.obs),
            'discharged': sum(1 for o in ctx.obs if o[2]),
            'rules_applied': len(per),
            'functions_analysed': len(ctx.analysed),
            'path_classes': ctx.paths,
            'functions_in_model': len(ctx.repo.functions),
            'classes_in_model': len(ctx.repo.classes),
            'rules': per,
            'functions': sorted(ctx.analysed),
            'notes': ctx.notes,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
        'violation_list': viol,
        'known_findings': listed,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[r['key']]))
    for r in viol:
        print('%s: %s [%s] %s' % (r['where'], r['construct'], r['rule'],
                                  r['message']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, evp))
        return 1
    print('%s: %d obligations hold (%d rules, %d functions, %d path '
          'classes, %.1f s)' % (pid, len(ctx.obs), len(per),
                                len(ctx.analysed), ctx.paths,
                                time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
