#!/usr/bin/env python3
"""Regenerate inventory.json: the functions of the reviewed tree.  Run by hand
after reviewing a change of /repo, never by a check."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.repo import Repo  # noqa
r = Repo('/repo/src')
with open(os.path.join(HERE, 'inventory.json'), 'w') as f:
    json.dump({'functions': sorted({fn.short for fn in r.functions
                                    if fn.parent is None})}, f, indent=0)
