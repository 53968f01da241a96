#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/props.py (single source)."""
import json
import os
import subprocess
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.props import PROPS, NOT_APPLICABLE   # noqa: E402

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid, d in sorted(list(PROPS.items()) + list(NOT_APPLICABLE.items())):
        f.write(json.dumps(dict(
            id=pid, title=d['title'], statement=d['statement'],
            quantifier=dict(over=d['over'], text=d['quant']), why_tests_cant=d['why'],
            anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']],
                         observe_at=d['observe'], hook_needed=False))) + '\n')
man = dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 8)"', checks=[], not_applicable=[])
for pid, d in sorted(PROPS.items()):
    man['checks'].append(dict(property=pid, quick_cmd='python3 check.py --prop %s --tier quick' % pid,
                              thorough_cmd='python3 check.py --prop %s --tier thorough' % pid,
                              technique=d['technique'], level='other', level_note=d['level_note']))
for pid, d in sorted(NOT_APPLICABLE.items()):
    man['not_applicable'].append(dict(property=pid, reason=d['reason']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
