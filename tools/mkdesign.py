"""fills the generated parts of DESIGN.md (catch table, known findings, not applicable)"""
import json, os, re, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, '.')
from sa import props


def block(name, text):
    global S
    b, e = '<!-- %s -->' % name, '<!-- end %s -->' % name
    t = '%s\n%s\n%s' % (b, text.rstrip(), e)
    if '@@%s@@' % name in S:
        S = S.replace('@@%s@@' % name, t)
    else:
        S = re.sub(re.escape(b) + '.*?' + re.escape(e), lambda m: t, S, flags=re.S)


S = open('DESIGN.md').read()
rows = ['## Properties not claimed', '']
for k, v in sorted(props.NOT_APPLICABLE.items()):
    rows.append('* **%s** %s: %s' % (k, v['title'], v['reason']))
block('NA', '\n'.join(rows) if len(rows) > 2 else '')
rows = ['## Planted bugs (`seeded/`) and the check that catches each', '', '| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    c = m.get('caught', m['property'])
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), c))
rows += ['', 'Beyond these, each rule was run against mutation campaigns (operators, constants, argument swaps, dropped',
         'statements, axis numbers, slice bounds) over its files in a scratch copy; survivors were read one by one and either',
         'shown equivalent or used to add the missing obligations.']
block('SEEDS', '\n'.join(rows))
d = json.load(open('known_findings.json'))
rows = ['## Known findings (genuine defects left in the tree)', '']
for f in d['findings']:
    rows.append('* %s %s `%s`: %s (%s)' % (f['property'], f['rule'], f['construct'], f['what'], f['match']))
rows += ['', '## Repaired defects (`fix:` commits in /repo)', '', '%d in all; the list with commits is in `known_findings.json` under `fixed`.' % len(d['fixed']), '']
for f in d['fixed']:
    rows.append('* ' + f[len('fixed: '):])
block('KNOWN', '\n'.join(rows))
open('DESIGN.md', 'w').write(S)
