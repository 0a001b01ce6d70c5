"""DESIGN.md from tools/design_head.md, the contracts and the recorded results (run with python3-vt)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import registry

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
head = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
known = json.load(open(os.path.join(HERE, 'known_findings.json')))
fixed = '\n'.join('* ' + f for f in known['fixed'])
rows = []
for p in props:
    i = p['id']
    if i not in registry.PROPS:
        continue
    ev = {}
    try:
        ev = json.load(open(os.path.join(HERE, 'tools', 'stats.json'))).get(i, {})
    except OSError:
        pass
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    rule = ''
    for line in [open(os.path.join(HERE, 'harness', i.lower() + '.py')).read()]:
        ns = {}
        k = line.find('RULE = ')
        if k >= 0:
            import ast
            for s in ast.parse(line).body:
                if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == 'RULE':
                    try:
                        rule = ast.literal_eval(s.value)
                    except ValueError:
                        import importlib
                        rule = importlib.import_module('harness.' + i.lower()).RULE
    rows.append('### %s %s\n\nReach: %s.%s\n\nContracts (`contracts/%s.py`) on: %s.\n\nAssumed, beyond section 2: %s.\n\nHarness: %s.\n' % (
        i, p['title'], registry.NOTES[i],
        ' %d obligations in %d units, %.0f s.' % (ev['obligations'], ev['units'], ev['secs']) if ev else '',
        '`, `contracts/'.join(registry.PROPS[i]), '; '.join(registry.functions(i)) or '-',
        '; '.join(registry.assumptions(i)[len(registry.COMMON):]) or 'nothing', rule or 'shared generator (see file)'))
seeds = []
try:
    R = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json')))
except OSError:
    R = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), R.get(d, 'not run')))
try:
    ref = open(os.path.join(HERE, 'tools', 'refactor_results.md')).read()
except OSError:
    ref = 'not run'
text = head.replace('@FIXED@', fixed).replace('@TABLE@', '\n'.join(rows)).replace(
    '@SEEDS@', '| change | property | breaks | result |\n|---|---|---|---|\n' + '\n'.join(seeds)).replace('@REFACTOR@', ref)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)
print(len(text))
