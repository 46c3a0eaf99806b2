"""DESIGN.md = tools/design_head.md + tools/design_props.md + findings and catch table."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + '/tools/design_head.md').read() + open(V + '/tools/design_props.md').read()
o += '\n## Genuine defects repaired in /repo ("fix:" commits)\n\n'
kn = []
for l in open(V + '/known_findings.jsonl'):
    l = l.strip()
    if l.startswith('fixed:'):
        o += '* ' + l[len('fixed: property='):] + '\n'
    elif l and not l.startswith('#'):
        kn.append(json.loads(l))
o += '\n## Known findings (genuine defects recorded, not repaired)\n\n'
for k in kn:
    o += '* **%s** (%s) %s. Where: %s.%s\n' % (k['id'], k['property'], k['what'], k.get('where', '-'), (' Why not repaired: ' + k['why'] + '.') if 'why' in k else '')
o += '\n## Planted changes and what catches them\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
catch = json.load(open(V + '/tools/catch.json')) if os.path.exists(V + '/tools/catch.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    o += '| %s: %s | %s | %s | %s |\n' % (b, m['what_it_breaks'], m['property'], m['needs'], catch.get(b, '?'))
t = V + '/tools/design_tail.md'
if os.path.exists(t):
    o += '\n' + open(t).read()
open(V + '/DESIGN.md', 'w').write(o)
