"""DESIGN.md = lib/design_head.md + one section per property (texts from props_text.py, bounds from checks.py) + findings and planted changes. Run: python3 lib/design.py"""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props, checks
class Stub:
    def __init__(self, tier): self.tier, self.work, self.assumptions, self.rows, self.kf = tier, '/tmp/design-stub', [], [], []
    def symbolic(self, b, entries, **kw): self.rows += [(b.name, e[0], e[1]) for e in entries]
import vp
vp.gen_config = lambda *a, **k: None
out = [open(os.path.join(V, 'lib/design_head.md')).read().rstrip() + '\n\n## Properties\n']
how = json.load(open(os.path.join(V, 'lib/design_notes.json')))
for p in props.P:
    i = p['id']; out.append('### %s %s\n' % (i, p['title']))
    if i in props.NA or i not in checks.TABLE: out.append('Not applicable: %s\n' % props.NA.get(i, '')); continue
    q, t = Stub('quick'), Stub('thorough'); checks.TABLE[i](q); checks.TABLE[i](t)
    out.append('Code: %s. %s\n' % (', '.join('`%s`' % os.path.basename(f) for f in p['anchors']['files']), how.get(i, '')))
    out.append('What the tests cannot reach: %s\n' % p['why_tests_cant'])
    out.append('| entry | bounds (quick) |\n|---|---|')
    for b, e, x in q.rows: out.append('| `%s` | %s |' % (e, x.replace('|', '/')))
    qs = {(e, x) for _, e, x in q.rows}; more = [(e, x) for _, e, x in t.rows if (e, x) not in qs]
    if more: out.append('\nThorough differs in: ' + '; '.join('`%s` %s' % (e, x) for e, x in more))
    if q.assumptions: out.append('\nAssumed: ' + '; '.join(q.assumptions) + '.')
    out.append('')
out.append('## Defects found and repaired in thejinchao/cyclone\n')
for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings']: out.append('- %s (%s)' % (k['what'], k['status']))
out.append('\n## Planted changes\n\n| change | property | needs | result |\n|---|---|---|---|')
res = json.load(open(os.path.join(V, 'lib/seed_results.json'))) if os.path.exists(os.path.join(V, 'lib/seed_results.json')) else {}
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); out.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'].replace('|', '/'), res.get(n, 'caught')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
