"""Writes DESIGN.md from tools/design_base.md, the registry, known_findings.txt and the planted bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
sys.path.insert(0, V + '/tools')
from registry import PROPS, NA
from design_how import HOW
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
bugs = {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    bugs.setdefault(m['property'], []).append((d, m))
out = []
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in PROPS:
        c = PROPS[i]
        what = [x for x in (', '.join('`spec/%s`' % s for s in c['laws']), ', '.join('rule `%s`' % r for r in c['rules']), ', '.join('witness `%s`' % w for w in c['witness'])) if x]
        out.append('Decided by %s.%s' % ('; '.join(what), ' ' + HOW[i] if i in HOW else ''))
        if i in bugs: out.append('Planted bugs caught: %s.' % ', '.join(b for b, _ in bugs[i]))
    else: out.append('Not applicable: ' + NA.get(i, 'not decided.'))
    out.append('')
t = open(V + '/tools/design_base.md').read()
fx = [l.strip() for l in open(V + '/known_findings.txt') if l.startswith(('fixed:', 'finding:', 'property='))]
t = t.replace('PLACEHOLDER-PROPS', '\n'.join(out)).replace('PLACEHOLDER-FIXES', '\n'.join('* ' + l for l in fx))
t = t.replace('PLACEHOLDER-BUGS', 'Each was written from the text of a property, confirmed to build, to pass the tests and to fail its own demonstration, and is caught by the check of its property.\n\n' +
              '\n'.join('* `%s` (%s): %s. Needs: %s.' % (d, p, m['what_it_breaks'], m['needs']) for p in sorted(bugs) for d, m in bugs[p]))
open(V + '/DESIGN.md', 'w').write(t)
