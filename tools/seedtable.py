#!/usr/bin/env python3
# rewrite the table of planted bugs in DESIGN.md
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    f = re.search(r'^\+\+\+ b/(\S+)', open('%s/seeded/%s/patch.diff' % (V, d)).read(), re.M).group(1).split('/')[-1]
    rows.append((m['property'], '| %s | `%s` | %s | %s | %s | %s |' % (m['property'], d, f, m['what_it_breaks'], m['needs'], m['property'])))
t = '<!-- seeds -->\n| property | bug | file | what breaks | needs | caught by |\n|---|---|---|---|---|---|\n' + '\n'.join(r for _, r in sorted(rows)) + '\n<!-- /seeds -->'
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
