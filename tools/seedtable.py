#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(R+'/tools/caught.json'))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(R+'/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), ', '.join(caught.get(d, ['-']))))
s = open(R+'/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->', s, flags=re.S)
open(R+'/DESIGN.md', 'w').write(s)
