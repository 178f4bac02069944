#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md: the not-applicable list and the table of planted bugs"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.table import PROPS, NA
from sa.registry import CHECKS
t = open(V + '/DESIGN.md').read()
rows = ['| bug | property | needs | caught by |', '|----|----|----|----|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m.get('caught', m['property'])))
na = ['* **%s** %s: %s' % (p['id'], p['title'], NA[p['id']]) for p in PROPS if p['id'] not in CHECKS]


def put(tag, lines):
    global t
    b, e = '<!-- %s -->' % tag, '<!-- end -->'
    body = b + '\n' + '\n'.join(lines) + '\n' + e
    if '@@%s@@' % tag in t:
        t = t.replace('@@%s@@' % tag, body)
    else:
        t = re.sub(re.escape(b) + r'.*?' + re.escape(e), lambda _: body, t, flags=re.S)


put('SEEDED', rows)
put('NA', na or ['(nothing)'])
open(V + '/DESIGN.md', 'w').write(t)
