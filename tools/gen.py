#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so the two stay in step."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa.registry import CHECKS
from tools.table import PROPS, NOTES, NA


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             observe_at=p['obs'], hook_needed=None))) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['id'] in CHECKS:
            c = dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                     thorough_cmd='python3 check.py %s thorough' % p['id'],
                     technique=CHECKS[p['id']][3], level='other', level_note=NOTES[p['id']])
            checks.append(c)
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check under construction')))
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                       notes='All checks read the monomorphic MIR of /repo\'s current tree (dumped by driver/, a rustc_public '
                             'driver) or ask the compiler about it; nothing of diffy is executed.'), f, indent=1)
        f.write('\n')


main()
