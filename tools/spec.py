#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the statements below (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None, claim=True, reason=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, claim=claim, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'statements.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}
        if p['state']:
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['pid'], 'quick_cmd': './check %s' % p['pid'], 'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % p['pid'],
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P if p['claim']],
     'not_applicable': [{'property': p['pid'], 'reason': p['reason']} for p in P if not p['claim']],
     'notes': 'No hooks: every check drives public functions and classes of /repo/trunk/SUAVE. known_findings.json lists recorded defects and repairs.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
