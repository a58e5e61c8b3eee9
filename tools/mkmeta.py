#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, claim=None, na=None, note=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, claim=claim, na=na, note=note, hook=hook))
exec(open(os.path.join(HERE, 'tools', 'props.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': p['hook']}}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks were added to /repo: every seam used already exists (template parameters for streams and item types, the console interface, operator new, libc file calls interposed by the simulator). All /repo commits are fix: commits, listed in known_findings.json.'}
for p in P:
    if p['claim']:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': p['claim'], 'level': 'exploration', 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not applicable')
