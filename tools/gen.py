#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.txt.

A record of props.txt is a block of `key: text` lines; blank lines separate.
keys: id title statement over forall why files mech (name @ where; ...) observe
      technique note            (claimed)   or   na: reason   (not applicable)
"""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
recs, cur, last = [], None, None
for line in open(os.path.join(here, 'props.txt')):
    line = line.rstrip('\n')
    if line.startswith('#'):
        continue
    if not line.strip():
        cur = None
        continue
    m = re.match(r'^([a-z]+): (.*)$', line)
    if m:
        if cur is None:
            cur = {}
            recs.append(cur)
        cur[m[1]] = m[2].strip()
        last = m[1]
    else:
        cur[last] += ' ' + line.strip()
TRUST = ("Static: nothing is executed. Trusts the Go type checker, the x/tools SSA builder and the abstract interpreter of "
         "/verif/checker; floating point is compared as real arithmetic; code outside the repository behaves as documented.")
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for r in recs:
        assert len(r['title']) <= 80, (r['id'], len(r['title']))
        assert r['statement'].count('. ') <= 2, r['id']
        mech = []
        for x in r['mech'].split(';'):
            n, w = x.rsplit('@', 1)
            mech.append({'name': n.strip(), 'where': w.strip()})
        d = {'id': r['id'], 'title': r['title'], 'statement': r['statement'],
             'quantifier': {'over': r['over'].split(), 'text': r['forall']},
             'why_tests_cant': r['why'],
             'anchors': {'files': r['files'].split(), 'mechanism': mech}}
        if 'observe' in r:
            d['anchors']['observe_at'] = [x.strip() for x in r['observe'].split(';')]
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': [], 'not_applicable': [],
       'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the source as it is', 'source_commits': []},
       'notes': 'One analyser (Go, /verif/checker) decides every claimed property from the current source of /repo; see DESIGN.md.'}
for r in recs:
    if 'na' in r:
        man['not_applicable'].append({'property': r['id'], 'reason': r['na']})
        continue
    man['checks'].append({'property': r['id'], 'quick_cmd': './check.sh %s quick' % r['id'],
                          'thorough_cmd': './check.sh %s thorough' % r['id'],
                          'technique': r['technique'], 'level': 'other',
                          'level_note': (r.get('note', '') + ' ' + TRUST).strip()})
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(recs), 'properties', len(man['checks']), 'claimed')
