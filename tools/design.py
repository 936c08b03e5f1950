#!/usr/bin/env python3
"""Rewrites the generated section of DESIGN.md from props.txt and the evidence
of the last run (rules, constructs and sizes of every check)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
recs, cur, last = [], None, None
for line in open(os.path.join(here, 'props.txt')):
    line = line.rstrip('\n')
    if line.startswith('#'):
        continue
    if not line.strip():
        cur = None
        continue
    m = re.match(r'^([a-z]+): (.*)$', line)
    if m:
        if cur is None:
            cur = {}
            recs.append(cur)
        cur[m[1]] = m[2].strip()
        last = m[1]
    else:
        cur[last] += ' ' + line.strip()
out = []
for r in recs:
    out.append('### %s %s\n' % (r['id'], r['title']))
    if 'na' in r:
        out.append('Not applicable: %s\n' % r['na'])
        continue
    out.append('*Property.* %s\n' % r['statement'])
    out.append('*Decided by.* %s.\n' % r['technique'].rstrip('.'))
    try:
        ev = json.load(open(os.path.join(root, 'evidence', r['id'] + '.json')))['coverage']
        rules = {}
        for x in ev.get('rules', []):
            rules.setdefault(x['rule'], set()).add(x['construct'])
        out.append('*Rules (constructs each is applied to).* ' + '; '.join('%s (%d)' % (k, len(v)) for k, v in sorted(rules.items())) + '.\n')
        n = ev.get('functions_analysed')
        if n:
            out.append('*Size.* %d obligations over %d functions.\n' % (ev['obligations'], n))
    except (OSError, KeyError):
        pass
    out.append('*For every* %s. *Why tests cannot:* %s.\n' % (r['forall'], r['why'].rstrip('.')))
    if r.get('note'):
        out.append('*Note.* %s\n' % r['note'])
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- properties -->\n', '<!-- /properties -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
