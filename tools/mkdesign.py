#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: the contracts of each property, read from specs/."""
import glob, json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
by = {}
for f in sorted(glob.glob('/verif/specs/*.spec')):
    for l in open(f):
        m = re.match(r'(fn|lemma)\s+(.*)', l)
        if not m or ' props ' not in l:
            continue
        ps = re.search(r' props ([A-Z0-9,]+)', l).group(1).split(',')
        name = m.group(2)
        name = re.split(r'\)\s+returns|\)\s+props|\)\s*$', name)[0]
        name = name.split(' props')[0]
        # drop the parameter list
        d = re.match(r'(\(\*?[\w.]+\)\.\w+|[\w.$]+)', name)
        name = d.group(1) if d else name
        for p in ps:
            by.setdefault(p, []).append(('lemma ' if m.group(1) == 'lemma' else '') + '`' + name + '`')
out = ['| property | functions and lemmas with their own contract for it |', '|---|---|']
for p in props:
    out.append('| %s %s | %s |' % (p['id'], p['title'], ', '.join(by.get(p['id'], ['none']))))
s = open('/verif/DESIGN.md').read()
a, b = '<!-- contracts: generated by tools/mkdesign.py -->', '<!-- end contracts -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open('/verif/DESIGN.md', 'w').write(s)
