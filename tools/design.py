#!/usr/bin/env python3
"""Composes DESIGN.md from the head, the property table, the rules in checker/ and the tail."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
rules = {}
for f in sorted(glob.glob(root + '/checker/check_*.go')):
    for m in re.finditer(r'register\("(C\d+)", "(?:[^"\\]|\\.)*",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        rules[m.group(1)] = (m.group(2).replace('\\"', '"'), os.path.basename(f))
seeds = {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); m['id'] = os.path.basename(os.path.dirname(d)); seeds.setdefault(m['property'], []).append(m)
fixed = [l[7:].split(None, 2) for l in open(root + '/known_findings.txt') if l.startswith('fixed:')]
out = [open(here + '/design_head.md').read()]
for p in PROPS:
    r, f = rules.get(p['id'], ('', ''))
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Decided by* (`checker/%s`): %s' % (f, r))
    out.append('*Analysed:* ' + '; '.join('%s (%s)' % (w, n) for n, w in p['mech']) + '.')
    out.append('*Technique:* %s.' % p['technique'])
    out.append('*Reaches what tests cannot because:* ' + p['why'])
    s = seeds.get(p['id'], [])
    if s: out.append('*Planted bugs caught:* ' + ', '.join(m['id'] for m in s) + '.')
    out.append('')
tail = open(here + '/design_tail.md').read()
tail = tail.replace('@FIXED@', '\n'.join('* %s, `%s`: %s' % (a[0].replace('property=', ''), a[1], a[2].strip()) for a in fixed))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for pid in sorted(seeds):
    for m in seeds[pid]:
        rows.append('| %s | %s | %s | %s |' % (m['id'], pid, ' '.join(str(m['needs']).split()).replace('|', '/'), m.get('caught_by', pid)))
tail = tail.replace('@SEEDS@', '\n'.join(rows))
of = open(here + '/design_otherfix.md').read() if os.path.exists(here + '/design_otherfix.md') else ''
tail = tail.replace('@OTHERFIX@', of.strip())
tail = tail.replace('@NA@', '\n'.join('* **%s** %s: %s' % (n['id'], n['prop']['title'] if 'prop' in n else '', n['reason']) for n in NA) or 'None.')
open(root + '/DESIGN.md', 'w').write('\n'.join(out) + tail)
