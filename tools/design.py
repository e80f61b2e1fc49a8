"""Brings the tables of DESIGN.md up to date: times from the evidence files of
the last quick runs, repairs from known_findings.txt, planted changes from
seeded/."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read().split('<!-- table -->')[0]
out = []
for line in text.split('\n'):
    m = re.match(r'\| (C\d\d) \|.*\| ([^|]*) \|$', line)
    ev = m and os.path.join(HERE, 'evidence', m.group(1) + '.json')
    if m and os.path.exists(ev):
        e = json.load(open(ev))
        s = e.get('wall_s') or e.get('seconds') or e.get('duration_s')
        if s and e.get('tier', 'quick') == 'quick':
            line = line[:m.start(2)] + '{} s'.format(max(1, round(s))) + ' |'
    out.append(line)
fixes = sum(l.startswith('fixed:')
            for l in open(os.path.join(HERE, 'known_findings.txt')))
text = re.sub(r'\(\S+ `fix:` commits\)', '({} `fix:` commits)'.format(fixes),
              '\n'.join(out))
table = ['<!-- table -->', '', '| change | property | needs |', '|---|---|---|']
for meta in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(meta))
    table.append('| {} | {} | {} |'.format(
        os.path.basename(os.path.dirname(meta)), d['property'],
        d['needs'].replace('|', '/')))
open(path, 'w').write(text + '\n'.join(table) + '\n')
