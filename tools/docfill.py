#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md: number of fixed defects, table of planted bugs"""
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
n = sum(l.startswith('fixed:') for l in open(os.path.join(V, 'known-findings.txt')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!--nfixed-->\d*<!---->', '<!--nfixed-->%d<!---->' % n, s)
t = '| change | caught by | file | shows with | effect |\n|---|---|---|---|---|\n'
for x in sorted(SEEDS, key=lambda x: x['id']):
    t += '| %s | %s | %s | %s | %s |\n' % (x['id'], x['property'], ', '.join(sorted({e[0].replace('src/', '') for e in x['edits']})), x['needs'], x['what'])
s = re.sub(r'<!--seeds-->.*?<!--/seeds-->', lambda m: '<!--seeds-->\n' + t + '<!--/seeds-->', s, flags=re.S)
open(p, 'w').write(s)
