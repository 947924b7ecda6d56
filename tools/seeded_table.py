#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what a check did not catch when the bug was planted, and what was added to it
MISSED = {
 'append-old': 'C21 outputs of every age', 'directive-leak': 'C22 more statements, C10 words', 'trim-to-pc': 'C06 final moves in the alphabets',
 'gap-fill': 'C06 every gap', 'label-plus': 'C13 foreign bytes with company', 'equ-abbreviated': 'C10 every word as a directive',
 'output-from-environment': 'C26 words of the binary as variables, default output', 'end-in-comment': 'C19 what is not .END',
 'output-name-equals': 'C20 every character in file names', 'echo-printable': 'C14 every byte in the rejected line',
 'file-name-cut': 'C14 every length of source name', 'symbols-narrow': 'C08 tables beyond 65536',
}
try: MISSED.update(json.load(open(V + '/tools/missed.json')))
except FileNotFoundError: pass
rows = ['| bug | check | needs | missed at first; added then |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), MISSED.get(i, '')))
d = open(V + '/DESIGN.md').read()
d = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
