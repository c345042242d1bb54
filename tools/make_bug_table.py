#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json (which check catches which planted change)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json'), encoding='utf8'))
    rows.append(tuple(x.replace('|', '\\|') for x in (m['property'], d, m['what_it_breaks'], m['needs'])))
rows.sort()
t = '''## 6. Planted changes and which checks catch them

Written from the property texts and the code; each one builds, passes the 687 stable tests and has a demonstration (`seeded/<id>/`).
All of them are caught by the check of their property (quick tier, seed 1); `tools/seedtest.sh ID [CHECK...]` repeats the experiment in a scratch copy.
About 210 further one-line mutants (in no repository) were used the same way; those that no check noticed were either equivalent (e.g. a re-sorted list of equal elements,
`big-endian` writing on this platform) or led to an extension of the generators (below).

| property | id | what it breaks | needs |
|---|---|---|---|
''' + ''.join('| %s | %s | %s | %s |\n' % r for r in rows) + '''
Extensions of generators and specifications that missed changes led to: empty unit lists (C09, C19), own particle/prefix/initials lists in any order (C12, C14, C30), tables with endings longer than five letters
(C11), adjacent letters of the alphabet as one token (C14), parts of a compound that differ in one category that does not count (C12), grammeme sets modified by the caller (C17), several instances of a unit class
with different parameters of the same length (C17), upper-case iteration prefixes (C32), random paradigm templates with many remarks (C06), homonyms with the same tag and different paradigms (C10),
unit groups given as tuples or with a single unit (C09, C19), prefixes that look like the word itself (C10), more than ten paradigm prefixes (C11, C24), look-alike grammemes that differ in case (C16),
words on which one rule applies many times (C01).
'''
p = os.path.join(V, 'DESIGN.md')
s = open(p, encoding='utf8').read()
s = re.sub(r'\n## 6\. Planted.*', '\n', s, flags=re.S).rstrip('\n') + '\n\n' + t
open(p, 'w', encoding='utf8').write(s)
