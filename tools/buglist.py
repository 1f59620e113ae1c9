#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import json, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
mark = '## Planted bugs (`seeded/`), and the checks that catch them\n'
s = open('DESIGN.md').read()
s = s[:s.index(mark)] + mark + '\n'
for d in sorted(glob.glob('seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(d))
    s += '- %s `%s`: %s\n' % (m['property'], os.path.basename(os.path.dirname(d)), ' '.join(m['what_it_breaks'].split())[:200])
s += '\nEach is caught by the check of its property (quick tier). Bugs in the templates (`.tpl`) were planted and\ncaught as well, but do not count as source files and are not kept.\n'
open('DESIGN.md', 'w').write(s)
