#!/usr/bin/env python3
"""DESIGN.md = tools/design.md with the table of planted bugs filled in."""
import glob
import json
import os

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob(TOP + '/seeded/*/meta.json')):
    d = json.load(open(m))
    by = d.get('caught_by', d['property'])
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {by} | "
                f"{d['needs']} |")
more = TOP + '/tools/design_more.md'
more = open(more).read() if os.path.exists(more) else ''
text = open(TOP + '/tools/design.md').read()
text = text.replace('@@MORE@@', more.strip()).replace(
    '@@TABLE@@', '\n'.join(rows))
open(TOP + '/DESIGN.md', 'w').write(text)
