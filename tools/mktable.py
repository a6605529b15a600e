#!/usr/bin/env python3
"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json and
the results of tryseeds.py (/tmp/seeds.log, if there; else keeps the column)."""

import json
import os
import re

base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
design = os.path.join(base, 'DESIGN.md')
text = open(design).read()
results = dict(re.findall(r'^\| (S\S+) \|[^|]*\|[^|]*\| (\S+) \|$', text, re.M))
if os.path.exists('/tmp/seeds.log'):
    for line in open('/tmp/seeds.log'):
        mo = re.match(r'(\S+) \S+ build=0 tests_missing=0  demo=0/[1-9]\d* check=(\d)', line)
        if mo:
            results[mo.group(1)] = 'caught' if mo.group(2) == '1' else 'missed'
rows = ['<!-- seeds -->', '| bug | property | needs | result |', '| --- | --- | --- | --- |']
for d in sorted(os.listdir(os.path.join(base, 'seeded'))):
    m = json.load(open(os.path.join(base, 'seeded', d, 'meta.json')))
    rows.append(f'| {d} | {m["property"]} | {m["needs"]} | {results.get(d, "?")} |')
table = '\n'.join(rows) + '\n<!-- end -->'
if '<!-- seeds -->' in text:
    text = re.sub(r'<!-- seeds -->.*?<!-- end -->', lambda _: table, text, flags=re.S)
else:
    text = text.rstrip() + '\n\n' + table + '\n'
open(design, 'w').write(text)
