#!/bin/bash
# DESIGN.md = head + table + tail (tools/dev/design_head.md, design_tail.md)
cd "$(dirname "$0")/../.."
python3 - <<'P' > /tmp/seedtable.md
import json, glob
print('| id | property | needs | what it breaks |\n|---|---|---|---|')
for d in sorted(glob.glob('seeded/*/meta.json')):
    x = json.load(open(d)); print('| %s | %s | %s | %s |' % (d.split('/')[1], x['property'], x['needs'], x['what_it_breaks']))
P
(cat tools/dev/design_head.md; python3 tools/dev/design.py; sed -e '/^SEEDTABLE$/{r /tmp/seedtable.md' -e 'd}' tools/dev/design_tail.md) > DESIGN.md
