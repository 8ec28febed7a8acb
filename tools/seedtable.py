#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
head = open(p).read().split('## Planted bugs')[0]
out = head + '''## Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, meta.json) and was confirmed with
`tools/seed.sh`: the demonstration passes on the unchanged tree and fails with the
patch, the stable tests pass with it. "first missed" marks those the check of that
time did not report; the check was extended then, not the bug changed.

| bug | what it breaks | needs | caught by |
|---|---|---|---|
'''
missed = set('off-threshold loop-gives-up read-locked-build first-chunk event-reused batch-early zone-mixed'.split())
extra = V + '/tools/first_missed.txt'
if os.path.exists(extra):
    missed = set(open(extra).read().split())
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    out += '| %s | %s | %s | %s%s |\n' % (i, c(m['what_it_breaks']), c(m['needs']), m['property'], ' (first missed)' if i in missed else '')
open(p, 'w').write(out)
