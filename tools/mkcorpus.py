#!/usr/bin/env python3
"""Makes harness/corpus_index.txt of the output of `vmon corpus KIND < paths` (arguments: its files)."""
import os, random, sys
random.seed(7)
CAP = {'js': 700, 'css': 200, 'html': 350, 'json': 300}
SIZE = {'js': 24_000, 'css': 40_000, 'html': 20_000, 'json': 24_000}
by = {}
seen = set()
for f in sys.argv[1:]:
    for l in open(f, encoding='utf8', errors='replace'):
        w = l.rstrip('\n').split('\t')
        if len(w) != 3 or w[0] not in CAP or w[1] in seen or w[2].startswith(('/tmp', '/verif', '/repo', '/proc')): continue
        n = os.path.getsize(w[2])
        if not 60 < n < SIZE[w[0]]: continue
        seen.add(w[1])
        by.setdefault(w[0], []).append(w)
out = []
for k, v in sorted(by.items()):
    # few of each package, and of each directory
    random.shuffle(v)
    pick, n = [], {}
    for lim in (2, 5, 20, 10**9):
        for w in v:
            d = os.path.dirname(w[2])
            p = w[2].split('/node_modules/')[-1].split('/')[0] if '/node_modules/' in w[2] else '/'.join(w[2].split('/')[:5])
            if w in pick or len(pick) >= CAP[k] or n.get(p, 0) >= lim * 2 or n.get(d, 0) >= lim: continue
            n[p] = n.get(p, 0) + 1
            n[d] = n.get(d, 0) + 1
            pick.append(w)
    out += sorted(pick, key=lambda w: w[2])
open(os.path.join(os.path.dirname(__file__), '../harness/corpus_index.txt'), 'w').write(''.join('\t'.join(w) + '\n' for w in out))
