#!/usr/bin/env python3
"""coverage.py FILE-SUBSTRING PCFILE...: lists source lines of /repo never reached by the searches that wrote the PC files (MSTDSIM_COVPC=path)."""
import os, re, subprocess, sys
from collections import defaultdict
BUILD = os.environ.get('MSTDSIM_BUILD', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build'))
b = f'{BUILD}/mstdsim'
cache = f'{BUILD}/covsites.txt'
if not os.path.exists(cache) or os.path.getmtime(cache) < os.path.getmtime(b):
    want = False; sites = []
    p = subprocess.Popen(['objdump', '-d', '--no-show-raw-insn', b], stdout=subprocess.PIPE, text=True)
    for l in p.stdout:
        if want:
            m = re.match(r'\s*([0-9a-f]+):', l)
            if m: sites.append(m.group(1)); want = False
        elif '__sanitizer_cov_trace_pc_guard>' in l and 'call' in l: want = True
    r = subprocess.run(['addr2line', '-e', b, '-f', '-a'], input='\n'.join('%x' % (int(s, 16) - 1) for s in sites), stdout=subprocess.PIPE, text=True)
    L = r.stdout.split('\n'); out = []
    for i in range(0, len(L) - 2, 3): out.append(f'{int(L[i],16)+1:x} {L[i+1]} {L[i+2]}')
    open(cache, 'w').write('\n'.join(out))
hit = set()
for f in sys.argv[2:]: hit |= set(open(f).read().split())
byf = defaultdict(lambda: [0, 0, defaultdict(list), set()])
for l in open(cache).read().split('\n'):
    pc, fn, loc = l.split(' ')[:3]; path, _, line = loc.rpartition(':')
    line = line.split(' ')[0]
    if sys.argv[1] not in path: continue
    e = byf[path]; e[1] += 1
    if pc in hit: e[0] += 1; e[3].add(fn)
    else: e[2][fn].append(int(line) if line.isdigit() else 0)
for p in sorted(byf):
    e = byf[p]; print(f'== {p} {e[0]}/{e[1]}')
    if len(byf) > 12: continue
    for fn in sorted(e[2], key=lambda f: min(e[2][f])): print('   ', fn, '' if fn in e[3] else '(never)', sorted(set(e[2][fn])) if fn in e[3] else '')
