#!/usr/bin/env python3
"""Development: planted bugs that touch no line of the original repository."""
import os, re, subprocess
os.chdir('/repo')
base = subprocess.check_output(['git','rev-list','--max-parents=0','HEAD']).decode().strip()
bl = {}
def blame(f):
    if f not in bl:
        bl[f] = [l.split()[0].lstrip('^') for l in subprocess.check_output(['git','blame','-s',f]).decode().splitlines()]
    return bl[f]
for d in sorted(os.listdir('/verif/seeded')):
    n = orig = added = 0; f = None; ln = 0
    for l in open(f'/verif/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip(); continue
        if l.startswith('+++'): continue
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if l.startswith('-'):
            n += 1; orig += base.startswith(blame(f)[ln-1][:7]) and bool(l[1:].strip()) and not l[1:].strip().startswith('//'); ln += 1
        elif l.startswith('+'): added += 1
        elif l.startswith(' '): ln += 1
    if orig == 0: print(d, 'removed', n, 'orig', orig, 'added', added)
