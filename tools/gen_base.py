#!/usr/bin/env python3
"""Writes harness/base_lines.txt: hashes of the lines of /repo/src (without tests), so that the
generators can tell which lines of a changed tree are new."""
import os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = collections.Counter()
for d, _, fs in os.walk('/repo/src'):
    for f in fs:
        if f.endswith('.rs'):
            for l in open(os.path.join(d, f)).read().split('#[cfg(test)]')[0].splitlines():
                l = l.strip()
                if l:
                    h = 0xcbf29ce484222325
                    for b in l.encode():
                        h = ((h ^ b) * 0x100000001b3) & (2**64 - 1)
                    c[h] += 1
with open(V + '/harness/base_lines.txt', 'w') as o:
    for h in sorted(c):
        o.write(f'{h:016x} {c[h]}\n')
print(len(c))
