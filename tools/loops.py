#!/usr/bin/env python3
"""tools/loops.py FILE FUNCTION LOOP.. : prints loops out of a tools/smoke.py listing"""
import re, sys
on = False
fn = False
for l in open(sys.argv[1]):
    if re.match(r'\S', l):
        fn = sys.argv[2] in l
        on = fn
        if fn:
            print(l, end='')
        continue
    if not fn:
        continue
    m = re.match(r'  LOOP (\d+)', l)
    if m:
        on = m.group(1) in sys.argv[3:]
    if re.match('    (ret|panic)', l):
        on = True
    if on and not l.startswith('       mem'):
        print(l[:2600].rstrip())
