#!/usr/bin/env python3
"""Runs the interpreter on every body with unknown arguments and prints the
outcome tables (development aid)."""
import sys, time, traceback
sys.path.insert(0, '/verif/analysis')
from program import Prog
from engine import Interp, State, Limit
from setup import sym_args
from terms import *
import terms as T

prog = Prog(sys.argv[1] if len(sys.argv) > 1 and '/' in sys.argv[1] else '/verif/.build/work/dump')
pats = [a for a in sys.argv[1:] if '/' not in a]
tot = 0
for p, b in sorted(prog.bodies.items()):
    if b['derived'] or '::dot::' in p or b['name'] == 'fmt' or b['closure'] or '{closure' in p:
        continue
    if pats and not any(x in b['pretty'] or x in p for x in pats):
        continue
    I = Interp(prog)
    st = State()
    t = time.time()
    try:
        args = sym_args(I, st, b)
        outs = I.call_body(st, b, args, ())
        dt = time.time() - t
        print('%-70s %3d outs %3d loops %.2fs %s' % (b['pretty'], len(outs), len(I.loops), dt, sorted(I.unknown) or ''))
        if pats:
            for s, k, v in outs:
                print('   ', k, show(v) if k == 'ret' else v)
                print('       when', gshow(sorted(s.facts(), key=key)))
                for r, x in s.mem.items():
                    print('       mem', r, show(x))
                for e in s.ev:
                    print('       ev', e[0], show(e[1:]))
            for L in I.loops.values():
                print('  LOOP', L.id, L.where, 'iters', {show(k): show(v) for k, v in L.iters.items()})
                for phi, init, at in L.phis:
                    print('     phi', show(phi), 'init', show(init), at)
                for r in L.backs:
                    print('     row', gshow(sorted(r['facts'], key=key)))
                    for ph, u in r['upd'].items():
                        print('         ', show(ph), ':=', show(u))
                    for e in r['ev']:
                        print('          ev', e[0], show(e[1:]))
    except Limit as e:
        print('%-70s LIMIT %s %.1fs' % (b['pretty'], e, time.time() - t))
    except Exception as e:
        print('%-70s ERROR %r' % (b['pretty'], e))
        if pats:
            traceback.print_exc()
