#!/usr/bin/env python3
"""run.py <property id>: analyses /repo's working tree and decides one property."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'analysis'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    pid = sys.argv[1]
    from program import Prog
    from report import Ctx, AnchorError, finish
    import time
    t0 = time.time()
    base = os.path.join(ROOT, '.build', 'runs')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=base)
    try:
        r = subprocess.run(['bash', os.path.join(ROOT, 'tools', 'mkdump.sh'), work, REPO], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            print('the program could not be loaded')
            return 2
        prog = Prog(os.path.join(work, 'dump'))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ctx = Ctx(pid, prog)
    ctx.t0 = t0
    try:
        mod = importlib.import_module(pid.lower())
    except ImportError as e:
        print(e)
        return 2
    try:
        mod.check(ctx)
    except AnchorError as e:
        print('missing anchor: %s' % e)
        return 2
    except Exception as e:
        traceback.print_exc(file=sys.stdout)
        if not ctx.violations:
            print('the analysis failed')
            return 2
        ctx.unknown('analysis', repr(e))
    return finish(ctx, ROOT)


if __name__ == '__main__':
    sys.exit(main())
