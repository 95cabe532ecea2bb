#!/usr/bin/env python3
"""dev/mutate.py [filter..]: applies each edit of the dev/edits_*.py lists to a
scratch copy of the repository and runs the check of its property.  Edits are
either 'bug' (the check should report) or 'same' (behaviour preserving, the
check should stay quiet).  With -as=C13 the behaviour preserving edits of all
lists are run against that property, with -all against every property (only
results that are not quiet are printed).  Development aid, not used by the checks."""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'dev', 'edits_*.py'))):
        sp = importlib.util.spec_from_file_location('e', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for i, e in enumerate(m.EDITS):
            out.append((os.path.basename(f)[6:-3],) + e)
    return out


def run(e):
    grp, kind, props, name, subs = e[:5]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('target', '.git'))
        for f, old, new in subs:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return [(e, '-', 'EDIT FAILS: %d matches in %s' % (s.count(old), f), '')]
            open(p, 'w').write(s.replace(old, new))
        res = []
        for pr in props.split():
            x = subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), pr], env=dict(os.environ, VERIF_REPO=r),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            und = x.stdout.count('  undecided ')
            if kind == 'bug':
                ok = 'caught' if x.returncode == 1 else ('MISSED' if x.returncode == 0 else 'ERROR %d' % x.returncode)
            else:
                ok = 'quiet' if x.returncode == 0 else 'FALSE ALARM %d' % x.returncode
            res.append((e, pr, ok + (' (%d undecided)' % und if und else ''), x.stdout))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    fl = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    es = [e for e in load() if not fl or any(f == e[0] or f in e[2].split() or f in e[3] for f in fl)]
    other = [a[4:] for a in sys.argv if a.startswith('-as=')]
    if other:
        es = [(e[0], e[1], other[0]) + e[3:] for e in es if e[1] == 'same']
    if '-all' in sys.argv:
        es = [(e[0], e[1], ' '.join('C%02d' % i for i in range(1, 26))) + e[3:] for e in es if e[1] == 'same']
    with ThreadPoolExecutor(7) as ex:
        for rs in ex.map(run, es):
            for e, pr, res, out in rs:
                if '-all' in sys.argv and res == 'quiet':
                    continue
                print('%-5s %-4s %-55s %s' % (e[1], pr, e[3], res))
                if verbose or (res.split()[0].isupper() and '-q' not in sys.argv):
                    print('      ' + out[-1800:].replace('\n', '\n      '))
            sys.stdout.flush()


if __name__ == '__main__':
    main()
