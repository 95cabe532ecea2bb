#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the entries of dev/seeds.py and confirm each one
in a scratch copy: builds, passes the tests, demo 0 without and non-zero with it,
changes only lines of the original repository."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
BASE = '1c5cc40'
REPO = '/repo'

DEMO = '''#!/bin/bash
# runs the program beside this script against the library in the current directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
pango-lexer = { path = "$repo/pango-lexer" }
pango-parser = { path = "$repo/pango-parser" }
[workspace]
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cd "$work"
CARGO_TARGET_DIR="$work/target" cargo build --release --offline -q > "$work/log" 2>&1 || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/release/demo"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    pats = sys.argv[1:]
    for sid, prop, needs, breaks, edits, code in SEEDS:
        if pats and sid not in pats:
            continue
        work = '/tmp/mkseed'
        shutil.rmtree(work, ignore_errors=True)
        run(['cp', '-a', REPO, work])
        run(['git', '-C', work, 'checkout', '-q', '--', '.'])
        bad = []
        for f, old, new in edits:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad.append('%s: %d matches' % (f, s.count(old)))
                continue
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', '-C', work, 'diff']).stdout
        # removed lines must be part of the original file
        for f, _, _ in edits:
            base = run(['git', '-C', REPO, 'show', '%s:%s' % (BASE, f)]).stdout.split('\n')
            d = run(['git', '-C', work, 'diff', '-U0', '--', f]).stdout
            for l in d.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:] not in base:
                    bad.append('not an original line: ' + l)
        d = os.path.join(ROOT, 'seeded', sid)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(code.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        t = run(['cargo', 'test', '--offline', '-q'], cwd=work, env=dict(os.environ, CARGO_TARGET_DIR=work + '/target'))
        if t.returncode:
            bad.append('tests fail: ' + t.stdout[-600:])
        r1 = run(['bash', d + '/demo.sh'], cwd=work)
        if r1.returncode == 0:
            bad.append('demo passes with the change')
        if r1.returncode == 3:
            bad.append('demo does not build: ' + r1.stdout[-1500:])
        run(['git', '-C', work, 'checkout', '-q', '--', '.'])
        r0 = run(['bash', d + '/demo.sh'], cwd=work)
        if r0.returncode:
            bad.append('demo fails without the change: ' + r0.stdout[-800:])
        print(sid, prop, 'OK' if not bad else 'BAD ' + '\n   '.join(bad), r1.stdout[-100:].replace('\n', ' '))
        shutil.rmtree(work, ignore_errors=True)


main()
