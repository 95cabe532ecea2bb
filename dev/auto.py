#!/usr/bin/env python3
"""dev/auto.py [file..]: mechanical one-token changes of every source line outside the tests
(comparison, operator, literal, deleted statement or call of a chain, ..) and which checks
report them.  Prints the changes that no check reports; each of those is either harmless,
or a gap.  With -s=n/m only every m-th change, starting at n.  With -same
the lines written by the behaviour-preserving edits of dev/edits_*.py are changed instead.
Development aid."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
L, P = 'pango-lexer/src/', 'pango-parser/src/'
FILES = {
    L + 'fsm/nfa/compiler.rs': 'C10 C25 C13',
    L + 'fsm/nfa/model.rs': 'C25 C10 C11 C12 C24 C13',
    L + 'fsm/nfa/sim.rs': 'C12 C11 C13 C24',
    L + 'fsm/traits.rs': 'C12',
    L + 'iter/cautious/map_while.rs': 'C15',
    L + 'iter/cautious/take_while.rs': 'C15',
    L + 'iter/peekable.rs': 'C15',
    L + 'lexer/input.rs': 'C01 C02 C03 C04',
    L + 'lexer/mod.rs': 'C01 C02 C03 C04 C05',
    L + 'regex/ast.rs': 'C08 C24',
    L + 'regex/parser.rs': 'C05 C09 C14',
    L + 'regex/tokenizer.rs': 'C06 C07 C08 C11 C14 C24',
    P + 'cfsm/item.rs': 'C19 C24 C13 C23',
    P + 'cfsm/mod.rs': 'C19 C25 C13 C23 C24',
    P + 'cfsm/state.rs': 'C19 C25 C24 C23',
    P + 'cst.rs': 'C21',
    P + 'grammar.rs': 'C16 C17 C18 C13 C24 C23',
    P + 'lib.rs': 'C24',
    P + 'parser/slr.rs': 'C21 C22 C04 C23',
    P + 'parser/table.rs': 'C20 C22 C23 C24',
    P + 'parser/traits.rs': 'C21',
}
SWAPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
         (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r' \+ ', ' - '), (r' - ', ' + '), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'),
         (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'\.max\(', '.min('), (r'\.min\(', '.max('),
         (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'),
         (r'!(?=[a-z])(?!=)', ''), (r'\bis_subset\b', 'is_superset'), (r'\bunwrap_or\(0\)', 'unwrap_or(1)'),
         (r'\bif (?!let\b)(?=[a-z(])', 'if !'), (r'\.insert\(', '.remove(&'), (r'\.extend\(', '.contains('),
         (r'\blhs\b', 'rhs'), (r'\brhs\b', 'lhs'), (r'\bstart\b', 'end'), (r'\bend\b', 'start'), (r'\.\.=', '..'),
         (r'\.len\(\)', '.capacity()'), (r'Some\(([a-z_]+)\)(?=,?$)', 'None'), (r'\.push\(', '.insert(0, '),
         (r'\.push_back\(', '.push_front('), (r'\.chain\((.*)\)$', ''), (r'\^', '|'), (r' % ', ' / '), (r'\bor_else\b', 'and_then')]


def lines(f, text=None):
    out = []
    for i, l in enumerate((text or open(os.path.join(REPO, f)).read()).split('\n')):
        if l.startswith('#[cfg(test)]') and 'mod' not in l and out and not l.startswith('#[cfg(test)] use'):
            pass
        if re.match(r'\s*mod tests', l):
            break
        out.append(l)
    return out


def changes(f, text=None):
    ls = lines(f, text)
    for i, l in enumerate(ls):
        t = l.strip()
        if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'impl', 'where', 'type ', 'pub type', '}', 'struct', 'pub struct')):
            continue
        if re.match(r'(pub(\([a-z]+\))? )?(fn|struct|enum|trait|type) ', t):
            continue
        code = l.split(' //')[0]
        if '"' in code:
            bare = re.sub(r'"[^"]*"', lambda m: '"' + '~' * (len(m.group(0)) - 2) + '"', code)
        else:
            bare = code
        for a, b in SWAPS:
            for m in re.finditer(a, bare):
                yield i, code[:m.start()] + b + code[m.end():]
        for m in re.finditer(r"(?<![\w.'])(\d+)\b(?!')", bare):
            if m.group(1).startswith('0x'):
                continue
            n = int(m.group(1))
            for k in (n + 1, n - 1):
                if k >= 0:
                    yield i, code[:m.start()] + str(k) + code[m.end():]
        for m in re.finditer(r"'(\\?.)'", bare):
            c = m.group(1)
            if len(c) == 1:
                yield i, code[:m.start()] + "'%s'" % ('q' if c != 'q' else 'z') + code[m.end():]
        for m in re.finditer(r"('\\?.'|[A-Z]\w*::\w+(\([^()]*\))?) \| ", bare):
            yield i, code[:m.start()] + code[m.end():]
        if re.match(r'\.\w+\(.*\)[;?,]?$', t) and t.count('(') == t.count(')'):
            tail = t[-1] if t[-1] in ';,?' else ''
            yield i, (l[:len(l) - len(l.lstrip())] + tail) if tail else ''
        if t.endswith(';') and re.match(r'[a-z*(]', t) and not re.match(r'(let|return|use|type|pub|const)\b', t) and t.count('(') == t.count(')') and i and ls[i - 1].strip().endswith((';', '{', '}', ',')):
            yield i, ''


def rewritten(fl):
    """changes of the lines that behaviour-preserving edits write"""
    import mutate
    for e in mutate.load():
        if e[1] != 'same' or fl and not any(x in ' '.join(e[:4]) for x in fl):
            continue
        texts = {}
        for f, old, new in e[4]:
            t = texts.get(f) or open(os.path.join(REPO, f)).read()
            if t.count(old) == 1:
                texts[f] = t.replace(old, new)
        for f, t in texts.items():
            had = set(open(os.path.join(REPO, f)).read().split('\n'))
            ls = t.split('\n')
            for i, n in changes(f, t):
                if f in FILES and ls[i] not in had:
                    yield f, i, n, texts, e[2], e[3]


def checks_of(f):
    first = FILES[f].split()
    rest = ['C%02d' % i for i in range(1, 26) if 'C%02d' % i not in first]
    return first, [c for c in rest if (c <= 'C15' or c in ('C24', 'C25')) == f.startswith(L)]


def run(job):
    f, i, new = job[:3]
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('target', '.git'))
        for g, t in (job[3] if len(job) > 3 else {}).items():
            open(os.path.join(r, g), 'w').write(t)
        p = os.path.join(r, f)
        ls = open(p).read().split('\n')
        old, ls[i] = ls[i], new
        open(p, 'w').write('\n'.join(ls))
        und = []
        first, rest = checks_of(f)
        if len(job) > 3:
            first = job[4].split() + [c for c in first if c not in job[4]]
        for c in first + (rest if '-f' in sys.argv else []):
            x = subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), c], env=dict(os.environ, VERIF_REPO=r),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if x.returncode == 1:
                return job, old, 'caught', c
            if x.returncode == 2:
                return job, old, 'error' if 'error[' in x.stdout or 'error:' in x.stdout else 'anchor', x.stdout[-300:]
            if '  undecided ' in x.stdout:
                und.append(c)
        return job, old, 'SURVIVES', ' '.join(und)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    fl = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = [(f, i, n) for f in FILES if not fl or any(x in f for x in fl) for i, n in changes(f)]
    if '-same' in sys.argv:
        jobs = list(rewritten(fl))
    for a in sys.argv:
        if a.startswith('-s='):
            n, m = map(int, a[3:].split('/'))
            jobs = jobs[n::m]
    print(len(jobs), 'changes')
    if '-n' in sys.argv:
        return
    count = {}
    with ThreadPoolExecutor(7) as ex:
        for job, old, res, c in ex.map(run, jobs):
            count[res] = count.get(res, 0) + 1
            if res in ('SURVIVES', 'anchor'):
                print('%s %s%s:%d %s\n      - %s\n      + %s' % (res, ' '.join(job[4:] + ('',)), job[0], job[1] + 1, ' '.join(c.split('\n'))[-150:], old.strip(), job[2].strip()))
                sys.stdout.flush()
    print(count)


if __name__ == '__main__':
    main()
