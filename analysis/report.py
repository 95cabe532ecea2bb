"""Findings of one check run, evidence file and exit code."""
import json
import os
import sys
import time
import traceback


class AnchorError(Exception):
    pass


class Ctx:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.t0 = time.time()
        self.violations = []     # (key, text)
        self.undecided = []
        self.proved = []
        self.rules = []
        self.analysed = set()
        self.notes = {}

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, key):
        self.proved.append(key)

    def violate(self, key, text, site=None):
        if key in [v[0] for v in self.violations]:
            return
        self.violations.append((key, text, site))

    def unknown(self, key, text):
        if (key, text) not in self.undecided:
            self.undecided.append((key, text))

    def add_interp(self, I):
        self.analysed |= set(I.inlined)
        self.notes['loops'] = self.notes.get('loops', 0) + len(I.loops)
        self.notes['steps'] = self.notes.get('steps', 0) + I.steps
        self.standstill(I)
        for u in sorted(I.unknown):
            self.notes.setdefault('unmodelled', [])
            if u not in self.notes['unmodelled']:
                self.notes['unmodelled'].append(u)

    def standstill(self, I):
        """a round of a loop that changes nothing is repeated for ever"""
        from terms import EMPTY, EQ0, INT, compare, gshow, key, seq_len, subterms
        for X in I.loops.values():
            for row in X.backs:
                s = row['state']

                def same(p, u):
                    return u == p or u == EMPTY and s.decide(compare(seq_len(p), INT(0), EQ0)) is True
                if not all(same(p, row['upd'].get(p, p)) for p, _, _ in X.phis):
                    continue
                if any(e[0] not in ('loop',) for e in row['ev']) or any(x[0] in ('undef', 'dead', 'bad', 'post', 'uninit') for g in row['facts'] for x in subterms(g)):
                    continue
                self.violate('endless loop in ' + X.where[0].split('::')[-1], 'a round of the loop changes nothing, when '
                             + gshow(sorted(row['facts'], key=key))[:400], '%s (%s)' % (X.where[0], X.where[2]))

    def part(self, name, f, *args):
        """one part of a check; a part the analysis cannot follow stays undecided"""
        try:
            f(*args)
        except AnchorError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(name, '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno))

    def need(self, cond, what):
        if not cond:
            raise AnchorError(what)


def load_known(path):
    """lines `known: property=<id> key=<key> <text>` of the findings file"""
    out = {}
    if not os.path.exists(path):
        return out
    for l in open(path):
        l = l.strip()
        if l.startswith('known: property='):
            rest = l[len('known: property='):]
            pid, _, rest = rest.partition(' ')
            if rest.startswith('key='):
                k, _, text = rest[4:].partition(' ')
                out[(pid, k)] = text
    return out


def finish(ctx, root, level='other'):
    known = load_known(os.path.join(root, 'known_findings.txt'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    bad, kf = [], []
    for k, text, site in ctx.violations:
        if (ctx.pid, k.replace(' ', '_')) in known:
            kf.append((k, text))
        else:
            bad.append((k, text, site))
    total = len(ctx.proved) + len(ctx.undecided) + len(ctx.violations)
    cov = {
        'explanation': 'abstract interpretation of the built MIR of both crates; '
                       'each obligation compares the computed summary of a function with the rule; '
                       'nothing is executed',
        'rules': ctx.rules,
        'obligations': total,
        'decided_holds': len(ctx.proved),
        'decided_violated': len(ctx.violations),
        'undecided': len(ctx.undecided),
        'functions_analysed': sorted(ctx.analysed),
        'functions_analysed_count': len(ctx.analysed),
        'bodies_in_dump': len(ctx.prog.bodies),
        'proved': ctx.proved[:200],
        'undecided_list': ['%s: %s' % u for u in ctx.undecided[:50]],
    }
    for k, v in ctx.notes.items():
        cov[k] = v
    ev = {'property': ctx.pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - ctx.t0, 3)}
    if ctx.violations:
        ev['violations'] = ['%s: %s%s' % (k, t, ' [%s]' % s if s else '') for k, t, s in ctx.violations]
    os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(root, 'evidence', ctx.pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d functions analysed, %d obligations: %d hold, %d violated, %d undecided (%.1fs)' % (
        ctx.pid, len(ctx.analysed), total, len(ctx.proved), len(ctx.violations), len(ctx.undecided), time.time() - ctx.t0))
    for k, t in ctx.undecided[:20]:
        print('  undecided %s: %s' % (k, t[:400]))
    for k, t in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (ctx.pid, k, t))
    if bad:
        rp = os.path.join(root, '.build', 'replay')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, ctx.pid + '.txt')
        with open(f, 'w') as o:
            for k, t, s in bad:
                o.write('%s\n  %s\n  at %s\n' % (k, t, s))
        for k, t, s in bad:
            print('  %s: %s%s' % (k, t[:1500], ' [%s]' % s if s else ''))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, f))
        return 1
    if not ctx.proved:
        print('no obligation could be decided')
        return 3
    return 0
