"""The outcome table of one step of the regex tokenizer."""
from common import *

HEX = ((48, 57), (65, 70), (97, 102))
U32 = 2 ** 32 - 1


def mk(path, name_index, *args):
    return ('adt', path, name_index, tuple(args))


class Tok:
    def __init__(self, ctx):
        self.ctx = ctx
        self.tokenizer = adt(ctx, 'Tokenizer')
        self.kind = adt(ctx, 'TokenKind')
        self.cls = adt(ctx, 'ClassKind')
        self.op = adt(ctx, 'OperatorKind')
        self.q = adt(ctx, 'QuantifierKind')
        self.qr = adt(ctx, 'QuantifierRangeKind')
        r = [b for b in ctx.prog.bodies.values() if b['name'] == 'next' and self_adt(b) == self.tokenizer and b['argc'] == 1]
        ctx.need(len(r) == 1, 'Tokenizer::next')
        self.b = b = r[0]
        out = b['ltys'][0]
        tok = out[2][0][1] if out[0] == 'adt' and out[2] and out[2][0][0] == 'adt' else None
        ctx.need(tok in ctx.prog.adts, 'type of the tokens')
        self.tok = tok
        fs = ctx.prog.adts[tok]['v'][0]['f']
        k = [i for i, f in enumerate(fs) if f['ty'] == ('adt', self.kind, ())]
        ctx.need(len(k) == 1, 'kind of a token')
        self.fk = k[0]
        ps = [i for i, f in enumerate(fs) if f['ty'] and f['ty'][0] == 'tuple']
        self.fp = ps[0] if len(ps) == 1 else None
        self.I = I = interp(ctx)
        st = State()
        args = sym_args(I, st, b)
        self.root = args[0]
        self.outs = I.call_body(st, b, args, ())
        ctx.add_interp(I)
        # the characters that are left
        seqs = set()
        for x in subterms(I.freeze(st, self.root)):
            if x[0] == 'it':
                seqs.add(x[1])
        ctx.need(len(seqs) == 1, 'character iterator of the tokenizer')
        self.S, = seqs
        T.ORIGIN.setdefault(self.S, self.S)
        self.rows = [self.row(*o) for o in self.outs]

    def c(self, k, X=None):
        t = fld(nth(X if X is not None else self.S, INT(k)), 0, 1)
        T.DOM.setdefault(t, ((0, 0x10FFFF),))
        return t

    def row(self, s, k, v):
        r = {'s': s, 'k': k, 'v': v, 'tok': None}
        if k == 'ret' and v[0] == 'adt' and v[1] == OPT and v[2] == 1:
            t = v[3][0]
            r['tok'] = fld(t, 0, self.fk)
            r['pos'] = fld(t, 0, self.fp) if self.fp is not None else None
        its = {x[1] for x in subterms(self.I.freeze(s, self.root)) if x[0] == 'it'} if k == 'ret' else set()
        r['rest'] = its.pop() if len(its) == 1 else None
        r['loops'] = [e[1] for e in s.ev if e[0] == 'loop']
        return r

    def v(self, path, name, *args):
        i, = var(self.ctx, path, name)
        return mk(path, i, *args)

    def rest_is(self, r, X, n):
        """the characters left are those of X without the first n"""
        want = drop(X, INT(n)) if n else X
        if r['rest'] == want:
            return True
        if r['rest'] == EMPTY:
            return r['s'].decide(compare(seq_len(X), INT(n), EQ0)) is True
        return False

    # -------------------------------------------------- numbers
    def numbers(self, r):
        """digit runs consumed on the way: base sequence -> Num"""
        out = {}
        for lid in r['loops']:
            n = self.number(self.I.loops[lid])
            if n:
                out[n.base] = n
        return out

    def invariants(self, r, m):
        """adds what holds after the digit runs; False if that is impossible"""
        for n in self.numbers(r).values():
            if n.flag and m.decide(n.flag) is True and not m.assume(compare(n.val, INT(U32), LE)):
                return False
        return True

    def number(self, L):
        if not hasattr(L, 'num'):
            L.num = self.number_(L)
        return L.num

    def number_(self, L):
        cand = []
        for R, init in L.iters.items():
            for X, k in self.bases(init):
                for A, a0, _ in L.phis:
                    if A == R or any(contains(row['upd'].get(A, A), lambda x: x[0] == 'bad') for row in L.backs):
                        continue
                    first = add(self.c(1, X), INT(-48)) if k == 2 else INT(0)
                    m = {p: i for p, i, _ in L.phis if p[0] == 'phi'}
                    a0 = subst(a0, m)
                    if a0[0] == 'adt' and a0[1:3] == (OPT, 1):
                        ok, val, none = isvar(A, (1,), uni(OPT)), fld(A, 1, 0), isvar(A, (0,), uni(OPT))
                        a0 = a0[3][0]
                    elif is_intlike(a0):
                        ok, val, none = compare(A, INT(U32), LE), A, None
                    else:
                        continue
                    T.DOM.setdefault(val, ((0, U32),) if none is not None else ((0, INF),))
                    flag = None
                    bad = self.steps(L, R, A, val, ok, none)
                    if bad and none is None:
                        # a flag that tells whether the value is still small enough
                        for F, f0, _ in L.phis:
                            if subst(f0, m) == BOOL(True) and not self.flag_steps(L, R, A, F):
                                flag, ok, bad = F, F, []
                                break
                    if a0 != first:
                        if bad:
                            continue
                        bad = ['the value starts as %s instead of %s' % (show(a0), show(first))]
                    cand.append(Num(L, X, R, ok, val, bad, flag))
        cand.sort(key=lambda n: len(n.bad))
        return cand[0] if cand else None

    def flag_steps(self, L, R, A, F):
        d = self.c(0, R)
        dig = compare(d, INT(0), ((48, 57),))
        nv = add(add(mul(INT(10), A), d), INT(-48))
        for row in L.backs:
            s = State()
            if not assume_facts(s, row['facts']):
                continue
            if s.fork().assume(dig, False):
                return 'no digit'
            u, f = row['upd'].get(A, A), row['upd'].get(F, F)
            x = s.fork()
            if x.assume(F, False) and simp(x, f) not in (BOOL(False), F):
                return 'flag'
            for c, want in ((compare(nv, INT(U32), LE), True), (compare(nv, INT(U32), ((1, INF),)), False)):
                x = s.fork()
                if x.assume(F) and x.assume(dig) and x.assume(c):
                    y = simp(x, f)
                    if x.decide(y) is not want or (want and u != nv):
                        return 'value'
        return None

    def bases(self, init):
        if init[0] == 'drop' and init[2] in (INT(1), INT(2)):
            yield init[1], init[2][1]

    def steps(self, L, R, A, val, ok, none):
        """problems of the digit loop: each step must take one digit d and turn
        the value v into 10 v + d, or into none when that needs more than 32 bits"""
        bad = []
        d = self.c(0, R)
        dig = compare(d, INT(0), ((48, 57),))
        nv = add(add(mul(INT(10), val), d), INT(-48))
        for row in L.backs:
            s = State()
            if not assume_facts(s, row['facts']):
                continue
            x = s.fork()
            if x.assume(dig, False):
                bad.append('a character that is no digit is part of the number, when ' + facts_of(x))
            u = row['upd'].get(A, A)
            if none is not None:
                x = s.fork()
                if x.assume(none) and u not in (NONE, A):
                    bad.append('a number that is too large becomes %s' % show(u))
                for c, want in ((compare(nv, INT(U32), LE), SOME(nv)), (compare(nv, INT(U32), ((1, INF),)), NONE)):
                    x = s.fork()
                    if x.assume(ok) and x.assume(dig) and x.assume(c) and simp(x, u) != simp(x, want) and u != want:
                        bad.append('the value becomes %s instead of %s, when %s' % (show(u), show(want), facts_of(x)))
            else:
                x = s.fork()
                if x.assume(dig) and u != nv:
                    bad.append('the value becomes %s instead of %s, when %s' % (show(u), show(nv), facts_of(x)))
        return bad


class Num:
    def __init__(self, L, base, rest, ok, val, bad, flag=None):
        self.flag = flag
        self.L, self.base, self.rest, self.ok, self.val, self.bad = L, base, rest, ok, val, bad


def eval_int(t, env):
    """value of an integer term whose atoms are given"""
    if t in env:
        return env[t]
    if t[0] == 'int':
        return t[1]
    if t[0] == 'lin':
        d, c = lin(t)
        r = c
        for a, k in d.items():
            x = eval_int(a, env)
            if x is None:
                return None
            r += k * x
        return r
    if t[0] in ('mod', 'digit', 'div'):
        t = ('app', t[0], t[1], t[2] if isinstance(t[2], tuple) else INT(t[2]))
    if t[0] == 'app' and len(t) == 4:
        a, b = eval_int(t[2], env), eval_int(t[3], env)
        if a is None or b is None:
            return None
        if t[1] == 'mod':
            return a % b if b else None
        if t[1] == 'div':
            return a // b if b else None
        if t[1] in ('BitAnd', 'bitand', 'and'):
            return a & b
        if t[1] in ('BitXor', 'bitxor', 'xor'):
            return a ^ b
        if t[1] in ('BitOr', 'bitor', 'or'):
            return a | b
        if t[1] == 'digit':
            try:
                return int(chr(a), b) if chr(a).isascii() else None
            except ValueError:
                return None
    return None


def same_value(st, a, b):
    """True, False or None (cannot tell)"""
    if a == b:
        return True
    if a[0] == 'adt' and b[0] == 'adt':
        if a[1:3] != b[1:3]:
            return False
        rs = [same_value(st, x, y) for x, y in zip(a[3], b[3])]
        return True if all(r is True for r in rs) else (False if any(r is False for r in rs) else None)
    a2, b2 = simp(st, a), simp(st, b)
    if a2 == b2:
        return True
    if not (is_intlike(a2) and is_intlike(b2)):
        return None if opaque_in((a2, b2)) else False
    if st.decide(compare(a2, b2, EQ0)) is False:
        return False
    # finite choice of one character
    atoms = {x for t in (a2, b2) for x in subterms(t) if x in T.DOM and x[0] == 'fld'}
    if len(atoms) == 1:
        x, = atoms
        iv = st.I.get(((x, 1),), T.DOM[x])
        if sum(h - l + 1 for l, h in iv) <= 4096:
            rs = []
            for l, h in iv:
                for n in range(l, h + 1):
                    p, q = eval_int(a2, {x: n}), eval_int(b2, {x: n})
                    if p is None or q is None:
                        return None
                    if p != q:
                        return False
            return True
    da = opaque_in((a2, b2), ('digit', 'mod'))
    if not da:
        return False
    return None


def finite(st, f):
    """the values of the one character that a fact about numbers depends on, if they are few, and
    those among them for which it holds"""
    if f[0] != 'I' or all(x in T.DOM and x[0] != 'app' for x, _ in f[1]):
        return None
    atoms = {x for t, _ in f[1] for x in subterms(t) if x in T.DOM and x[0] == 'fld'}
    if len(atoms) != 1:
        return None
    x, = atoms
    iv = st.I.get(((x, 1),), T.DOM[x])
    if sum(h - l + 1 for l, h in iv) > 4096:
        return None
    ns = [n for l, h in iv for n in range(l, h + 1)]
    ok = []
    for n in ns:
        vs = [eval_int(t, {x: n}) for t, _ in f[1]]
        if None in vs:
            return None
        v = sum(k * y for (_, k), y in zip(f[1], vs))
        if any(l <= v <= h for l, h in f[2]):
            ok.append(n)
    return ns, ok


def compare_rows(ctx, T_, name, rows, spec, base, invalid, where, known=()):
    """rows of the tokenizer under `base` against the spec rows
    (label, guards, kind, (X, n)); every other input must be invalid.
    spec is a list or a function row -> list"""
    bs = State()
    for g in base:
        if not bs.assume(g):
            return
    bad, odd = [], []
    seen = 0
    for r in rows:
        m = meet(r['s'], bs)
        if m is None or not T_.invariants(r, m):
            continue
        if any(x is not None and not x[1] for x in (finite(m, f) for f in m.facts())):
            continue
        seen += 1
        if any(T_.number(T_.I.loops[lid]) is None for lid in r['loops']):
            odd.append('loops that are no digit runs: %s' % [T_.I.loops[lid].where for lid in r['loops']])
            continue
        if r['k'] != 'ret':
            bad.append('panics (%s), when %s' % (r['v'][0] if r['v'] else '', facts_of(m)))
            continue
        sp = spec(r) if callable(spec) else spec
        K = r['tok']
        if K is None:
            x = m.fork()
            if x.assume(compare(seq_len(T_.S), INT(1), ((0, INF),))):
                bad.append('no token, when ' + facts_of(x))
            continue
        if K == invalid:
            for label, g, kind, cons in sp:
                x = m.fork()
                if all(x.assume(t) for t in g):
                    bad.append('%s is invalid, when %s' % (label, facts_of(x)))
            continue
        if K[0] != 'adt':
            odd.append('kind ' + show(K)[:100])
            continue
        rest = [m]
        for label, g, kind, cons in sp:
            x = m.fork()
            if not all(x.assume(t) for t in g):
                continue
            e = same_value(x, subst(K, known), subst(kind, known)) if known else same_value(x, K, kind)
            if e is False:
                bad.append('%s gives %s instead of %s, when %s' % (label, show(K), show(kind), facts_of(x)))
            elif e is None:
                odd.append('%s: %s against %s' % (label, show(K), show(kind)))
            elif r['rest'] is None:
                odd.append('what is left after ' + label)
            elif not T_.rest_is(dict(r, s=x), *cons):
                bad.append('%s leaves %s instead of what follows it (%s without %d), when %s' % (
                    label, show(r['rest']), show(cons[0]), cons[1], facts_of(x)))
            rest = [y for z in rest for y in subtract([z], [f for t in g for f in (term_guards(t) or ())])]
        for x in rest:
            bad.append('gives %s for text that is invalid, when %s' % (show(K), facts_of(x)))
    if not seen:
        ctx.unknown(name, 'no outcome')
    elif bad:
        # outcomes that depend on parts that are not followed stay open
        vals = set()
        for r in rows:
            m = meet(r['s'], bs)
            if m is not None:
                for f in m.facts():
                    if finite(m, f) is None:
                        vals |= opaque_in(f, ('digit', 'mod'))
        vals -= {'phi'}
        if vals:
            ctx.unknown(name, '%s (%s)' % (sorted(vals), bad[0][:300]))
        else:
            ctx.violate(name, '; '.join(bad[:3]), where)
    elif odd:
        ctx.unknown(name, '; '.join(odd[:3]))
    else:
        ctx.ok(name)
