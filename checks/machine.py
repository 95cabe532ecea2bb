"""The summaries of the simulator as one machine over small automata.

Rows and clauses that have another form than the rules may still denote the
same simulation.  The summaries of closure, feed, can_feed, is_accepting and
the final states are evaluated in finite models (small automata, short words)
and the answers are compared with those of the counting rules.  Only a
difference is reported; agreement proves nothing."""
import time
from sim import *
from rounds import Diverges
from whole import result
import c11
import c12


class Auto:
    """edges: {state: [(label, destinations)]}, label None, a set of
    characters or a quantifier (lo, hi)"""

    def __init__(self, name, edges, finals, letters):
        self.name, self.edges, self.finals, self.letters = name, edges, finals, letters
        self.n = 1 + max([0] + list(finals) + list(edges) + [d for es in edges.values() for _, ds in es for d in ds])

    def cap(self):
        return 2 + max([0] + [x for es in self.edges.values() for l, _ in es if isinstance(l, tuple) for x in l[1:] if x != INF])


QS = [('*', 0, INF), ('+', 1, INF), ('?', 0, 1), ('{n}', 2, 2), ('{n}', 0, 0), ('{n}', 3, 3), ('{n,}', 0, INF), ('{n,}', 2, INF), ('{n,m}', 1, 3),
      ('{n,m}', 0, 2), ('{n,m}', 2, 2)]


def plain():
    a, b, c, x, y = 'abcxy'
    yield Auto('[ab]x|[ac]y', {0: [({a, b}, [1]), ({a, c}, [2])], 1: [({x}, [3])], 2: [({y}, [3])]}, [3], 'abcxy')
    yield Auto('a|ab|abb', {0: [({a}, [1, 2, 3])], 2: [({b}, [4])], 3: [({b}, [5])], 5: [({b}, [6])]}, [1, 4, 6], 'ab')
    yield Auto('empty transitions', {0: [(None, [1, 2])], 1: [(None, [3])], 2: [({a}, [4])], 3: [({b}, [4]), (None, [0])], 4: [(None, [5])]}, [5], 'ab')
    yield Auto('two tokens', {0: [({a}, [1, 2])], 1: [({b}, [1, 2])], 2: [({a}, [0])]}, [1, 2], 'ab')
    yield Auto('final start', {0: [({a}, [0])]}, [0], 'ab')
    yield Auto('nothing', {}, [], 'a')


def wide(ns):
    for n in ns:
        ds = list(range(1, n + 2))
        yield Auto('%d alternatives' % len(ds), {0: [({'a'}, ds)], ds[-1]: [({'b'}, [0])]}, ds, 'ab')


def counted(qs):
    a, b = 'ab'
    for q in qs:
        yield Auto('a%s' % nm(q), {0: [(None, [1])], 1: [({a}, [1]), (q, [2])]}, [2], 'a')
        yield Auto('(a|b)%sb' % nm(q), {0: [(None, [1])], 1: [({a}, [1]), (None, [3]), (q, [2])], 3: [({b}, [1])], 2: [({b}, [4])]}, [4], 'ab')
        yield Auto('(ab)%s' % nm(q), {0: [(None, [1])], 1: [({a}, [3]), (q, [2])], 3: [({b}, [1])]}, [2], 'ab')
        yield Auto('(|a)%s' % nm(q), {0: [(None, [1])], 1: [(None, [1]), ({a}, [1]), (q, [2])]}, [2], 'a')
    for q in qs[:8]:
        for r in qs[:6]:
            yield Auto('(a%sb)%s' % (nm(q), nm(r)), {0: [(None, [1])], 1: [(None, [2]), (r, [4])], 2: [({a}, [2]), (q, [3])], 3: [({b}, [1])]}, [4], 'ab')
            yield Auto('a%sa%s' % (nm(q), nm(r)), {0: [(None, [1])], 1: [({a}, [1]), (q, [2])], 2: [(None, [3])], 3: [({a}, [3]), (r, [4])]}, [4], 'a')


def nm(q):
    return q[0] if q[0] in '*+?' else '{%d}' % q[1] if q[0] == '{n}' else '{%d,%s}' % (q[1], '' if q[2] == INF else q[2])


class Machine:
    def __init__(self, ctx, S):
        self.ctx, self.S = ctx, S
        b, self.run, self.closure, self.I = S.closure()
        fb = fn(ctx, 'NfaSimulator', 'feed', L)
        I, self.runs, outs = c11.feed_summary(ctx, S, fb)
        self.feed = [(s, k, c11.new_runs(S, s)) for s, k, v in outs]
        self.where = site(fb)
        self.input = sym('input')
        b, self.can_I, self.can_a, self.can = c12.run_fn(ctx, S, 'can_feed')
        b, self.acc_I, self.acc_a, self.acc = c12.run_fn(ctx, S, 'is_accepting')
        b, self.fin_I, self.fin_a, self.fin = c12.run_fn(ctx, S, 'get_current_final_states')
        terms = tuple((tuple(s.facts()), v) for outs in (self.closure, self.feed, self.can, self.acc, self.fin) for s, k, v in outs if k == 'ret')
        self.consts = constants(terms)
        self.widths = [c for c in constants(terms, 5000) if c > 3]

    # ------------------------------------------------------------- the models
    def quant(self, q):
        S, ctx = self.S, self.ctx
        va, vp, vm, vr = var(ctx, S.q, 'Asterisk', 'Plus', 'QuestionMark', 'Range')
        rmax, rmin, rrange = var(ctx, S.qr, 'Max', 'Min', 'Range')
        k, lo, hi = q
        if k in '*+?':
            return Adt((S.q, {'*': va, '+': vp, '?': vm}[k], ()))
        v, f = {'{n}': (rmax, (lo,)), '{n,}': (rmin, (lo,)), '{n,m}': (rrange, (lo, hi))}[k]
        return Adt((S.q, vr, (Adt((S.qr, v, f)),)))

    def label(self, l):
        S = self.S
        if l is None:
            return Adt((S.input, S.v_eps, ()))
        if isinstance(l, set):
            return Adt((S.input, S.v_lit, (Set(map(ord, l)),)))
        return Adt((S.input, S.v_quant, (self.quant(l),)))

    def state(self, A, i):
        S = self.S
        f = [None] * 3
        f[S.f_sid], f[S.f_fin] = i, i in A.finals
        f[S.f_tr] = Map((self.label(l), Set(ds)) for l, ds in A.edges.get(i, ()))
        return Adt((S.state, 0, tuple(f)))

    def mk_run(self, i, cnt):
        f = [None] * 2
        f[self.S.f_id], f[self.S.f_cnt] = i, cnt
        return Adt((self.S.run, 0, tuple(f)))

    def fns(self, A):
        sts = [self.state(A, i) for i in range(A.n)]
        memo = {}

        def state(i):
            if not 0 <= i < len(sts):
                raise Undef('state %r' % i)
            return sts[i]

        def close(r):
            if r not in memo:
                env = {}
                for t, v in zip(self.run[3], r[2]):
                    env[t] = v
                memo[r] = self.value(self.I, self.closure, env, fns)
            return memo[r]
        fns = {STATE: state, CONTAINS: lambda l, c: c in l, 'closure of': close, 'accepting': lambda r: False}
        return fns, sts

    def value(self, I, outs, env, fns):
        try:
            return self.only(Model(env, fns), outs)
        except Undef:
            # no closed form: the rows of its loops
            k, v = result(I, outs, env, fns, time.time() + 10, 300)
            if k != 'ret':
                raise Undef('panic')
            return v

    def only(self, m, outs):
        # how far a loop went is no condition of its own when one row is left
        hit = [(k, v) for s, k, v in outs if m.holds_so_far(sorted(s.facts(), key=key))]
        if len(hit) != 1:
            raise Undef('%d rows' % len(hit))
        if hit[0][0] != 'ret':
            raise Undef('panic')
        return m.ev(hit[0][1])

    def view(self, A, fns, sts, runs):
        """(accepting, final states, characters that can be fed)"""
        S = self.S
        r = Seq(sorted(runs, key=repr))

        def env(args):
            me = args[0]
            e = {fld(me, 0, S.f_runs): r}
            e[fld(c12.cow(fld(me, 0, S.f_nfa)), 0, S.f_states)] = Seq(sts)
            return e
        acc = self.value(self.acc_I, self.acc, env(self.acc_a), fns)
        fin = self.value(self.fin_I, self.fin, env(self.fin_a), fns)
        can = []
        for c in A.letters:
            e = env(self.can_a)
            e[self.can_a[1]] = ord(c)
            can.append(self.value(self.can_I, self.can, e, fns))
        return bool(acc), tuple(sorted(set(elems(fin)))), tuple(can)

    # -------------------------------------------------------------- the rules
    def ref_close(self, A, runs):
        cap = A.cap()
        out = set(runs)
        work = list(out)
        while work:
            i, cnt = work.pop()
            d = dict(cnt)
            for l, ds in A.edges.get(i, ()):
                if isinstance(l, set):
                    continue
                e = dict(d)
                if l is None:
                    e[i] = min(cap, e.get(i, 0) + 1)
                elif l[1] <= d.get(i, 0) <= l[2]:
                    e[i] = 0
                else:
                    continue
                for x in ds:
                    r = (x, tuple(sorted(e.items())))
                    if r not in out:
                        out.add(r)
                        work.append(r)
        return frozenset(out)

    def ref_feed(self, A, runs, c):
        cap = A.cap()
        out = set()
        for i, cnt in runs:
            for l, ds in A.edges.get(i, ()):
                if isinstance(l, set) and c in l:
                    e = dict(cnt)
                    e[i] = min(cap, e.get(i, 0) + 1)
                    out |= {(x, tuple(sorted(e.items()))) for x in ds}
        return self.ref_close(A, out)

    def ref_view(self, A, runs):
        fin = tuple(sorted({i for i, _ in runs if i in A.finals}))
        return bool(fin), fin, tuple(any(isinstance(l, set) and c in l for i, _ in runs for l, _ in A.edges.get(i, ())) for c in A.letters)

    # ------------------------------------------------------------- comparison
    def differ(self, A, depth):
        """(word, mine, rule) of the first difference"""
        fns, sts = self.fns(A)
        mine = frozenset(elems(fns['closure of'](self.mk_run(0, Map()))))
        ref = self.ref_close(A, [(0, ())])
        seen = {(mine, ref)}
        todo = [('', mine, ref)]
        while todo:
            w, mine, ref = todo.pop(0)
            a, b = self.view(A, fns, sts, mine), self.ref_view(A, ref)
            if a != b:
                return w, a, b
            if len(w) == depth:
                continue
            for c in A.letters:
                m = Model({self.runs: Seq(sorted(mine, key=repr)), self.input: ord(c)}, fns)
                p = (frozenset(elems(self.only(m, self.feed))), self.ref_feed(A, ref, c))
                if p not in seen and (p[0] or p[1]):
                    seen.add(p)
                    todo.append((w + c,) + p)
        return None

    def compare(self, name, autos, depth):
        """a difference from the rules as text, or None; ('odd', why) without a value"""
        n = 0
        for A in autos:
            try:
                d = self.differ(A, depth(A))
            except Undef as e:
                return ('odd', str(e))
            except Diverges:
                return ('bad', 'for the automaton of %s the closure does not end' % A.name)
            if d:
                return ('bad', 'for the automaton of %s after %r: accepting, final states, feedable %s are %s instead of %s' % (
                    A.name, d[0], A.letters, d[1], d[2]))
            n += 1
        return ('ok', n)

    def plain(self):
        r = self.compare('plain', plain(), lambda A: 4)
        if r[0] == 'ok':
            # as many runs at once as the numbers of the summaries
            r = self.compare('wide', wide(self.widths), lambda A: 2)
        return r

    def counted(self):
        qs = list(QS)
        for c in self.consts:
            qs += [('{n}', c, c), ('{n}', c + 1, c + 1), ('{n,}', c, INF), ('{n,}', c + 1, INF), ('{n,m}', c - 1, c)]
        return self.compare('counted', counted(qs), lambda A: max(5, A.cap() + 2) if A.letters == 'a' else 5)
