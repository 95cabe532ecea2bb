"""The automaton builder and the fragments the compiler adds with it.

The builder's own methods are summarised and compared with their rules; the
compiler is then interpreted with these rules in place of the methods, so that
what it adds to the automaton is a chain of additions.  A chain is read as a
graph between the two states the compiler was given and its language, over the
literals and the parts of the regex as letters, is compared with the language
of the construct."""
from sim import *
import itertools

ADD, TRANS, QUANT, EXPR = '+state', '+transition', '+quantified state', '+expression'
OPS = (ADD, TRANS, QUANT, EXPR)


LARGE = 70000


def sizes_for(rows):
    """(numbers of states that straddle the constants of the summary, whether a
    constant is out of reach)"""
    consts = constants(rows, 2 ** 31)
    out = {1, 2, 3}
    for c in [c for c in consts if c <= 40][:4] + [c for c in consts if 40 < c <= LARGE][:2]:
        out |= {c, c + 1, c + 2}
    return sorted(out), any(c > LARGE for c in consts)


class Builder:
    def __init__(self, ctx):
        self.ctx = ctx
        self.b = adt(ctx, 'nfa::model::NfaBuilder')
        self.nfa = adt(ctx, 'nfa::model::Nfa')
        self.state = adt(ctx, 'nfa::model::State')
        self.input = adt(ctx, 'nfa::model::Input')
        usize = lambda t: t == ('prim', 'usize')
        isvec = lambda t: t[0] == 'adt' and t[1].endswith('Vec')
        ismap = lambda t: t[0] == 'adt' and t[1].endswith('Map')
        self.f_start = field_by(ctx, self.b, 'start_state', usize)
        self.f_states = field_by(ctx, self.b, 'states', isvec)
        self.n_start = field_by(ctx, self.nfa, 'start_state', usize)
        self.n_states = field_by(ctx, self.nfa, 'states', isvec)
        self.s_id = field_by(ctx, self.state, 'id', usize)
        self.s_fin = field_by(ctx, self.state, 'fin', lambda t: t == ('prim', 'bool'))
        self.s_tr = field_by(ctx, self.state, 'transitions', ismap)
        self.v_lit, self.v_eps, self.v_quant = var(ctx, self.input, 'Literal', 'Eps', 'Quantified')
        self.eps = ('adt', self.input, self.v_eps, ())
        # labels of the small automata
        lit, cls, wrap = adt(ctx, 'LiteralKind'), adt(ctx, 'ClassKind'), adt(ctx, 'W')
        q, qr = adt(ctx, 'QuantifierKind'), adt(ctx, 'QuantifierRangeKind')
        vm, vc, vg = var(ctx, lit, 'Match', 'Class', 'Group')
        star, plus, opt, rng = var(ctx, q, 'Asterisk', 'Plus', 'QuestionMark', 'Range')
        self.lits = [Adt((lit, vm, (97,))), Adt((lit, vm, (98,))), Adt((lit, vc, (Adt((cls, 0, ())),))),
                     Adt((lit, vg, (True, Adt((wrap, 0, (Seq(),))))))]
        self.quants = [Adt((q, star, ())), Adt((q, plus, ())), Adt((q, opt, ())), Adt((q, rng, (Adt((qr, *var(ctx, qr, 'Max'), (2,))),)))]

    # ------------------------------------------------------------ the methods
    def mk_state(self, i, fin, tr=EMAP):
        f = [None] * 3
        f[self.s_id], f[self.s_fin], f[self.s_tr] = i, fin, tr
        return ('adt', self.state, 0, tuple(f))

    def find(self, name, argc, anchor=True):
        r = [b for b in fns(self.ctx.prog, 'NfaBuilder', name, L) if b['argc'] == argc]
        if not r and anchor:
            raise AnchorError('NfaBuilder::' + name)
        return r

    def methods(self):
        """NfaBuilder::new, add_state, add_transition, add_quantified_state"""
        ctx = self.ctx
        n = 0
        for b in self.find('new', 1):
            ctx.part('NfaBuilder::new', self.check_new, b)
        for name, argc, f in (('add_state', 2, self.spec_add), ('add_transition', 4, self.spec_trans),
                              ('add_quantified_state', 4, self.spec_quant)):
            for b in self.find(name, argc, name != 'add_quantified_state'):
                ctx.part(short(b), self.method, b, f)
                n += 1
        for name, argc, f in (('with_state', 2, self.spec_add), ('with_transition', 4, self.spec_trans)):
            for b in self.find(name, argc, False):
                ctx.part(short(b), self.method, b, f)
        return n

    def check_new(self, b):
        ctx = self.ctx
        I, st, args, outs = run(ctx, b)
        for s, k, v in outs:
            want = [None, None]
            want[self.f_start] = INT(0)
            want[self.f_states] = mk_seq((('one', self.mk_state(INT(0), args[0])),))
            if k == 'ret' and same(s, v, ('adt', self.b, 0, tuple(want))):
                ctx.ok(short(b))
            elif k == 'ret' and opaque_in(v):
                ctx.unknown(short(b), show(v)[:300])
            else:
                ctx.violate(short(b), 'a new automaton is %s, expected one state number 0 without transitions as start' % (show(v)[:300] if k == 'ret' else v,), site(b))

    def spec_add(self, states, args):
        """(result, states after) in a model: states is a list of (id, fin, map)"""
        return len(states), states + [(len(states), args[0], {})], None

    def spec_trans(self, states, args):
        s, e, i = args
        out = []
        for (n, fin, m) in states:
            if n == s:
                m = {k: set(v) for k, v in m.items()}
                m.setdefault(i, set()).add(e)
            out.append((n, fin, m))
        return None, out, None

    def spec_quant(self, states, args):
        fin, q, e = args
        return len(states), states + [(len(states), fin, {Adt((self.input, self.v_quant, (q,))): {e}})], None

    def value(self, st):
        f = [None] * 3
        f[self.s_id], f[self.s_fin] = st[0], st[1]
        f[self.s_tr] = Map((k, Set(v)) for k, v in st[2].items())
        return Adt((self.state, 0, tuple(f)))

    def automata(self, sizes):
        """small numbered automata with some transitions"""
        inp = [Adt((self.input, self.v_eps, ())), Adt((self.input, self.v_lit, (self.lits[0],))), Adt((self.input, self.v_quant, (self.quants[0],)))]
        for n in sizes:
            for k in range(4) if n <= 45 else (1,):
                sts = []
                for i in range(n):
                    m = {}
                    if k == 1:
                        m = {inp[0]: {n - 1}}
                    elif k == 2:
                        m = {inp[1]: {0, i}, inp[2]: {n - 1}}
                    elif k == 3:
                        m = {x: set(range(n)) for x in inp}
                    sts.append((i, (i + k) % 2 == 1, m))
                yield sts

    def choices(self, ty, n):
        while ty[0] == 'ref':
            ty = ty[2]
        if ty == ('prim', 'bool'):
            return [False, True]
        if ty == ('prim', 'usize'):
            return sorted({0, n // 2, n - 1})
        if ty[0] == 'adt' and ty[1] == self.input:
            return [Adt((self.input, self.v_eps, ()))] + [Adt((self.input, self.v_lit, (x,))) for x in self.lits] + \
                [Adt((self.input, self.v_quant, (x,))) for x in self.quants]
        if ty[0] == 'adt' and ty[1].endswith('::QuantifierKind'):
            return self.quants
        raise Undef('values of %s' % (ty,))

    def method(self, b, spec):
        """the summary of a method against its rule, on numbered automata"""
        ctx = self.ctx
        name = short(b)
        I, st, args, outs = run(ctx, b)
        me = I.deref(st, args[0])
        sterm = fld(me, 0, self.f_states)
        byref = args[0][0] == 'ref'
        rows = []
        for s, k, v in outs:
            after = I.load(s, args[0]) if byref else v
            res = v
            if k == 'ret' and not byref:
                res = UNIT
            rows.append((s, k, after, res))
        sizes, over = sizes_for(tuple((tuple(s.facts()), a, r) for s, k, a, r in rows))
        tested = 0
        for sts in self.automata(sizes):
            for vals in itertools.product(*[self.choices(t, len(sts))[-2 if len(sts) > 45 else 0:] for t in b['ltys'][2:b['argc'] + 1]]):
                env = {fld(me, 0, self.f_start): 0, sterm: Seq(self.value(x) for x in sts)}
                env.update(zip(args[1:], vals))
                m = Model(env)
                m.fuel += 50 * len(sts)
                try:
                    hit = [(k, a, r) for s, k, a, r in rows if m.holds(sorted(s.facts(), key=key))]
                    if len(hit) != 1:
                        raise Undef('%d rows' % len(hit))
                    k, a, r = hit[0]
                    want_r, want, _ = spec(sts, vals)
                    tell = lambda x: repr(x)[-300:]
                    where = 'for an automaton of %d states and %s' % (len(sts), ', '.join('%s = %r' % (show(x), v) for x, v in zip(args[1:], vals)))
                    if k != 'ret':
                        ctx.violate(name, 'panics %s' % where, site(b))
                        return
                    got = m.ev(fld(a, 0, self.f_states))
                    if norm(got) != norm(Seq(self.value(x) for x in want)):
                        ctx.violate(name, 'the states become %s instead of %s %s' % (tell(got), tell(Seq(self.value(x) for x in want)), where), site(b))
                        return
                    if m.ev(fld(a, 0, self.f_start)) != 0:
                        ctx.violate(name, 'the start state changes %s' % where, site(b))
                        return
                    if want_r is not None and byref and m.ev(r) != want_r:
                        ctx.violate(name, 'returns %r instead of the number %r of the new state %s' % (m.ev(r), want_r, where), site(b))
                        return
                    tested += 1
                except Undef as e:
                    ctx.unknown(name, 'no value: %s' % e)
                    return
        if tested and self.exact(rows, sterm, args, spec):
            ctx.ok('%s (any number of states)' % name)
        elif over:
            ctx.unknown(name, 'depends on a number of states above %d' % LARGE)
        elif tested:
            ctx.ok('%s (summary equals the rule on automata of up to %d states)' % (name, max(sizes)))

    def exact(self, rows, S, args, spec):
        """the summary is literally the rule, with the state found by its number
        (which exists, as the numbers are dense)"""
        def insert(states, i, key_, dest):
            p = mk_flatmap(sym('_'), 1, ((guards_of([compare(sub(fld(('bv', 1), 0, self.s_id), i), INT(0), EQ0)]), (('one', ('bv', 1)),)),))
            f = nth(subst(p, {sym('_'): states}), INT(0))
            tr = mk_rel(fld(f, 0, self.s_tr), mk_set((('one', tup(key_, dest)),)))
            return ('updsel', states, p, set_fld(f, 0, self.s_tr, tr)), ('I', ((('len', subst(p, {sym('_'): states})), 1),), EQ0)
        miss = None
        if spec == self.spec_add:
            want = cat(S, mk_seq((('one', self.mk_state(seq_len(S), args[1])),)))
        elif spec == self.spec_trans:
            want, miss = insert(S, args[1], args[3], args[2])
        else:
            s1 = cat(S, mk_seq((('one', self.mk_state(seq_len(S), args[1])),)))
            want, miss = insert(s1, seq_len(S), ('adt', self.input, self.v_quant, (args[2],)), args[3])
        for s, k, a, r in rows:
            if k != 'ret':
                if miss is None or miss not in s.facts():
                    return False
            elif fld(a, 0, self.f_states) != want or len(s.facts()) > (miss is not None):
                return False
        return True

    # ------------------------------------------- the methods as one addition
    def models(self):
        out = {}
        for b in self.find('add_state', 2):
            out[b['path']] = lambda I, st, a, info: self.op(I, st, a, ADD)
        for b in self.find('add_transition', 4):
            out[b['path']] = lambda I, st, a, info: self.op(I, st, a, TRANS)
        for b in self.find('add_quantified_state', 4, False):
            out[b['path']] = lambda I, st, a, info: self.op(I, st, a, QUANT)
        return out

    def op(self, I, st, a, name):
        s = st.fork()
        r = I.last_ref(s, a[0]) or a[0]
        v = I.load(s, r)
        old = fld(v, 0, self.f_states)
        new = ('app', name, old) + tuple(I.freeze(s, I.deref(s, x)) for x in a[1:])
        I.store(s, r, set_fld(v, 0, self.f_states, new))
        return [(s, 'ret', fresh(old) if name in (ADD, QUANT) else UNIT)]


def run(ctx, b, natives=None, args=None, skip=(), unroll=8):
    I = interp(ctx, natives=natives or {})
    I.UNROLL = unroll
    st = State()
    args = args(I, st) if args else sym_args(I, st, b, skip)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    return I, st, args, outs


class Odd(Exception):
    """something that is not an addition"""


def chain(t):
    """(oldest states term, additions in order)"""
    ops = []
    while t[0] == 'app' and t[1] in OPS:
        ops.append(t)
        t = t[2]
    return t, ops[::-1]


def fresh(old):
    """number of the state added next: the length of the states, in short"""
    root, ops = chain(old)
    return ('app', 'state', INT(len(ops)), root) if ops else ('len', root)


class Frag:
    """graph of the additions of a chain, with nodes identified under the
    facts of a path"""

    def __init__(self, B, st, ops):
        self.st = st
        self.nodes = []          # representatives
        self.edges = []          # (from, to, letter); letter None = no input
        self.letters = []        # (kind, term)
        self.fresh = {}          # node: final
        for o in ops:
            if o[1] in (ADD, QUANT):
                self.fresh[self.node(fresh(o[2]))] = o[3]
        for o in ops:
            if o[1] == TRANS:
                i = o[5]
                if i[0] != 'adt':
                    raise Odd('input %s' % show(i)[:200])
                if i[2] == B.v_eps:
                    l = None
                elif i[2] == B.v_lit:
                    l = self.letter('literal', i[3][0])
                else:
                    l = self.letter('quantifier', i[3][0])
                self.edges.append((self.node(o[3]), self.node(o[4]), l))
            elif o[1] == QUANT:
                self.edges.append((self.node(fresh(o[2])), self.node(o[5]), self.letter('quantifier', o[4])))
            elif o[1] == EXPR:
                self.edges.append((self.node(o[4]), self.node(o[5]), self.letter('part', o[3])))

    def node(self, t):
        if t[0] == 'len':
            t = fresh(t[1])
        for i, n in enumerate(self.nodes):
            if n == t or same(self.st, n, t):
                return i
        self.nodes.append(t)
        return len(self.nodes) - 1

    def letter(self, kind, t):
        for i, (k, x) in enumerate(self.letters):
            if k == kind and (x == t or same(self.st, x, t)):
                return i
        self.letters.append((kind, t))
        return len(self.letters) - 1

    def name(self, l):
        return 'round' if l == 'round' else '%s %s' % (self.letters[l][0], show(self.letters[l][1])[:120])

    def automaton(self, edges):
        """edges where every way out of a counting state other than by its
        quantifier is marked as a round"""
        counting = {a for a, b, l in edges if l is not None and self.letters[l][0] == 'quantifier'}
        out = {}
        n = 0
        for a, b, l in edges:
            if a in counting and not (l is not None and self.letters[l][0] == 'quantifier'):
                mid = ('m', n)
                n += 1
                out.setdefault(a, []).append(('round', mid))
                out.setdefault(mid, []).append((l, b))
            else:
                out.setdefault(a, []).append((l, b))
        return out

    def differ(self, s, t, spec):
        """shortest word in one of the languages from s to t only: (word, in mine) or None"""
        A, B = self.automaton(self.edges), self.automaton(spec)

        def close(G, xs):
            xs = set(xs)
            w = list(xs)
            while w:
                x = w.pop()
                for l, y in G.get(x, ()):
                    if l is None and y not in xs:
                        xs.add(y)
                        w.append(y)
            return frozenset(xs)

        def step(G, xs, l):
            return close(G, {y for x in xs for k, y in G.get(x, ()) if k == l and k is not None})
        p = (close(A, {s}), close(B, {s}))
        seen = {p: ()}
        q = [p]
        while q:
            p = q.pop(0)
            if (t in p[0]) != (t in p[1]):
                return seen[p], t in p[0]
            for l in list(range(len(self.letters))) + ['round']:
                n = (step(A, p[0], l), step(B, p[1], l))
                if (n[0] or n[1]) and n not in seen:
                    seen[n] = seen[p] + (l,)
                    q.append(n)
        return None


def fragment(B, st, ops, s, t, spec):
    """None if the additions form a fragment between s and t whose language is
    the one of the spec edges [(from, to, (kind, term) or None)], where nodes
    named by a string are fresh; otherwise what is wrong.  Raises Odd."""
    F = Frag(B, st, ops)
    a, b = F.node(s), F.node(t)
    if a == b:
        # one round: what leads back to the state ends there
        F.nodes.append(('end',))
        b = len(F.nodes) - 1
        F.edges = [(x, b if y == a else y, l) for x, y, l in F.edges]
    for n, fin in F.fresh.items():
        if fin not in (TRUE, FALSE):
            d = st.decide(fin)
            fin = TRUE if d is True else FALSE if d is False else fin
        if fin == TRUE:
            return 'an inner state is final'
        if fin != FALSE:
            raise Odd('final flag %s' % show(fin)[:100])
    own = set(F.fresh) | {a, b}
    for x, y, l in F.edges:
        for n in (x, y):
            if n not in own:
                if opaque_in(F.nodes[n]):
                    raise Odd('state %s' % show(F.nodes[n])[:200])
                return 'a transition between other states (%s) is added' % show(F.nodes[n])[:200]
    if s != t:
        for x, y, l in F.edges:
            if y == a:
                return 'a transition back into the start state is added'
            if x == b:
                return 'a transition out of the end state is added'
    sp = []
    for x, y, l in spec:
        x = a if x is s else ('spec', x)
        y = b if y is t else ('spec', y)
        sp.append((x, y, None if l is None else F.letter(*l)))
    d = F.differ(a, b, sp)
    if d is None:
        return None
    for k, x in F.letters:
        bad = opaque_in(x)
        if bad:
            raise Odd('%s of %s' % (sorted(bad), k))
    w = ', '.join(F.name(l) for l in d[0]) or 'nothing'
    return ('matches %s although the construct does not' if d[1] else 'does not match %s although the construct does') % w
