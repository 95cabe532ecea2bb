"""C10: the automaton of a regex, construct by construct."""
from nfab import *


def check(ctx):
    ctx.rule('adding a state gives it the next number and no transitions; adding a transition changes nothing but the named state')
    ctx.rule('what the compiler adds between two states for a construct is a fragment of fresh non-final states, without ways back into the '
             'first or out of the second state, whose language over the parts of the construct is the one of the construct; '
             'every round of a quantified item leaves its counting state once')
    ctx.rule('a token is added between the start state and a final state of its own; nothing else changes')
    B = Builder(ctx)
    ctx.need(B.methods() >= 2, 'methods of NfaBuilder')
    ctx.part('expr', Compile(ctx, B).go)


class Compile:
    def __init__(self, ctx, B):
        self.ctx, self.B = ctx, B
        self.comp = adt(ctx, 'compiler::Compiler')
        self.kind = adt(ctx, 'ast::ExprKind')
        self.q = adt(ctx, 'QuantifierKind')
        self.f_nfa = field_by(ctx, self.comp, 'nfa', lambda t: t[0] == 'adt' and t[1] == B.b)
        self.f_fin = field_by(ctx, self.comp, 'final_state', lambda t: t == ('prim', 'usize'))
        self.concat, self.empty, self.alt, self.lit, self.group = var(ctx, self.kind, 'Concat', 'Empty', 'Alt', 'Lit', 'Group')
        self.expr = self.translate()

    def translate(self):
        """the function that adds an expression between two states"""
        r = []
        for b in self.ctx.prog.bodies.values():
            if b['closure'] or b['argc'] != 4 or not b['path'].startswith(L):
                continue
            t = [strip_ref(x) for x in b['ltys'][1:5]]
            if t[0] == ('adt', self.comp, ()) and t[1][:2] == ('adt', self.kind) and t[2] == t[3] == ('prim', 'usize'):
                r.append(b)
        if len(r) > 1:
            r = [b for b in r if b['name'] == 'expr'] or r
        self.ctx.need(len(r) == 1, 'Compiler::expr')
        return r[0]

    def models(self):
        m = self.B.models()
        m[self.expr['path']] = self.expr_op
        return m

    def expr_op(self, I, st, a, info):
        s = st.fork()
        r = I.last_ref(s, a[0]) or a[0]
        v = I.load(s, r)
        n = fld(v, 0, self.f_nfa)
        old = fld(n, 0, self.B.f_states)
        new = ('app', EXPR, old) + tuple(I.freeze(s, I.deref(s, x)) for x in a[1:])
        I.store(s, r, set_fld(v, 0, self.f_nfa, set_fld(n, 0, self.B.f_states, new)))
        return [(s, 'ret', UNIT)]

    def go(self):
        ctx = self.ctx
        for name, f in (('expr', self.constructs), ('loops', lambda: self.constructs(True)), ('sequence', self.sequences), ('long sequence', self.any_sequence),
                        ('new', self.new), ('new_final', self.new_final), ('adding a token', self.tokens), ('compile', self.finish),
                        ('inputs', self.inputs), ('conversions', self.conversions)):
            ctx.part(name, f)

    # ------------------------------------------------------------ constructs
    def run_expr(self, e, natives=None, loop=False, unroll=8):
        ctx = self.ctx

        def args(I, st):
            a = sym_args(I, st, self.expr)
            return [a[0], a[1] if e is None else e, a[2], a[2] if loop else a[3]]
        I, st, args, outs = run(ctx, self.expr, self.models(), args, unroll=unroll)
        me = I.deref(st, args[0])
        return I, st, args, me, outs

    def report(self, name, bad, odd, n):
        if bad:
            self.ctx.violate(name, '; '.join(sorted(set(bad))[:3]), site(self.expr))
        elif odd:
            self.ctx.unknown(name, '; '.join(sorted(odd)[:3]))
        elif n:
            self.ctx.ok(name)

    def after(self, I, s, args, me):
        """(additions, problem) of an outcome"""
        now = I.load(s, args[0]) if args[0][0] == 'ref' else None
        nfa0, nfa1 = fld(me, 0, self.f_nfa), fld(now, 0, self.f_nfa)
        base, ops = chain(fld(nfa1, 0, self.B.f_states))
        prob = None
        if not same(s, fld(nfa1, 0, self.B.f_start), fld(nfa0, 0, self.B.f_start)):
            prob = 'the start state changes to %s' % show(fld(nfa1, 0, self.B.f_start))[:100]
        elif not same(s, fld(now, 0, self.f_fin), fld(me, 0, self.f_fin)):
            prob = 'the final state changes to %s' % show(fld(now, 0, self.f_fin))[:100]
        return base, ops, prob, fld(nfa0, 0, self.B.f_states)

    def compare(self, name, I, st, args, me, outs, base, spec, e, pre=()):
        """outcomes under the base condition against spec(s, t) edges"""
        bad, odd, n = [], set(), 0
        for s, k, v in outs:
            m = s.fork()
            if not all(m.assume(c) for c in base) or not all(m.assume(c) for c in pre):
                continue
            n += 1
            if k != 'ret':
                bad.append('compiling panics %s when %s' % (v, facts_of(m)[:300]))
                continue
            frm, ops, prob, want = self.after(I, m, args, me)
            if prob:
                (odd.add if 'app' in prob or 'φ' in prob else bad.append)(prob)
                continue
            if frm != want:
                odd.add('states %s' % show(frm)[:200])
                continue
            try:
                x = fragment(self.B, m, ops, args[2], args[3], spec(args[2], args[3]))
            except Odd as ex:
                odd.add(str(ex))
                continue
            if x:
                bad.append('%s, when %s' % (x, facts_of(m)[:300]))
        self.report(name, bad, odd, n)

    def quantified(self, item, q):
        """edges of an item in a loop that is left by its quantifier"""
        return lambda s, t: [(s, 'Q', None), ('Q', 'Q', item), ('Q', t, ('quantifier', q))]

    def constructs(self, loop=False):
        I, st, args, me, outs = self.run_expr(None, loop=loop)
        e = args[1]
        is_ = lambda v: isvar(e, (v,), uni(self.kind))
        opt = lambda x, v: isvar(x, (v,), 2)
        cases = [('empty regex', [is_(self.empty)], lambda s, t: [(s, t, None)])]
        l, r = fld(e, self.alt, 0), fld(e, self.alt, 1)
        cases.append(('alternation', [is_(self.alt)], lambda s, t: [(s, t, ('part', l)), (s, t, ('part', r))]))
        for name, v, kind in (('literal', self.lit, 'literal'), ('group', self.group, 'part')):
            fs = self.ctx.prog.adts[self.kind]['v'][v]['f']
            iq = [i for i, f in enumerate(fs) if f['ty'] and f['ty'][0] == 'adt' and f['ty'][1] == OPT]
            self.ctx.need(len(fs) == 2 and len(iq) == 1, 'fields of ' + name)
            x, q = fld(e, v, 1 - iq[0]), fld(e, v, iq[0])
            uq = uni(OPT)
            cases.append((name, [is_(v), isvar(q, (0,), uq)], lambda s, t, x=x, kind=kind: [(s, t, (kind, x))]))
            cases.append(('quantified ' + name, [is_(v), isvar(q, (1,), uq)], self.quantified((kind, x), fld(q, 1, 0))))
        for name, base, spec in cases:
            self.compare(name + (' as a round of a loop' if loop else ''), I, st, args, me, outs, base, spec, e)

    def sequences(self):
        I, st, args, me, outs = self.run_expr(None)
        consts = constants(tuple((tuple(s.facts()), I.load(s, args[0])) for s, k, v in outs)
                           + tuple((tuple(r['facts']), tuple(lp.iters.values())) for lp in I.loops.values() for r in lp.backs))
        # one more than a constant, as the last part may be treated apart
        lens = sorted({1, 2, 3, 4, 6} | {c + d for c in consts for d in (0, 1, 2)})
        for n, loop in [(n, False) for n in lens] + [(1, True), (2, True), (3, True)]:
            parts = []
            for i in range(n):
                p = sym('part%d' % (i + 1))
                T.ADT_OF[p] = self.kind
                parts.append(p)
            e = ('adt', self.kind, self.concat, (mk_seq(tuple(('one', p) for p in parts)),))
            I, st, args, me, outs = self.run_expr(e, loop=loop, unroll=max(8, n))

            def spec(s, t):
                nodes = [s] + ['n%d' % i for i in range(n - 1)] + [t]
                return [(nodes[i], nodes[i + 1], ('part', parts[i])) for i in range(n)]
            self.compare('sequence of %d%s' % (n, ' as a round of a loop' if loop else ''), I, st, args, me, outs, [], spec, e)

    def any_sequence(self):
        """the loop over the parts of a sequence of any length"""
        I, st, args, me, outs = self.run_expr(None)
        e = args[1]
        xs = fld(e, self.concat, 0)
        name = 'sequence of any length'
        n = 0
        for s, k, v in outs:
            m = s.fork()
            if not m.assume(isvar(e, (self.concat,), uni(self.kind))) or not m.assume(compare(INT(1), ('len', xs), LE)):
                continue
            if k != 'ret':
                self.ctx.unknown(name, 'panic %s when %s' % (v, facts_of(m)[:300]))
                return
            frm, ops, prob, want = self.after(I, m, args, me)
            loops = [l for l in I.loops.values() if any(p == frm for p, _, _ in l.phis)]
            if prob or len(loops) != 1:
                self.ctx.unknown(name, prob or 'states %s' % show(frm)[:200])
                return
            lp = loops[0]
            why = self.loop_ok(m, lp, frm, ops, want, args, xs)
            if why:
                self.ctx.unknown(name, why)
                return
            n += 1
        if n:
            self.ctx.ok(name)

    def loop_ok(self, m, lp, nfa, ops, want, args, xs):
        its = [p for p, i, _ in lp.phis if p in lp.iters]
        if len(its) != 1 or lp.init(nfa) != want:
            return 'loop over %d things' % len(its)
        it = its[0]
        last = sub(('len', xs), INT(1))
        if lp.iters[it] not in (('takemin', xs, last), take(xs, last)):
            return 'loop over %s' % show(lp.iters[it])[:200]
        curs = [p for p, i, _ in lp.phis if i == args[2] and p not in (it, nfa)]
        for c in curs:
            ok = bool(lp.backs)
            for row in lp.backs:
                base, o = chain(lp.upd(row, nfa))
                try:
                    if base != nfa or fragment(self.B, row['state'], o, c, lp.upd(row, c), [(c, lp.upd(row, c), ('part', nth(it, INT(0))))]):
                        ok = False
                except Odd as e:
                    return str(e)
            if not ok:
                continue
            for lst in (nth(xs, last),):
                try:
                    if not fragment(self.B, m, ops, c, args[3], [(c, args[3], ('part', lst))]):
                        return None
                except Odd as e:
                    return str(e)
        return 'the loop is not recognised as a chain'

    # --------------------------------------------------------------- tokens
    def new(self):
        ctx, B = self.ctx, self.B
        b = fn(ctx, 'Compiler', 'new', L)
        I, st, args, outs = run(ctx, b)
        for s, k, v in outs:
            if k != 'ret':
                ctx.violate('Compiler::new', 'panics %s' % (v,), site(b))
                continue
            try:
                m = Model({})
                start = m.ev(fld(fld(v, 0, self.f_nfa), 0, B.f_start))
                fin = m.ev(fld(v, 0, self.f_fin))
                sts = {}
                for i, x in enumerate(elems(m.ev(fld(fld(v, 0, self.f_nfa), 0, B.f_states)))):
                    if x[2][B.s_id] != i:
                        raise Undef('numbering')
                    sts[i] = x[2]
            except (Undef, TypeError, AttributeError) as e:
                ctx.unknown('Compiler::new', '%s: %s' % (e, show(v)[:300]))
                continue
            bad = []
            if start not in sts or sts[start][B.s_fin]:
                bad.append('the start state is final or missing')
            if fin not in sts or not sts[fin][B.s_fin] or fin == start:
                bad.append('the final state %s is not a final state besides the start state' % fin)
            if any(x[B.s_tr] for x in sts.values()):
                bad.append('there are transitions')
            if bad:
                ctx.violate('Compiler::new', '; '.join(bad), site(b))
            else:
                ctx.ok('Compiler::new')

    def new_final(self):
        ctx, B = self.ctx, self.B
        b = fn(ctx, 'Compiler', 'new_final', L)
        I, st, args, outs = run(ctx, b, self.models())
        me = I.deref(st, args[0])
        for s, k, v in outs:
            if k != 'ret':
                ctx.violate('Compiler::new_final', 'panics %s' % (v,), site(b))
                continue
            now = I.load(s, args[0])
            n0, n1 = fld(me, 0, self.f_nfa), fld(now, 0, self.f_nfa)
            base, ops = chain(fld(n1, 0, B.f_states))
            fin = fld(now, 0, self.f_fin)
            if base != fld(n0, 0, B.f_states) or opaque_in((fin, v)):
                ctx.unknown('Compiler::new_final', show(now)[:300])
                continue
            new = {fresh(o[2]): o[3] for o in ops if o[1] == ADD}
            bad = []
            if any(o[1] != ADD for o in ops):
                bad.append('transitions are added')
            if new.get(fin) != TRUE:
                bad.append('the final state of the next token is %s, not a fresh final state, when %s' % (show(fin)[:100], facts_of(s)[:200]))
            if b['ltys'][0] == ('prim', 'usize') and v != fin:
                bad.append('returns %s instead of the new final state' % show(v)[:100])
            if fld(n1, 0, B.f_start) != fld(n0, 0, B.f_start):
                bad.append('the start state changes')
            if bad:
                ctx.violate('Compiler::new_final', '; '.join(bad), site(b))
            else:
                ctx.ok('Compiler::new_final')

    def tokens(self):
        ctx, B = self.ctx, self.B
        n = 0
        for nm in ('with_expression', 'add_expression'):
            for b in fns(ctx.prog, 'Compiler', nm, L):
                n += 1
                I, st, args, outs = run(ctx, b, self.models())
                me = I.deref(st, args[0])
                nfa0 = fld(me, 0, self.f_nfa)
                e = fld(I.deref(st, args[1]), 0, 0)
                s0, t0 = fld(nfa0, 0, B.f_start), fld(me, 0, self.f_fin)
                bad, odd = [], set()
                for s, k, v in outs:
                    if k != 'ret':
                        bad.append('panics %s when %s' % (v, facts_of(s)[:200]))
                        continue
                    now = I.load(s, args[0]) if args[0][0] == 'ref' else v
                    n1 = fld(now, 0, self.f_nfa)
                    base, ops = chain(fld(n1, 0, B.f_states))
                    if base != fld(nfa0, 0, B.f_states):
                        odd.add(show(now)[:300])
                        continue
                    if fld(n1, 0, B.f_start) != s0:
                        bad.append('the start state changes')
                    if fld(now, 0, self.f_fin) != t0:
                        bad.append('the final state changes')
                    try:
                        x = fragment(B, s, ops, s0, t0, [(s0, t0, ('part', e))])
                    except Odd as ex:
                        odd.add(str(ex))
                        continue
                    if x:
                        bad.append('between the start state and the final state of the token: %s, when %s' % (x, facts_of(s)[:200]))
                nm_ = short(b)
                if bad:
                    ctx.violate(nm_, '; '.join(bad[:3]), site(b))
                elif odd:
                    ctx.unknown(nm_, '; '.join(sorted(odd)))
                else:
                    ctx.ok(nm_)
        ctx.need(n, 'Compiler::add_expression')

    def finish(self):
        ctx, B = self.ctx, self.B
        for b in [fn(ctx, 'Compiler', 'compile', L)]:
            I, st, args, outs = run(ctx, b)
            me = I.deref(st, args[0])
            n0 = fld(me, 0, self.f_nfa)
            bad, odd, n = [], [], 0
            for s, k, v in outs:
                if k != 'ret':
                    continue
                n += 1
                if v[0] != 'adt' or v[1] != B.nfa:
                    odd.append(show(v)[:200])
                elif not same(s, v[3][B.n_start], fld(n0, 0, B.f_start)):
                    (odd if opaque_in(v[3][B.n_start]) else bad).append('the start state of the result is %s' % show(v[3][B.n_start])[:200])
                elif not same(s, v[3][B.n_states], fld(n0, 0, B.f_states)):
                    (odd if opaque_in(v[3][B.n_states]) else bad).append('the states of the result are %s' % show(v[3][B.n_states])[:200])
            if bad:
                ctx.violate('compile', '; '.join(bad[:3]), site(b))
            elif odd or not n:
                ctx.unknown('compile', '; '.join(odd[:3]))
            else:
                ctx.ok('compile')


    def inputs(self):
        """which characters a transition takes"""
        ctx, B = self.ctx, self.B
        C = 'literal contains'
        models = {b['path']: (lambda I, st, a, info: [(st, 'ret', ('app', C, I.deref(st, a[0]), I.deref(st, a[1])))])
                  for b in fns(ctx.prog, 'LiteralKind', 'contains', L)}
        ctx.need(models, 'LiteralKind::contains')
        b = fn(ctx, 'Input', 'can_take', L)
        I, st, args, outs = run(ctx, b, models)
        x, c = I.deref(st, args[0]), I.deref(st, args[1])
        for name, v in (('literal', B.v_lit), ('empty transition', B.v_eps), ('quantifier', B.v_quant)):
            yes = ('app', C, fld(x, v, 0), c) if v == B.v_lit else FALSE
            bad, odd = [], []
            for s, k, r in split_bool(I, outs):
                m = s.fork()
                if not m.assume(isvar(x, (v,), uni(B.input))):
                    continue
                if opaque_in((r,) + tuple(m.facts()), (C,)):
                    odd.append(facts_of(m)[:200])
                elif k != 'ret':
                    bad.append('panics when %s' % facts_of(m)[:200])
                elif (r == TRUE and m.decide(yes) is not True) or (r == FALSE and m.decide(yes) is not False):
                    bad.append('%s when %s' % ('takes a character' if r == TRUE else 'refuses a character', facts_of(m)[:200]))
            if bad:
                ctx.violate('characters of a ' + name, '; '.join(bad[:2]), site(b))
            elif odd:
                ctx.unknown('characters of a ' + name, odd[0])
            else:
                ctx.ok('characters of a ' + name)

    def conversions(self):
        """an automaton made of one or several syntax trees"""
        ctx, B = self.ctx, self.B
        models = {self.expr['path']: self.expr_op}
        for b in self.B.find('build', 1):
            models[b['path']] = lambda I, st, a, info: [(st, 'ret', self.as_nfa(I.freeze(st, I.deref(st, a[0]))))]
        for b in ctx.prog.bodies.values():
            if b['name'] != 'from' or b['closure'] or self_adt(b) != B.nfa:
                continue
            I, st, args, outs = run(ctx, b, models)
            x = I.deref(st, args[0])
            many = not (x[0] == 'adt')
            bad, odd = [], []
            for s, k, v in outs:
                if k != 'ret' or v[0] != 'adt' or v[1] != B.nfa:
                    odd.append(show(v)[:200] if k == 'ret' else str(v))
                    continue
                base, ops = chain(v[3][B.n_states])
                loops = [l for l in I.loops.values() if any(p == base for p, _, _ in l.phis)]
                if many and len(loops) == 1 and not ops:
                    lp = loops[0]
                    its = [p for p in lp.iters]
                    if len(its) != 1 or lp.iters[its[0]] != (x[1] if x[0] == 'it' else x):
                        odd.append('loop over %s' % [show(lp.iters[p])[:100] for p in its])
                        continue
                    rows = [(r['state'],) + chain(lp.upd(r, base)) for r in lp.backs]
                    e = fld(nth(its[0], INT(0)), 0, 0)
                    start = base
                    base = lp.init(base)
                else:
                    rows, e, start = [(s, base, ops)], fld(x, 0, 0), base
                fin = None
                try:
                    sts = elems(Model({}).ev(base))
                    fin = {y[2][B.s_id] for y in sts if y[2][B.s_fin]}
                except Undef as ex:
                    odd.append(str(ex))
                    continue
                for st_, b0, o in rows:
                    if b0 != start:
                        odd.append(show(b0)[:200])
                        continue
                    ends = {z for y in o if y[1] == EXPR for z in y[5:6]}
                    t = [z for z in ends if z[0] == 'int' and z[1] in fin]
                    if len(t) != 1:
                        (odd if opaque_in(tuple(ends)) else bad).append('no final state is reached: %s' % [show(z)[:60] for z in ends])
                        continue
                    w = fragment(B, st_, o, v[3][B.n_start], t[0], [(v[3][B.n_start], t[0], ('part', e))])
                    if w:
                        bad.append(w)
            name = 'conversion of %s' % ('several regexes' if many else 'a regex')
            if bad:
                ctx.violate(name, '; '.join(bad[:2]), site(b))
            elif odd:
                ctx.unknown(name, '; '.join(odd[:2]))
            else:
                ctx.ok(name)

    def as_nfa(self, v):
        f = [None, None]
        f[self.B.n_start], f[self.B.n_states] = fld(v, 0, self.B.f_start), fld(v, 0, self.B.f_states)
        return ('adt', self.B.nfa, 0, tuple(f))


def strip_ref(t):
    while t and t[0] in ('ref', 'ptr'):
        t = t[2]
    return t
