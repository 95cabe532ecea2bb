"""The parse loop as moves of the LR machine.

Every path of Slr::parse from one loop head to the next (or to an outcome) is
compared with the move the machine makes for the same lookahead, action and
stack.  The lexer is an unknown function of its own state."""
from lr import *
from c20 import Table, follow_models
from c18 import Base
import terms as T
import whole

TOKEN, LEXED, DONE = 'token', 'lexed', 'finished'


def lexer_models(ctx):
    def nxt(I, st, a, info):
        r = I.last_ref(st, a[0]) or a[0]
        if r[0] != 'ref':
            return None
        v = I.load(st, r)
        s = st.fork()
        t = ('app', TOKEN, v)
        T.ADT_OF.setdefault(t, OPT)
        I.store(s, r, ('app', LEXED, v))
        return [(s, 'ret', t)]

    def fin(I, st, a, info):
        return [(st, 'ret', ('app', DONE, I.freeze(st, I.deref(st, a[0]))))]
    out = {}
    for b in ctx.prog.bodies.values():
        if b['name'] == 'next' and ' as ' in b['pretty'] and '::Lexer<' in b['pretty'].split(' as ')[0]:
            out[b['path']] = nxt
    ctx.need(len(out) == 1, 'Lexer::next')
    f = fns(ctx.prog, 'Lexer', 'is_finished', 'pango_lexer::')
    ctx.need(len(f) == 1, 'Lexer::is_finished')
    out[f[0]['path']] = fin
    return out


class Driver(Base):
    """reports under the tags tree, panic and lexer"""

    def __init__(self, ctx, tags):
        self.K = K = Lr(ctx)
        super().__init__(ctx, K, fn(ctx, 'Slr', 'parse', P))
        self.tags = tags
        self.tab = Table(ctx, K, self.b)
        self.slr = adt(ctx, 'slr::Slr')
        self.token = adt(ctx, 'lexer::Token')
        self.cst, self.node = adt(ctx, 'cst::Cst'), adt(ctx, 'cst::Node')
        self.n_sym = field_by(ctx, self.node, 'symbol', lambda t: t[0] == 'adt' and t[1] == K.sym)
        self.n_ch = field_by(ctx, self.node, 'children', lambda t: t[0] == 'adt' and t[1].endswith('Vec'))
        self.c_root = field_by(ctx, self.cst, 'root', lambda t: t[0] == 'adt' and t[1] == self.node)
        self.t_kind = field_by(ctx, self.token, 'kind')
        self.f_table = field_by(ctx, self.slr, 'table', lambda t: t[0] == 'adt' and t[1] == self.tab.table)

    # -------------------------------------------------------------- reporting
    def good(self, tag, what):
        if tag in self.tags:
            self.ok(what)

    def dunno(self, tag, txt):
        if tag in self.tags:
            self.unknown(txt)

    def wrong(self, tag, what, txt, odd=()):
        if tag in self.tags:
            self.unknown('%s: %s' % (what, txt)) if odd else self.bad(what, txt)

    # -------------------------------------------------------------- structure
    def go(self):
        ctx, K = self.ctx, self.K
        shapes = self.shapes()
        I, st, args, outs = run(ctx, self.b, lexer_models(ctx))
        self.I = I
        slf = args[0] if args[0][0] != 'ref' else I.deref(st, args[0])
        table = fld(slf, 0, self.f_table)
        outs = [o for o in outs if self.made(o[0].facts(), table, shapes)]
        for X in I.loops.values():
            X.backs[:] = [r for r in X.backs if self.made(r['facts'], table, shapes)]
        self.action, self.goto = fld(table, 0, self.tab.f_action), fld(table, 0, self.tab.f_goto)
        whole.parse(self, I, st, args, outs)
        main = []
        for L in I.loops.values():
            for p, i, _ in L.phis:
                if i[0] == 'seq' and len(i[1]) == 1 and i[1][0][0] == 'one' and i[1][0][1][0] == 'adt' and any(
                        isinstance(f, tuple) and f[0] == 'adt' and f[1] == self.node for f in i[1][0][1][3]):
                    main.append((L, p, i[1][0][1]))
        live = {e[1] for s, k, v in outs for e in s.ev if e[0] == 'loop'}
        main = [m for m in main if m[0].id in live]
        if len(main) != 1:
            return self.dunno(self.tags[0], 'the loop over the tokens: %d' % len(main))
        L, S, init = main[0]
        self.pn = init[1]
        self.p_node = [i for i, f in enumerate(init[3]) if f[0] == 'adt' and f[1] == self.node][0]
        rest = [i for i in range(len(init[3])) if i != self.p_node]
        if len(rest) != 1:
            return self.dunno(self.tags[0], 'elements of the stack')
        self.p_state = rest[0]
        st0 = init[3][self.p_state]
        self.start_state(st0)
        roles = {'S': S}
        for p, i, _ in L.phis:
            if p == S:
                continue
            if i == NONE:
                roles['N'] = p
            elif i == st0 and 'Q' not in roles:
                roles['Q'] = p
            elif contains(i, lambda t: t[0] == 'sym' and t[1] == 'input') or i[0] == 'adt' and i[1].endswith('::Lexer'):
                roles['X'] = p
            else:
                roles.setdefault('other', []).append(p)
        if 'X' not in roles:
            return self.dunno(self.tags[0], 'lexer of the loop')
        roles.setdefault('N', NONE)
        b = [p for p in roles.get('other', ()) for q, i, _ in L.phis if q == p and i == INT(1)]
        if len(b) == 1:
            # the number of nodes up to the last shift
            roles['B'] = b[0]
        self.roles = {L.id: roles}
        self.main = L
        self.allowed = {TOKEN, LEXED, DONE} | {p for X in I.loops.values() for p, _, _ in X.phis}
        n = 0
        for s, k, v in outs:
            self.late(self.open(s.ev, s.facts(), v))
        for X in I.loops.values():
            if X.id not in self.roles:
                continue
            for r in X.backs:
                s = state_of(sorted(r['facts'], key=key))
                if s is None:
                    continue
                if self.open(r['ev'], r['facts'], tuple(r['upd'].values()), X.id):
                    self.dunno('tree', 'inner loop')
                    continue
                n += self.path(s, X, 'go', None, r['upd'])
        for s, k, v in outs:
            ids = self.open(s.ev, s.facts(), v)
            if not ids or ids[-1] not in self.roles:
                if k == 'panic':
                    self.wrong('panic', 'panic', '%s, when %s' % (v, facts_of(s)[:300]), ids)
                elif ids:
                    self.dunno('tree', 'further loop')
                else:
                    self.wrong('tree', 'start', 'ends before the first step, when %s' % facts_of(s)[:300])
                continue
            if k == 'panic':
                kind = 'panic'
            elif v[0] == 'adt' and v[1] == RES:
                kind = 'ok' if v[2] == 0 else 'err'
            else:
                self.dunno('tree', 'outcome %s' % show(v)[:200])
                continue
            n += self.path(s, I.loops[ids[-1]], kind, v, {})
        ctx.need(n >= 8, 'moves of the machine')

    def shapes(self):
        """variants of the other fields of the tables that are built"""
        ctx, t = self.ctx, self.tab
        other = [i for i, f in enumerate(ctx.prog.adts[t.table]['v'][0]['f']) if i not in (t.f_action, t.f_goto) and f['ty']
                 and f['ty'][0] == 'adt' and (f['ty'][1] in (OPT, RES) or len(ctx.prog.adts.get(f['ty'][1], {'v': ()})['v']) > 1)]
        out = {}
        if other:
            for s, k, v in run(ctx, fn(ctx, 'ParseTable', 'new_slr', P), follow_models(ctx))[3]:
                if k != 'ret' or v[0] == 'adt' and v[1] == RES and v[2] == 1:
                    continue
                for i in other:
                    x = fld(fld(v, 0, 0), 0, i)
                    out.setdefault(i, set()).add(x[2] if x[0] == 'adt' else None)
        return {i: vs for i, vs in out.items() if None not in vs}

    def made(self, facts, table, shapes):
        return not any(g[0] == 'V' and g[1] == fld(table, 0, i) and not vs & set(g[2]) for g in facts for i, vs in shapes.items())

    def open(self, ev, facts, v, skip=None):
        """loops of a path whose values are not closed, and the main loop"""
        out = []
        used = {t for g in facts for t in subterms(g) if t[0] == 'phi'} | {t for t in subterms(v) if t[0] == 'phi'}
        for e in ev:
            if e[0] == 'loop' and e[1] in self.I.loops and e[1] != skip:
                if e[1] == self.main.id or any(p in used for p, _, _ in self.I.loops[e[1]].phis):
                    out.append(e[1])
        return out

    def start_state(self, st0):
        if st0 == INT(0):
            self.good('tree', 'starts in the first state')
        elif opaque_in(st0):
            self.dunno('tree', 'first state %s' % show(st0)[:100])
        elif st0[0] == 'int':
            self.wrong('tree', 'start', 'starts in state %s' % show(st0))
        else:
            self.dunno('tree', 'first state %s' % show(st0)[:100])

    def late(self, ids):
        """the loop after the last token"""
        for a, b in zip(ids, ids[1:]):
            if a in self.roles and b not in self.roles:
                X, R = self.I.loops[b], self.roles[a]
                r = {}
                for name in ('S', 'Q', 'N', 'X', 'B'):
                    p = [q for q, i, _ in X.phis if name in R and i == R[name]]
                    if len(p) == 1:
                        r[name] = p[0]
                for q, i, _ in X.phis:
                    if q in r.values():
                        continue
                    if i == NONE and 'N' not in r:
                        r['N'] = q
                    elif 'X' not in r and 'X' in R and i == ('app', LEXED, R['X']):
                        r['X'] = q
                    elif i[0] in ('seq', 'take', 'drop') and contains(i, lambda t: t == R['S']) and not opaque_in(i, self.allowed):
                        self.wrong('tree', 'end of the input', 'the stack becomes %s' % show(i)[:200])
                    else:
                        self.dunno('tree', 'loop at the end of the input: %s' % show(i)[:100])
                if 'S' not in r:
                    continue
                if 'Q' not in r and 'Q' in R and any(contains(g, lambda t: t == R['Q']) for x in X.backs for g in x['facts']):
                    r['Q'] = R['Q']
                r['outer'] = R
                self.roles[b] = r

    # ------------------------------------------------------------------ moves
    def leaf(self, kind):
        return self.mk_node(('adt', self.G.sym, self.G.v_t, (kind,)), EMPTY)

    def mk_node(self, symbol, children):
        f = [None, None]
        f[self.n_sym], f[self.n_ch] = symbol, children
        return ('adt', self.node, 0, tuple(f))

    def push(self, node, state):
        f = [None, None]
        f[self.p_node], f[self.p_state] = node, state
        return ('adt', self.pn, 0, tuple(f))

    def path(self, s, L, kind, v, upd):
        R = self.roles[L.id]
        S = R['S']
        s = s.fork()
        if not s.assume(compare(seq_len(S), INT(1), ((0, INF),))):
            return 0
        q = R.get('Q') or fld(nth(S, sub(seq_len(S), INT(1))), 0, self.p_state)
        n = 0
        O = R.get('outer')
        if O:
            # after the last token: nothing is looked ahead at
            k = s.fork()
            if 'N' in R and not k.assume(isvar(R['N'], (0,), uni(OPT))):
                return 0
            if kind != 'go':
                N, X = O['N'], O['X']
                end = isvar(('app', TOKEN, X), (0,), uni(OPT))
                if not k.assume(isvar(N, (0,), uni(OPT))) or k.decide(end) is not True:
                    self.wrong('tree', 'end of the input', 'is assumed although tokens are left, when %s' % facts_of(k)[:300], self.odd(k))
                    return 1
                done = [x for g in k.facts() for x in subterms(g) if x[0] == 'app' and x[1] == DONE]
                if not any(k.decide(x) is True for x in done):
                    for tag in ('lexer', 'tree'):
                        self.wrong(tag, 'end of the input', 'is assumed although the lexer may not be finished, when %s' % facts_of(k)[:300], self.odd(k))
                else:
                    self.good('lexer', 'the end of the input is only assumed when the lexer is finished')
            return self.move(k, 'end of the input', R, q, NONE, None, kind, v, upd)
        N, X = R['N'], R['X']
        tok = ('app', TOKEN, X)
        k = s.fork()
        if k.assume(isvar(N, (1,), uni(OPT))):
            n += self.move(k, 'token kept', R, q, fld(N, 1, 0), X, kind, v, upd)
        k = s.fork()
        if k.assume(isvar(N, (0,), uni(OPT))):
            t = k.fork()
            if t.assume(isvar(tok, (1,), uni(OPT))):
                n += self.move(t, 'new token', R, q, fld(tok, 1, 0), ('app', LEXED, X), kind, v, upd)
            t = k.fork()
            if t.assume(isvar(tok, (0,), uni(OPT))):
                fin = ('app', DONE, ('app', LEXED, X))
                alt = [x for g in t.facts() for x in subterms(g) if x[0] == 'app' and x[1] == DONE]
                for d in (True, False):
                    u = t.fork()
                    if not all(u.assume(x, d) for x in [fin] + alt):
                        continue
                    if d:
                        n += self.move(u, 'end of the input', R, q, NONE, None, kind, v, upd)
                        continue
                    n += 1
                    if kind == 'err':
                        self.good('lexer', 'input that is no token is refused')
                        self.good('tree', 'input that is no token is refused')
                    elif kind == 'panic':
                        self.wrong('panic', 'input that is no token', 'panics: %s' % (v,), self.odd(u))
                    else:
                        for tag in ('lexer', 'tree'):
                            self.wrong(tag, 'input that is no token', 'the parser %s, when %s' % ('accepts' if kind == 'ok' else 'goes on', facts_of(u)[:300]), self.odd(u))
        return n

    def odd(self, s):
        return {y for g in s.facts() for y in opaque_in(g, self.allowed)}

    def move(self, s, name, R, q, tok, lexer, kind, v, upd):
        """one step with the given lookahead (NONE at the end of the input)"""
        tab, K = self.tab, self.K
        S = R['S']
        eof = tok == NONE
        what = None if eof else fld(tok, 0, self.t_kind)
        term = ('adt', tab.ter, tab.t_eof, ()) if eof else tab.terminal(what)
        row = compare(q, seq_len(self.action), LT)
        ent = mapget(nth(self.action, q), term)
        act = fld(ent, 1, 0)
        n = 0
        k = s.fork()
        if k.assume(row, False):
            n += self.expect(k, name + ', state without actions', ('err',), R, kind, v, upd, lexer)
        s = s.fork()
        if not s.assume(row):
            return n
        k = s.fork()
        if k.assume(isvar(ent, (0,), uni(OPT))):
            n += self.expect(k, name + ', no action', ('err',), R, kind, v, upd, lexer)
        if not s.assume(isvar(ent, (1,), uni(OPT))):
            return n
        k = s.fork()
        if not eof and k.assume(isvar(act, (tab.shift,), uni(tab.act))):
            dest = fld(act, tab.shift, 0)
            n += self.expect(k, name + ', shift', ('go', mk_seq((('sub', S), ('one', self.push(self.leaf(what), dest)))), NONE, dest, None),
                             R, kind, v, upd, lexer, {what: 'k', dest: 8})
        for vr in (tab.reduce, tab.accept):
            k = s.fork()
            if not k.assume(isvar(act, (vr,), uni(tab.act))):
                continue
            am = (tab.f_amount if vr == tab.reduce else tab.a_amount)[0]
            amount, var_ = fld(act, vr, am), fld(act, vr, 1 - am)
            left = sub(seq_len(S), amount)
            # the symbols of the body are on the stack, above its first element
            if not k.assume(compare(left, INT(1), ((0, INF),))):
                continue
            if not k.assume(compare(amount, INT(0), ((0, INF),))):
                continue
            kids = mk_flatmap(('rev', drop(S, left)), 1, (((), (('one', fld(('bv', 1), 0, self.p_node)),)),))
            node = self.mk_node(('adt', self.G.sym, self.G.v_v, (var_,)), kids)
            low = take(S, left)
            env = {amount: None, var_: 'v'}
            if vr == tab.accept:
                if not eof:
                    continue
                t = k.fork()
                if t.assume(compare(left, INT(1), EQ0)):
                    n += self.expect(t, name + ', accept', ('ok', node), R, kind, v, upd, lexer, env)
                if not k.assume(compare(left, INT(1), ((1, INF),))):
                    continue
            under = fld(nth(S, sub(left, INT(1))), 0, self.p_state)
            has = compare(under, seq_len(self.goto), LT)
            to = mapget(nth(self.goto, under), var_)
            nm = name + (', reduce' if vr == tab.reduce else ', reduce to the start variable inside')
            t = k.fork()
            if t.assume(has, False):
                n += self.expect(t, nm + ', state without gotos', ('err',), R, kind, v, upd, lexer)
            if not k.assume(has):
                continue
            t = k.fork()
            if t.assume(isvar(to, (0,), uni(OPT))):
                n += self.expect(t, nm + ', no goto', ('err',), R, kind, v, upd, lexer)
            t = k.fork()
            if t.assume(isvar(to, (1,), uni(OPT))):
                dest = fld(to, 1, 0)
                n += self.expect(t, nm, ('go', mk_seq((('sub', low), ('one', self.push(node, dest)))), NONE if eof else SOME(tok), dest, left),
                                 R, kind, v, upd, lexer, {**env, dest: 9})
        return n

    def expect(self, s, name, want, R, kind, v, upd, lexer, env=None):
        odd = self.odd(s)
        when = facts_of(s)[:400]
        if kind == 'panic':
            self.wrong('panic', name, 'panics (%s), when %s' % (v[:2], when), odd)
            return 1
        self.good('panic', name + ': no panic')
        if want[0] == 'go' and want[4] is not None and kind in ('go', 'err') and self.run_of(s, name, want, R, kind, upd, env, when):
            return 1
        if kind != want[0]:
            txt = {'go': 'goes on', 'err': 'fails', 'ok': 'accepts'}
            self.wrong('tree', name, 'the parser %s where it %s, when %s' % (txt[kind], {'go': 'has to go on', 'err': 'has to fail', 'ok': 'has to accept'}[want[0]], when), odd)
            if want[0] == 'err' and kind == 'go':
                self.wrong('panic', name, 'the parser goes on where it has to fail, when %s' % when, odd)
            return 1
        if kind == 'err':
            self.good('tree', name + ': fails')
            return 1
        if kind == 'ok':
            root = fld(fld(v, 0, 0), 0, 0)
            self.value(s, name + ': tree', root, want[1], R, env, when)
            return 1
        S2 = upd.get(R['S'], R['S'])
        self.value(s, name + ': stack', S2, want[1], R, env, when)
        if R.get('Q'):
            self.value(s, name + ': state', upd.get(R['Q'], R['Q']), want[3], R, env, when)
        if R.get('N') == NONE and want[2] != NONE:
            if upd.get(R['X'], R['X']) == lexer:
                self.wrong('tree', name + ': lookahead', 'the token is lost, when %s' % when, odd)
            else:
                self.dunno('tree', name + ': lookahead')
            return 1
        if 'N' in R:
            self.value(s, name + ': lookahead', upd.get(R['N'], R['N']), want[2], R, env, when, tokens=True)
        if lexer is not None and 'X' in R:
            self.value(s, name + ': lexer', upd.get(R['X'], R['X']), lexer, R, env, when, tokens=True)
        if 'B' in R and want[4] is None and not same(s, upd.get(R['B'], R['B']), seq_len(S2)):
            self.dunno('tree', name + ': nodes up to the last shift: %s' % show(upd.get(R['B'], R['B']))[:100])
        return 1

    def run_of(self, s, name, want, R, kind, upd, env, when):
        """Runs of reductions without a shift.  A state that is reached again on top of
        itself is reached forever; only then the parser may fail, and it has to."""
        other = [p for p in R.get('other', R.get('outer', {}).get('other', ())) if any(contains(g, lambda t: t == p) for g in s.facts())]
        B = R.get('B')
        if B is None or B not in [p for X in self.I.loops.values() for p, _, _ in X.phis]:
            if kind == 'go':
                self.dunno('panic', name + ': end of a run of reductions')
                return False
            if other:
                self.dunno('tree', name + ': the parser fails, when %s' % when)
            return bool(other)
        left, dest = want[4], want[3]
        got = upd.get(B, B)
        n, bad = 0, None
        for st, b, a in self.stacks():
            m = Model({R['S']: st, B: b, **({R['Q']: st[-1][2][self.p_state]} if R.get('Q') else {}), **{k: (a if x is None else x) for k, x in env.items()}}, {})
            if not m.holds_so_far(s.facts()):
                continue
            low = len(st) - a
            again = any(x[2][self.p_state] == 9 for x in st[min(b, low):low])
            n += 1
            if kind == 'err' and not again:
                return False
            if kind == 'go':
                try:
                    if again:
                        bad = 'the parser goes on although a run of reductions comes back to the same state'
                    elif m.ev(got) != min(b, low):
                        bad = 'the number of nodes up to the last shift becomes %s' % show(got)[:200]
                except Undef:
                    bad = bad or 'undefined'
        if not n:
            # a condition on some node above the last shift that no small stack meets
            odd = [g for g in s.facts() if contains(g, lambda t: t == R['S'])
                   and contains(g, lambda t: t[0] in ('flatmap', 'takemin', 'skipmin'))]
            if kind == 'err' and odd:
                self.dunno('tree', name + ': the parser fails, when %s' % when)
                return True
            return False
        if kind == 'err':
            self.good('tree', name + ': a run of reductions that does not end is refused')
            return True
        if bad:
            self.dunno('panic', name + ': ' + bad)
        else:
            self.good('panic', name + ': a run of reductions that does not end is noticed')
        return False

    def stacks(self):
        """(stack, nodes up to the last shift, symbols of the body); state 9 is the one that is entered"""
        for n in range(1, 5):
            for hot in range(1 << n):
                st = []
                for i in range(n):
                    f, g = [None, None], [None, None]
                    f[self.n_sym], f[self.n_ch] = Adt((self.G.sym, self.G.v_t, ('t',))), Seq()
                    g[self.p_node], g[self.p_state] = Adt((self.node, 0, tuple(f))), 9 if hot >> i & 1 else 20 + i
                    st.append(Adt((self.pn, 0, tuple(g))))
                for b in range(1, n + 1):
                    for a in range(n):
                        yield Seq(st), b, a

    def value(self, s, name, got, want, R, env, when, tokens=False):
        if same(s, got, want):
            return self.good('tree', name)
        odd = opaque_in(got, self.allowed)
        if odd:
            return self.dunno('tree', '%s: %s' % (name, show(got)[:200]))
        if tokens:
            return self.wrong('tree', name, 'becomes %s instead of %s, when %s' % (show(got)[:200], show(want)[:200], when), self.odd(s))
        r = self.refuted(s, got, want, R, env or {})
        if r:
            self.wrong('tree', name, 'becomes %s instead of %s, when %s' % (show(got)[:300], show(want)[:300], when), self.odd(s))
        else:
            self.dunno('tree', '%s: %s' % (name, show(got)[:300]))

    def refuted(self, s, got, want, R, env):
        """a small stack on which both differ"""
        G = self.G
        syms = [Adt((G.sym, G.v_t, ('t',))), Adt((G.sym, G.v_v, ('v',)))]
        consts = {x[1] for t in (got, want) for x in subterms(t) if x[0] == 'int' and 4 < x[1] < 200}
        for n in list(range(1, 6)) + sorted(c + d for c in consts for d in (1, 2, 3)):
            st = []
            for i in range(n):
                f, g = [None, None], [None, None]
                f[self.n_sym], f[self.n_ch] = syms[i % 2], Seq(('n%d' % i,) if i % 3 else ())
                g[self.p_node], g[self.p_state] = Adt((self.node, 0, tuple(f))), 20 + i
                st.append(Adt((self.pn, 0, tuple(g))))
            for a in range(max(0, n - 6), n):
                e = {k: (a if x is None else x) for k, x in env.items()}
                m = Model({R['S']: Seq(st), **({R['Q']: 19 + n} if R.get('Q') else {}), **e}, {})
                if not m.holds_so_far(s.facts()):
                    continue
                try:
                    if m.ev(got) != m.ev(want):
                        return True
                except Undef:
                    pass
        return False
