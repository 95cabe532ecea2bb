"""C20: the parse table is the SLR table and every conflict is refused."""
from lr import *
from c18 import Base
from natives import unfold
from model import *
import whole


def check(ctx):
    ctx.rule('every item of every state adds exactly one entry per action it calls for: a shift or goto to the target of the transition for the symbol after the marker, '
             'a reduction by the number of non-empty symbols per terminal that can follow its variable, and on the end of the input an acceptance (start variable) or reduction')
    ctx.rule('an entry is added when its place is free, left alone when the same action is there, and construction fails exactly when a different one is there')
    ctx.rule('construction of the parser fails when the table could not be built')
    ctx.notes['taken as given'] = 'FOLLOW sets (subject of C18) and the state machine (subject of C19)'
    K = Lr(ctx)
    T = Table(ctx, K, fn(ctx, 'ParseTable', 'new_slr', P))
    ctx.part('new_slr', T.go)
    ctx.part('Slr::new', construct, ctx, K)


def follow_models(ctx):
    def model(name):
        def f(I, st, a, info):
            return [(st, 'ret', ('app', name))]
        return f
    return {b['path']: model(n) for n in ('follow_set', 'followed_by_eof') for b in fns(ctx.prog, 'Grammar', n, P)}


def entries(t, T):
    """[(state, key, value)] added to table T by t; None if t is no such table"""
    if t == T:
        return []
    if t[0] != 'updnth':
        return None
    base, row, val = t[1:]
    out = []
    while val[0] == 'mapins':
        out.append((row, val[2], val[3]))
        val = val[1]
    rest = entries(base, T)
    if rest is None or val != nth(base, row):
        return None
    return rest + out[::-1]


class Table(Base):
    def __init__(self, ctx, K, b):
        super().__init__(ctx, K, b)
        self.K = K
        self.table = adt(ctx, 'ParseTable')
        self.act = adt(ctx, 'ActionKind')
        self.ter = adt(ctx, 'table::Terminal')
        ctx.need(len(ctx.prog.adts[self.act]['v']) == 3 and len(ctx.prog.adts[self.ter]['v']) == 2, 'variants of the table entries')
        self.shift, self.reduce, self.accept = var(ctx, self.act, 'Shift', 'Reduce', 'Accept')
        self.t_t, self.t_eof = var(ctx, self.ter, 'T', 'Eof')

        def order(v, *kinds):
            fs = ctx.prog.adts[self.act]['v'][v]['f']
            ctx.need(len(fs) == len(kinds), 'fields of the actions')
            return fs
        self.f_amount = [i for i, f in enumerate(order(self.reduce, 1, 2)) if f['n'] == 'amount' or f['ty'][0] == 'prim']
        self.a_amount = [i for i, f in enumerate(order(self.accept, 1, 2)) if f['n'] == 'amount' or f['ty'][0] == 'prim']
        ctx.need(len(self.f_amount) == 1 and len(self.a_amount) == 1, 'amounts of the actions')
        fs = ctx.prog.adts[self.table]['v'][0]['f']
        inner = lambda t: t[0] == 'adt' and t[1].endswith('Vec')
        has = lambda t, p: t[0] == 'adt' and (t[1] == p or any(isinstance(x, tuple) and x and has(x, p) for y in t[2:] for x in (y if isinstance(y, (tuple, list)) else ())))
        vec = [i for i, f in enumerate(fs) if inner(f['ty'])]
        self.f_action = [i for i in vec if fs[i]['n'] == 'action'] or [i for i in vec if has(fs[i]['ty'], self.act)]
        ctx.need(len(vec) == 2 and len(self.f_action) == 1, 'tables')
        self.f_action = self.f_action[0]
        self.f_goto = [i for i in vec if i != self.f_action][0]

    def mk(self, v, head, amount):
        i = (self.f_amount if v == self.reduce else self.a_amount)[0]
        f = [head, head]
        f[i] = amount
        return ('adt', self.act, v, tuple(f))

    def amount(self, item):
        K = self.K
        return seq_len(mk_flatmap(K.body(item), 1, ((guards_of([neg(K.is_eps(('bv', 1)))]), (('one', ('bv', 1)),)),)))

    # ------------------------------------------------------------- structure
    def go(self):
        ctx, K = self.ctx, self.K
        I, st, args, outs = run(ctx, self.b, follow_models(ctx))
        self.I = I
        c = args[0]
        while c[0] in ('ref', 'adt') and c[1] != K.cfsm:
            c = I.deref(st, c) if c[0] == 'ref' else c[3][0]
        self.states = fld(c, 0, K.c_states)
        self.start = fld(fld(c, 0, K.c_gram), 0, K.g_start)
        self.rules = fld(fld(c, 0, K.c_gram), 0, K.g_rules)
        self.first = fld(c, 0, K.c_start)
        self.follow, self.eof = ('app', 'follow_set'), ('app', 'followed_by_eof')
        good, errs = [], []
        for s, k, v in outs:
            if k == 'ret':
                (good if v[0] == 'adt' and v[1] == RES and v[2] == 0 else errs if v[0] == 'adt' and v[1] == RES else []).append((s, v))
        ctx.need(good, 'new_slr returns a table')
        done = set()
        for s, v in good:
            t = fld(v, 0, 0)
            A, G = fld(t, 0, self.f_action), fld(t, 0, self.f_goto)
            L = self.loop_of(A) if A[0] == 'phi' else None
            if L is None or self.loop_of(G) is not L:
                self.unknown('returned tables %s / %s' % (show(A)[:100], show(G)[:100]))
                continue
            if s.decide(compare(seq_len(list(L.iters)[0]), INT(0), EQ0)) is not True if len(L.iters) == 1 else True:
                self.bad('end', 'returns a table before all states are done, when %s' % facts_of(s)[:300])
            else:
                self.ok('a table is returned when all states are done')
            if L.id not in done:
                done.add(L.id)
                self.outer(L, A, G, outs)
        self.panics(outs)
        ctx.part('new_slr in small grammars', whole.table, self, I, outs)

    def source(self, what, X, want):
        """the iterated sequence of loop X is want; element term(s)"""
        if len(X.iters) != 1:
            self.unknown('%s: loop' % what)
            return None
        p, i = list(X.iters.items())[0]
        n = norm_iter(i)
        for r in X.backs:
            s = state_of(sorted(r['facts'], key=key))
            if s is not None and not same_rest(s, r['upd'].get(p, p), drop(strip_it(p), INT(1))):
                u = strip_it(r['upd'].get(p, p))
                if u[0] == 'drop' and u[1] == strip_it(p) or u == EMPTY:
                    self.bad(what, 'some are passed over: %s' % show(u)[:200])
                else:
                    self.unknown('%s: next %s' % (what, show(u)[:200]))
        return p, n

    def only_part(self, what, n, want):
        if strip_part(n)[1] and (strip_part(n)[0] in want or norm_iter(strip_part(n)[0]) in want):
            self.bad(what, 'only a part is used: %s' % show(n)[:200])
        elif n[0] == 'flatmap' and norm_iter(n[1]) in want and not opaque_in(n) - {'phi'}:
            self.bad(what, 'a selection is used: %s' % show(n)[:200])
        else:
            self.unknown('%s: %s' % (what, show(n)[:200]))

    def outer(self, L, A, G, outs):
        ctx, K = self.ctx, self.K
        for p, i, _ in L.phis:
            if p in (A, G):
                if i == EMPTY:
                    self.ok('tables start empty')
                elif opaque_in(i):
                    self.unknown('tables start as %s' % show(i)[:100])
                else:
                    self.bad('start', 'a table starts as %s' % show(i)[:200])
        r = self.source('states', L, self.states)
        if r is None:
            return
        p, n = r
        if n != self.states:
            return self.only_part('states', n, (self.states,))
        self.ok('all states are used')
        st = nth(strip_it(p), INT(0))
        self.sid = fld(st, 0, K.st_id)
        self.tr = fld(st, 0, K.st_tr)
        items = fld(fld(st, 0, K.st_items), 0, K.s_items)
        inn = [X for X in self.inner(L) if X.iters]
        phis = {q for X in inn for q, _, _ in X.phis}
        inn = [X for X in inn if not any(contains(i, lambda t: t in phis) for i in X.iters.values())]
        if len(inn) != 1:
            return self.unknown('loops over the items: %d' % len(inn))
        X = inn[0]
        self.early(L, X, 'items')
        r = self.source('items', X, None)
        if r is None:
            return
        p, n = r
        lst = ('items', items)
        self.levels = [L, X]
        if is_flat_items(n, lst):
            e = unfold(self.I, State(), strip_it(p), n, ('src', strip_it(p)))
            if len(e) != 1 or e[0][1][0] != 'tup':
                return self.unknown('items: element')
            self.head, self.item = e[0][1][1]
        elif n == lst:
            pair = nth(strip_it(p), INT(0))
            self.head = tfield(pair, 0)
            inn = [Y for Y in self.inner(X) if Y.iters]
            if len(inn) != 1:
                return self.unknown('loops over the bodies: %d' % len(inn))
            self.early(X, inn[0], 'items')
            X = inn[0]
            self.levels.append(X)
            r = self.source('items', X, None)
            if r is None:
                return
            p, n = r
            if n != tfield(pair, 1):
                return self.only_part('items', n, (tfield(pair, 1),))
            self.item = nth(strip_it(p), INT(0))
        else:
            return self.only_part('items', n, (lst,))
        self.ok('all items are used')
        self.X = X
        # tables inside the nested loops
        self.tabs = {}
        for root, name in ((A, 'a'), (G, 'g')):
            q = root
            for Y in self.levels:
                nx = [a for a, ini, _ in Y.phis if ini == q]
                q = nx[0] if len(nx) == 1 else q
                self.tabs[(name, Y.id)] = q
        # rows that only leave an inner loop must not touch the tables
        self.follow_loops = {}
        ids = {e[1] for r in X.backs for e in r['ev'] if e[0] == 'loop'} | {e[1] for s, k, v in outs for e in s.ev if e[0] == 'loop' and e[1] not in [Y.id for Y in self.levels]}
        for i in ids:
            if i in self.I.loops:
                self.follow_loop(self.I.loops[i])
        n = 0
        for r in X.backs:
            s = state_of(sorted(r['facts'], key=key))
            if s is not None:
                n += self.item_path(s, r['ev'], 'row', r['upd'])
        for s, k, v in outs:
            lv = [e[1] for e in s.ev if e[0] == 'loop']
            if k == 'ret' and v[0] == 'adt' and v[1] == RES and v[2] == 1:
                if X.id not in lv:
                    self.bad('failure', 'fails outside of the items, when %s' % facts_of(s)[:300])
                    continue
                n += self.item_path(s, s.ev, 'err', {})
        ctx.need(n >= 8, 'cases of the items')

    def early(self, outer, inner, what):
        """rows of the outer loop that leave the inner one early, or skip it"""
        for r in outer.backs:
            if not any(e[0] == 'loop' and e[1] == inner.id for e in r['ev']):
                self.bad(what, 'are passed over, when %s' % gshow(r['facts'])[:300])
            for p in inner.iters:
                for g in r['facts']:
                    if g[0] == 'I' and g[1] == ((('len', strip_it(p)), 1),) and g[2] != EQ0:
                        self.bad(what, 'are left early, when %s' % gshow(r['facts'])[:300])

    def follow_loop(self, F):
        if F.id in self.follow_loops:
            return
        if not F.iters:
            if not F.phis:
                self.follow_loops[F.id] = None
            else:
                self.unknown('inner loop')
            return
        r = self.source('followers', F, None)
        if r is None:
            return
        p, n = r
        G = self.G
        get = mapget(self.follow, self.head)
        want = [fld(get, 1, 0), ('getor', self.follow, self.head, ESET), ('getor', self.follow, self.head, EMPTY)]
        cur = nth(strip_it(p), INT(0))
        kind = None
        if n in want:
            kind = 'symbol'
        elif n[0] == 'flatmap' and norm_iter(n[1]) in want:
            # terminals picked out of the followers
            e = unfold(self.I, State(), strip_it(p), n, ('src', strip_it(p)))
            if len(e) == 1 and self.picks_terminals(n):
                kind, cur = 'picked', e[0][1]
        if kind is None:
            if not opaque_in(n, {'follow_set', self.head} | self.known()) and self.other_followers(n):
                return self.bad('followers', 'the symbols used are not those that follow the variable: %s' % show(n)[:200])
            return self.only_part('followers', n, want)
        self.ok('all followers are used')
        q = [a for a, ini, _ in F.phis if ini == self.tabs[('a', self.X.id)]]
        if len(q) != 1:
            return self.unknown('table in the loop over the followers')
        self.follow_loops[F.id] = (F, p, cur, kind, q[0])
        for r in F.backs:
            s = state_of(sorted(r['facts'], key=key))
            if s is not None:
                self.follower(s, F, 'row', r['upd'])

    def other_followers(self, n):
        G = self.G
        t = [Adt((G.sym, G.v_t, (x,))) for x in 'abc']
        for f in ({'h': t[:1], 'g': t[1:2]}, {'h': t[:2], 'g': t[2:]}, {'h': t, 'g': t}, {'g': t}):
            m = Model({self.head: 'h'}, {'follow_set': lambda f=f: Map({k: Set(v) for k, v in f.items()})})
            try:
                if set(elems(m.ev(n))) != set(f.get('h', ())):
                    return True
            except Undef:
                pass
        return False

    def picks_terminals(self, n):
        """a comprehension over the followers that keeps every terminal"""
        G = self.G
        bv = ('bv', n[2])
        s = State()
        if not s.assume(G.is_term(bv)):
            return False
        return not covers(s, [g for g, _ in n[3]])

    # --------------------------------------------------------------- entries
    def normal(self, s, upd, T):
        """facts and updates without the growing of the table"""
        rows = {t[2] for u in upd for t in subterms(u) if t[0] == 'updnth'} | {self.sid}
        need = {add(r, INT(1)) for r in rows}
        grow = {t for g in list(s.facts()) + list(upd) for t in subterms(g) if t[0] == 'resize'}
        m = {t: t[1] for t in grow if not t[3][1:] or t[3] in (EMPTY, ESET) or t[3][1] == ()}
        for t in grow:
            if t[2] not in need:
                return None
        # a number of elements does not depend on what is made of them
        for t in {t for g in list(s.facts()) + list(upd) for t in subterms(g) if t[0] == 'len' and t[1][0] == 'flatmap'}:
            f = t[1]
            if all([x[0] for x in ss] == ['one'] for _, ss in f[3]):
                m[t] = ('len', f[:3] + (tuple((gs, (('one', ('bv', f[2])),)) for gs, _ in f[3]),))
        facts = []
        for g in s.facts():
            if g[0] == 'I' and any(a[0] == 'len' and (a[1] == T or (a[1][0] == 'resize' and a[1][1] == T)) for a, _ in g[1]):
                continue
            facts.append(g)
        # equal variables: the name of the item's head stands for both
        alias = {}
        for g in facts:
            if g[0] == 'A' and g[2] is True and g[1][0] == 'eq' and self.head in g[1][1:]:
                a, b = g[1][1:]
                alias[b if a == self.head else a] = self.head
        sub1 = lambda t: subst(subst(t, m), alias)
        t = State()
        for g in facts:
            al = g[0] == 'A' and g[1][0] == 'eq' and any(x[0] == 'adt' for x in g[1][1:])
            x = subst_guards((g,), m if not al else {**m, **alias})
            if x is None:
                return False
            for y in x:
                if not t.assume(guard_term(y)):
                    return False
        return t, [sub1(u) for u in upd]

    def entry(self, s, name, kind, T, T2, key_, action, goto=False):
        """kind: 'row' with the new table T2, or 'err'"""
        r = self.normal(s, [T2], T)
        if r is None:
            self.unknown('%s: the table grows to another size' % name)
            return 0
        if r is False:
            return 0
        s, (T2,) = r
        add_ = entries(T2, T) if kind == 'row' else None
        if kind == 'row' and add_ is None:
            self.unknown('%s: table becomes %s' % (name, show(T2)[:300]))
            return 0
        if key_ is None:
            if kind == 'err':
                self.bad(name, 'construction fails without a conflict, when %s' % facts_of(s)[:400])
            elif add_:
                self.surplus(s, name, add_)
            else:
                self.ok(name + ': nothing is added')
            return 1
        old = mapget(nth(T, self.sid), key_)
        n = 0
        for case in ('free', 'same', 'other'):
            k = s.fork()
            if not k.assume(isvar(old, (0,), uni(OPT)) if case == 'free' else isvar(old, (1,), uni(OPT))):
                continue
            if case != 'free':
                d = self.alike(k, fld(old, 1, 0), action)
                if d is not None and d != (case == 'same'):
                    continue
                if d is None and not k.assume(eq(fld(old, 1, 0), action), case == 'same'):
                    continue
            n += 1
            nm = '%s: place %s' % (name, {'free': 'is free', 'same': 'holds the same action', 'other': 'holds another action'}[case])
            when = facts_of(k)[:400]
            odd = {y for g in k.facts() for y in opaque_in(g, self.known())}
            if kind == 'err':
                if case == 'other' and not goto:
                    self.ok(nm)
                elif odd:
                    self.unknown('%s: fails when %s' % (nm, when))
                else:
                    self.bad(nm, 'construction fails without a conflict, when %s' % when)
                continue
            hit = [e for e in add_ if same(k, e[0], self.sid) and same(k, e[1], key_)]
            rest = [e for e in add_ if e not in hit]
            if rest:
                self.surplus(k, nm, rest)
                continue
            if case == 'other' and not goto:
                if odd:
                    self.unknown('%s: goes on when %s' % (nm, when))
                else:
                    self.bad(nm, 'the conflict is not refused (%s), when %s' % ('the entry is replaced' if hit else 'the first entry is kept', when))
                continue
            if not hit:
                if case == 'same' or goto and case == 'other':
                    self.ok(nm)
                elif odd:
                    self.unknown('%s: not added when %s' % (nm, when))
                else:
                    self.bad(nm, 'the entry is missing, when %s' % when)
                continue
            ok = self.agree(k, hit[-1][2], action)
            if ok is True:
                self.ok(nm)
            elif ok is None:
                self.unknown('%s: entry %s' % (nm, show(hit[-1][2])[:200]))
            else:
                self.bad(nm, 'the entry is %s instead of %s, when %s' % (show(hit[-1][2])[:200], show(action)[:200], when))
        return n

    def alike(self, s, old, action):
        if action[0] != 'adt':
            return None
        d = s.decide(isvar(old, (action[2],), uni(self.act)))
        if d is False:
            return False
        if d is True:
            r = [s.decide(eq(fld(old, action[2], i), a)) for i, a in enumerate(action[3])]
            if False in r:
                return False
            if all(x is True for x in r):
                return True
        return None

    def agree(self, s, got, want):
        if same(s, got, want):
            return True
        if opaque_in(got, self.known()):
            return None
        if got[0] != 'adt' or want[0] != 'adt':
            return False
        if got[2] != want[2]:
            return False
        r = True
        for a, b in zip(got[3], want[3]):
            if same(s, a, b):
                continue
            body = self.K.body(self.item)
            if contains(b, lambda t: t == body) and contains(a, lambda t: t == body):
                if any(self.differ(a, b, m) for m in self.bodies()):
                    return False
                r = None
            else:
                return False
        return r

    def differ(self, a, b, m):
        try:
            return m.ev(a) != m.ev(b)
        except Undef:
            return False

    def bodies(self):
        K, G = self.K, self.G
        E, Tm, V = Adt((G.sym, G.v_e, ())), Adt((G.sym, G.v_t, ('t',))), Adt((G.sym, G.v_v, ('v',)))
        from itertools import product
        for n in range(6):
            for w in product((E, Tm, V), repeat=n):
                yield Model({K.body(self.item): Seq(w), K.cur(self.item): n}, {})

    def known(self):
        r = {'follow_set', 'followed_by_eof', self.item, self.head}
        for Y in self.levels:
            r |= {p for p, _, _ in Y.phis} | set(Y.iters)
        for F in self.follow_loops.values():
            if F:
                r |= {p for p, _, _ in F[0].phis} | set(F[0].iters)
        return r | {'src', 'el', 'resize', 'updnth', 'phi'}

    def surplus(self, s, name, es):
        odd = {y for g in s.facts() for y in opaque_in(g, self.known())}
        txt = 'an entry that no item calls for is added: %s, when %s' % ('; '.join('%s -> %s' % (show(k)[:100], show(v)[:100]) for _, k, v in es), facts_of(s)[:300])
        self.unknown('%s: %s' % (name, txt)) if odd else self.bad(name, txt)

    def follower(self, s, F, kind, upd):
        """one symbol that can follow the variable of a completed item"""
        G = self.G
        _, p, cur, how, T = self.follow_loops[F.id]
        T2 = upd.get(T, T)
        if not s.assume(neg(self.K.more(self.item))):
            return 0
        red = self.mk(self.reduce, self.head, self.amount(self.item))
        if how == 'picked':
            key_ = self.terminal(cur) if not (cur[0] == 'adt' and cur[1] == self.ter) else cur
            return self.entry(s, 'completed item, follower', kind, T, T2, key_, red)
        n = 0
        k = s.fork()
        if k.assume(G.is_term(cur)):
            n += self.entry(k, 'completed item, terminal follows', kind, T, T2, self.terminal(fld(cur, G.v_t, 0)), red)
        k = s.fork()
        if k.assume(G.is_eps(cur)):
            n += self.entry(k, 'completed item, empty symbol in FOLLOW', kind, T, T2, None, None)
        return n

    def terminal(self, t):
        return ('adt', self.ter, self.t_t, (t,))

    def item_path(self, s, ev, kind, upd):
        K, G = self.K, self.G
        ids = [e[1] for e in ev if e[0] == 'loop']
        X = self.X
        A, Gt = self.tabs[('a', X.id)], self.tabs[('g', X.id)]
        A2, G2 = upd.get(A, A), upd.get(Gt, Gt)
        item, head = self.item, self.head
        inner = [self.follow_loops[i] for i in ids if i in self.follow_loops and self.follow_loops[i]]
        odd = [i for i in ids if i in self.I.loops and i not in self.follow_loops and i not in [Y.id for Y in self.levels]]
        if odd:
            self.unknown('item: further loop')
            return 0
        n = 0
        # marker before a symbol
        k = s.fork()
        if k.assume(K.more(item)):
            sm = K.at(item)
            if inner:
                self.bad('items', 'an item whose marker is not at the end is treated as completed, when %s' % facts_of(k)[:300])
                return 1
            for name, test in (('terminal', G.is_term(sm)), ('variable', G.is_var(sm))):
                t = k.fork()
                if not t.assume(test):
                    continue
                dest = self.dest(t, sm)
                if dest is None:
                    continue
                if name == 'terminal':
                    n += self.entry(t, 'marker before a terminal', kind, A, A2, self.terminal(fld(sm, G.v_t, 0)), ('adt', self.act, self.shift, (dest,)))
                    if kind == 'row':
                        n += self.entry(t, 'marker before a terminal: goto', kind, Gt, G2, None, None)
                else:
                    if kind == 'row':
                        n += self.entry(t, 'marker before a variable: action', kind, A, A2, None, None)
                    n += self.entry(t, 'marker before a variable', kind, Gt, G2, fld(sm, G.v_v, 0), dest, goto=True)
        k = s.fork()
        if k.assume(neg(K.more(item))):
            get = mapget(self.follow, head)
            if inner:
                F, p, cur, how, T = inner[-1]
                left = k.decide(compare(seq_len(strip_it(p)), INT(0), EQ0))
                if left is not True:
                    if kind == 'err':
                        return self.follower(k, F, 'err', {})
                    self.bad('followers', 'are left early, when %s' % facts_of(k)[:300])
                    return 1
                pre = T
            else:
                if k.decide(isvar(get, (0,), uni(OPT))) is not True:
                    t = k.fork()
                    t.assume(isvar(get, (1,), uni(OPT)))
                    o = {y for g in t.facts() for y in opaque_in(g, self.known())}
                    if o:
                        self.unknown('completed item: followers, when %s' % facts_of(t)[:300])
                    elif kind == 'row':
                        self.bad('completed item', 'is not reduced on the terminals that follow, when %s' % facts_of(t)[:300])
                        return 1
                pre = A
            post = A2 if A2 != A or pre == A else pre
            if kind == 'err':
                post = pre
            elif pre != A and A2 == A:
                # the row keeps the table from before the loop over the followers
                self.bad('followers', 'entries are dropped, when %s' % facts_of(k)[:300])
                return 1
            amt = self.amount(item)
            for mm in (True, False):
                t = k.fork()
                if not t.assume(mem(head, self.eof), mm):
                    continue
                if not mm:
                    n += self.entry(t, 'completed item, never last', kind, pre, post, None, None)
                    continue
                for acc in (True, False):
                    u = t.fork()
                    if u.assume(eq(head, self.start), acc):
                        n += self.entry(u, 'completed item at the end of the input (%s)' % ('start variable' if acc else 'other variable'), kind, pre, post,
                                        ('adt', self.ter, self.t_eof, ()), self.mk(self.accept if acc else self.reduce, head, amt))
            if kind == 'row':
                n += self.entry(k, 'completed item: goto', kind, Gt, G2, None, None)
        return n

    def dest(self, s, sm):
        """the target of the transition for the symbol after the marker; None
        when the path says that there is none"""
        keys = [sm]
        for x in {x for g in s.facts() for x in subterms(g)}:
            if x[0] == 'mapget' and x[1] == self.tr:
                keys.append(x[2])
        for kx in keys[1:] + keys[:1]:
            y = kx
            while y[0] == 'adt' and len(y[3]) == 1 and y[1] != self.G.sym:
                y = y[3][0]
            if same(s, y, sm):
                g = mapget(self.tr, kx)
                if s.decide(isvar(g, (0,), uni(OPT))) is True:
                    return None
                return fld(g, 1, 0)
        w = adt(self.ctx, 'WSymbol')
        return fld(mapget(self.tr, ('adt', w, 0, (sm,))), 1, 0)

    def panics(self, outs):
        """panics must be impossible given the state machine"""
        if not hasattr(self, 'X'):
            return
        K, G = self.K, self.G
        for s, k, v in outs:
            if k != 'panic':
                continue
            sm = K.at(self.item)
            if s.decide(K.more(self.item)) is True:
                t = s.fork()
                if not t.assume(neg(G.is_eps(sm))):
                    self.ok('panic is impossible: marker before the empty symbol')
                    continue
                if self.dest(t, sm) is None:
                    self.ok('panic is impossible: a transition is missing')
                    continue
            F = [f for f in self.follow_loops.values() if f and f[0].id in [e[1] for e in s.ev if e[0] == 'loop']]
            if F:
                t = s.fork()
                if not t.assume(G.is_term(F[-1][2])):
                    self.ok('panic is impossible: FOLLOW holds terminals only')
                    continue
            odd = {y for g in s.facts() for y in opaque_in(g, self.known())}
            txt = '%s, when %s' % (v, facts_of(s)[:300])
            self.unknown('panic: ' + txt) if odd else self.bad('panic', txt)


def tfield(t, i):
    return fld(t, 0, i)


def is_flat_items(n, lst):
    """all pairs (head, item) of a map of item lists"""
    if n[0] != 'flatmap' or norm_iter(n[1]) != lst:
        return False
    r = clauses(n)
    if len(r) != 1 or r[0].guards or len(r[0].binders) != 2:
        return False
    (x, s1), (y, s2) = r[0].binders
    return norm_iter(s2) == fld(x, 0, 1) and r[0].value == ('tup', (fld(x, 0, 0), y))


def construct(ctx, K):
    """Slr::new fails whenever the table could not be built"""
    b = fn(ctx, 'Slr', 'new', P)
    nm = {}
    for name in ('from_grammar', 'new_slr'):
        for f in fns(ctx.prog, 'Cfsm' if name == 'from_grammar' else 'ParseTable', name, P):
            nm[f['path']] = lambda I, st, a, info, n=name: [(st, 'ret', ('app', n, *[I.freeze(st, x) for x in a]))]
    I, st, args, outs = run(ctx, b, nm)
    tab = [t for s, k, v in outs for g in s.facts() for t in subterms(g) if t[0] == 'app' and t[1] == 'new_slr']
    if not tab:
        return ctx.unknown('Slr::new', 'the table is not built in place')
    t = tab[0]
    n = 0
    for s, k, v in outs:
        bad = s.fork()
        if bad.assume(isvar(t, (1,), uni(RES))):
            n += 1
            if k == 'ret' and not (v[0] == 'adt' and v[1] == RES and v[2] == 1):
                ctx.violate('Slr::new', 'a parser is returned although the table could not be built', site(b))
            else:
                ctx.ok('Slr::new fails when the table could not be built')
        good = s.fork()
        if good.assume(isvar(t, (0,), uni(RES))):
            n += 1
            if k == 'panic':
                ctx.violate('Slr::new', 'fails although the table could be built, when %s' % facts_of(good)[:300], site(b))
            elif contains(v, lambda x: x == fld(t, 0, 0)):
                ctx.ok('Slr::new keeps the table')
            else:
                ctx.unknown('Slr::new', show(v)[:200])
    ctx.need(n >= 2, 'outcomes of Slr::new')
