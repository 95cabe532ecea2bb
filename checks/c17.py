"""C17: FIRST sets are exact."""
from gram import *
import whole


def check(ctx):
    ctx.rule('the FIRST computation is a work list of (variable, rest of a body); per symbol of a body it adds exactly: a terminal itself; the known beginnings of a '
             'variable (the empty symbol only at the end of the body); the empty symbol when the body ends with it')
    ctx.rule('it goes on to the next symbol exactly after an empty symbol or a variable whose known beginnings hold the empty symbol; '
             'a variable met for the first time has all its bodies queued; the rest of the body waits for the beginnings of that variable and is queued again when they grow')
    ctx.rule('when no work is left the beginnings collected for the asked variable (or sequence) are returned')
    G = Gram(ctx)
    n = 0
    for name in ('first', 'first_body'):
        r = fns(ctx.prog, 'Grammar', name, P)
        if len(r) != 1:
            continue
        n += 1
        ctx.part(name, entry, ctx, G, r[0], name)
    ctx.need(n, 'FIRST computation')


def entry(ctx, G, b, name):
    I, st, args, outs = run(ctx, b)
    rules = fld(args[0], 0, G.g_rules)
    where = site(b)
    rets = [o for o in outs if o[1] == 'ret']
    ctx.need(rets, name + ' returns')
    for s, k, v in rets:
        F = First(ctx, G, I, s, v, rules, where, name)
        ctx.part(name, F.go, args)
    ctx.part(name + ' in small grammars', whole.first, ctx, G, b, I, args, outs, name)


class First:
    def __init__(self, ctx, G, I, s, v, rules, where, name):
        self.ctx, self.G, self.I, self.s, self.v, self.rules, self.where, self.name = ctx, G, I, s, v, rules, where, name

    def unknown(self, txt):
        self.ctx.unknown(self.name, txt)

    def bad(self, what, txt):
        self.ctx.violate('%s: %s' % (self.name, what), txt, self.where)

    def ok(self, what):
        self.ctx.ok('%s: %s' % (self.name, what))

    def go(self, args):
        ctx, G, I, s, v = self.ctx, self.G, self.I, self.s, self.v
        v = norm_iter(v)
        # the collected set
        if v[0] not in ('getor', 'fld', 'phi'):
            inner = [x for x in subterms(v) if x[0] == 'getor' and x[1][0] == 'phi' and x[3] == ESET] or \
                    [x for x in subterms(v) if x[0] == 'phi']
            if len(set(inner)) == 1:
                x = var_at(0)
                compare_sets(ctx, self.name + ': result', clauses(v), [Clause(((x, inner[0]),), (), x)], self.where, allowed=[x for x in subterms(inner[0]) if x[0] == 'phi'], base=s)
                v = inner[0]
        root, key_ = v, None
        if v[0] == 'getor' and v[3] == ESET:
            root, key_ = v[1], v[2]
        elif v[0] == 'fld' and v[1][0] == 'mapget':
            root, key_ = v[1][1], v[1][2]
        Ls = [L for L in I.loops.values() if any(p == root for p, _, _ in L.phis)]
        if root[0] != 'phi' or len(Ls) != 1:
            if v in (ESET, EMPTY):
                if s.facts() and stopped(I, s):
                    self.bad('result', 'nothing is returned, when %s' % facts_of(s)[:300])
                return self.unknown('an empty result, when %s' % facts_of(s)[:200])
            return self.unknown('result %s' % show(v)[:200])
        L = Ls[0]
        inits = {p: i for p, i, _ in L.phis}
        qs = [p for p, i in inits.items() if i[0] == 'seq' and len(i[1]) == 1 and i[1][0][0] == 'one' and i[1][0][1][0] == 'tup' and len(i[1][0][1][1]) == 2]
        if len(qs) != 1:
            return self.unknown('work list')
        Q = qs[0]
        var0, bodies0 = inits[Q][1][0][1][1]
        sets = [p for p, i in inits.items() if i[0] == 'set' or i in (ESET, EMPTY)]
        maps = [p for p, i in inits.items() if i == EMAP]
        d = s.decide(compare(seq_len(Q), INT(0), EQ0))
        if d is not True:
            self.bad('end', 'stops although work is left, when %s' % facts_of(s)[:300])
        else:
            self.ok('ends when no work is left')
        # what is asked for
        some0 = s.decide(isvar(var0, (1,), uni(OPT))) if var0[0] != 'adt' else var0[2] == 1
        want_bodies = None
        if self.name == 'first':
            want_bodies = fld(mapget(self.rules, args[1]), 1, 0)
            if not same(s, fld(var0, 1, 0), args[1]):
                return self.unknown('asked variable %s' % show(var0)[:200])
        if some0 is True:
            if key_ is None:
                self.bad('result', 'gives %s for a variable' % show(v)[:200])
                return
            if not same(s, key_, fld(var0, 1, 0)):
                self.bad('result', 'gives the beginnings of %s instead of %s' % (show(key_)[:100], show(var0)[:100]))
                return
        elif some0 is False:
            if key_ is not None:
                self.bad('result', 'gives %s for a sequence' % show(v)[:200])
                return
        else:
            return self.unknown('asked variable %s' % show(var0)[:200])
        self.ok('result')
        if want_bodies is not None:
            x = var_at(0)
            spec = [Clause(((x, want_bodies),), (), x)]
            cl = [Clause(c.binders, c.guards, strip_it(c.value)) for c in clauses(strip_it(bodies0))]
            compare_sets(ctx, self.name + ': bodies of the asked variable', cl, spec, self.where)
        # nested loops: bodies of one work item, symbols of one body
        lv = self.levels(L)
        if lv is None:
            return self.unknown('nesting of the loops')
        L, Mid, M = lv
        first = last_ = None
        x = None
        for e, rest in ((nth(Q, INT(0)), drop(Q, INT(1))), (nth(Q, sub(seq_len(Q), INT(1))), take(Q, sub(seq_len(Q), INT(1))))):
            if any(i == rest for _, i, _ in Mid.phis) or any(contains(r['upd'].get(Q, Q), lambda t: t == rest) for r in L.backs):
                x = e
                self.rest = rest
        if x is None:
            return self.unknown('work item')
        self.Q, self.x = Q, x
        self.cur = fld(x, 0, 0)
        src = [norm_iter(i) for i in Mid.iters.values()]
        full = [strip_part(i) for i in src]
        if norm_iter(fld(x, 0, 1)) in src:
            self.ok('all bodies of a work item are treated')
        elif any(p and t == fld(x, 0, 1) for t, p in full):
            self.bad('bodies', 'only a part of the bodies of a work item is treated: %s' % show(src)[:200])
        else:
            return self.unknown('bodies %s' % show(src)[:200])
        body = [p for p, i, _ in M.phis if any(strip_it(i) == nth(q, INT(0)) for q in Mid.iters)]
        B = [p for p in body if any(g[0] == 'V' and g[1] == nth(p, INT(0)) for r in M.backs + Mid.backs for g in r['facts'])]
        if len(B) != 1:
            return self.unknown('symbols of a body')
        B = B[0]
        self.B = B
        self.same_as(M, Mid, B, [p for p in body if p != B])
        # the middle loop must not be left early
        it = [p for p in Mid.iters]
        for r in L.backs:
            for g in r['facts']:
                if g[0] == 'I' and any(g[1] == ((('len', strip_it(p)), 1),) for p in it) and g[2] != EQ0:
                    self.bad('bodies', 'leaves the bodies of a work item early, when %s' % gshow(r['facts'])[:300])
        # roles of the other containers
        role = {}
        allrows = M.backs + Mid.backs + L.backs
        at = {}
        for p in inits:
            q = p
            for X in (Mid, M):
                n = [a for a, i, _ in X.phis if i == q]
                q2 = n[0] if len(n) == 1 else q
                if p == Q and X is Mid and not n:
                    n = [a for a, i, _ in X.phis if i == self.rest]
                    q2 = n[0] if len(n) == 1 else self.rest
                at[(p, X.id)] = q2
                q = q2
        self.at = at
        self.known = set(at.values()) | set(inits) | {B} | set(Mid.iters)
        heads = {}
        for p in maps:
            hs = set()
            for X in (Mid, M):
                for r in X.backs:
                    u = r['upd'].get(at[(p, X.id)], None)
                    if u is not None:
                        hs.add(u[0])
            heads[p] = hs
        Fs = [p for p in maps if 'rel' in heads[p]]
        Ds = [p for p in maps if p not in Fs and heads[p] & {'mapins', 'maprem'}]
        cv = fld(nth(B, INT(0)), G.v_v, 0)
        vis = [p for p in sets if any(g[0] == 'A' and g[1] == mem(cv, at[(p, X.id)]) for X in (Mid, M) for r in X.backs for g in r['facts'])]
        Rs = [p for p in sets if p not in vis]
        if len(Fs) != 1 or len(Ds) != 1 or len(vis) != 1 or len(Rs) != 1:
            return self.unknown('containers %d %d %d %d' % (len(Fs), len(Ds), len(vis), len(Rs)))
        self.F, self.D, self.VS, self.R = Fs[0], Ds[0], vis[0], Rs[0]
        if key_ is not None and root != self.F or key_ is None and root != self.R:
            return self.bad('result', 'the returned set is not the one that is collected: %s' % show(v)[:200])
        vi = inits[self.VS]
        wantv = mk_set([('one', fld(var0, 1, 0))]) if some0 else ESET
        if vi != wantv:
            if vi == ESET:
                pass    # the asked variable is queued twice
            else:
                self.bad('visited variables', 'start as %s' % show(vi)[:200])
        self.M, self.Mid = M, Mid
        n = 0
        for r in M.backs:
            n += self.row(r, M, True)
        for r in Mid.backs:
            n += self.row(r, Mid, False)
        ctx.need(n >= 6, 'cases of the FIRST computation')

    def levels(self, L):
        """loops over work items, bodies and symbols"""
        I = self.I

        def inner(X):
            ids = {e[1] for r in X.backs for e in r['ev'] if e[0] == 'loop' and e[1] in I.loops}
            return [I.loops[i] for i in ids]
        for Mid in inner(L):
            if not Mid.iters:
                continue
            for M in inner(Mid):
                if any(any(g[0] == 'V' and g[2] != () for g in r['facts']) for r in M.backs):
                    return L, Mid, M
        return None

    def same_as(self, M, Mid, B, others):
        """iterators that move together with B"""
        self.alias = {}
        self.start = {p: B for p in others}
        self.whole = [nth(q, INT(0)) for q in Mid.iters]
        for p in others:
            good = True
            for r in M.backs:
                f = subst_guards(sorted(r['facts'], key=key), {p: B})
                if f is None:
                    continue
                s = state_of(f)
                if s is None:
                    continue
                if not same_rest(s, subst(r['upd'].get(p, p), {p: B}), r['upd'].get(B, B)):
                    good = False
            if good:
                self.alias[p] = B

    def row(self, r, X, cont):
        """one path through a symbol of a body; cont: goes on with the body"""
        G, B = self.G, self.B
        f = subst_guards(sorted(r['facts'], key=key), self.alias)
        if f is None:
            return 0
        s = state_of(f)
        if s is None:
            return 0
        # effects in terms of the containers before the symbol
        pre = {k: self.at[(k, self.M.id)] for k in (self.F, self.D, self.VS, self.R, self.Q)}
        post = {}
        for k in pre:
            p = self.at[(k, X.id)]
            post[k] = subst(r['upd'].get(p, p), self.alias)
            if not cont and post[k] == p:
                post[k] = pre[k]
        cur = nth(B, INT(0))
        nb = seq_len(B)
        v = fld(cur, G.v_v, 0)
        F, D, VS, R, Q = (pre[k] for k in (self.F, self.D, self.VS, self.R, self.Q))
        end = s.fork()
        n = 0
        if end.assume(compare(nb, INT(0), EQ0)):
            self.case(r, end, 'end of a body', cont, pre, post, False, [], None)
            n += 1
        if not s.assume(compare(nb, INT(1), ((0, INF),))):
            return n
        none = lambda st: True
        for kind, test in (('terminal', G.is_term(cur)), ('variable', G.is_var(cur)), ('empty symbol', G.is_eps(cur))):
            k = s.fork()
            if not k.assume(test):
                continue
            for last in (True, False):
                t = k.fork()
                if not t.assume(compare(nb, INT(1), EQ0), last):
                    continue
                if kind == 'terminal':
                    self.case(r, t, 'terminal', cont, pre, post, False, [Clause((), (), cur)], None)
                    n += 1
                elif kind == 'empty symbol':
                    if last:
                        self.case(r, t, 'empty symbol at the end', cont, pre, post, None, [Clause((), (), G.eps)], None)
                    else:
                        self.case(r, t, 'empty symbol inside a body', cont, pre, post, True, [], None)
                    n += 1
                else:
                    n += self.variable(r, t, cont, pre, post, last, v)
        return n

    def variable(self, r, s, cont, pre, post, last, v):
        F, VS = pre[self.F], pre[self.VS]
        n = 0
        for visited in (True, False):
            t = s.fork()
            if not t.assume(mem(v, VS), visited):
                continue
            if not visited:
                # beginnings are only recorded for queued variables, and those are visited
                if not t.assume(isvar(mapget(F, v), (0,), uni(OPT))):
                    continue
                self.case(r, t, 'new variable', cont, pre, post, False, [], v, new=True)
                n += 1
                continue
            for known in (True, False):
                u = t.fork()
                g = mapget(F, v)
                if not u.assume(isvar(g, (1,), uni(OPT)), known):
                    continue
                if not known:
                    self.case(r, u, 'variable without known beginnings', cont, pre, post, False, [], v)
                    n += 1
                    continue
                for e in (True, False):
                    w = u.fork()
                    st = fld(g, 1, 0)
                    if not w.assume(mem(self.G.eps, st), e):
                        continue
                    x = var_at(0)
                    gs = () if last else guards_of([neg(self.G.is_eps(x))])
                    self.case(r, w, 'variable that %s be empty%s' % ('can' if e else 'cannot', ' at the end' if last else ''), cont, pre, post,
                              (None if last else True) if e else False, [Clause(((x, st),), gs, x)], v)
                    n += 1
        return n

    def case(self, r, s, name, cont, pre, post, go, adds, v, new=False):
        ctx, G = self.ctx, self.G
        F, D, VS, R, Q = (pre[k] for k in (self.F, self.D, self.VS, self.R, self.Q))
        F2, D2, VS2, R2, Q2 = (post[k] for k in (self.F, self.D, self.VS, self.R, self.Q))
        when = facts_of(s)[:300]
        nm = '%s: %s' % (self.name, name)
        if go is not None and cont != go:
            self.bad(name, 'the body is %s, when %s' % ('followed further' if cont else 'not followed further', when))
        else:
            self.ok(name + ' continues or stops')
        if cont and not same_rest(s, r['upd'].get(self.B, self.B), drop(self.B, INT(1))):
            ctx.unknown(nm, 'next symbol %s' % show(r['upd'].get(self.B))[:200])
        for some in (True, False):
            t = s.fork()
            if not t.assume(isvar(self.cur, (1,), uni(OPT)), some):
                continue
            w = fld(self.cur, 1, 0)
            # added beginnings
            if some:
                base, cl = added(F2)
                if base != F:
                    ctx.unknown(nm, 'beginnings %s' % show(F2)[:200])
                    continue
                spec = [Clause(c.binders, c.guards, tup(w, c.value)) for c in adds]
                other = R2 != R
            else:
                cl = clauses(R2)
                cl = [c for c in cl if not (c.binders and c.binders[0][1] == R)]
                spec = adds
                if R2 != R and ('sub', R) not in set_segs(R2):
                    ctx.unknown(nm, 'beginnings %s' % show(R2)[:200])
                    continue
                other = F2 != F
            if other:
                self.bad(name, 'the beginnings of something else change, when %s' % when)
            # the empty symbol as a member of a known set may be dropped when it is not there
            compare_sets(ctx, nm + ': added', cl, spec, self.where, allowed=self.known, base=t, what='beginning')
            if some:
                self.requeue(r, t, name, F, F2, D, D2, Q, Q2, w, adds, v, new)
            elif D2 != D and v is None:
                ctx.unknown(nm, 'waiting bodies %s' % show(D2)[:200])
            if v is not None:
                self.waits(t, name, D, D2, v)
            self.queue(t, name, Q, Q2, v, new)

    def waits(self, s, name, D, D2, v):
        ctx = self.ctx
        t = D2
        while t[0] == 'maprem':
            t = t[1]
        if t == D:
            self.bad(name, 'the body does not wait for the beginnings of the variable, when %s' % facts_of(s)[:300])
            return
        if t[0] == 'rel' and t[1] == D:
            ctx.unknown(self.name, 'waiting bodies %s' % show(t)[:200])
            return
        if t[0] != 'mapins' or t[1] != D or not same(s, t[2], v):
            if t[0] == 'mapins' and t[1] == D and not opaque_in(t[2]) - {'phi'}:
                self.bad(name, 'the body waits for %s, when %s' % (show(t[2])[:200], facts_of(s)[:300]))
            else:
                ctx.unknown(self.name, 'waiting bodies %s' % show(t)[:200])
            return
        seqs = [x for x in subterms(t[3]) if x[0] == 'seq']
        mine = [x for x in seqs if any(q[0] == 'one' and contains(q[1], lambda z: z == self.B) for q in x[1])]
        if not mine:
            # the rest of the body at its first symbol
            for x in seqs:
                for q in x[1]:
                    if q[0] == 'one':
                        u = strip_it(subst(q[1], self.start))
                        if u in self.whole and any(q[0] == 'sub' for q in x[1]):
                            # the symbols before can all be empty
                            self.ok(name + ': the whole body waits')
                            return
                        if u in (EMPTY, drop(self.B, INT(1))):
                            self.bad(name, 'the rest of the body behind the variable waits, when %s' % facts_of(s)[:200])
                            return
            ctx.unknown(self.name, 'waiting bodies %s' % show(t[3])[:200])
            return
        q = [q for q in mine[0][1] if q[0] == 'one'][-1][1]
        if q[0] == 'tup':
            q = [y for y in q[1] if contains(y, lambda z: z == self.B)][0]
        if strip_it(q) != self.B:
            self.bad(name, 'waits with %s instead of the rest of the body from this variable, when %s' % (show(q)[:200], facts_of(s)[:200]))
            return
        if not any(q[0] == 'sub' for q in mine[0][1]):
            self.bad(name, 'forgets the other bodies that wait for the variable, when %s' % facts_of(s)[:200])
            return
        inner = t[3]
        if inner[0] == 'mapins' and not (inner[1] == EMAP or contains(inner[1], lambda z: z == D)):
            ctx.unknown(self.name, 'waiting bodies %s' % show(inner)[:200])
            return
        if inner[0] == 'mapins' and inner[1] == EMAP and s.decide(isvar(mapget(D, v), (0,), uni(OPT))) is not True:
            self.bad(name, 'forgets what else waits for the variable, when %s' % facts_of(s)[:200])
            return
        self.ok(name + ': the rest of the body waits')

    def requeue(self, r, s, name, F, F2, D, D2, Q, Q2, w, adds, v, new):
        """bodies that wait for w are queued when its beginnings grow"""
        if F2 == F:
            return
        grown = grew(s, F, F2, w, adds[0].value if len(adds) == 1 and not adds[0].binders else None)
        if grown is False:
            self.ok(name + ': nothing new')
            return
        t = D2
        if t[0] == 'maprem':
            t = t[1]
        waiting = mapget(t, w)
        has = s.decide(isvar(waiting, (1,), uni(OPT)))
        if has is False:
            self.ok(name + ': nothing waits')
            return
        got = [q for q in segs(Q2) if q != ('sub', Q)]
        pay = fld(waiting, 1, 0) if waiting[0] != 'adt' else waiting[3][0]
        full = [q for q in got if q[0] == 'sub' and norm_iter(q[1]) in (('items', pay), pay)]
        if full:
            self.ok(name + ': what waits is queued again')
            return
        part = [q for q in got if q[0] == 'sub' and strip_part(q[1])[1] and strip_part(q[1])[0] in (('items', pay), pay)]
        if part:
            self.bad(name, 'only a part of the bodies that wait is queued again, when %s' % facts_of(s)[:300])
        elif contains(tuple(got), lambda z: z == pay):
            self.ctx.unknown(self.name, 'queued %s' % show(got)[:200])
        elif grown is True or (grown is None and may_grow(s, F, w)):
            self.bad(name, 'bodies that wait for new beginnings are not queued again, when %s' % facts_of(s)[:300])
        else:
            self.ctx.unknown(self.name, 'growth is not understood, when %s' % facts_of(s)[:200])

    def queue(self, s, name, Q, Q2, v, new):
        got = [q for q in segs(Q2) if q != ('sub', Q)]
        if ('sub', Q) not in segs(Q2) and Q2 != Q:
            if opaque_in(Q2) - {'phi'}:
                self.ctx.unknown(self.name, 'queue %s' % show(Q2)[:200])
            else:
                self.bad(name, 'the queue becomes %s' % show(Q2)[:200])
            return
        if not new:
            return
        one = [q[1] for q in got if q[0] == 'one' and q[1][0] == 'tup']
        mine = [q for q in one if same(s, q[1][0], SOME(v)) or same(s, fld(q[1][0], 1, 0), v)]
        if not mine:
            if one and not opaque_in(tuple(one)) - {'phi'}:
                self.bad(name, 'queues %s' % show(one)[:200])
            elif got:
                self.ctx.unknown(self.name, 'queue %s' % show(got)[:200])
            else:
                self.bad(name, 'its bodies are not queued, when %s' % facts_of(s)[:300])
            return
        x = var_at(0)
        spec = [Clause(((x, fld(mapget(self.rules, v), 1, 0)),), (), x)]
        cl = [Clause(c.binders, c.guards, strip_it(c.value)) for c in clauses(strip_it(mine[0][1][1]))]
        compare_sets(self.ctx, '%s: %s: queued bodies' % (self.name, name), cl, spec, self.where, allowed=self.known)
