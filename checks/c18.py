"""C18: FOLLOW sets are exact, including the end of the input."""
from gram import *
from model import *
import whole


def check(ctx):
    ctx.rule('the bodies looked at are exactly those of the variables reachable from the start variable')
    ctx.rule('per occurrence of a variable the beginnings of the rest of the body (without the empty symbol) are added to what follows it, '
             'and when the rest is empty or can be empty it depends on the variable of the body')
    ctx.rule('the dependencies are followed until nothing changes: what follows the variable of the body is added, and dependents of a changed set are queued again')
    ctx.rule('from the end of each body of a variable that can be last: empty symbols and variables that can be empty are passed, '
             'every variable met is last too, anything else stops the scan; variables are handled until none is left')
    ctx.notes['taken as given'] = 'FIRST sets (subject of C17)'
    G = Gram(ctx)
    for name, C in (('follow_set', Follow), ('followed_by_eof', Eof)):
        X = C(ctx, G, fn(ctx, 'Grammar', name, P))
        ctx.part(name, X.go)
        X.whole()


def firsts(G, rules):
    """FIRST sets of a finite grammar"""
    F = {v: set() for v in rules}
    while True:
        n = sum(map(len, F.values()))
        for v, bodies in rules.items():
            for b in bodies:
                F[v] |= first_of(G, F, b)
        if n == sum(map(len, F.values())):
            return F


def first_of(G, F, body):
    E = Adt((G.sym, G.v_e, ()))
    out = set()
    for s in body:
        if s[1] == G.v_t:
            return out | {s}
        if s[1] == G.v_v:
            out |= F[s[2][0]] - {E}
            if E not in F[s[2][0]]:
                return out
    return out | {E} if len(body) else out


def reachable(G, rules, start):
    seen, todo = {start}, [start]
    while todo:
        for b in rules[todo.pop()]:
            for s in b:
                if s[1] == G.v_v and s[2][0] not in seen:
                    seen.add(s[2][0])
                    todo.append(s[2][0])
    return seen


def occurrences(G, rules, start):
    """pairs (variable, symbol that follows) and (variable of the body, dependent)"""
    E = Adt((G.sym, G.v_e, ()))
    F = firsts(G, rules)
    R, D = set(), set()
    for h in reachable(G, rules, start):
        for b in rules[h]:
            for i, s in enumerate(b):
                if s[1] == G.v_v:
                    f = first_of(G, F, b[i + 1:])
                    R |= {(s[2][0], x) for x in f - {E}}
                    if E in f or i + 1 == len(b):
                        D.add((h, s[2][0]))
    return R, D


def can_end(G, rules, start):
    E = Adt((G.sym, G.v_e, ()))
    F = firsts(G, rules)
    seen, todo = {start}, [start]
    while todo:
        for b in rules[todo.pop()]:
            for s in reversed(b):
                if s[1] == G.v_t:
                    break
                if s[1] == G.v_v:
                    if s[2][0] not in seen:
                        seen.add(s[2][0])
                        todo.append(s[2][0])
                    if E not in F[s[2][0]]:
                        break
    return seen


class Base:
    def __init__(self, ctx, G, b):
        self.ctx, self.G, self.b, self.where, self.name = ctx, G, b, site(b), b['name']

    def unknown(self, txt):
        self.ctx.unknown(self.name, txt)

    def bad(self, what, txt):
        self.ctx.violate('%s: %s' % (self.name, what), txt, self.where)

    def ok(self, what):
        self.ctx.ok('%s: %s' % (self.name, what))

    def interpret(self):
        I, st, args, outs = run(self.ctx, self.b, first_models(self.ctx))
        g = args[0] if args[0][0] != 'ref' else I.deref(st, args[0])
        self.I, self.rules, self.start = I, fld(g, 0, self.G.g_rules), fld(g, 0, self.G.g_start)
        rets = [o for o in outs if o[1] == 'ret']
        self.ctx.need(rets, self.name + ' returns')
        self.args, self.outs = args, outs
        return rets

    def whole(self):
        self.ctx.part(self.name + ' in small grammars', whole.follow, self.ctx, self.G, self.b, self.I, self.args, self.outs, self.rules, self.start, self.name)

    def models(self):
        G = self.G
        for rs, s in grammars(G, 300, True):
            F = firsts(G, rs)
            yield Model({self.rules: rs, self.start: s}, {
                'first': lambda v, F=F: Set(F[v]), 'first_body': lambda o, b, F=F: Set(first_of(G, F, b))})

    def loop_of(self, phi):
        r = [L for L in self.I.loops.values() if any(p == phi for p, _, _ in L.phis)]
        return r[0] if len(r) == 1 else None

    def inner(self, X):
        ids = {e[1] for r in X.backs for e in r['ev'] if e[0] == 'loop' and e[1] in self.I.loops}
        return [self.I.loops[i] for i in sorted(ids)]

    def root(self, v, s, what):
        """the phi a returned container is; checked when it is a view of one"""
        if v[0] == 'phi':
            return v
        ph = [x for x in subterms(v) if x[0] == 'phi']
        if len(set(ph)) != 1:
            return None
        x = var_at(0)
        compare_sets(self.ctx, '%s: %s' % (self.name, what), clauses(v), [Clause(((x, ph[0]),), (), x)], self.where, allowed=ph, base=s)
        return ph[0]


def popped(Q, rows):
    """(element taken from the work list, remaining list)"""
    last = sub(seq_len(Q), INT(1))
    for e, rest in ((nth(Q, INT(0)), drop(Q, INT(1))), (nth(Q, last), take(Q, last))):
        for r in rows:
            for u in list(r['upd'].values()) + list(r.get('inits', ())):
                if contains(u, lambda t: t == rest):
                    return e, rest
    return None


class Eof(Base):
    def go(self):
        ctx, G = self.ctx, self.G
        for s, k, v in self.interpret():
            R = self.root(v, s, 'result')
            L = self.loop_of(R) if R else None
            if L is None:
                refute(ctx, self.name + ': result', v, self.models(), lambda m: can_end(G, m.env[self.rules], m.env[self.start]), self.where)
                continue
            inits = {p: i for p, i, _ in L.phis}
            qs = [p for p, i in inits.items() if p != R and i[0] == 'seq']
            if len(qs) != 1:
                self.unknown('work list')
                continue
            Q = qs[0]
            for what, t in (('the variables found', inits[R]), ('the variables to look at', inits[Q])):
                c = clauses(t)
                if len(c) == 1 and not c[0].binders and same(s, c[0].value, self.start):
                    self.ok(what + ' start with the start variable')
                elif opaque_in(t):
                    self.unknown('%s start as %s' % (what, show(t)[:100]))
                else:
                    self.bad('start', '%s start as %s' % (what, show(t)[:200]))
            if s.decide(compare(seq_len(Q), INT(0), EQ0)) is not True:
                self.bad('end', 'stops although variables are left, when %s' % facts_of(s)[:300])
            else:
                self.ok('ends when no variable is left')
            self.rounds(L, R, Q)

    def rounds(self, L, R, Q):
        ctx, G = self.ctx, self.G
        found = False
        for Mid in self.inner(L):
            if not Mid.iters:
                continue
            for M in self.inner(Mid):
                if M.iters:
                    found = True
                    self.scan(L, Mid, M, R, Q)
        for r in L.backs:
            s = state_of(sorted(r['facts'], key=key))
            head = nth(Q, INT(0)), nth(Q, sub(seq_len(Q), INT(1)))
            if s is None or any(e[0] == 'loop' and e[1] in self.I.loops and self.I.loops[e[1]].iters for e in r['ev']):
                continue
            if not any(s.decide(isvar(mapget(self.rules, h), (0,), uni(OPT))) is True for h in head):
                if not self.inner(L):
                    self.unknown('rounds')
                else:
                    self.bad('rounds', 'a variable is not looked at, when %s' % facts_of(s)[:300])
        if not found:
            self.unknown('loops over bodies and symbols')

    def scan(self, L, Mid, M, R, Q):
        ctx, G = self.ctx, self.G
        x = None
        last = sub(seq_len(Q), INT(1))
        for e, rest in ((nth(Q, INT(0)), drop(Q, INT(1))), (nth(Q, last), take(Q, last))):
            if any(i == rest for _, i, _ in Mid.phis):
                x, qrest = e, rest
        src = [norm_iter(i) for i in Mid.iters.values()]
        if x is None or len(src) != 1:
            return self.unknown('work item')
        want = fld(mapget(self.rules, x), 1, 0)
        if src[0] == want:
            self.ok('all bodies are looked at')
        elif strip_part(src[0])[0] == want or (src[0][0] == 'flatmap' and src[0][1] == want and not opaque_in(src[0], ('first', 'first_body')) - {'phi'}):
            self.bad('bodies', 'only a part of the bodies is looked at: %s' % show(src[0])[:200])
        else:
            return self.unknown('bodies %s' % show(src[0])[:200])
        mid = list(Mid.iters)[0]
        for r in L.backs:
            for g in r['facts']:
                if g[0] == 'I' and g[1] == ((('len', strip_it(mid)), 1),) and g[2] != EQ0:
                    self.bad('bodies', 'leaves the bodies of a variable early, when %s' % gshow(r['facts'])[:300])
        body = nth(mid, INT(0))
        B = list(M.iters)
        if len(B) != 1:
            return self.unknown('symbols of a body')
        B = B[0]
        i = strip_it(M.iters[B])
        if i == ('rev', body):
            self.ok('bodies are scanned from the end')
        elif i == body:
            return self.bad('scan', 'bodies are scanned from the start')
        elif strip_part(i)[1] and strip_part(i)[0] == body:
            return self.bad('scan', 'only a part of a body is scanned: %s' % show(i)[:200])
        else:
            return self.unknown('scan over %s' % show(i)[:200])
        at = {}
        for p, q0 in ((R, R), (Q, qrest)):
            q = q0
            for X in (Mid, M):
                n = [a for a, ini, _ in X.phis if ini == q]
                q = n[0] if len(n) == 1 else q
                at[(p, X.id)] = q
        self.known = set(at.values()) | {B, R, Q, mid}
        n = 0
        for X, cont in ((M, True), (Mid, False)):
            for r in X.backs:
                s = state_of(sorted(r['facts'], key=key))
                if s is None:
                    continue
                post = {}
                for p in (R, Q):
                    y = at[(p, X.id)]
                    u = r['upd'].get(y, y)
                    post[p] = at[(p, M.id)] if not cont and u == y else u
                if cont and not same_rest(s, r['upd'].get(B, B), drop(B, INT(1))):
                    self.unknown('next symbol %s' % show(r['upd'].get(B, B))[:100])
                    continue
                n += self.cases(s, cont, B, at[(R, M.id)], post[R], at[(Q, M.id)], post[Q], r)
        ctx.need(n >= 4, 'cases of the scan')

    def cases(self, s, cont, B, R, R2, Q, Q2, r):
        G = self.G
        n = 0
        if not s.assume(compare(seq_len(B), INT(1), ((0, INF),))):
            return 0
        cur = nth(B, INT(0))
        v = fld(cur, G.v_v, 0)
        for kind, test in (('terminal', G.is_term(cur)), ('variable', G.is_var(cur)), ('empty symbol', G.is_eps(cur))):
            k = s.fork()
            if not k.assume(test):
                continue
            if kind != 'variable':
                self.case(k, kind, cont, kind == 'empty symbol', R, R2, Q, Q2, [], None, r)
                n += 1
                continue
            for e in (True, False):
                t = k.fork()
                if t.assume(mem(G.eps, ('app', 'first', v)), e):
                    self.case(t, 'variable that %s be empty' % ('can' if e else 'cannot'), cont, e, R, R2, Q, Q2, [Clause((), (), v)], v, r)
                    n += 1
        return n

    def case(self, s, name, cont, go, R, R2, Q, Q2, adds, v, r):
        when = facts_of(s)[:300]
        odd = {y for g in r['facts'] for y in opaque_in(g, self.known | {'first'})}
        if cont != go:
            if odd:
                self.unknown('%s: when %s' % (name, when))
            elif go and len_one(s, r):
                self.ok(name + ' at the start of the body')
            else:
                self.bad(name, 'the scan %s, when %s' % ('goes on' if cont else 'stops', when))
        else:
            self.ok(name + ' goes on or stops')
        if R2 != R and ('sub', R) not in set_segs(R2):
            return self.unknown('%s: variables %s' % (name, show(R2)[:200]))
        base = [c for c in clauses(R2) if not (c.binders and c.binders[0][1] == R)] if R2 != R else []
        if v is not None and not base and s.decide(mem(v, R)) is True:
            self.ok(name + ': already there')
        else:
            compare_sets(self.ctx, '%s: %s: added' % (self.name, name), base, adds, self.where, allowed=self.known | {'first'}, base=s, what='variable')
        got = [q for q in segs(Q2) if q != ('sub', Q)]
        if Q2 != Q and ('sub', Q) not in segs(Q2):
            return self.unknown('%s: queue %s' % (name, show(Q2)[:200]))
        if v is None:
            if got:
                self.unknown('%s: queue %s' % (name, show(Q2)[:200]))
            return
        if any(q == ('one', v) for q in got) or s.decide(mem(v, R)) is True:
            self.ok(name + ': queued')
        elif got:
            self.unknown('%s: queue %s' % (name, show(Q2)[:200]))
        else:
            self.bad(name, 'a new variable that can be last is not looked at, when %s' % when)


def len_one(s, r):
    """the symbol is the last one of the scan"""
    return any(g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len' and g[2] == ((1, 1),) for g in s.facts())


class Follow(Base):
    def go(self):
        ctx, G = self.ctx, self.G
        for s, k, v in self.interpret():
            R = self.root(v, s, 'result')
            L = self.loop_of(R) if R else None
            if L is None:
                self.unknown('result %s' % show(v)[:200])
                continue
            inits = {p: i for p, i, _ in L.phis}
            qs = [p for p in inits if p != R and any(contains(u, lambda t: t in (drop(p, INT(1)), take(p, sub(seq_len(p), INT(1)))))
                                                     for r in L.backs for u in [r['upd'].get(p, p)])]
            if len(qs) != 1:
                self.scans_only(L, R, s)
                continue
            Q = qs[0]
            if s.decide(compare(seq_len(Q), INT(0), EQ0)) is not True:
                self.bad('end', 'stops although dependencies are left, when %s' % facts_of(s)[:300])
            else:
                self.ok('ends when no dependency is left')
            D = self.spread(L, R, Q, inits)
            if D is None:
                continue
            A = self.loop_of(inits[R])
            if A is None:
                for what, t, i in (('symbols that follow', inits[R], 0), ('dependencies', D, 1)):
                    refute(ctx, '%s: %s' % (self.name, what), t, self.models(), lambda m: occurrences(G, m.env[self.rules], m.env[self.start])[i], self.where)
                continue
            self.collect(A, inits[R], D, s)

    def scans_only(self, L, R, s):
        if any(R in (p for p, _, _ in X.phis) for X in [L]) and L.iters:
            self.bad('dependencies', 'what follows the variable of a body is not passed on, when %s' % facts_of(s)[:300])
        else:
            self.unknown('work list of dependencies')

    def spread(self, L, R, Q, inits):
        """rounds of the dependency loop; gives the dependency map"""
        ctx = self.ctx
        p = popped(Q, L.backs)
        if p is None:
            self.unknown('work item')
            return None
        x, rest = p
        # which component is the dependent
        for a, b in ((0, 1), (1, 0)):
            lhs, rhs = fld(x, 0, a), fld(x, 0, b)
            if any(contains(r['upd'].get(R, R), lambda t: t[0] == 'tup' and t[1][0] == lhs) for r in L.backs):
                break
        else:
            self.unknown('dependency step')
            return None
        pair = (lambda l, r: tup(l, r)) if a == 0 else (lambda l, r: tup(r, l))
        c = clauses(inits[Q])
        ds = {norm_iter(y[1]) for z in c for y in z.srcs() if y[0] == 'items'}
        if len(ds) != 1:
            self.unknown('dependencies %s' % show(inits[Q])[:200])
            return None
        D = ds.pop()
        u, w = var_at(0), var_at(1)
        known = {R, Q, D}
        compare_sets(ctx, self.name + ': dependencies that are looked at', c,
                     [Clause(((u, ('items', D)), (w, fld(u, 0, 1))), (), pair(w, fld(u, 0, 0)))], self.where, allowed=known, what='dependency')
        src = mapget(R, rhs)
        n = 0
        for r in L.backs:
            for some in (True, False):
                s = state_of(sorted(r['facts'], key=key))
                if s is None or not s.assume(isvar(src, (1,), uni(OPT)), some):
                    continue
                n += 1
                when = facts_of(s)[:300]
                R2, Q2 = r['upd'].get(R, R), r['upd'].get(Q, Q)
                base, cl = added(R2)
                if base != R:
                    self.unknown('sets become %s' % show(R2)[:200])
                    continue
                z = var_at(0)
                spec = [Clause(((z, fld(src, 1, 0)),), (), tup(lhs, z))] if some else []
                compare_sets(ctx, self.name + ': passed on', cl, spec, self.where, allowed=known, base=s, what='symbol')
                got = [q for q in segs(Q2) if q != ('sub', rest)]
                if ('sub', rest) not in segs(Q2):
                    if s.decide(compare(seq_len(rest), INT(0), EQ0)) is not True:
                        self.unknown('work list %s' % show(Q2)[:200])
                    continue
                g = grew(s, R, R2, lhs) if R2 != R else False
                has = s.decide(isvar(mapget(D, lhs), (1,), uni(OPT)))
                if g is False or has is False:
                    self.ok('nothing to look at again')
                    continue
                if not got:
                    if g or may_grow(s, R, lhs):
                        self.bad('dependencies', 'the dependents of a changed set are not looked at again, when %s' % when)
                    else:
                        self.unknown('growth is not understood, when %s' % when)
                    continue
                d = var_at(0)
                alt = [Clause(((d, mapgetor(D, lhs, ESET)),), (), pair(d, lhs))]
                spec = [Clause(((d, fld(mapget(D, lhs), 1, 0)),), (), pair(d, lhs))]
                gc = clauses(('seq', tuple(got)))
                if not cover(ctx, gc, alt) and not cover(ctx, alt, gc):
                    self.ok('dependents are looked at again')
                    continue
                compare_sets(ctx, self.name + ': looked at again', gc, spec, self.where, allowed=known, base=s, what='dependency')
        ctx.need(n >= 2, 'rounds of the dependency loop')
        return D

    def collect(self, A, R, D, s):
        """the loop over the bodies"""
        ctx, G = self.ctx, self.G
        if D not in [p for p, _, _ in A.phis]:
            return self.unknown('dependencies %s' % show(D)[:200])
        inits = {p: i for p, i, _ in A.phis}
        if inits[R] != EMAP or inits[D] != EMAP:
            return self.unknown('sets start as %s' % show(inits[R])[:200])
        for g in s.facts():
            if g[0] == 'I' and any(g[1] == ((('len', strip_it(p)), 1),) for p in A.iters) and g[2] != EQ0:
                self.bad('bodies', 'leaves the bodies early, when %s' % facts_of(s)[:300])
        chains = []

        def go(levels):
            nx = [X for X in self.inner(levels[-1]) if any(contains((i,), lambda t: t in levels_phis(levels)) for _, i, _ in X.phis)]
            nx = [X for X in nx if self.role_at(levels + [X], R) != self.role_at(levels, R) or self.role_at(levels + [X], D) != self.role_at(levels, D)]
            for X in nx:
                go(levels + [X])
            if not nx and len(levels) > 1:
                chains.append(levels)
        go([A])
        if not chains:
            return self.unknown('loop over the symbols')
        for levels in chains:
            self.chain(levels, R, D)

    def chain(self, levels, R, D):
        ctx, G = self.ctx, self.G
        M = levels[-1]
        # the symbols of a body
        cand = [(p, strip_it(i)) for p, i, _ in M.phis if p not in (self.role_at(levels, R), self.role_at(levels, D))]
        if len(cand) != 1:
            return self.unknown('symbols of a body: %s' % [show(p) for p, _ in cand])
        B, init = cand[0]
        pos = self.bodies(levels, init)
        if pos is None:
            return
        head, = pos
        self.known = set(levels_phis(levels)) | {R, D, B}
        n = 0
        for r in M.backs:
            n += self.occurrence(r, M, B, self.role_at(levels, R), self.role_at(levels, D), head)
        ctx.need(n, 'occurrences of variables')
        # leaving the loop over symbols
        for r in levels[-2].backs:
            st = state_of(sorted(r['facts'], key=key))
            if st is None or not any(e == ('loop', M.id) for e in r['ev']):
                continue
            nxt = skip_vars(G, B)
            if st.decide(compare(seq_len(nxt), INT(0), EQ0)) is True or st.decide(compare(seq_len(B), INT(0), EQ0)) is True:
                self.ok('a body is left when no variable remains')
            elif any(contains(g, lambda t: t == B) for g in r['facts']):
                self.bad('symbols', 'a body is left although variables may remain, when %s' % facts_of(st)[:300])
            else:
                self.unknown('end of a body, when %s' % facts_of(st)[:300])
            for p in (R, D):
                y, z = self.role_at(levels[:-1], p), self.role_at(levels, p)
                if r['upd'].get(y, y) not in (z,):
                    self.unknown('sets after a body %s' % show(r['upd'].get(y, y))[:200])

    def role_at(self, levels, p):
        for X in levels[1:]:
            n = [a for a, i, _ in X.phis if i == p]
            p = n[0] if len(n) == 1 else p
        return p

    def bodies(self, levels, init):
        """pairs of a head and a body that are looked at"""
        ctx, G = self.ctx, self.G
        A = levels[0]
        if len(A.iters) != 1:
            self.unknown('bodies')
            return None
        it = list(A.iters)[0]
        seq = norm_iter(list(A.iters.values())[0])
        e = ('src', strip_it(it))
        cl = clauses(seq) if seq[0] in ('seq', 'set', 'flatmap') else sub_clauses(seq, 0)
        one = nth(it, INT(0))
        if len(levels) == 2:
            # pairs (head, body), or the entries of the map flattened
            parts = None
            for el in (one, e, ('el', e, strip_it(it))):
                for a, b in ((0, 1), (1, 0)):
                    for body in (fld(el, 0, b), ('el', fld(e, 0, b), strip_it(it))):
                        if init == body:
                            parts = (a, b)
            if parts is None:
                if strip_part(init)[1] and strip_part(init)[0] in [fld(x, 0, i) for x in (one, e) for i in (0, 1)] + [('el', fld(e, 0, i), strip_it(it)) for i in (0, 1)]:
                    self.bad('symbols', 'only a part of a body is looked at: %s' % show(init)[:200])
                    return None
                self.unknown('bodies: symbols of %s' % show(init)[:200])
                return None
            heads = (fld(one, 0, parts[0]), fld(e, 0, parts[0]))
            pairs = []
            for c in cl:
                for gs in self.entered(A, levels[1], it, {one: c.value, e: c.value}):
                    g = merge_guards(c.guards, gs)
                    if g is not None:
                        pairs.append(Clause(c.binders, g, tup(fld(c.value, 0, parts[0]), fld(c.value, 0, parts[1]))))
        else:
            X = levels[1]
            if len(levels) != 3 or len(X.iters) != 1:
                self.unknown('bodies')
                return None
            it2 = list(X.iters)[0]
            s2 = norm_iter(list(X.iters.values())[0])
            one2 = nth(it2, INT(0))
            if init != one2:
                self.unknown('bodies: symbols of %s' % show(init)[:200])
                return None
            pairs = None
            for el in (one, e):
                for head, src in ((fld(el, 0, 0), fld(el, 0, 1)), (el, fld(mapget(self.rules, el), 1, 0))):
                    if s2 == src or strip_part(s2)[0] == src:
                        pairs = []
                        for c in cl:
                            m = {el: c.value}
                            b = var_at(len(c.binders))
                            for gs in self.entered(A, X, it, m):
                                for gs2 in self.entered(X, levels[2], it2, {one2: b, ('src', strip_it(it2)): b, el: c.value}):
                                    g = merge_guards(c.guards, gs)
                                    g = g if g is None else merge_guards(g, gs2)
                                    if g is not None:
                                        pairs.append(Clause(c.binders + ((b, subst(s2, m)),), g, tup(subst(head, m), b)))
                        heads = (head,)
            if pairs is None:
                self.unknown('bodies %s' % show(s2)[:200])
                return None
            for r in A.backs:
                for g in r['facts']:
                    if g[0] == 'I' and g[1] == ((('len', strip_it(it2)), 1),) and g[2] != EQ0:
                        self.bad('bodies', 'leaves the bodies of a variable early, when %s' % gshow(r['facts'])[:300])
        x, y = var_at(0), var_at(1)
        reach = self.reach(pairs)
        if reach is None:
            return None
        rules = self.rules
        v1 = [Clause(((x, ('items', rules)), (y, fld(x, 0, 1))), guards_of([mem(fld(x, 0, 0), reach)]), tup(fld(x, 0, 0), y))]
        v2 = [Clause(((x, reach), (y, fld(mapget(rules, x), 1, 0))), guards_of([isvar(mapget(rules, x), (1,), uni(OPT))]), tup(x, y))]
        v3 = [Clause(((x, reach), (y, fld(mapget(rules, x), 1, 0))), (), tup(x, y))]
        for v in (v2, v3):
            if not cover(ctx, pairs, v) and not cover(ctx, v, pairs):
                self.ok('bodies of reachable variables')
                return (heads,)
        compare_sets(ctx, self.name + ': bodies that are looked at', pairs, v1, self.where, what='body')
        return (heads,)

    def entered(self, X, Y, it, m):
        """conditions on the element of X under which the loop Y inside is entered"""
        out = set()
        own = {p for p, _, _ in Y.phis} | {p for Z in self.inner(Y) for p, _, _ in Z.phis}
        for r in X.backs:
            if ('loop', Y.id) not in r['ev']:
                continue
            gs = [g for g in r['facts'] if not contains(g, lambda t: t in own) and g[1] != ((('len', strip_it(it)), 1),)]
            gs = [g for g in gs if contains(g, lambda t: t in m)]
            gs = subst_guards(sorted(gs, key=key), m)
            if gs is not None:
                out.add(tuple(gs))
        return sorted(out, key=key)

    def reach(self, pairs):
        """the reachable variables used by the clauses; checked"""
        ctx, G = self.ctx, self.G
        cs = {t for c in pairs for t in subterms((c.srcs(), c.guards)) if t[0] in ('closure', 'wclosure')}
        if not cs:
            ph = {t for c in pairs for t in subterms(c.guards) if t[0] == 'phi'}
            lost = [w for w in (lost_work(self.I, p) for p in ph) if w]
            if lost:
                self.bad('reachable variables', 'a variable that is found is not looked at further, when %s' % lost[0])
            elif any(opaque_in((c.srcs(), c.guards, c.value)) for c in pairs):
                self.unknown('bodies %s' % pairs[0].show()[:200])
            else:
                self.bad('bodies', 'bodies of variables that are not reachable count: %s' % '; '.join(c.show()[:200] for c in pairs[:2]))
            return None
        if len(cs) != 1:
            self.unknown('reachable variables')
            return None
        t = cs.pop()
        if t[0] == 'wclosure':
            self.unknown('reachable variables %s' % show(t)[:200])
            return t
        _, base, work, step = t
        spec = [Clause((), (), self.start)]
        compare_sets(ctx, 'reachable variables: start', clauses(base), spec, self.where)
        compare_sets(ctx, 'reachable variables: start of the search', clauses(work), spec, self.where)
        x, b, y = var_at(0), var_at(1), var_at(2)
        rules = self.rules
        src = ((x, ('selfset',)), (b, fld(mapget(rules, x), 1, 0)), (y, b))
        some = isvar(mapget(rules, x), (1,), uni(OPT))
        val = fld(y, G.v_v, 0)
        for gs in ([some, G.is_var(y)], [G.is_var(y)]):
            sp = [Clause(src, guards_of(gs), val)]
            if not cover(ctx, clauses(step), sp) and not cover(ctx, sp, clauses(step)):
                ctx.ok('reachable variables: step')
                return t
            # the variable itself is there already
            less = [Clause(src, guards_of(gs + [neg(eq(val, x))]), val)]
            if not cover(ctx, clauses(step), sp) and not cover(ctx, less, clauses(step)):
                ctx.ok('reachable variables: step')
                return t
        compare_sets(ctx, 'reachable variables: step', clauses(step), [Clause(src, guards_of([some, G.is_var(y)]), val)], self.where, what='variable',
                     extra=(Clause(((x, ('selfset',)),), (), x),),
                     models=lambda ks: (Model({rules: rs, ('selfset',): Set([s])}) for rs, s in grammars(G, 200, True, sizes=ks)))
        return t

    def occurrence(self, r, M, B, R, D, heads):
        """one step of the scan of a body"""
        ctx, G = self.ctx, self.G
        s = state_of(sorted(r['facts'], key=key))
        if s is None:
            return 0
        at = skip_vars(G, B)
        if not any(contains(g, lambda t: t == at) for g in r['facts']) and not contains(r['upd'].get(B, B), lambda t: t == at):
            at = B
            if not s.assume(compare(seq_len(B), INT(1), ((0, INF),))):
                return 0
        cur = nth(at, INT(0))
        n = 0
        R2, D2, B2 = (r['upd'].get(p, p) for p in (R, D, B))
        for kind, test in (('variable', G.is_var(cur)), ('other symbol', neg(G.is_var(cur)))):
            k = s.fork()
            if not k.assume(test):
                continue
            if kind == 'other symbol':
                if R2 != R or D2 != D:
                    self.bad(kind, 'changes the sets, when %s' % facts_of(k)[:300])
                if not same_rest(k, B2, drop(at, INT(1))):
                    self.unknown('next symbol %s' % show(B2)[:200])
                continue
            if not k.assume(compare(seq_len(at), INT(1), ((0, INF),))):
                continue
            v = fld(cur, G.v_v, 0)
            rest = drop(at, INT(1))
            fb = ('app', 'first_body', NONE, rest)
            if not same_rest(k, B2, rest):
                if strip_it(B2)[0] in ('drop', 'seq') and not opaque_in(B2, self.known):
                    self.bad('next symbol', 'goes on with %s instead of the symbol behind the variable, when %s' % (show(B2)[:200], facts_of(k)[:200]))
                else:
                    self.unknown('next symbol %s' % show(B2)[:200])
            for case in ('last symbol', 'rest that can be empty', 'rest that cannot be empty'):
                t = k.fork()
                if not t.assume(compare(seq_len(rest), INT(0), EQ0), case == 'last symbol'):
                    continue
                if case != 'last symbol' and not t.assume(mem(G.eps, fb), case == 'rest that can be empty'):
                    continue
                n += 1
                z = var_at(0)
                wantR = [] if case == 'last symbol' else [Clause(((z, fb),), guards_of([neg(G.is_eps(z))]), tup(v, z))]
                self.effect(t, case + ': symbols that follow', R, R2, [wantR])
                wants = [[]] if case == 'rest that cannot be empty' else [[Clause((), (), tup(h, v))] for h in heads]
                self.effect(t, case + ': dependency', D, D2, wants)
        return n

    def effect(self, s, name, m, m2, variants):
        base, cl = added(m2)
        if base != m:
            if m2[0] == 'mapins' and m2[1] == m and not contains(m2[3], lambda t: t == m) and \
                    s.decide(isvar(mapget(m, m2[2]), (0,), uni(OPT))) is not True:
                return self.bad(name, 'what was known for %s is replaced by %s, when %s' % (show(m2[2])[:100], show(m2[3])[:200], facts_of(s)[:200]))
            return self.unknown('%s: %s' % (name, show(m2)[:200]))
        # the beginnings of an empty rest are empty
        if s.decide(compare(INT(0), INT(0), EQ0)) and 'last symbol' in name:
            cl = [c for c in cl if not any(y[0] == 'app' and y[1] == 'first_body' and
                                           s.decide(compare(seq_len(y[3]), INT(0), EQ0)) is True for y in c.srcs())]
        for v in variants[1:]:
            if not cover(self.ctx, cl, v, base=s) and not cover(self.ctx, v, cl, base=s):
                self.ok(name)
                return
        compare_sets(self.ctx, '%s: %s' % (self.name, name), cl, variants[0], self.where, allowed=self.known | {'first_body', 'first'}, base=s, what='symbol')


def levels_phis(levels):
    return [p for X in levels for p, _, _ in X.phis]


def skip_vars(G, B):
    """the rest of a body from its next variable on"""
    n = 1
    return ('skipto', B, ('flatmap', ('sym', '_'), n, ((tuple(guards_of([G.is_var(('bv', n))])), (('one', ('bv', n)),)),)))
