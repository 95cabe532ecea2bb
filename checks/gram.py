"""Summaries of the grammar shared by the parser properties."""
from comp import *
from sim import field_by, guards_of


class Gram:
    def __init__(self, ctx):
        self.ctx = ctx
        self.g = adt(ctx, 'Grammar')
        self.b = adt(ctx, 'GrammarBuilder')
        self.sym = adt(ctx, 'Symbol')
        self.v_t, self.v_v, self.v_e = var(ctx, self.sym, 'Terminal', 'Variable', 'Epsilon')
        ismap = lambda t: t[0] == 'adt' and t[1].endswith('Map')
        self.g_rules = field_by(ctx, self.g, 'rules', ismap)
        self.g_start = field_by(ctx, self.g, 'start_variable', lambda t: t[0] == 'param')
        self.b_rules = field_by(ctx, self.b, 'rules', ismap)
        self.b_start = field_by(ctx, self.b, 'start_variable', lambda t: t[0] == 'adt' and t[1] == OPT)
        self.eps = ('adt', self.sym, self.v_e, ())

    def is_var(self, s):
        return isvar(s, (self.v_v,), uni(self.sym))

    def is_term(self, s):
        return isvar(s, (self.v_t,), uni(self.sym))

    def is_eps(self, s):
        return isvar(s, (self.v_e,), uni(self.sym))


def norm_iter(t):
    while t[0] in ('it', 'unord', 'sorted', 'rev'):
        t = t[1]
    return t


def added(t):
    """a map of sets as (base, clauses of the added pairs)"""
    if t[0] == 'rel':
        base, cl = added(t[1])
        return base, cl + clauses(t[2])
    return t, []


def is_keys(t, rules):
    """t is the set of the keys of the map"""
    t = norm_iter(t)
    c = clauses(t) if t[0] in ('set', 'flatmap', 'seq') else []
    return t == ('keys', rules) or (len(c) == 1 and not c[0].guards and c[0].srcs() == (('items', rules),)
                                    and c[0].value == fld(var_at(0), 0, 0))


def no_key(x):
    return ('app', 'no rule for', x)


def canon_key(g, rules):
    """guards about the presence of a key in one form"""
    if g[0] == 'V' and g[1][0] == 'mapget' and g[1][1] == rules:
        return ('A', no_key(g[1][2]), g[2] == (0,))
    if g[0] == 'A' and g[1][0] == 'mem' and is_keys(g[1][2], rules):
        return ('A', no_key(g[1][1]), not g[2])
    return g


def canon_clauses(cl, f):
    return [Clause(c.binders, tuple(f(g) for g in c.guards), c.value) for c in cl]


def exist(cl):
    """the same clauses, as conditions, with guards that something has an element
    replaced by that element"""
    out = []
    for c in cl:
        for g in c.guards:
            if g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len' and g[1][0][1] == 1 and g[2] == ((1, INF),) and g[1][0][0][1][0] == 'flatmap':
                rest = tuple(x for x in c.guards if x != g)
                for c2 in clauses(g[1][0][0][1], len(c.binders)):
                    m = merge_guards(rest, c2.guards)
                    if m is not None:
                        out.extend(exist([Clause(c.binders + c2.binders, m, UNIT)]))
                break
        else:
            out.append(c)
    return out


def emptiness(facts, rules):
    """facts that say that something has no element: (clauses of all those
    things, other facts)"""
    cl, other = [], []
    for g in sorted(facts, key=key):
        g = canon_key(g, rules)
        if g[0] == 'A' and g[1][0] == 'subset' and g[2] is True:
            for c in clauses(g[1][1]):
                m = merge_guards(c.guards, (('A', mem(c.value, g[1][2]), False),))
                t = mem(c.value, g[1][2])
                if is_keys(g[1][2], rules):
                    m = merge_guards(c.guards, (('A', no_key(c.value), True),))
                cl.append(Clause(c.binders, m, UNIT))
        elif g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len' and g[2] == EQ0 and g[1][0][0][1][0] == 'flatmap':
            cl.extend(Clause(c.binders, tuple(sorted((canon_key(x, rules) for x in c.guards), key=key)), UNIT) for c in exist(clauses(g[1][0][0][1])))
        elif g[0] == 'A' and g[1][0] == 'app' and g[1][1] == 'no rule for' and g[2] is False:
            cl.append(Clause((), (('A', g[1], True),), UNIT))
        else:
            other.append(g)
    return cl, other


def run(ctx, b, natives=None, skip=()):
    I = interp(ctx, natives=natives or {})
    st = State()
    args = sym_args(I, st, b, skip)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    return I, st, args, outs


def no_panic(ctx, name, b, outs):
    for s, k, v in outs:
        if k == 'panic':
            ctx.violate(name + ' panics', 'panic %s when %s' % (v, facts_of(s)), site(b))


def stopped(I, s):
    """source of a loop that this path leaves although elements remain"""
    for e in s.ev:
        if e[0] != 'loop' or e[1] not in I.loops:
            continue
        for phi, init in I.loops[e[1]].iters.items():
            p = phi if phi[0] == 'phi' else phi[1]
            if s.decide(compare(seq_len(p), INT(0), EQ0)) is False:
                return init
    return None


def first_only(I, phi):
    """phi is a map grown by a loop that drops an element when its key is there"""
    for L in I.loops.values():
        own = {p for p, _, _ in L.phis}
        if phi not in own:
            continue
        for r in L.backs:
            u = r['upd'].get(phi, phi)
            if u[0] == 'phi' and u not in own:
                # grown by a loop inside
                f = first_only(I, u)
                if f:
                    return f
            while u[0] == 'mapins':
                m, k, v = u[1:]
                if v[0] == 'getor' and v[1] == m and v[2] == k and contains(v[3], lambda t: t[0] == 'nth' and t[1] in own):
                    return '%s only when nothing is stored at %s' % (show(v[3])[:200], show(k)[:200])
                u = v
    return None


def grammars(G, n=400, total=False, seed=7, sizes=()):
    """small finite grammars as values: (rules, start)"""
    import random
    r = random.Random(seed)
    V = lambda x: Adt((G.sym, G.v_v, (x,)))
    Tm = lambda x: Adt((G.sym, G.v_t, (x,)))
    E = Adt((G.sym, G.v_e, ()))
    if not total:
        yield Map(), 'A'
    for k in sizes:
        for d in (k, k + 1, k + 2):
            for mk in (lambda i: V('A'), lambda i: Tm('ab'[i % 2]), lambda i: E if i % 2 else V('A'), lambda i: E if i else V('A')):
                yield Map({'A': Set([Seq(mk(i) for i in range(d))])}), 'A'
            if not total:
                yield Map({'A': Set([Seq(V('Z') if i == d - 1 else V('A') for i in range(d))])}), 'A'
            yield Map({'A': Set([Seq([V('A')])] + [Seq([Tm('t%d' % i)]) for i in range(d)])}), 'A'
            yield Map(('v%d' % i, Set([Seq([V('v%d' % ((i + 1) % max(d, 1)))])])) for i in range(d)), 'v0'
    for i in range(n):
        vs = ['A', 'B', 'C'][:1 + i % 3]
        ts = ['a', 'b'][:1 + (i // 3) % 2]
        eps = (0.1, 0.5)[(i // 6) % 2]
        used = vs + ([] if total else ['Z'] if r.random() < 0.3 else [])
        rules = Map()
        for v in vs:
            bodies = set()
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                k = r.choice([0, 1, 1, 2, 2, 3, 4])
                body = [E if r.random() < eps else V(r.choice(used)) if r.random() < 0.55 else Tm(r.choice(ts)) for _ in range(k)]
                bodies.add(Seq(body or [E]))
            rules[v] = Set(bodies)
        yield rules, r.choice(used)


def strip_it(t):
    while t[0] == 'it':
        t = t[1]
    return t


def same_rest(s, a, b):
    """equal iterators; one without elements equals the empty one"""
    a, b = strip_it(a), strip_it(b)
    return same(s, a, b) or all(x == EMPTY or s.decide(compare(seq_len(x), INT(0), EQ0)) is True for x in (a, b))


def grew(s, F, F2, w, single=None):
    """the set at w grew from the map F to F2: True, False or None"""
    old = mapgetor(F, w, ESET)
    r = None
    for a in (mapgetor(F2, w, ESET), fld(mapget(F2, w), 1, 0)):
        for b in (old, fld(mapget(F, w), 1, 0)):
            d = s.decide(compare(seq_len(a), seq_len(b), EQ0))
            if d is not None:
                r = not d
    if r is None and single is not None:
        d = s.decide(mem(single, old))
        if d is not None:
            r = not d
    return r


def may_grow(s, F, w):
    """the facts about the sets of F do not compare the set at w with a later one"""
    olds = [('len', x) for x in (mapgetor(F, w, ESET), fld(mapget(F, w), 1, 0))]
    return all(len(g[1]) == 1 and g[1][0][0] in olds for g in s.facts() if g[0] == 'I' and contains(g[1], lambda z: z == F))


def first_models(ctx):
    """the FIRST functions as unknown functions of their arguments"""
    def model(name):
        def f(I, st, a, info):
            xs = [strip_it(I.freeze(st, I.deref(st, x))) for x in a[1:]]
            n = name
            if name == 'first_bodies' and xs[1][0] == 'seq' and len(xs[1][1]) == 1 and xs[1][1][0][0] == 'one':
                n, xs = 'first_body', [xs[0], strip_it(xs[1][1][0][1])]
            return [(st, 'ret', ('app', n, *xs))]
        return f
    out = {}
    for n in ('first', 'first_body', 'first_bodies'):
        for b in fns(ctx.prog, 'Grammar', n, P):
            out[b['path']] = model(n)
    return out


def lost_work(I, phi):
    """a set that grows together with a work list: the facts of a path that adds
    an element without putting it on the list"""
    for L in I.loops.values():
        if not any(p == phi for p, _, _ in L.phis):
            continue
        for Q, i, _ in L.phis:
            last = sub(seq_len(Q), INT(1))
            for rest in (drop(Q, INT(1)), take(Q, last)):
                for X in [L] + [I.loops[e[1]] for r in L.backs for e in r['ev'] if e[0] == 'loop' and e[1] in I.loops]:
                    S = [a for a, j, _ in X.phis if j == phi or a == phi]
                    W = [a for a, j, _ in X.phis if j == rest]
                    if len(S) != 1 or not (W or X is L):
                        continue
                    for r in X.backs:
                        u = r['upd'].get(S[0], S[0])
                        w = r['upd'].get(W[0], W[0]) if W else None
                        if u[0] != 'set' or ('sub', S[0]) not in u[1] or w != (W[0] if W else None) or not W:
                            continue
                        s = state_of(sorted(r['facts'], key=key))
                        for q in u[1]:
                            if s and q[0] == 'one' and s.decide(mem(q[1], S[0])) is False:
                                return facts_of(s)[:300]
    return None


def refute(ctx, name, term, models, reference, where):
    """compares the value of a summary term with a reference in small finite
    models; only a difference decides"""
    n = 0
    for m in models:
        want = reference(m)
        try:
            got = m.ev(term)
        except Undef:
            continue
        n += 1
        if isinstance(got, Map):
            got = {(k, x) for k, v in got.items() for x in v}
        got = set(got)
        if got != set(want):
            ctx.violate(name, '%s; e.g. %s: too much %s, missing %s' % (show(term)[:300], show_model(m), sorted(map(repr, got - set(want)))[:3], sorted(map(repr, set(want) - got))[:3]), where)
            return False
    ctx.unknown(name, 'no small model separates %s from the rule (%d models)' % (show(term)[:200], n))
    return None
