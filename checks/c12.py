"""C12: simulation steps."""
from sim import *
from c11 import feed_summary, new_runs, closed_from, eps_model


def check(ctx):
    ctx.rule('closure: every run reached over an empty transition or a satisfied quantifier, and nothing else, is added until nothing is new')
    ctx.rule('feed: the closures of the destinations of exactly the transitions of the current runs whose literal contains the character')
    ctx.rule('can_feed, is_accepting and the final states quantify over all current runs; feeding a text is feeding its characters in order')
    S = Sim(ctx)
    ctx.part('closure', closure, ctx, S)
    ctx.part('feed', feed, ctx, S)
    ctx.part('can_feed', can_feed, ctx, S)
    ctx.part('is_accepting', accepting, ctx, S)
    ctx.part('final states', finals, ctx, S)
    ctx.part('start', start, ctx, S)
    ctx.part('texts', texts, ctx, S)
    ctx.part('small automata', small, ctx, S)


def small(ctx, S):
    """the summaries together on small automata"""
    from machine import Machine
    M = Machine(ctx, S)
    k, x = M.plain()
    if k == 'bad':
        ctx.violate('small automata', x, M.where)
    elif k == 'odd':
        ctx.unknown('small automata', x)
    else:
        ctx.ok('%d small automata' % x)


def zipb(vs, srcs):
    return tuple(zip(vs, srcs))


def closure(ctx, S):
    b, run, outs, I = S.closure()
    c = closure_term(outs)
    if c is None:
        ctx.unknown('closure', 'eps_closure is not recognised as a closure')
        return
    me = mk_set([('one', run)])
    for i, n in ((1, 'result'), (2, 'work list')):
        if c[i] == me:
            ctx.ok('closure starts with the run (%s)' % n)
        elif opaque_in(c[i], (STATE,)):
            ctx.unknown('closure start ' + n, show(c[i])[:200])
        else:
            ctx.violate('closure start', 'the %s starts as %s' % (n, show(c[i])), site(b))
    r, x, d = var_at(0), var_at(1), var_at(2)
    tr = S.trans(r)
    bd = zipb((r, x, d), (SELF, tr, fld(x, 0, 1)))
    q = fld(fld(x, 0, 0), S.v_quant, 0)
    spec = [Clause(bd, guards_of([S.kind(x, S.v_eps)]), d)]
    for name, g in S.satisfied(q, S.count(r)):
        spec.append(Clause(bd, guards_of([S.kind(x, S.v_quant)] + g), d))
    mine = [Clause(k.binders, k.guards, fld(k.value, 0, S.f_id)) for k in S.counted(clauses(c[3]))]
    compare_sets(ctx, 'closure steps', mine, S.both(spec), site(b), (STATE, 'maxof'), what='transition to')


def lit_guard(S, x, c):
    return [S.kind(x, S.v_lit), ('app', CONTAINS, fld(fld(x, 0, 0), S.v_lit, 0), c)]


def feed(ctx, S):
    b = fn(ctx, 'NfaSimulator', 'feed', L)
    I, runs, outs = feed_summary(ctx, S, b)
    c = sym('input')
    r, x, d = var_at(0), var_at(1), var_at(2)
    bd = zipb((r, x, d), (runs, S.trans(r), fld(x, 0, 1)))
    spec = [Clause(bd, guards_of(lit_guard(S, x, c)), d)]
    for s, k, v in outs:
        if k != 'ret':
            ctx.violate('feed panics', 'panic %s when %s' % (v, facts_of(s)), site(b))
            continue
        nr = new_runs(S, s)
        if nr is None:
            ctx.unknown('feed', 'runs not found')
            continue
        mine = []
        for k2 in S.counted(clauses(nr)):
            pre = closed_from(k2)
            if pre is None:
                if any(q[0] == 'app' and q[1] == 'closure of' for q in subterms((k2.value, k2.srcs()))) or opaque_in((k2.value, k2.guards), (STATE, CONTAINS, 'maxof')):
                    ctx.unknown('feed', k2.show()[:300])
                else:
                    ctx.violate('feed without closure', 'runs that are not closed under empty transitions: %s' % k2.show()[:300], site(b))
                return
            mine.append(Clause(k2.binders[:-1], k2.guards, fld(pre, 0, S.f_id)))
        compare_sets(ctx, 'feed', mine, S.both(spec), site(b), (STATE, CONTAINS, 'maxof', 'closure of'), what='run in state')
        # the result tells whether the new runs accept
        if v == ('app', 'accepting', nr):
            ctx.ok('feed result')
        elif v[0] == 'app' and v[1] == 'accepting':
            ctx.violate('feed result', 'tells whether %s accepts instead of the new runs' % show(v[2])[:200], site(b))
        elif v[0] == 'bool' and not s.facts():
            ctx.violate('feed result', 'feed always returns %s' % show(v), site(b))
        else:
            ctx.unknown('feed result', show(v)[:200])


def run_fn(ctx, S, name, cls='NfaSimulator'):
    b = fn(ctx, cls, name, L)
    I = S.interp()
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    return b, I, args, outs


def no_panic(ctx, name, b, outs):
    for s, k, v in outs:
        if k == 'panic':
            ctx.violate(name + ' panics', 'panic %s when %s' % (v, facts_of(s)), site(b))


def can_feed(ctx, S):
    b, I, args, outs = run_fn(ctx, S, 'can_feed')
    no_panic(ctx, 'can_feed', b, outs)
    r, x = var_at(0), var_at(1)
    runs = fld(args[0], 0, S.f_runs)
    spec = [Clause(zipb((r, x), (runs, S.trans(r))), guards_of(lit_guard(S, x, args[1])), UNIT)]
    check_exists(ctx, 'can_feed', I, outs, spec, site(b), (STATE, CONTAINS))


def accepting(ctx, S):
    b, I, args, outs = run_fn(ctx, S, 'is_accepting')
    no_panic(ctx, 'is_accepting', b, outs)
    r = var_at(0)
    runs = fld(args[0], 0, S.f_runs)
    spec = [Clause(zipb((r,), (runs,)), guards_of([fld(S.st_term(fld(r, 0, S.f_id)), 0, S.f_fin)]), UNIT)]
    check_exists(ctx, 'is_accepting', I, outs, spec, site(b), (STATE, CONTAINS))


def finals(ctx, S):
    b, I, args, outs = run_fn(ctx, S, 'get_current_final_states')
    no_panic(ctx, 'final states', b, outs)
    r, x = var_at(0), var_at(1)
    runs = fld(args[0], 0, S.f_runs)
    states = fld(cow(fld(args[0], 0, S.f_nfa)), 0, S.f_states)
    spec = [Clause(zipb((r,), (runs,)), guards_of([fld(S.st_term(fld(r, 0, S.f_id)), 0, S.f_fin)]), fld(r, 0, S.f_id))]
    for s, k, v in outs:
        if k != 'ret':
            continue
        cl = []
        for c in clauses(v):
            # `id is among the ids of the final states` says the same as `the state with that id is final`
            gs = []
            for g in c.guards:
                t = g[1]
                if g[0] == 'A' and t[0] == 'mem':
                    m = clauses(t[2])
                    if len(m) == 1 and m[0].srcs() == (states,) and m[0].guards == guards_of([fld(var_at(0), 0, S.f_fin)]) \
                            and m[0].value == fld(var_at(0), 0, S.f_sid):
                        g = ('A', fld(S.st_term(t[1]), 0, S.f_fin), g[2])
                gs.append(g)
            cl.append(Clause(c.binders, tuple(gs), c.value))
        compare_sets(ctx, 'final states', cl, spec, site(b), (STATE,), what='state')


def cow(v):
    return v[3][0] if v[0] == 'adt' and v[1].endswith('Cow') else v


def start(ctx, S):
    models = dict(S.models)
    for c in ctx.prog.bodies.values():
        if self_adt(c) == S.sim and c['name'] == 'eps_closure':
            models[c['path']] = eps_model(S)
    for name in ('to_simulator',):
        b = fn(ctx, 'Nfa', name, L)
        I = interp(ctx, natives=models)
        st = State()
        args = sym_args(I, st, b)
        outs = I.call_body(st, b, args, ())
        ctx.add_interp(I)
        for s, k, v in outs:
            if k != 'ret':
                ctx.violate('new simulator panics', 'panic %s when %s' % (v, facts_of(s)), site(b))
                continue
            runs = fld(v, 0, S.f_runs)
            while runs[0] in ('unord', 'sorted', 'rev'):
                runs = runs[1]
            if runs[0] == 'app' and runs[1] == 'closure of':
                i = fld(runs[2], 0, S.f_id)
                want = fld(args[0], 0, S.f_start)
                if i == want:
                    ctx.ok('start runs')
                elif opaque_in(i):
                    ctx.unknown('start runs', show(i))
                else:
                    ctx.violate('start runs', 'a new simulator starts in state %s' % show(i), site(b))
            elif opaque_in(runs, ('closure of',)):
                ctx.unknown('start runs', show(runs)[:300])
            else:
                ctx.violate('start runs', 'a new simulator starts with runs %s' % show(runs)[:300], site(b))
            nfa = cow(fld(v, 0, S.f_nfa))
            if nfa == args[0]:
                ctx.ok('simulated automaton')
            else:
                ctx.unknown('simulated automaton', show(nfa)[:200])


def texts(ctx, S):
    """feed_str feeds every character once, in order; the answer is that of the last state"""
    b = fn(ctx, None, 'feed_str', L, argc=2)
    calls = []
    feeds = [c['path'] for c in ctx.prog.bodies.values() if c['name'] == 'feed' and self_adt(c) == S.sim]
    names = set()

    def feed_model(I, st, a, info):
        s = st.fork()
        r = I.last_ref(s, a[0])
        v = I.load(s, r)
        c = I.deref(s, a[1])
        n = v[1] if v[0] == 'fed' else EMPTY
        n = cat(n, mk_seq([('one', c)]))
        s.ev = s.ev + (('feed', c),)
        I.store(s, r, ('fed', n))
        return [(s, 'ret', ('app', 'accepting', ('fed', n)))]

    def acc_model(I, st, a, info):
        return [(st, 'ret', ('app', 'accepting', I.deref(st, a[0])))]
    models = {}
    for c in ctx.prog.bodies.values():
        pass
    models['fsm::traits::Simulate::feed'] = feed_model
    models['fsm::traits::Simulate::is_accepting'] = acc_model
    tr = b['path'].rsplit('::', 1)[0]
    models[tr + '::feed'] = feed_model
    models[tr + '::is_accepting'] = acc_model
    for p in feeds:
        models[p] = feed_model
    for c in ctx.prog.bodies.values():
        if self_adt(c) == S.sim and c['name'] == 'is_accepting':
            models[c['path']] = acc_model
    I = interp(ctx, natives=models)
    st = State()
    root = I.new_root(st, ('fed', EMPTY), 'self')
    text = sym('input')
    outs = I.call_body(st, b, [('ref', root, ()), text], ())
    ctx.add_interp(I)
    # one loop over the characters that feeds each
    ls = [l for l in I.loops.values() if l.backs]
    ok = True
    feeding = [l for l in ls if any(e[0] == 'feed' for row in l.backs for e in row['ev'])]
    if len(feeding) < 1:
        if any(s.ev for s, k, v in outs):
            ctx.unknown('texts', 'no loop that feeds characters')
        else:
            ctx.violate('feed_str', 'no character is fed', site(b))
        return
    l = feeding[-1]
    its = list(l.iters.items())
    if len(its) != 1:
        ctx.unknown('texts', 'loop over %s' % [show(v)[:100] for _, v in its])
        return
    it, src = its[0]
    if src != text and not (src[0] == 'chars' and src[1] == text):
        if opaque_in(src):
            ctx.unknown('texts', 'loop over %s' % show(src)[:200])
        else:
            ctx.violate('feed_str', 'feeds the characters of %s instead of the text' % show(src)[:200], site(b))
        return
    for row in l.backs:
        fs = [e for e in row['ev'] if e[0] == 'feed']
        if len(fs) != 1 or fs[0][1] != ('nth', it, INT(0)):
            ctx.violate('feed_str', 'a step feeds %s' % [show(e[1]) for e in fs], site(b))
            return
    bad = [o for o in outs if o[1] == 'ret' and not any(e[0] == 'loop' and e[1] == l.id for e in o[0].ev)]
    if bad:
        ctx.unknown('texts', 'returns without feeding when %s' % facts_of(bad[0][0]))
        return
    for s, k, v in outs:
        iv = s.I.get(((('len', it), 1),))
        if k == 'ret' and iv is not None and iv[0][0] >= 1:
            ctx.violate('feed_str', 'stops although characters are left, when %s' % facts_of(s), site(b))
            return
    ctx.ok('feed_str feeds every character')
    # result
    good = True
    for s, k, v in outs:
        if k != 'ret':
            continue
        if not (v[0] == 'app' and v[1] == 'accepting') and not contains(v, lambda t: t[0] == 'app' and t[1] == 'accepting') \
                and not contains(v, lambda t: t[0] == 'phi'):
            good = False
            ctx.violate('feed_str result', 'returns %s' % show(v)[:200], site(b))
    if good:
        ctx.ok('feed_str result')
