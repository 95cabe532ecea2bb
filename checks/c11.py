"""C11: repetition counting."""
from sim import *


def check(ctx):
    ctx.rule('a transition guarded by a quantifier can be taken exactly for the repetition counts the quantifier allows '
             'and sets the counter of the state to zero')
    ctx.rule('every other transition out of a state adds one to the counter of that state and changes no other counter; '
             'the counter may stop at a bound from which on the answer of every quantifier of the state is constant')
    ctx.rule('counters start at zero')
    S = Sim(ctx)
    satisfied_table(ctx, S)
    b, run, outs, I = S.closure()
    c = closure_term(outs)
    if c is None:
        ctx.unknown('closure', 'eps_closure is not recognised as a closure')
    else:
        steps(ctx, S, b, c, run)
    feed(ctx, S)
    initial(ctx, S)
    ctx.part('small automata', small, ctx, S)


def small(ctx, S):
    """the summaries together on small automata with counting states"""
    from machine import Machine
    M = Machine(ctx, S)
    if M.plain()[0] != 'ok':
        ctx.unknown('small automata', 'automata without counting')
        return
    k, x = M.counted()
    if k == 'bad':
        ctx.violate('small automata', x, M.where)
    elif k == 'odd':
        ctx.unknown('small automata', x)
    else:
        ctx.ok('%d small automata with counting states' % x)


def satisfied_table(ctx, S):
    q, n = sym('q'), sym('n')
    T.ADT_OF[q] = S.q
    T.DOM[n] = ((0, INF),)
    for b in fns(ctx.prog, 'QuantifierKind', 'is_satisfied', L):
        I = S.interp()
        outs = split_bool(I, I.call_body(State(), b, [q, n], ()))
        ctx.add_interp(I)
        spec = [guards_of(g) for _, g in S.satisfied(q, n)]
        for name, base in S.quant_base(q):
            bs = rows_state(*base)
            bad, odd = [], set()
            for s, k, v in outs:
                m = meet(bs, s)
                if m is None:
                    continue
                odd |= opaque_in((v,) + tuple(s.facts()))
                if k != 'ret':
                    bad.append('panics when ' + facts_of(m))
                elif v == TRUE:
                    bad += ['%s accepts when %s' % (name, facts_of(x)) for x in covers(m, spec)]
                else:
                    for g in spec:
                        x = m.fork()
                        if assume_facts(x, g):
                            bad.append('%s rejects when %s' % (name, facts_of(x)))
            if not bad:
                ctx.ok('is_satisfied ' + name)
            elif odd:
                ctx.unknown('is_satisfied ' + name, str(sorted(odd)))
            else:
                ctx.violate('quantifier %s counts' % name, '; '.join(bad[:3]), site(b))


def limit_ok(ctx, S, x, r, where):
    """x is a sound bound for the counter of the state of run r:
    x is the maximum over the transitions of a bound per quantifier, and from
    that bound on the quantifier's answer is constant.  Returns (sound, why)"""
    if x[0] == 'app' and x[1] == 'minof':
        return False, 'the bound is the smallest one of the quantifiers of a state'
    if not (x[0] == 'app' and x[1] == 'maxof'):
        return None, 'bound %s' % show(x)[:200]
    tr = S.trans(r)
    cl = clauses(x[2])
    v = var_at(0)
    q = fld(fld(v, 0, 0), S.v_quant, 0)
    n = sym('n')
    T.DOM[n] = ((0, INF),)
    if any(c.srcs() != (tr,) for c in cl):
        return None, 'bound over %s' % show(tuple(c.srcs() for c in cl))[:300]
    for name, base in S.quant_base(q):
        bs = rows_state(S.kind(v, S.v_quant), *base)
        found = False
        rest = covers(bs, [c.guards for c in cl])
        if rest and not const_from(S, name, q, INT(0), bs):
            return False, 'quantifier %s does not contribute to the bound when %s' % (name, facts_of(rest[0]))
        spec = [g for nm, g in S.satisfied(q, n) if nm == name]
        for c in cl:
            m = bs.fork()
            if not assume_facts(m, c.guards):
                continue
            # the answer for n >= bound is constant
            if opaque_in(c.value):
                return None, 'bound of %s is %s' % (name, show(c.value))
            m2 = m.fork()
            if not m2.assume(compare(c.value, n, LE)):
                continue
            g = guards_of(spec[0])
            yes, no = m2.fork(), subtract([m2], sorted(g, key=key))
            can_yes = assume_facts(yes, g)
            if can_yes and no and not const_from(S, name, q, c.value, m):
                return False, 'quantifier %s stops counting at %s, but its answer still changes there' % (name, show(c.value))
    return True, ''


def const_from(S, name, q, bound, m):
    """answers for all counts >= bound agree (linear reasoning per quantifier)"""
    ctx = S.ctx
    rmax, rmin, rrange = var(ctx, S.qr, 'Max', 'Min', 'Range')
    vr, = var(ctx, S.q, 'Range')
    rg = fld(q, vr, 0)
    last = {'{n}': fld(rg, rmax, 0), '{n,}': sub(fld(rg, rmin, 0), INT(1)), '{n,m}': fld(rg, rrange, 1),
            '*': INT(-1), '+': INT(0), '?': INT(1)}[name]
    d = sub(bound, last)
    return d[0] == 'int' and d[1] >= 1


def check_inc(ctx, S, name, where, cls, r):
    """clauses of counting transitions: the counter of the state goes up by one"""
    n = S.count(r)
    bad, odd = [], set()
    for c in cls:
        s = state_of(c.guards)
        if s is None or n[0] == 'getor' and s.decide(isvar(mapget(n[1], n[2]), (0,), uni(OPT))) is True and not s.assume(compare(n, INT(0), EQ0)):
            continue
        base, upd = S.counters(r, c.value)
        if base != fld(r, 0, S.f_cnt):
            if opaque_in(base, (STATE, CONTAINS)) or base[0] not in ('emap', 'fld'):
                odd.add('counters ' + show(base)[:200])
            else:
                bad.append('counters of the new run come from %s' % show(base))
            continue
        extra = [k for k in upd if k != fld(r, 0, S.f_id)]
        if extra:
            bad.append('the counter of %s is changed to %s as well' % (show(extra[0]), show(upd[extra[0]])))
            continue
        x = upd.get(fld(r, 0, S.f_id))
        if x is None:
            bad.append('the counter is not advanced when %s' % facts_of(s))
            continue
        if same(s, x, add(n, INT(1))):
            continue
        # a state without quantified transitions: nobody looks at the counter
        free = False
        for g in s.facts():
            if g[0] == 'I' and g[2] == EQ0 and len(g[1]) == 1 and g[1][0][0][0] == 'len':
                f = g[1][0][0][1]
                ok, _ = limit_ok(ctx, S, ('app', 'maxof', f), r, where)
                if ok:
                    free = True
        if free:
            continue
        ok, why = limit_ok(ctx, S, x, r, where)
        if ok:
            t = s.fork()
            if t.assume(compare(add(n, INT(1)), x, LT)):
                bad.append('the counter is set to its bound although it has not reached it')
            continue
        if ok is False:
            bad.append(why)
        elif opaque_in(x, (STATE, 'maxof')):
            odd.add(why)
        else:
            bad.append('the counter becomes %s instead of %s when %s' % (show(x), show(add(n, INT(1))), facts_of(s)))
    if bad:
        ctx.violate(name, '; '.join(sorted(set(bad))[:3]), where)
    elif odd:
        ctx.unknown(name, '; '.join(sorted(odd)))
    elif cls:
        ctx.ok(name)


def steps(ctx, S, b, c, run):
    r = var_at(0)
    cl = S.counted(clauses(c[3]))
    tr = S.trans(r)
    own = [k for k in cl if len(k.binders) >= 2 and k.srcs()[:2] == (SELF, tr)]
    if len(own) != len(cl) or not cl:
        ctx.unknown('closure steps', 'steps over %s' % sorted({show(k.srcs())[:300] for k in cl if k not in own}))
        return
    x = var_at(1)
    q = fld(fld(x, 0, 0), S.v_quant, 0)
    n = S.count(r)
    quant = []
    eps = []
    for k in cl:
        s = state_of(k.guards)
        if s is None:
            continue
        for v, lst in ((S.v_quant, quant), (S.v_eps, eps)):
            m = s.fork()
            if m.assume(S.kind(x, v)):
                lst.append(Clause(k.binders, tuple(m.facts()), k.value))
    # quantified transitions: exactly when satisfied
    d = var_at(2)
    srcs = (SELF, tr, fld(x, 0, 1))
    for name, base in S.quant_base(q):
        g = [t for nm, t in S.satisfied(q, n) if nm == name][0]
        bs = rows_state(S.kind(x, S.v_quant), *base)
        spec = [Clause(tuple(zip((r, x, d), srcs)), guards_of([S.kind(x, S.v_quant)] + g), d)]
        mine = [Clause(k.binders, k.guards, fld(k.value, 0, S.f_id)) for k in quant if meetable(bs, k.guards)]
        mine = [Clause(k.binders, merge_guards(k.guards, tuple(bs.facts())) or k.guards, k.value) for k in mine]
        compare_sets(ctx, 'leaving a loop by %s' % name, mine, S.both(spec), site(b), (STATE,), what='transition to')
    bad, odd = [], []
    for k in quant:
        base, upd = S.counters(r, k.value)
        key_ = fld(r, 0, S.f_id)
        if base == EMAP or (base != fld(r, 0, S.f_cnt) and not opaque_in(base, (STATE,))):
            bad.append('counters of the new run are %s' % show(base))
        elif base != fld(r, 0, S.f_cnt):
            odd.append(show(base)[:200])
        elif set(upd) != {key_}:
            bad.append('the counters of %s are set, expected the counter of the state that is left' % [show(k2) for k2 in upd])
        elif upd[key_] != INT(0):
            bad.append('the counter is set to %s instead of zero' % show(upd[key_]))
    if bad:
        ctx.violate('counter reset', '; '.join(sorted(set(bad))[:3]), site(b))
    elif odd:
        ctx.unknown('counter reset', '; '.join(odd))
    elif quant:
        ctx.ok('counter reset')
    check_inc(ctx, S, 'counting on empty transitions', site(b), eps, r)


def meetable(bs, guards):
    m = bs.fork()
    return assume_facts(m, guards)


def feed(ctx, S):
    """the runs after a character, before the closure"""
    b = fn(ctx, 'NfaSimulator', 'feed', L)
    I, runs, outs = feed_summary(ctx, S, b)
    got = False
    for s, k, v in outs:
        if k != 'ret':
            continue
        nr = new_runs(S, s)
        cl = S.counted(clauses(nr)) if nr is not None else None
        if not cl:
            ctx.unknown('counting on characters', 'runs after feeding: %s' % (show(nr)[:300] if nr else None))
            return
        r = var_at(0)
        for c in cl:
            pre = closed_from(c)
            if pre is None or len(c.srcs()) < 2 or c.srcs()[0] != runs or c.srcs()[1] != S.trans(r):
                ctx.unknown('counting on characters', 'runs after feeding: %s' % c.show()[:300])
                return
            check_inc(ctx, S, 'counting on characters', site(b), [Clause(c.binders, c.guards, pre)], r)


def feed_summary(ctx, S, b):
    models = dict(S.models)
    for c in ctx.prog.bodies.values():
        if self_adt(c) == S.sim and c['name'] == 'eps_closure':
            models[c['path']] = eps_model(S)
        if self_adt(c) == S.sim and c['name'] == 'is_accepting':
            models[c['path']] = lambda I, st, a, info: [(st, 'ret', ('app', 'accepting', fld(I.freeze(st, a[0]), 0, S.f_runs)))]
    I = interp(ctx, natives=models)
    st = State()
    args = sym_args(I, st, b)
    runs = fld(I.deref(st, args[0]), 0, S.f_runs)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    return I, runs, [(s, k, v) for s, k, v in outs]


def eps_model(S):
    def model(I, st, a, info):
        run = [x for x in (I.deref(st, y) for y in a) if not (x[0] == 'adt' and x[1] == S.sim)]
        return [(st, 'ret', ('it', ('app', 'closure of', run[-1])))]
    return model


def new_runs(S, s):
    for r, v in s.mem.items():
        if v[0] == 'adt' and v[1] == S.sim and isinstance(r, tuple) and r[0] == 'self':
            return v[3][S.f_runs]
    return None


def closed_from(c):
    """the run whose closure a clause ranges over, when the clause emits it whole"""
    if c.binders and c.value == c.binders[-1][0]:
        s = c.binders[-1][1]
        if s[0] == 'app' and s[1] == 'closure of':
            return s[2]
    return None


def initial(ctx, S):
    b = fn(ctx, 'Run', 'new', L)
    I = S.interp()
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    for s, k, v in outs:
        if k == 'ret' and v[0] == 'adt' and v[3][S.f_cnt] == EMAP:
            ctx.ok('initial counters')
        elif k == 'ret' and not opaque_in(v):
            ctx.violate('initial counters', 'a new run has counters %s' % show(v), site(b))
        else:
            ctx.unknown('initial counters', show(v)[:200])
