"""C19: the state machine is the LR(0) automaton of the grammar."""
from lr import *
import whole


def check(ctx):
    ctx.rule('start state: closure of the start variable\'s bodies with the marker before the first symbol that is not empty')
    ctx.rule('every state taken off the work list is kept, with one transition per symbol after a marker; the transition leads to a state whose items are '
             'the closure of exactly the items with that symbol after the marker, moved past the symbol')
    ctx.rule('closure: least set with the given items that holds all bodies of every variable after a marker')
    K = Lr(ctx)
    b = fn(ctx, 'Cfsm', 'from_grammar', P)
    ctx.part('from_grammar', machine, ctx, K, b)
    ctx.part('symbol count', accessors, ctx, K)


def pop_of(L, W):
    """(popped element, rest) forms of a work list"""
    last = sub(seq_len(W), INT(1))
    return ((nth(W, INT(0)), drop(W, INT(1))), (nth(W, last), take(W, last)))


def machine(ctx, K, b):
    I, st, args, outs = run(ctx, b)
    rules, start = fld(args[0], 0, K.g_rules), fld(args[0], 0, K.g_start)
    where = site(b)
    rets = [o for o in outs if o[1] == 'ret']
    ctx.need(rets, 'from_grammar returns')
    for s, k, v in rets:
        if v[0] != 'adt' or v[1] != K.cfsm:
            ctx.unknown('machine', show(v)[:200])
            continue
        gr = fld(v, 0, K.c_gram)
        if fld(gr, 0, K.g_rules) == rules and fld(gr, 0, K.g_start) == start:
            ctx.ok('the grammar is kept')
        elif opaque_in(gr):
            ctx.unknown('grammar', 'the machine keeps %s' % show(gr)[:200])
        else:
            ctx.violate('grammar', 'the machine keeps %s' % show(gr)[:200], where)
        S = fld(v, 0, K.c_states)
        loops = [L for L in I.loops.values() if any(p == S for p, _, _ in L.phis)]
        if len(loops) != 1:
            ctx.unknown('states', 'states %s' % show(S)[:200])
            continue
        outer(ctx, K, I, loops[0], s, S, fld(v, 0, K.c_start), rules, start, where)
    ctx.part('from_grammar in small grammars', whole.machine, ctx, K, b, I, args, outs)


def is_state(K, t):
    return t[0] == 'adt' and t[1] == K.state


def outer(ctx, K, I, L, s, S, start_id, rules, start, where):
    inits = {p: i for p, i, _ in L.phis}
    if inits[S] not in (ESET, EMPTY):
        ctx.unknown('states', 'start as %s' % show(inits[S])[:200])
        return
    W = [p for p, i in inits.items() if i[0] == 'seq' and i[1] and all(x[0] == 'one' and is_state(K, x[1]) for x in i[1])]
    if len(W) != 1:
        ctx.unknown('states', 'work list not found')
        return
    W = W[0]
    if len(inits[W][1]) != 1:
        ctx.violate('start state', 'work starts with %d states' % len(inits[W][1]), where)
        return
    s0 = inits[W][1][0][1]
    if same(s, fld(s0, 0, K.st_id), start_id):
        ctx.ok('the start state is the first one')
    else:
        ctx.violate('start state', 'state %s is the start state, the start items are in state %s' % (show(start_id), show(fld(s0, 0, K.st_id))), where)
    body = var_at(0)
    base = [Clause(((body, fld(mapget(rules, start), 1, 0)),), (), tup(start, K.first_item(body)))]
    sm = lambda ks, pairs: self_models(K, rules, pairs, gm(ks))
    gm = lambda ks: (Model({rules: rs, start: x}) for rs, x in grammars(K, 150, total=True, sizes=ks))
    closed_items(ctx, K, 'start items', fld(fld(s0, 0, K.st_items), 0, K.s_items), rules, [base], where, gm, sm, I, s.facts())
    if fld(s0, 0, K.st_tr) != EMAP:
        ctx.unknown('start state', 'transitions')
    # the loop ends when no state is left
    d = s.decide(compare(seq_len(W), INT(0), EQ0))
    if d is not True:
        ctx.violate('work', 'construction stops although states are left, when %s' % facts_of(s)[:300], where)
    else:
        ctx.ok('all states are treated')
    done = False
    for row in L.backs:
        for x, rest in pop_of(L, W):
            if outer_row(ctx, K, I, L, row, S, W, x, rest, rules, where):
                done = True
                break
        else:
            ctx.unknown('states', 'a round of the construction has another form')
    ctx.need(done, 'round of the state construction')


def outer_row(ctx, K, I, L, row, S, W, x, rest, rules, where):
    wu = row['upd'].get(W, W)
    inner = [I.loops[e[1]] for e in row['ev'] if e[0] == 'loop' and e[1] in I.loops]
    # the inner loop that extends the work list
    own = [M for M in inner if any(i == rest for _, i, _ in M.phis)]
    if wu != rest and not own:
        return False
    su = row['upd'].get(S, S)
    ss = set_segs(su) if su[0] == 'set' else segs(su)
    new = [q for q in ss if q != ('sub', S)]
    if ('sub', S) not in ss and su != S:
        if opaque_in(su):
            ctx.unknown('states', 'become %s' % show(su)[:200])
        else:
            ctx.violate('kept states', 'the states become %s, when %s' % (show(su)[:200], gshow(row['facts'])[:200]), where)
        return True
    kept = []
    for q in new:
        v = q[1]
        if q[0] == 'one' and same_state(K, v, x):
            kept.append(v)
    if len(kept) != 1 or len(new) != 1:
        if opaque_in((su,)) - {'phi'}:
            ctx.unknown('states', 'become %s' % show(su)[:200])
        else:
            ctx.violate('kept states', 'a treated state is not kept as it was: %s, when %s' % (show(new)[:200], gshow(row['facts'])[:200]), where)
        return True
    ctx.ok('a treated state is kept')
    tr = fld(kept[0], 0, K.st_tr)
    if not own:
        # no symbol after any marker?
        if not trivial(ctx, K, row, x):
            ctx.unknown('transitions', 'a round without inner loop, when %s' % gshow(row['facts'])[:200])
        return True
    M = own[0]
    ctx.part('transitions', transitions, ctx, K, I, M, row, S, W, x, rest, tr, wu, rules, where)
    return True


def same_state(K, v, x):
    """v is the state x, with any transitions"""
    return fld(v, 0, K.st_id) == fld(x, 0, K.st_id) and fld(v, 0, K.st_items) == fld(x, 0, K.st_items)


def trivial(ctx, K, row, x):
    its = ('items', fld(fld(x, 0, K.st_items), 0, K.s_items))
    for g in row['facts']:
        if g[0] == 'I' and g[1] == ((('len', its), 1),) and g[2] == EQ0:
            return True
    return False


def transitions(ctx, K, I, M, row, S, W, x, rest, tr, wu, rules, where):
    ph = {i: p for p, i, _ in M.phis}
    inits = {p: i for p, i, _ in M.phis}
    W2 = ph[rest]
    T2 = [p for p in inits if p == tr]
    if wu != W2:
        ctx.violate('work', 'new states are not kept in the work list: %s' % show(wu)[:200], where)
        return
    if not T2:
        tr0 = fld(x, 0, K.st_tr)
        if tr == tr0 or not opaque_in(tr):
            ctx.violate('transitions', 'the kept state has the transitions %s' % show(tr)[:200], where)
        else:
            ctx.unknown('transitions', show(tr)[:200])
        return
    T2 = T2[0]
    if inits[T2] not in (EMAP, fld(x, 0, K.st_tr)):
        ctx.unknown('transitions', 'start as %s' % show(inits[T2])[:200])
    its = M.iters
    src = [(p, i) for p, i in its.items()]
    if len(src) != 1:
        ctx.unknown('transitions', 'loop over %d iterators' % len(src))
        return
    it, src = src[0]
    p = it if it[0] == 'phi' else it[1]
    left = [g for g in row['facts'] if g[0] == 'I' and g[1] == ((('len', p), 1),)]
    if not left or left[0][2] != EQ0:
        ctx.violate('transitions', 'stops before all symbols are treated, when %s' % gshow(row['facts'])[:300], where)
    else:
        ctx.ok('all symbols after a marker are treated')
    src = norm_iter(src)
    own = fld(fld(x, 0, K.st_items), 0, K.s_items)
    h, i = var_at(0), var_at(1)
    spec = [Clause(((h, ('items', own)), (i, fld(h, 0, 1))), guards_of([K.more(i)]), tup(K.at(i), tup(fld(h, 0, 0), i)))]
    full, parts = strip_part(src)
    if parts:
        ctx.violate('transitions', 'only a part of the symbols: %s of %s' % ('/'.join(parts), show(full)[:200]), where)
        return
    fo = first_only(I, src[1]) if src[0] == 'items' else None
    if fo:
        ctx.violate('items by the symbol after their marker', 'stores ' + fo, where)
        return
    if src[0] != 'items' or src[1][0] != 'nest' or src[1][1] != EMAP:
        ctx.unknown('transitions', 'loop over %s' % show(src)[:200])
        return

    def models(ks):
        for rs, _ in grammars(K, 150, total=True, sizes=ks):
            m = {}
            for hh, ii in K.v_items(rs)[:30]:
                m.setdefault(hh, set()).add(ii)
            yield Model({rules: rs, own: Map((a, Set(c)) for a, c in m.items())})
    decide(ctx, 'items by the symbol after their marker', clauses(src[1][2]), [spec], where, models, 'group member')
    e = nth(p, INT(0))
    n = 0
    for r in M.backs:
        n += 1
        ctx.part('transition', one_transition, ctx, K, I, M, r, S, W2, T2, e, p, rules, where)
    ctx.need(n, 'transitions of a state')


def one_transition(ctx, K, I, M, r, S, W2, T2, e, p, rules, where):
    when = gshow(r['facts'])
    tu = r['upd'].get(T2, T2)
    if tu == T2:
        ctx.violate('transition', 'no transition for a symbol after a marker, when %s' % when[:300], where)
        return
    if tu[0] != 'mapins' or tu[1] != T2:
        if opaque_in(tu) - {'phi'}:
            ctx.unknown('transition', show(tu)[:200])
        else:
            ctx.violate('transition', 'transitions become %s' % show(tu)[:300], where)
        return
    k, dest = tu[2], tu[3]
    k0 = k
    while k0[0] == 'adt' and len(k0[3]) == 1 and k0[1] != K.sym:
        k0 = k0[3][0]
    if k0 == fld(e, 0, 0):
        ctx.ok('a transition reads the symbol of its items')
    elif opaque_in(k0) - {'phi'}:
        ctx.unknown('transition', 'symbol %s' % show(k)[:200])
    else:
        ctx.violate('transition symbol', 'is %s' % show(k)[:300], where)
    wu = r['upd'].get(W2, W2)
    ws = segs(wu)
    new = [q for q in ws if q != ('sub', W2)]
    h, i = var_at(0), var_at(1)
    bd = ((h, ('items', fld(e, 0, 1))), (i, fld(h, 0, 1)))
    nc = K.next_cursor(i)
    ln = seq_len(K.body(i))
    mv = lambda c: tup(fld(h, 0, 0), set_fld(i, 0, K.i_cur, c))
    lt = compare(sub(nc, ln), INT(-1), LE)
    variants = [[Clause(bd, (), mv(nc))],
                [Clause(bd, guards_of([lt]), mv(nc)), Clause(bd, guards_of([neg(lt)]), mv(ln))],
                [Clause(bd, guards_of([compare(sub(nc, ln), INT(0), LE)]), mv(nc)), Clause(bd, guards_of([neg(compare(sub(nc, ln), INT(0), LE))]), mv(ln))]]
    im = lambda ks: item_models(K, rules, e, ks)
    sm = lambda ks, pairs: self_models(K, rules, pairs, im(ks))
    if new:
        if len(new) != 1 or new[0][0] != 'one' or not is_state(K, new[0][1]):
            ctx.unknown('new state', show(wu)[:200])
            return
        v = new[0][1]
        closed_items(ctx, K, 'items of the next state', fld(fld(v, 0, K.st_items), 0, K.s_items), rules, variants, where, im, sm, I, r['facts'])
        if fld(v, 0, K.st_id) == dest:
            ctx.ok('the transition leads to the new state')
        else:
            ctx.violate('transition', 'leads to %s, the new state is %s' % (show(dest)[:100], show(fld(v, 0, K.st_id))[:100]), where)
        if fld(v, 0, K.st_tr) != EMAP:
            ctx.unknown('new state', 'transitions %s' % show(fld(v, 0, K.st_tr))[:200])
        return
    # an existing state with the same items
    f = [t for t in subterms(dest) if t[0] == 'nth' and t[1][0] == 'flatmap' and dest in (t, fld(t, 0, K.st_id))] + \
        [t for t in subterms(dest) if t[0] == 'src' and t[1][0] == 'flatmap' and dest == fld(t, 0, K.st_id)]
    if not f:
        if opaque_in(dest) - {'phi'}:
            ctx.unknown('transition', 'leads to %s' % show(dest)[:200])
        else:
            ctx.violate('transition', 'leads to %s without a new state, when %s' % (show(dest)[:200], when[:200]), where)
        return
    found = f[0][1]
    cl = clauses(('seq', (('sub', found),)))
    for c in cl:
        x = c.binders[0][0]
        if len(c.binders) != 1 or (c.value != (x if dest != f[0] else fld(x, 0, K.st_id)) and f[0][0] != 'src'):
            ctx.unknown('existing state', c.show()[:300])
            continue
        want = fld(x, 0, K.st_items)
        eqs = [g for g in c.guards if g[0] == 'A' and g[1][0] == 'eq' and g[2] is True]
        other = [t for g in eqs for t in g[1][1:] if t not in (want, fld(want, 0, K.s_items))]
        if len(eqs) != 1 or len(c.guards) != 1 or len(other) != 1:
            if not eqs and not opaque_in(c.guards):
                ctx.violate('existing state', 'taken without having the same items: %s' % c.show()[:300], where)
            elif len(c.guards) != 1 and not opaque_in(c.guards):
                ctx.unknown('existing state', c.show()[:300])
            else:
                ctx.unknown('existing state', c.show()[:300])
            continue
        t = other[0]
        if t[0] == 'adt' and t[1] == K.items:
            t = fld(t, 0, K.s_items)
        if want not in eqs[0][1][1:] and fld(want, 0, K.s_items) not in eqs[0][1][1:]:
            ctx.unknown('existing state', c.show()[:300])
            continue
        closed_items(ctx, K, 'items of the existing state', t, rules, variants, where, im, sm, I, r['facts'])


def accessors(ctx, K):
    """number of symbols, symbol after the marker"""
    r = fns(ctx.prog, 'ItemBody', 'get_symbol_amount', P)
    if len(r) == 1:
        I, st, args, outs = run(ctx, r[0])
        i = I.deref(st, args[0])
        b = K.body(i)
        sp = seq_len(mk_flatmap(b, 1, ((guards_of([neg(K.is_eps(('bv', 1)))]), (('one', ('bv', 1)),)),)))
        for s, k, v in outs:
            if k == 'ret' and same(s, v, sp):
                ctx.ok('number of symbols')
            elif opaque_in(v) or k != 'ret':
                ctx.unknown('number of symbols', show(v)[:200] if k == 'ret' else str(v))
            else:
                bad = None
                for rs, _ in grammars(K, 100, total=True):
                    for h, it in K.v_items(rs)[:20]:
                        m = Model({i: it, K.body(i): it[2][K.i_body], K.cur(i): it[2][K.i_cur]})
                        try:
                            if m.holds(sorted(s.facts(), key=key)) and m.ev(v) != m.ev(sp):
                                bad = it
                        except Undef:
                            pass
                if bad:
                    ctx.violate('number of symbols', 'is %s, e.g. for %r' % (show(v)[:200], bad), site(r[0]))
                else:
                    ctx.unknown('number of symbols', show(v)[:200])
