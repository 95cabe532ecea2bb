"""C16: a grammar contains exactly the rules that were added."""
from gram import *


def check(ctx):
    ctx.rule('builder calls: the rules afterwards are the rules before plus exactly the given (variable, body) pairs, an empty body as the empty production; '
             'setting the start variable changes only the start variable')
    ctx.rule('build returns the start variable and rules of the builder when the start variable is set and no used variable lacks a rule; it refuses everything else')
    G = Gram(ctx)
    n = 0
    for name, kind in (('with_start_variable', 'start'), ('set_start_variable', 'start'), ('with_rule', 'one'), ('add_rule', 'one'),
                       ('with_rules', 'many'), ('add_rules', 'many')):
        r = fns(ctx.prog, 'GrammarBuilder', name, P)
        if len(r) != 1:
            continue
        n += 1
        ctx.part(name, step, ctx, G, r[0], name, kind)
    ctx.need(n >= 3, 'operations of the grammar builder')
    ctx.part('new', new, ctx, G)
    ctx.part('build', build, ctx, G)
    ctx.part('accessors', accessors, ctx, G)


def new(ctx, G):
    b = fn(ctx, 'Grammar', 'builder', P)
    I, st, args, outs = run(ctx, b)
    no_panic(ctx, 'new builder', b, outs)
    for s, k, v in outs:
        if k != 'ret':
            continue
        rules, start = fld(v, 0, G.b_rules), fld(v, 0, G.b_start)
        if rules == EMAP and start == NONE:
            ctx.ok('a new builder is empty')
        elif opaque_in(v):
            ctx.unknown('new builder', show(v))
        else:
            ctx.violate('new builder', 'starts as %s' % show(v), site(b))


def step(ctx, G, b, name, kind):
    I, st, args, outs = run(ctx, b)
    no_panic(ctx, name, b, outs)
    self0 = I.deref(st, args[0])
    rules0, start0 = fld(self0, 0, G.b_rules), fld(self0, 0, G.b_start)
    variable = args[1]
    eps = mk_seq([('one', G.eps)])
    mine = []
    for s, k, v in outs:
        if k != 'ret':
            continue
        new = I.deref(s, args[0]) if args[0][0] == 'ref' else v
        rules, start = fld(new, 0, G.b_rules), fld(new, 0, G.b_start)
        want = SOME(variable) if kind == 'start' else start0
        if start == want:
            ctx.ok('%s: start variable' % name)
        elif opaque_in(start):
            ctx.unknown(name, 'start variable ' + show(start))
        else:
            ctx.violate(name + ' start', 'the start variable becomes %s instead of %s, when %s' % (show(start), show(want), facts_of(s)), site(b))
        base, add = added(rules)
        left = stopped(I, s)
        if base != rules0 and left:
            ctx.violate(name + ' rules', 'stops before all of %s are added, when %s' % (show(left)[:200], facts_of(s)[:300]), site(b))
            return
        fo = first_only(I, base)
        if base != rules0 and (fo or (base[0] == 'mapins' and base[1] == rules0 and base[3][0] == 'getor' and base[3][1] == rules0)):
            ctx.violate(name + ' rules', 'a body is only stored for a new variable: ' + (fo or show(base)[:200]), site(b))
            return
        if base != rules0:
            if opaque_in(base) or base[0] not in ('mapins', 'maprem', 'set', 'sym', 'flatmap'):
                ctx.unknown(name, 'rules ' + show(base)[:200])
            else:
                ctx.violate(name + ' rules', 'the rules become %s, when %s' % (show(rules)[:300], facts_of(s)), site(b))
            return
        for c in add:
            g = merge_guards(c.guards, tuple(sorted(s.facts(), key=key)))
            if g is not None:
                mine.append(Clause(c.binders, g, c.value))
        if kind == 'one' and name.startswith('add'):
            pass
    if kind == 'start':
        if mine:
            ctx.violate(name + ' rules', 'adds a rule', site(b))
        else:
            ctx.ok('%s: rules' % name)
        return
    empty = lambda x: compare(seq_len(x), INT(0), EQ0)
    if kind == 'one':
        body = args[2]
        bd = ()
    else:
        body = var_at(0)
        bd = ((body, norm_iter(args[2])),)
    spec = [Clause(bd, guards_of([empty(body)]), tup(variable, eps)), Clause(bd, guards_of([neg(empty(body))]), tup(variable, body))]
    compare_sets(ctx, '%s: rules' % name, mine, spec, site(b), what='rule', models=lambda ks: step_models(G, rules0, variable, args[2], kind, ks))


def step_models(G, rules, variable, body, kind, sizes):
    for (rs, s), (r2, _) in zip(grammars(G, 60, sizes=sizes), grammars(G, 60, seed=9, sizes=sizes)):
        bodies = sorted(r2.get('A', frozenset()) | {Seq()}, key=repr)
        for bd in bodies if kind == 'one' else [Seq(bodies)]:
            yield Model({rules: rs, variable: s, norm_iter(body): bd, body: bd})


def build_models(G, rules, start, sizes):
    for rs, s in grammars(G, sizes=sizes):
        yield Model({rules: rs, start: some(s)}, {'no rule for': lambda x, rs=rs: x not in rs})


def wrongly(G, rules, start, outs):
    """a grammar that is built or refused although it should not be"""
    for rs, s in grammars(G):
        good = s in rs and all(x[2][0] in rs for bs in rs.values() for w in elems(bs) for x in elems(w) if x[1] == G.v_v)
        m = Model({rules: rs, start: some(s)})
        try:
            hit = [k for q, k, v in outs if m.holds(sorted(q.facts(), key=key))]
        except (Undef, TypeError, IndexError, AttributeError):
            continue
        if len(hit) == 1 and (hit[0] == 'ret') != good:
            return '%s the grammar %s with start variable %s' % ('builds' if not good else 'refuses', rs, s)
    return None


def to_the_end(I, g):
    """that a loop went to its end, where another fact says what that means"""
    if g[0] != 'I' or g[2] != EQ0 or len(g[1]) != 1 or g[1][0][0][0] != 'len':
        return False
    p = g[1][0][0][1]
    return p[0] == 'phi' and p[1] in I.loops and getattr(I.loops[p[1]], 'hit', None) == p


def build(ctx, G):
    b = fn(ctx, 'GrammarBuilder', 'build', P)
    I, st, args, outs = run(ctx, b)
    rules, start = fld(args[0], 0, G.b_rules), fld(args[0], 0, G.b_start)
    sv = fld(start, 1, 0)
    x, body, s_ = var_at(0), var_at(1), var_at(2)
    v = fld(s_, G.v_v, 0)
    bd = ((x, ('items', rules)), (body, fld(x, 0, 1)), (s_, body))
    spec = [Clause((), (('A', no_key(sv), True),), UNIT),
            Clause(bd, guards_of([G.is_var(s_), no_key(v)]), UNIT)]
    rets = [o for o in outs if o[1] == 'ret']
    if not rets:
        ctx.violate('build', 'never returns a grammar', site(b))
        return
    for s, k, val in rets:
        cl, other = emptiness(s.facts(), rules)
        has = [g for g in other if g == ('V', start, (1,), uni(OPT)) or (g[0] == 'V' and g[1] == start and g[2] == (1,))]
        other = [g for g in other if g not in has and not to_the_end(I, g)]
        if not has:
            ctx.violate('build without start', 'a grammar is built without a start variable, when ' + facts_of(s), site(b))
        else:
            ctx.ok('a start variable is needed')
        if fld(val, 0, G.g_start) == sv and fld(val, 0, G.g_rules) == rules:
            ctx.ok('the grammar has the start variable and rules of the builder')
        elif opaque_in(val):
            ctx.unknown('build', show(val)[:200])
        else:
            ctx.violate('built grammar', 'is %s, when %s' % (show(val)[:300], facts_of(s)), site(b))
        if other:
            bad = wrongly(G, rules, start, outs)
            if bad:
                ctx.violate('refused grammars', bad, site(b))
                return
            ctx.unknown('build', 'depends on ' + gshow(other)[:300])
        else:
            compare_sets(ctx, 'refused grammars', cl, spec, site(b), ('no rule for',), what='case', models=lambda ks: build_models(G, rules, start, ks))


def accessors(ctx, G):
    for name in ('get_start_variable', 'get_rule_bodies', 'get_start_variable_rules'):
        r = fns(ctx.prog, 'Grammar', name, P)
        if len(r) != 1:
            continue
        b = r[0]
        I, st, args, outs = run(ctx, b)
        rules, start = fld(args[0], 0, G.g_rules), fld(args[0], 0, G.g_start)
        for s, k, v in outs:
            if k != 'ret':
                if name == 'get_start_variable_rules' and canon_key(sorted(s.facts(), key=key)[0], rules) == ('A', no_key(start), True):
                    continue
                ctx.violate(name, 'panics when ' + facts_of(s), site(b))
                continue
            want = {'get_start_variable': start,
                    'get_rule_bodies': mapget(rules, args[1]) if len(args) > 1 else None,
                    'get_start_variable_rules': tup(start, fld(mapget(rules, start), 1, 0))}[name]
            if same(s, v, want):
                ctx.ok(name)
            elif opaque_in(v):
                ctx.unknown(name, show(v)[:200])
            else:
                ctx.violate(name, 'gives %s instead of %s' % (show(v)[:200], show(want)), site(b))
