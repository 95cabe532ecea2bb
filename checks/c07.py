"""C07: quantifiers of a regex against the documented forms."""
from tok import *


def check(ctx):
    ctx.rule('`*`, `+`, `?` give their quantifier; `{n}`, `{n,}`, `{n,m}` give the exact, minimal and ranged quantifier with '
             'the decimal values written; every other brace expression and every number above 2^32-1 is invalid')
    t = Tok(ctx)
    S = t.S
    here = site(t.b)
    is_ = lambda x, ch: compare(x, INT(ord(ch)), EQ0)
    inv = t.v(t.kind, 'Invalid')
    quant = lambda q: t.v(t.kind, 'Quantifier', q)
    rng = lambda n, *a: quant(t.v(t.q, 'Range', t.v(t.qr, n, *a)))
    some = compare(seq_len(S), INT(1), ((0, INF),))
    c0 = t.c(0)
    for ch, n in (('*', 'Asterisk'), ('+', 'Plus'), ('?', 'QuestionMark')):
        g = [some, is_(c0, ch)]
        compare_rows(ctx, t, '`%s`' % ch, t.rows, [('`%s`' % ch, g, quant(t.v(t.q, n)), (S, 1))], g, inv, here)

    dig = lambda x: compare(x, INT(0), ((48, 57),))
    at_least = lambda X, n: compare(seq_len(X), INT(n), ((0, INF),))
    brace = [some, is_(c0, '{')]
    nums = {}
    for r in t.rows:
        for X, n in t.numbers(r).items():
            nums[n.rest] = n

    def fresh(name, X):
        R = sym('rest of ' + name)
        A = sym(name)
        T.DOM[A] = ((0, INF),)
        return Num(None, X, R, compare(A, INT(U32), LE), A, [])

    def spec(r):
        ns = t.numbers(r)
        a = ns.get(S) or fresh('first number', S)
        R1 = a.rest
        b = ns.get(R1) or fresh('second number', R1)
        R2 = b.rest
        g1 = brace + [at_least(S, 2), dig(t.c(1)), a.ok, at_least(R1, 1)]
        return [
            ('`{n}`', g1 + [is_(t.c(0, R1), '}')], rng('Max', a.val), (R1, 1)),
            ('`{n,}`', g1 + [is_(t.c(0, R1), ','), at_least(R1, 2), is_(t.c(1, R1), '}')], rng('Min', a.val), (R1, 2)),
            ('`{n,m}`', g1 + [is_(t.c(0, R1), ','), at_least(R1, 2), dig(t.c(1, R1)), b.ok, at_least(R2, 1), is_(t.c(0, R2), '}')],
             rng('Range', a.val, b.val), (R2, 1)),
        ]

    opened = set()
    for n in nums.values():
        if n.bad:
            ctx.violate('number at %s' % ('the first place' if n.base == S else 'the second place'), '; '.join(n.bad[:3]), here)
        else:
            ctx.ok('digits of a number')
    # loops over characters that are not understood as numbers
    for r in t.rows:
        x = r['s'].fork()
        if not all(x.assume(g) for g in brace) or r['k'] != 'ret':
            continue
        for lid in r['loops']:
            if t.number(t.I.loops[lid]) is None:
                opened.add(str(t.I.loops[lid].where))
    if opened:
        ctx.unknown('range quantifiers', 'loops that are no digit runs: %s' % sorted(opened))
        return
    # a run must stop only at its end, or when the number is too large anyway
    for r in t.rows:
        if r['k'] != 'ret':
            continue
        for n in t.numbers(r).values():
            x = r['s'].fork()
            if x.assume(at_least(n.rest, 1)) and x.assume(dig(t.c(0, n.rest))) and r['tok'] is not None:
                nv = add(add(mul(INT(10), n.val), t.c(0, n.rest)), INT(-48))
                if x.assume(n.ok) and x.assume(compare(nv, INT(U32), LE)):
                    ctx.violate('end of a number', 'a number ends before a digit, when ' + facts_of(x), here)
    compare_rows(ctx, t, 'range quantifiers', t.rows, spec, brace, inv, here, {n.val: sym('number %d' % i) for i, n in enumerate(nums.values())})
