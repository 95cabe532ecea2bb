"""C08: LiteralKind::contains against the documented character sets."""
import itertools, time
from common import *
from model import Seq, Adt, Undef
from rounds import Diverges
from whole import result

ALPHA = ('char::is_alphabetic',)
WHITE = ('char::is_whitespace',)
VOCAB = ('char::is_alphabetic', 'char::is_whitespace')


def class_rows(ctx, cls, k, c):
    """spec: (guard terms) per class under which c belongs to it"""
    v = lambda n: isvar(k, var(ctx, cls, n), uni(cls))
    al = ('app', 'char::is_alphabetic', c)
    wh = ('app', 'char::is_whitespace', c)
    dg = compare(c, INT(0), ((48, 57),))
    return [
        ('Wildcard', [v('Wildcard')]),
        ('Word', [v('Word'), al]),
        ('NonWord', [v('NonWord'), neg(al)]),
        ('Whitespace', [v('Whitespace'), wh]),
        ('NonWhitespace', [v('NonWhitespace'), neg(wh)]),
        ('Digit', [v('Digit'), dg]),
        ('NonDigit', [v('NonDigit'), neg(dg)]),
    ]


def guards(terms):
    g = ()
    for t in terms:
        x = term_guards(t)
        if x is None:
            return None
        g = merge_guards(g, x)
        if g is None:
            return None
    return g


def check(ctx):
    ctx.rule('contains(Match m, c) = (m = c); contains(Class k, c) = c in the documented set of k; '
             'contains(Group{negated, items}, c) = negated xor (some item contains c); ranges include both ends')
    lit = adt(ctx, 'LiteralKind')
    lit = lit if not lit.endswith('GroupedLiteralKind') else None
    ctx.need(lit, 'LiteralKind')
    grp = adt(ctx, 'GroupedLiteralKind')
    cls = adt(ctx, 'ClassKind')
    b = fn(ctx, 'LiteralKind', 'contains', argc=2)
    I = interp(ctx)
    st = State()
    me, c = sym('self'), sym('c')
    T.ADT_OF[me] = lit
    I.type_dom(('prim', 'char'), c)
    outs = I.call_body(st, b, [me, c], ())
    outs = split_bool(I, outs)
    ctx.add_interp(I)

    vm, = var(ctx, lit, 'Match')
    vc, = var(ctx, lit, 'Class')
    vg, = var(ctx, lit, 'Group')
    fneg = ctx.prog.field(lit, 'negated', vg)
    flits = ctx.prog.field(lit, 'literals', vg)
    negated = fld(me, vg, fneg)
    items = fld(fld(me, vg, flits), 0, 0)
    for s, k, v in outs:
        if k == 'panic':
            ctx.violate('contains panics', 'panic %s when %s' % (v, facts_of(s)), site(b))

    # literal and class
    spec_true = {'Match': [isvar(me, (vm,), uni(lit)), compare(fld(me, vm, 0), c, EQ0)]}
    for n, g in class_rows(ctx, cls, fld(me, vc, 0), c):
        spec_true['Class ' + n] = [isvar(me, (vc,), uni(lit))] + g
    bases = {'Match': [isvar(me, (vm,), uni(lit))]}
    for n in ('Wildcard', 'Word', 'NonWord', 'Whitespace', 'NonWhitespace', 'Digit', 'NonDigit'):
        bases['Class ' + n] = [isvar(me, (vc,), uni(lit)), isvar(fld(me, vc, 0), var(ctx, cls, n), uni(cls))]
    T.DOM.setdefault(fld(me, vm, 0), ((0, 0x10FFFF),))
    for n, base in bases.items():
        compare_pred(ctx, I, 'contains ' + n, b, rows_state(*base), outs, [guards(spec_true[n])], VOCAB)

    # groups: the item predicate
    bv = sym('item')
    T.ADT_OF[bv] = grp
    im, = var(ctx, grp, 'Match')
    ic, = var(ctx, grp, 'Class')
    ir, = var(ctx, grp, 'Range')
    for i in ((im, 0), (ir, 0), (ir, 1)):
        T.DOM.setdefault(fld(bv, *i), ((0, 0x10FFFF),))
    spec_item = [guards([isvar(bv, (im,), uni(grp)), compare(fld(bv, im, 0), c, EQ0)]),
                 guards([isvar(bv, (ir,), uni(grp)), compare(fld(bv, ir, 0), c, LE), compare(c, fld(bv, ir, 1), LE)])]
    spec_item += [guards([isvar(bv, (ic,), uni(grp))] + g) for _, g in class_rows(ctx, cls, fld(bv, ic, 0), c)]
    count = sym('matching items')
    T.DOM[count] = ((0, INF),)
    canon = {}
    decided = True
    base = rows_state(isvar(me, (vg,), uni(lit)))
    for s, k, v in outs:
        for g in s.facts():
            for t in subterms(g):
                if t[0] == 'len' and t[1][0] == 'flatmap' and t not in canon:
                    f = t[1]
                    if f[1] != items:
                        continue
                    rows = fm_rows(f, bv)
                    op = opaque_in(tuple(rows), VOCAB)
                    much, less = pred_eq(I, f[1], rows, spec_item)
                    if not much and not less:
                        canon[t] = count
                        ctx.ok('group items')
                    else:
                        decided = False
                        txt = '; '.join(['matches although it should not: item/character with ' + facts_of(x) for x in much[:3]] +
                                        ['does not match although it should: item/character with ' + facts_of(x) for x in less[:3]])
                        if op:
                            ctx.unknown('group items', 'uninterpreted %s' % sorted(op))
                        else:
                            ctx.violate('group item predicate', txt, site(b))
    if not decided:
        return
    outs2 = []
    for s, k, v in outs:
        s = s.fork()
        I.subst_state(s, canon)
        outs2.append((s, k, v))
    some = compare(count, INT(1), ((0, INF),))
    spec = [guards([isvar(me, (vg,), uni(lit)), negated, neg(some)]), guards([isvar(me, (vg,), uni(lit)), neg(negated), some])]
    compare_pred(ctx, I, 'contains Group', b, base, outs2, spec, VOCAB,
                 lambda: groups(ctx, I, outs, me, c, (lit, vg, fneg, flits), (grp, im, ic, ir), cls))


def groups(ctx, I, outs, me, c, L, G, cls):
    """a small group for which the outcome is another one"""
    lit, vg, fneg, flits = L
    grp, im, ic, ir = G
    w = ctx.prog.adts[lit]['v'][vg]['f'][flits]['ty'][1]
    m = lambda x: (Adt((grp, im, (ord(x),))), lambda y: y == x)
    r = lambda x, y: (Adt((grp, ir, (ord(x), ord(y)))), lambda z: x <= z <= y)
    k = lambda n, f: (Adt((grp, ic, (Adt((cls, var(ctx, cls, n)[0], ())),))), f)
    some = [m('a'), m('b'), r('b', 'd'), r('d', 'b'), k('Digit', lambda y: y in '0123456789'), k('Whitespace', str.isspace)]
    for items in [()] + [(x,) for x in some] + list(itertools.permutations(some, 2)) + list(itertools.permutations(some[:4], 3)):
        for neg_ in (False, True):
            f = [None] * 2
            f[fneg], f[flits] = neg_, Adt((w, 0, (Seq(x for x, _ in items),)))
            for ch in 'abce5 ':
                try:
                    kind, v = result(I, outs, {me: Adt((lit, vg, tuple(f))), c: ord(ch)}, {}, time.time() + 5, 50)
                except (Undef, Diverges, TypeError, IndexError, AttributeError):
                    continue
                if kind != 'ret' or v is not (neg_ != any(g(ch) for _, g in items)):
                    return '%s for %r in a%s group of %s' % (v if kind == 'ret' else 'panics', ch, ' negated' if neg_ else '', list(x for x, _ in items))
    return None


def compare_pred(ctx, I, name, b, base, outs, spec, vocab, models=None):
    """the rows returning true, restricted to base, are exactly spec"""
    true, false, odd = [], [], set()
    for s, k, v in outs:
        if k != 'ret':
            continue
        m = meet(base, s)
        if m is None:
            continue
        odd |= opaque_in(tuple(s.facts()), vocab)
        (true if v == TRUE else false).append(m)
    bad = []
    for m in true:
        for x in covers(m, spec):
            bad.append('returns true when %s' % facts_of(x))
    for m in false:
        for g in spec:
            x = m.fork()
            if assume_facts(x, g):
                bad.append('returns false when %s' % facts_of(x))
    if not true and not false:
        ctx.unknown(name, 'no outcome')
    elif not bad:
        ctx.ok(name)
    elif odd and models and (x := models()):
        ctx.violate(name, x, site(b))
    elif odd:
        ctx.unknown(name, 'uninterpreted %s' % sorted(odd))
    else:
        ctx.violate(name, '; '.join(bad[:4]), site(b))
