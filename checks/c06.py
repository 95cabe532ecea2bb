"""C06: characters and escapes of a regex against the documented table."""
from tok import *

OPS = {'[': 'LeftBracket', ']': 'RightBracket', '(': 'LeftParen', ')': 'RightParen', '^': 'Carret', '|': 'Vertical', '-': 'Minus'}
CLS = {'w': 'Word', 'W': 'NonWord', 'd': 'Digit', 'D': 'NonDigit', 's': 'Whitespace', 'S': 'NonWhitespace'}
CTRL = {'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '0': 0}
SYM = '^$\\.*+?()[]|/{}-'


def check(ctx):
    ctx.rule('one step of the tokenizer turns the characters left into the token of the documented table and consumes '
             'exactly the characters of that token; every other escape is invalid')
    t = Tok(ctx)
    S = t.S
    here = site(t.b)
    is_ = lambda x, ch: compare(x, INT(ord(ch)), EQ0)
    ins = lambda x, cs: compare(x, INT(0), iv_norm(tuple(iv_pt(ord(c))[0] for c in cs)))
    inv = t.v(t.kind, 'Invalid')
    match = lambda v: t.v(t.kind, 'Match', v)
    n_at_least = lambda n: compare(seq_len(S), INT(n), ((0, INF),))
    c0, c1, c2 = t.c(0), t.c(1), t.c(2)
    some = n_at_least(1)

    # end of the regex
    for r in t.rows:
        x = r['s'].fork()
        if not x.assume(compare(seq_len(S), INT(0), EQ0)):
            continue
        if r['k'] == 'ret' and r['v'] == NONE:
            ctx.ok('end of the regex')
        else:
            ctx.violate('end of the regex', 'gives %s' % show(r['v']), here)

    special = '\\.[]()^|-*+?{'
    plain = neg(ins(c0, special))
    compare_rows(ctx, t, 'plain characters', t.rows, [('a character', [plain, some], match(c0), (S, 1))], [some, plain], inv, here)
    singles = [('`%s`' % ch, t.v(t.kind, 'Operator', t.v(t.op, n)), ch) for ch, n in OPS.items()]
    singles.append(('`.`', t.v(t.kind, 'Class', t.v(t.cls, 'Wildcard')), '.'))
    for label, k, ch in singles:
        g = [some, is_(c0, ch)]
        compare_rows(ctx, t, label, t.rows, [(label, g, k, (S, 1))], g, inv, here)

    esc = [some, is_(c0, '\\')]
    two = esc + [n_at_least(2)]
    for ch, n in CLS.items():
        g = two + [is_(c1, ch)]
        compare_rows(ctx, t, 'escape \\%s' % ch, t.rows, [('`\\%s`' % ch, g, t.v(t.kind, 'Class', t.v(t.cls, n)), (S, 2))], g, inv, here)
    for ch, n in CTRL.items():
        g = two + [is_(c1, ch)]
        compare_rows(ctx, t, 'escape \\%s' % ch, t.rows, [('`\\%s`' % ch, g, match(INT(n)), (S, 2))], g, inv, here)
    g = two + [ins(c1, SYM)]
    compare_rows(ctx, t, 'escaped symbols', t.rows, [('an escaped symbol', g, match(c1), (S, 2))], g, inv, here)

    # control characters
    g = two + [is_(c1, 'c')]
    letter = compare(c2, INT(0), ((65, 90), (97, 122)))
    compare_rows(ctx, t, 'escape \\c', t.rows, [
        ('`\\c` and a letter', g + [n_at_least(3), letter], match(('mod', c2, INT(32))), (S, 3))], g, inv, here)

    # code points
    hexd = lambda k: compare(t.c(k), INT(0), HEX)

    def value(ks):
        v = INT(0)
        for k in ks:
            v = add(mul(INT(16), v), ('digit', t.c(k), 16))
        return v
    for k in range(2, 9):
        T.DOM.setdefault(('digit', t.c(k), 16), ((0, 15),))

    def valid(v):
        return compare(v, INT(0), ((0, 0xD7FF), (0xE000, 0x10FFFF)))
    g = two + [is_(c1, 'x')]
    compare_rows(ctx, t, 'escape \\x', t.rows, [
        ('`\\xHH`', g + [n_at_least(4), hexd(2), hexd(3)], match(value([2, 3])), (S, 4))], g, inv, here)
    g = two + [is_(c1, 'u')]
    four = g + [n_at_least(6)] + [hexd(k) for k in range(2, 6)]
    b4 = g + [n_at_least(8), is_(c2, '{')] + [hexd(k) for k in range(3, 7)] + [is_(t.c(7), '}')]
    b5 = g + [n_at_least(9), is_(c2, '{')] + [hexd(k) for k in range(3, 8)] + [is_(t.c(8), '}')]
    compare_rows(ctx, t, 'escape \\u', t.rows, [
        ('`\\uHHHH`', four + [valid(value(range(2, 6)))], match(value(range(2, 6))), (S, 6)),
        ('`\\u{HHHH}`', b4 + [valid(value(range(3, 7)))], match(value(range(3, 7))), (S, 8)),
        ('`\\u{HHHHH}`', b5 + [valid(value(range(3, 8)))], match(value(range(3, 8))), (S, 9))], g, inv, here)

    # everything else
    known = SYM + ''.join(CLS) + ''.join(CTRL) + 'cxu'
    other = two + [neg(ins(c1, known))]
    compare_rows(ctx, t, 'other escapes', t.rows, [], other, inv, here)
    compare_rows(ctx, t, 'unfinished escape', t.rows, [], esc + [compare(seq_len(S), INT(1), EQ0)], inv, here)
