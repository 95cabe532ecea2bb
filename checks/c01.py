"""C01: tokens partition the input."""
from lexing import *
from c05 import whole


def check(ctx):
    ctx.rule('on every path of Lexer::next the text of the token, the characters read ahead, those given back and the unread ones are together the same numbered characters as before; a token takes its text from their front, nothing else does')
    ctx.rule('positions: the start is kept, the end is the start plus the length of the text, the next token starts there; a new lexer numbers the characters of its input from 0')
    L_ = Lexing(ctx, ('text',))
    ctx.part('step', L_.go)
    ctx.part('start', start, ctx, L_.sh)


def start(ctx, sh):
    b = fn(ctx, 'LexerGenerator', 'tokenize', L)
    comp = adt(ctx, 'compiler::Compiler')
    I = interp(ctx, opaque=lambda p: p in ctx.prog.bodies and self_adt(ctx.prog.bodies[p]) == comp)
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    rets = [(s, v) for s, k, v in outs if k == 'ret']
    ctx.need(rets, 'result of tokenize')
    for s, v in rets:
        h = sh.read(v)
        for what, got, ok in (('no text', h.A, h.A == EMPTY), ('nothing read', h.S, h.S == EMPTY), ('nothing given back', h.P, h.P == EMPTY)):
            say(ctx, 'new lexer: ' + what, got, ok, b)
        zero = [x for x in (h.p0, h.p1)]
        say(ctx, 'new lexer: start', h.p0, h.p0 == INT(0), b)
        t = args[-1]
        say(ctx, 'new lexer: characters numbered from 0', h.T, h.T == ('enum', t, INT(0)), b, known=contains(h.T, lambda x: x == t))


def say(ctx, what, got, ok, b, known=False):
    if ok:
        ctx.ok(what)
    elif not opaque_in(got) or known:
        ctx.violate(what, show(got)[:200], site(b))
    else:
        ctx.unknown(what, show(got)[:200])
