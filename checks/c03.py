"""C03: the first declared token wins ties, its own generator makes the kind."""
from lexing import *
from c05 import parse_model, PARSED

NEW, ADD, COMPILE = 'new_final', 'add_expression', 'compile'


def check(ctx):
    ctx.rule('with every acceptance Lexer::next takes the least final state of the automaton, and the kind is made by the generator registered for that state, called (if it takes a text) with the text of the token')
    ctx.rule('registering a token asks the compiler for a new final state, compiles the regex to it and binds the generator to it; new final states have growing numbers; the lexer gets the same generators')
    ctx.notes['taken as given'] = 'the automaton is in the final state of a token exactly when its regex matches (subject of C10 to C12)'
    ctx.part('step', Lexing(ctx, ('kind',)).go)
    ctx.part('numbers', numbers, ctx)
    for name in ('with_token', 'with_token_unit', 'with_token_map'):
        ctx.part(name, register, ctx, name)
    ctx.part('tokenize', handed_over, ctx)


def compiler(ctx):
    return adt(ctx, 'compiler::Compiler')


def gen_fields(ctx):
    g = adt(ctx, 'LexerGenerator')
    c = field_by(ctx, g, 'fsm_compiler', lambda t: t == ('adt', compiler(ctx), ()))
    m = field_by(ctx, g, 'tokens', lambda t: t[0] == 'adt' and t[1].endswith('Map'))
    return g, c, m


def numbers(ctx):
    """a new final state is final, is remembered, and has the next number"""
    b = fn(ctx, 'Compiler', NEW, L)
    st_adt = adt(ctx, 'nfa::model::State')
    I = interp(ctx)
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    pre = st.mem[args[0][1]]
    olds = [x for x in subterms(pre) if x[0] == 'sym' and 'states' in x[1]]
    ctx.need(len(olds) == 1, 'states of the compiler')
    old, = olds
    f_id = field_by(ctx, st_adt, 'id', lambda t: t == ('prim', 'usize'))
    f_fin = field_by(ctx, st_adt, 'fin', lambda t: t == ('prim', 'bool'))
    f_final = field_by(ctx, compiler(ctx), 'final_state', lambda t: t == ('prim', 'usize'))
    for s, k, v in outs:
        if k != 'ret':
            ctx.violate('new_final: panic', facts_of(s)[:200], site(b))
            continue
        post = s.mem[args[0][1]]
        new = [x for x in subterms(post) if x[0] == 'seq' and x[1] and x[1][0] == ('sub', old)]
        if len(new) != 1 or len(new[0][1]) != 2 or new[0][1][1][0] != 'one':
            odd = opaque_in(post)
            (ctx.unknown if odd else lambda a, t: ctx.violate(a, t, site(b)))('new_final: state', 'states %s' % show(post)[:200])
            continue
        x = new[0][1][1][1]
        say(ctx, 'new_final: number', fld(x, 0, f_id), v, b, s)
        say(ctx, 'new_final: next number', v, seq_len(old), b, s)
        say(ctx, 'new_final: final', fld(x, 0, f_fin), TRUE, b, s)
        say(ctx, 'new_final: remembered', fld(post, 0, f_final), v, b, s)


def say(ctx, what, got, want, b, s, allowed=()):
    if got == want or same(s, got, want):
        ctx.ok(what)
    elif opaque_in(got, allowed):
        ctx.unknown(what, '%s, not %s' % (show(got)[:200], show(want)[:200]))
    else:
        ctx.violate(what, '%s instead of %s' % (show(got)[:200], show(want)[:200]), site(b))


def names(ctx):
    r = {}
    for n in (NEW, ADD, COMPILE):
        r[n] = fn(ctx, 'Compiler', n, L)['path']
    return r


def setup(ctx, name):
    b = fn(ctx, 'LexerGenerator', name, L)
    comp = compiler(ctx)
    I = interp(ctx, natives=parse_model(ctx), opaque=lambda p: p in ctx.prog.bodies and self_adt(ctx.prog.bodies[p]) == comp)
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    return b, I, st, args, outs


def register(ctx, name):
    b, I, st, args, outs = setup(ctx, name)
    g, fc, fm = gen_fields(ctx)
    N = names(ctx)
    slf = args[0]
    c0, m0 = fld(slf, 0, fc), fld(slf, 0, fm)
    variant = 'Map' if name.endswith('map') else 'Unit'
    tkg = adt(ctx, 'TokenKindGenerator')
    vi, = var(ctx, tkg, variant)
    allowed = set(N.values()) | {PARSED}
    n = 0
    for s, k, v in outs:
        if k != 'ret' or v[0] != 'adt' or v[1] != RES or v[2] != 0:
            continue
        n += 1
        w = v[3][0]
        comp, toks = fld(w, 0, fc), fld(w, 0, fm)
        odd = {y for y in opaque_in(comp, allowed) | opaque_in(toks, allowed) if y != 'post'}
        bad = (lambda key, t: ctx.unknown(key, t)) if odd else (lambda key, t: ctx.violate(key, t, site(b)))
        if not (toks[0] == 'mapins' and toks[1] == m0):
            bad('%s: generators' % name, '%s' % show(toks)[:200])
            continue
        key_, gen = toks[2], toks[3]
        want = ('app', N[NEW], c0)
        if key_ == want:
            ctx.ok('%s: bound to the new final state' % name)
        else:
            bad('%s: state of the generator' % name, '%s instead of %s' % (show(key_)[:200], show(want)[:200]))
        asts = {x for x in subterms(comp) if x[0] == 'fld' and x[1][0] == 'app' and x[1][1] == PARSED}
        want = [('post', N[ADD], 0, (('post', N[NEW], 0, (c0,)), a)) for a in asts]
        if comp in want:
            ctx.ok('%s: compiled to the new final state' % name)
        else:
            bad('%s: compiler' % name, show(comp)[:300])
        if gen[0] != 'adt' or gen[1] != tkg:
            ctx.unknown('%s: generator' % name, show(gen)[:200])
        elif gen[2] != vi:
            bad('%s: generator' % name, 'as %s' % show(gen)[:200])
        else:
            generator(ctx, I, s, name, gen[3][0], args[-1], b)
    ctx.need(n, 'successful registration by %s' % name)


def generator(ctx, I, s, name, f, given, b):
    """the generator is the given function, or yields the given kind"""
    if f == given:
        if not name.endswith('unit'):
            return ctx.ok('%s: its own generator' % name)
    if not name.endswith('unit'):
        return ctx.unknown('%s: generator' % name, show(f)[:200])
    outs = I.call_closure(s.fork(), f, [])
    for s2, k, v in outs:
        if k == 'ret' and v == given:
            ctx.ok('%s: its own kind' % name)
        elif k == 'ret' and not opaque_in(v):
            ctx.violate('%s: generator' % name, 'yields %s' % show(v)[:200], site(b))
        else:
            ctx.unknown('%s: generator' % name, '%s %s' % (k, show(v)[:200] if k == 'ret' else v[:2]))


def handed_over(ctx):
    b, I, st, args, outs = setup(ctx, 'tokenize')
    g, fc, fm = gen_fields(ctx)
    sh = Shape(ctx)
    N = names(ctx)
    n = 0
    for s, k, v in outs:
        if k != 'ret':
            continue
        n += 1
        say(ctx, 'tokenize: generators', sh.get(v, 'M'), fld(args[0], 0, fm), b, s)
        if sh.found['F']:
            say(ctx, 'tokenize: automaton', sh.get(v, 'F'), ('app', N[COMPILE], fld(args[0], 0, fc)), b, s, set(N.values()))
    ctx.need(n, 'result of tokenize')
