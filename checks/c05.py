"""C05: exactly the documented regex grammar is accepted."""
import re
from rex import *
import tok as K

PARSED = 'parsed'


def check(ctx):
    ctx.rule('every path of the regex parser takes the tokens the documented grammar takes, and fails, succeeds or goes on exactly where the grammar does')
    ctx.rule('registering a token parses the whole regex and returns an error exactly when parsing does; neither tokenizer nor parser can panic')
    ctx.notes['taken as given'] = 'what is a valid token (subject of C06 and C07)'
    ctx.part('parser', Rex(ctx, ('accept',)).go)
    ctx.part('text', text, ctx)
    ctx.part('tokenizer', panics, ctx)
    for name in ('with_token', 'with_token_unit', 'with_token_map'):
        ctx.part(name, register, ctx, name)


def text(ctx):
    b, its, t = new_parser(ctx)
    if len(its) != 1:
        return ctx.unknown('text of the regex', '%d character iterators' % len(its))
    X, = its
    r = whole(X, t)
    if r:
        ctx.ok('the whole regex is tokenized')
    elif r is False:
        ctx.violate('text of the regex', 'only %s is tokenized' % show(X)[:200], site(b))
    else:
        ctx.unknown('text of the regex', show(X)[:200])


def whole(X, t):
    """X enumerates all characters of t; None when not known"""
    while X[0] in ('enum', 'app') and (X[0] == 'enum' or X[1] == 'char_indices'):
        X = X[1] if X[0] == 'enum' else X[2]
    if X == t:
        return True
    if not contains(X, lambda x: x == t):
        return None if opaque_in(X) else False
    # functions of std that shorten or change a text
    odd = {y for y in opaque_in(X) if not re.match(r'app (str|String|slice|char)::(trim|strip|to_|split|replace|repeat)', y)}
    return None if odd else False


def panics(ctx):
    t = K.Tok(ctx)
    allowed = {p for X in t.I.loops.values() for p, _, _ in X.phis}
    for r in t.rows:
        if r['k'] != 'panic':
            continue
        s = r['s'].fork()
        if not t.invariants(r, s):
            continue
        if any(opaque_in(g, allowed) for g in s.facts()):
            ctx.unknown('tokenizer', 'may panic: %s, when %s' % (r['v'][:2], facts_of(s)[:300]))
        else:
            ctx.violate('tokenizer', 'panics: %s, when %s' % (r['v'][:2], facts_of(s)[:300]), site(t.b))
    ctx.ok('tokenizer')


def parse_model(ctx):
    b = fn(ctx, 'Parser', 'parse', L)

    def model(I, st, a, info):
        v = I.freeze(st, I.deref(st, a[0]))
        r = ('app', PARSED, v)
        T.ADT_OF.setdefault(r, RES)
        return [(st, 'ret', r)]
    return {b['path']: model}


def register(ctx, name):
    b = fn(ctx, 'LexerGenerator', name, L)
    comp = adt(ctx, 'compiler::Compiler')
    opaque = lambda p: p in ctx.prog.bodies and self_adt(ctx.prog.bodies[p]) == comp
    I = interp(ctx, natives=parse_model(ctx), opaque=opaque)
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    n = 0
    for s, k, v in outs:
        ps = {x for g in s.facts() for x in subterms(g) if x[0] == 'app' and x[1] == PARSED}
        ps |= {x for x in subterms(v) if x[0] == 'app' and x[1] == PARSED} if k == 'ret' else set()
        allowed = {x[1] for g in s.facts() for x in subterms(g) if x[0] == 'app'}
        when = facts_of(s)[:300]
        if k == 'panic':
            if all(not opaque_in(g, {PARSED}) for g in s.facts()):
                n += 1
                ctx.violate('%s: panic' % name, '%s, when %s' % (v[:2], when), site(b))
            else:
                ctx.unknown('%s: panic' % name, '%s, when %s' % (v[:2], when))
            continue
        if len(ps) != 1:
            if not ps and v[0] == 'adt' and v[1] == RES:
                bad = [x for g in s.facts() for x in opaque_in(g)]
                ctx.unknown(name, when) if bad else ctx.violate(name, 'the regex is not parsed, when %s' % when, site(b))
            else:
                ctx.unknown(name, 'parsed %d times' % len(ps))
            continue
        p, = ps
        if v[0] != 'adt' or v[1] != RES:
            ctx.unknown(name, show(v)[:200])
            continue
        t = args[1]
        its = {x[1] for x in subterms(p) if x[0] == 'it'}
        how = {whole(x, t) for x in its}
        if how == {True}:
            ctx.ok('%s parses the regex' % name)
        elif False in how and None not in how:
            ctx.violate('%s: text' % name, 'parses %s' % ', '.join(show(x)[:100] for x in its), site(b))
        else:
            ctx.unknown('%s: text' % name, show(p)[:200])
        for ok in (0, 1):
            k = s.fork()
            if not k.assume(isvar(p, (ok,), uni(RES))):
                continue
            n += 1
            if v[2] == ok:
                ctx.ok('%s: %s' % (name, 'succeeds' if ok == 0 else 'fails'))
            elif any(opaque_in(g, {PARSED}) for g in k.facts()):
                ctx.unknown(name, '%s, when %s' % (show(v)[:100], facts_of(k)[:300]))
            else:
                ctx.violate(name, '%s although the regex is %s, when %s' % ('succeeds' if v[2] == 0 else 'fails', 'valid' if ok == 0 else 'invalid', facts_of(k)[:300]), site(b))
    ctx.need(n >= 2, 'outcomes of %s' % name)
