"""C04: input that matches no token stops the lexer and fails the parse."""
from lexing import *
from driver import Driver


def check(ctx):
    ctx.rule('Lexer::next yields nothing exactly when no text was accepted, and then holds the same characters as before; the automaton starts afresh with every call')
    ctx.rule('is_finished is true exactly when neither given back nor unread characters are left')
    ctx.rule('the parse loop assumes the end of the input only when the lexer is finished, and returns an error when it yields nothing before')
    L_ = Lexing(ctx, ('stop',))
    ctx.part('step', L_.go)
    ctx.part('finished', finished, ctx, L_.sh)
    ctx.part('parse', Driver(ctx, ('lexer',)).go)


def finished(ctx, sh):
    b = fn(ctx, 'Lexer', 'is_finished', L)
    I = interp(ctx)
    st = State()
    args = sym_args(I, st, b)
    a = args[0]
    v = st.mem[a[1]] if a[0] == 'ref' else a
    v = sh.set(sh.set(v, 'A', EMPTY), 'S', EMPTY)
    if a[0] == 'ref':
        st.mem[a[1]] = v
    else:
        args[0] = v
    h = sh.read(v)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    n = 0
    for s, k, r in outs:
        for p, t in itertools.product((False, True), (False, True)):
            q = s.fork()
            if h.P == EMPTY and p:
                continue
            if not (q.assume(compare(seq_len(h.P), INT(1), ONE_UP), p) and q.assume(compare(seq_len(h.T), INT(1), ONE_UP), t)):
                continue
            what = 'is_finished with%s given back, with%s unread' % ('' if p else 'out', '' if t else 'out')
            if k == 'panic':
                ctx.violate(what, 'panics', site(b))
                continue
            n += 1
            d = q.decide(r)
            want = not p and not t
            if d is want:
                ctx.ok(what)
            elif d is not None and not any(opaque_in(f) for f in s.facts()):
                ctx.violate(what, 'is %s' % d, site(b))
            elif left(ctx, sh, args, v, h, s, r, want, what, b):
                pass
            else:
                ctx.unknown(what, '%s, when %s' % (show(r)[:200], facts_of(q)[:200]))
    ctx.need(n >= 2, 'outcomes of is_finished')


def left(ctx, sh, args, v, h, s, r, want, what, b):
    """a small input for which the outcome is another one"""
    fs = ctx.prog.adts[sh.lexer]['v'][0]['f']
    texts = [fld(v, 0, i) for i, f in enumerate(fs) if f['ty'] and f['ty'][0] == 'ref' and ('prim', 'str') in f['ty']]
    for np_, nt, nc in itertools.product((0, 1, 2, 4), (0, 1, 2), (0, 1, 3)):
        if (h.P == EMPTY and np_) or (not np_ and not nt) != want:
            continue
        for c, d, gens in itertools.product((97, 32, 10, 0xe8), (97, 32, 0xe8), (Map({0: 7}), Map())):
            if nc and not gens:
                continue
            cs = [d] * nc + [c] * (np_ + nt)
            ps = [Tup((i, x)) for i, x in enumerate(cs)]
            env = {h.P: Seq(ps[nc:nc + np_]), h.T: Seq(ps[nc + np_:]), h.p0: nc, h.M: gens}
            env.setdefault(h.p1, 0)
            env.update((t, Seq(cs)) for t in texts)
            m = Model({t: x for t, x in env.items() if t != EMPTY}, {'bytelen': lambda x: sum(len(chr(c).encode()) for c in x)})
            try:
                if not m.holds(sorted(s.facts(), key=key)):
                    continue
                got = m.ev(r)
            except (Undef, TypeError, IndexError, AttributeError):
                continue
            if got is not want:
                ctx.violate(what, 'is %s after %r with %r given back and %r unread%s' % (
                    got, chr(d) * nc, chr(c) * np_, chr(c) * nt, '' if gens else ', without tokens'), site(b))
                return True
    return False
