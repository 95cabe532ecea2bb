"""C13: closures and set computations end."""
import time
from lr import *
from rank import *
from rounds import Rounds, Diverges
from sim import *
import c11
import c12
import c18
import machine
import nfab
import whole


def check(ctx):
    ctx.rule('every loop of the closures and set computations has a lexicographic measure that falls in every row: a sequence gets shorter, a set that is never '
             'made smaller really grows, a number comes nearer to a bound, a flag falls')
    ctx.rule('what is put into a growing set comes from a finite space: numbers made by arithmetic are bounded by the conditions of the row')
    ctx.rule('a work list that is tested against what was taken off it before: everything taken off is kept, and only what is not among the kept is put on it')
    ctx.rule('a loop without such a measure is followed in small finite models; a run that does not end is reported')
    ctx.until = time.time() + 450
    n = 0
    for name, f in (('closure', closure), ('feed', feed), ('can_feed', can_feed), ('compiler', compiler), ('reachable', reachable), ('first', first), ('first_body', first),
                    ('follow_set', follow), ('followed_by_eof', follow), ('from_grammar', machine_of), ('new_slr', table), ('builders', builders)):
        if f is first or f is follow:
            r = fns(ctx.prog, 'Grammar', name, P)
            if len(r) == 1:
                n += 1
                ctx.part(name, f, ctx, name, r[0])
            continue
        n += 1
        ctx.part(name, f, ctx, name)
    ctx.need(n >= 10, 'closures and set computations')


# -------------------------------------------------------------- entry points
def closure(ctx, name):
    S = Sim(ctx)
    b, run_, outs, I = S.closure()

    def models():
        M = machine.Machine(ctx, S)
        for A in autos(M.consts):
            fs, sts = M.fns(A)
            for i in range(A.n):
                r = M.mk_run(i, Map())
                yield A.name, dict(zip(run_[3], r[2])), fs
    decide_loops(ctx, name, I, models)


def autos(consts):
    yield machine.Auto('two empty loops', {0: [(None, [1])], 1: [(None, [0, 1])]}, [1], 'a')
    yield from machine.plain()
    for q in machine.QS[:6]:
        yield machine.Auto('((|a)%s)%s' % (machine.nm(q), machine.nm(q)), {0: [(None, [1])], 1: [(None, [2]), (q, [3])], 2: [(None, [2]), ({'a'}, [2]), (q, [1])]}, [3], 'a')
    yield from machine.counted(machine.QS)


def feed(ctx, name):
    S = Sim(ctx)
    I, runs, outs = c11.feed_summary(ctx, S, fn(ctx, 'NfaSimulator', 'feed', L))
    decide_loops(ctx, name, I, None)


def can_feed(ctx, name):
    b, I, args, outs = c12.run_fn(ctx, Sim(ctx), 'can_feed')
    decide_loops(ctx, name, I, None)


def compiler(ctx, name):
    bs = [b for b in ctx.prog.bodies.values() if 'nfa::compiler' in b['path'] and not b['closure'] and not b['derived']]
    ctx.need(bs, 'compiler of expressions')
    for b in bs:
        I, st, args, outs = nfab.run(ctx, b)
        decide_loops(ctx, short(b), I, None)
        recursion(ctx, short(b), I, b, args, outs)


def recursion(ctx, name, I, b, args, outs):
    """recursive calls are made on parts of what the caller was given"""
    evs = [e for s, k, v in outs for e in s.ev] + [e for X in I.loops.values() for r in X.backs for e in r['ev']]
    n = 0
    for e in evs:
        if e[0] != 'call' or e[1] != b['path']:
            continue
        n += 1
        if not any(part(I, x, a) for x in e[2] for a in args):
            ctx.unknown(name, 'recursive call with %s' % show(e[2])[:200])
            return
    if n:
        ctx.ok('%s: recursive calls are made on parts' % name)


def part(I, x, a):
    seen = 0
    while seen < 30:
        seen += 1
        if x[0] in ('fld', 'nth', 'drop', 'take', 'el', 'it', 'mapget', 'src'):
            x = x[1]
            if x == a:
                return True
        elif x[0] == 'phi':
            i = [M.init(x) for M in I.loops.values() if M.init(x) is not None]
            if len(i) != 1:
                return False
            x = i[0]
        else:
            return False
    return False


def gram_models(G, rules, start, more=None):
    def models():
        for rs, s in list(whole.named(G)) + list(grammars(G, 60, True)):
            F = c18.firsts(G, rs)
            fs = {'first': lambda v, F=F: Set(F[v]), 'first_body': lambda o, b, F=F: Set(c18.first_of(G, F, b))}
            for env in (more(G, rs) if more else [{}]):
                yield ' '.join('%s: %s;' % (k, sorted(v, key=repr)) for k, v in rs.items()), {rules: rs, start: s, **env}, fs
    return models


def of_grammar(ctx, b, natives, at=0):
    G = Lr(ctx)
    I, st, args, outs = run(ctx, b, natives)
    g = I.deref(st, args[at]) if args[at][0] == 'ref' else args[at]
    return G, I, args, fld(g, 0, G.g_rules), fld(g, 0, G.g_start)


def reachable(ctx, name):
    r = fns(ctx.prog, 'Grammar', 'get_reachable_variables', P)
    if len(r) == 1:
        G, I, args, rules, start = of_grammar(ctx, r[0], {})
        decide_loops(ctx, name, I, gram_models(G, rules, start))


def first(ctx, name, b):
    G, I, args, rules, start = of_grammar(ctx, b, {})

    def more(G, rs):
        for v in sorted(rs)[:3]:
            if name == 'first':
                yield {args[1]: v}
            else:
                for w in sorted(rs[v], key=repr)[:2]:
                    yield {args[1]: none(), args[2]: w}
                    yield {args[1]: some(v), fld(args[1], 1, 0): v, args[2]: w}
    decide_loops(ctx, name, I, gram_models(G, rules, start, more))


def follow(ctx, name, b):
    G, I, args, rules, start = of_grammar(ctx, b, first_models(ctx))
    decide_loops(ctx, name, I, gram_models(G, rules, start))


def machine_of(ctx, name):
    G, I, args, rules, start = of_grammar(ctx, fn(ctx, 'Cfsm', 'from_grammar', P), {})
    # the machines of these grammars take at most 21 rounds
    decide_loops(ctx, name, I, gram_models(G, rules, start), 120)


def table(ctx, name):
    bs = [b for b in ctx.prog.bodies.values() if b['name'] == 'new_slr' and b['path'].startswith(P) and not b['closure']]
    if len(bs) != 1:
        raise AnchorError('new_slr found %d times' % len(bs))
    I, st, args, outs = run(ctx, bs[0], {**first_models(ctx), **follow_models(ctx)})
    decide_loops(ctx, name, I, None)


def follow_models(ctx):
    out = {}
    for n in ('follow_set', 'followed_by_eof'):
        for b in fns(ctx.prog, 'Grammar', n, P):
            out[b['path']] = lambda I, st, a, info, n=n: [(st, 'ret', ('app', n))]
    return out


def builders(ctx, name):
    for b in ctx.prog.bodies.values():
        if b['name'] == 'build' and not b['closure'] and self_adt(b):
            I, st, args, outs = nfab.run(ctx, b)
            decide_loops(ctx, short(b), I, None)


# ------------------------------------------------------------------- deciding
def decide_loops(ctx, name, I, models, limit=Rounds.LIMIT):
    R = Rank(I, state_of)
    open_ = []
    good = {}
    for X in final_loops(I):
        used, left = R.order(X)
        why = None
        if left:
            if late(R, X):
                used = [('late', X.phis[0][0])]
            else:
                v = left[0]
                why = 'no progress when %s' % gshow(sorted(v['row']['facts'], key=key))[:300]
        if not why:
            bad = [u for c in used if c[0] == 'set' for u in infinite(R, X, c[1])]
            if bad:
                why = 'elements may come from an infinite space: %s' % show(bad[0])[:200]
        key_ = loop_name(X)
        good.setdefault(key_, True)
        if why:
            good[key_] = False
            open_.append((X, why))
    for k, g in good.items():
        if g:
            ctx.ok('%s: %s ends' % (name, k))
    if not open_:
        return
    found = refuted(ctx, name, I, models, limit)
    for X, why in open_:
        if loop_name(X) not in found:
            ctx.unknown('%s: %s' % (name, loop_name(X)), why)


def loop_name(X):
    """a loop by its function and position, without line numbers"""
    return 'loop %d of %s' % (X.where[1], X.where[0].split('::')[-1]) if not X.where[0].startswith('consumer') else X.where[0] + ' in ' + str(X.where[2]).split(':')[0]


def refuted(ctx, name, I, models, limit):
    found = {}
    if models is None:
        return found
    tops = [X for X in I.loops.values() if X.parent is None]
    end = min(time.time() + 150, ctx.until)
    for what, env, fs in models():
        if time.time() > end:
            break
        Q = Rounds(I, env, fs, end, limit)
        try:
            Q.all(tops)
        except Diverges as d:
            k = loop_name(d.loop)
            if k not in found:
                found[k] = True
                ctx.violate('%s: %s' % (name, k), 'the loop %s for %s' % (d.why, what[:300]), '%s (%s)' % (d.loop.where[0], d.loop.where[2]))
        if found:
            break
    return found


# ------------------------------------------------------------- finite spaces
def infinite(R, X, p):
    """numbers without bound in the elements put into p"""
    out = []
    todo, seen = [p], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        M = R.owner.get(q)
        if M is None or not (M is X or R.inside(M, X)):
            continue
        todo += [x for x in subterms(M.init(q)) if x[0] == 'phi']
        for r in M.backs:
            u = r['upd'].get(q, q)
            if u == q:
                continue
            for e in elements(u):
                out += unbounded(e, tuple(r['facts']), q == p)
            todo += [x for x in subterms(u) if x[0] == 'phi']
    return out


# ------------------------------------------------- tested against what was kept
def late(R, X):
    """a work list W and a set S of the loop X: what is taken off W goes to S,
    and y is put on W only if no element b of S has f(b) = f(y)"""
    for W, i, _ in X.phis:
        for S, j, _ in X.phis:
            if W != S and late_pair(R, X, W, S):
                return True
    return False


def late_pair(R, X, W, S):
    views = []
    last = sub(seq_len(W), INT(1))
    for r in X.backs:
        s = state_of(sorted(r['facts'], key=key))
        if s is None:
            continue
        u = strip(r['upd'].get(S, S))
        if u[0] not in ('set', 'seq') or ('sub', S) not in u[1] or len(u[1]) != 2:
            return False
        kept = [q[1] for q in u[1] if q[0] == 'one']
        if len(kept) != 1:
            return False
        pops = [(e, rest) for e, rest in ((nth(W, INT(0)), drop(W, INT(1))), (nth(W, last), take(W, last)))
                if reaches(R, X, r['upd'].get(W, W), rest)]
        if not pops or not Effects(R, X, r, s, ('none', None)).nonempty(W):
            return False
        pushed = pushes(R, X, r, r['upd'].get(W, W), pops[0][1], s)
        if pushed is None:
            return False
        for y, s2 in pushed:
            fs = keys_absent(s2, R, S, y)
            if not fs:
                return False
            views += [(f, kept[0], pops[0][0], s, y, s2) for f in fs[:1]]
    if not views:
        return False
    for f, x2, x, s, y, s2 in views:
        if not same(s, f(x2), f(x)):
            return False
        if unbounded(f(y), tuple(s2.facts())):
            return False
    return True


def reaches(R, X, t, rest):
    t = strip(t)
    if t == rest:
        return True
    if t[0] == 'seq':
        return any(q[0] == 'sub' and reaches(R, X, q[1], rest) for q in t[1])
    if t[0] == 'phi' and t in R.owner and R.inside(R.owner[t], X):
        return reaches(R, X, R.owner[t].init(t), rest)
    return False


def pushes(R, X, r, t, rest, s):
    """elements put on the list with the facts of their rows; None if unclear"""
    t = strip(t)
    if t == rest:
        return []
    if t[0] == 'seq':
        out = []
        for q in t[1]:
            if q[0] == 'one':
                out.append((q[1], s))
            else:
                p = pushes(R, X, r, q[1], rest, s)
                if p is None:
                    return None
                out += p
        return out
    if t[0] == 'phi' and t in R.owner and R.inside(R.owner[t], X):
        M = R.owner[t]
        out = pushes(R, X, r, M.init(t), rest, s)
        if out is None:
            return None
        for r2 in M.backs:
            s2 = state_of(sorted(r2['facts'], key=key))
            if s2 is None:
                continue
            p = pushes(R, X, r2, r2['upd'].get(t, t), t, s2)
            if p is None:
                return None
            out += p
        return out
    return None


def keys_absent(s, R, S, y):
    """views f with the fact that no b in S has f(b) = f(y)"""
    out = []
    for g in s.facts():
        if g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len' and g[2] == ((0, 0),):
            t = strip(g[1][0][0][1])
        else:
            continue
        if t[0] != 'flatmap' or strip(t[1]) != S or len(t[3]) != 1 or len(t[3][0][0]) != 1:
            continue
        e = t[3][0][0][0]
        bv = ('bv', t[2])
        if e[0] != 'A' or not e[2] or e[1][0] != 'eq':
            continue
        for a, b in ((e[1][1], e[1][2]), (e[1][2], e[1][1])):
            if contains(a, lambda z: z == bv) and not contains(b, lambda z: z == bv) and same(s, subst(a, {bv: y}), b):
                out.append(lambda v, a=a, bv=bv: subst(a, {bv: v}))
    return out
