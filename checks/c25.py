"""C25: numbering of automaton states."""
from nfab import *
from nfab import run as call
import nfab
from lr import Lr
from c19 import pop_of, is_state


def check(ctx):
    ctx.rule('token automaton: a new automaton has the start state number 0; adding a state gives it the number of states as number and returns that number; '
             'looking up a number gives the state at that place')
    ctx.rule('parser: numbers of new states count up from the start state 0, one per state put on the work list; transitions lead to the number of a new or '
             'an existing state')
    ctx.rule('a machine is handed out exactly when its start state and all destinations are numbers of its states, with the same states and start state')
    B = Builder(ctx)
    ctx.need(B.methods() >= 2, 'methods of NfaBuilder')
    ctx.part('lookup', lookup, ctx, B)
    ctx.part('NfaBuilder::build', nfa_build, ctx, B)
    ctx.part('other makers', makers, ctx, B)
    K = Lr(ctx)
    ctx.part('CfsmBuilder::build', cfsm_build, ctx, K)
    ctx.part('start number', set_start, ctx, K)
    ctx.part('numbers of the parser states', numbers, ctx, K)


# ------------------------------------------------------------ token automaton
def lookup(ctx, B):
    n = 0
    for cls in ('Nfa', 'NfaBuilder'):
        for b in fns(ctx.prog, cls, 'get_state', L):
            if b['argc'] != 2:
                continue
            n += 1
            I, st, args, outs = call(ctx, b)
            me = I.deref(st, args[0])
            fs = B.f_states if cls == 'NfaBuilder' else B.n_states
            sizes, over = sizes_for(tuple((tuple(s.facts()), v) for s, k, v in outs if k == 'ret'))
            verdict = None
            for sts in B.automata(sizes):
                for i in range(len(sts)) if len(sts) <= 45 else (0, 1, len(sts) - 1):
                    m = Model({fld(me, 0, fs): Seq(B.value(x) for x in sts), args[1]: i})
                    m.fuel += 50 * len(sts)
                    try:
                        hit = [(k, v) for s, k, v in outs if m.holds(sorted(s.facts(), key=key))]
                        if len(hit) != 1:
                            raise Undef('%d rows' % len(hit))
                        k, v = hit[0]
                        got = m.ev(v) if k == 'ret' else 'panic'
                    except Undef as e:
                        verdict = ('unknown', str(e))
                        break
                    if k != 'ret' or norm(got) != norm(B.value(sts[i])):
                        verdict = ('bad', 'state %d of %d gives %r' % (i, len(sts), got))
                        break
                if verdict:
                    break
            if verdict and verdict[0] == 'bad':
                ctx.violate(short(b), verdict[1], site(b))
            elif verdict or over:
                ctx.unknown(short(b), verdict[1] if verdict else 'depends on a number of states above %d' % LARGE)
            else:
                ctx.ok('%s (automata of up to %d states)' % (short(b), sizes[-1]))
    ctx.need(n, 'get_state')


def nfa_build(ctx, B):
    b = fn(ctx, 'NfaBuilder', 'build', L)
    I, st, args, outs = call(ctx, b)
    me = I.deref(st, args[0])
    S, s0 = fld(me, 0, B.f_states), fld(me, 0, B.f_start)
    eps = Adt((B.input, B.v_eps, ()))
    lit = Adt((B.input, B.v_lit, (B.lits[0],)))
    qt = Adt((B.input, B.v_quant, (B.quants[0],)))

    def value(v):
        return v[3][B.n_start], v[3][B.n_states]
    consts = constants(tuple(tuple(s.facts()) for s, k, v in outs))
    models = []
    for n in sorted({1, 2, 3} | {c + d for c in consts for d in (0, 1, 2)}):
        base = [(i, i == n - 1, {}) for i in range(n)]
        for start in (0, n - 1, n, n + 3):
            models.append((base, start))
        for frm in sorted({0, n - 1}):
            for to in sorted({0, n - 1, n, n + 2}):
                for ls in ([eps], [lit], [qt], [eps, qt], [lit, eps]):
                    x = list(base)
                    # one of the labels leads somewhere else, the others to the start
                    x[frm] = (frm, False, {l: ({to} if j == 0 else {0}) for j, l in enumerate(ls)})
                    models.append((x, 0))
                x = list(base)
                x[frm] = (frm, False, {eps: {0, to}})
                models.append((x, 0))
    bad, odd, n = [], None, 0
    for sts, start in models:
        m = Model({S: Seq(B.value(x) for x in sts), s0: start})
        ids = {x[0] for x in sts}
        good = start in ids and all(d in ids for x in sts for ds in x[2].values() for d in ds)
        try:
            hit = [(k, v) for s, k, v in outs if m.holds(sorted(s.facts(), key=key))]
            if len(hit) != 1:
                raise Undef('%d rows' % len(hit))
            k, v = hit[0]
            if (k == 'ret') != good:
                bad.append('%s an automaton with start %d and states %s' % ('hands out' if not good else 'refuses', start, sts))
                break
            if k == 'ret':
                a, c = value(v)
                if m.ev(a) != start or norm(m.ev(c)) != norm(m.ev(S)):
                    bad.append('the automaton handed out has start %r and states %r instead of %r and %r' % (m.ev(a), m.ev(c), start, m.ev(S)))
                    break
            n += 1
        except Undef as e:
            odd = str(e)
            break
    finish(ctx, short(b), bad, odd, n, b)


def finish(ctx, name, bad, odd, n, b):
    if bad:
        ctx.violate(name, bad[0][:600], site(b))
    elif odd:
        ctx.unknown(name, odd)
    else:
        ctx.ok('%s (%d small machines)' % (name, n))


def makers(ctx, B):
    """every function that puts an automaton together"""
    for p, b in sorted(ctx.prog.bodies.items()):
        if b['derived'] or b['closure'] or not makes(b, B.nfa):
            continue
        if b['name'] == 'build' and self_adt(b) == B.b:
            ctx.ok('automata are put together by build')
            continue
        I, st, args, outs = call(ctx, b)
        for s, k, v in outs:
            if k != 'ret':
                continue
            v = I.freeze(s, v)
            if v[0] != 'adt' or v[1] != B.nfa:
                ctx.unknown('maker ' + short(b), show(v)[:200])
                continue
            try:
                m = Model({})
                start = m.ev(v[3][B.n_start])
                ids = [x[2][B.s_id] for x in elems(m.ev(v[3][B.n_states]))]
                if ids != list(range(len(ids))) or start not in ids:
                    ctx.violate('maker ' + short(b), 'makes an automaton with states %s and start %s' % (ids, start), site(b))
                else:
                    ctx.ok('maker ' + short(b))
            except Undef as e:
                ctx.unknown('maker ' + short(b), str(e))


def makes(b, path):
    """the body has an aggregate of the type"""
    return any(has_agg(x, path) for blk in b['blocks'] for x in blk['s'])


def has_agg(x, path):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        if len(x) > 1 and x[0] in ('agg', 'aggregate') and repr(path) in repr(x[1:]):
            return True
        return any(has_agg(y, path) for y in x)
    return False


# ------------------------------------------------------------- parser machine
def cfsm_build(ctx, K):
    b = fn(ctx, 'CfsmBuilder', 'build', P)
    I, st, args, outs = call(ctx, b)
    me = I.deref(st, args[0])
    path = adt(ctx, 'CfsmBuilder')
    f_start = field_by(ctx, path, 'start_state', lambda t: t[0] == 'adt' and t[1] == OPT)
    f_cfsm = field_by(ctx, path, 'cfsm')
    inner = fld(me, 0, f_cfsm)
    S, s0, so = fld(inner, 0, K.c_states), fld(inner, 0, K.c_start), fld(me, 0, f_start)

    def state(i, tr):
        f = [None] * 3
        f[K.st_id], f[K.st_items], f[K.st_tr] = i, ('items', i), Map(tr)
        return Adt((K.state, 0, tuple(f)))
    models = []
    consts = constants(tuple(tuple(s.facts()) for s, k, v in outs))
    for n in sorted({1, 2, 3} | {c + d for c in consts for d in (0, 1, 2)}):
        for start in sorted({0, n - 1, n, n + 2}):
            models.append(([(i, {}) for i in range(n)], start))
        for frm in sorted({0, n - 1}):
            for to in sorted({0, n - 1, n, n + 2}):
                for k in (1, 2):
                    x = [(i, {}) for i in range(n)]
                    x[frm] = (frm, {'a%d' % j: (to if j == 0 else 0) for j in range(k)})
                    models.append((x, 0))
    bad, odd, n = [], None, 0
    for sts, start in models:
        for isset in (True, False):
            m = Model({S: Set(state(*x) for x in sts), s0: start, so: some(start) if isset else none()})
            ids = {x[0] for x in sts}
            good = isset and start in ids and all(d in ids for x in sts for d in x[1].values())
            try:
                hit = [(k, v) for s, k, v in outs if m.holds(sorted(s.facts(), key=key))]
                if len(hit) != 1:
                    raise Undef('%d rows' % len(hit))
                k, v = hit[0]
                if not isset and start in ids and all(d in ids for x in sts for d in x[1].values()):
                    continue       # never happens: the start state is set first
                if (k == 'ret') != good:
                    bad.append('%s a machine with start %d and states %s' % ('hands out' if not good else 'refuses', start, sts))
                    break
                if k == 'ret':
                    a, c = m.ev(v[3][K.c_start]), m.ev(v[3][K.c_states])
                    if a != start or norm(Set(elems(c))) != norm(m.ev(S)):
                        bad.append('the machine handed out has start %r and states %r' % (a, c))
                        break
                n += 1
            except Undef as e:
                odd = str(e)
                break
        if bad or odd:
            break
    finish(ctx, short(b), bad, odd, n, b)


def set_start(ctx, K):
    path = adt(ctx, 'CfsmBuilder')
    f_start = field_by(ctx, path, 'start_state', lambda t: t[0] == 'adt' and t[1] == OPT)
    f_cfsm = field_by(ctx, path, 'cfsm')
    for b in fns(ctx.prog, 'CfsmBuilder', 'set_start_state_id', P):
        I, st, args, outs = call(ctx, b)
        for s, k, v in outs:
            now = I.load(s, args[0])
            got = (fld(now, 0, f_start), fld(fld(now, 0, f_cfsm), 0, K.c_start))
            if k == 'ret' and same(s, got[0], SOME(args[1])) and same(s, got[1], args[1]):
                ctx.ok(short(b))
            elif opaque_in(got):
                ctx.unknown(short(b), show(got)[:200])
            else:
                ctx.violate(short(b), 'sets the start state to %s, checks %s' % (show(got[1])[:100], show(got[0])[:100]), site(b))


def numbers(ctx, K):
    b = fn(ctx, 'Cfsm', 'from_grammar', P)
    I, st, args, outs = call(ctx, b)
    where = site(b)
    rets = [o for o in outs if o[1] == 'ret']
    ctx.need(rets, 'from_grammar returns')
    done = set()
    for s, k, v in rets:
        if v[0] != 'adt' or v[1] != K.cfsm:
            ctx.unknown('machine', show(v)[:200])
            continue
        S = fld(v, 0, K.c_states)
        loops = [lp for lp in I.loops.values() if any(p == S for p, _, _ in lp.phis)]
        if len(loops) != 1:
            ctx.unknown('states', 'states %s' % show(S)[:200])
            continue
        lp = loops[0]
        inits = {p: i for p, i, _ in lp.phis}
        W = [p for p, i in inits.items() if i[0] == 'seq' and i[1] and all(x[0] == 'one' and is_state(K, x[1]) for x in i[1])]
        if len(W) != 1 or inits[S] not in (ESET, EMPTY):
            ctx.unknown('states', 'work list not found')
            continue
        W = W[0]
        first = [fld(x[1], 0, K.st_id) for x in inits[W][1]]
        if first == [INT(0)] and fld(v, 0, K.c_start) == INT(0):
            ctx.ok('the start state is number 0')
        elif opaque_in((first[0], fld(v, 0, K.c_start))):
            ctx.unknown('start state', show((first[0], fld(v, 0, K.c_start)))[:200])
        else:
            ctx.violate('start state', 'the first states have the numbers %s and the start state is %s' % (
                [show(x)[:50] for x in first], show(fld(v, 0, K.c_start))[:100]), where)
        if lp.where in done:
            continue
        done.add(lp.where)
        for row in lp.backs:
            round_(ctx, K, I, lp, row, S, W, inits, where)


def round_(ctx, K, I, lp, row, S, W, inits, where):
    wu = row['upd'].get(W, W)
    for x, rest in pop_of(lp, W):
        inner = [I.loops[e[1]] for e in row['ev'] if e[0] == 'loop' and e[1] in I.loops]
        own = [M for M in inner if any(i == rest for _, i, _ in M.phis)]
        if own or wu == rest:
            break
    else:
        ctx.unknown('states', 'a round of the construction has another form')
        return
    su = row['upd'].get(S, S)
    for q in set_segs(su) if su[0] == 'set' else segs(su):
        if q == ('sub', S):
            continue
        if q[0] != 'one':
            ctx.unknown('kept state', show(su)[:200])
        elif same(row['state'], fld(q[1], 0, K.st_id), fld(x, 0, K.st_id)):
            ctx.ok('a treated state keeps its number')
        elif opaque_in(fld(q[1], 0, K.st_id)) - {'phi'}:
            ctx.unknown('kept state', show(q[1])[:200])
        else:
            ctx.violate('number of a treated state', 'becomes %s' % show(fld(q[1], 0, K.st_id))[:200], where)
    if not own:
        return
    M = own[0]
    mi = {p: i for p, i, _ in M.phis}
    W2 = [p for p, i in mi.items() if i == rest][0]
    for r in M.backs:
        ws = segs(r['upd'].get(W2, W2))
        new = [q for q in ws if q != ('sub', W2)]
        if any(q[0] != 'one' or not is_state(K, q[1]) for q in new):
            ctx.unknown('new states', show(ws)[:200])
            continue
        for j, q in enumerate(new):
            number(ctx, K, I, lp, row, M, r, S, W2, fld(q[1], 0, K.st_id), j, len(new), inits, mi, where)
        if not new:
            quiet(ctx, K, lp, row, M, r, inits, mi, where)
        dests(ctx, K, M, r, S, W2, mi, [fld(q[1], 0, K.st_id) for q in new], where)


def counters(lp, row, M, inits, mi):
    """counters: (inner phi, outer phi)"""
    out = []
    for c, i in mi.items():
        if i in inits and inits[i][0] == 'int':
            out.append((c, i))
    return out


def number(ctx, K, I, lp, row, M, r, S, W2, n, j, total, inits, mi, where):
    name = 'number of a new state'
    when = gshow(r['facts'])[:300]
    for c, o in counters(lp, row, M, inits, mi):
        if not contains(n, lambda t: t == c):
            continue
        d = sub(n, c)
        step = sub(r['upd'].get(c, c), c)
        if d[0] != 'int' or step[0] != 'int':
            break
        base = add(inits[o], d)          # number of the first new state
        if step != INT(total):
            ctx.violate(name, 'is %s while the counter grows by %s for %d new states, when %s' % (show(n), show(step), total, when), where)
        elif base != INT(1 + j):
            ctx.violate(name, 'the first number given out after the start state is %s' % show(base), where)
        elif row['upd'].get(o, o) != c and sub(row['upd'].get(o, o), o)[0] not in ('len', 'lin'):
            ctx.violate(name, 'the counter is not kept between states: %s' % show(row['upd'].get(o, o))[:200], where)
        else:
            ctx.ok('new states are numbered in order')
        return
    # no counter: the numbers in use are those of the kept, the treated and the waiting states
    got, odd = [], None
    for a in (0, 1, 3):
        for w in (0, 1, 2):
            mk = lambda i: Adt((K.state, 0, tuple(i if q == K.st_id else ('?', i) for q in range(3))))
            m = Model({S: Set(mk(i) for i in range(a)), W2: Seq(mk(a + 1 + i) for i in range(w)),
                       fld(nth(W2, INT(0)), 0, K.st_id): a})
            try:
                if m.ev(n) != a + 1 + w + j:
                    got.append('%r with %d kept and %d waiting states' % (m.ev(n), a, w))
            except Undef as e:
                odd = str(e)
    if got:
        ctx.violate(name, 'is %s, when %s' % (got[0], when), where)
    elif odd:
        ctx.unknown(name, '%s: %s' % (odd, show(n)[:200]))
    else:
        ctx.ok('new states are numbered by the number of states')


def quiet(ctx, K, lp, row, M, r, inits, mi, where):
    """no new state: the counter that numbers the states does not move"""
    used = set()
    for r2 in M.backs:
        for p, i in mi.items():
            for q in segs(r2['upd'].get(p, p)) if r2['upd'].get(p, p)[0] == 'seq' else ():
                if q[0] == 'one' and is_state(K, q[1]):
                    used |= {t for t in subterms(fld(q[1], 0, K.st_id))}
    for c, o in counters(lp, row, M, inits, mi):
        if c in used:
            if r['upd'].get(c, c) == c:
                ctx.ok('no number is skipped')
            else:
                ctx.violate('skipped number', 'the counter becomes %s without a new state, when %s' % (show(r['upd'][c]), gshow(r['facts'])[:300]), where)


def dests(ctx, K, M, r, S, W2, mi, new, where):
    for p, i in mi.items():
        u = r['upd'].get(p, p)
        if u[0] != 'mapins' or u[1] != p:
            continue
        d = u[3]
        if d in new:
            ctx.ok('a transition leads to a new state')
            continue
        base = d
        while base[0] in ('fld', 'nth', 'src', 'flatmap', 'found', 'it', 'sorted', 'unord', 'el'):
            base = base[1]
        if d[0] == 'fld' and d[3] == K.st_id and base in (S, W2):
            ctx.ok('a transition leads to an existing state')
        elif d[0] in ('nth', 'src') and base in (S, W2):
            ctx.ok('a transition leads to an existing state')
        elif (opaque_in(d) - {'phi'} or base[0] not in ('phi', 'int', 'sym')) and not astray(K, M, r, S, W2, mi, new, d):
            ctx.unknown('destination', show(d)[:200])
        else:
            ctx.violate('destination', 'a transition leads to %s, which is not the number of a state, when %s' % (show(d)[:200], gshow(r['facts'])[:300]), where)


def astray(K, M, r, S, W2, mi, new, d):
    """the number differs from those of the new states in a small model with
    the given numbers of kept and waiting states"""
    for a in (1, 3):
        for w in (0, 1, 2):
            mk = lambda i: Adt((K.state, 0, tuple(i if q == K.st_id else ('?', i) for q in range(3))))
            env = {S: Set(mk(i) for i in range(a)), W2: Seq(mk(a + 1 + i) for i in range(w))}
            for c, i in mi.items():
                if any(contains(x, lambda t: t == c) for x in new):
                    env[c] = a + 1 + w
            m = Model(env)
            try:
                if not m.holds_so_far(sorted(r['facts'], key=key)):
                    continue
                v = m.ev(d)
                if isinstance(v, int) and v not in set(range(a + 1 + w)) | {m.ev(x) for x in new}:
                    return True
            except Undef:
                pass
    return False
