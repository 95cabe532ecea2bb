"""Summaries of whole set computations in small grammars.

The summary of a function (its loops as rows, its returned value) is evaluated
in small finite grammars and compared with the rule.  This decides where the
loops have a form the local rules do not know.  Only a difference is reported;
agreement proves nothing about other grammars."""
import time
from lr import *
from rounds import Rounds, Diverges
import c18

BUDGET = 60


def named(G):
    """left, right and self recursion, cycles, bodies that start with empty symbols"""
    V = lambda x: Adt((G.sym, G.v_v, (x,)))
    Tm = lambda x: Adt((G.sym, G.v_t, (x,)))
    E = Adt((G.sym, G.v_e, ()))
    mk = lambda d: Map((k, Set(Seq(b) for b in v)) for k, v in d.items())
    yield mk({'A': [[V('A')]]}), 'A'
    yield mk({'A': [[V('A'), Tm('x')], [Tm('y')]]}), 'A'
    yield mk({'A': [[Tm('x'), V('A')], [E]]}), 'A'
    yield mk({'A': [[E, V('A'), Tm('x')], [Tm('y')]]}), 'A'
    yield mk({'A': [[V('B')]], 'B': [[V('A')], [Tm('x')]]}), 'A'
    yield mk({'A': [[V('B'), V('A')], [E]], 'B': [[V('A'), V('B')], [Tm('b')]]}), 'A'
    yield mk({'A': [[V('B'), Tm('b')]], 'B': [[E, E, V('C')]], 'C': [[V('A')], [E]]}), 'A'
    yield mk({'A': [[Tm('('), V('A'), Tm(')'), V('A')], [E]]}), 'A'
    # expressions; a chain of variables that can be empty; a symbol before and after empty symbols
    yield mk({'E': [[V('E'), Tm('+'), V('T')], [V('T')]], 'T': [[V('T'), Tm('*'), V('F')], [V('F')]], 'F': [[Tm('('), V('E'), Tm(')')], [Tm('i')]]}), 'E'
    yield mk({'S': [[V('A'), V('B'), V('C'), V('D')]], 'A': [[Tm('a')], [E]], 'B': [[Tm('b')], [E]], 'C': [[Tm('c')], [E]], 'D': [[Tm('d')], [E]]}), 'S'
    yield mk({'S': [[V('A'), E, Tm('x'), E]], 'A': [[E, Tm('a')], [Tm('b'), E], [E, E]]}), 'S'
    yield mk({'S': [[V('A'), Tm('x')], [Tm('y'), V('A')]], 'A': [[Tm('a'), V('A')], [Tm('b')]], 'U': [[V('A'), Tm('u')]]}), 'S'
    yield mk({'S': [[V('L'), Tm('='), V('R')], [V('R')]], 'L': [[Tm('*'), V('R')], [Tm('i')]], 'R': [[V('L')]]}), 'S'
    yield mk({'S': [[V('S'), V('S')], [Tm('a')]]}), 'S'
    yield mk({'S': [[V('A')], [V('B')]], 'A': [[Tm('a')]], 'B': [[Tm('a')]]}), 'S'


def told(rs):
    return ' '.join('%s: %s;' % (k, ' | '.join(sorted(map(repr, v)))) for k, v in rs.items())


def consts(I, outs):
    ts = tuple((tuple(s.facts()), v) for s, k, v in outs)
    ts += tuple((tuple(r['facts']), tuple(r['upd'].items())) for X in I.loops.values() for r in X.backs)
    return constants(ts)


def grams(G, I, outs, n):
    yield from named(G)
    yield from grammars(G, n, True, sizes=consts(I, outs))


def result(I, outs, env, fs, end, limit):
    """(kind, value) the summary gives in a model; Undef when it has none"""
    Q = Rounds(I, env, fs, end, limit)
    env, done, why = dict(env), {}, None
    todo = [X for X in I.loops.values() if X.parent is None]
    rows = [(s, k, v, sorted(s.facts(), key=key)) for s, k, v in outs]
    while True:
        # a row that speaks of a later loop is not taken when this one is left early
        later = {X.id for X in todo}
        hit = []
        for s, k, v, facts in rows:
            if not Q.model(env).holds_so_far(facts):
                continue
            try:
                if tops(I, (tuple(facts), v)) & later:
                    continue
                # a row that leaves from within a loop speaks of the loops inside it
                e = dict(env)
                for X in inside(I, (tuple(facts), v)):
                    if X.id not in done:
                        done[X.id] = Q.run(X, e)
                    e.update(done[X.id])
                m = Q.model(e)
                if m.holds(facts):
                    hit.append((k, v, m))
            except Undef as e:
                why = why or str(e)
        if hit or not todo:
            break
        try:
            env.update(Q.run(todo[0], env))
        except Undef as e:
            why = why or str(e)
        del todo[0]
    if len(hit) != 1:
        raise Undef(why or '%d rows' % len(hit))
    k, v, m = hit[0]
    return k, (m.ev(v) if k == 'ret' else v)


def tops(I, t):
    """the outermost loops a term speaks of"""
    ids = set()
    for x in subterms(t):
        if x[0] == 'phi' and x[1] in I.loops:
            i = x[1]
            while I.loops[i].parent is not None:
                i = I.loops[i].parent
            ids.add(i)
    return ids


def inside(I, t):
    """the loops within other loops that a term speaks of, outer ones first"""
    ids = set()
    for x in subterms(t):
        if x[0] == 'phi':
            X = I.loops.get(x[1])
            while X is not None and X.parent is not None:
                ids.add(X.id)
                X = I.loops.get(X.parent)
    def depth(i):
        n = 0
        while I.loops[i].parent is not None:
            i, n = I.loops[i].parent, n + 1
        return n
    return [I.loops[i] for i in sorted(ids, key=lambda i: (depth(i), i))]


def agree(ctx, name, I, outs, models, differ, where, limit=Rounds.LIMIT):
    """models: (text, env, functions, ...) per model; differ(value, model) tells
    what is wrong with the value"""
    end = time.time() + BUDGET
    n, odd = 0, {}
    for m in models:
        if time.time() > end:
            break
        try:
            k, v = result(I, outs, m[1], m[2], end, limit)
            d = 'it panics' if k == 'panic' else differ(v, m)
        except (Undef, Diverges) as e:
            odd[str(e)[:60]] = odd.get(str(e)[:60], 0) + 1
            continue
        n += 1
        if d:
            ctx.violate('%s: in a small grammar' % name, 'for the grammar %s %s' % (m[0][:400], d[:600]), where)
            return
    if n:
        ctx.ok('%s: agrees with the rule in small grammars' % name)
    ctx.notes.setdefault('small grammars', {})[name] = '%d compared%s' % (n, ', %d without a value (%s)' % (sum(odd.values()), ', '.join(sorted(odd))) if odd else '')


def sets(v):
    """a map of sets without the empty ones"""
    if not isinstance(v, dict):
        raise Undef('map')
    return {k: frozenset(elems(x)) for k, x in v.items() if elems(x)}


def diff(mine, ref):
    return None if mine == ref else 'it gives %s instead of %s' % (srt(mine), srt(ref))


def srt(x):
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, srt(v)) for k, v in sorted(x.items(), key=repr))
    if isinstance(x, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(map(repr, x)))
    return repr(x)


# ---------------------------------------------------------------------- FIRST
def first(ctx, G, b, I, args, outs, name):
    rules, start = fld(args[0], 0, G.g_rules), fld(args[0], 0, G.g_start)

    def models():
        for rs, s in grams(G, I, outs, 60):
            F = c18.firsts(G, rs)
            for v in sorted(rs)[:4]:
                if name == 'first':
                    yield '%s variable %s' % (told(rs), v), {rules: rs, start: s, args[1]: v}, {}, F[v]
                    continue
                for w in sorted(rs[v], key=repr)[:2]:
                    yield '%s sequence %s' % (told(rs), w), {rules: rs, start: s, args[1]: none(), args[2]: w}, {}, c18.first_of(G, F, w)
    agree(ctx, name, I, outs, models(), lambda v, m: diff(frozenset(elems(v)), frozenset(m[3])), site(b))


# --------------------------------------------------------------------- FOLLOW
def follows(G, rules, start):
    R, D = c18.occurrences(G, rules, start)
    out = {}
    for v, x in R:
        out.setdefault(v, set()).add(x)
    while True:
        n = sum(map(len, out.values()))
        for h, v in D:
            if out.get(h):
                out.setdefault(v, set()).update(out[h])
        if n == sum(map(len, out.values())):
            return {v: frozenset(s) for v, s in out.items() if s}


def follow(ctx, G, b, I, args, outs, rules, start, name):
    def models():
        for rs, s in grams(G, I, outs, 120):
            F = c18.firsts(G, rs)
            fs = {'first': lambda v, F=F: Set(F[v]), 'first_body': lambda o, w, F=F: Set(c18.first_of(G, F, w))}
            yield '%s start %s' % (told(rs), s), {rules: rs, start: s}, fs, follows(G, rs, s) if name == 'follow_set' else frozenset(c18.can_end(G, rs, s))
    f = sets if name == 'follow_set' else lambda v: frozenset(elems(v))
    agree(ctx, name, I, outs, models(), lambda v, m: diff(f(v), m[3]), site(b))


# -------------------------------------------------------------------- machine
class Lr0:
    """the LR(0) automaton of a finite grammar"""

    def __init__(self, K, rules, start):
        self.K, self.rules, self.start = K, rules, start
        self.states, self.to = [], []
        self.add(self.close({(start, b, self.skip(b, 0)) for b in rules[start]}))
        i = 0
        while i < len(self.states):
            for x in sorted({b[c] for _, b, c in self.states[i] if c < len(b)}, key=repr):
                self.to[i][x] = self.add(self.close({(h, b, self.skip(b, c + 1)) for h, b, c in self.states[i] if c < len(b) and b[c] == x}))
            i += 1

    def add(self, items):
        if items not in self.states:
            self.states.append(items)
            self.to.append({})
        return self.states.index(items)

    def skip(self, b, c):
        while c < len(b) and b[c][1] == self.K.v_e:
            c += 1
        return c

    def close(self, items):
        out, todo = set(items), list(items)
        while todo:
            h, b, c = todo.pop()
            if c < len(b) and b[c][1] == self.K.v_v:
                for w in self.rules[b[c][2][0]]:
                    i = (b[c][2][0], w, self.skip(w, 0))
                    if i not in out:
                        out.add(i)
                        todo.append(i)
        return frozenset(out)

    # as values of the program
    def item_map(self, items):
        K, out = self.K, Map()
        for h in sorted({h for h, _, _ in items}):
            xs = []
            for g, b, c in items:
                if g == h:
                    f = [None, None]
                    f[K.i_body], f[K.i_cur] = b, c
                    xs.append(Adt((K.item, 0, tuple(f))))
            out[h] = Set(xs)
        return out

    def values(self):
        K = self.K
        w = adt(K.ctx, 'WSymbol')
        out = []
        for i, items in enumerate(self.states):
            f = [None] * 3
            f[K.st_id], f[K.st_items] = i, Adt((K.items, 0, (self.item_map(items),)))
            f[K.st_tr] = Map((Adt((w, 0, (x,))), j) for x, j in self.to[i].items())
            out.append(Adt((K.state, 0, tuple(f))))
        return out


def items_of(K, m):
    out = set()
    for h, xs in m.items():
        for x in elems(xs):
            out.add((h, x[2][K.i_body], x[2][K.i_cur]))
    return frozenset(out)


def named_symbol(x):
    return x[2][0] if x[0].endswith('WSymbol') else x


def same_machine(K, v, R):
    """what distinguishes the machine v from the automaton R"""
    if not isinstance(v, Adt) or v[0] != K.cfsm:
        raise Undef('machine')
    sts = {}
    for x in elems(v[2][K.c_states]):
        if x[2][K.st_id] in sts:
            return 'it has two states %s' % x[2][K.st_id]
        sts[x[2][K.st_id]] = x
    show_ = lambda items: '{%s}' % ', '.join(sorted('%s: %s at %d' % i for i in items))
    seen, todo = {}, [(v[2][K.c_start], 0, [])]
    while todo:
        i, j, path = todo.pop(0)
        if (i, j) in seen:
            continue
        seen[(i, j)] = True
        p = 'after %s' % ' '.join(map(repr, path)) if path else 'at the start'
        if i not in sts:
            return '%s state %s is missing' % (p, i)
        mine = items_of(K, sts[i][2][K.st_items][2][K.s_items])
        if mine != R.states[j]:
            return '%s the items are %s instead of %s' % (p, show_(mine), show_(R.states[j]))
        tr = {named_symbol(x): y for x, y in sts[i][2][K.st_tr].items()}
        if set(tr) != set(R.to[j]):
            return '%s the transitions read %s instead of %s' % (p, srt(set(tr)), srt(set(R.to[j])))
        for x in sorted(tr, key=repr):
            todo.append((tr[x], R.to[j][x], path + [x]))
    g = v[2][K.c_gram]
    if isinstance(g, Adt) and (g[2][K.g_rules], g[2][K.g_start]) != (R.rules, R.start):
        return 'the machine keeps another grammar'
    return None


def machine(ctx, K, b, I, args, outs):
    rules, start = fld(args[0], 0, K.g_rules), fld(args[0], 0, K.g_start)

    def models():
        for rs, s in grams(K, I, outs, 60):
            yield '%s start %s' % (told(rs), s), {rules: rs, start: s}, {}, Lr0(K, rs, s)
    # the machines of these grammars take at most 21 rounds
    agree(ctx, 'from_grammar', I, outs, models(), lambda v, m: same_machine(K, v, m[3]), site(b), 200)


# ---------------------------------------------------------------------- table
def slr(T, R, rules, start):
    """(actions, gotos) as {(state, terminal or None): action}, or None with a conflict"""
    K = T.K
    F, eof = follows(K, rules, start), c18.can_end(K, rules, start)
    A, G = {}, {}
    for i, items in enumerate(R.states):
        for h, b, c in items:
            if c < len(b):
                j = R.to[i][b[c]]
                new = [(b[c][2][0], ('shift', j))] if b[c][1] == K.v_t else []
                if b[c][1] == K.v_v:
                    G[(i, b[c][2][0])] = j
            else:
                n = sum(x[1] != K.v_e for x in b)
                new = [(x[2][0], ('reduce', h, n)) for x in F.get(h, ())]
                if h in eof:
                    new.append((None, ('accept' if h == start else 'reduce', h, n)))
            for t, a in new:
                if A.setdefault((i, t), a) != a:
                    return None
    return A, G


def table_of(T, v):
    """the entries of a returned table"""
    A, G = {}, {}
    for i, row in enumerate(elems(v[2][T.f_action])):
        for t, a in row.items():
            t = None if t[1] == T.t_eof else t[2][0]
            if a[1] == T.shift:
                A[(i, t)] = ('shift', a[2][0])
            else:
                n = (T.f_amount if a[1] == T.reduce else T.a_amount)[0]
                A[(i, t)] = ('reduce' if a[1] == T.reduce else 'accept', a[2][1 - n], a[2][n])
    for i, row in enumerate(elems(v[2][T.f_goto])):
        for x, j in row.items():
            G[(i, x)] = j
    return A, G


def table(T, I, outs):
    ctx, K = T.ctx, T.K
    pins = {x: '_' for x in subterms(tuple(v for _, _, v in outs)) if x[0] == 'sym' and str(x[-1]).endswith('._pin')}

    def models():
        for rs, s in grams(K, I, outs, 90):
            R = Lr0(K, rs, s)
            F, eof = follows(K, rs, s), c18.can_end(K, rs, s)
            fs = {'follow_set': lambda F=F: Map((k, Set(x)) for k, x in F.items()), 'followed_by_eof': lambda eof=eof: Set(eof)}
            yield '%s start %s' % (told(rs), s), {**pins, T.states: Seq(R.values()), T.start: s, T.first: 0, T.rules: rs}, fs, slr(T, R, rs, s)

    def differ(v, m):
        if not isinstance(v, Adt) or v[0] != RES:
            raise Undef('result')
        if v[1] == 1:
            return None if m[3] is None else 'construction fails without a conflict'
        if m[3] is None:
            return 'a conflict is not refused'
        for what, mine, ref in zip(('actions', 'gotos'), table_of(T, v[2][0]), m[3]):
            for k in sorted(set(mine) | set(ref), key=repr):
                if mine.get(k) != ref.get(k):
                    return 'the entry of the %s for state %s and %s is %s instead of %s' % (what, k[0], 'the end' if k[1] is None else k[1], mine.get(k), ref.get(k))
        return None
    agree(ctx, 'new_slr', I, outs, models(), differ, T.where)


# ---------------------------------------------------------------------- parse
def table_value(D, tab):
    """a table as a value of the program; rows behind the last filled one are missing"""
    T, (A, G) = D.tab, tab
    act = [Map() for _ in range(max([i for i, _ in A], default=-1) + 1)]
    for (i, t), a in A.items():
        if a[0] == 'shift':
            v = Adt((T.act, T.shift, (a[1],)))
        else:
            n = (T.f_amount if a[0] == 'reduce' else T.a_amount)[0]
            f = [a[1], a[1]]
            f[n], f[1 - n] = a[2], a[1]
            v = Adt((T.act, T.reduce if a[0] == 'reduce' else T.accept, tuple(f)))
        act[i][Adt((T.ter, T.t_eof, ())) if t is None else Adt((T.ter, T.t_t, (t,)))] = v
    go = [Map() for _ in range(max([i for i, _ in G], default=-1) + 1)]
    for (i, x), j in G.items():
        go[i][x] = j
    return Seq(act), Seq(go)


def lr(tab, word):
    """the tree the machine builds for a word, or None"""
    A, G = tab
    stack, fresh, todo = [(None, 0)], 1, list(word) + [None]
    while True:
        a = A.get((stack[-1][1], todo[0]))
        if a is None:
            return None
        if a[0] == 'shift':
            stack.append((todo.pop(0), a[1]))
            fresh = len(stack)
            continue
        if a[2] >= len(stack):
            return None
        n = len(stack) - a[2]
        node = (a[1], tuple(x for x, _ in reversed(stack[n:])))
        stack[n:] = []
        if a[0] == 'accept' and len(stack) == 1:
            return node
        q = G.get((stack[-1][1], a[1]))
        if q is None:
            return None
        # a state that is reached again on top of itself by reductions alone is reached forever
        fresh = min(fresh, len(stack))
        if any(s == q for _, s in stack[fresh:]):
            return None
        stack.append((node, q))


def words(ts, n, most):
    out = [()]
    i = 0
    while i < len(out) and len(out) < most:
        if len(out[i]) < n:
            out += [out[i] + (t,) for t in ts]
        i += 1
    return out[:most]


def derived(K, rs, start, n):
    """some words of the language, short ones first"""
    out, todo, seen = [], [(('v', start),)], set()
    steps = 0
    while todo and len(out) < n and steps < 400:
        steps += 1
        w = todo.pop(0)
        i = next((i for i, x in enumerate(w) if x[0] == 'v'), None)
        if i is None:
            out.append(tuple(x[1] for x in w))
            continue
        for b in sorted(rs[w[i][1]], key=repr):
            m = tuple(('v' if x[1] == K.v_v else 't', x[2][0]) for x in b if x[1] != K.v_e)
            z = w[:i] + m + w[i + 1:]
            if len(z) <= 7 and z not in seen:
                seen.add(z)
                todo.append(z)
    return out


def tree_of(D, v):
    """the tree of a node value"""
    K = D.K
    s, ch = v[2][D.n_sym], elems(v[2][D.n_ch])
    if s[1] == K.v_t and not ch:
        return s[2][0]
    return (s[2][0] if s[1] == K.v_v else repr(s), tuple(tree_of(D, x) for x in ch))


def shape(t):
    return 'an error' if t is None else t if isinstance(t, str) else '%s(%s)' % (t[0], ' '.join(map(shape, t[1])))


def parse(D, I, st, args, outs):
    """the parser on short inputs of small grammars against the machine"""
    ctx, K = D.ctx, D.K
    slf = args[0] if args[0][0] != 'ref' else I.deref(st, args[0])
    table = fld(slf, 0, D.f_table)
    action, goto = fld(table, 0, D.tab.f_action), fld(table, 0, D.tab.f_goto)
    inp = I.freeze(st, args[1])
    starts = {x for X in I.loops.values() for _, i, _ in X.phis for x in subterms(i) if x[0] == 'sym' and str(x[1]).endswith('start_variable')}
    nf = len(ctx.prog.adts[D.token]['v'][0]['f'])

    def token(v):
        if not v[0]:
            return none()
        f = ['_'] * nf
        f[D.t_kind] = v[0][0]
        return some(Adt((D.token, 0, tuple(f))))
    fs = {'token': token, 'lexed': lambda v: Tup((v[0][1:], v[1])), 'finished': lambda v: not v[0] and v[1]}

    def models():
        for rs, s, more in long(K, consts(I, outs)) + [(r, s, ()) for r, s in looping(K) + list(grams(K, I, outs, 120))]:
            tab = slr(D.tab, Lr0(K, rs, s), rs, s)
            if tab is None:
                continue
            a, g = table_value(D, tab)
            ts = sorted({x[2][0] for b in rs.values() for w in b for x in w if x[1] == K.v_t})
            ws = list(more) or derived(K, rs, s, 5) + words((ts + ['?'])[:4], 4, 12)
            if D.tags == ('lexer',):
                ws = [()] + [w[:i] for w in ws for i in (1, 2, len(w))]
            for w in dict.fromkeys(ws):
                for fin in (False,) if D.tags == ('lexer',) else (True, False) if len(w) < 2 else (True,):
                    txt = '%s start %s and the input %s' % (told(rs), s, (' '.join(w) or 'that is empty') + ('' if fin else ' with a rest that is no token'))
                    yield txt, {action: a, goto: g, inp: Tup((Seq(w), fin)), **{x: s for x in starts}}, fin, lr(tab, w) if fin else None

    end = time.time() + BUDGET
    n, trees, odd, bad = 0, 0, {}, set()
    for txt, env, fin, ref in models():
        if time.time() > end:
            break
        try:
            k, v = result(I, outs, env, fs, end, 200)
            t = 'it panics' if k == 'panic' else None if v[1] == 1 else tree_of(D, v[2][0][2][D.c_root])
        except Diverges as e:
            k, t = 'endless', 'it does not end'
        except Undef as e:
            odd[str(e)[:60]] = odd.get(str(e)[:60], 0) + 1
            continue
        n += 1
        trees += ref is not None
        if t == ref:
            continue
        if k != 'ret':
            tag, what = 'panic', t
        elif not fin:
            tag, what = 'lexer', 'it gives a tree'
        else:
            tag, what = 'tree', 'it gives %s instead of %s' % (shape(t), shape(ref))
        for g in [tag] + ['tree'] * (tag == 'lexer' or ref is not None):
            if g in D.tags and g not in bad:
                bad.add(g)
                ctx.violate('parse: in a small grammar', 'for the grammar %s %s' % (txt[:500], what), site(D.b))
    if n and not bad:
        ctx.ok('parse: agrees with the machine on short inputs of small grammars')
    ctx.notes['short inputs'] = '%d compared, %d with a tree%s' % (n, trees, ', %d without a value (%s)' % (sum(odd.values()), ', '.join(sorted(odd))) if odd else '')


def looping(K):
    """grammars in which a run of reductions need not end"""
    V = lambda x: Adt((K.sym, K.v_v, (x,)))
    Tm = lambda x: Adt((K.sym, K.v_t, (x,)))
    E = Adt((K.sym, K.v_e, ()))
    mk = lambda d: Map((k, Set(Seq(b) for b in v)) for k, v in d.items())
    return [(mk({'S': [[V('E'), V('S')]], 'E': [[E]]}), 'S'), (mk({'S': [[V('A'), Tm('t')], [Tm('c'), V('X')]], 'A': [[E]], 'X': [[V('A'), V('X')]]}), 'S')]


def long(K, ns):
    """grammars with bodies, and inputs with nesting, around the numbers in the summary"""
    V = lambda x: Adt((K.sym, K.v_v, (x,)))
    Tm = lambda x: Adt((K.sym, K.v_t, (x,)))
    mk = lambda d: Map((k, Set(Seq(b) for b in v)) for k, v in d.items())
    out = []
    for n in sorted({k + d for k in ns for d in (-1, 0, 1, 2)} | {5, 6}):
        out.append((mk({'S': [[V('A'), Tm('z')]], 'A': [[Tm('abc'[i % 3]) for i in range(n)]]}), 'S',
                    [tuple('abc'[i % 3] for i in range(n)) + ('z',)]))
        out.append((mk({'S': [[Tm('a'), V('S'), Tm('b')], [Tm('c')]]}), 'S', [('a',) * n + ('c',) + ('b',) * n, ('a',) * n + ('c',) + ('b',) * (n - 1)]))
        out.append((mk({'S': [[V('S'), Tm('a')], [Tm('c')]]}), 'S', [('c',) + ('a',) * n]))
    return out
