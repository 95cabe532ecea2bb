"""Summaries of items, item sets and the state machine of the parser."""
from gram import *


class Lr(Gram):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.item = adt(ctx, 'ItemBody')
        self.items = adt(ctx, 'ItemSet')
        self.state = adt(ctx, 'cfsm::state::State')
        self.cfsm = adt(ctx, 'Cfsm')
        ismap = lambda t: t[0] == 'adt' and t[1].endswith('Map')
        isset = lambda t: t[0] == 'adt' and t[1].endswith(('Set', 'Vec'))
        self.i_body = field_by(ctx, self.item, 'body', lambda t: not (t[0] == 'prim'))
        self.i_cur = field_by(ctx, self.item, 'cursor', lambda t: t[0] == 'prim')
        self.s_items = field_by(ctx, self.items, 'items', ismap)
        self.st_id = field_by(ctx, self.state, 'id', lambda t: t[0] == 'prim')
        self.st_items = field_by(ctx, self.state, 'item_set', lambda t: t[0] == 'adt' and t[1] == self.items)
        self.st_tr = field_by(ctx, self.state, 'transitions', ismap)
        self.c_start = field_by(ctx, self.cfsm, 'start_state', lambda t: t[0] == 'prim')
        self.c_states = field_by(ctx, self.cfsm, 'states', isset)
        self.c_gram = field_by(ctx, self.cfsm, 'grammar', lambda t: t[0] == 'adt' and t[1] == self.g)
        fs = ctx.prog.adts[self.item]['v'][0]['f']
        if len(fs) != 2:
            raise AnchorError('fields of ItemBody')

    def body(self, i):
        return fld(i, 0, self.i_body)

    def cur(self, i):
        return fld(i, 0, self.i_cur)

    def mk(self, body, cur):
        f = [None, None]
        f[self.i_body], f[self.i_cur] = body, cur
        return ('adt', self.item, 0, tuple(f))

    def eps_run(self, seq):
        p = mk_flatmap(sym('_'), 1, ((guards_of([self.is_eps(('bv', 1))]), (('one', ('bv', 1)),)),))
        return seq_len(('takewhile', seq, p))

    def first_item(self, body):
        return self.mk(body, self.eps_run(body))

    def at(self, i):
        return nth(self.body(i), self.cur(i))

    def more(self, i):
        """the marker is not at the end"""
        return compare(sub(self.cur(i), seq_len(self.body(i))), INT(-1), LE)

    def next_cursor(self, i):
        return add(add(self.cur(i), INT(1)), self.eps_run(('skipmin', self.body(i), add(self.cur(i), INT(1)))))

    # ---------------------------------------------------------------- values
    def v_items(self, rules, heads=None, later=True, r=None):
        """items of a finite grammar: [(head, item)]"""
        out = []
        for h, bs in rules.items():
            for b in bs:
                n = len(b)
                for c in range(n + 1):
                    if c < n and b[c][1] == self.v_e:
                        continue
                    f = [None, None]
                    f[self.i_body], f[self.i_cur] = b, c
                    out.append((h, Adt((self.item, 0, tuple(f)))))
        return out


def pairs_of(t):
    """clauses of the (key, element) pairs of a map of sets; None if unclear"""
    if t == EMAP:
        return []
    if t[0] == 'rel':
        a = pairs_of(t[1])
        return None if a is None else a + clauses(t[2])
    if t[0] == 'mapins':
        if t[1] != EMAP:
            return None
        return [Clause(c.binders, c.guards, tup(t[2], c.value)) for c in clauses(t[3])]
    if t[0] == 'mapof':
        out = []
        for c in clauses(t[1]):
            for d in clauses(fld(c.value, 0, 1), len(c.binders)):
                g = merge_guards(c.guards, d.guards)
                if g is not None:
                    out.append(Clause(c.binders + d.binders, g, tup(fld(c.value, 0, 0), d.value)))
        return out
    if t[0] in ('sym', 'fld', 'nth', 'phi'):
        x, y = var_at(0), var_at(1)
        return [Clause(((x, ('items', t)), (y, fld(x, 0, 1))), (), tup(fld(x, 0, 0), y))]
    return None


def decide(ctx, name, impl, variants, where, models=None, what='element', allowed=(), extra=()):
    """the clauses are those of one of the equivalent forms of the rule"""
    for v in variants[1:]:
        if not cover(ctx, impl, v) and not cover(ctx, v, impl):
            ctx.ok(name)
            return True
    return compare_sets(ctx, name, impl, variants[0], where, allowed, what=what, models=models, extra=list(extra))


def seconds(cl):
    return [Clause(c.binders, c.guards, fld(c.value, 0, 1)) for c in cl]


def left_over(I, t, facts):
    """t is grown by a work list loop that is left before the work is done"""
    for L in I.loops.values():
        if not any(p == t for p, _, _ in L.phis):
            continue
        for W, i, _ in L.phis:
            last = sub(seq_len(W), INT(1))
            pops = (drop(W, INT(1)), take(W, last))
            ups = [r['upd'].get(W, W) for r in L.backs]
            if any(u in pops or (u[0] == 'seq' and any(q[0] == 'sub' and q[1] in pops for q in u[1])) for u in ups):
                for g in facts:
                    if g[0] == 'I' and g[1] == ((('len', W), 1),) and all(lo >= 1 for lo, _ in g[2]):
                        return W
    return None


def closed_items(ctx, K, name, t, rules, base_variants, where, models, step_models, I=None, facts=()):
    """t is the closure of the item set given by the clauses of pairs"""
    pushed = None
    if t[0] == 'wclosure':
        pushed = t[3]
        t = ('closure', t[1], t[2], t[4])
    if t[0] == 'phi' and I is not None and left_over(I, t, facts):
        ctx.violate(name, 'the closure is left before all items were looked at, when %s' % gshow(facts)[:300], where)
        return
    if t[0] != 'closure':
        if t[0] in ('rel', 'mapins', 'mapof', 'nest', 'sym', 'fld') and not opaque_in(t):
            ctx.violate(name, 'the item set is not closed: %s' % show(t)[:300], where)
        else:
            ctx.unknown(name, 'item set %s' % show(t)[:200])
        return
    _, base, work, step = t
    p = pairs_of(base)
    if p is None:
        ctx.unknown(name, 'items %s' % show(base)[:200])
        return
    decide(ctx, name + ': items', p, base_variants, where, models, 'item')
    w = clauses(work)
    pairs = bool(w) and all(c.value[0] == 'tup' for c in w)
    decide(ctx, name + ': items that are expanded', w, base_variants if pairs else [seconds(v) for v in base_variants], where, models, 'item')
    x, b = var_at(0), var_at(1)
    i = fld(x, 0, 1) if pairs else x
    v = fld(K.at(i), K.v_v, 0)
    new = tup(v, K.first_item(b))
    val = new if pairs else tup(new, K.first_item(b))
    g = guards_of([K.more(i), K.is_var(K.at(i)), isvar(mapget(rules, v), (1,), uni(OPT))])
    spec = [Clause(((x, ('selfset',)), (b, fld(mapget(rules, v), 1, 0))), g, val)]
    if pushed:
        sb0 = [Clause(c.binders, c.guards, c.value if pairs else tup(c.value, fld(c.value, 0, 1))) for c in p]
        decide(ctx, name + ': items looked at again', clauses(pushed), [spec], where, lambda ks: step_models(ks, pairs), 'item', extra=sb0)
        spec = [Clause(c.binders, c.guards, new) for c in spec]
    # what was there from the start does not have to be added again
    sb = [Clause(c.binders, c.guards, c.value if pairs or pushed else tup(c.value, fld(c.value, 0, 1))) for c in p]
    decide(ctx, name + ': closure', clauses(step), [spec], where, lambda ks: step_models(ks, pairs), 'item', extra=sb)


def item_models(K, rules, elem, ks, need=None):
    """finite models of an element of a group: (symbol, map of items)"""
    for rs, s in grammars(K, 150, total=True, sizes=ks):
        by = {}
        for h, i in K.v_items(rs):
            b, c = i[2][K.i_body], i[2][K.i_cur]
            if c < len(b):
                by.setdefault(b[c], []).append((h, i))
        for sy, l in list(by.items())[:3]:
            m = {}
            for h, i in l[:6]:
                m.setdefault(h, set()).add(i)
            yield Model({rules: rs, elem: Tup((sy, Map((h, Set(x)) for h, x in m.items())))})


def self_models(K, rules, pairs, models):
    """models with an item that is looked at"""
    for m in models:
        for h, i in K.v_items(m.env[rules])[:12]:
            yield m.with_(('selfset',), Set([Tup((h, i)) if pairs else i]))
