"""Summaries of the simulator shared by C11, C12 and C13."""
import terms
from comp import *

SELF = ('selfset',)
STATE = 'state with id'
CONTAINS = 'literal contains'


def field_by(ctx, path, name, pred=None, variant=0):
    """index of a field by name, or by its type when the name is gone"""
    fs = ctx.prog.adts[path]['v'][variant]['f']
    r = [i for i, f in enumerate(fs) if f['n'] == name]
    if len(r) == 1:
        return r[0]
    r = [i for i, f in enumerate(fs) if pred and f['ty'] and pred(f['ty'])]
    if len(r) != 1:
        raise AnchorError('field %s of %s' % (name, path))
    return r[0]


class Sim:
    def __init__(self, ctx):
        self.ctx = ctx
        self.run = adt(ctx, 'Run')
        self.sim = adt(ctx, 'NfaSimulator')
        self.nfa = adt(ctx, 'nfa::model::Nfa')
        self.state = adt(ctx, 'nfa::model::State')
        self.input = adt(ctx, 'nfa::model::Input')
        self.q = adt(ctx, 'QuantifierKind')
        self.qr = adt(ctx, 'QuantifierRangeKind')
        self.lit = adt(ctx, 'LiteralKind')
        usize = lambda t: t == ('prim', 'usize')
        ismap = lambda t: t[0] == 'adt' and t[1].endswith('Map')
        self.f_id = field_by(ctx, self.run, 'state_id', usize)
        self.f_cnt = field_by(ctx, self.run, 'state_counters', ismap)
        self.f_runs = field_by(ctx, self.sim, 'runs', lambda t: t[0] == 'adt' and t[1].endswith('Vec'))
        self.f_nfa = field_by(ctx, self.sim, 'nfa')
        self.f_tr = field_by(ctx, self.state, 'transitions', ismap)
        self.f_fin = field_by(ctx, self.state, 'fin', lambda t: t == ('prim', 'bool'))
        self.f_sid = field_by(ctx, self.state, 'id', usize)
        self.f_start = field_by(ctx, self.nfa, 'start_state', usize)
        self.f_states = field_by(ctx, self.nfa, 'states')
        self.v_lit, = var(ctx, self.input, 'Literal')
        self.v_eps, = var(ctx, self.input, 'Eps')
        self.v_quant, = var(ctx, self.input, 'Quantified')
        models = {}
        for b in fns(ctx.prog, 'Nfa', 'get_state', L):
            models[b['path']] = self.get_state
        for b in fns(ctx.prog, 'LiteralKind', 'contains', L):
            models[b['path']] = self.contains
        self.models = models

    def get_state(self, I, st, a, info):
        v = self.st_term(I.deref(st, a[1]))
        return [(st, 'ret', v)]

    def st_term(self, i):
        v = ('app', STATE, i)
        T.ADT_OF[v] = self.state
        return v

    def contains(self, I, st, a, info):
        return [(st, 'ret', ('app', CONTAINS, I.deref(st, a[0]), I.deref(st, a[1])))]

    def interp(self):
        return interp(self.ctx, natives=self.models)

    # ---- parts of terms
    def trans(self, r):
        """items of the transitions of the state run r is in"""
        return ('items', fld(self.st_term(fld(r, 0, self.f_id)), 0, self.f_tr))

    def count(self, r):
        return mapgetor(fld(r, 0, self.f_cnt), fld(r, 0, self.f_id), INT(0))

    def counted(self, cl):
        """clauses; where the counter is looked up by `get`, separately for a counter that
        is there, which is the count, and for none, which counts as zero"""
        n = self.count(var_at(0))
        self.apart = n[0] == 'getor' and any(g[0] == 'V' and g[1] == mapget(n[1], n[2]) for c in cl for g in c.guards)
        return self.both(cl)

    def both(self, cl):
        if not self.apart:
            return cl
        # the numbers of a quantifier are not negative
        q = fld(fld(var_at(1), 0, 0), self.v_quant, 0)
        rmax, rmin, rrange = var(self.ctx, self.qr, 'Max', 'Min', 'Range')
        rg = fld(q, var(self.ctx, self.q, 'Range')[0], 0)
        for t in (fld(rg, rmax, 0), fld(rg, rmin, 0), fld(rg, rrange, 0), fld(rg, rrange, 1)):
            terms.DOM.setdefault(t, ((0, INF),))
        n = self.count(var_at(0))
        m = mapget(n[1], n[2])
        out = []
        for c in cl:
            for i, to in ((1, {fld(m, 1, 0): n}), (0, {n: INT(0)})):
                g = merge_guards(c.guards, term_guards(isvar(m, (i,), uni(OPT))))
                g = subst_guards(g, to) if g is not None else None
                if g is not None:
                    out.append(Clause(tuple((v, subst(x, to)) for v, x in c.binders), g, subst(c.value, to)))
        return out

    def kind(self, x, v):
        return isvar(fld(x, 0, 0), (v,), uni(self.input))

    def satisfied(self, q, n):
        """(name, guards) under which count n satisfies quantifier q"""
        ctx = self.ctx
        va, vp, vm, vr = var(ctx, self.q, 'Asterisk', 'Plus', 'QuestionMark', 'Range')
        rmax, rmin, rrange = var(ctx, self.qr, 'Max', 'Min', 'Range')
        k = lambda v: isvar(q, (v,), uni(self.q))
        rg = fld(q, vr, 0)
        kr = lambda v: isvar(rg, (v,), uni(self.qr))
        ge = lambda a, b: compare(b, a, LE)
        return [
            ('*', [k(va)]),
            ('+', [k(vp), ge(n, INT(1))]),
            ('?', [k(vm), ge(INT(1), n)]),
            ('{n}', [k(vr), kr(rmax), compare(n, fld(rg, rmax, 0), EQ0)]),
            ('{n,}', [k(vr), kr(rmin), ge(n, fld(rg, rmin, 0))]),
            ('{n,m}', [k(vr), kr(rrange), ge(n, fld(rg, rrange, 0)), ge(fld(rg, rrange, 1), n)]),
        ]

    def quant_base(self, q):
        ctx = self.ctx
        va, vp, vm, vr = var(ctx, self.q, 'Asterisk', 'Plus', 'QuestionMark', 'Range')
        rmax, rmin, rrange = var(ctx, self.qr, 'Max', 'Min', 'Range')
        k = lambda v: isvar(q, (v,), uni(self.q))
        kr = lambda v: isvar(fld(q, vr, 0), (v,), uni(self.qr))
        return [('*', [k(va)]), ('+', [k(vp)]), ('?', [k(vm)]), ('{n}', [k(vr), kr(rmax)]),
                ('{n,}', [k(vr), kr(rmin)]), ('{n,m}', [k(vr), kr(rrange)])]

    def counters(self, r, v):
        """(base map, {key: new value}) of the counters of run value v"""
        m = fld(v, 0, self.f_cnt)
        upd = {}
        while m[0] in ('mapins', 'maprem'):
            upd.setdefault(m[2], m[3] if m[0] == 'mapins' else INT(0))
            m = m[1]
        return m, upd

    # ---- analysed functions
    def closure(self):
        """the epsilon closure of a run: (function, run, outcomes, interpreter)"""
        ctx = self.ctx
        b = None
        for c in ctx.prog.bodies.values():
            if self_adt(c) == self.sim and c['name'] == 'eps_closure':
                b = c
        if b is None:
            raise AnchorError('NfaSimulator::eps_closure')
        I = self.interp()
        st = State()
        args = sym_args(I, st, b)
        outs = I.call_body(st, b, args, ())
        ctx.add_interp(I)
        run = [a for a in args if a[0] == 'adt' and a[1] == self.run]
        ctx.need(len(run) == 1, 'run argument of eps_closure')
        return b, run[0], outs, I


def closure_term(outs):
    """the closure term returned, None when the result has another form"""
    r = [v for s, k, v in outs if k == 'ret']
    if len(r) != 1:
        return None
    v = r[0]
    while v[0] in ('it', 'unord', 'sorted', 'rev'):
        v = v[1]
    if v[0] == 'wclosure':
        # only what is looked at again counts
        return ('closure',) + v[1:4]
    return v if v[0] == 'closure' else None


def guards_of(terms):
    g = ()
    for t in terms:
        x = term_guards(t)
        if x is None:
            return None
        g = merge_guards(g, x)
        if g is None:
            return None
    return g


def exists_form(I, outs):
    """the comprehension F when the function returns (F is not empty);
    otherwise None and a reason, 'BAD: ..' when the answer is surely another one"""
    rows = split_bool(I, [o for o in outs if o[1] == 'ret'])
    cand = None
    lens = lambda s: {g[1][0][0][1]: g[2] for g in s.facts() if g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len'}
    some = ((1, INF),)
    for s, k, v in rows:
        fs = {f for f, iv in lens(s).items() if f[0] == 'flatmap'}
        cand = fs if cand is None else cand | fs
    if not rows:
        return None, 'no outcome'
    if len({v for _, _, v in rows}) == 1:
        return None, 'BAD: always returns %s' % show(rows[0][2])
    for f in sorted(cand, key=key):
        pos = all((v == TRUE) == (lens(s).get(f) == some) and (v == TRUE or lens(s).get(f) == EQ0 or lens(s).get(f[1]) == EQ0)
                  for s, _, v in rows)
        if pos:
            return f, ''
    for f in sorted(cand, key=key):
        if all((v == FALSE) == (lens(s).get(f) == some) and (v == FALSE or lens(s).get(f) == EQ0 or lens(s).get(f[1]) == EQ0)
               for s, _, v in rows):
            return None, 'BAD: the answer is no exactly when there is some %s' % show(f)[:300]
    for s, k, v in rows:
        for f, iv in lens(s).items():
            if v == FALSE and f[0] == 'flatmap' and iv == some and not opaque_in(f, (STATE, CONTAINS, 'maxof')):
                return None, 'BAD: the answer is no before everything was looked at, when there is some %s' % show(f)[:300]
    return None, 'depends on %s' % facts_of(rows[0][0])[:300]


def unit_clauses(cl):
    """clauses of which only the existence matters; `some element of G` becomes a binder"""
    out = []
    for c in cl:
        g = [g for g in c.guards if g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len' and g[2] == ((1, INF),)
             and g[1][0][0][1][0] == 'flatmap']
        if not g:
            out.append(Clause(c.binders, c.guards, UNIT))
            continue
        rest = tuple(x for x in c.guards if x != g[0])
        for c2 in clauses(g[0][1][0][0][1], len(c.binders)):
            m = merge_guards(rest, c2.guards)
            if m is not None:
                out.extend(unit_clauses([Clause(c.binders + c2.binders, m, UNIT)]))
    return out


def check_exists(ctx, name, I, outs, spec, where, allowed):
    f, why = exists_form(I, outs)
    if f is None:
        if why.startswith('BAD: '):
            ctx.violate(name, why[5:], where)
        else:
            ctx.unknown(name, why)
        return
    compare_sets(ctx, name, unit_clauses(clauses(f)), unit_clauses(spec), where, allowed, what='case')
