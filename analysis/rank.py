"""Ranking of loops from their rows.

A row is one way round a loop: the facts under which it is taken and the next
value of every variable of the loop.  A loop ends when every row makes progress
in a lexicographic order of measures: a sequence gets shorter, a set that is
never made smaller grows (in a finite space), a number gets nearer to a bound, a
flag falls.  A row with loops inside stands for the rounds of these: either no
inner round makes a set grow, or at least one does.  So do sequences of "new"
elements: either they are empty or they make their set grow."""
from terms import *
import terms as T

DEC, SAME, ANY = 0, 1, 2      # the measure falls / does not rise / unknown


def final_loops(I):
    """the loops as last analysed: those of the outermost level and, below
    them, the ones their rows ran through"""
    last = {}
    for L in I.loops.values():
        last[(L.where, L.parent)] = L
    used = set()
    todo = [L for L in I.loops.values() if L.parent is None or L.parent not in I.loops]
    out = []
    while todo:
        L = todo.pop(0)
        if L.id in used:
            continue
        used.add(L.id)
        out.append(L)
        ids = {e[1] for r in L.backs for e in r['ev'] if e[0] == 'loop'}
        for M in I.loops.values():
            if M.parent == L.id and (M.id in ids or last[(M.where, M.parent)] is M):
                todo.append(M)
    return out


def strip(t):
    while t[0] in ('it', 'unord', 'sorted', 'rev') or (t[0] == 'seq' and len(t[1]) == 1 and t[1][0][0] == 'sub'):
        t = t[1] if t[0] != 'seq' else t[1][0][1]
    return t


def join(xs):
    return max(xs, default=SAME)


def then(a, b):
    return ANY if ANY in (a, b) else min(a, b)


class Rank:
    def __init__(self, I, state_of):
        self.I = I
        self.state_of = state_of
        self.owner = {}
        for L in I.loops.values():
            for p, i, _ in L.phis:
                self.owner[p] = L
        self.memo = {}

    # ------------------------------------------------------------ variants
    def variants(self, L):
        if L.id not in self.memo:
            self.memo[L.id] = []
            out = []
            for r in L.backs:
                out += self.row(L, r)
            self.memo[L.id] = out
        return self.memo[L.id]

    def inner(self, L, t):
        """loops inside L whose variables the term reads, and those that feed them"""
        out = []
        todo = [t]
        while todo:
            for x in subterms(todo.pop()):
                M = self.owner.get(x) if x[0] == 'phi' else None
                if M is not None and M not in out and M.parent == L.id:
                    out.append(M)
                    todo += [i for _, i, _ in M.phis]
        return out

    def inside(self, M, L):
        while M is not None and M.parent is not None:
            if M.parent == L.id:
                return True
            M = self.I.loops.get(M.parent)
        return False

    def row(self, L, r):
        ups = tuple(r['upd'].get(p, p) for p, _, _ in L.phis)
        s = self.state_of(sorted(r['facts'], key=key))
        if s is None:
            return []
        news = sorted({x for u in ups for x in subterms(u) if x[0] == 'newof'}, key=key)
        loops = self.inner(L, ups + tuple(g[1] for g in r['facts']))
        out = []
        choices = [('none', None)] + [('new', x) for x in news]
        for M in loops:
            for v in self.variants(M):
                if any(e == DEC for m, e in v['eff'].items() if m[0] == 'set'):
                    choices.append(('row', (M, v)))
        for c in choices:
            E = Effects(self, L, r, s, c)
            if E.infeasible():
                continue
            eff = {}
            for p, _, _ in L.phis:
                u = r['upd'].get(p, p)
                eff[('len', p)] = E.length(u, p)
                eff[('set', p)] = E.grows(u, p)
                eff[('flag', p)] = E.flag(u, p)
                for k, e in E.number(u, p).items():
                    eff[k] = e
            out.append({'eff': eff, 'row': r, 'choice': c, 'L': L})
        return out

    # ------------------------------------------------------------- the order
    def order(self, L):
        """(measures in order, rows without progress)"""
        left = list(self.variants(L))
        comps = sorted({c for v in left for c in v['eff']}, key=lambda c: ({'len': 0, 'set': 1, 'flag': 2, 'num': 3}[c[0]], key(c[1]), repr(c[2:])))
        used = []
        while left:
            for c in comps:
                if c in used:
                    continue
                es = [v['eff'].get(c, ANY) for v in left]
                if ANY in es or DEC not in es:
                    continue
                used.append(c)
                left = [v for v, e in zip(left, es) if e != DEC]
                break
            else:
                break
        return used, left


class Effects:
    """effect of one row of a loop on the measures"""

    def __init__(self, R, L, r, s, choice):
        self.R, self.L, self.r, self.s = R, L, r, s
        self.choice = choice

    def allowed(self, M):
        """rounds of the inner loop, under the choice"""
        vs = self.R.variants(M)
        if self.choice[0] == 'none':
            return [v for v in vs if not any(e == DEC for (k, *_), e in v['eff'].items() if k == 'set')]
        return vs

    def through(self, M, k, p):
        """effect of any number of rounds of M on measure k of its variable p"""
        vs = self.allowed(M)
        e = join([v['eff'].get((k, p), ANY) for v in vs])
        if k == 'set' and e != ANY:
            e = SAME
            if self.choice[0] == 'row' and self.choice[1][0] is M:
                e = then(e, self.choice[1][1]['eff'].get((k, p), ANY))
        elif e == DEC:
            e = SAME
        return e

    def infeasible(self):
        """a flag of an inner loop was seen raised although no allowed round raises it"""
        for g in self.r['facts']:
            if g[0] == 'A' and g[1][0] == 'phi' and g[1] in self.R.owner:
                M = self.R.owner[g[1]]
                i = M.init(g[1])
                if M is not self.L and i in (TRUE, FALSE) and i != BOOL(g[2]):
                    if all(v['row']['upd'].get(g[1], g[1]) in (g[1], i) for v in self.allowed(M)):
                        return True
        return False

    def new_empty(self, x):
        return self.choice[0] != 'new'

    def nonempty(self, t):
        if self.s.decide(compare(seq_len(t), INT(0), ((1, INF),))) is True:
            return True
        # a part of it has elements
        for g in self.s.facts():
            if g[0] == 'I' and len(g[1]) == 1 and g[1][0][0][0] == 'len' and g[1][0][1] > 0 and g[2][0][0] >= 1:
                x = strip(g[1][0][0][1])
                while x != t and x[0] in ('drop', 'take', 'skipmin', 'takemin', 'skipwhile', 'takewhile', 'skipto'):
                    x = strip(x[1])
                if x == t:
                    return True
        return False

    # shorter sequences
    def length(self, t, p):
        t = strip(t)
        if t == p:
            return SAME
        if t in (EMPTY, ESET, EMAP):
            return DEC if self.nonempty(p) else SAME
        if t[0] == 'phi':
            M = self.R.owner.get(t)
            if M is None or not self.R.inside(M, self.L):
                return ANY
            return then(self.length(M.init(t), p), self.through(M, 'len', t))
        if t[0] in ('drop', 'take', 'skipmin', 'takemin'):
            e = self.length(t[1], p)
            if e != SAME:
                return e
            less = False
            x = strip(t[1])
            if t[0] == 'drop' and self.s.decide(compare(t[2], INT(0), ((1, INF),))) is True:
                less = self.nonempty(x)
            if t[0] == 'take' and self.s.decide(compare(sub(seq_len(x), t[2]), INT(0), ((1, INF),))) is True:
                less = True
            return DEC if less else SAME
        if t[0] in ('skipwhile', 'takewhile', 'skipto', 'updnth', 'updsel', 'maprem'):
            e = self.length(t[1], p)
            if t[0] == 'maprem' and e == SAME and self.s.decide(isvar(mapget(strip(t[1]), t[2]), (1,), T.UNIVERSE.get(OPT, 2))) is True:
                return DEC
            return e
        if t[0] in ('seq', 'set'):
            base = None
            for x in t[1]:
                if x[0] == 'sub' and x[1][0] == 'newof':
                    if self.new_empty(x[1]):
                        continue
                    return ANY
                if x[0] == 'sub' and base is None:
                    base = self.length(x[1], p)
                    continue
                return ANY
            return SAME if base is None else base
        return ANY

    # growing sets
    def grows(self, t, p):
        t = strip(t)
        if t == p:
            return SAME
        if t[0] == 'phi':
            M = self.R.owner.get(t)
            if M is None or not self.R.inside(M, self.L):
                return ANY
            e = then(self.grows(M.init(t), p), self.through(M, 'set', t))
            if e == SAME and self.longer(t, p):
                e = DEC
            return e
        if t[0] in ('set', 'seq'):
            bases = [x for x in t[1] if x[0] == 'sub' and contains(x[1], lambda y: y == p or (y[0] == 'phi' and self.R.owner.get(y) is not self.L and self.R.inside(self.R.owner.get(y), self.L)))]
            best = ANY
            for b in bases:
                if b[1][0] == 'newof':
                    continue
                e = self.grows(b[1], p)
                if e == ANY:
                    continue
                base = strip(b[1])
                for x in t[1]:
                    if x is b:
                        continue
                    if x[0] == 'one' and self.s.decide(mem(x[1], base)) is False:
                        e = DEC
                    if x[0] == 'sub' and self.new_in(x[1], base):
                        e = DEC
                if self.longer(t, base):
                    e = DEC
                best = min(best, e)
            return best
        if t[0] in ('rel', 'nest'):
            e = self.grows(t[1], p)
            if e == ANY:
                return ANY
            base = strip(t[1])
            for x in set_segs(t[2]):
                if x[0] == 'one' and x[1][0] == 'tup' and t[0] == 'rel':
                    k, y = x[1][1]
                    if any(self.s.decide(mem(y, o)) is False for o in (mapgetor(base, k, ESET), fld(mapget(base, k), 1, 0))) or self.absent(base, k):
                        e = DEC
                if x[0] == 'sub' and self.new_in(x[1], base):
                    e = DEC
            if self.longer(t, base) or self.longer_at(t, base):
                e = DEC
            return e
        if t[0] == 'mapins':
            e = self.grows(t[1], p)
            if e == ANY:
                return ANY
            base = strip(t[1])
            if self.absent(base, t[2]):
                return DEC
            for o in (mapgetor(base, t[2], ESET), mapgetor(base, t[2], EMAP), fld(mapget(base, t[2]), 1, 0)):
                f = Effects(self.R, self.L, self.r, self.s, self.choice)
                g = f.grows(t[3], o)
                if g != ANY:
                    return then(e, g)
                if self.longer(t[3], o):
                    return e
            return ANY
        if t[0] in ('closure', 'wclosure'):
            return self.grows(t[1], p)
        if t[0] == 'flatmap' and p[0] == 'flatmap' and t == p:
            return SAME
        return ANY

    def absent(self, m, k):
        return self.s.decide(isvar(mapget(m, k), (0,), T.UNIVERSE.get(OPT, 2))) is True or self.s.decide(mem(k, ('keys', m))) is False

    def longer(self, t, base):
        return self.s.decide(compare(seq_len(t), seq_len(base), EQ0)) is False

    def longer_at(self, t, base):
        """facts compare the size of an entry before and after"""
        for g in self.s.facts():
            if g[0] != 'I' or len(g[1]) != 2 or any(lo <= 0 <= hi for lo, hi in g[2]):
                continue
            (a, ca), (b, cb) = g[1]
            if ca != -cb or a[0] != 'len' or b[0] != 'len':
                continue
            for x, y in ((a[1], b[1]), (b[1], a[1])):
                if x[0] == 'set' and ('sub', y) in x[1] and entry_of(y) and entry_of(y)[0] == base and t[0] == 'rel':
                    k = entry_of(y)[1]
                    if all(pair_seg(k, q) in set_segs(t[2]) for q in x[1] if q != ('sub', y)):
                        return True
            ea, eb = entry_of(a[1]), entry_of(b[1])
            if ea and eb and ea[1] == eb[1] and {ea[0], eb[0]} == {t, base}:
                return True
        return False

    def new_in(self, x, base):
        """the choice: the sequence of new elements of x (not in base) has elements"""
        if self.choice[0] != 'new':
            return False
        n = self.choice[1]
        if strip(n[2]) != base:
            return False
        for a in (n[1], self.R.I.idents(n[1], 'set'), self.R.I.idents(n[1], 'rel')):
            if a == x or set(set_segs(a)) == set(set_segs(x)) or (a[0] == 'set' and ('sub', x) in a[1]):
                return True
        return False

    # flags
    def flag(self, t, p):
        if t == p:
            return SAME
        if t == FALSE:
            return DEC if self.s.decide(p) is True else SAME
        if t[0] == 'phi':
            M = self.R.owner.get(t)
            if M is not None and self.R.inside(M, self.L):
                return then(self.flag(M.init(t), p), self.through(M, 'flag', t))
        return ANY

    # numbers
    def number(self, t, p):
        out = {}
        d = sub(t, p)
        if d[0] != 'int' or d[1] == 0:
            if t == p:
                for g in self.bounds(p):
                    out[g] = SAME
            return out
        for g in self.bounds(p):
            k, _, sign, rest = g
            out[g] = DEC if sign * d[1] > 0 else ANY
        return out

    def bounds(self, p):
        """('num', p, 1, rest): the facts bound p + rest above, -1: below"""
        out = []
        own = {q for q, _, _ in self.L.phis}
        for g in self.s.facts():
            if g[0] != 'I':
                continue
            c = [n for a, n in g[1] if a == p]
            if len(c) != 1:
                continue
            rest = tuple(x for x in g[1] if x[0] != p)
            if contains(rest, lambda y: y[0] == 'phi' and (y in own or self.R.inside(self.R.owner.get(y), self.L))):
                continue
            if g[2][-1][1] != INF:
                out.append(('num', p, 1 if c[0] > 0 else -1, rest))
            if g[2][0][0] != -INF:
                out.append(('num', p, -1 if c[0] > 0 else 1, rest))
        return out


def entry_of(t):
    """(map, key) of a term that is an entry of a map"""
    if t[0] == 'getor':
        return t[1], t[2]
    if t[0] == 'fld' and t[1][0] == 'mapget':
        return t[1][1], t[1][2]
    return None


# ------------------------------------------------------------- finite spaces
def elements(u):
    """what a container is made of, without what it held before"""
    u = strip(u)
    if u[0] in ('seq', 'set'):
        for q in u[1]:
            if q[0] == 'one':
                yield q[1]
            elif strip(q[1])[0] in ('seq', 'set', 'rel', 'nest', 'mapins'):
                yield from elements(q[1])
            elif strip(q[1])[0] != 'phi':
                yield q[1]
    elif u[0] in ('rel', 'nest'):
        yield from elements(u[1])
        yield from elements(u[2])
    elif u[0] == 'mapins':
        yield from elements(u[1])
        yield u[2]
        yield from elements(u[3])
    elif u[0] in ('drop', 'take', 'maprem', 'updsel', 'skipto', 'skipmin', 'takewhile', 'skipwhile', 'phi'):
        return
    else:
        yield u


def unbounded(t, facts=(), longer=True):
    """parts of an element that may take infinitely many values over the rounds:
    arithmetic on earlier values without a bound, sequences made longer"""
    out = []
    U = Unbounded(longer, out)
    U.go(t, tuple(facts), ())
    return out


class Unbounded:
    def __init__(self, longer, out):
        self.longer, self.out, self.seen = longer, out, set()

    def carried(self, t, bvs):
        """the value comes from a variable of a loop"""
        while True:
            if t[0] in ('fld', 'nth', 'items', 'keys', 'values', 'mapget', 'getor', 'flatmap', 'it', 'sorted', 'unord', 'rev', 'drop', 'take', 'src', 'with'):
                t = t[1]
            elif t[0] == 'el':
                t = t[1]
            elif t[0] == 'bv':
                return dict(bvs).get(t, True)
            elif t[0] in ('phi', 'selfset'):
                return True
            elif t[0] in ('app', 'sym', 'int', 'len'):
                return False
            else:
                return contains(t, lambda x: x[0] == 'phi')

    def go(self, t, facts, bvs):
        if not isinstance(t, tuple) or not t:
            return
        k = (t, facts, bvs)
        if k in self.seen:
            return
        self.seen.add(k)
        if not isinstance(t[0], str):
            for x in t:
                self.go(x, facts, bvs)
            return
        h = t[0]
        if h == 'lin':
            d, c = lin(t)
            for a, n in d.items():
                if n > 0 and (c > 0 or n > 1 or len(d) > 1) and self.carried(a, bvs) and not bounded(a, facts):
                    self.out.append(t)
                self.go(a, facts, bvs)
        elif h == 'flatmap':
            self.go(t[1], facts, bvs)
            b2 = bvs + ((('bv', t[2]), self.carried(t[1], bvs)),)
            for g, ss in t[3]:
                self.go(tuple(ss), facts + tuple(g), b2)
        elif h == 'mul':
            if self.carried(t[1], bvs) or self.carried(t[2], bvs):
                self.out.append(t)
        elif h == 'seq' and len(t[1]) > 1 and any(x[0] == 'sub' and self.carried(x[1], bvs) for x in t[1]):
            if self.longer:
                self.out.append(t)
        elif h in ('phi', 'len', 'in', 'closure', 'wclosure', 'takewhile', 'skipwhile'):
            return
        elif h in ('drop', 'take', 'skipmin', 'takemin', 'nth'):
            self.go(t[1], facts, bvs)
        else:
            for x in t[1:]:
                self.go(x, facts, bvs)


HUGE = 1 << 31      # a constant bound this large bounds nothing in practice


def bounded(a, facts):
    for g in facts:
        if g[0] == 'I':
            for b, n in g[1]:
                if b != a:
                    continue
                end = g[2][-1][1] if n > 0 else -g[2][0][0]
                if end != INF and (len(g[1]) > 1 or end < HUGE):
                    return True
    return False
