"""Rounds of a loop in a finite model.

The rows of a loop are followed from given values of its unknown inputs: the row
whose facts hold gives the next values.  A loop whose rounds come back to the
same values, or do not end within a bound that is far above what a model of that
size needs, has an infinite run.  Only that decides; loops inside a row are
followed first."""
import time
from model import *
from rank import strip


class Diverges(Exception):
    def __init__(self, L, why):
        super().__init__(why)
        self.loop, self.why = L, why


class PSeq(Seq):
    """a sequence that knows where its elements come from"""
    def __new__(cls, xs, prov):
        t = super().__new__(cls, xs)
        t.prov = prov
        return t


class RModel(Model):
    def with_(self, k, v):
        m = RModel.__new__(RModel)
        m.env = dict(self.env)
        m.env[k] = v
        m.fns = self.fns
        m.fuel = self.fuel
        return m

    def traced(self, t):
        """the elements of an iterator with their sources"""
        t = strip_iter(t)
        if t[0] == 'flatmap':
            out, prov = [], []
            src = self.traced(t[1])
            bv = ('bv', t[2])
            m = self.with_(bv, None)
            for n, x in enumerate(src):
                m.env[bv] = x
                up = src.prov[n] if isinstance(src, PSeq) else None
                for g, ss in t[3]:
                    if not m.holds(g):
                        continue
                    for s in ss:
                        if s[0] == 'one':
                            out.append(m.ev(s[1]))
                            prov.append((x, up, None))
                            continue
                        for s2 in segs(s[1]):
                            if s2[0] == 'one':
                                out.append(m.ev(s2[1]))
                                prov.append((x, up, None))
                                continue
                            y = m.traced(s2[1])
                            for k, e in enumerate(y):
                                out.append(e)
                                prov.append((x, up, y.prov[k] if isinstance(y, PSeq) else None))
            return PSeq(out, prov)
        v = self.ev(t)
        return v if isinstance(v, PSeq) else Seq(elems(v))

    def h_drop(self, t):
        v = self.ev(t[1])
        if isinstance(v, PSeq):
            k = self.num(t[2])
            return PSeq(v[k:], v.prov[k:])
        if isinstance(v, frozenset):
            m = self.with_(t[1], Seq(elems(v)))
            return m.h_drop(t)
        return super().h_drop(t)

    def head(self, t):
        v = self.ev(t)
        if not isinstance(v, PSeq) or not v:
            raise Undef('source')
        return v

    def chain(self, t):
        """provenance of the head: (source, its provenance, inner)"""
        if t[0] == 'src':
            p = self.chain(t[1])
            if p is None or p[1] is None:
                raise Undef('source')
            return p[1]
        return self.head(t).prov[0]

    def h_src(self, t):
        return self.chain(t[1])[0]

    def h_el(self, t):
        """the element of t[1] the head of the iterator was made from"""
        v = self.head(t[2])
        xs = elems(self.ev(t[1]))
        c = [v[0]]
        todo = [v.prov[0]]
        while todo:
            p = todo.pop()
            if p is not None:
                c.append(p[0])
                todo += p[1:]
        c = [x for x in c if any(x is y or (x == y and type(x) is type(y)) for y in xs)]
        if not c or any(x != c[0] for x in c):
            raise Undef('element')
        return c[0]


def strip_iter(t):
    while t[0] == 'it':
        t = t[1]
    return t


class Rounds:
    LIMIT = 600

    def __init__(self, I, env, fns, deadline, limit=LIMIT):
        self.I, self.fns, self.deadline = I, fns, deadline
        self.env = dict(env)
        self.budget = 20000
        self.need = {}
        self.limit = limit

    def model(self, env):
        return RModel(env, self.fns)

    def inner(self, L, r):
        """loops directly inside whose variables the row speaks of, in order"""
        k = (L.id, id(r))
        if k not in self.need:
            ids = []
            for x in subterms((tuple(r['facts']), tuple(r['upd'].items()))):
                if x[0] == 'phi':
                    for M in self.I.loops.values():
                        if M.parent == L.id and M.id not in ids and any(p == x for p, _, _ in M.phis):
                            ids.append(M.id)
            order = [e[1] for e in r['ev'] if e[0] == 'loop']
            for i in list(ids):
                # loops that feed a needed one
                for j in order:
                    if j not in ids and any(p == x for _, i0, _ in self.I.loops[i].phis for x in subterms(i0) for p, _, _ in self.I.loops[j].phis):
                        ids.append(j)
            self.need[k] = sorted(ids, key=lambda i: order.index(i) if i in order else i)
        return [self.I.loops[i] for i in self.need[k]]

    def run(self, L, env):
        """the values of the variables of L at its end"""
        m = self.model(env)
        vals = {}
        its = self.iterators(L)
        for p, i, _ in L.phis:
            try:
                vals[p] = m.traced(i) if p in its else m.ev(i)
            except Undef:
                if p in its:
                    raise
        seen = set()
        for n in range(self.limit):
            self.budget -= 1
            if self.budget < 0 or time.time() > self.deadline:
                raise Undef('budget')
            try:
                k = tuple(sorted((repr(p), repr(v)) for p, v in vals.items()))
                if k in seen:
                    raise Diverges(L, 'comes back to the same values')
                seen.add(k)
            except TypeError:
                pass
            nxt = self.step(L, {**env, **vals})
            if nxt is None:
                return vals
            vals = nxt
        raise Diverges(L, 'does not end in %d rounds' % self.limit)

    def iterators(self, L):
        its = {p for p in L.iters}
        own = {p for p, _, _ in L.phis}
        for r in L.backs:
            for x in subterms((tuple(r['facts']), tuple(r['upd'].items()))):
                while x[0] == 'src':
                    x = x[1]
                if x[0] == 'el':
                    x = x[2]
                if x in own and x[0] == 'phi' and any(y[0] in ('src', 'el') and contains(y, lambda z: z == x) for y in subterms((tuple(r['facts']), tuple(r['upd'].items())))):
                    its.add(x)
        return its

    def step(self, L, env):
        done = {}
        undef = None
        for r in L.backs:
            facts = sorted(r['facts'], key=key)
            if not self.model(env).holds_so_far(facts):
                continue
            e = dict(env)
            try:
                for M in self.inner(L, r):
                    if M.id not in done:
                        done[M.id] = self.run(M, e)
                    e.update(done[M.id])
                m = self.model(e)
                if not m.holds(facts):
                    continue
                out = {}
                for p, _, _ in L.phis:
                    u = r['upd'].get(p, p)
                    if p not in env and u == p:
                        continue
                    try:
                        out[p] = m.ev(u)
                    except Undef:
                        if p in env:
                            raise
                return out
            except Undef as x:
                undef = undef or x
        if undef:
            raise undef
        return None

    def all(self, tops):
        """follows the loops of the outermost level one after the other"""
        env = dict(self.env)
        for L in tops:
            try:
                env.update(self.run(L, env))
            except Undef as e:
                self.undef = str(e)
        return env
