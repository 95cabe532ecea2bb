"""C24: equality, hashing and ordering of keys agree."""
from common import *
from natives import by_address
from tables import subst_safe
from model import Model, Seq, Set, Map, Undef
import itertools

TEQ, THASH = 'TerminalEq::terminal_eq', 'TerminalHash::terminal_hash'
EQ, HASH, CMP, PCMP = 'core::cmp::PartialEq', 'core::hash::Hash', 'core::cmp::Ord', 'core::cmp::PartialOrd'
MAPS = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')
LESS, SAME_, MORE = 0, 1, 2


def check(ctx):
    ctx.rule('equality: true whenever all components that matter are equal, false whenever one differs (components are compared by content, terminals by terminal_eq, numbered states by their number)')
    ctx.rule('hash: whenever two values are equal the same data is fed to the hasher in the same order; terminals through terminal_hash only')
    ctx.rule('ordering: Equal exactly for equal values, the reverse for swapped values, partial_cmp and cmp agree')
    keys = key_types(ctx)
    ctx.need(len(keys) >= 5, 'types used as keys')
    for p in sorted(keys):
        ctx.part('keys ' + p, Key(ctx, p).go)


def key_types(ctx):
    """types of the program that are keys of a set or map, what they are made
    of, and those with a comparison of their own"""
    prog = ctx.prog
    found = set()

    def parts(t):
        if not t:
            return
        if t[0] in ('ref', 'ptr'):
            parts(t[2])
        elif t[0] == 'tuple':
            for x in t[1]:
                parts(x)
        elif t[0] == 'adt':
            if t[1].startswith('pango'):
                if t[1] in found:
                    return
                found.add(t[1])
                a = prog.adts.get(t[1])
                if has(prog, EQ, t[1]):
                    for v in a['v'] if a and not t[1].endswith('::State') else ():
                        for f in v['f']:
                            parts(f['ty'])
            for x in t[2]:
                parts(x)

    def look(t):
        if not isinstance(t, tuple):
            return
        if len(t) == 3 and t[0] == 'adt' and isinstance(t[1], str) and t[1].rsplit('::', 1)[-1].rstrip('<>') in MAPS and t[2]:
            parts(t[2][0])
        for x in t:
            look(x)
    for b in prog.bodies.values():
        for t in b['ltys']:
            look(t)
    for a in prog.adts.values():
        for v in a['v']:
            for f in v['f']:
                look(f['ty'])
    for b in prog.bodies.values():
        if b['name'] in ('eq', 'cmp', 'partial_cmp', 'hash') and b['of_trait'] and not b['derived']:
            p = self_adt(b)
            if p:
                parts(('adt', p, ()))
    # ways to look at a position are no keys
    return {p for p in found if has(prog, EQ, p)}


def method(prog, trait, p):
    name = {EQ: 'eq', HASH: 'hash', CMP: 'cmp', PCMP: 'partial_cmp'}[trait]
    r = [b for b in prog.bodies.values() if b['name'] == name and self_adt(b) == p and not b['closure'] and b['of_trait'] and b['of_trait'] == trait]
    if trait in (EQ, PCMP):
        r = [b for b in r if adt_of(b['ltys'][2]) == p]
    return r


def adt_of(t):
    while t and t[0] == 'ref':
        t = t[2]
    return t[1] if t and t[0] == 'adt' else None


def has(prog, trait, p):
    return bool(method(prog, trait, p))


def places(t, m):
    """addresses do not follow from equal content"""
    r = {}
    for x in subterms(t):
        if x[0] == 'app' and x[1] == 'addr':
            y = m.get(x, x)
            r[x] = sym('&' + show(y[2]))
    return subst_safe(t, r) if r else t


def pool(t):
    """a few values of a component"""
    while t and (t[0] in ('ref', 'ptr') or t[0] == 'adt' and t[1].endswith('NonNull')):
        t = t[2] if t[0] != 'adt' else t[2][0]
    if not t:
        return None
    if t[0] == 'prim':
        return [False, True] if t[1] == 'bool' else [0, 1, 2]
    if t[0] == 'param':
        return [0, 1]
    if t[0] != 'adt':
        return None
    n = t[1].rsplit('::', 1)[-1]
    if n in ('Vec', 'VecDeque', 'String'):
        return [Seq(()), Seq((0,)), Seq((1,)), Seq((0, 1)), Seq((1, 0))]
    if n in ('HashSet', 'BTreeSet'):
        return [Set(()), Set((0,)), Set((1,)), Set((0, 1))]
    if n in ('HashMap', 'BTreeMap'):
        vs = (pool(t[2][1]) or [0, 1])[:3]
        return [Map()] + [Map({0: v}) for v in vs] + [Map({1: v}) for v in vs] + [Map({0: v, 1: w}) for v in vs for w in vs]
    if t[1].startswith('pango'):
        return [0, 1]
    return None


class Key:
    def __init__(self, ctx, path):
        self.ctx, self.path, self.prog = ctx, path, ctx.prog
        self.name = '%s %s' % ('lexer' if path.startswith(L) else 'parser', path.rsplit('::', 1)[-1])

    def go(self):
        ctx = self.ctx
        m = {t: method(self.prog, t, self.path) for t in (EQ, HASH, CMP, PCMP)}
        for t, bs in m.items():
            if len(bs) > 1:
                raise AnchorError('%s of %s found %d times' % (t, self.path, len(bs)))
        I = self.I = interp(ctx)
        a = self.prog.adts[self.path]
        st = State()
        self.base = st
        b = m[EQ][0]
        self.args = [sym_of(I, t, n) for t, n in ((b['ltys'][1], 'self'), (b['ltys'][2], 'other'))]
        self.rows = self.run(b, self.args)
        self.components(a)
        self.equality(b)
        if m[HASH]:
            self.hashing(m[HASH][0])
        if m[CMP]:
            self.ordering(m[CMP][0], False)
        if m[PCMP]:
            self.ordering(m[PCMP][0], True)
        if m[CMP] and m[PCMP]:
            self.agree(m[CMP][0], m[PCMP][0])
        ctx.add_interp(I)

    def run(self, b, args):
        outs = self.I.call_body(State(), b, list(args), ())
        self.ctx.need(any(k == 'ret' for _, k, _ in outs), 'result of ' + b['pretty'])
        for s, k, v in outs:
            if k == 'panic':
                self.ctx.unknown('%s: %s may panic' % (self.name, b['name']), str(v)[:200])
        rows = [o for o in outs if o[1] == 'ret']
        return split_bool(self.I, rows) if b['name'] == 'eq' else rows

    # ------------------------------------------------------------ components
    def components(self, a):
        """per variant: pairs of components that matter, with the term saying that they are equal"""
        self.parts = {}
        x, y = self.args
        for i, v in enumerate(a['v']):
            ps = []
            ints = [f for f in v['f'] if f['ty'] == ('prim', 'usize')]
            for j, f in enumerate(v['f']):
                if self.path.endswith('::State') and len(ints) == 1 and f is not ints[0]:
                    continue
                p, q = fld(x, i, j), fld(y, i, j)
                p, q = self.I.freeze(self.base, p), self.I.freeze(self.base, q)
                t = f['ty']
                while t and (t[0] in ('ref', 'ptr') or t[0] == 'adt' and t[1].endswith('NonNull')):
                    t = t[2] if t[0] != 'adt' else t[2][0]
                if self.path.endswith('table::Terminal') and t and t[0] == 'param':
                    ps.append((f['n'], p, q, ('app', TEQ, p, q), ('app', TEQ, q, p)))
                else:
                    ps.append((f['n'], p, q, eq(p, q), None))
            self.parts[i] = ps
        self.enum = a['k'] != 'struct'

    def cases(self, s):
        """the state split by the variants of both sides: (state, i, j)"""
        if not self.enum:
            yield s, 0, 0
            return
        u = uni(self.path)
        for i in u:
            for j in u:
                k = s.fork()
                if k.assume(isvar(self.args[0], (i,), u)) and k.assume(isvar(self.args[1], (j,), u)):
                    yield k, i, j

    def odd(self, s, *ts):
        known = (TEQ, THASH, 'addr_eq', 'addr', 'cmp')
        return {y for g in list(s.facts()) + list(ts) for y in opaque_in(g, known)}

    def claim(self, s, what, txt, b, *ts):
        odd = self.odd(s, *ts)
        if b['name'] == 'eq' and any(contains(g, lambda z: z[0] == 'flatmap') for g in s.facts() if isinstance(g, tuple)):
            w = self.witness(what)
            if w is None:
                odd = odd | {'collections'}
            else:
                txt = '%s: %s' % (txt, w)
        if odd:
            self.ctx.unknown('%s: %s' % (self.name, what), '%s (%s)' % (txt, ', '.join(sorted(odd))[:100]))
        else:
            self.ctx.violate('%s: %s' % (self.name, what), txt, site(b))

    def variant(self, i):
        n = T.NAMES.get(self.path)
        return n[i] if self.enum and n else ''

    # ------------------------------------------------------------ equality
    def equality(self, b):
        for s, _, v in self.rows:
            if v == BOOL(True):
                for k, i, j in self.cases(s):
                    if i != j:
                        self.claim(k, 'unequal variants', '%s is equal to %s, when %s' % (self.variant(i), self.variant(j), facts_of(k)[:200]), b)
                        continue
                    for n, p, q, e, e2 in self.parts[i]:
                        what = 'equal values have equal %s' % ((self.variant(i) + '.' if self.enum else '') + n)
                        if k.decide(e) is True or e2 and k.decide(e2) is True or same(k, p, q) and not e2:
                            self.ctx.ok('%s: %s' % (self.name, what))
                        elif self.may_differ(k, p, q, e, e2):
                            self.claim(k, what, 'may differ although equal, when %s' % facts_of(k)[:200], b)
                        else:
                            self.ctx.unknown('%s: %s' % (self.name, what), facts_of(k)[:200])
                    if not self.parts[i]:
                        self.ctx.ok('%s: equal %s' % (self.name, self.variant(i)))
            else:
                bad = False
                for k, i, j in self.cases(s):
                    if i != j:
                        continue
                    for n, p, q, e, e2 in self.parts[i]:
                        if not k.assume(e) or e2 and not k.assume(e2):
                            break
                        if e2 is None and any(k.decide(t) is False for t in self.equalities(p, q)):
                            break
                    else:
                        if self.contradicts(k):
                            continue
                        bad = True
                        self.claim(k, 'same content is equal', 'not equal although the content is the same, when %s' % facts_of(k)[:200], b)
                if not bad:
                    self.ctx.ok('%s: same content is equal' % self.name)

    def equalities(self, p, q):
        return (eq(p, q), eq(q, p))

    def contradicts(self, s):
        """facts that cannot hold when the known equalities do"""
        m = self.same_map(s)
        for a, v in s.A.items():
            t = subst_safe(a, m)
            if t != a and t[0] == 'bool' and t[1] != v:
                return True
            if t[0] == 'eq' and t[1] == t[2] and v is False:
                return True
        for vec, iv in s.I.items():
            d = s.fork()
            t = INT(0)
            for x, c in vec:
                t = add(t, mul(INT(c), subst_safe(x, m)))
            if d.decide(compare(t, INT(0), iv)) is False:
                return True
        return False

    def may_differ(self, s, p, q, e, e2):
        k = s.fork()
        if e2:
            return k.assume(e, False)
        return k.assume(e, False) and not self.contradicts(k)

    # ------------------------------------------------------------ hashing
    def same_map(self, s):
        """equal terms: those of the second value replaced by those of the first"""
        m = {}
        for a, v in s.A.items():
            if v is True and a[0] == 'eq':
                x, y = a[1], a[2]
                if contains(x, lambda z: z[0] == 'sym' and str(z[1]).startswith('other')):
                    m[x] = y
                else:
                    m[y] = x
            if v is True and a[0] == 'app' and a[1] == 'addr_eq':
                x, y = a[2], a[3]
                if not contains(x, lambda z: z[0] == 'sym' and str(z[1]).startswith('other')):
                    x, y = y, x
                m[('app', 'addr', x)] = ('app', 'addr', y)
        return m

    def data(self, s):
        out = []
        for e in s.ev:
            if e[0] == 'hash':
                out.append(('hash', (e[1],)))
            elif e[0] == 'call':
                out.append((e[1], tuple(x for x in e[2] if not contains(x, lambda z: z == sym('state')))))
        return out

    def hashing(self, b):
        h = sym('state')
        mk = lambda v: self.run_hash(b, v)
        one, two = mk(self.args[0]), mk(self.args[1])
        n = 0
        for s, _, v in self.rows:
            if v != BOOL(True):
                continue
            for s1 in one:
                k = meet(s, s1)
                if k is None:
                    continue
                for s2 in two:
                    k2 = meet(k, s2)
                    if k2 is None or self.contradicts(k2):
                        continue
                    n += 1
                    self.fed(k2, self.data(s1), self.data(s2), b)
        if not n:
            self.ctx.unknown('%s: hash' % self.name, 'no equal values')

    def run_hash(self, b, v):
        I = self.I
        st = State()
        r = I.new_root(st, sym('state'), 'state')
        outs = I.call_body(st, b, [v, ('ref', r, ())], ())
        return [s for s, k, _ in outs if k == 'ret']

    def witness(self, what):
        """values of the components for which equality gives the wrong answer"""
        if self.enum:
            return None
        ps = self.parts[0]
        pools = [pool(f['ty']) for f in self.prog.adts[self.path]['v'][0]['f'] if f['n'] in [x[0] for x in ps]]
        if any(x is None for x in pools):
            return None
        one = list(itertools.product(*pools))
        for a in one:
            for b in one:
                env = {}
                for (n, p, q, e, e2), x, y in zip(ps, a, b):
                    env[p], env[q] = x, y
                m = Model(env, {})
                try:
                    vs = {v[1] for s, _, v in self.rows if m.holds(s.facts())}
                except (Undef, TypeError, IndexError, AttributeError, KeyError):
                    continue
                if len(vs) == 1 and vs != {a == b}:
                    return '%r and %r' % (list(a), list(b))
        return None

    def fed(self, s, one, two, b):
        what = 'equal values hash equally'
        if len(one) != len(two):
            return self.claim(s, what, 'different amounts of data, when %s' % facts_of(s)[:200], b)
        m = self.same_map(s)
        for (f, xs), (g, ys) in zip(one, two):
            if f != g or len(xs) != len(ys):
                return self.claim(s, what, '%s against %s, when %s' % (f, g, facts_of(s)[:200]), b)
            for x, y in zip(xs, ys):
                if f == THASH and (s.decide(('app', TEQ, x, y)) is True or s.decide(('app', TEQ, y, x)) is True):
                    continue
                y2 = subst_safe(places(y, m), m)
                x2 = subst_safe(places(x, m), m)
                if same(s, x, y) or same(s, x2, y2):
                    continue
                return self.claim(s, what, 'hashed: %s and %s, when %s' % (show(x)[:100], show(y)[:100], facts_of(s)[:200]), b, *((x, y) if f != THASH else ()))
        self.ctx.ok('%s: %s' % (self.name, what))

    # ------------------------------------------------------------ ordering
    def orders(self, b, args):
        out = []
        for s, _, v in self.run(b, args):
            if v[0] == 'adt' and v[1] == OPT:
                if v[2] == 0:
                    out.append((s, None))
                    continue
                v = v[3][0]
            if v[0] == 'adt':
                out.append((s, v[2]))
                continue
            u = uni('core::cmp::Ordering') if 'core::cmp::Ordering' in T.UNIVERSE else (0, 1, 2)
            for i in u:
                k = s.fork()
                if k.assume(isvar(v, (i,), u)):
                    out.append((k, i))
        return out

    def ordering(self, b, partial):
        mine = self.orders(b, self.args)
        back = self.orders(b, self.args[::-1])
        n = b['name']
        for s, v in mine:
            if v is None:
                self.claim(s, n + ' is total', 'not ordered, when %s' % facts_of(s)[:200], b)
                continue
            for s2, _, e in self.rows:
                k = meet(s, s2)
                if k is None or self.contradicts(k):
                    continue
                if (v == SAME_) == (e == BOOL(True)):
                    self.ctx.ok('%s: %s is Equal for equal values' % (self.name, n))
                else:
                    self.claim(k, n + ' is Equal for equal values', 'compares as %s although %s, when %s' % (
                        ('Less', 'Equal', 'Greater')[v], 'equal' if e == BOOL(True) else 'not equal', facts_of(k)[:200]), b)
            for s2, w in back:
                k = meet(s, s2)
                if k is None or w is None:
                    continue
                if v + w == 2:
                    self.ctx.ok('%s: %s swapped' % (self.name, n))
                else:
                    self.claim(k, n + ' swapped', 'compares as %s and, swapped, as %s, when %s' % (
                        ('Less', 'Equal', 'Greater')[v], ('Less', 'Equal', 'Greater')[w], facts_of(k)[:200]), b)

    def agree(self, c, p):
        for s, v in self.orders(c, self.args):
            for s2, w in self.orders(p, self.args):
                k = meet(s, s2)
                if k is None:
                    continue
                if v == w:
                    self.ctx.ok('%s: cmp and partial_cmp agree' % self.name)
                else:
                    self.claim(k, 'cmp and partial_cmp agree', 'they give %s and %s, when %s' % (v, w, facts_of(k)[:200]), p)
