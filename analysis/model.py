"""Values of summary terms in finite models.

A summary that is not syntactically equal to its rule may still denote the same
thing.  It is only called a violation when a finite model of the unknown inputs
separates the two terms.  Terms with uninterpreted parts have no value."""
from terms import *
import terms as T


class Undef(Exception):
    pass


class Seq(tuple):
    def __repr__(self):
        return '<%s>' % ', '.join(map(repr, self))


class Tup(tuple):
    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self))


class Adt(tuple):
    """(path, variant, fields)"""
    def __repr__(self):
        n = T.NAMES.get(self[0])
        nm = n[self[1]] if n and self[1] < len(n) else self[0].split('::')[-1]
        return nm + ('(%s)' % ', '.join(map(repr, self[2])) if self[2] else '')


class Map(dict):
    def __hash__(self):
        return hash(frozenset(self.items()))

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % x for x in self.items())


class Set(frozenset):
    def __repr__(self):
        return '{%s}' % ', '.join(sorted(map(repr, self)))


def none():
    return Adt((OPT, 0, ()))


def some(v):
    return Adt((OPT, 1, (v,)))


def elems(v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, frozenset):
        return sorted(v, key=repr)
    if isinstance(v, Map):
        return [Tup(x) for x in sorted(v.items(), key=repr)]
    raise Undef('elements of %r' % (v,))


class Model:
    def __init__(self, env, fns=None):
        self.env = dict(env)
        self.fns = fns or {}
        self.fuel = 200000

    def with_(self, k, v):
        m = Model.__new__(Model)
        m.env = dict(self.env)
        m.env[k] = v
        m.fns = self.fns
        m.fuel = self.fuel
        return m

    def holds(self, guards):
        """guards may be undefined where an earlier or later one is false"""
        bad = None
        for g in guards:
            try:
                if not self.holds1(g):
                    return False
            except Undef as e:
                bad = bad or e
        if bad:
            raise bad
        return True

    def holds1(self, g):
        for g in (g,):
            if g[0] == 'V':
                v = self.ev(g[1])
                if not isinstance(v, Adt):
                    raise Undef('variant of %r' % (v,))
                if v[1] not in g[2]:
                    return False
            elif g[0] == 'I':
                if not self.inside(g[1], g[2]):
                    return False
            else:
                v = self.ev(g[1])
                if not isinstance(v, bool):
                    raise Undef('truth of %r' % (v,))
                if v != g[2]:
                    return False
        return True

    def holds_so_far(self, guards):
        """no guard that has a value is false"""
        for g in guards:
            try:
                if not self.holds((g,)):
                    return False
            except Undef:
                pass
        return True

    def inside(self, vec, iv):
        n = 0
        for a, c in vec:
            x = self.ev(a)
            if isinstance(x, bool) or not isinstance(x, int):
                raise Undef('number %r' % (x,))
            n += c * x
        return any(lo <= n <= hi for lo, hi in iv)

    def pred(self, p, x):
        """a predicate given as comprehension over the placeholder"""
        if p == ('sym', '_'):
            return True
        if p[0] != 'flatmap' or p[1] != ('sym', '_'):
            raise Undef('predicate')
        m = self.with_(('bv', p[2]), x)
        return any(m.holds(g) for g, ss in p[3] if ss)

    def parts(self, ss):
        out = []
        for s in ss:
            v = self.ev(s[1])
            if s[0] == 'one':
                out.append(v)
            else:
                out.extend(elems(v))
        return out

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        self.fuel -= 1
        if self.fuel < 0:
            raise Undef('fuel')
        f = getattr(self, 'h_' + t[0], None)
        if f is None:
            raise Undef(t[0])
        return f(t)

    def h_int(self, t):
        return t[1]

    def h_bool(self, t):
        return t[1]

    def h_str(self, t):
        return Seq(ord(c) for c in t[1])

    def h_tup(self, t):
        return Tup(self.ev(x) for x in t[1])

    def h_adt(self, t):
        return Adt((t[1], t[2], tuple(self.ev(x) for x in t[3])))

    def h_it(self, t):
        return self.ev(t[1])

    h_unord = h_it

    def h_rev(self, t):
        return Seq(reversed(elems(self.ev(t[1]))))

    def h_sorted(self, t):
        try:
            return Seq(sorted(elems(self.ev(t[1]))))
        except TypeError:
            raise Undef('order')

    def h_fld(self, t):
        v = self.ev(t[1])
        if isinstance(v, Adt):
            if v[1] != t[2] or t[3] >= len(v[2]):
                raise Undef('projection of %r' % (v,))
            return v[2][t[3]]
        if isinstance(v, Tup) and t[3] < len(v):
            return v[t[3]]
        raise Undef('projection of %r' % (v,))

    def h_with(self, t):
        v = self.ev(t[1])
        for vv, i, x in t[2]:
            if isinstance(v, Adt):
                if v[1] != vv:
                    raise Undef('with')
                f = list(v[2])
                f[i] = self.ev(x)
                v = Adt((v[0], v[1], tuple(f)))
            elif isinstance(v, Tup):
                f = list(v)
                f[i] = self.ev(x)
                v = Tup(f)
            else:
                raise Undef('with')
        return v

    def h_lin(self, t):
        n = t[2]
        for a, c in t[1]:
            x = self.ev(a)
            if not isinstance(x, int):
                raise Undef('number')
            n += c * x
        return n

    def h_in(self, t):
        return self.inside(t[1], t[2])

    def h_mul(self, t):
        return self.num(t[1]) * self.num(t[2])

    def num(self, t):
        x = self.ev(t)
        if isinstance(x, bool) or not isinstance(x, int):
            raise Undef('number')
        return x

    def h_mod(self, t):
        b = self.num(t[2])
        if b <= 0:
            raise Undef('mod')
        return self.num(t[1]) % b

    def h_len(self, t):
        return len(elems(self.ev(t[1])))

    def h_seq(self, t):
        return Seq(self.parts(t[1]))

    def h_set(self, t):
        return Set(self.parts(t[1]))

    def h_nth(self, t):
        v = elems(self.ev(t[1]))
        k = self.num(t[2])
        if not 0 <= k < len(v):
            raise Undef('index')
        return v[k]

    def h_drop(self, t):
        v = elems(self.ev(t[1]))
        k = self.num(t[2])
        if not 0 <= k <= len(v):
            raise Undef('drop')
        return Seq(v[k:])

    def h_take(self, t):
        v = elems(self.ev(t[1]))
        k = self.num(t[2])
        if not 0 <= k <= len(v):
            raise Undef('take')
        return Seq(v[:k])

    def h_takemin(self, t):
        return Seq(elems(self.ev(t[1]))[:max(0, self.num(t[2]))])

    def h_skipmin(self, t):
        return Seq(elems(self.ev(t[1]))[max(0, self.num(t[2])):])

    def h_takewhile(self, t):
        out = []
        for x in elems(self.ev(t[1])):
            if not self.pred(t[2], x):
                break
            out.append(x)
        return Seq(out)

    def h_skipwhile(self, t):
        v = list(elems(self.ev(t[1])))
        while v and self.pred(t[2], v[0]):
            v.pop(0)
        return Seq(v)

    def h_skipto(self, t):
        v = list(elems(self.ev(t[1])))
        while v and not self.pred(t[2], v[0]):
            v.pop(0)
        return Seq(v)

    def h_updnth(self, t):
        v = list(elems(self.ev(t[1])))
        k = self.num(t[2])
        if not 0 <= k < len(v):
            raise Undef('index')
        v[k] = self.ev(t[3])
        return Seq(v)

    def h_resize(self, t):
        v, n = elems(self.ev(t[1])), self.num(t[2])
        return Seq(list(v)[:n] + [self.ev(t[3])] * (n - len(v)))

    def h_updsel(self, t):
        v = list(elems(self.ev(t[1])))
        for i, x in enumerate(v):
            if self.pred(t[2], x):
                v[i] = self.ev(t[3])
                return Seq(v)
        raise Undef('updsel')

    def h_enum(self, t):
        k = self.num(t[2]) if len(t) > 2 else 0
        return Seq(Tup((k + i, x)) for i, x in enumerate(elems(self.ev(t[1]))))

    def h_zip(self, t):
        a, b = t[1], t[2]
        if a[0] == 'repeat' and len(a) == 2:
            x = self.ev(a[1])
            return Seq(Tup((x, y)) for y in elems(self.ev(b)))
        if b[0] == 'repeat' and len(b) == 2:
            x = self.ev(b[1])
            return Seq(Tup((y, x)) for y in elems(self.ev(a)))
        return Seq(Tup(x) for x in zip(elems(self.ev(a)), elems(self.ev(b))))

    def h_flatmap(self, t):
        out = []
        bv = ('bv', t[2])
        m = self.with_(bv, None)
        src = self.ev(t[1])
        for x in elems(src):
            m.env[bv] = x
            for g, ss in t[3]:
                if m.holds(g):
                    out.extend(m.parts(ss))
        return Set(out) if isinstance(src, frozenset) else Seq(out)

    def h_newof(self, t):
        r = self.ev(t[2])
        out = []
        for x in elems(self.ev(t[1])):
            if isinstance(r, Map):
                if isinstance(x, Tup) and len(x) == 2 and x[1] in r.get(x[0], ()):
                    continue
            elif x in r:
                continue
            if x not in out:
                out.append(x)
        return Seq(out)

    def h_closure(self, t):
        r0 = self.ev(t[1])
        work = list(elems(self.ev(t[2])))
        if isinstance(r0, Map):
            return self.relclosure(r0, work, t[3])
        res = set(elems(r0))
        n = 0
        m = self.with_(('selfset',), None)
        while work:
            n += 1
            if n > 2000:
                raise Undef('closure does not end')
            x = work.pop(0)
            m.env[('selfset',)] = Set([x])
            for y in elems(m.ev(t[3])):
                if y not in res:
                    res.add(y)
                    work.append(y)
        return Set(res)

    def h_wclosure(self, t):
        raise Undef('wclosure')

    def relclosure(self, r0, work, step):
        """elements are (pair, work item) or pairs"""
        res = {k: set(v) for k, v in r0.items()}
        n = 0
        m = self.with_(('selfset',), None)
        while work:
            n += 1
            if n > 2000:
                raise Undef('closure does not end')
            x = work.pop(0)
            m.env[('selfset',)] = Set([x])
            for y in elems(m.ev(step)):
                if not isinstance(y, Tup) or len(y) != 2:
                    raise Undef('pair')
                if isinstance(y[0], Tup) and len(y[0]) == 2 and y[0][1] == y[1]:
                    (k, e), w = y[0], y[1]
                else:
                    (k, e), w = y, y
                if e not in res.setdefault(k, set()):
                    res[k].add(e)
                    work.append(w)
        return Map((k, Set(v)) for k, v in res.items())

    # maps
    def map_(self, t):
        v = self.ev(t)
        if not isinstance(v, Map):
            raise Undef('map %r' % (v,))
        return v

    def h_emap(self, t):
        return Map()

    def h_items(self, t):
        return Seq(elems(self.map_(t[1])))

    def h_keys(self, t):
        return Seq(sorted(self.map_(t[1]), key=repr))

    def h_mapget(self, t):
        m = self.map_(t[1])
        k = self.ev(t[2])
        return some(m[k]) if k in m else none()

    def h_getor(self, t):
        m = self.map_(t[1])
        k = self.ev(t[2])
        return m[k] if k in m else self.ev(t[3])

    def h_mapins(self, t):
        m = Map(self.map_(t[1]))
        v = self.ev(t[3])
        m[self.ev(t[2])] = v
        return m

    def h_maprem(self, t):
        m = Map(self.map_(t[1]))
        m.pop(self.ev(t[2]), None)
        return m

    def h_mapof(self, t):
        return Map((x[0], x[1]) for x in elems(self.ev(t[1])))

    def h_rel(self, t):
        m = Map(self.map_(t[1]))
        for p in elems(self.ev(t[2])):
            if not isinstance(p, Tup) or len(p) != 2:
                raise Undef('pair')
            m[p[0]] = Set(elems(m.get(p[0], Set()))) | {p[1]}
            m[p[0]] = Set(m[p[0]])
        return m

    def h_nest(self, t):
        m = Map(self.map_(t[1]))
        for p in elems(self.ev(t[2])):
            if not isinstance(p, Tup) or len(p) != 2 or not isinstance(p[1], Tup) or len(p[1]) != 2:
                raise Undef('triple')
            x = Map(m.get(p[0], Map()))
            x[p[1][0]] = Set(elems(x.get(p[1][0], Set())) + [p[1][1]])
            m[p[0]] = x
        return m

    # truth
    def truth(self, t):
        v = self.ev(t)
        if not isinstance(v, bool):
            raise Undef('truth')
        return v

    def h_not(self, t):
        return not self.truth(t[1])

    def h_and(self, t):
        return all([self.truth(x) for x in t[1]])

    def h_xor(self, t):
        return self.truth(t[1]) != self.truth(t[2])

    def h_isvar(self, t):
        v = self.ev(t[1])
        if not isinstance(v, Adt):
            raise Undef('variant')
        return v[1] in t[2]

    def h_eq(self, t):
        return norm(self.ev(t[1])) == norm(self.ev(t[2]))

    def h_mem(self, t):
        return self.ev(t[1]) in elems(self.ev(t[2]))

    def h_subset(self, t):
        return set(elems(self.ev(t[1]))) <= set(elems(self.ev(t[2])))

    def h_app(self, t):
        f = self.fns.get(t[1]) or FNS.get(t[1])
        if f is None:
            raise Undef('app ' + str(t[1]))
        return f(*[self.ev(x) for x in t[2:]])


def dedup(v):
    return Seq(x for i, x in enumerate(v) if i == 0 or v[i - 1] != x)


def div(a, b):
    if not isinstance(a, int) or not isinstance(b, int) or a < 0 or b <= 0:
        raise Undef('div')
    return a // b


def extreme(f):
    def g(v):
        v = elems(v)
        if not v or not all(isinstance(x, int) for x in v):
            raise Undef('extreme of %r' % (v,))
        return f(v)
    return g


def narrow(bits):
    def g(v):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Undef('cast of %r' % (v,))
        return v % (1 << bits)
    return g


def of_char(f):
    def g(c):
        # characters for which the tables of the two languages are the same
        if isinstance(c, bool) or not isinstance(c, int) or not 0 <= c < 0x250:
            raise Undef('class of %r' % (c,))
        return f(chr(c))
    return g


FNS = {'dedup': dedup, 'div': div, 'minof': extreme(min), 'maxof': extreme(max)}
FNS.update({'cast:u%d' % n: narrow(n) for n in (8, 16, 32, 64)})
FNS['cast:usize'] = narrow(64)


def norm(v):
    """value up to the representation of collections"""
    if isinstance(v, Map):
        return ('map', frozenset((norm(k), norm(x)) for k, x in v.items()))
    if isinstance(v, frozenset):
        return ('set', frozenset(norm(x) for x in v))
    if isinstance(v, Adt):
        return ('adt', v[0], v[1], tuple(norm(x) for x in v[2]))
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    return v


def table_value(m, rows):
    """result of a table of outcomes (state, kind, value) in model m:
    (kind, value) of the row that applies; None when no row does"""
    hit = []
    for s, k, v in rows:
        if m.holds(sorted(s.facts(), key=key)):
            hit.append((k, m.ev(v) if k == 'ret' else v))
    return hit

FNS['char::len_utf8'] = lambda c: 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
FNS['char::len_utf16'] = lambda c: 1 if c < 0x10000 else 2
FNS['char::is_alphabetic'] = of_char(str.isalpha)
FNS['char::is_whitespace'] = of_char(lambda c: c in '\t\n\x0b\x0c\r \x85\xa0')
FNS['char::is_numeric'] = of_char(str.isnumeric)
FNS['char::is_control'] = of_char(lambda c: c < ' ' or '\x7f' <= c < '\xa0')
FNS['char::is_uppercase'] = of_char(str.isupper)
FNS['char::is_lowercase'] = of_char(str.islower)
