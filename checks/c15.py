"""C15: peeking and conditional consumption."""
from common import *
from model import Model, Seq, Adt, Undef, none, some
import natives as N
import itertools

DYN = 'dyncall'
TRAIT = {'Peekableable::peek': N._peek, 'Peekableable::peek_mut': N._peek_mut, 'Peekableable::next_if': N._next_if, 'Peekableable::next_if_eq': N._next_if}
PEEK = 'core::iter::adapters::peekable::Peekable'


def check(ctx):
    ctx.rule('peek and peek_mut give the first remaining item and leave all items and the current one')
    ctx.rule('next takes the first remaining item; next_if, next_if_eq and the cautious adaptors take it exactly when the condition accepts it, otherwise nothing changes')
    ctx.rule('the current item becomes the item taken, and only then')
    for cls in ('Peekable', 'CachedPeekable'):
        for name in ('peek', 'peek_mut', 'next_if', 'next_if_eq'):
            ctx.part('%s::%s' % (cls, name), Op(ctx, cls, name).go)
    ctx.part('CachedPeekable::next', Op(ctx, 'CachedPeekable', 'next').go)
    ctx.part('CautiousMapWhile::next', Op(ctx, 'CautiousMapWhile', 'next').go)
    ctx.part('CautiousTakeWhile::next', Op(ctx, 'CautiousTakeWhile', 'next').go)
    ctx.part('start', start, ctx)
    ctx.part('adaptors', adaptors, ctx)


def pred(b):
    return b['path'].startswith(L) if 'path' in b else True


class Op:
    def __init__(self, ctx, cls, name):
        self.ctx, self.cls, self.name = ctx, cls, name
        self.what = '%s::%s' % (cls, name)

    def go(self):
        ctx = self.ctx
        b = self.b = fn(ctx, self.cls, self.name, L)
        I = self.I = interp(ctx, natives=TRAIT)
        st = State()
        args = self.args = sym_args(I, st, b)
        me = I.deref(st, args[0])
        self.pre = me
        self.place(me)
        outs = I.call_body(st, b, args, ())
        ctx.add_interp(I)
        ctx.need(any(k == 'ret' for _, k, _ in outs), 'result of ' + self.what)
        self.cond = None
        if self.cls.startswith('Cautious'):
            self.cond = 'map' if 'Map' in self.cls else 'bool'
            fs = [x for x in me[3] if x != self.q and x[0] == 'sym']
            ctx.need(len(fs) == 1, 'condition of ' + self.what)
            self.p = fs[0]
        elif self.name == 'next_if':
            self.cond, self.p = 'bool', I.deref(st, args[1])
        elif self.name == 'next_if_eq':
            self.cond, self.p = 'eq', I.deref(st, args[1])
        for s, k, v in outs:
            if k == 'panic':
                if s.consistent() if hasattr(s, 'consistent') else True:
                    self.claim(s, 'no panic', 'panics (%s), when %s' % (v, facts_of(s)[:200]), self.odd(s))
            elif k == 'ret':
                self.row(s, v)

    def place(self, me):
        """the remaining items and how to find them in a later state"""
        if me[0] == 'it':
            self.at, self.q = (), me[1]
            return
        ix = [i for i, x in enumerate(me[3]) if x[0] == 'it'] if me[0] == 'adt' else []
        if not ix and self.cls.startswith('Cautious'):
            a = self.ctx.prog.adts[me[1]]
            ix = [i for i, f in enumerate(a['v'][0]['f']) if f['ty'] and f['ty'][0] == 'ref']
        self.ctx.need(len(ix) == 1, 'remaining items of ' + self.cls)
        self.at = ix[0]
        x = me[3][ix[0]]
        self.q = x[1] if x[0] == 'it' else x

    def now(self, s):
        v = self.I.deref(s, self.args[0])
        if self.at == ():
            x = v
        else:
            x = v[3][self.at]
        x = self.I.deref(s, x)
        return x[1] if x[0] == 'it' else x

    def odd(self, s, *ts):
        ok = (DYN,)
        return {y for g in list(s.facts()) + list(ts) for y in opaque_in(g, ok)}

    def claim(self, s, what, txt, odd):
        key_ = '%s: %s' % (self.what, what)
        if odd:
            self.ctx.unknown(key_, '%s (%s)' % (txt, ', '.join(sorted(odd))[:100]))
        else:
            self.ctx.violate(key_, txt, site(self.b))

    def answer(self, x):
        if self.cond == 'eq':
            return eq(x, self.p)
        return ('app', DYN, self.p, x)

    def row(self, s, v):
        """one outcome, split into the cases of the rule"""
        for some_ in (True, False):
            k = s.fork()
            if not k.assume(compare(seq_len(self.q), INT(1), ((0, INF),)), some_):
                continue
            if not some_:
                self.case(k, v, 'no item left', False, NONE)
                continue
            x = nth(self.q, INT(0))
            if self.cond is None:
                self.case(k, v, 'an item left', self.name == 'next', SOME(x))
                continue
            r = self.answer(x)
            for yes in (True, False):
                k2 = k.fork()
                t = isvar(r, (1,), uni(OPT)) if self.cond == 'map' else r
                if self.cond == 'map':
                    T.ADT_OF.setdefault(r, OPT)
                if not k2.assume(t, yes):
                    continue
                if yes:
                    self.case(k2, v, 'accepted', True, SOME(fld(r, 1, 0)) if self.cond == 'map' else SOME(x))
                else:
                    self.case(k2, v, 'rejected', False, NONE)

    def case(self, s, v, name, takes, want):
        I = self.I
        v = self.plain(s, v)
        if want[2] == 0 and v[0] != 'adt':
            want_ = [want]
        self.equal(s, name + ': result', v, want, 'yields')
        rest = EMPTY if name == 'no item left' else drop(self.q, INT(1)) if takes else self.q
        now = self.now(s)
        self.equal(s, name + ': items left', now, rest, 'leaves')
        if self.cls == 'CachedPeekable':
            self.current(s, name, takes)

    def plain(self, s, v):
        if v[0] == 'adt' and v[1] == OPT and v[2] == 1:
            return SOME(self.I.deref(s, v[3][0]))
        return v

    def current(self, s, name, takes):
        b = fn(self.ctx, 'CachedPeekable', 'current', L)
        for s2, k2, v2 in self.I.call_body(s.fork(), b, [self.args[0]], ()):
            if k2 != 'ret':
                self.claim(s2, name + ': current item', 'current panics afterwards, when %s' % facts_of(s2)[:200], self.odd(s2))
                continue
            if takes:
                self.equal(s2, name + ': current item', v2, SOME(nth(self.q, INT(0))), 'the current item is')
                continue
            s3 = s2.fork()
            self.I.store(s3, self.args[0], self.pre)
            for s4, k4, v4 in self.I.call_body(s3, b, [self.args[0]], ()):
                if k4 == 'ret':
                    self.equal(s4, name + ': current item', v2, v4, 'the current item is')

    def equal(self, s, what, got, want, verb):
        key_ = '%s: %s' % (self.what, what)
        if same(s, got, want) or self.empty(s, got) and self.empty(s, want):
            return self.ctx.ok(key_)
        e = self.separate(s, got, want)
        if e:
            txt = '%s %s instead of %s, e.g. with %s; when %s' % (verb, e[1], e[2], e[0], facts_of(s)[:200])
            return self.claim(s, what, txt, self.odd(s))
        self.ctx.unknown(key_, '%s %s instead of %s, when %s' % (verb, show(got)[:150], show(want)[:150], facts_of(s)[:200]))

    def empty(self, s, t):
        return t == EMPTY or t[0] not in ('adt', 'bool', 'int', 'tup') and s.decide(compare(seq_len(t), INT(1), ((0, INF),))) is False

    def separate(self, s, got, want):
        """a small case in which the two values differ"""
        cur = [x for x in self.pre[3] if x[0] == 'sym' and x not in (self.q, getattr(self, 'p', None))] if self.pre[0] == 'adt' else []
        vals = [none(), some(none()), some(some(9)), some(9)]
        for n in range(4):
            items = Seq(range(1, n + 1))
            for acc in itertools.product((True, False), repeat=n):
                for c in itertools.product(vals, repeat=len(cur)):
                    env = {self.q: items, **dict(zip(cur, c))}
                    if self.cond == 'eq':
                        hit = [x for x, a in zip(items, acc) if a]
                        env[self.p] = hit[0] if hit else 77
                    elif self.cond:
                        env[self.p] = 'condition'

                    def f(p, x):
                        if not isinstance(x, int) or not 1 <= x <= n:
                            raise Undef('argument')
                        if self.cond == 'map':
                            return some(100 + x) if acc[x - 1] else none()
                        return acc[x - 1]
                    m = Model(env, {DYN: f})
                    try:
                        if not m.holds(s.facts()):
                            continue
                        a, b = m.ev(got), m.ev(want)
                    except (Undef, TypeError, IndexError, AttributeError, KeyError):
                        continue
                    if a != b:
                        return 'items %s, accepted %s%s' % (list(items), [x for x, y in zip(items, acc) if y], ', current %s' % (list(c),) if c else ''), a, b
        return None


def start(ctx):
    """a new cached iterator: all items left, no current one"""
    b = fn(ctx, None, 'cached_peekable', L)
    I = interp(ctx)
    st = State()
    args = sym_args(I, st, b)
    outs = [(s, v) for s, k, v in I.call_body(st, b, args, ()) if k == 'ret']
    ctx.add_interp(I)
    ctx.need(outs, 'result of cached_peekable')
    cur = fn(ctx, 'CachedPeekable', 'current', L)
    for s, v in outs:
        ctx.need(v[0] == 'adt', 'new cached iterator')
        its = [x[1] for x in v[3] if x[0] == 'it']
        ctx.need(len(its) == 1, 'items of a new cached iterator')
        me = args[0][1] if args[0][0] == 'it' else args[0]
        if its[0] == me:
            ctx.ok('start: all items left')
        elif opaque_in(its[0]):
            ctx.unknown('start: all items left', show(its[0])[:200])
        else:
            ctx.violate('start: all items left', 'starts with %s' % show(its[0])[:200], site(b))
        r = I.new_root(s, v, 'new')
        for s2, k2, v2 in I.call_body(s, cur, [('ref', r, ())], ()):
            if k2 == 'ret' and v2 == NONE:
                ctx.ok('start: no current item')
            elif k2 == 'ret' and opaque_in(v2):
                ctx.unknown('start: no current item', show(v2)[:200])
            else:
                ctx.violate('start: no current item', 'the current item is %s' % show(v2)[:200], site(b))


def adaptors(ctx):
    """the adaptors work on the iterator they are called on, with the condition given"""
    for name in ('cautious_map_while', 'cautious_take_while'):
        b = fn(ctx, None, name, L)
        I = interp(ctx)
        st = State()
        args = sym_args(I, st, b)
        outs = [(s, v) for s, k, v in I.call_body(st, b, args, ()) if k == 'ret']
        ctx.add_interp(I)
        ctx.need(outs, 'result of ' + name)
        for s, v in outs:
            ctx.need(v[0] == 'adt' and len(v[3]) >= 2, 'adaptor made by ' + name)
            refs = [x for x in v[3] if x[0] == 'ref']
            ps = [x for x in v[3] if I.deref(s, x) == I.deref(s, args[1])]
            before = I.deref(st, args[0])
            if len(refs) == 1 and I.last_ref(s, refs[0]) == I.last_ref(s, args[0]) and I.deref(s, args[0]) == before:
                ctx.ok(name + ': same iterator')
            elif opaque_in(I.deref(s, args[0])) or not refs:
                ctx.unknown(name + ': same iterator', show(v)[:200])
            else:
                ctx.violate(name + ': same iterator', 'starts with %s' % show(I.deref(s, args[0]))[:200], site(b))
            if len(ps) == 1:
                ctx.ok(name + ': condition')
            else:
                ctx.unknown(name + ': condition', show(v)[:200])
