"""The regex parser as moves of the documented grammar.

Every path of the parser from one loop head to the next (or to an outcome) is
followed by the grammar

    regex      := (nothing) | alt            alt  := item+ ('|' alt)?
    item       := atom quantifier?           atom := character | class | group | '(' alt ')'
    group      := '[' '^'? member* ']'       member := class | character ('-' character)?

read from left to right; a call of the parser to itself is an alt.  Both have to
take the same tokens, agree on success and build the same tree."""
from gram import *
from tok import mk, Tok
from sim import field_by
import terms as T

ITEMS, GROUP, DONE, FAIL = 'items', 'group', 'done', 'fail'


class Cfg:
    """a place of the grammar: tokens left, finished items, open group, what is around"""

    def __init__(self, kind, X, L=EMPTY, neg=None, G=EMPTY, around=()):
        self.kind, self.X, self.L, self.neg, self.G, self.around = kind, X, L, neg, G, around

    def at(self, **kw):
        c = Cfg(self.kind, self.X, self.L, self.neg, self.G, self.around)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def subst(self, m):
        f = lambda t: None if t is None else subst(t, m)
        return Cfg(self.kind, f(self.X), f(self.L), f(self.neg), f(self.G), tuple((k, f(l)) for k, l in self.around))


class Rex:
    """reports under the tags accept (C05), tree (C09) and pos (C14)"""

    def __init__(self, ctx, tags):
        self.ctx, self.tags = ctx, tags
        self.t = Tokens(ctx)
        self.expr, self.lit, self.mem = adt(ctx, 'ExprKind'), adt(ctx, 'LiteralKind'), adt(ctx, 'GroupedLiteralKind')
        self.err = adt(ctx, 'regex::parser::ParseError')
        self.e_pos = field_by(ctx, self.err, 'pos', lambda t: t[0] == 'tuple')
        self.lneg = self.index(self.lit, 'Group', 'negated', lambda t: t == ('prim', 'bool'))
        self.parser = adt(ctx, 'regex::parser::Parser')
        self.path = self.find_tokens(('adt', self.parser, ()), 0)
        ctx.need(self.path is not None, 'tokens of the regex parser')
        self.parse = fn(ctx, 'Parser', 'parse', L)
        self.done = set()
        self.extra = set()

    def index(self, path, variant, name, pred):
        i, = var(self.ctx, path, variant)
        return field_by(self.ctx, path, name, pred, i)

    def find_tokens(self, ty, depth):
        if ty[0] != 'adt' or depth > 4:
            return None
        if ty[1].endswith('::Peekable'):
            return ()
        a = self.ctx.prog.adts.get(ty[1])
        if not a or a['k'] != 'struct' or not ty[1].startswith('pango'):
            return None
        for i, f in enumerate(a['v'][0]['f']):
            r = self.find_tokens(f['ty'], depth + 1)
            if r is not None:
                return (i,) + r
        return None

    # -------------------------------------------------------------- reporting
    def good(self, tag, what):
        if tag in self.tags and (tag, what) not in self.done:
            self.done.add((tag, what))
            self.ctx.ok('%s: %s' % (self.name, what))

    def dunno(self, tag, what, txt):
        if tag in self.tags:
            self.ctx.unknown('%s: %s' % (self.name, what), txt)

    def wrong(self, tag, what, txt, odd=()):
        if tag not in self.tags:
            return
        if odd:
            return self.dunno(tag, what, '%s (%s)' % (txt, ', '.join(sorted(odd))[:100]))
        self.ctx.violate('%s: %s' % (self.name, what), txt, self.where)

    def odd(self, s, *ts):
        r = set(self.extra)
        for t in list(s.facts()) + list(ts):
            r |= {y for y in opaque_in(t, self.allowed) if y not in ('post', 'phi')}
        return r

    # ------------------------------------------------------------------ paths
    def go(self):
        self.name, self.where = short(self.parse), site(self.parse)
        rec = self.run(self.parse, 'top')
        n = self.paths
        for b in rec:
            self.name, self.where = short(b), site(b)
            more = self.run(b, 'ret')
            n += self.paths
            for x in more:
                if x not in rec:
                    self.dunno('accept', 'recursion', 'calls %s' % short(x))
        self.ctx.notes['paths followed'] = n
        self.ctx.need(n >= 20, 'paths of the regex parser')

    def tokens(self, v):
        for i in self.path:
            v = fld(v, 0, i)
        return strip_it(v)

    def run(self, b, end):
        ctx = self.ctx
        I = self.I = interp(ctx)
        st = State()
        args = sym_args(I, st, b)
        ctx.need(args and args[0][0] == 'ref', 'parser changes in place')
        self.root = args[0][1]
        outs = I.call_body(st, b, args, ())
        ctx.add_interp(I)
        self.paths = 0
        self.end = end
        self.allowed = {p for X in I.loops.values() for p, _, _ in X.phis}
        X0 = self.tokens(st.mem[self.root])
        start = Cfg(ITEMS, X0, around=((end, EMPTY),))
        if end == 'top':
            start = start.at(kind='start')
        self.cfgs = {None: start}
        live = self.live(outs)
        rec = set()
        for s in [o[0] for o in outs] + [r['state'] for i in live for r in I.loops[i].backs]:
            for e in s.ev:
                if e[0] == 'call' and e[1] in ctx.prog.bodies:
                    rec.add(e[1])
        self.rec = {r for r in rec if ctx.prog.bodies[r]['argc'] == 1}
        self.allowed |= self.rec
        for i in live:
            X = I.loops[i]
            o = self.origin(X.entry.ev, X.entry, X.parent)
            self.follow(X.entry, o, ('enter', X), len(X.entry.ev))
        for i in live:
            X = I.loops[i]
            for r in X.backs:
                s = r['state']
                self.follow(s, self.origin(s.ev, s, X.id), ('back', X, r), len(s.ev))
        for s, k, v in outs:
            o = self.origin(s.ev, s)
            self.follow(s, o, ('panic', v) if k == 'panic' else ('ret', v), len(s.ev))
        return [ctx.prog.bodies[r] for r in sorted(self.rec)]

    def live(self, outs):
        """loops that lie on the paths to the outcomes, outer ones first"""
        I, seen, todo = self.I, [], [o[0].ev for o in outs]
        while todo:
            for e in todo.pop():
                if e[0] == 'loop' and e[1] in I.loops and e[1] not in seen and I.loops[e[1]].phis:
                    seen.append(e[1])
                    X = I.loops[e[1]]
                    todo.append(X.entry.ev)
                    todo.extend(r['ev'] for r in X.backs)
        return sorted(seen)

    def origin(self, ev, s, inside=None):
        """the loop head a path starts from, with the events after it"""
        I = self.I
        at = len(I.loops[inside].entry.ev) if inside is not None else 0
        last = inside
        for n, e in enumerate(ev):
            if n >= at and e[0] == 'loop' and e[1] in I.loops and I.loops[e[1]].phis:
                last, at = e[1], n + 1
        return last, at

    # ---------------------------------------------------------------- grammar
    def kind_of(self, s, X):
        """(state, kind of the first token or None, the token)"""
        t = self.t
        out = []
        k = s.fork()
        if k.assume(compare(seq_len(X), INT(0), EQ0)):
            out.append((k, None, None))
        s = s.fork()
        if not s.assume(compare(seq_len(X), INT(1), ((0, INF),))):
            return out
        tok = nth(X, INT(0))
        kd = fld(tok, 0, t.fk)
        for name in t.names:
            i, = var(self.ctx, t.kind, name)
            k = s.fork()
            if not k.assume(isvar(kd, (i,), uni(t.kind))):
                continue
            if name != 'Operator':
                out.append((k, name, fld(kd, i, 0) if name != 'Invalid' else None))
                continue
            op = fld(kd, i, 0)
            for o in t.ops:
                j, = var(self.ctx, t.op, o)
                q = k.fork()
                if q.assume(isvar(op, (j,), uni(t.op))):
                    out.append((q, o, op))
        return out

    def quantified(self, s, c, X, make):
        """an item with the quantifier after it, if any"""
        out = []
        for k, kind, v in self.kind_of(s, X):
            if kind == 'Quantifier':
                out.append((k, c.at(kind=ITEMS, X=drop(X, INT(1)), L=self.push(c.L, make(SOME(v))), neg=None, G=EMPTY)))
            else:
                out.append((k, c.at(kind=ITEMS, X=X, L=self.push(c.L, make(NONE)), neg=None, G=EMPTY)))
        return out

    def push(self, L, x):
        return mk_seq((('sub', L), ('one', x)))

    def v(self, path, name, *args):
        i, = var(self.ctx, path, name)
        return mk(path, i, *args)

    def seq_expr(self, s, L):
        """[(state, the items of L as one expression)]"""
        out = []
        k = s.fork()
        if k.assume(compare(seq_len(L), INT(1), EQ0)):
            out.append((k, nth(L, INT(0))))
        k = s.fork()
        if k.assume(compare(seq_len(L), INT(2), ((0, INF),))):
            out.append((k, self.v(self.expr, 'Concat', L)))
        return out

    def call(self, s, X, ev):
        """an alt read by the parser itself: [(state, result, tokens left)] or None"""
        for n, e in enumerate(ev):
            if e[0] != 'call' or e[1] not in self.rec:
                continue
            arg = e[2][0]
            if not same_rest(s, self.tokens(arg), X):
                continue
            out = []
            k = s.fork()
            if k.assume(isvar(e[3], (1,), uni(RES))):
                out.append((k, None, None))
            k = s.fork()
            Y = self.tokens(('post', e[1], 0, e[2]))
            if k.assume(isvar(e[3], (0,), uni(RES))):
                # the tokens left are none or begin with a closing parenthesis
                for q, kind, _ in self.kind_of(k, Y):
                    if kind in (None, 'RightParen'):
                        out.append((q, fld(e[3], 0, 0), Y))
            return out, ev[n + 1:]
        return None

    def close(self, s, X, e, around, ev):
        """the alt e ends before X"""
        out = []
        kind, L0 = around[-1]
        rest = around[:-1]
        if kind == 'ret':
            return [(s, (DONE, e, X), ev)]
        if kind == 'top':
            for k, t, _ in self.kind_of(s, X):
                out.append((k, (FAIL, 'unmatched )') if t else (DONE, mk(self.ast(), 0, e), X), ev))
            return out
        if kind == 'alt':
            for k, x in self.seq_expr(s, L0):
                out += self.close(k, X, self.v(self.expr, 'Alt', x, e), rest, ev)
            return out
        for k, t, _ in self.kind_of(s, X):
            if t == 'RightParen':
                c = Cfg(ITEMS, X, L0, around=rest)
                out += [(q, d, ev) for q, d in self.quantified(k, c, drop(X, INT(1)), lambda z: self.v(self.expr, 'Group', e, z))]
            else:
                out.append((k, (FAIL, 'missing )'), ev))
        return out

    def ast(self):
        return adt(self.ctx, 'regex::ast::Ast')

    def sub_alt(self, s, c, X, kind, ev):
        r = self.call(s, X, ev)
        if r is None:
            return [(s, Cfg(ITEMS, X, around=c.around + ((kind, c.L),)), ev)]
        out = []
        for k, e, Y in r[0]:
            if e is None:
                out.append((k, (FAIL, 'inside'), r[1]))
            else:
                out += self.close(k, Y, e, c.around + ((kind, c.L),), r[1])
        return out

    def step(self, s, c, ev):
        """[(state, next place or end, events left)]"""
        X = c.X
        out = []
        R = lambda n: drop(X, INT(n)) if n else X
        if c.kind == 'start':
            for k, t, _ in self.kind_of(s, X):
                if t is None:
                    out.append((k, (DONE, mk(self.ast(), 0, self.v(self.expr, 'Empty')), X), ev))
                else:
                    out.append((k, c.at(kind=ITEMS), ev))
            return out
        for k, t, v in self.kind_of(s, X):
            if c.kind == GROUP:
                if t == 'Class':
                    out.append((k, c.at(X=R(1), G=self.push(c.G, self.v(self.mem, 'Class', v))), ev))
                elif t == 'RightBracket':
                    f = [None, None]
                    f[self.lneg], f[1 - self.lneg] = c.neg, mk(self.t.w, 0, c.G)
                    lit = self.v(self.lit, 'Group', *f)
                    out += [(q, d, ev) for q, d in self.quantified(k, c, R(1), lambda z: self.v(self.expr, 'Lit', lit, z))]
                elif t == 'Match':
                    for k2, t2, _ in self.kind_of(k, R(1)):
                        if t2 != 'Minus':
                            out.append((k2, c.at(X=R(1), G=self.push(c.G, self.v(self.mem, 'Match', v))), ev))
                            continue
                        for k3, t3, v3 in self.kind_of(k2, R(2)):
                            if t3 == 'Match':
                                out.append((k3, c.at(X=R(3), G=self.push(c.G, self.v(self.mem, 'Range', v, v3))), ev))
                            else:
                                out.append((k3, (FAIL, 'unfinished range'), ev))
                else:
                    out.append((k, (FAIL, 'unfinished group' if t is None else '%s in a group' % t), ev))
                continue
            if t in (None, 'RightParen', 'Vertical'):
                q = k.fork()
                if q.assume(compare(seq_len(c.L), INT(0), EQ0)):
                    out.append((q, (FAIL, 'missing operand'), ev))
                if not k.assume(compare(seq_len(c.L), INT(1), ((0, INF),))):
                    continue
                if t == 'Vertical':
                    out += self.sub_alt(k, c, R(1), 'alt', ev)
                else:
                    for q, e in self.seq_expr(k, c.L):
                        out += self.close(q, X, e, c.around, ev)
            elif t in ('Match', 'Class'):
                out += [(q, d, ev) for q, d in self.quantified(k, c, R(1), lambda z: self.v(self.expr, 'Lit', self.v(self.lit, t, v), z))]
            elif t == 'LeftParen':
                out += self.sub_alt(k, c, R(1), 'paren', ev)
            elif t == 'LeftBracket':
                for q, t2, _ in self.kind_of(k, R(1)):
                    neg = t2 == 'Carret'
                    out.append((q, c.at(kind=GROUP, X=R(2 if neg else 1), neg=BOOL(neg), G=EMPTY), ev))
            else:
                out.append((k, (FAIL, 'stray %s' % t), ev))
        return out

    # ------------------------------------------------------------- comparison
    def follow(self, s, origin, dest, n):
        lid, at = origin
        if lid not in self.cfgs:
            if lid in self.I.loops:
                self.dunno('accept', 'loop', 'place of a loop not known: %s' % (self.I.loops[lid].where,))
            return
        c = self.cfgs[lid]
        self.extra = self.trees(lid, c)
        if dest[0] in ('enter', 'back') and dest[1].id in self.cfgs:
            self.extra |= self.trees(dest[1].id, self.cfgs[dest[1].id])
        ev = tuple(e for e in s.ev[at:] if e[0] == 'call')
        self.paths += 1
        todo = [(s.fork(), c, ev, 0)]
        res = []
        while todo:
            k, d, e, depth = todo.pop()
            if isinstance(d, Cfg) and dest[0] in ('enter', 'back') and (depth or dest[0] == 'enter'):
                m = self.arrives(k, d, dest)
                if m:
                    continue
            if not isinstance(d, Cfg):
                self.ends(k, d, dest, c)
                continue
            if depth > (2 if c.kind == 'start' else 1) + min(1, len(d.around) - len(c.around)):
                self.astray(k, d, dest)
                break
            todo += [(a, b, x, depth + 1) for a, b, x in self.step(k, d, e)]

    def trees(self, lid, c):
        """expressions a loop carries that the place does not account for"""
        if lid is None:
            return set()
        X = self.I.loops[lid]
        known = {c.L, c.G, c.neg} | {l for _, l in c.around}
        is_tree = lambda t: t[0] == 'adt' and t[1] == self.expr or any(x[0] == 'one' and is_tree(x[1]) for x in self.pushed(t))
        for p, i, _ in X.phis:
            if p not in known and (is_tree(i) or any(is_tree(r['upd'].get(p, p)) for r in X.backs)):
                return {'expressions kept elsewhere'}
        return set()

    def panics(self, s, dest):
        text = 'panics (%s), when %s' % (dest[1][:2], facts_of(s)[:500])
        for g in s.facts():
            if g[0] != 'I' or not g[1] or any(self.token_of(x) is None for x, _ in g[1]):
                continue
            if len({self.token_of(x)[0] for x, _ in g[1]}) > 1:
                return self.dunno('accept', 'panic', text)
            # a token has at least one character (C14)
            if not any(lo <= sum(c * (first, first + size)[self.token_of(x)[1]] for x, c in g[1]) <= hi
                       for lo, hi in g[2] for first in (0, 1, 2, 5) for size in (1, 2, 3, 7)):
                return
        self.wrong('accept', 'panic', text, self.odd(s))

    def astray(self, s, d, dest):
        """the path has ended, the grammar goes on"""
        if dest[0] == 'panic':
            return self.panics(s, dest)
        if dest[0] == 'ret':
            v = dest[1]
            if v[0] == 'adt' and v[1] == RES:
                txt = 'ends with %s where more has to be read, when %s' % (show(v)[:200], facts_of(s)[:500])
                self.wrong('accept', 'valid regex' if v[2] == 1 else 'end', txt, self.odd(s))
            else:
                self.dunno('accept', 'outcome', show(v)[:200])
            return
        H = self.head_tokens(dest)
        for tag in ('accept', 'tree'):
            self.wrong(tag, 'tokens taken', 'the parser goes on with %s instead of %s, when %s' % (
                show(H)[:200], show(d.X)[:200], facts_of(s)[:500]), self.odd(s, H) | self.remembers(s, dest))

    def head_tokens(self, dest):
        kind, X = dest[:2]
        st = X.entry if kind == 'enter' else dest[2]['state']
        return self.tokens(st.mem[self.root])

    def arrives(self, s, d, dest):
        """the place d is the one of the loop head the path leads to"""
        kind, X = dest[:2]
        if d.kind == 'start':
            return False
        if not same_rest(s, d.X, self.head_tokens(dest)):
            return False
        if kind == 'enter' and X.id not in self.cfgs:
            c = self.generalise(s, d, X)
            if c is None:
                return False
            self.cfgs[X.id] = c
            return True
        c = self.cfgs.get(X.id)
        if c is None:
            return False
        if c.kind != d.kind or [k for k, _ in c.around] != [k for k, _ in d.around]:
            return False
        m = {p: i for p, i, _ in X.phis} if kind == 'enter' else {p: dest[2]['upd'].get(p, p) for p, _, _ in X.phis}
        name = {ITEMS: 'an item of a sequence', GROUP: 'an item of a group'}[c.kind]
        for a, b in zip(c.around, d.around):
            self.value(s, name + ' (around)', subst(a[1], m), b[1])
        self.value(s, name, subst(c.L, m), d.L)
        if c.kind == GROUP:
            self.value(s, name, subst(c.G, m), d.G)
            self.value(s, 'negation', subst(c.neg, m), d.neg)
        self.good('accept', 'tokens of %s' % name)
        return True

    def generalise(self, s, d, X):
        """the place d with what changes in the loop"""
        c = d.at(X=self.tokens(X.hdr.mem[self.root]))
        used = set()

        def pick(val, types):
            r = []
            for p, i, _ in X.phis:
                if p in used or i != val:
                    continue
                els = {y[1][1] for row in X.backs for y in self.pushed(row['upd'].get(p, p)) if y[1][0] == 'adt'}
                if els and not els & types:
                    continue
                r.append((bool(els), p))
            r.sort(key=lambda z: not z[0])
            if not r:
                return val
            used.add(r[0][1])
            return r[0][1]
        if c.kind == GROUP:
            c.G = pick(d.G, {self.mem})
            c.neg = pick(d.neg, set()) if d.neg[0] != 'bool' else d.neg
        c.L = pick(d.L, {self.expr})
        if c.kind == GROUP and c.G == d.G and any(self.pushed(row['upd'].get(p, p)) for row in X.backs for p in [p for p, i, _ in X.phis if i == d.G]):
            return None
        return c

    def pushed(self, t):
        if t[0] != 'seq':
            return []
        return [x for x in t[1] if x[0] == 'one']

    def norm(self, s, t):
        """a sequence of one item is that item, a group without quantifier what is inside"""
        ci, gi = var(self.ctx, self.expr, 'Concat', 'Group')
        if t[0] == 'adt':
            if t[1] == self.expr and t[2] == ci:
                if s.decide(compare(seq_len(t[3][0]), INT(1), EQ0)) is True:
                    return self.norm(s, nth(t[3][0], INT(0)))
            if t[1] == self.expr and t[2] == gi and t[3][1] == NONE:
                return self.norm(s, t[3][0])
            return t[:3] + (tuple(self.norm(s, x) for x in t[3]),)
        if t[0] == 'seq':
            return ('seq', tuple((x[0], self.norm(s, x[1])) if x[0] == 'one' else x for x in t[1]))
        return t

    def value(self, s, what, got, want):
        if same(s, got, want):
            return self.good('tree', what)
        a, b = self.norm(s, got), self.norm(s, want)
        if same(s, a, b):
            return self.good('tree', what)
        r = self.differ(s, a, b)
        txt = '%s instead of %s, when %s' % (show(got)[:400], show(want)[:400], facts_of(s)[:400])
        if r:
            self.wrong('tree', what, txt, self.odd(s, got))
        else:
            self.dunno('tree', what, txt)

    def differ(self, s, a, b):
        """True if the values certainly differ for some input"""
        if same(s, a, b):
            return False
        if a[0] == 'adt' and b[0] == 'adt':
            if a[1:3] != b[1:3]:
                return True
            return any(self.differ(s, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'adt' and b[0] != 'adt' or b[0] == 'adt' and a[0] != 'adt':
            # a fixed form against whatever was written
            o = b if a[0] == 'adt' else a
            return self.plain(o)
        if a[0] == 'bool' and b[0] in ('in', 'isvar', 'not', 'and', 'or') or b[0] == 'bool' and a[0] in ('in', 'isvar', 'not', 'and', 'or'):
            return s.decide(b if a[0] == 'bool' else a) is None
        if a[0] in ('int', 'bool') or b[0] in ('int', 'bool'):
            return all(x[0] in ('int', 'bool') or self.plain(x) for x in (a, b))
        if a[0] == 'seq' or b[0] == 'seq':
            la, lb = seq_len(a), seq_len(b)
            if s.decide(compare(la, lb, EQ0)) is False:
                return True
            x, y = segs(a), segs(b)
            if len(x) == len(y) and all(p[0] == q[0] for p, q in zip(x, y)):
                return any(self.differ(s, p[1], q[1]) for p, q in zip(x, y))
            return all(z[0] == 'one' or self.plain(z[1]) for z in x + y)
        if a[0] == 'ite' or b[0] == 'ite':
            return True
        if self.plain(a) and self.plain(b):
            return True
        if any(t[0] == 'app' and str(t[1]).startswith(('char::', 'u8::', 'str::')) for t in (a, b)) and any(self.plain(t) for t in (a, b)):
            return True
        return False

    def plain(self, t):
        """a place in the input, not a computed value"""
        while t[0] in ('fld', 'nth', 'drop', 'take'):
            if t[0] in ('nth', 'drop', 'take') and not is_intlike(t[2]):
                return False
            t = t[1]
        return t[0] in ('sym', 'phi', 'post') or t[0] == 'app' and t[1] in self.rec

    def ends(self, s, d, dest, c):
        """the grammar is at its end on this path"""
        when = facts_of(s)[:500]
        kind = dest[0]
        if kind == 'panic':
            self.panics(s, dest)
            return
        if kind in ('enter', 'back'):
            what = 'has to fail (%s)' % d[1] if d[0] == FAIL else 'has to end'
            for tag in ('accept', 'tree'):
                self.wrong(tag, 'tokens taken', 'the parser goes on with %s where it %s, when %s' % (
                    show(self.head_tokens(dest))[:200], what, when), self.odd(s, self.head_tokens(dest)) | self.remembers(s, dest))
            return
        v = dest[1]
        if v[0] != 'adt' or v[1] != RES:
            if v[0] == 'app' and v[1] in self.rec or v[0] == 'phi':
                # the result of a call handed on
                if d[0] == FAIL and s.decide(isvar(v, (1,), uni(RES))) is True:
                    return self.good('accept', 'errors')
            self.dunno('accept', 'outcome', show(v)[:200])
            return
        if d[0] == FAIL:
            if v[2] == 1:
                self.good('accept', 'refuses: %s' % d[1])
                self.position(s, v[3][0])
            else:
                self.wrong('accept', d[1], 'is accepted, as %s, when %s' % (show(v)[:200], when), self.odd(s, v))
            return
        if v[2] == 1:
            self.wrong('accept', 'valid regex', 'is refused, when %s' % when, self.odd(s))
            return
        self.good('accept', 'accepts')
        self.value(s, 'expression', v[3][0], d[1])
        if self.end == 'ret':
            Y = self.tokens(s.mem[self.root])
            if same_rest(s, Y, d[2]):
                self.good('accept', 'tokens left')
            else:
                for tag in ('accept', 'tree'):
                    self.wrong(tag, 'tokens left', '%s instead of %s, when %s' % (show(Y)[:200], show(d[2])[:200], when), self.odd(s, Y))

    def remembers(self, s, dest):
        """other values of the loop that change on this path"""
        kind, X = dest[:2]
        if kind != 'back':
            return set()
        c = self.cfgs.get(X.id)
        if c is None:
            return {'loop'}
        known = {c.L, c.G, c.neg} | {l for _, l in c.around}
        r = set()
        for p, i, at in X.phis:
            if p in known or at[0] == self.root:
                continue
            if dest[2]['upd'].get(p, p) != p:
                r.add('remembered value')
        return r

    # --------------------------------------------------------------- positions
    def position(self, s, e):
        if 'pos' not in self.tags:
            return
        t = e
        if t[0] == 'adt' and t[1] == self.t.w:
            t = t[3][0]
        if self.handed_on(t):
            return self.good('pos', 'errors from inside')
        if t[0] != 'seq':
            return self.dunno('pos', 'errors', show(e)[:200])
        for k, x in t[1]:
            if k != 'one':
                if not self.handed_on(x):
                    self.dunno('pos', 'errors', show(x)[:200])
            elif x[0] == 'adt' and x[1] == self.err:
                self.range(s, x, fld(x, 0, self.e_pos))
            else:
                self.dunno('pos', 'errors', show(x)[:200])

    def handed_on(self, t):
        """errors of a call, or those the parser had before"""
        while t[0] == 'fld':
            t = t[1]
        return t[0] == 'app' and t[1] in self.rec or t[0] in ('sym', 'phi', 'post')

    def range(self, s, err, pos):
        kind = [x for x in err[3] if x != pos and x[0] == 'adt']
        name = 'position of %s' % (show(kind[0]) if kind else 'an error')
        a, b = fld(pos, 0, 0), fld(pos, 0, 1)
        la, lb = lin(a), lin(b)
        toks = []
        for at in list(la[0]) + list(lb[0]):
            t = self.token_of(at)
            if t is None:
                return self.dunno('pos', name, '%s, when %s' % (show(pos)[:200], facts_of(s)[:300]))
            if t[0] not in toks:
                toks.append(t[0])
        for t in toks:
            if t[0] == 'nth' and s.decide(compare(seq_len(t[1]), add(t[2], INT(1)), ((0, INF),))) is not True:
                return self.wrong('pos', name, 'of a token that may not exist: %s, when %s' % (show(t)[:200], facts_of(s)[:400]), self.odd(s))
        bad = self.layout(s, toks, la, lb)
        if bad:
            self.wrong('pos', name, '%s is no range inside the regex (%s), when %s' % (show(pos)[:300], bad, facts_of(s)[:400]), self.odd(s))
        else:
            self.good('pos', '%s inside the regex' % name)

    def token_of(self, t):
        """(token, 0 for its start or 1 for its end)"""
        if t[0] == 'fld' and t[3] in (0, 1) and t[1][0] == 'fld' and t[1][3] == self.t.fp:
            return t[1][1], t[3]
        return None

    def layout(self, s, toks, la, lb):
        """a placement of the tokens for which the range is none"""
        groups = {}
        for t in toks:
            base, k = (t[1], t[2][1]) if t[0] == 'nth' and t[2][0] == 'int' else (t, 0)
            groups.setdefault(base, []).append((k, t))
        if len(groups) > 1:
            # tokens of different runs: their order is not known here
            return None
        hi = max([k for g in groups.values() for k, _ in g] or [0])
        base = list(groups)[0] if groups else None
        more = 0
        if base is not None and groups[base][0][1][0] == 'nth':
            more = 1 if s.decide(compare(seq_len(base), INT(hi + 2), ((0, INF),))) is True else 0
        for first in (0, 1, 5):
            for size in (1, 2, 7):
                pos = {}
                for base, g in groups.items():
                    for k, t in g:
                        pos[t] = (first + k * size, first + (k + 1) * size)
                n = max([e for _, e in pos.values()] or [1]) + more
                val = lambda l: l[1] + sum(c * pos[self.token_of(x)[0]][self.token_of(x)[1]] for x, c in l[0].items())
                x, y = val(la), val(lb)
                if not (0 <= x < y <= n):
                    return '(%d, %d) for a regex of %d characters' % (x, y, n)
        return None


class Tokens:
    """the tokens of a regex, without looking into the tokenizer"""

    def __init__(self, ctx):
        self.kind, self.op = adt(ctx, 'TokenKind'), adt(ctx, 'OperatorKind')
        self.w = adt(ctx, 'prelude::W')
        self.tok = adt(ctx, 'tokenizer::Token')
        self.fk = field_by(ctx, self.tok, 'kind', lambda t: t == ('adt', self.kind, ()))
        self.fp = field_by(ctx, self.tok, 'pos', lambda t: t[0] == 'tuple')
        self.names = [v['n'] for v in ctx.prog.adts[self.kind]['v']]
        self.ops = [v['n'] for v in ctx.prog.adts[self.op]['v']]


def new_parser(ctx):
    """the characters a new regex parser is given: (their sequence, the text)"""
    b = fn(ctx, 'Parser', 'new', L)
    I = interp(ctx)
    st = State()
    args = sym_args(I, st, b)
    outs = I.call_body(st, b, args, ())
    ctx.add_interp(I)
    rets = [(s, v) for s, k, v in outs if k == 'ret']
    ctx.need(len(rets) == 1 and len(outs) == 1, 'Parser::new')
    its = {x[1] for x in subterms(rets[0][1]) if x[0] == 'it'}
    return b, its, args[0]
