"""One step of the lexer against the rules of longest match.

The input is what the lexer holds: the text of the token so far, the characters
read but not accepted, those given back and those never read, in this order.
Every path of Lexer::next from one loop head to the next (or to an outcome) is
compared with what the rules say about it; the automaton is an unknown function
of its state and the characters fed."""
from rex import *
from model import Model, Seq, Tup, Adt, Undef
from sim import guards_of
import itertools

FEED, CAN, ACC, FINAL, SIM = 'Simulate::feed', 'Simulate::can_feed', 'Simulate::is_accepting', 'NDSimulate::get_current_final_states', 'Simulatable::to_simulator'
DYN = 'dyncall'
PAIR = ('tuple', (('prim', 'usize'), ('prim', 'char')))
ONE_UP = ((0, INF),)


def is_pair(t):
    return t[0] == 'tuple' and len(t[1]) == 2 and t[1][0] == ('prim', 'usize') and t[1][1] == ('prim', 'char')


class Shape:
    """where the lexer keeps the parts of the input"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.lexer = adt(ctx, 'lexer::Lexer')
        self.found = {'A': [], 'p': [], 'S': [], 'P': [], 'T': [], 'M': [], 'F': []}
        self.walk(self.lexer, (), 0)
        f = self.found
        ctx.need(len(f['A']) == 1 and len(f['p']) == 1, 'text and position of the token of the lexer')
        ctx.need(len(f['T']) == 1, 'unread characters of the lexer')
        ctx.need(len(f['S']) <= 1 and len(f['P']) <= 1 and f['S'] + f['P'], 'characters read ahead by the lexer')
        ctx.need(len(f['M']) == 1, 'generators of the lexer')

    def walk(self, path, at, depth):
        a = self.ctx.prog.adts.get(path)
        if not a or a['k'] != 'struct' or depth > 4:
            return
        for i, x in enumerate(a['v'][0]['f']):
            t = x['ty']
            here = at + (i,)
            f = self.found
            if not t:
                continue
            if t[0] == 'tuple' and t[1] == (('prim', 'usize'),) * 2 or t[0] == 'tuple' and list(t[1]) == [('prim', 'usize')] * 2:
                f['p'].append(here)
            elif t[0] == 'adt' and t[1].endswith('string::String'):
                f['A'].append(here)
            elif t[0] == 'adt' and any(is_pair(x) for x in t[2] if x):
                f['S' if t[1].endswith('vec::Vec') else 'P'].append(here)
            elif t[0] == 'adt' and t[1].endswith(('Enumerate', 'CharIndices', 'str::iter::Chars')):
                f['T'].append(here)
            elif t[0] == 'adt' and t[1].endswith('Map'):
                f['M'].append(here)
            elif t[0] == 'adt' and t[1].startswith('pango'):
                self.walk(t[1], here, depth + 1)
            elif t[0] == 'param':
                f['F'].append(here)

    def get(self, v, k):
        if not self.found[k]:
            return EMPTY
        for i in self.found[k][0]:
            v = fld(v, 0, i)
        return v

    def set(self, v, k, x):
        return self.put(v, self.found[k][0], x) if self.found[k] else v

    def put(self, v, path, x):
        if not path:
            return x
        return set_fld(v, 0, path[0], self.put(fld(v, 0, path[0]), path[1:], x))

    def read(self, v):
        g = lambda k: strip_it(self.get(v, k))
        p = self.get(v, 'p')
        return Held(g('A'), fld(p, 0, 0), fld(p, 0, 1), g('S'), g('P'), g('T'), g('M'))


# longer parts, one at a time
FEW = [x for k in (3, 5, 9) for x in ((k, 1, 1, 1), (1, k, 1, 1), (1, 1, k, 1), (1, 1, 1, k), (0, k, 1, 1), (0, 1, k, 1), (k, 0, k, 1))]


def limits(facts):
    """ends of the intervals of characters in the facts, and their neighbours"""
    out = set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if len(t) == 3 and t[0] == 'I' and isinstance(t[1], tuple):
            if len(t[1]) == 1 and isinstance(t[1][0], tuple) and isinstance(t[1][0][0], tuple) and t[1][0][0][:1] != ('len',):
                for lo, hi in t[2]:
                    out.update(x for x in (lo - 1, lo, hi, hi + 1) if isinstance(x, int))
        for x in t:
            go(x)
    for f in facts:
        go(f)
    return out


class Held:
    """what the lexer holds at one point"""

    def __init__(self, A, p0, p1, S, P, T, M):
        self.A, self.p0, self.p1, self.S, self.P, self.T, self.M = A, p0, p1, S, P, T, M


class Rec:
    """results of one attempt, handed on when it is the one that counts"""

    def __init__(self):
        self.rows = []

    def __call__(self, *r):
        if r not in self.rows:
            self.rows.append(r)

    def bad(self):
        return [r for r in self.rows if r[0] != 'ok']


class Lexing:
    """reports under the tags text (C01), longest (C02), kind (C03) and stop (C04)"""

    def __init__(self, ctx, tags):
        self.ctx, self.tags = ctx, tags
        self.sh = Shape(ctx)
        r = [b for b in ctx.prog.bodies.values() if b['name'] == 'next' and ' as ' in b['pretty'] and '::Lexer<' in b['pretty'].split(' as ')[0]]
        ctx.need(len(r) == 1, 'Lexer::next')
        self.b = r[0]
        self.token = adt(ctx, 'lexer::Token')
        fs = [f['n'] for f in ctx.prog.adts[self.token]['v'][0]['f']]
        ctx.need({'kind', 'source', 'pos'} <= set(fs), 'fields of Token')
        self.t_kind, self.t_src, self.t_pos = (fs.index(n) for n in ('kind', 'source', 'pos'))

    # -------------------------------------------------------------- reporting
    def good(self, tag, what):
        if tag in self.tags:
            self.rec('ok', what)

    def dunno(self, tag, what, txt):
        if tag in self.tags:
            self.rec('unknown', what, txt)

    def wrong(self, tag, what, txt):
        if tag in self.tags:
            self.rec('bad', what, txt)

    def emit(self, rec):
        for r in rec.rows:
            if r[0] == 'ok':
                self.ctx.ok('Lexer::next: ' + r[1])
            elif r[0] == 'unknown':
                self.ctx.unknown('Lexer::next: ' + r[1], r[2])
            else:
                self.ctx.violate('Lexer::next: ' + r[1], r[2], site(self.b))

    # ------------------------------------------------------------------ paths
    def go(self):
        best = None
        # between two tokens the old text is gone, or is dropped when the next token is asked for
        for mode in ('clean', 'late'):
            self.rec = Rec()
            try:
                self.run(mode)
            except (AnchorError, Exception) as e:
                if mode == 'late':
                    break
                raise
            if best is None or not self.rec.bad():
                best = self.rec
            if not self.rec.bad():
                break
        self.emit(best)

    def run(self, mode):
        ctx, sh = self.ctx, self.sh
        I = self.I = interp(ctx)
        st = State()
        args = sym_args(I, st, self.b)
        ctx.need(args and args[0][0] == 'ref', 'lexer changes in place')
        self.root = root = args[0][1]
        v = st.mem[root]
        self.mode = mode
        if mode == 'clean':
            v = sh.set(v, 'A', EMPTY)
        v = sh.set(v, 'S', EMPTY)
        if mode == 'late':
            p = sh.get(v, 'p')
            v = sh.set(v, 'p', ('tup', (fld(p, 0, 0), fld(p, 0, 1))))
        st.mem[root] = v
        start = sh.read(v)
        if mode == 'late':
            # the next token starts where the last one ended
            start = Held(EMPTY, start.p1, start.p1, start.S, start.P, start.T, start.M)
        outs = I.call_body(st, self.b, args, ())
        ctx.add_interp(I)
        self.heads = {}
        self.inits = [start]
        ends = [(s, k, v) for s, k, v in outs]
        live = self.live(ends)
        ctx.need(live, 'the loop over the characters')
        for i in live:
            X = I.loops[i]
            self.heads[i] = self.head(X)
        self.allowed = {p for X in I.loops.values() for p, _, _ in X.phis} | {FEED, CAN, ACC, FINAL, SIM, DYN, 'bytelen'}
        n = 0
        for i in live:
            X = I.loops[i]
            self.segment(X.entry, self.origin(X.entry, X.parent), ('enter', X, None))
            n += 1
            for r in X.backs:
                self.segment(r['state'], self.origin(r['state'], i), ('back', X, r))
                n += 1
        for s, k, v in ends:
            self.segment(s, self.origin(s), (k, v, None))
            n += 1
        ctx.notes['paths compared'] = n
        ctx.need(n >= 4, 'paths of Lexer::next')

    def mentions(self, s, lid, v=()):
        ps = {p for p, _, _ in self.I.loops[lid].phis}
        ts = list(s.facts()) + [s.mem[self.root]] + ([v] if v else [])
        return any(contains(t, lambda x: x in ps) for t in ts)

    def live(self, ends):
        seen, todo = [], [s for s, k, v in ends]
        while todo:
            s = todo.pop()
            for e in s.ev:
                if e[0] == 'loop' and e[1] in self.I.loops and e[1] not in seen and self.mentions(s, e[1]):
                    seen.append(e[1])
                    X = self.I.loops[e[1]]
                    todo.append(X.entry)
                    todo.extend(r['state'] for r in X.backs)
        return sorted(seen)

    def origin(self, s, inside=None):
        at = len(self.I.loops[inside].entry.ev) if inside is not None else 0
        last = inside
        for n, e in enumerate(s.ev):
            if n >= at and e[0] == 'loop' and e[1] in self.heads:
                last, at = e[1], n + 1
        return last, at

    def head(self, X):
        """(held at the head, automaton, marks of a match)"""
        h = self.sh.read(X.hdr.mem[self.root])
        sim = [p for p, i, _ in X.phis if self.is_sim(i)]
        marks = []
        for p, i, _ in X.phis:
            ups = [r['upd'].get(p, p) for r in X.backs]
            if i == NONE and all(u == p or u[0] == 'adt' and u[1] == OPT and u[2] == 1 for u in ups):
                marks.append((p, isvar(p, (1,), uni(OPT))))
            elif i == FALSE and all(u in (p, TRUE) for u in ups):
                marks.append((p, p))
        if X.parent in self.heads and not sim:
            sim = [self.heads[X.parent]['sim']]
        return {'held': h, 'sim': sim[0] if len(sim) == 1 else None, 'marks': marks, 'X': X}

    def is_sim(self, t):
        while t[0] == 'post' and t[1] == FEED:
            t = t[3][0]
        if t[0] == 'phi':
            return any(h['sim'] == t for h in self.heads.values())
        return t[0] == 'app' and t[1] == SIM

    # ------------------------------------------------------------ the text
    def pairs(self, s, t):
        """a sequence of numbered characters in pieces"""
        t = strip_it(t)
        out = []
        for k, x in segs(t):
            if k == 'one':
                out.append(self.element(x))
            elif x[0] in ('seq',):
                out += self.pairs(s, x)
            elif x[0] == 'drop' and x[2][0] == 'int':
                out.append(('from', x[1], x[2][1]))
            else:
                out.append(('from', x, 0))
        return [p for p in out if not (p[0] == 'from' and s.decide(compare(seq_len(p[1]), INT(p[2]), EQ0)) is True)]

    def element(self, x):
        if x[0] == 'tup' and len(x[1]) == 2:
            a, b = x[1]
            if a[0] == b[0] == 'fld' and a[1] == b[1] and (a[3], b[3]) == (0, 1):
                return ('el', a[1])
        return ('el', x)

    def text(self, s, t):
        """a text in pieces"""
        out = []
        for k, x in segs(strip_it(t)):
            if k == 'one':
                if x[0] == 'fld' and x[3] == 1 and x[1][0] in ('nth', 'fld', 'sym', 'phi'):
                    out.append(('el', x[1]))
                else:
                    out.append(('chr', x))
            elif x[0] == 'flatmap' and len(x[3]) == 1 and not x[3][0][0] and list(x[3][0][1]) == [('one', ('fld', ('bv', x[2]), 0, 1))]:
                out += self.pairs(s, x[1])
            elif x[0] == 'seq':
                out += self.text(s, x)
            elif s.decide(compare(seq_len(x), INT(0), EQ0)) is not True:
                out.append(('txt', x))
        return out

    def joined(self, s, ps):
        """nth(X, k) before the rest of X from k+1 is the rest from k"""
        out = []
        for p in reversed(ps):
            if out and p[0] == 'el' and p[1][0] == 'nth' and p[1][2][0] == 'int' and out[-1][0] == 'from' and out[-1][1] == p[1][1] and out[-1][2] == p[1][2][1] + 1:
                out[-1] = ('from', p[1][1], p[1][2][1])
            elif p[0] == 'el' and p[1][0] == 'nth' and p[1][2][0] == 'int' and s.decide(compare(seq_len(p[1][1]), INT(p[1][2][1] + 1), EQ0)) is True:
                # the last element
                out.append(('from', p[1][1], p[1][2][1]))
            else:
                out.append(p)
        return out[::-1]

    def all_text(self, s, h, A=None):
        return self.joined(s, self.text(s, h.A if A is None else A) + self.pairs(s, h.S) + self.pairs(s, h.P) + self.pairs(s, h.T))

    def rest(self, s, h):
        return self.joined(s, self.pairs(s, h.S) + self.pairs(s, h.P) + self.pairs(s, h.T))

    def char(self, s, h, i):
        """the i-th unread character"""
        for X in (h.P, h.T):
            if s.decide(compare(seq_len(X), INT(i + 1), ONE_UP)) is True:
                return nth(X, INT(i))
            for j in range(i + 1):
                if s.decide(compare(seq_len(X), INT(j), EQ0)) is True:
                    i -= j
                    break
            else:
                return None
        return 'end'

    def place(self, s, h, t):
        """positions of characters as distances from the start of the token"""
        base = add(h.p0, seq_len(h.A))
        m = {}
        at = {h.S: base, h.P: add(base, seq_len(h.S)), h.T: add(add(base, seq_len(h.S)), seq_len(h.P))}
        for x in subterms(t):
            if x[0] == 'fld' and x[3] == 0 and x[1][0] == 'nth' and strip_it(x[1][1]) in at:
                m[x] = add(at[strip_it(x[1][1])], x[1][2])
        return subst(t, m) if m else t

    # --------------------------------------------------------------- segments
    def segment(self, s, origin, dest):
        lid, at = origin
        s = s.fork()
        if lid is None:
            pre = {'held': self.inits[0], 'sim': None, 'marks': [], 'X': None}
        else:
            pre = self.heads[lid]
        ev = [e for e in s.ev[at:] if e[0] == 'call']
        h = pre['held']
        # a match is marked exactly when the token has some text
        for p, m in pre['marks']:
            d = s.decide(m)
            if d is not None and not s.assume(compare(seq_len(h.A), INT(1), ONE_UP), d):
                return
        if lid is not None and pre['marks'] and s.decide(compare(seq_len(h.A), INT(0), EQ0)) is None and dest[0] not in ('enter', 'back', 'panic'):
            for d in (True, False):
                k = s.fork()
                if k.assume(compare(seq_len(h.A), INT(1), ONE_UP), d) and all(k.assume(m, d) for _, m in pre['marks']):
                    self.walk(k, pre, ev, dest)
            return
        self.walk(s, pre, ev, dest)

    def walk(self, s, pre, ev, dest):
        """follows the calls of the automaton; forks on answers that were ignored"""
        h, cur = pre['held'], pre['sim']
        n, acc, last = 0, 0, None
        odd = None
        for e in ev:
            if e[1] == SIM:
                cur = e[3]
            elif e[1] == FEED:
                c = self.char(s, h, n)
                want = c if c in (None, 'end') else fld(c, 0, 1)
                if e[2][0] != cur or want is None or want == 'end' or e[2][1] != want:
                    odd = 'feeds %s to %s, the next character is %s' % (show(e[2][1])[:80], show(e[2][0])[:80], show(want)[:80] if isinstance(want, tuple) else want)
                    break
                d = s.decide(e[3])
                if d is None:
                    for b in (True, False):
                        k = s.fork()
                        if k.assume(e[3], b):
                            self.walk(k, pre, ev, dest)
                    return
                n += 1
                cur = ('post', FEED, 0, e[2])
                if d:
                    acc, last = n, cur
        k = s.fork()
        if not self.contract(k):
            return
        if dest[0] == 'panic':
            return self.panic(k, pre, dest)
        if odd:
            what = 'characters fed'
            if self.odd(k):
                return self.dunno('longest', what, odd)
            return self.wrong('longest', what, '%s, when %s' % (odd, facts_of(k)[:300]))
        if dest[0] in ('enter', 'back'):
            self.to_head(k, pre, dest, n, acc, cur, last)
        else:
            self.to_end(k, pre, dest, n, acc, cur, last)

    def contract(self, s):
        """what the automaton guarantees: it accepts exactly when it is in a final
        state, every final state has a token, what can be fed leads on"""
        def state(k):
            if contains(k, lambda y: y[0] == 'app' and y[1] == FINAL):
                return True
            ps = {p for X in self.heads.values() for p, _ in X['marks'] if any(
                contains(r['upd'].get(p, p), lambda y: y[0] == 'app' and y[1] == FINAL) for r in X['X'].backs)}
            return contains(k, lambda y: y in ps)
        for f in list(s.facts()):
            for x in subterms(f):
                if x[0] == 'app' and x[1] == ACC and x[2][0] == 'post' and x[2][1] == FEED:
                    d = s.decide(('app', FEED) + tuple(x[2][3]))
                    if d is not None and not s.assume(x, d):
                        return False
                if x[0] == 'app' and x[1] == FINAL and x[2][0] == 'post' and x[2][1] == FEED:
                    r = ('app', FEED) + tuple(x[2][3])
                    if s.decide(r) is True and not s.assume(compare(seq_len(('sorted', x)), INT(1), ONE_UP)):
                        return False
                    if s.decide(r) is True and s.decide(compare(seq_len(x), INT(0), EQ0)) is True:
                        return False
                if x[0] == 'mapget' and state(x[2]):
                    if not s.assume(isvar(x, (1,), uni(OPT))):
                        return False
                if x[0] == 'app' and x[1] == FEED and s.decide(x) is True:
                    if not s.assume(('app', CAN) + tuple(x[2:])):
                        return False
        return True

    def odd(self, s, *ts):
        r = set()
        for t in list(s.facts()) + list(ts):
            r |= {y for y in opaque_in(t, self.allowed) if y not in ('post', 'phi')}
        return r

    def panic(self, s, pre, dest):
        txt = 'panics (%s), when %s' % (dest[1][:2], facts_of(s)[:300])
        for tag in ('longest', 'stop'):
            if self.odd(s):
                self.dunno(tag, 'panic', txt)
            else:
                self.wrong(tag, 'panic', txt)

    def expected(self, s, h, n, acc):
        """(text of the token, number of characters after it that were read)"""
        if not acc:
            return h.A
        cs = [self.char(s, h, i) for i in range(acc)]
        if any(c in (None, 'end') for c in cs):
            return None
        return ('pieces', self.joined(s, self.text(s, h.A) + self.pairs(s, h.S) + [('el', c) for c in cs]))

    def to_head(self, s, pre, dest, n, acc, cur, last):
        kind, X, row = dest
        h = pre['held']
        st = X.entry if kind == 'enter' else row['state']
        g = self.sh.read(st.mem[self.root])
        post = self.heads[X.id]
        when = facts_of(s)[:300]
        self.conserve(s, h, g, g.A, 'characters kept')
        # positions
        if self.same_int(s, h, g.p0, h.p0):
            self.good('text', 'start of the token')
        else:
            self.refute('text', 'start of the token', s, pre, g.p0, lambda e: e['p0'], g)
        if acc:
            n1 = self.length(s, self.text(s, g.A))
            want = add(h.p0, n1) if n1 else None
            if want and self.same_int(s, h, g.p1, want):
                self.good('text', 'end of the token')
            else:
                self.refute('text', 'end of the token', s, pre, g.p1, lambda e: e['p0'] + len(e['m'].ev(g.A)), g)
        elif g.A != h.A or g.p1 != h.p1 and kind == 'back':
            self.refute('text', 'end of the token', s, pre, g.p1, lambda e: e['p0'] + len(e['m'].ev(g.A)) if len(e['m'].ev(g.A)) else e['m'].ev(g.p1), g)
        # longest match
        self.chosen(s, pre, g.A, n, acc, 'text of the longest match', g)
        v = post['sim']
        if v is None:
            self.dunno('longest', 'automaton', 'not found in the loop')
        else:
            u = row['upd'].get(v, v) if kind == 'back' else dict((p, i) for p, i, _ in X.phis).get(v, v)
            if u == cur:
                self.good('longest', 'automaton fed')
            elif self.odd(s, u):
                self.dunno('longest', 'automaton fed', '%s instead of %s' % (show(u)[:200], show(cur)[:200] if cur else None))
            else:
                self.wrong('longest', 'automaton fed', 'goes on with %s instead of %s, when %s' % (show(u)[:200], show(cur)[:200] if cur else None, when))
        # the automaton has seen what was read
        read = sub(add(self.length(s, self.text(s, g.A)), self.length(s, self.pairs(s, g.S))),
                   add(self.length(s, self.text(s, h.A)), self.length(s, self.pairs(s, h.S))))
        if kind == 'back' and read != INT(n):
            known = {p for p, _ in post['marks']} | {v}
            others = [p for p, _, _ in X.phis if p not in known and row['upd'].get(p, p) != p and row['upd'][p][0] in ('adt', 'bool', 'int')]
            txt = 'goes on after %d characters were fed and %s read, when %s' % (n, show(read)[:80], when)
            if others or read[0] != 'int' or self.odd(s):
                self.dunno('longest', 'characters fed', txt)
            else:
                self.wrong('longest', 'characters fed', txt)
        else:
            self.good('longest', 'all characters that were read are fed')
        # marks
        for p, m in post['marks']:
            u = row['upd'].get(p, p) if kind == 'back' else dict((q, i) for q, i, _ in X.phis).get(p, p)
            want = TRUE if acc else None
            d = s.decide(subst(m, {p: u}))
            if acc and d is not True or not acc and kind == 'back' and u != p and d is True:
                self.wrong('longest', 'match remembered', '%s although the text %s, when %s' % (show(u)[:100], 'matches' if acc else 'does not match', when))
            else:
                self.good('longest', 'match remembered')
        self.kinds(s, pre, post, dest, acc, last, g)

    def length(self, s, ps):
        r = INT(0)
        for p in ps:
            if p[0] in ('el', 'chr'):
                r = add(r, INT(1))
            elif p[0] == 'from':
                r = add(r, sub(seq_len(p[1]), INT(p[2])))
            elif p[0] == 'txt':
                r = add(r, seq_len(p[1]))
        return r

    def same_int(self, s, h, a, b):
        a, b = self.place(s, h, a), self.place(s, h, b)
        return a == b or s.decide(compare(a, b, EQ0)) is True

    def conserve(self, s, h, g, A, what, tag='text', pre=None):
        """no character lost, added or moved, and each keeps its number"""
        if self.all_text(s, g, A) == self.all_text(s, h):
            return self.good(tag, what)

        def want(e):
            return e['all']

        def got(e):
            m = e['m']
            r = [x for t in (g.S, g.P, g.T) for x in m.ev(t)]
            k = len(m.ev(A))
            return list(m.ev(A)) + [x[1] for x in r], [x[0] for x in r], k
        self.refute(tag, what, s, {'held': h, 'marks': self.marks_of(h)}, got, lambda e: (
            [x[1] for x in e['all']], [x[0] for x in e['all']][len(e['m'].ev(A)):], len(e['m'].ev(A))), g)

    def marks_of(self, h):
        for x in self.heads.values():
            if x['held'] is h:
                return x['marks']
        return []

    def chosen(self, s, pre, A, n, acc, what, g):
        h = pre['held']
        want = self.expected(s, h, n, acc)
        if want is None:
            return self.dunno('longest', what, 'next character not known')
        w = want[1] if want[0] == 'pieces' else self.joined(s, self.text(s, want))
        if self.joined(s, self.text(s, A)) == w:
            return self.good('longest', what)
        self.refute('longest', what, s, pre, lambda e: list(e['m'].ev(A)), lambda e: e['A'] if not acc else e['A'] + [x[1] for x in e['S'] + e['Q'][:acc]], g)

    # ---------------------------------------------------------------- outcomes
    def to_end(self, s, pre, dest, n, acc, cur, last):
        v, h = dest[1], pre['held']
        g = self.sh.read(s.mem[self.root])
        when = facts_of(s)[:300]
        if v[0] != 'adt' or v[1] != OPT:
            for tag in self.tags:
                self.dunno(tag, 'result', show(v)[:200])
            return
        # stops only where no longer text can match
        c = self.char(s, h, n)
        if c == 'end':
            self.good('longest', 'stops at the end of the input')
        elif c is not None and s.decide(('app', CAN, cur, fld(c, 0, 1))) is False:
            self.good('longest', 'stops where nothing can match')
        else:
            txt = 'stops although %s may go on, when %s' % ('the automaton' if c is not None else 'the input', when)
            if self.odd(s) or cur is None and pre['X'] is not None:
                self.dunno('longest', 'stop', txt)
            else:
                self.wrong('longest', 'stop', txt)
        matched = True if acc else s.decide(compare(seq_len(h.A), INT(1), ONE_UP)) if pre['X'] is not None else False
        if matched is None:
            for d in (True, False):
                k = s.fork()
                if k.assume(compare(seq_len(h.A), INT(1), ONE_UP), d):
                    self.to_end(k, pre, dest, n, acc, cur, last)
            return
        if v[2] == 0:
            if matched:
                for tag in ('longest', 'text'):
                    self.claim(tag, 'no token', 'yields nothing although %s matches, when %s' % (show(h.A)[:60], when), s)
                return
            self.good('longest', 'no token')
            self.good('stop', 'nothing where no token matches')
            self.conserve(s, h, g, self.left(g), 'nothing lost without a token')
            self.conserve(s, h, g, self.left(g), 'stays where it was', 'stop')
            if self.pairs(s, g.S):
                self.refute('stop', 'characters given back', s, pre, lambda e: list(e['m'].ev(g.S)), lambda e: [], g)
            else:
                self.good('stop', 'characters given back')
            self.starts(s, pre, g, h.p0, h.A)
            return
        if not matched:
            for tag in ('longest', 'stop'):
                self.claim(tag, 'token', 'yields a token although nothing matches, when %s' % when, s)
            return
        tok = v[3][0]
        if tok[0] != 'adt' or tok[1] != self.token:
            for tag in self.tags:
                self.dunno(tag, 'token', show(tok)[:200])
            return
        src, pos = strip_it(tok[3][self.t_src]), tok[3][self.t_pos]
        self.chosen(s, pre, src, n, acc, 'text of the token', g)
        self.conserve(s, h, g, src, 'text of the token and the rest')
        self.good('stop', 'a token where one matches')
        n1 = self.length(s, self.text(s, src))
        q0, q1 = fld(pos, 0, 0), fld(pos, 0, 1)
        p1 = {h.p1: add(h.p0, seq_len(h.A))} if not acc and pre['X'] is not None and h.p1[0] == 'phi' else {}
        for what, q, want, f in (('position: start', q0, h.p0, lambda e: e['p0']), ('position: end', q1, add(h.p0, n1), lambda e: e['p0'] + len(e['m'].ev(src)))):
            if self.same_int(s, h, subst(q, p1), want):
                self.good('text', what)
            else:
                self.refute('text', what, s, pre, q, f, g)
        self.starts(s, pre, g, add(h.p0, n1), src, p1)
        self.kind_out(s, pre, tok[3][self.t_kind], src, acc, last, g)

    def claim(self, tag, what, txt, s):
        if self.odd(s):
            self.dunno(tag, what, txt)
        else:
            self.wrong(tag, what, txt)

    def left(self, g):
        """the text of the next token so far"""
        return g.A if self.mode == 'clean' else EMPTY

    def starts(self, s, pre, g, want, src, p1={}):
        """the lexer is ready for the next token"""
        h = pre['held']
        if self.mode == 'clean':
            ps = self.text(s, g.A)
            if ps and not (pre['X'] is not None and g.A == h.A and s.decide(compare(seq_len(h.A), INT(0), EQ0)) is True):
                self.refute('text', 'text of the next token', s, pre, lambda e: list(e['m'].ev(g.A)), lambda e: [], g)
            else:
                self.good('text', 'text of the next token')
        ps = self.pairs(s, g.S)
        if ps:
            self.refute('text', 'characters given back', s, pre, lambda e: list(e['m'].ev(g.S)), lambda e: [], g)
        q = g.p0 if self.mode == 'clean' else g.p1
        if self.same_int(s, h, subst(q, p1), want):
            self.good('text', 'start of the next token')
        else:
            self.refute('text', 'start of the next token', s, pre, q, lambda e: e['p0'] + (len(e['m'].ev(src)) if src is not h.A or want != h.p0 else 0), g)

    # ------------------------------------------------------------------- kinds
    def first_final(self, sim):
        return ('nth', ('sorted', ('app', FINAL, sim)), INT(0))

    def kind_value(self, s, t, key_ok, M, text_ok):
        """None if t is the kind made by the generator of the state; else what is wrong"""
        if t[0] != 'app' or t[1] != DYN:
            return 'not made by a generator: %s' % show(t)[:100]
        gen, args = t[2], t[3:]
        x = gen
        if x[0] != 'fld' or x[1][0] != 'fld' or x[1][1][0] != 'mapget':
            return 'by an unknown generator: %s' % show(gen)[:100]
        mg = x[1][1]
        if mg[1] != M:
            return 'by a generator from elsewhere: %s' % show(mg[1])[:100]
        r = key_ok(mg[2])
        if r:
            return r
        if len(args) > 1:
            return 'called with %d texts' % len(args)
        if args and not text_ok(args[0]):
            return 'called with the text %s' % show(args[0])[:200]
        return None

    def min_of(self, t, sim):
        F = ('app', FINAL, sim)
        if t == self.first_final(sim):
            return True
        while t[0] == 'fld' and t[1][0] in ('app', 'min'):
            t = t[1]
        return t[0] in ('min', 'app') and F in t and 'min' in str(t[:2])

    def kinds(self, s, pre, post, dest, acc, last, g):
        """values remembered with a match are those of the match"""
        if 'kind' not in self.tags or dest[0] == 'enter':
            return
        kind, X, row = dest
        h = pre['held']
        for p, m in post['marks']:
            u = row['upd'].get(p, p)
            if not acc:
                if u == p:
                    self.good('kind', 'kept without a match')
                else:
                    self.say_kind('kept without a match', 'changes to %s' % show(u)[:200], s, u)
                continue
            if u[0] != 'adt' or not u[3]:
                if u == p:
                    self.say_kind('of the longest match', 'stays the one of a shorter text', s)
                continue
            x = u[3][0]
            if x[0] == 'app' and x[1] == DYN:
                self.judge_kind('of the longest match', s, x, last, h.M, g.A, u)
            elif self.min_of(x, last):
                self.good('kind', 'state of the longest match')
            elif contains(x, lambda y: y[0] == 'app' and y[1] in (FINAL, DYN)):
                self.say_kind('of the longest match', 'is %s' % show(x)[:200], s, x)
            else:
                self.dunno('kind', 'of the longest match', show(x)[:200])
        # generators stay
        if g.M != h.M and not self.only_called(g.M, h.M):
            self.say_kind('generators', 'change to %s' % show(g.M)[:200], s, g.M)
        else:
            self.good('kind', 'generators stay')

    def only_called(self, M2, M):
        while M2 != M:
            if M2[0] != 'mapins':
                return False
            k, v = M2[2], M2[3]
            if v[0] == 'with' and len(v[2]) == 1 and v[2][0][2][0] == 'post' and v[2][0][2][1] == DYN:
                b = v[1]
                if not (b[0] == 'fld' and b[1][0] == 'mapget' and b[1][2] == k):
                    return False
            elif not (v[0] == 'fld' and v[1][0] == 'mapget' and v[1][2] == k):
                return False
            M2 = M2[1]
        return True

    def judge_kind(self, what, s, x, sim, M, text, u):
        want = self.joined(s, self.text(s, text))
        t_ok = lambda a: self.joined(s, self.text(s, strip_it(a))) == want
        k_ok = lambda k: None if self.min_of(k, sim) else 'of the state %s' % show(k)[:150]
        bad = self.kind_value(s, x, k_ok, M, t_ok)
        if bad is None:
            self.good('kind', what)
        else:
            self.say_kind(what, bad, s, x)

    def say_kind(self, what, txt, s, *ts):
        if not any(contains(t, lambda y: y[0] == 'app' and y[1] == FINAL) for t in ts):
            # made without a look at the state: calls of std do not matter
            odd = {y for y in self.odd(s, *ts) if not y.startswith(('app BTreeMap::', 'app HashMap::', 'app Iterator::', 'app str::', 'app String::'))}
        else:
            odd = self.odd(s, *ts)
        odd = {y for y in odd if not y.startswith(('app str::', 'app String::', 'app u8::', 'app char::'))}
        if odd:
            self.dunno('kind', what, '%s (%s)' % (txt, ', '.join(sorted(odd))[:100]))
        else:
            self.wrong('kind', what, '%s, when %s' % (txt, facts_of(s)[:200]))

    def kind_out(self, s, pre, x, src, acc, last, g):
        if 'kind' not in self.tags:
            return
        what = 'kind of the token'
        marks = [p for p, _ in pre['marks']]
        if acc:
            if x[0] == 'app' and x[1] == DYN:
                return self.judge_kind(what, s, x, last, pre['held'].M, src, x)
            return self.dunno('kind', what, show(x)[:200])
        if x[0] == 'fld' and x[1] in marks:
            self.pair_up(pre, x[1], src, what)
            return
        if x[0] == 'app' and x[1] == DYN:
            M = pre['held'].M
            t_ok = lambda a: self.joined(s, self.text(s, strip_it(a))) == self.joined(s, self.text(s, src))
            k_ok = lambda k: None if k[0] == 'fld' and k[1] in marks or k in marks else 'of the state %s' % show(k)[:150]
            bad = self.kind_value(s, x, k_ok, M, t_ok)
            if bad is None:
                return self.good('kind', what)
            return self.say_kind(what, bad, s, x)
        self.dunno('kind', what, show(x)[:200])

    def pair_up(self, pre, p, src, what):
        if src == pre['held'].A:
            self.good('kind', what)
        else:
            self.dunno('kind', what, 'text %s' % show(src)[:200])

    # ------------------------------------------------------------------ models
    def models(self, s, pre):
        """small states of the lexer that the facts allow"""
        h = pre['held']
        g = s.facts()
        # characters that the facts distinguish
        marked = sorted(x for x in limits(g) if 0 <= x <= 0x10ffff)[:8]
        for special in [None] + marked:
            for na, ns, np_, nt in itertools.chain(itertools.product((0, 1, 2), repeat=4), FEW if special is None else ()):
                lens = [(h.A, na), (h.S, ns), (h.P, np_), (h.T, nt)]
                if any(x == EMPTY and k for x, k in lens):
                    continue
                n = na + ns + np_ + nt
                for p0, c0 in ((0, 97), (3, 97), (0, 0xe8)):
                    for at in (range(n) if special is not None else (n,)):
                        cs = [c0 + i if i != at else special for i in range(n)]
                        for mark in (False, True) if not pre.get('marks') else (na > 0,):
                            e = self.small(h, pre, p0, cs, na, ns, np_)
                            if e['m'].holds_so_far(g):
                                yield e

    def small(self, h, pre, p0, cs, na, ns, np_):
        env = {}
        A = cs[:na]
        allp = [Tup((p0 + i, c)) for i, c in enumerate(cs)]
        S, P, T_ = allp[na:na + ns], allp[na + ns:na + ns + np_], allp[na + ns + np_:]
        for x, v in ((h.A, Seq(A)), (h.S, Seq(S)), (h.P, Seq(P)), (h.T, Seq(T_))):
            if x != EMPTY:
                env[x] = v
        env[h.p0] = p0
        if h.p1 not in env:
            env[h.p1] = p0 + na if na else 0
        if h.p0 == h.p1:
            env[h.p0] = p0
        for q, m in pre.get('marks', ()):
            env[q] = (bool(na) if m == q else Adt((OPT, 1, (7,))) if na else Adt((OPT, 0, ())))
        m = Model(env, {'bytelen': lambda v: sum(len(chr(c).encode()) for c in v)})
        return {'m': m, 'p0': p0, 'A': A, 'S': S, 'Q': P + T_, 'all': allp}

    def refute(self, tag, what, s, pre, got, want, g):
        """a small input for which the value is another one"""
        if tag not in self.tags:
            return
        f = got if callable(got) else lambda e: e['m'].ev(got)
        n = 0
        for e in self.models(s, pre):
            try:
                a, b = f(e), want(e)
            except (Undef, TypeError, IndexError, AttributeError):
                continue
            n += 1
            if a != b:
                txt = '%s instead of %s, e.g. with text %s, read %s, unread %s; when %s' % (
                    a if not isinstance(a, tuple) else list(a), b if not isinstance(b, tuple) else list(b), e['A'], e['S'], e['Q'], facts_of(s)[:300])
                odd = self.odd(s)
                if odd:
                    return self.dunno(tag, what, '%s (%s)' % (txt, ', '.join(sorted(odd))[:100]))
                return self.wrong(tag, what, txt)
        t = show(got)[:200] if not callable(got) else ''
        self.dunno(tag, what, 'no small input shows a difference (%d tried) %s, when %s' % (n, t, facts_of(s)[:300]))
