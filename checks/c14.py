"""C14: positions in regex errors lie inside the regex."""
from rex import *
import tok as K


def check(ctx):
    ctx.rule('the position of a regex token goes from its first character to the first character after it (characters counted from the start of the regex)')
    ctx.rule('the position of every error of the regex parser is a non-empty range made from positions of tokens that exist on that path')
    ctx.notes['taken as given'] = 'the remembered current token is one that was consumed (subject of C15)'
    ctx.part('characters', counted, ctx)
    ctx.part('tokens', tokens, ctx)
    ctx.part('parser', Rex(ctx, ('pos',)).go)


def counted(ctx):
    b, its, text = new_parser(ctx)
    if its == {('enum', text, INT(0))} or its == {('enum', text, 0)}:
        return ctx.ok('characters are counted from the start of the regex')
    if len(its) == 1:
        X, = its
        if X[0] == 'enum' or contains(X, lambda t: t[0] == 'app' and t[1] == 'char_indices'):
            return ctx.violate('characters', 'are counted by %s' % show(X)[:200], site(b))
    ctx.unknown('characters', ', '.join(show(x)[:200] for x in its))


def tokens(ctx):
    t = K.Tok(ctx)
    ctx.need(t.fp is not None, 'position of a token')
    P = Places(t)
    n = 0
    for r in t.rows:
        if r['tok'] is None:
            continue
        n += 1
        s, pos = r['s'], r['pos']
        start, end = P.lin(fld(pos, 0, 0)), P.lin(fld(pos, 0, 1))
        first = P.lin(fld(nth(t.S, INT(0)), 0, 0))
        when = facts_of(s)[:300]
        name = show(r['tok'])[:12].split('(')[0]
        if start is None or end is None or r['rest'] is None:
            ctx.unknown('position of a token', '%s, when %s' % (show(pos)[:200], when))
            continue
        after = P.after(r['rest'])
        if s.decide(compare(start, first, EQ0)) is True:
            ctx.ok('%s starts at its first character' % name)
        else:
            judge(ctx, s, 'start of a token', start, first, pos, when, t)
        if s.decide(compare(end, after, EQ0)) is True:
            ctx.ok('%s ends after its last character' % name)
        else:
            judge(ctx, s, 'end of a token', end, after, pos, when, t)
    ctx.need(n >= 20, 'tokens')


def judge(ctx, s, what, got, want, pos, when, t):
    d = s.decide(compare(got, want, EQ0))
    k = s.fork()
    if d is False or not [x for x in opaque_in(got, {p for X in t.I.loops.values() for p, _, _ in X.phis})] and k.assume(compare(got, want, EQ0), False):
        ctx.violate(what, '%s (%s instead of %s), when %s' % (show(pos)[:200], show(got)[:100], show(want)[:100], when), site(t.b))
    else:
        ctx.unknown(what, '%s (%s instead of %s), when %s' % (show(pos)[:200], show(got)[:100], show(want)[:100], when))


class Places:
    """character numbers in terms of the number of characters left"""

    def __init__(self, t):
        self.t, self.S = t, t.S
        self.suffixes = {t.S}
        self.items = {}          # phi of an item -> (suffix, distance)
        for L in t.I.loops.values():
            for p, i, _ in L.phis:
                if strip_it(i)[0] in ('drop', 'sym', 'phi') and self.base(strip_it(i)) in self.suffixes:
                    if all(self.base(r['upd'].get(p, p)) == p or r['upd'].get(p, p) == EMPTY for r in L.backs):
                        self.suffixes.add(p)
        for L in t.I.loops.values():
            for p, i, _ in L.phis:
                for R in [q for q, _, _ in L.phis if q in self.suffixes]:
                    self.relate(L, p, i, R)

    def base(self, X):
        while X[0] == 'drop':
            X = X[1]
        return X

    def after(self, X):
        """number of the first character of the suffix X"""
        return add(fld(nth(self.S, INT(0)), 0, 0), sub(seq_len(self.S), seq_len(X)))

    def relate(self, L, p, i, R):
        """p is the item just before the suffix R"""
        want = lambda X: add(self.after(X), INT(-1))
        a = self.lin(fld(i, 0, 0))
        s = L.entry
        if a is None or s.decide(compare(a, want(L.init(R)), EQ0)) is not True:
            return
        for r in L.backs:
            u, X = r['upd'].get(p, p), r['upd'].get(R, R)
            x = self.lin(fld(u, 0, 0)) if u != p else None
            if x is None or r['state'].decide(compare(x, want(X), EQ0)) is not True:
                if not (u == p and X == R):
                    return
        self.items[p] = R

    def lin(self, t):
        """the term with numbers of characters replaced"""
        if not is_intlike(t):
            return None
        m = {}
        for x in subterms(t):
            if x[0] == 'fld' and x[3] == 0 and x[1][0] == 'nth' and self.base(x[1][1]) in self.suffixes:
                if x[1][1] == self.S and x[1][2] == INT(0):
                    continue
                m[x] = add(self.after(x[1][1]), x[1][2])
            elif x[0] == 'fld' and x[3] == 0 and x[1] in self.items:
                m[x] = add(self.after(self.items[x[1]]), INT(-1))
        return subst(t, m) if m else t
