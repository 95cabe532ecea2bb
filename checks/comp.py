"""Comprehensions as clauses.

A set valued term is flattened into clauses (binders, guards, value): for all
elements of the binder sources that satisfy the guards, value is an element.
Two terms over the same binders denote the same set when every clause of one
is covered by the clauses of the other that emit the same value."""
from common import *
from model import Model, Undef, Seq, Tup, Adt, Map, Set, elems, norm, none, some


class Clause:
    def __init__(self, binders, guards, value):
        self.binders = tuple(binders)     # ((var, source), ..)
        self.guards = tuple(guards)
        self.value = value

    def srcs(self):
        return tuple(s for _, s in self.binders)

    def show(self):
        return '%s <- %s' % (show(self.value), ', '.join(
            ['%s in %s' % (show(v), show(s)) for v, s in self.binders] + [gshow(self.guards)]))


def var_at(d):
    return sym('x%d' % d)


def clauses(t, depth=0):
    """clauses of a set or sequence valued term"""
    out = []
    for s in set_segs(t if t[0] != 'it' else t[1]):
        if s[0] == 'one':
            out.append(Clause((), (), s[1]))
        else:
            out.extend(sub_clauses(s[1], depth))
    return out


def sub_clauses(t, depth):
    while t[0] in ('unord', 'sorted', 'rev'):
        t = t[1]
    if t[0] in ('seq', 'set'):
        return clauses(t, depth)
    if t[0] != 'flatmap':
        v = var_at(depth)
        return [Clause(((v, t),), (), v)]
    src = t[1]
    while src[0] in ('unord', 'sorted', 'rev'):
        src = src[1]
    out = []
    bv = ('bv', t[2])
    if src[0] in ('seq', 'set', 'flatmap'):
        for c in clauses(src if src[0] != 'flatmap' else ('seq', (('sub', src),)), depth):
            d = depth + len(c.binders)
            for g, ss in t[3]:
                gs = subst_guards(g, {bv: c.value})
                if gs is None:
                    continue
                full = merge_guards(c.guards, gs)
                if full is None:
                    continue
                for c2 in clauses(('seq', subst(ss, {bv: c.value})), d):
                    f2 = merge_guards(full, c2.guards)
                    if f2 is not None:
                        out.append(Clause(c.binders + c2.binders, f2, c2.value))
        return out
    v = var_at(depth)
    for g, ss in t[3]:
        gs = subst_guards(g, {bv: v})
        if gs is None:
            continue
        for c2 in clauses(('seq', subst(ss, {bv: v})), depth + 1):
            full = merge_guards(gs, c2.guards)
            if full is not None:
                out.append(Clause(((v, src),) + c2.binders, full, c2.value))
    return out


def state_of(guards, base=None):
    s = base.fork() if base else State()
    return s if assume_facts(s, guards) else None


def cover(ctx, impl, spec, eqv=same, base=None):
    """clauses of impl not covered by spec: [(clause, state)]"""
    out = []
    for c in impl:
        s = state_of(c.guards, base)
        if s is None:
            continue
        rest = [s]
        for d in spec:
            if d.srcs() != c.srcs():
                continue
            nxt = []
            for r in rest:
                m = r.fork()
                if not assume_facts(m, d.guards):
                    nxt.append(r)
                elif eqv(m, c.value, d.value):
                    nxt.extend(subtract([r], sorted(d.guards, key=key)))
                else:
                    nxt.append(r)
            rest = nxt
            if not rest:
                break
        out.extend((c, r) for r in rest)
    return out


def strip_part(t):
    """sequence without the operations that keep only a part of it; (term, parts)"""
    parts = []
    while True:
        if t[0] in ('takemin', 'skipmin', 'take', 'drop', 'takewhile', 'skipwhile', 'step', 'upto'):
            parts.append(t[0])
            t = t[1]
        elif t[0] in ('unord', 'sorted', 'rev'):
            t = t[1]
        elif t[0] == 'flatmap' and len(t[3]) == 1 and not t[3][0][0] and len(t[3][0][1]) == 1 and t[3][0][1][0][0] == 'one' and parts:
            t = t[1]
        else:
            return t, parts


def partial(srcs, want):
    """the sources are the wanted ones except that only a part of one is used"""
    for w in want:
        n = 0
        for i, (a, b) in enumerate(zip(srcs, w)):
            if a == b:
                n += 1
                continue
            x, parts = strip_part(a)
            if parts and (x == b or strip_part(b)[0] == x):
                return '%s of %s' % ('/'.join(parts), show(b)[:200])
            # elements of the first match only
            for y in subterms(a):
                if y[0] == 'nth' and y[1][0] == 'flatmap' and y[1][1] == b:
                    return 'the element at %s of %s' % (show(y[2]), show(b)[:200])
            break
    return None


def clause_values(m, cl):
    """elements that the clauses give in a finite model"""
    out = set()

    def go(m, c, i):
        if i == len(c.binders):
            if m.holds(c.guards):
                out.add(norm(m.ev(c.value)))
            return
        v, s = c.binders[i]
        src = elems(m.ev(s))
        m2 = m.with_(v, None)
        for x in src:
            m2.env[v] = x
            try:
                go(m2, c, i + 1)
            except Undef:
                # a projection is only defined under the guards
                if m2.holds_so_far(c.guards):
                    raise
    for c in cl:
        try:
            go(m, c, 0)
        except Undef:
            if m.holds_so_far(c.guards):
                raise
    return out


def constants(t, top=40):
    """sizes that small models should straddle"""
    out = set()
    for x in subterms(t):
        ns = [x[1]] if x[0] == 'int' else [n for iv in x[2] for n in iv] if x[0] in ('I', 'in') and len(x) > 2 else []
        if x[0] == 'lin':
            ns = [x[2]]
        if x[0] == 'app' and x[1] in ('cast:u8', 'cast:u16'):
            ns = [1 << int(x[1][6:])]
        out |= {abs(n) for n in ns if isinstance(n, int) and 2 <= abs(n) <= top}
    return sorted(out)[:4] if top == 40 else sorted(out)


def separate(impl, spec, models):
    """(separating model, impl - spec, spec - impl), 'equal' or None"""
    n = 0
    for m in models:
        try:
            a, b = clause_values(m, impl), clause_values(m, spec)
        except Undef:
            continue
        n += 1
        if a != b:
            return m, a - b, b - a
    return 'equal' if n else None


def show_model(m):
    return ', '.join('%s = %r' % (show(k), v) for k, v in m.env.items())[:400]


def compare_sets(ctx, name, impl, spec, where, allowed=(), eqv=same, base=None, what='element', models=None, extra=()):
    """decides that two lists of clauses denote the same set"""
    much = cover(ctx, impl, spec, eqv, base)
    less = cover(ctx, spec, impl, eqv, base)
    if not much and not less:
        ctx.ok(name)
        return True
    if models is not None:
        r = separate(impl + list(extra), spec + list(extra), models(constants(tuple((c.srcs(), c.guards, c.value) for c in impl))))
        if r == 'equal':
            ctx.unknown(name, 'not shown equal to the rule, but no small model separates them')
            return False
        if r:
            m, a, b = r
            txt = ['%s %s although the rule does not give it' % (what, show(c.value)[:200]) for c, s in much[:2]] if a else []
            txt += ['%s %s missing' % (what, show(c.value)[:200]) for c, s in less[:2]] if b else []
            ctx.violate(name, '; '.join(txt) + '; e.g. %s: too much %s, missing %s' % (show_model(m), sorted(map(repr, a))[:3], sorted(map(repr, b))[:3]), where)
            return False
    sp = {d.srcs() for d in spec}
    odd = set()
    for c, _ in much:
        odd |= opaque_in((c.guards, c.value, c.srcs()), allowed)
        if c.srcs() not in sp:
            pt = partial(c.srcs(), sp)
            if pt:
                ctx.violate(name, 'only a part is looked at: %s' % pt, where)
                return False
            odd.add('other source %s' % (show(c.srcs())[:300]))
    if less and not much:
        # something is missing: it may hide in a clause that was not understood
        for c in impl:
            odd |= opaque_in((c.guards, c.value, c.srcs()), allowed)
    if odd:
        ctx.unknown(name, 'uninterpreted %s' % sorted(odd)[:4])
        return False
    txt = ['%s %s although the rule does not give it, when %s' % (what, show(c.value), facts_of(s)) for c, s in much[:2]] + \
          ['%s %s missing, when %s' % (what, show(c.value), facts_of(s)) for c, s in less[:2]]
    ctx.violate(name, '; '.join(txt), where)
    return False
