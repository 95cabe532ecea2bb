"""Decision tables: comparison of an analysed function with its specification.

A table is a list of rows (state, kind, value); the facts of the rows partition
the inputs.  Two tables denote the same function iff every pair of rows that
can hold together has equal results.
"""
from terms import *
import terms as T
from engine import State, join_exact


def assume_facts(st, facts):
    """in place; False if contradictory"""
    for g in sorted(facts, key=key):
        t = guard_term(g)
        if not st.assume(t):
            return False
    return True


def meet(a, b):
    s = a.fork()
    return s if assume_facts(s, b.facts()) else None


def subtract(states, guards):
    """states minus the conjunction of guards"""
    out = []
    for s in states:
        cur = s
        dead = False
        for g in guards:
            t = guard_term(g)
            d = cur.decide(t)
            if d is True:
                continue
            n = cur.fork()
            if n.assume(t, False):
                out.append(n)
            cur = cur.fork()
            if not cur.assume(t):
                dead = True
                break
    return out


def covers(st, rows):
    """facts of st imply that one of the guard lists holds; returns leftovers"""
    rest = [st]
    for g in rows:
        rest = subtract(rest, sorted(g, key=key))
        if not rest:
            break
    return rest


def simp(st, t):
    """simplifies a term by singleton facts"""
    m = {}
    for v, iv in st.I.items():
        if len(v) == 1 and v[0][1] == 1 and len(iv) == 1 and iv[0][0] == iv[0][1]:
            m[v[0][0]] = INT(iv[0][0])
            if v[0][0][0] == 'len' and iv[0][0] == 0 and v[0][0][1][0] in ('sym', 'fld', 'bv', 'nth'):
                m[v[0][0][1]] = EMPTY
        elif len(iv) == 1 and iv[0][0] == iv[0][1]:
            # a + rest = c: replace the first atom by the rest
            (a, c), rest = v[0], v[1:]
            if c == 1:
                r = INT(iv[0][0])
                for x, k in rest:
                    r = add(r, mul(INT(-k), x))
                if not contains(r, lambda z: z == a):
                    m[a] = r
    for x, (vs, u) in st.V.items():
        if len(vs) == 1:
            p = T.ADT_OF.get(x)
            if p == OPT and vs[0] == 0:
                m[x] = NONE
            elif p == OPT and vs[0] == 1:
                m[x] = SOME(fld(x, 1, 0))
            elif p in T.NAMES and FIELDS.get((p, vs[0]), 1) == 0:
                m[x] = ('adt', p, vs[0], ())
    for a, b in st.A.items():
        m[a] = BOOL(b)
    for _ in range(3):
        n = subst_safe(t, m)
        if n == t:
            break
        t = n
    return t


FIELDS = {}


def subst_safe(t, m):
    # do not rewrite x inside the payload projection SOME(fld(x,1,0))
    mm = {k: v for k, v in m.items()}
    if t in mm:
        return mm[t]
    return subst1(t, mm)


def subst1(t, m):
    if not isinstance(t, tuple) or not t:
        return t
    try:
        if t in m:
            return m[t]
    except TypeError:
        pass
    if t[0] == 'fld':
        # keep the base of a payload projection
        b = t[1]
        if b in m and m[b][0] == 'adt':
            return rebuild(('fld', m[b], t[2], t[3])) if m[b][3] else t
    if t[0] in ('lin', 'in'):
        return subst(t, {k: v for k, v in m.items() if v[0] in ('int', 'lin')})
    n = tuple(subst1(x, m) if isinstance(x, tuple) else x for x in t)
    return rebuild(n) if n != t else t


def split_bool(I, outs):
    """rows with boolean results split into true and false"""
    r = []
    for s, k, v in outs:
        if k != 'ret' or v[0] == 'bool':
            r.append((s, k, v))
            continue
        for s2, b in I.fork_bool(s, v):
            r.append((s2, k, BOOL(b)))
    return r


def same(st, a, b):
    if a == b:
        return True
    x, y = simp(st, a), simp(st, b)
    if x == y:
        return True
    if x[0] == y[0] == 'adt' and x[1] == y[1] and x[2] == y[2] and len(x[3]) == len(y[3]):
        return all(same(st, p, q) for p, q in zip(x[3], y[3]))
    if x[0] == y[0] == 'tup' and len(x[1]) == len(y[1]):
        return all(same(st, p, q) for p, q in zip(x[1], y[1]))
    if x[0] in ('seq', 'set') and x[0] == y[0] and len(x[1]) == len(y[1]):
        if x[0] == 'seq' and all(p[0] == q[0] and same(st, p[1], q[1]) for p, q in zip(x[1], y[1])):
            return True
    try:
        return st.decide(eq(x, y)) is True
    except Exception:
        return False


def diff(I, impl, spec, cmp=None):
    """pairs of rows that can hold together but disagree"""
    out = []
    for i, (s, k, v) in enumerate(impl):
        for s2, k2, v2 in spec:
            m = meet(s, s2)
            if m is None:
                continue
            if k != k2 or (k == 'ret' and not (cmp or same)(m, v, v2)):
                out.append((i, m, (k, v), (k2, v2)))
    return out


def pred_eq(I, src, impl_rows, spec_rows, base=None):
    """two predicates over a bound variable given by their accepting guard
    lists; returns (accepted too much, rejected too much)"""
    much, less = [], []
    b = base or State()
    for g in impl_rows:
        s = b.fork()
        if not assume_facts(s, g):
            continue
        much.extend(covers(s, spec_rows))
    for g in spec_rows:
        s = b.fork()
        if not assume_facts(s, g):
            continue
        less.extend(covers(s, impl_rows))
    return much, less


def fm_rows(f, bv):
    """guard lists of a filter comprehension, for the bound variable bv"""
    return [subst_guards(g, {('bv', f[2]): bv}) for g, ss in f[3]]
