"""Term domain of the abstract interpreter.

Values are immutable tuples.  Shared borrows, boxes, pins and non-null pointers
are transparent, so a term stands for the value that is reachable.

  ('int', n)  ('bool', b)  ('str', s)           constants (chars are ints)
  ('tup', (v..))  ('adt', path, variant, (v..)) aggregates
  ('clo', path, substs, (captures..))  ('fn', path, substs, info)
  ('ref', root, path)                           mutable reference
  ('sym', name)                                 unknown value
  ('fld', base, variant, idx)                   projection of an unknown value
  ('with', base, ((variant, idx, v)..))         functional update
  ('lin', ((atom, coef)..), const)              linear integer term
  ('in', vec, intervals)                        boolean: vec lies in intervals
  ('seq', segs) / ('set', segs)                 free monoid / free semilattice,
                                                seg = ('one', v) | ('sub', t)
  ('nth', s, k) ('drop', s, k) ('take', s, k)   parts of sequences
  ('flatmap', s, n, ((guards, segs)..))         comprehension, binds ('bv', n)
  ('phi', loop, i)                              loop carried value
  ('app', f, args..) ('post', f, i, args)       uninterpreted results / effects
"""

OPT = 'core::option::Option'
RES = 'core::result::Result'
INF = float('inf')

UNIT = ('tup', ())
TRUE = ('bool', True)
FALSE = ('bool', False)
NONE = ('adt', OPT, 0, ())
EMPTY = ('seq', ())
ESET = ('set', ())
EMAP = ('emap',)


def INT(n):
    return ('int', n)


def BOOL(b):
    return TRUE if b else FALSE


def SOME(v):
    return ('adt', OPT, 1, (v,))


def OK(v):
    return ('adt', RES, 0, (v,))


def ERR(v):
    return ('adt', RES, 1, (v,))


def tup(*xs):
    return ('tup', tuple(xs))


def sym(n):
    return ('sym', n)


# ---------------------------------------------------------------- intervals
FULL = ((-INF, INF),)


def iv_norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def iv_and(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            lo, hi = max(a, c), min(b, d)
            if lo <= hi:
                out.append((lo, hi))
    return iv_norm(out)


def iv_not(x):
    out = []
    lo = -INF
    for a, b in iv_norm(x):
        if a > lo:
            out.append((lo, a - 1))
        lo = b + 1
        if b == INF:
            return tuple(out)
    out.append((lo, INF))
    return iv_norm(out)


def iv_or(x, y):
    return iv_norm(tuple(x) + tuple(y))


def iv_pt(n):
    return ((n, n),)


# known domains of atoms (by type); filled by the interpreter
DOM = {}
# adt path of symbolic enum terms
ADT_OF = {}
# origin of loop carried iterator sequences
ORIGIN = {}


def dom_of(atom):
    if atom in DOM:
        return DOM[atom]
    t = atom[0]
    if t == 'len':
        return ((0, INF),)
    if t == 'mod' and atom[2][0] == 'int' and atom[2][1] > 0:
        return ((0, atom[2][1] - 1),)
    if t == 'digit':
        return ((0, atom[2] - 1),)
    if t == 'getor' and atom[3] == ('int', 0):
        return ((0, INF),)
    if t == 'app' and atom[1] == 'maxof' and atom[2][0] == 'flatmap' and all(
            x[0] == 'one' and all(c >= 0 for c in (*lin(x[1])[0].values(), lin(x[1])[1])) for _, ss in atom[2][3] for x in ss):
        # of sizes and counts
        return ((0, INF),)
    return FULL


# ---------------------------------------------------------------- linear ints
def lin(t):
    """-> (dict atom->coef, const)"""
    if t[0] == 'int':
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {t: 1}, 0


def from_lin(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', tuple(sorted(d.items(), key=lambda x: key(x[0]))), c)


def add(a, b, s=1):
    d, c = lin(a)
    d = dict(d)
    e, f = lin(b)
    for k, v in e.items():
        d[k] = d.get(k, 0) + s * v
    return from_lin(d, c + s * f)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if b[0] == 'int':
        a, b = b, a
    if a[0] == 'int':
        d, c = lin(b)
        return from_lin({k: v * a[1] for k, v in d.items()}, c * a[1])
    return ('mul', *sorted((a, b), key=key))


def compare(a, b, iv):
    """boolean term: a - b in iv"""
    d, c = lin(sub(a, b))
    iv = iv_norm(tuple((lo - c, hi - c) for lo, hi in iv))
    if not d:
        return BOOL(any(lo <= 0 <= hi for lo, hi in iv))
    items = sorted(d.items(), key=lambda x: key(x[0]))
    if items[0][1] < 0:
        items = [(k, -v) for k, v in items]
        iv = iv_norm(tuple((-hi, -lo) for lo, hi in iv))
    if len(items) == 1 and items[0][1] != 1:
        m = items[0][1]
        out = []
        for lo, hi in iv:
            lo2 = -INF if lo == -INF else -((-lo) // m)
            hi2 = INF if hi == INF else hi // m
            out.append((lo2, hi2))
        iv = iv_norm(out)
        items = [(items[0][0], 1)]
    vec = tuple(items)
    return mk_in(vec, iv)


def vec_dom(vec):
    lo, hi = 0, 0
    if len(vec) == 1:
        return dom_of(vec[0][0])
    return FULL


def mk_in(vec, iv):
    dom = vec_dom(vec)
    iv = iv_and(iv, dom)
    if not iv:
        return FALSE
    if iv == iv_norm(dom):
        return TRUE
    return ('in', vec, iv)


def in_not(t):
    vec = t[1]
    return mk_in(vec, iv_and(iv_not(t[2]), vec_dom(vec)))


LE = ((-INF, 0),)
LT = ((-INF, -1),)
EQ0 = ((0, 0),)


def is_intlike(t):
    return t[0] in ('int', 'lin', 'len', 'mod', 'digit', 'mul') or t in DOM


# ---------------------------------------------------------------- misc
_KEYS = {}


def key(t):
    k = _KEYS.get(t)
    if k is None:
        k = repr(t)
        _KEYS[t] = k
    return k


def neg(t):
    if t[0] == 'bool':
        return BOOL(not t[1])
    if t[0] == 'not':
        return t[1]
    if t[0] == 'in':
        return in_not(t)
    if t[0] == 'isvar':
        return ('isvar', t[1], tuple(x for x in t[3] if x not in t[2]), t[3])
    return ('not', t)


def isvar(t, variants, universe):
    """boolean: variant of t is in variants"""
    if t[0] == 'adt':
        return BOOL(t[2] in variants)
    return ('isvar', t, tuple(sorted(variants)), tuple(universe))


def fld(base, v, i):
    b = base
    if b[0] == 'adt':
        if i < len(b[3]):
            return b[3][i]
        return ('bad', 'field', i)
    if b[0] == 'tup':
        return b[1][i]
    if b[0] == 'clo':
        return b[3][i]
    if b[0] == 'with':
        for (vv, ii, x) in b[2]:
            if (vv, ii) == (v, i):
                return x
        return fld(b[1], v, i)
    if b[0] == 'nth' and i == 0:
        # positions of enumerated sequences are consecutive
        s, k = b[1], b[2]
        if k != INT(0) and origin(s)[0] == 'enum':
            return add(fld(('nth', s, INT(0)), v, 0), k)
    return ('fld', b, v, i)


def origin(s):
    n = 0
    while n < 50:
        n += 1
        if s in ORIGIN:
            s = ORIGIN[s]
        elif s[0] == 'drop':
            s = s[1]
        else:
            return s
    return s


def set_fld(base, v, i, x):
    if base[0] == 'adt':
        f = list(base[3])
        if i >= len(f):
            f += [('undef',)] * (i + 1 - len(f))
        f[i] = x
        return ('adt', base[1], base[2], tuple(f))
    if base[0] == 'tup':
        f = list(base[1])
        if i >= len(f):
            f += [('undef',)] * (i + 1 - len(f))
        f[i] = x
        return ('tup', tuple(f))
    if base[0] == 'clo':
        f = list(base[3])
        f[i] = x
        return base[:3] + (tuple(f),)
    if base[0] == 'with':
        b, ups = base[1], [u for u in base[2] if (u[0], u[1]) != (v, i)]
    else:
        b, ups = base, []
    if x != fld(b, v, i):
        ups.append((v, i, x))
    if not ups:
        return b
    return ('with', b, tuple(sorted(ups, key=lambda u: (u[0], u[1]))))


# ---------------------------------------------------------------- sequences
def segs(t):
    if t[0] == 'seq':
        return t[1]
    if t[0] == 'str':
        return tuple(('one', INT(ord(c))) for c in t[1])
    if t[0] == 'repeat':
        return (('sub', t),)
    return (('sub', t),)


def mk_seq(ss):
    out = []
    todo = list(ss)
    todo.reverse()
    while todo:
        s = todo.pop()
        if s[0] == 'sub' and s[1][0] in ('seq', 'str'):
            todo.extend(reversed(segs(s[1])))
            continue
        # refold nth(T,k) ++ drop(T,k+1)
        while out and s[0] == 'sub' and out[-1][0] == 'one':
            o = out[-1][1]
            if o[0] == 'nth' and s[1] == drop(o[1], add(o[2], INT(1))):
                s = ('sub', drop(o[1], o[2]))
                out.pop()
            else:
                break
        # refold take(T,k) ++ nth(T,k), when that is all of T
        if out and s[0] == 'one' and s[1][0] == 'nth' and out[-1][0] == 'sub' and out[-1][1][0] == 'take' and len(out[-1][1]) == 3:
            o = out[-1][1]
            if o[1] == s[1][1] and o[2] == s[1][2] and add(o[2], INT(1)) == seq_len(o[1]):
                out.pop()
                todo.append(('sub', o[1]))
                continue
        # refold take(T,k) ++ drop(T,k)
        while out and s[0] == 'sub' and out[-1][0] == 'sub' and out[-1][1][0] == 'take':
            o = out[-1][1]
            if s[1] == drop(o[1], o[2]):
                s = ('sub', o[1])
                out.pop()
            else:
                break
        out.append(s)
    if len(out) == 1 and out[0][0] == 'sub':
        return out[0][1]
    return ('seq', tuple(out))


def cat(*ts):
    r = []
    for t in ts:
        r.extend(segs(t))
    return mk_seq(r)


def seq_len(t):
    n = INT(0)
    for s in segs(t):
        if s[0] == 'one':
            n = add(n, INT(1))
        else:
            n = add(n, sub_len(s[1]))
    return n


def complement(t):
    """all elements without those of some kinds: those of the other kinds"""
    if t[0] != 'lin':
        return t
    d, k = lin(t)
    for a, c in list(d.items()):
        f = a[1] if a[0] == 'len' else None
        if c != -1 or not f or f[0] != 'flatmap' or len(f[3]) != 1 or len(f[3][0][0]) != 1 or [x[0] for x in f[3][0][1]] != ['one']:
            continue
        g, all_ = f[3][0][0][0], ('len', f[1])
        if g[0] == 'V' and g[1] == ('bv', f[2]) and d.get(all_) == 1:
            rest = tuple(v for v in g[3] if v not in g[2])
            del d[a], d[all_]
            b = ('len', ('flatmap', f[1], f[2], (((('V', g[1], rest, g[3]),), (('one', g[1]),)),)))
            d[b] = d.get(b, 0) + 1
            return from_lin(d, k)
    return t


def sub_len(t):
    if t[0] == 'drop':
        return sub(seq_len(t[1]), t[2])
    if t[0] == 'take' and len(t) == 3:
        return t[2]
    if t[0] in ('rev', 'unord', 'sorted') and t[0] == 'rev':
        return seq_len(t[1])
    if t[0] == 'enum':
        return seq_len(t[1])
    if t[0] == 'resize':
        return t[2]
    if t[0] == 'updnth':
        return seq_len(t[1])
    if t[0] == 'flatmap' and len(t[3]) == 1 and not t[3][0][0] and all(x[0] == 'one' for x in t[3][0][1]):
        return mul(INT(len(t[3][0][1])), seq_len(t[1]))
    return ('len', t)


def drop(t, k):
    if k == INT(0):
        return t
    if t[0] in ('seq', 'str'):
        ss = segs(t)
        while ss and ss[0][0] == 'one' and k[0] == 'int' and k[1] > 0:
            ss = ss[1:]
            k = INT(k[1] - 1)
        t = mk_seq(ss)
        if k == INT(0):
            return t
        if t == EMPTY:
            return t
        if ss and ss[0][0] == 'sub' and len(ss) > 1 and k[0] == 'int':
            # k elements of the first sub segment (caller knows it is long enough)
            return mk_seq((('sub', drop(ss[0][1], k)),) + tuple(ss[1:]))
    if t[0] == 'drop':
        return drop(t[1], add(t[2], k))
    if t[0] in ('take', 'rev') and k == seq_len(t):
        return EMPTY
    return ('drop', t, k)


def take(t, k):
    if k == INT(0):
        return EMPTY
    if k == seq_len(t):
        return t
    ss = segs(t)
    if k[0] == 'int' and len(ss) >= k[1] and all(s[0] == 'one' for s in ss[:k[1]]):
        return mk_seq(ss[:k[1]])
    # strip known trailing elements
    n = seq_len(t)
    d = sub(n, k)
    if d[0] == 'int' and d[1] > 0:
        m = d[1]
        ss = list(ss)
        while m and ss and ss[-1][0] == 'one':
            ss.pop()
            m -= 1
        t = mk_seq(ss)
        if m == 0:
            return t
    return ('take', t, k)


def nth(t, k):
    """value at index k (caller knows it exists)"""
    ss = segs(t)
    if k[0] == 'int':
        i = k[1]
        for j, s in enumerate(ss):
            if s[0] == 'one':
                if i == 0:
                    return s[1]
                i -= 1
            else:
                if j == 0 and len(ss) == 1:
                    break
                if j == 0:
                    return nth(s[1], k)
                break
    # from the end
    d = sub(seq_len(t), k)
    if d[0] == 'int' and d[1] >= 1 and len(ss) >= d[1] and all(s[0] == 'one' for s in ss[-d[1]:]):
        return ss[-d[1]][1]
    if len(ss) > 1 and ss[0][0] == 'sub' and k[0] == 'int':
        return nth(ss[0][1], k)
    if t[0] == 'drop':
        return nth(t[1], add(t[2], k))
    if t[0] == 'enum':
        return tup(add(t[2], k), nth(t[1], k))
    if t[0] == 'rev':
        return nth(t[1], sub(sub(seq_len(t[1]), INT(1)), k))
    if t[0] == 'repeat':
        return t[1]
    if t[0] == 'zip':
        return tup(nth(t[1], k), nth(t[2], k))
    if t[0] == 'take' and len(t) == 3:
        return nth(t[1], k)
    if t[0] == 'updnth' and t[2] == k:
        return t[3]
    if t[0] == 'flatmap' and len(t[3]) == 1 and not t[3][0][0] and len(t[3][0][1]) == 1 \
            and t[3][0][1][0][0] == 'one':
        return subst(t[3][0][1][0][1], {('bv', t[2]): nth(t[1], k)})
    return ('nth', t, k)


# ---------------------------------------------------------------- sets
def set_segs(t):
    if t[0] in ('set', 'seq'):
        return t[1]
    return (('sub', t),)


def mk_set(ss):
    out = {}
    todo = list(ss)
    while todo:
        s = todo.pop()
        if s[0] == 'sub':
            x = s[1]
            while x[0] in ('unord', 'sorted', 'rev'):
                x = x[1]
            if x[0] in ('set', 'seq'):
                todo.extend(x[1])
                continue
            if x[0] == 'flatmap':
                x = fm_set(x)
                if x[0] in ('set', 'seq'):
                    todo.extend(x[1])
                    continue
            s = ('sub', x)
        out[s] = 1
    o = sorted(out, key=key)
    if len(o) == 1 and o[0][0] == 'sub':
        return o[0][1]
    return ('set', tuple(o))


def union(a, *bs):
    r = list(set_segs(a))
    for b in bs:
        r.extend(set_segs(b))
    return mk_set(r)


def fm_set(t):
    """flatmap used as a set: order of the source does not matter"""
    src = t[1]
    while src[0] in ('unord', 'sorted', 'rev'):
        src = src[1]
    return mk_flatmap(src, t[2], t[3]) if src != t[1] else t


def mem(e, s):
    """boolean term e in s"""
    ss = set_segs(s)
    if s[0] in ('unord', 'sorted', 'rev'):
        return mem(e, s[1])
    if not ss:
        return FALSE
    for x in ss:
        if x[0] == 'one' and x[1] == e:
            return TRUE
    rest = []
    for x in ss:
        if x[0] == 'one':
            q = eq(x[1], e)
            if q == TRUE:
                return TRUE
            if q == FALSE:
                continue
        rest.append(x)
    if not rest:
        return FALSE
    if len(rest) == 1 and rest[0][0] == 'one':
        return eq(rest[0][1], e)
    vs = [x[1] for x in rest if x[0] == 'one' and ground(x[1])]
    if len(vs) == len(rest):
        # among constants
        if all(x[0] == 'int' for x in vs):
            return compare(e, INT(0), iv_norm(tuple(sorted((x[1], x[1]) for x in vs))))
        if all(x[0] == 'adt' and x[1] == vs[0][1] and x[1] in UNIVERSE for x in vs):
            if not any(x[3] for x in vs):
                return isvar(e, {x[2] for x in vs}, UNIVERSE[vs[0][1]])
            if all(x[2] == vs[0][2] and len(x[3]) == 1 for x in vs) and e[0] in ('fld', 'nth', 'sym', 'phi'):
                v = vs[0][2]
                return conj([isvar(e, (v,), UNIVERSE[vs[0][1]]), mem(fld(e, v, 0), mk_set([('one', x[3][0]) for x in vs]))])
    return ('mem', e, mk_set(rest))


def eq(a, b):
    if a == b:
        return TRUE
    if is_intlike(a) or is_intlike(b):
        return compare(a, b, EQ0)
    if a[0] == 'bool' and b[0] == 'bool':
        return BOOL(a == b)
    if a[0] == 'bool':
        a, b = b, a
    if b[0] == 'bool':
        return a if b[1] else neg(a)
    if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        return conj([eq(x, y) for x, y in zip(a[3], b[3])])
    if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
        return conj([eq(x, y) for x, y in zip(a[1], b[1])])
    if b[0] == 'adt' and a[0] != 'adt':
        a, b = b, a
    if a[0] == 'adt' and not a[3] and b[0] != 'adt' and a[1] in UNIVERSE:
        return isvar(b, (a[2],), UNIVERSE[a[1]])
    if a[0] == 'adt' and b[0] in ('fld', 'nth', 'sym', 'phi') and a[1] in UNIVERSE and ground(a):
        return conj([isvar(b, (a[2],), UNIVERSE[a[1]])] + [eq(fld(b, a[2], i), x) for i, x in enumerate(a[3])])
    return ('eq', *sorted((a, b), key=key))


def ground(t):
    return t[0] in ('int', 'bool') or t[0] == 'adt' and all(ground(x) for x in t[3])


UNIVERSE = {}


def conj(ts):
    out = []
    for t in ts:
        if t == FALSE:
            return FALSE
        if t == TRUE:
            continue
        if t[0] == 'and':
            out.extend(t[1])
        else:
            out.append(t)
    out = sorted(set(out), key=key)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


# ---------------------------------------------------------------- maps
def mapget(m, k):
    if m[0] == 'emap':
        return NONE
    if m[0] == 'mapins':
        q = eq(m[2], k)
        if q == TRUE:
            return SOME(m[3])
        if q == FALSE:
            return mapget(m[1], k)
    if m[0] == 'rel':
        r = rel_at(m, k)
        if r is not None:
            return SOME(r[0]) if r[1] else mapget(m[1], k)
    if m[0] == 'maprem':
        q = eq(m[2], k)
        if q == TRUE:
            return NONE
        if q == FALSE:
            return mapget(m[1], k)
    return ('mapget', m, k)


def mapgetor(m, k, d):
    g = mapget(m, k)
    if g == NONE:
        return d
    if g[0] == 'adt':
        return g[3][0]
    if g[0] == 'mapget' and g[1] != m:
        m = g[1]
    return ('getor', m, k, d)


def mk_rel(m, pairs):
    """the map m of sets with all (key, element) pairs added"""
    if pairs in (EMPTY, ESET):
        return m
    if m[0] == 'rel':
        return mk_rel(m[1], union(m[2], pairs))
    return ('rel', m, pairs if pairs[0] == 'set' else union(ESET, pairs))


def mk_nest(m, triples):
    """the map m of maps of sets with all (key, (key, element)) added"""
    if m[0] == 'nest':
        return mk_nest(m[1], union(m[2], triples))
    return ('nest', m, triples if triples[0] == 'set' else union(ESET, triples))


def pair_seg(k, s):
    if s[0] == 'one':
        return ('one', tup(k, s[1]))
    n = 1 + max_bv((k, s))
    return ('sub', mk_flatmap(s[1], n, (((), (('one', tup(k, ('bv', n))),)),)))


def rel_at(m, k):
    """the elements of relation m at k, None if unclear"""
    out = []
    for s in set_segs(m[2]):
        if s[0] != 'one' or s[1][0] != 'tup':
            return None
        q = eq(s[1][1][0], k)
        if q == TRUE:
            out.append(('one', s[1][1][1]))
        elif q != FALSE:
            return None
    b = mapgetor(m[1], k, ESET)
    return mk_set(tuple(out) + ((('sub', b),) if b != ESET else ())), bool(out)


def mapins(m, k, v):
    if m[0] == 'mapins' and m[2] == k:
        return mapins(m[1], k, v)
    if v[0] == 'rel':
        g = mapgetor(m, k, EMAP)
        if v[1] == g or (g[0] == 'getor' and v[1] == fld(mapget(m, k), 1, 0)):
            return mk_nest(m, mk_set([pair_seg(k, x) for x in set_segs(v[2])]))
    if v[0] in ('set', 'getor') or v[0] == 'flatmap':
        g = mapgetor(m, k, ESET)
        p = fld(mapget(m, k), 1, 0) if g[0] == 'getor' else None
        if p and v[0] == 'set' and ('sub', p) in v[1] and len(v[1]) > 1:
            return mk_rel(m, mk_set([pair_seg(k, x) for x in v[1] if x != ('sub', p)]))
        if g == ESET and v[0] == 'set' and v[1]:
            return mk_rel(m, mk_set([pair_seg(k, x) for x in v[1]]))
        if v[0] == 'set' and ('sub', g) in v[1] and len(v[1]) > 1:
            return mk_rel(m, mk_set([pair_seg(k, x) for x in v[1] if x != ('sub', g)]))
        if g[0] == 'set' and v[0] == 'set' and set(g[1]) < set(v[1]):
            return mk_rel(m, mk_set([pair_seg(k, x) for x in v[1] if x not in g[1]]))
    return ('mapins', m, k, v)


# ---------------------------------------------------------------- comprehension
def max_bv(t, memo=None):
    if not isinstance(t, tuple):
        return 0
    if len(t) == 2 and t[0] == 'bv':
        return t[1] if isinstance(t[1], int) else 0
    r = 0
    for x in t:
        if isinstance(x, tuple):
            r = max(r, max_bv(x))
    return r


_fresh = [0]


def mk_flatmap(src, n, paths):
    """src: seq term; ('bv', n) is bound in paths"""
    bv = ('bv', n)
    paths = simp_paths(paths)
    if not any(p[1] for p in paths):
        return EMPTY
    if len(paths) == 1 and not paths[0][0] and paths[0][1] == (('one', bv),):
        return src
    if len(paths) == 1 and not paths[0][0] and paths[0][1] == (('sub', bv),) and src[0] == 'flatmap' \
            and all(all(s[0] == 'one' for s in p[1]) for p in src[3]):
        # flatten of a mapped sequence
        return mk_flatmap(src[1], src[2], tuple((g, tuple(('sub', s[1]) for s in ss)) for g, ss in src[3]))
    if src[0] in ('seq', 'str'):
        if all(s[0] == 'one' for s in segs(src)) and len(paths) == 1 and not paths[0][0]:
            return mk_seq([x for s in segs(src) for x in subst(paths[0][1], {bv: s[1]})])
        ss = segs(src)
        if len(paths) == 1 and not paths[0][0]:
            out = []
            for s in ss:
                if s[0] == 'one':
                    out.extend(subst(paths[0][1], {bv: s[1]}))
                else:
                    out.append(('sub', mk_flatmap(s[1], n, paths)))
            return mk_seq(out)
        if not ss:
            return EMPTY
        if len(ss) <= 12 and all(s[0] == 'one' for s in ss):
            # every guard is decided for every element
            out = []
            for s in ss:
                hit = [(subst_guards(g, {bv: s[1]}), x) for g, x in paths]
                if any(g for g, x in hit):
                    out = None
                    break
                out.extend(y for g, x in hit if g is not None for y in subst(x, {bv: s[1]}))
            if out is not None:
                return mk_seq(out)
    if src[0] == 'flatmap' and all(len(p[1]) <= 1 and all(s[0] == 'one' for s in p[1]) for p in src[3]):
        # compose
        comp = []
        ok = True
        _fresh[0] += 1
        nn = 'c%d' % _fresh[0]
        for g, ss in subst(src[3], {('bv', src[2]): ('bv', nn)}):
            if not ss:
                continue
            for g2, s2 in paths:
                m = {bv: ss[0][1]}
                gg = subst_guards(g2, m)
                if gg is None:
                    continue
                full = merge_guards(g, gg)
                if full is None:
                    continue
                comp.append((full, subst(s2, m)))
        if ok:
            return mk_flatmap(src[1], nn, tuple(comp))
    inner = max([0] + [max_bv((g, s)) for g, s in subst(paths, {bv: ('sym', '_')})])
    if inner + 1 != n:
        m = inner + 1
        paths = subst(paths, {bv: ('bv', m)})
        n = m
    return ('flatmap', src, n, tuple(sorted(paths, key=key)))


def guard_atoms(g):
    return g


def guard_not_compl(a, b):
    """two guards on the same subject: merged guard, or None if disjoint cannot be expressed"""
    if a[0] != b[0] or a[1] != b[1]:
        return None
    if a[0] == 'V':
        u = tuple(sorted(set(a[2]) | set(b[2])))
        if set(u) == set(a[3]):
            return ()
        return (('V', a[1], u, a[3]),)
    if a[0] == 'I':
        u = iv_or(a[2], b[2])
        if iv_and(u, vec_dom(a[1])) == iv_norm(vec_dom(a[1])):
            return ()
        return (('I', a[1], u),)
    if a[0] == 'A':
        if a[2] != b[2]:
            return ()
        return (a,)
    return None


def simp_paths(paths):
    """drops silent paths that are not needed, merges paths with equal output"""
    ps = [(tuple(sorted(set(g), key=key)), tuple(s)) for g, s in paths]
    changed = True
    while changed:
        changed = False
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                if ps[i][1] != ps[j][1]:
                    continue
                gi, gj = set(ps[i][0]), set(ps[j][0])
                if gi <= gj or gj <= gi:
                    ps[i] = (ps[i][0] if gi <= gj else ps[j][0], ps[i][1])
                    del ps[j]
                    changed = True
                    break
                di, dj = gi - gj, gj - gi
                if len(di) == 1 and len(dj) == 1:
                    m = guard_not_compl(next(iter(di)), next(iter(dj)))
                    if m is not None:
                        ps[i] = (tuple(sorted((gi & gj) | set(m), key=key)), ps[i][1])
                        del ps[j]
                        changed = True
                        break
            if changed:
                break
    return tuple(sorted(((g, s) for g, s in ps if s), key=key))


def merge_guards(a, b):
    d = {}
    for g in list(a) + list(b):
        k = (g[0], g[1])
        if k not in d:
            d[k] = g
            continue
        o = d[k]
        if g[0] == 'V':
            x = tuple(sorted(set(o[2]) & set(g[2])))
            if not x:
                return None
            d[k] = ('V', g[1], x, g[3])
        elif g[0] == 'I':
            x = iv_and(o[2], g[2])
            if not x:
                return None
            d[k] = ('I', g[1], x)
        elif o[2] != g[2]:
            return None
    return tuple(sorted(d.values(), key=key))


def guard_term(g):
    if g[0] == 'V':
        return isvar(g[1], g[2], g[3])
    if g[0] == 'I':
        return mk_in(g[1], g[2])
    return g[1] if g[2] else neg(g[1])


def term_guards(t):
    """boolean term -> guards tuple, None if false"""
    if t == TRUE:
        return ()
    if t == FALSE:
        return None
    if t[0] == 'isvar':
        return (('V', t[1], t[2], t[3]),)
    if t[0] == 'in':
        return (('I', t[1], t[2]),)
    if t[0] == 'and':
        out = ()
        for x in t[1]:
            g = term_guards(x)
            if g is None:
                return None
            out = merge_guards(out, g)
            if out is None:
                return None
        return out
    if t[0] == 'not':
        return (('A', t[1], False),)
    return (('A', t, True),)


def subst_guards(gs, m):
    out = ()
    for g in gs:
        if g[0] == 'V':
            t = isvar(subst(g[1], m), g[2], g[3])
        elif g[0] == 'I':
            t = in_subst(g[1], g[2], m)
        else:
            t = subst(g[1], m)
            if not g[2]:
                t = neg(t)
        x = term_guards(t)
        if x is None:
            return None
        out = merge_guards(out, x)
        if out is None:
            return None
    return out


def in_subst(vec, iv, m):
    total = INT(0)
    for a, c in vec:
        total = add(total, mul(INT(c), subst(a, m)))
    return compare(total, INT(0), iv)


# ---------------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    memo = {}

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        try:
            if t in m:
                return m[t]
        except TypeError:
            pass
        if t in memo:
            return memo[t]
        h = t[0]
        if h == 'in' and len(t) == 3 and isinstance(t[1], tuple):
            r = in_subst(t[1], t[2], m)
        elif h == 'lin' and len(t) == 3:
            r = INT(t[2])
            for a, c in t[1]:
                r = add(r, mul(INT(c), go(a)))
        elif h == 'I' and len(t) == 3 and isinstance(t[1], tuple):
            x = in_subst(t[1], t[2], m)
            g = term_guards(x)
            r = g[0] if g else ('A', x, True)
        elif h == 'flatmap' and len(t) == 4 and ('bv', t[2]) in m:
            # the bound variable shadows
            m2 = {k: v for k, v in m.items() if k != ('bv', t[2])}
            r = mk_flatmap(go(t[1]), t[2], subst(t[3], m2))
        else:
            n = tuple(go(x) if isinstance(x, tuple) else x for x in t)
            r = rebuild(n) if n != t else t
        memo[t] = r
        return r

    return go(t)


def rebuild(t):
    h = t[0]
    if not isinstance(h, str):
        return t
    if h == 'fld' and len(t) == 4:
        return fld(t[1], t[2], t[3])
    if h == 'nth' and len(t) == 3:
        return nth(t[1], t[2])
    if h == 'drop' and len(t) == 3:
        return drop(t[1], t[2])
    if h == 'take' and len(t) == 3:
        return take(t[1], t[2])
    if h == 'seq' and len(t) == 2:
        return mk_seq(t[1])
    if h == 'set' and len(t) == 2:
        return mk_set(t[1])
    if h == 'len' and len(t) == 2:
        return seq_len(t[1])
    if h == 'flatmap' and len(t) == 4:
        return mk_flatmap(t[1], t[2], t[3])
    if h == 'isvar' and len(t) == 4:
        return isvar(t[1], t[2], t[3])
    if h == 'not' and len(t) == 2:
        return neg(t[1])
    if h == 'and' and len(t) == 2:
        return conj(t[1])
    if h == 'eq' and len(t) == 3:
        return eq(t[1], t[2])
    if h == 'mem' and len(t) == 3:
        return mem(t[1], t[2])
    if h == 'mapget' and len(t) == 3:
        return mapget(t[1], t[2])
    if h == 'getor' and len(t) == 4:
        return mapgetor(t[1], t[2], t[3])
    if h == 'with' and len(t) == 3:
        b = t[1]
        for v, i, x in t[2]:
            b = set_fld(b, v, i, x)
        return b
    if h == 'mul' and len(t) == 3:
        return mul(t[1], t[2])
    if h == 'nest' and len(t) == 3:
        return mk_nest(t[1], t[2])
    if h == 'rel' and len(t) == 3:
        return mk_rel(t[1], t[2])
    if h == 'mapins' and len(t) == 4:
        return mapins(t[1], t[2], t[3])
    if h == 'newof' and len(t) == 3 and t[1] in (EMPTY, ESET):
        return EMPTY
    return t


def contains(t, pred):
    """any sub term satisfying pred"""
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if not isinstance(t, tuple) or t in seen:
        return seen
    if t and isinstance(t[0], str):
        seen.add(t)
    for x in t:
        if isinstance(x, tuple):
            subterms(x, seen)
    return seen


# ---------------------------------------------------------------- printing
NAMES = {}


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    s = show
    if not isinstance(h, str):
        return '(' + ', '.join(s(x) for x in t) + ')'
    if h == 'int':
        return str(t[1])
    if h == 'bool':
        return 'true' if t[1] else 'false'
    if h == 'str':
        return repr(t[1])
    if h == 'sym':
        return str(t[1])
    if h == 'bv':
        return 'b%s' % t[1]
    if h == 'tup':
        return '(' + ', '.join(s(x) for x in t[1]) + ')'
    if h == 'adt':
        nm = t[1].split('::')[-1]
        vs = NAMES.get(t[1])
        if vs and len(vs) > 1:
            nm = vs[t[2]]
        return nm + ('(' + ', '.join(s(x) for x in t[3]) + ')' if t[3] else '')
    if h == 'fld':
        return '%s.%s%s' % (s(t[1]), ('%d:' % t[2]) if t[2] else '', t[3])
    if h == 'lin':
        return '(' + ' + '.join((s(a) if c == 1 else '%d*%s' % (c, s(a))) for a, c in t[1]) + (' + %d' % t[2] if t[2] else '') + ')'
    if h == 'in':
        return '[%s in %s]' % (' + '.join((s(a) if c == 1 else '%d*%s' % (c, s(a))) for a, c in t[1]), iv_show(t[2]))
    if h == 'seq':
        return '<' + ' ++ '.join((s(x[1]) if x[0] == 'sub' else '[%s]' % s(x[1])) for x in t[1]) + '>'
    if h == 'set':
        return '{' + ' | '.join(('*' + s(x[1]) if x[0] == 'sub' else s(x[1])) for x in t[1]) + '}'
    if h == 'nth':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if h == 'flatmap':
        return 'FM(b%d<-%s: %s)' % (t[2], s(t[1]), '; '.join('%s => %s' % (gshow(g), ' ++ '.join((s(x[1]) if x[0] == 'sub' else '[%s]' % s(x[1])) for x in ss)) for g, ss in t[3]))
    if h == 'phi':
        return 'φ%s.%s' % (t[1], t[2])
    if h == 'isvar':
        return '%s is %s' % (s(t[1]), vshow(t[1], t[2]))
    if h == 'with':
        return '%s{%s}' % (s(t[1]), ', '.join('%s%s=%s' % ('%d:' % v if v else '', i, s(x)) for v, i, x in t[2]))
    if h == 'clo':
        return 'λ' + t[1].split('::', 1)[1] + '{' + ', '.join(s(x) for x in t[3]) + '}'
    if h == 'ref':
        return '&mut %s%s' % (t[1], ''.join('.' + s(x) for x in t[2]))
    if h == 'fn':
        return 'fn ' + t[1]
    if h == 'emap':
        return '{}'
    return h + '(' + ', '.join(s(x) for x in t[1:]) + ')'


def iv_show(iv):
    return '∪'.join(('%s' % a if a == b else '%s..%s' % ('' if a == -INF else a, '' if b == INF else b)) for a, b in iv)


def vshow(t, vs):
    p = ADT_OF.get(t)
    n = NAMES.get(p)
    return '|'.join(n[v] if n and v < len(n) else str(v) for v in vs)


def gshow(gs):
    out = []
    for g in gs:
        if g[0] == 'V':
            out.append('%s is %s' % (show(g[1]), vshow(g[1], g[2])))
        elif g[0] == 'I':
            out.append('%s in %s' % (' + '.join((show(a) if c == 1 else '%d*%s' % (c, show(a))) for a, c in g[1]), iv_show(g[2])))
        else:
            out.append(('' if g[2] else '!') + show(g[1]))
    return ' & '.join(out) or 'true'
