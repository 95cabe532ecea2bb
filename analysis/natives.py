"""Models of the standard library functions used by the analysed crates.

Every model works on terms: containers are sequences, sets and maps of the
term domain, iterators are ('it', remaining sequence) or lazy adaptors
('iter', kind, inner, ..) when a closure has effects.
"""
from terms import *
import terms as T

NATIVES = {}
DERIVED = {}

CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
COW = 'alloc::borrow::Cow'
T.UNIVERSE.setdefault(OPT, (0, 1))
T.UNIVERSE.setdefault(RES, (0, 1))
T.UNIVERSE.setdefault(CF, (0, 1))
T.UNIVERSE.setdefault(ORD, (0, 1, 2))
T.NAMES.setdefault(OPT, ['None', 'Some'])
T.NAMES.setdefault(RES, ['Ok', 'Err'])
T.NAMES.setdefault(CF, ['Continue', 'Break'])
U32MAX = 2 ** 32 - 1
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def native(*names):
    def deco(f):
        for n in names:
            NATIVES[n] = f
        return f
    return deco


def ret(st, v):
    return [(st, 'ret', v)]


def pan(st, info, why):
    return (st, 'panic', (why, info.get('span'), info.get('fn')))


def bind(outs, f):
    """continue normal outcomes with f(state, value) -> outcomes"""
    r = []
    for s, k, v in outs:
        if k == 'ret':
            r.extend(f(s, v))
        else:
            r.append((s, k, v))
    return r


# ---------------------------------------------------------------- hooks
def field_hook(I, st, v, variant, idx):
    if v[0] == 'entryv':
        return v
    if v[0] == 'it' and v[1][0] in ('sym', 'app', 'fld', 'nth', 'post', 'bv'):
        return fld(v[1], variant, idx)
    return fld(v, variant, idx)


def discr_hook(I, st, term):
    if term[0] == 'entryv':
        m = I.deref(st, term[1])
        g = mapget(m, term[2])
        if g[0] == 'adt':
            return [(st, 0 if g[2] == 1 else 1)]
        out = []
        s = st.fork()
        if s.assume(isvar(g, (1,), (0, 1))):
            out.append((s, 0))
        s = st.fork()
        if s.assume(isvar(g, (0,), (0, 1))):
            out.append((s, 1))
        return out
    return None


# ---------------------------------------------------------------- types
def peel(t):
    while t and t[0] in ('ref', 'ptr'):
        t = t[2]
    return t


def adt_name(t):
    t = peel(t) if t else None
    if t and t[0] == 'adt':
        return t[1].split('::')[-1]
    return None


def container(t):
    """'seq' | 'set' | 'bset' | 'map' | 'string' | 'opt' | None by type"""
    t = peel(t) if t else None
    if not t:
        return None
    if t[0] in ('slice', 'array'):
        return 'seq'
    if t[0] == 'prim' and t[1] == 'str':
        return 'string'
    if t[0] == 'adt':
        n = t[1].split('::')[-1]
        if n in ('Box', 'Pin', 'Rc', 'Arc'):
            return container(t[2][0]) if t[2] else None
        if n in ('Vec', 'VecDeque', 'LinkedList', 'BinaryHeap'):
            return 'seq'
        if n in ('HashSet',):
            return 'set'
        if n in ('BTreeSet',):
            return 'bset'
        if n in ('HashMap', 'BTreeMap'):
            return 'map'
        if n == 'String':
            return 'string'
        if n == 'Option':
            return 'opt'
        if n == 'Result':
            return 'res'
    return None


def default_of(I, t):
    c = container(t)
    t = peel(t) if t else None
    if c in ('seq', 'string'):
        return EMPTY
    if c in ('set', 'bset'):
        return ESET
    if c == 'map':
        return EMAP
    if c == 'opt':
        return NONE
    if t and t[0] == 'prim':
        if t[1] == 'bool':
            return FALSE
        return INT(0)
    if t and t[0] == 'tuple':
        return ('tup', tuple(default_of(I, x) for x in t[1]))
    if t and t[0] == 'adt' and 'iter' in t[1].lower():
        return ('it', EMPTY)
    return ('app', 'default', str(t))


# ---------------------------------------------------------------- sequences of containers
def unord(s):
    while s[0] in ('unord', 'sorted'):
        s = s[1]
    if s[0] == 'set':
        if len(s[1]) == 0:
            return EMPTY
        if len(s[1]) == 1 and s[1][0][0] == 'one':
            return mk_seq(s[1])
        return ('unord', s)
    return s


def sorted_(s):
    while s[0] in ('unord', 'sorted'):
        s = s[1]
    if s[0] == 'set' and len(s[1]) == 0:
        return EMPTY
    if s[0] == 'set' and len(s[1]) == 1 and s[1][0][0] == 'one':
        return mk_seq(s[1])
    return ('sorted', s)


def items(m):
    if m[0] == 'emap':
        return EMPTY
    if m[0] == 'mapins' and m[1][0] == 'emap':
        return mk_seq([('one', tup(m[2], m[3]))])
    if m[0] == 'mapof':
        s = m[1]
        if s[0] == 'flatmap' and len(s[3]) == 1 and len(s[3][0][1]) == 1:
            one = s[3][0][1][0]
            if one[0] == 'one' and one[1][0] == 'tup' and one[1][1][0] == ('fld', ('bv', s[2]), 0, 0):
                return s
        return ('items', m)
    return ('items', m)


def fm(src, n_bv, paths):
    """flatmap binding a temporary bv"""
    n = 1 + max_bv(tuple(paths))
    m = {n_bv: ('bv', n)}
    ps = []
    for g, ss in paths:
        g2 = subst_guards(g, m)
        if g2 is None:
            continue
        ps.append((g2, subst(ss, m)))
    return mk_flatmap(src, n, tuple(ps))


def map_keys(m):
    return mk_flatmap(items(m), 1, (((), (('one', fld(('bv', 1), 0, 0)),)),))


def map_vals(m):
    return mk_flatmap(items(m), 1, (((), (('one', fld(('bv', 1), 0, 1)),)),))


def to_seq(I, st, v, ty=None):
    """sequence iterated by `for x in v` when this has no effects; list of
    (state, seq) or None"""
    v0 = v
    v = I.deref(st, v)
    if v[0] == 'it':
        return [(st, v[1])] if v0[0] != 'ref' else None
    if v[0] == 'iter':
        return None
    c = container(ty)
    if v[0] == 'set' or c == 'set':
        return [(st, unord(v))]
    if c == 'bset':
        return [(st, sorted_(v))]
    if v[0] in ('emap', 'mapins', 'mapof', 'maprem') or c == 'map':
        return [(st, items(v))]
    if v[0] == 'adt' and v[1] == OPT:
        return [(st, mk_seq([('one', x) for x in v[3]]))]
    if c == 'opt' or T.ADT_OF.get(v) == OPT or v[0] == 'mapget':
        return [(s, EMPTY if p is None else mk_seq([('one', p)])) for s, p in I.fork_opt(st, v)]
    if v[0] == 'adt':
        if v[1].endswith('::RangeInclusive') or v[1].endswith('::Range'):
            return None
        return None
    if v[0] in ('tup', 'clo', 'ref'):
        return None
    if c is None and ty is not None and peel(ty)[0] == 'adt' and is_local_adt(I, peel(ty)[1]):
        return None
    return [(st, v)]


def is_local_adt(I, p):
    return p.startswith('pango')


def into_iter(I, st, v, ty=None):
    """iterator value(s) for v: list of (state, iterator)"""
    vv = I.deref(st, v)
    if vv[0] in ('it', 'iter'):
        return [(st, v if v[0] == 'ref' else vv)]
    if v[0] == 'ref' and ty is not None and ty[0] == 'ref' and ty[1]:
        # iteration over a mutable borrow of a container
        if container(ty):
            return [(st, ('iter', 'mut', I.last_ref(st, v)))]
        return [(st, v)]
    r = to_seq(I, st, v, ty)
    if r is None:
        return [(st, v)]
    return [(s, ('it', x)) for s, x in r]


# ---------------------------------------------------------------- next
def seq_next(I, st, S):
    """[(state, element or None, rest)]"""
    ss = segs(S)
    if not ss:
        return [(st, None, EMPTY)]
    if ss[0][0] == 'one':
        return [(st, ss[0][1], mk_seq(ss[1:]))]
    t = ss[0][1]
    out = []
    o = origin(t)
    if t[0] == 'rangeseq':
        pass
    n = sub_len(t)
    s = st.fork()
    if s.assume(compare(n, INT(0), ((1, INF),))):
        for s2, e in head_of(I, s, t, o):
            out.append((s2, e, mk_seq((('sub', drop(t, INT(1))),) + tuple(ss[1:]))))
    s = st.fork()
    if s.assume(compare(n, INT(0), EQ0)):
        out.extend(seq_next(I, s, mk_seq(ss[1:])))
    return out


def head_of(I, st, t, o):
    """generic first element(s) of the sub sequence t with origin o"""
    if o[0] == 'flatmap' and not (len(o[3]) == 1 and not o[3][0][0] and len(o[3][0][1]) == 1
                                  and o[3][0][1][0][0] == 'one' and False):
        return unfold(I, st, t, o, ('src', t))
    e = nth(t, INT(0))
    return [(st, e)]


def unfold(I, st, t, o, src):
    out = []
    bv = ('bv', o[2])
    # the element of the source may itself come from a comprehension
    so = o[1]
    srcs = [(st, src)]
    if so[0] == 'flatmap':
        srcs = unfold(I, st, t, so, ('src', src))
    for st1, sv in srcs:
        for g, ss in o[3]:
            gs = subst_guards(g, {bv: sv})
            if gs is None:
                continue
            s = st1.fork()
            if not all(s.assume(guard_term(x)) for x in gs):
                continue
            for seg in subst(ss, {bv: sv}):
                if seg[0] == 'one':
                    out.append((s.fork(), seg[1]))
                else:
                    U = seg[1]
                    for seg2 in segs(U):
                        if seg2[0] == 'one':
                            out.append((s.fork(), seg2[1]))
                        elif seg2[1][0] == 'flatmap':
                            out.extend(unfold(I, s.fork(), t, seg2[1], ('el', seg2[1][1], t)))
                        else:
                            out.append((s.fork(), ('el', seg2[1], t)))
    return out


def iter_next(I, st, r, info):
    """r: ('ref', ..) to an iterator; outcomes with Option values"""
    st = st.fork()
    r0 = r
    r = I.last_ref(st, r) or r
    v = I.load(st, r) if r[0] == 'ref' else r
    if v[0] == 'iter':
        return lazy_next(I, st, r, v, info)
    if v[0] == 'adt':
        if v[1].endswith('ops::range::Range') or v[1] == 'core::ops::range::Range':
            return range_next(I, st, r, v, False)
        if v[1].endswith('RangeInclusive'):
            return range_next(I, st, r, v, True)
        impl = [i for i in I.prog.impl_of.get(('core::iter::traits::iterator::Iterator', v[1]), [])]
        if impl:
            p = impl[0]['items'].get('core::iter::traits::iterator::Iterator::next')
            if p:
                return I.local(st, p, (), [r], info)
    S = v[1] if v[0] == 'it' else v
    out = []
    for s, e, rest in seq_next(I, st, S):
        if s is st:
            s = s.fork()
        I.store(s, r, ('it', rest))
        out.append((s, 'ret', NONE if e is None else SOME(e)))
    return out


def range_next(I, st, r, v, incl):
    a, b = v[3][0], v[3][1]
    out = []
    c = compare(a, b, LE if incl else LT)
    s = st.fork()
    if s.assume(c):
        I.store(s, r, ('adt', v[1], v[2], (add(a, INT(1)),) + v[3][1:]))
        out.append((s, 'ret', SOME(a)))
    s = st.fork()
    if s.assume(c, False):
        out.append((s, 'ret', NONE))
    return out


def range_next_back(I, st, r, v, incl):
    a, b = v[3][0], v[3][1]
    out = []
    c = compare(a, b, LE if incl else LT)
    s = st.fork()
    if s.assume(c):
        less = sub(b, INT(1))
        I.store(s, r, ('adt', v[1], v[2], (a, less) + v[3][2:]))
        out.append((s, 'ret', SOME(b if incl else less)))
    s = st.fork()
    if s.assume(c, False):
        out.append((s, 'ret', NONE))
    return out


def is_range(v):
    return v[0] == 'adt' and v[1].rsplit('::', 1)[-1] in ('Range', 'RangeInclusive')


def inner_ref(r, i=2):
    return ('ref', r[1], r[2] + (('x', i),))


def lazy_next(I, st, r, v, info):
    kind = v[1]
    inner = inner_ref(r)
    if kind == 'rev' and is_range(v[2]):
        return range_next_back(I, st, inner, v[2], v[2][1].endswith('RangeInclusive'))
    if kind == 'map':
        def f(s, o):
            if o == NONE:
                return ret(s, NONE)
            return bind(I.call_closure(s, ('ref', r[1], r[2] + (('x', 3),)), [o[3][0]]), lambda s2, x: ret(s2, SOME(x)))
        return bind(opts(I, iter_next(I, st, inner, info)), f)
    if kind in ('filter', 'filter_map'):
        # first element that passes: loop
        def body(s):
            res = []
            for s2, k, o in opts(I, iter_next(I, s, inner, info)):
                if k != 'ret':
                    res.append(('out', s2, (k, o)))
                elif o == NONE:
                    res.append(('out', s2, ('ret', NONE)))
                else:
                    e = o[3][0]
                    for s3, k3, x in I.call_closure(s2, ('ref', r[1], r[2] + (('x', 3),)), [e]):
                        if k3 != 'ret':
                            res.append(('out', s3, (k3, x)))
                        elif kind == 'filter':
                            for s4, b in I.fork_bool(s3, x):
                                res.append(('out', s4, ('ret', SOME(e))) if b else ('back', s4, None))
                        else:
                            for s4, p in I.fork_opt(s3, x):
                                res.append(('out', s4, ('ret', SOME(p))) if p is not None else ('back', s4, None))
            return res
        return [(s, p[0], p[1]) for _, s, p in I.run_loop(st, body, ('iter ' + kind, 0, info.get('span')))]
    if kind == 'take':
        n = v[3]
        out = []
        c = compare(n, INT(0), EQ0)
        s = st.fork()
        if s.assume(c):
            out.append((s, 'ret', NONE))
        s = st.fork()
        if s.assume(c, False):
            I.store(s, ('ref', r[1], r[2] + (('x', 3),)), sub(n, INT(1)))
            out.extend(iter_next(I, s, inner, info))
        return out
    if kind == 'skip':
        n = v[3]
        if n == INT(0):
            return iter_next(I, st, inner, info)
        if n[0] == 'int' and n[1] <= 8:
            outs = [(st, 'ret', UNIT)]
            for _ in range(n[1]):
                outs = bind(outs, lambda s, _v: iter_next(I, s, inner, info))
            def g(s, _v):
                s = s.fork()
                I.store(s, ('ref', r[1], r[2] + (('x', 3),)), INT(0))
                return iter_next(I, s, inner, info)
            return bind(outs, g)
    if kind in ('take_while', 'map_while'):
        def f(s, o):
            if o == NONE:
                return ret(s, NONE)
            e = o[3][0]
            def g(s2, x):
                res = []
                if kind == 'take_while':
                    for s3, b in I.fork_bool(s2, x):
                        if not b:
                            I.store(s3, ('ref', r[1], r[2] + (('x', 4),)), TRUE)
                        res.append((s3, 'ret', SOME(e) if b else NONE))
                else:
                    res.append((s2, 'ret', x))
                return res
            return bind(I.call_closure(s, ('ref', r[1], r[2] + (('x', 3),)), [e]), g)
        if kind == 'take_while' and v[4] == TRUE:
            return ret(st, NONE)
        return bind(opts(I, iter_next(I, st, inner, info)), f)
    if kind == 'chain':
        def f(s, o):
            if o == NONE:
                return iter_next(I, s, inner_ref(r, 3), info)
            return ret(s, o)
        return bind(opts(I, iter_next(I, st, inner, info)), f)
    if kind == 'zip':
        def f(s, o):
            if o == NONE:
                return ret(s, NONE)
            return bind(opts(I, iter_next(I, s, inner_ref(r, 3), info)),
                        lambda s2, p: ret(s2, NONE if p == NONE else SOME(tup(o[3][0], p[3][0]))))
        return bind(opts(I, iter_next(I, st, inner, info)), f)
    if kind == 'enum':
        def f(s, o):
            if o == NONE:
                return ret(s, NONE)
            n = I.load(s, ('ref', r[1], r[2] + (('x', 3),)))
            s = s.fork()
            I.store(s, ('ref', r[1], r[2] + (('x', 3),)), add(n, INT(1)))
            return ret(s, SOME(tup(n, o[3][0])))
        return bind(opts(I, iter_next(I, st, inner, info)), f)
    if kind == 'peek':
        slot = v[3]
        if slot != NONE and slot[0] == 'adt':
            s = st.fork()
            I.store(s, ('ref', r[1], r[2] + (('x', 3),)), NONE)
            return ret(s, slot[3][0])
        if slot == NONE:
            return iter_next(I, st, inner, info)
        out = []
        for s, p in I.fork_opt(st, slot):
            s = s.fork()
            if p is None:
                out.extend(iter_next(I, s, inner, info))
            else:
                I.store(s, ('ref', r[1], r[2] + (('x', 3),)), NONE)
                out.append((s, 'ret', p))
        return out
    if kind == 'flat':
        # v[2] outer, v[3] current inner iterator (Option)
        def body(s):
            res = []
            cur = I.load(s, inner_ref(r, 3))
            branches = [(s, cur)] if cur[0] == 'adt' else [(s2, NONE if p is None else SOME(p)) for s2, p in I.fork_opt(s, cur)]
            for s1, cur in branches:
                if cur != NONE:
                    for s2, k, o in opts(I, iter_next(I, s1, ('ref', r[1], r[2] + (('x', 3), ('f', 1, 0))), info)):
                        if k != 'ret' or o != NONE:
                            res.append(('out', s2, (k, o)))
                            continue
                        s2 = s2.fork()
                        I.store(s2, inner_ref(r, 3), NONE)
                        res.append(('back', s2, None))
                else:
                    for s2, k, o in opts(I, iter_next(I, s1, inner, info)):
                        if k != 'ret' or o == NONE:
                            res.append(('out', s2, (k, o)))
                            continue
                        for s3, itv in into_iter(I, s2, o[3][0]):
                            s3 = s3.fork()
                            I.store(s3, inner_ref(r, 3), SOME(itv))
                            res.append(('back', s3, None))
            return res
        return [(s, p[0], p[1]) for _, s, p in I.run_loop(st, body, ('iter flatten', 0, info.get('span')))]
    if kind == 'mut':
        return I.opaque_call(st, 'IterMut::next', [r], info)
    if kind == 'rev':
        return I.opaque_call(st, 'Rev::next', [r], info)
    return I.opaque_call(st, 'Iterator::next', [r], info)


def opts(I, outs):
    """forces Option outcomes to be decided"""
    r = []
    for s, k, v in outs:
        if k != 'ret':
            r.append((s, k, v))
            continue
        if v[0] == 'adt':
            r.append((s, k, v))
            continue
        for s2, p in I.fork_opt(s, v):
            r.append((s2, 'ret', NONE if p is None else SOME(p)))
    return r


# ---------------------------------------------------------------- lambdas
def lam_bool(I, st, f, wrap=lambda x: x):
    """paths of a predicate closure on a generic element"""
    def make(s, bv):
        res = []
        for s2, k, v in I.call_closure(s, f, [bv]):
            if k != 'ret':
                res.append((s2, k, v))
                continue
            for s3, b in I.fork_bool(s2, v):
                res.append((s3, 'ret', BOOL(b)))
        return res
    return I.pure_lambda(st, f, make)


def lam_val(I, st, f):
    return I.pure_lambda(st, f, lambda s, bv: I.call_closure(s, f, [bv]))


def lam_opt(I, st, f):
    def make(s, bv):
        res = []
        for s2, k, v in I.call_closure(s, f, [bv]):
            if k != 'ret':
                res.append((s2, k, v))
                continue
            for s3, p in I.fork_opt(s2, v):
                res.append((s3, 'ret', NONE if p is None else SOME(p)))
        return res
    return I.pure_lambda(st, f, make)


def lam_seq(I, st, f, ty):
    bad = []

    def make(s, bv):
        res = []
        for s2, k, v in I.call_closure(s, f, [bv]) if f is not None else [(s, 'ret', bv)]:
            if k != 'ret':
                res.append((s2, k, v))
                continue
            x = to_seq(I, s2, v, ty)
            if x is None:
                bad.append(1)
                continue
            for s3, q in x:
                res.append((s3, 'ret', q))
        return res
    r = I.pure_lambda(st, f, make)
    return None if bad else r


def finish(I, st, pans, v, info):
    outs = ret(st, v)
    for s, why in pans:
        outs.append((s, 'panic', why))
    return outs


def filt(S, lam):
    bv, rows, _ = lam
    return fm(S, bv, [(g, (('one', bv),) if v == TRUE else ()) for g, v in rows])


def simple(v, I, st):
    """pure sequence behind an iterator value or None"""
    if v[0] == 'it':
        return v[1]
    return None


# ---------------------------------------------------------------- adaptors
def it_arg(I, st, v):
    """iterator operand of an adaptor taken by value"""
    if v[0] == 'ref':
        return v
    if v[0] in ('it', 'iter'):
        return v
    if v[0] == 'adt' and I.prog.impl_of.get(('core::iter::traits::iterator::Iterator', v[1])):
        return v
    if v[0] == 'adt' and 'Range' in v[1]:
        return v
    if v[0] in ('with',) or v[0] == 'adt':
        return v
    return ('it', v)


@native('Iterator::map')
def _map(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        lam = lam_val(I, st, a[1])
        if lam:
            bv, rows, pans = lam
            return finish(I, st, pans, ('it', fm(S, bv, [(g, (('one', v),)) for g, v in rows])), info)
    return ret(st, ('iter', 'map', it, a[1]))


@native('Iterator::filter')
def _filter(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        lam = lam_bool(I, st, a[1])
        if lam:
            return finish(I, st, lam[2], ('it', filt(S, lam)), info)
    return ret(st, ('iter', 'filter', it, a[1]))


@native('Iterator::filter_map')
def _filter_map(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        lam = lam_opt(I, st, a[1])
        if lam:
            bv, rows, pans = lam
            return finish(I, st, pans, ('it', fm(S, bv, [(g, tuple(('one', x) for x in v[3])) for g, v in rows])), info)
    return ret(st, ('iter', 'filter_map', it, a[1]))


@native('Iterator::flat_map')
def _flat_map(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    ty = info['substs'][1] if len(info['substs']) > 1 else None
    if S is not None:
        lam = lam_seq(I, st, a[1], ty)
        if lam:
            bv, rows, pans = lam
            return finish(I, st, pans, ('it', fm(S, bv, [(g, (('sub', v),)) for g, v in rows])), info)
    return ret(st, ('iter', 'flat', ('iter', 'map', it, a[1]), NONE))


def item_type(t):
    """item type of an iterator type, when it is easy to tell"""
    if not t or t[0] != 'adt':
        return None
    n = t[1]
    if n.startswith('core::option::') or n.startswith('core::slice::iter') or n.endswith('vec::into_iter::IntoIter') \
            or '::set::' in n or n.endswith('Once') or n.endswith('Repeat'):
        for x in t[2]:
            if x != ("'",):
                return x
    if n.split('::')[-1] in ('Peekable', 'Filter', 'Rev', 'Copied', 'Cloned', 'Skip', 'Take') and t[2]:
        return item_type(t[2][0])
    if n.split('::')[-1] == 'Values' and t[2]:
        return t[2][-1]
    if n.split('::')[-1] == 'Flatten' and t[2]:
        x = item_type(t[2][0])
        x = peel(x) if x else None
        if x and x[0] == 'adt' and x[2]:
            return x[2][0] if x[2][0] != ("'",) else None
    return None


@native('Iterator::flatten')
def _flatten(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        ty = item_type(info['substs'][0]) if info['substs'] else None
        lam = lam_seq(I, st, None, ty)
        if lam:
            bv, rows, pans = lam
            # elements whose shape is known only after substitution
            if S[0] in ('seq',) or S[0] == 'flatmap':
                q = flatten_known(I, st, S)
                if q is not None:
                    return ret(st, ('it', q))
            return finish(I, st, pans, ('it', fm(S, bv, [(g, (('sub', v),)) for g, v in rows])), info)
    return ret(st, ('iter', 'flat', it, NONE))


def elem_seq(I, st, x):
    """sequence of a known element value: None if undecided"""
    if x[0] == 'it':
        return x[1]
    if x[0] == 'set':
        return unord(x)
    if x[0] == 'adt' and x[1] == OPT:
        return mk_seq([('one', y) for y in x[3]])
    if x[0] in ('emap', 'mapins', 'mapof'):
        return items(x)
    if x[0] in ('adt', 'tup', 'iter', 'clo', 'ref'):
        return None
    if T.ADT_OF.get(x) == OPT or x[0] == 'mapget':
        return None
    return x


def flatten_known(I, st, S):
    if S[0] == 'flatmap':
        ps = []
        for g, ss in S[3]:
            out = []
            for k, x in ss:
                if k != 'one':
                    return None
                q = elem_seq(I, st, x)
                if q is None:
                    return None
                out.append(('sub', q))
            ps.append((g, tuple(out)))
        return mk_flatmap(S[1], S[2], tuple(ps))
    out = []
    for k, x in segs(S):
        if k == 'one':
            q = elem_seq(I, st, x)
            if q is None:
                return None
            out.append(('sub', q))
        else:
            return None
    return mk_seq(out)


@native('Iterator::copied', 'Iterator::cloned', 'Iterator::fuse', 'Iterator::by_ref')
def _copied(I, st, a, info):
    return ret(st, it_arg(I, st, a[0]))


@native('Iterator::peekable')
def _peekable(I, st, a, info):
    it = it_arg(I, st, a[0])
    if it[0] == 'it':
        return ret(st, it)
    return ret(st, ('iter', 'peek', it, NONE))


@native('Iterator::enumerate')
def _enumerate(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        if all(s[0] == 'one' for s in segs(S)):
            return ret(st, ('it', mk_seq([('one', tup(INT(i), x[1])) for i, x in enumerate(segs(S))])))
        return ret(st, ('it', ('enum', S, INT(0))))
    return ret(st, ('iter', 'enum', it, INT(0)))


@native('Iterator::chain')
def _chain(I, st, a, info):
    it = it_arg(I, st, a[0])
    ty = info['substs'][1] if len(info['substs']) > 1 else None
    out = []
    for s, b in into_iter(I, st, a[1], ty):
        if it[0] == 'it' and b[0] == 'it':
            out += ret(s, ('it', cat(it[1], b[1])))
        else:
            out += ret(s, ('iter', 'chain', it, b))
    return out


@native('Iterator::zip')
def _zip(I, st, a, info):
    it = it_arg(I, st, a[0])
    ty = info['substs'][1] if len(info['substs']) > 1 else None
    out = []
    for s, b in into_iter(I, st, a[1], ty):
        if it[0] == 'it' and b[0] == 'it':
            out += ret(s, ('it', zip_seq(it[1], b[1])))
        else:
            out += ret(s, ('iter', 'zip', it, b))
    return out


def zip_seq(a, b):
    if b[0] == 'repeat':
        return mk_flatmap(a, 10 ** 6, (((), (('one', tup(('bv', 10 ** 6), b[1])),)),)) if False else \
            fm(a, ('bv', 'z'), [((), (('one', tup(('bv', 'z'), b[1])),))])
    if a[0] == 'repeat':
        return fm(b, ('bv', 'z'), [((), (('one', tup(a[1], ('bv', 'z'))),))])
    if all(s[0] == 'one' for s in segs(a)) and all(s[0] == 'one' for s in segs(b)):
        return mk_seq([('one', tup(x[1], y[1])) for x, y in zip(segs(a), segs(b))])
    return ('zip', a, b)


@native('Iterator::rev')
def _rev(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        return ret(st, ('it', rev(S)))
    return ret(st, ('iter', 'rev', it))


def rev(S):
    if S[0] == 'rev':
        return S[1]
    ss = segs(S)
    if len(ss) != 1 or ss[0][0] == 'one':
        return mk_seq([s if s[0] == 'one' else ('sub', rev(s[1])) for s in reversed(ss)])
    if S[0] == 'flatmap' and all(len(p[1]) <= 1 and all(x[0] == 'one' for x in p[1]) for p in S[3]):
        return mk_flatmap(rev(S[1]), S[2], S[3])
    if S[0] == 'unord':
        return S
    return ('rev', S)


@native('Iterator::take')
def _take(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        n = seq_len(S)
        d = sub(n, a[1])
        if d[0] == 'int' and d[1] >= 0:
            return ret(st, ('it', take(S, a[1])))
        if a[1] == INT(0) or S == EMPTY:
            return ret(st, ('it', EMPTY))
        if d[0] == 'int':
            return ret(st, ('it', S))
        return ret(st, ('it', ('takemin', S, a[1])))
    return ret(st, ('iter', 'take', it, a[1]))


@native('Iterator::skip')
def _skip(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        if st.decide(compare(a[1], seq_len(S), ((0, INF),))) is True:
            return ret(st, ('it', EMPTY))
        return ret(st, ('it', skip(S, a[1])))
    return ret(st, ('iter', 'skip', it, a[1]))


def skip(S, n):
    if n == INT(0):
        return S
    if n[0] == 'int':
        ss = list(segs(S))
        k = n[1]
        while ss and k and ss[0][0] == 'one':
            ss.pop(0)
            k -= 1
        if k == 0 or not ss:
            return mk_seq(ss)
        S, n = mk_seq(ss), INT(k)
    if S[0] == 'skipmin':
        return ('skipmin', S[1], add(S[2], n))
    return ('skipmin', S, n)


@native('Iterator::step_by')
def _stepby(I, st, a, info):
    return None


@native('Iterator::take_while')
def _take_while(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        lam = lam_bool(I, st, a[1])
        if lam:
            return finish(I, st, lam[2], ('it', ('takewhile', S, lam_term(lam))), info)
    return ret(st, ('iter', 'take_while', it, a[1], FALSE))


@native('Iterator::skip_while')
def _skip_while(I, st, a, info):
    it = it_arg(I, st, a[0])
    S = simple(it, I, st)
    if S is not None:
        lam = lam_bool(I, st, a[1])
        if lam:
            return finish(I, st, lam[2], ('it', ('skipwhile', S, lam_term(lam))), info)
    return None


@native('Iterator::map_while')
def _map_while(I, st, a, info):
    it = it_arg(I, st, a[0])
    return ret(st, ('iter', 'map_while', it, a[1]))


def lam_term(lam):
    """canonical predicate: comprehension over the placeholder sequence"""
    return filt(('sym', '_'), lam)


# ---------------------------------------------------------------- consumers
def exhaust(I, st, v, info):
    """runs an iterator to its end without generic loop: [(state, seq)] or None"""
    if v[0] == 'it':
        return [(st, v[1])]
    if v[0] == 'ref':
        r = I.last_ref(st, v) or v
        x = I.load(st, r)
        if x[0] == 'it' or x[0] in ('sym', 'phi', 'fld', 'app', 'post'):
            st = st.fork()
            I.store(st, r, ('it', EMPTY))
            return [(st, x[1] if x[0] == 'it' else x)]
        return None
    if v[0] == 'iter' and v[1] == 'chain':
        out = []
        a = exhaust(I, st, v[2], info)
        if a is None:
            return None
        for s, x in a:
            b = exhaust(I, s, v[3], info)
            if b is None:
                return None
            out.extend((s2, cat(x, y)) for s2, y in b)
        return out
    if v[0] == 'iter' and v[1] == 'map':
        # pure closure over an exhaustible iterator
        lam = lam_val(I, st, v[3])
        if lam is None or lam[2]:
            return None
        a = exhaust(I, st, v[2], info)
        if a is None:
            return None
        return [(s, fm(x, lam[0], [(g, (('one', y),)) for g, y in lam[1]])) for s, x in a]
    return None


def consume(I, st, v, step, init, info):
    """generic left fold: step(state, acc, elem) -> outcomes; accumulators live
    in a temporary root. returns outcomes with the final accumulator"""
    st = st.fork()
    if v[0] == 'ref':
        itr = v
        tmp = None
    else:
        tmp = I.new_root(st, v, 'iter')
        itr = ('ref', tmp, ())
    acc = I.new_root(st, init, 'acc')

    def body(s):
        res = []
        for s2, k, o in opts(I, iter_next(I, s, itr, info)):
            if k != 'ret':
                res.append(('out', s2, ('panic', o)))
            elif o == NONE:
                res.append(('out', s2, ('ret', None)))
            else:
                cur = s2.mem[acc]
                for s3, k3, x in step(s2, cur, o[3][0]):
                    if k3 == 'panic':
                        res.append(('out', s3, ('panic', x)))
                    elif k3 == 'stop':
                        res.append(('out', s3, ('stop', x)))
                    else:
                        s3 = s3.fork()
                        s3.mem[acc] = x
                        res.append(('back', s3, None))
        return res
    outs = []
    for _, s, p in I.run_loop(st, body, ('consumer ' + info.get('name', ''), 0, info.get('span'))):
        val = s.mem.get(acc)
        s = s.fork()
        s.mem.pop(acc, None)
        if tmp:
            s.mem.pop(tmp, None)
        if p[0] == 'ret':
            outs.append((s, 'ret', val))
        elif p[0] == 'stop':
            outs.append((s, 'ret', p[1]))
        else:
            outs.append((s, 'panic', p[1]))
    return outs


def gather(I, st, v, info):
    """sequence produced by an iterator, running its effects: [(st, kind, seq)]"""
    r = exhaust(I, st, v, info)
    if r is not None:
        return [(s, 'ret', x) for s, x in r]
    return consume(I, st, v, lambda s, acc, e: [(s, 'ret', cat(acc, mk_seq([('one', e)])))], EMPTY, info)


def build_container(I, st, S, ty):
    c = container(ty)
    if c in ('seq', 'string') or c is None:
        if c is None and ty is not None and peel(ty)[0] == 'adt' and peel(ty)[1] == COW:
            return None
        return S
    if c in ('set', 'bset'):
        return mk_set([('sub', S)])
    if c == 'map':
        if S == EMPTY:
            return EMAP
        if all(s[0] == 'one' and s[1][0] == 'tup' for s in segs(S)):
            m = EMAP
            for _, x in segs(S):
                m = mapins(m, x[1][0], x[1][1])
            return m
        return ('mapof', S)
    return None


def collect_into(I, st, v, ty, info):
    c = container(ty)
    if c in ('opt', 'res'):
        return collect_try(I, st, v, ty, c, info)
    return bind(gather(I, st, it_arg(I, st, v), info), lambda s, S: fin_build(I, s, S, ty, info))


def collect_try(I, st, v, ty, c, info):
    inner = peel(ty)[2][0]

    def step(s, acc, e):
        out = []
        e = I.deref(s, e)
        if c == 'opt':
            for s2, p in I.fork_opt(s, e):
                out.append((s2, 'ret', cat(acc, mk_seq([('one', p)]))) if p is not None else (s2, 'stop', NONE))
        else:
            for s2, ok, p in fork_res(I, s, e):
                out.append((s2, 'ret', cat(acc, mk_seq([('one', p)]))) if ok else (s2, 'stop', ERR(p)))
        return out
    outs = []
    for s, k, x in consume(I, st, it_arg(I, st, v), step, EMPTY, info):
        if k == 'ret' and not (x[0] == 'adt' and x[1] in (OPT, RES)):
            x = build_container(I, s, x, inner)
            x = SOME(x) if c == 'opt' else OK(x)
        outs.append((s, k, x))
    return outs


def fin_build(I, s, S, ty, info):
    v = build_container(I, s, S, ty)
    if v is None:
        return I.opaque_call(s, 'collect', [S], info)
    return ret(s, v)


@native('Iterator::collect')
def _collect(I, st, a, info):
    ty = info['substs'][1] if len(info['substs']) > 1 else info.get('dty')
    if ty and ty[0] not in ('adt',):
        ty = info.get('dty') or ty
    return collect_into(I, st, a[0], ty, info)


def two(I, st, A, B, ta, tb, info):
    """a pair of collections of two sequences"""
    return bind(collect_into(I, st, ('it', A), ta, info),
                lambda s, x: bind(collect_into(I, s, ('it', B), tb, info), lambda s2, y: ret(s2, ('tup', (x, y)))))


@native('Iterator::unzip')
def _unzip(I, st, a, info):
    S = simple(it_arg(I, st, a[0]), I, st)
    if S is None or len(info['substs']) < 5:
        return None
    bv = ('bv', 'z')
    A, B = (fm(S, bv, [((), (('one', fld(bv, 0, i)),))]) for i in (0, 1))
    return two(I, st, A, B, info['substs'][3], info['substs'][4], info)


@native('Iterator::partition')
def _partition(I, st, a, info):
    S = simple(it_arg(I, st, a[0]), I, st)
    lam = lam_bool(I, st, a[1]) if S is not None else None
    if not lam or lam[2] or len(info['substs']) < 2:
        return None
    bv, rows, _ = lam
    other = fm(S, bv, [(g, (('one', bv),) if v != TRUE else ()) for g, v in rows])
    return two(I, st, filt(S, lam), other, info['substs'][1], info['substs'][1], info)


@native('FromIterator::from_iter')
def _from_iter(I, st, a, info):
    ty = info['substs'][0] if info['substs'] else info.get('dty')
    ity = info['substs'][2] if len(info['substs']) > 2 else None
    out = []
    for s, it in into_iter(I, st, a[0], ity):
        out += collect_into(I, s, it, ty, info)
    return out


@native('IntoIterator::into_iter')
def _into_iter(I, st, a, info):
    ty = info['substs'][0] if info['substs'] else None
    return [(s, 'ret', it) for s, it in into_iter(I, st, a[0], ty)]


@native('Iterator::next')
def _next(I, st, a, info):
    if a[0][0] != 'ref':
        return None
    r = a[0]
    v = I.deref(st, r)
    return iter_next(I, st, r, info)


@native('DoubleEndedIterator::next_back')
def _next_back(I, st, a, info):
    r = I.last_ref(st, a[0])
    if r is not None and is_range(I.load(st, r)):
        v = I.load(st, r)
        return range_next_back(I, st, r, v, v[1].endswith('RangeInclusive'))
    S = pure_of(I, st, a[0])
    if S is None or r is None:
        return None
    out = []
    for s, k, x in last_of(I, st, S):
        if x != NONE:
            s = s.fork()
            I.store(s, r, ('it', take(S, sub(seq_len(S), INT(1)))))
        out.append((s, k, x))
    return out


@native('Iterator::size_hint')
def _size_hint(I, st, a, info):
    return None


@native('ExactSizeIterator::len')
def _exlen(I, st, a, info):
    v = I.deref(st, a[0])
    if v[0] == 'it':
        return ret(st, seq_len(v[1]))
    return None


@native('Iterator::count')
def _count(I, st, a, info):
    return bind(gather(I, st, it_arg(I, st, a[0]), info), lambda s, S: ret(s, seq_len(S)))


@native('Iterator::fold')
def _fold(I, st, a, info):
    it = it_arg(I, st, a[0])
    st = st.fork()
    f = I.new_root(st, a[2], 'clo')
    fr = ('ref', f, ())
    outs = consume(I, st, it, lambda s, acc, e: I.call_closure(s, fr, [acc, e]), a[1], info)
    for s, _, _ in outs:
        s.mem.pop(f, None)
    return outs


@native('Iterator::for_each')
def _for_each(I, st, a, info):
    it = it_arg(I, st, a[0])
    st = st.fork()
    f = I.new_root(st, a[1], 'clo')
    fr = ('ref', f, ())
    outs = consume(I, st, it, lambda s, acc, e: bind(I.call_closure(s, fr, [e]), lambda s2, _: ret(s2, UNIT)), UNIT, info)
    for s, _, _ in outs:
        s.mem.pop(f, None)
    return outs


@native('Iterator::try_for_each', 'Iterator::try_fold')
def _try_fold(I, st, a, info):
    it = it_arg(I, st, a[0])
    st = st.fork()
    fold = info['name'].endswith('fold')
    f = I.new_root(st, a[2] if fold else a[1], 'clo')
    fr = ('ref', f, ())
    c = container(info.get('dty'))
    if c not in ('opt', 'res'):
        return None

    def step(s, acc, e):
        out = []
        for s2, k, v in I.call_closure(s, fr, [acc, e] if fold else [e]):
            if k != 'ret':
                out.append((s2, k, v))
                continue
            if c == 'opt':
                for s3, p in I.fork_opt(s2, v):
                    out.append((s3, 'ret', p) if p is not None else (s3, 'stop', NONE))
            else:
                for s3, ok, p in fork_res(I, s2, v):
                    out.append((s3, 'ret', p) if ok else (s3, 'stop', ('STOP', ERR(p))))
        return out
    outs = []
    for s, k, v in consume(I, st, it, step, a[1] if fold else UNIT, info):
        s.mem.pop(f, None)
        if k == 'ret':
            if v == NONE and c == 'opt':
                pass
            elif v[0] == 'STOP':
                v = v[1]
            else:
                v = SOME(v) if c == 'opt' else OK(v)
        outs.append((s, k, v))
    return outs


def nonempty(S):
    return neg(compare(seq_len(S), INT(0), EQ0))


def search(I, st, a, info, found, missing, want=True):
    """generic search with effects"""
    it = it_arg(I, st, a[0])
    st = st.fork()
    f = I.new_root(st, a[1], 'clo')
    fr = ('ref', f, ())

    def step(s, acc, e):
        out = []
        for s2, k, v in I.call_closure(s, fr, [e]):
            if k != 'ret':
                out.append((s2, k, v))
                continue
            for s3, b in I.fork_bool(s2, v):
                out.append((s3, 'stop', found(e)) if b == want else (s3, 'ret', acc))
        return out
    outs = consume(I, st, it, step, missing, info)
    for s, _, _ in outs:
        s.mem.pop(f, None)
    return outs


def pure_of(I, st, v):
    """pure sequence behind a by-reference consumer (any, find..) and its place"""
    x = I.deref(st, v)
    if x[0] == 'it':
        return x[1]
    return None


def cleared(I, st, v):
    return st


@native('Iterator::any')
def _any(I, st, a, info):
    S = pure_of(I, st, a[0])
    if S is not None:
        lam = lam_bool(I, st, a[1])
        if lam:
            return finish(I, st, lam[2], nonempty(filt(S, lam)), info)
    return search(I, st, a, info, lambda e: TRUE, FALSE)


@native('Iterator::all')
def _all(I, st, a, info):
    S = pure_of(I, st, a[0])
    if S is not None:
        lam = lam_bool(I, st, a[1])
        if lam:
            bv, rows, pans = lam
            F = fm(S, bv, [(g, (('one', bv),) if v == FALSE else ()) for g, v in rows])
            return finish(I, st, pans, neg(nonempty(F)), info)
    return search(I, st, a, info, lambda e: FALSE, TRUE, want=False)


def first_of(I, st, F):
    """[(state, Option)] of the first element of a pure sequence"""
    ss = segs(F)
    if not ss:
        return ret(st, NONE)
    if ss[0][0] == 'one':
        return ret(st, SOME(ss[0][1]))
    out = []
    c = nonempty(F)
    s = st.fork()
    if s.assume(c):
        out += ret(s, SOME(nth(F, INT(0))))
    s = st.fork()
    if s.assume(c, False):
        out += ret(s, NONE)
    return out


@native('Iterator::find')
def _find(I, st, a, info):
    x = I.deref(st, a[0])
    if x[0] == 'iter' and x[1] == 'mut':
        return find_mut(I, st, x[2], a[1], info)
    S = pure_of(I, st, a[0])
    if S is not None and a[0][0] == 'ref' and not a[0][2] and not is_live(I, st, a[0]):
        lam = lam_bool(I, st, a[1])
        if lam:
            out = finish(I, st, lam[2], UNIT, info)[1:]
            return out + first_of(I, st, filt(S, lam))
    if S is not None:
        # the iterator is used further
        lam = lam_bool(I, st, a[1])
        if lam:
            return find_keep(I, st, a[0], S, lam, info)
    return search(I, st, a, info, lambda e: SOME(e), NONE)


def is_live(I, st, r):
    """whether the iterator behind r is a named variable (used afterwards)"""
    root = r[1]
    if not isinstance(root[0], int):
        return True
    fid, loc = root
    for fr in reversed(I.framestack):
        if fr['id'] == fid:
            return loc in fr['b']['named']
    return True


def find_keep(I, st, ref, S, lam, info):
    """find on an iterator that stays in use: leaves the part after the match"""
    p = lam_term(lam)
    out = [(s, 'panic', why) for s, why in lam[2]]
    rest = ('skipto', S, p)
    # the match: nth(rest, 0); what stays: rest without its first element
    rseq = skipto(S, p)
    r = I.last_ref(st, ref) or ref
    c = nonempty(rseq)
    s = st.fork()
    if s.assume(c):
        ss = segs(rseq)
        if ss[0][0] == 'one':
            e, tl = ss[0][1], mk_seq(ss[1:])
        else:
            e, tl = nth(rseq, INT(0)), drop(rseq, INT(1))
        gs = pred_facts(p, e)
        ok = True
        for g in gs or ():
            ok = ok and s.assume(guard_term(g))
        if ok and gs is not None:
            I.store(s, r, ('it', tl))
            out.append((s, 'ret', SOME(e)))
    s = st.fork()
    if s.assume(c, False):
        I.store(s, r, ('it', EMPTY))
        out.append((s, 'ret', NONE))
    return out


def pred_facts(p, e):
    """guards that hold for an element e of filter p (single path only)"""
    if p[0] == 'flatmap' and len(p[3]) == 1:
        return subst_guards(p[3][0][0], {('bv', p[2]): e})
    return ()


def skipto(S, p):
    """suffix of S starting at the first element satisfying p"""
    if p == ('sym', '_'):
        return S
    return ('skipto', S, p)


def find_mut(I, st, ref, f, info):
    S = I.deref(st, ref)
    lam = lam_bool(I, st, f)
    if not lam:
        return None
    p = lam_term(lam)
    F = filt(S, lam)
    out = [(s, 'panic', why) for s, why in lam[2]]
    c = nonempty(F)
    s = st.fork()
    if s.assume(c):
        r = I.last_ref(s, ref) or ref
        out.append((s, 'ret', SOME(('ref', r[1], r[2] + (('sel', p),)))))
    s = st.fork()
    if s.assume(c, False):
        out.append((s, 'ret', NONE))
    return out


@native('Iterator::find_map')
def _find_map(I, st, a, info):
    S = pure_of(I, st, a[0])
    if S is not None:
        lam = lam_opt(I, st, a[1])
        if lam:
            bv, rows, pans = lam
            F = fm(S, bv, [(g, tuple(('one', x) for x in v[3])) for g, v in rows])
            return finish(I, st, pans, UNIT, info)[1:] + first_of(I, st, F)
    return None


@native('Iterator::position')
def _position(I, st, a, info):
    S = pure_of(I, st, a[0])
    if S is not None:
        lam = lam_bool(I, st, a[1])
        if lam:
            F = filt(S, lam)
            out = finish(I, st, lam[2], UNIT, info)[1:]
            s = st.fork()
            if s.assume(nonempty(F)):
                v = ('posof', S, lam_term(lam))
                T.DOM[v] = ((0, INF),)
                out += ret(s, SOME(v))
            s = st.fork()
            if s.assume(nonempty(F), False):
                out += ret(s, NONE)
            return out
    return None


@native('Iterator::last')
def _last(I, st, a, info):
    return bind(gather(I, st, it_arg(I, st, a[0]), info), lambda s, S: last_of(I, s, S))


def last_of(I, st, S):
    ss = segs(S)
    if not ss:
        return ret(st, NONE)
    if ss[-1][0] == 'one':
        return ret(st, SOME(ss[-1][1]))
    if any(x[0] == 'one' for x in ss) is False and len(ss) == 1:
        out = []
        n = seq_len(S)
        s = st.fork()
        if s.assume(compare(n, INT(0), ((1, INF),))):
            out += ret(s, SOME(nth(S, sub(n, INT(1)))))
        s = st.fork()
        if s.assume(compare(n, INT(0), EQ0)):
            out += ret(s, NONE)
        return out
    return ret(st, SOME(nth(S, sub(seq_len(S), INT(1)))))


@native('Iterator::max', 'Iterator::min', 'Iterator::sum', 'Iterator::product')
def _max(I, st, a, info):
    nm = info['name'].split('::')[1]

    def f(s, S):
        if nm in ('sum', 'product'):
            return ret(s, ('app', nm, S))
        out = []
        c = nonempty(S)
        s1 = s.fork()
        if s1.assume(c):
            v = ('app', nm + 'of', mk_set([('sub', S)]))
            T.DOM.setdefault(v, ((0, INF),))
            out += ret(s1, SOME(v))
        s1 = s.fork()
        if s1.assume(c, False):
            out += ret(s1, NONE)
        return out
    return bind(gather(I, st, it_arg(I, st, a[0]), info), f)


@native('Iterator::nth')
def _nth(I, st, a, info):
    S = pure_of(I, st, a[0])
    if S is None or a[0][0] != 'ref':
        return None
    out = []
    c = compare(a[1], seq_len(S), LT)
    r = I.last_ref(st, a[0])
    s = st.fork()
    if s.assume(c):
        I.store(s, r, ('it', drop(S, add(a[1], INT(1)))))
        out += ret(s, SOME(nth(S, a[1])))
    s = st.fork()
    if s.assume(c, False):
        I.store(s, r, ('it', EMPTY))
        out += ret(s, NONE)
    return out


# ---------------------------------------------------------------- peekable
def peek_parts(I, st, r, info):
    """decides the next item of a Peekable: [(st, kind, Option)], item still in place"""
    r = I.last_ref(st, r) or r
    v = I.load(st, r)
    if v[0] == 'iter' and v[1] == 'peek':
        def fill(s):
            def f(s2, o):
                s2 = s2.fork()
                I.store(s2, inner_ref(r, 3), SOME(o))
                return ret(s2, o)
            return bind(opts(I, iter_next(I, s, inner_ref(r), info)), f)
        if v[3] == NONE:
            return fill(st)
        if v[3][0] == 'adt':
            return opts(I, ret(st, v[3][3][0]))
        out = []
        for s, p in I.fork_opt(st, v[3]):
            if p is None:
                s = s.fork()
                I.store(s, inner_ref(r, 3), NONE)
                out += fill(s)
            else:
                out += opts(I, ret(s, p))
        return out
    S = v[1] if v[0] == 'it' else v
    out = []
    for s, e, rest in seq_next(I, st, S):
        s = s.fork()
        I.store(s, r, ('it', EMPTY if e is None else cat(mk_seq([('one', e)]), rest)))
        out.append((s, 'ret', NONE if e is None else SOME(e)))
    return out


@native('Peekable::peek')
def _peek(I, st, a, info):
    return peek_parts(I, st, a[0], info)


@native('Peekable::peek_mut')
def _peek_mut(I, st, a, info):
    r = I.last_ref(st, a[0])

    def f(s, o):
        if o == NONE:
            return ret(s, NONE)
        v = I.load(s, r)
        if v[0] == 'iter':
            return ret(s, SOME(('ref', r[1], r[2] + (('x', 3), ('f', 1, 0), ('f', 1, 0)))))
        return ret(s, SOME(('ref', r[1], r[2] + (('x', 1), ('n', INT(0))))))
    return bind(peek_parts(I, st, a[0], info), f)


@native('Peekable::next_if', 'Peekable::next_if_eq')
def _next_if(I, st, a, info):
    isq = info['name'].endswith('eq')

    def f(s, o):
        if o == NONE:
            return ret(s, NONE)
        e = o[3][0]
        if isq:
            outs = decided_eq(s, eq(e, I.deref(s, a[1])))
        else:
            outs = I.call_closure(s, a[1], [e])

        def g(s2, b):
            res = []
            for s3, t in I.fork_bool(s2, b):
                if t:
                    res += iter_next(I, s3, a[0], info)
                else:
                    res += ret(s3, NONE)
            return res
        return bind(outs, g)
    return bind(peek_parts(I, st, a[0], info), f)


# ---------------------------------------------------------------- Option / Result
def fork_res(I, st, v):
    v = I.deref(st, v)
    if v[0] == 'adt':
        return [(st, v[2] == 0, v[3][0])]
    out = []
    T.ADT_OF.setdefault(v, RES)
    s = st.fork()
    if s.assume(isvar(v, (0,), (0, 1))):
        out.append((s, True, fld(v, 0, 0)))
    s = st.fork()
    if s.assume(isvar(v, (1,), (0, 1))):
        out.append((s, False, fld(v, 1, 0)))
    return out


def opt_case(I, st, v, some, none):
    out = []
    for s, p in I.fork_opt(st, v):
        out.extend(none(s) if p is None else some(s, p))
    return out


def is_none_of(I, st, v):
    v = I.deref(st, v)
    if v[0] == 'adt':
        return BOOL(v[2] == 0)
    T.ADT_OF.setdefault(v, OPT)
    return isvar(v, (0,), (0, 1))


@native('Option::is_none')
def _is_none(I, st, a, info):
    return ret(st, is_none_of(I, st, a[0]))


@native('Option::is_some')
def _is_some(I, st, a, info):
    return ret(st, neg(is_none_of(I, st, a[0])))


@native('Option::is_some_and', 'Option::is_none_or')
def _is_some_and(I, st, a, info):
    d = FALSE if 'some_and' in info['name'] else TRUE
    return opt_case(I, st, a[0], lambda s, p: I.call_closure(s, a[1], [p]), lambda s: ret(s, d))


@native('Result::is_ok', 'Result::is_err')
def _is_ok(I, st, a, info):
    v = I.deref(st, a[0])
    k = 0 if info['name'].endswith('ok') else 1
    if v[0] != 'adt':
        T.ADT_OF.setdefault(v, RES)
    return ret(st, isvar(v, (k,), (0, 1)))


@native('Option::map')
def _omap(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: bind(I.call_closure(s, a[1], [p]), lambda s2, x: ret(s2, SOME(x))),
                    lambda s: ret(s, NONE))


@native('Option::and_then')
def _oand_then(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: I.call_closure(s, a[1], [p]), lambda s: ret(s, NONE))


@native('Option::filter')
def _ofilter(I, st, a, info):
    def some(s, p):
        res = []
        for s2, k, v in I.call_closure(s, a[1], [p]):
            if k != 'ret':
                res.append((s2, k, v))
                continue
            for s3, b in I.fork_bool(s2, v):
                res += ret(s3, SOME(p) if b else NONE)
        return res
    return opt_case(I, st, a[0], some, lambda s: ret(s, NONE))


@native('Option::or')
def _oor(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, SOME(p)), lambda s: ret(s, a[1]))


@native('Option::and')
def _oand(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, a[1]), lambda s: ret(s, NONE))


@native('Option::xor')
def _oxor(I, st, a, info):
    return None


@native('Option::or_else')
def _oor_else(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, SOME(p)), lambda s: I.call_closure(s, a[1], []))


@native('Option::unwrap_or')
def _ounwrap_or(I, st, a, info):
    v = I.deref(st, a[0])
    if v[0] == 'mapget':
        return ret(st, mapgetor(v[1], v[2], a[1]))
    return opt_case(I, st, a[0], lambda s, p: ret(s, p), lambda s: ret(s, a[1]))


@native('Option::unwrap_or_else')
def _ounwrap_or_else(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, p), lambda s: I.call_closure(s, a[1], []))


@native('Option::unwrap_or_default')
def _ounwrap_or_default(I, st, a, info):
    d = default_of(I, info.get('dty'))
    if d[0] == 'app' and info['substs']:
        d = default_of(I, info['substs'][0])
    v = I.deref(st, a[0])
    if v[0] == 'mapget':
        return ret(st, mapgetor(v[1], v[2], d))
    if d[0] == 'app':
        t = info['substs'][0] if info['substs'] else None
        if v[0] == 'adt' and v[2] == 1 and v[3][0][0] == 'adt' and v[3][0][1] == OPT:
            return ret(st, v[3][0])
        if t and t[0] in ('alias',):
            pass
        # type is a projection: Option<Option<..>> in practice
        return opt_case(I, st, a[0], lambda s, p: ret(s, p), lambda s: ret(s, NONE))
    return opt_case(I, st, a[0], lambda s, p: ret(s, p), lambda s: ret(s, d))


@native('Option::map_or')
def _omap_or(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: I.call_closure(s, a[2], [p]), lambda s: ret(s, a[1]))


@native('Option::map_or_else')
def _omap_or_else(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: I.call_closure(s, a[2], [p]), lambda s: I.call_closure(s, a[1], []))


@native('Option::expect', 'Option::unwrap')
def _oexpect(I, st, a, info):
    info = dict(info, fn=I.stack[-1] if I.stack else '?')
    return opt_case(I, st, a[0], lambda s, p: ret(s, p), lambda s: [pan(s, info, 'expect')])


@native('Result::expect', 'Result::unwrap')
def _rexpect(I, st, a, info):
    info = dict(info, fn=I.stack[-1] if I.stack else '?')
    out = []
    for s, ok, p in fork_res(I, st, a[0]):
        out.extend(ret(s, p) if ok else [pan(s, info, 'expect')])
    return out


@native('Option::ok_or')
def _ook_or(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, OK(p)), lambda s: ret(s, ERR(a[1])))


@native('Option::ok_or_else')
def _ook_or_else(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, OK(p)),
                    lambda s: bind(I.call_closure(s, a[1], []), lambda s2, x: ret(s2, ERR(x))))


@native('Option::cloned', 'Option::copied', 'Option::as_ref', 'Option::as_deref')
def _oid(I, st, a, info):
    v = a[0]
    if info['name'].endswith('ref'):
        v = I.deref(st, v)
    if v[0] == 'adt' and v[2] == 1 and v[3][0][0] == 'ref':
        return ret(st, SOME(I.freeze(st, v[3][0])))
    return ret(st, v)


@native('Option::as_mut', 'Option::as_deref_mut')
def _oas_mut(I, st, a, info):
    r = I.last_ref(st, a[0])
    if not r:
        return None
    return opt_case(I, st, a[0], lambda s, p: ret(s, SOME(('ref', r[1], r[2] + (('f', 1, 0),)))), lambda s: ret(s, NONE))


@native('Option::take')
def _otake(I, st, a, info):
    r = I.last_ref(st, a[0])
    st = st.fork()
    v = I.load(st, r)
    I.store(st, r, NONE)
    return ret(st, v)


@native('Option::insert')
def _oinsert(I, st, a, info):
    r = I.last_ref(st, a[0])
    st = st.fork()
    I.store(st, r, SOME(a[1]))
    return ret(st, ('ref', r[1], r[2] + (('f', 1, 0),)))


@native('Option::replace')
def _oreplace(I, st, a, info):
    r = I.last_ref(st, a[0])
    st = st.fork()
    v = I.load(st, r)
    I.store(st, r, SOME(a[1]))
    return ret(st, v)


@native('Option::get_or_insert_with', 'Option::get_or_insert')
def _oget_or(I, st, a, info):
    r = I.last_ref(st, a[0])
    loc = ('ref', r[1], r[2] + (('f', 1, 0),))

    def none(s):
        outs = I.call_closure(s, a[1], []) if info['name'].endswith('with') else ret(s, a[1])

        def f(s2, x):
            s2 = s2.fork()
            I.store(s2, r, SOME(x))
            return ret(s2, loc)
        return bind(outs, f)
    return opt_case(I, st, a[0], lambda s, p: ret(s, loc), none)


@native('Option::into_iter', 'Option::iter')
def _oiter(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, ('it', mk_seq([('one', p)]))), lambda s: ret(s, ('it', EMPTY)))


@native('Option::zip')
def _ozip(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: opt_case(I, s, a[1], lambda s2, q: ret(s2, SOME(tup(p, q))),
                                                       lambda s2: ret(s2, NONE)), lambda s: ret(s, NONE))


@native('Option::flatten')
def _oflatten(I, st, a, info):
    return opt_case(I, st, a[0], lambda s, p: ret(s, p), lambda s: ret(s, NONE))


def res_case(I, st, v, ok, err):
    out = []
    for s, k, p in fork_res(I, st, v):
        out.extend(ok(s, p) if k else err(s, p))
    return out


@native('Result::and_then')
def _rand_then(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: I.call_closure(s, a[1], [p]), lambda s, e: ret(s, ERR(e)))


@native('Result::map')
def _rmap(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: bind(I.call_closure(s, a[1], [p]), lambda s2, x: ret(s2, OK(x))),
                    lambda s, e: ret(s, ERR(e)))


@native('Result::map_err')
def _rmap_err(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, OK(p)),
                    lambda s, e: bind(I.call_closure(s, a[1], [e]), lambda s2, x: ret(s2, ERR(x))))


@native('Result::or_else')
def _ror_else(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, OK(p)), lambda s, e: I.call_closure(s, a[1], [e]))


@native('Result::ok')
def _rok(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, SOME(p)), lambda s, e: ret(s, NONE))


@native('Result::err')
def _rerr(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, NONE), lambda s, e: ret(s, SOME(e)))


@native('Result::unwrap_or_else')
def _runwrap_or_else(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, p), lambda s, e: I.call_closure(s, a[1], [e]))


@native('Result::map_or')
def _rmap_or(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: I.call_closure(s, a[2], [p]), lambda s, e: ret(s, a[1]))


@native('Result::map_or_else')
def _rmap_or_else(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: I.call_closure(s, a[2], [p]), lambda s, e: I.call_closure(s, a[1], [e]))


@native('Result::is_ok_and')
def _ris_ok_and(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: I.call_closure(s, a[1], [p]), lambda s, e: ret(s, FALSE))


@native('Result::and')
def _rand(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, a[1]), lambda s, e: ret(s, ERR(e)))


@native('Result::unwrap_or')
def _runwrap_or(I, st, a, info):
    return res_case(I, st, a[0], lambda s, p: ret(s, p), lambda s, e: ret(s, a[1]))


@native('Result::as_ref', 'Result::as_mut')
def _rid(I, st, a, info):
    return ret(st, I.deref(st, a[0]))


@native('Try::branch')
def _branch(I, st, a, info):
    v = I.deref(st, a[0])
    ty = info['substs'][0] if info['substs'] else None
    c = container(ty)
    if c == 'opt' or (v[0] == 'adt' and v[1] == OPT):
        return opt_case(I, st, v, lambda s, p: ret(s, ('adt', CF, 0, (p,))), lambda s: ret(s, ('adt', CF, 1, (NONE,))))
    if c == 'res' or (v[0] == 'adt' and v[1] == RES):
        return res_case(I, st, v, lambda s, p: ret(s, ('adt', CF, 0, (p,))),
                        lambda s, e: ret(s, ('adt', CF, 1, (ERR(e),))))
    return None


@native('FromResidual::from_residual')
def _from_residual(I, st, a, info):
    return ret(st, a[0])


# ---------------------------------------------------------------- maps
def mutate(I, st, a):
    r = I.last_ref(st, a)
    if r is None:
        return None, None, None
    st = st.fork()
    return st, r, I.load(st, r)


@native('HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity')
def _mapnew(I, st, a, info):
    return ret(st, EMAP)


@native('HashMap::get', 'BTreeMap::get')
def _mapget(I, st, a, info):
    v = mapget(I.deref(st, a[0]), I.deref(st, a[1]))
    if v[0] != 'adt':
        T.ADT_OF.setdefault(v, OPT)
    return ret(st, v)


@native('HashMap::contains_key', 'BTreeMap::contains_key')
def _mapck(I, st, a, info):
    v = mapget(I.deref(st, a[0]), I.deref(st, a[1]))
    if v[0] != 'adt':
        T.ADT_OF.setdefault(v, OPT)
    return ret(st, isvar(v, (1,), (0, 1)))


@native('HashMap::get_key_value', 'BTreeMap::get_key_value')
def _mapgkv(I, st, a, info):
    k = I.deref(st, a[1])
    v = mapget(I.deref(st, a[0]), k)
    if v[0] != 'adt':
        T.ADT_OF.setdefault(v, OPT)
    return opt_case(I, st, v, lambda s, p: ret(s, SOME(tup(k, p))), lambda s: ret(s, NONE))


@native('HashMap::get_mut', 'BTreeMap::get_mut')
def _mapgetmut(I, st, a, info):
    s, r, m = mutate(I, st, a[0])
    if s is None:
        return None
    k = I.deref(st, a[1])
    v = mapget(m, k)
    if v[0] != 'adt':
        T.ADT_OF.setdefault(v, OPT)
    return opt_case(I, st, v, lambda s, p: ret(s, SOME(('ref', r[1], r[2] + (('k', k, None),)))), lambda s: ret(s, NONE))


def insert_at(st, m, k, v):
    """inserting a set at an absent key adds its elements to the relation"""
    if v[0] == 'set' and v[1]:
        g = mapget(m, k)
        if g[0] != 'adt' and st.decide(isvar(g, (0,), T.UNIVERSE[OPT])) is True:
            return mk_rel(m, mk_set([pair_seg(k, x) for x in v[1]]))
    return mapins(m, k, v)


@native('HashMap::insert', 'BTreeMap::insert')
def _mapinsert(I, st, a, info):
    s, r, m = mutate(I, st, a[0])
    if s is None:
        return None
    k = I.freeze(s, a[1])
    old = mapget(m, k)
    if old[0] != 'adt':
        T.ADT_OF.setdefault(old, OPT)
    I.store(s, r, insert_at(s, m, k, a[2]))
    return ret(s, old)


@native('HashMap::remove', 'BTreeMap::remove')
def _mapremove(I, st, a, info):
    s, r, m = mutate(I, st, a[0])
    if s is None:
        return None
    k = I.deref(s, a[1])
    old = mapget(m, k)
    if old[0] != 'adt':
        T.ADT_OF.setdefault(old, OPT)
    I.store(s, r, ('maprem', m, k))
    return ret(s, old)


@native('HashMap::iter', 'BTreeMap::iter', 'HashMap::into_iter')
def _mapiter(I, st, a, info):
    return ret(st, ('it', items(I.deref(st, a[0]))))


@native('HashMap::keys', 'BTreeMap::keys', 'HashMap::into_keys', 'BTreeMap::into_keys')
def _mapkeys(I, st, a, info):
    return ret(st, ('it', map_keys(I.deref(st, a[0]))))


@native('HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'BTreeMap::into_values')
def _mapvalues(I, st, a, info):
    return ret(st, ('it', map_vals(I.deref(st, a[0]))))


@native('HashMap::len', 'BTreeMap::len')
def _maplen(I, st, a, info):
    return ret(st, seq_len(items(I.deref(st, a[0]))))


@native('HashMap::is_empty', 'BTreeMap::is_empty')
def _mapempty(I, st, a, info):
    return ret(st, neg(nonempty(items(I.deref(st, a[0])))))


@native('HashMap::entry', 'BTreeMap::entry')
def _entry(I, st, a, info):
    r = I.last_ref(st, a[0])
    if r is None:
        return None
    return ret(st, ('entryv', r, I.freeze(st, a[1])))


def entry_default(I, st, e, d):
    r, k = e[1], e[2]
    st = st.fork()
    m = I.load(st, r)
    I.store(st, r, mapins(m, k, mapgetor(m, k, d)))
    return ret(st, ('ref', r[1], r[2] + (('k', k, None),)))


@native('Entry::or_insert')
def _or_insert(I, st, a, info):
    return entry_default(I, st, a[0], a[1])


@native('Entry::or_insert_with')
def _or_insert_with(I, st, a, info):
    return bind(I.call_closure(st, a[1], []), lambda s, d: entry_default(I, s, a[0], d))


@native('Entry::or_default')
def _or_default(I, st, a, info):
    t = info.get('dty')
    t = t[2] if t and t[0] == 'ref' else t
    if t is None or t[0] != 'adt':
        t = info['substs'][-1] if info['substs'] else t
        for x in reversed(info['substs']):
            if x != ("'",) and container(x):
                t = x
                break
    return entry_default(I, st, a[0], default_of(I, t))


@native('Entry::and_modify')
def _and_modify(I, st, a, info):
    e = a[0]
    out = []
    m = I.load(st, e[1])
    g = mapget(m, e[2])
    if g[0] != 'adt':
        T.ADT_OF.setdefault(g, OPT)
    for s, p in I.fork_opt(st, g):
        if p is None:
            out += ret(s, e)
        else:
            r = e[1]
            out += bind(I.call_closure(s, a[1], [('ref', r[1], r[2] + (('k', e[2], None),))]), lambda s2, _: ret(s2, e))
    return out


@native('OccupiedEntry::get', 'OccupiedEntry::into_mut', 'OccupiedEntry::get_mut')
def _occget(I, st, a, info):
    e = I.deref(st, a[0])
    if e[0] != 'entryv':
        return None
    r = e[1]
    x = ('ref', r[1], r[2] + (('k', e[2], None),))
    if info['name'].endswith('::get'):
        return ret(st, I.load(st, x))
    return ret(st, x)


@native('VacantEntry::insert', 'OccupiedEntry::insert', 'Entry::insert_entry')
def _vacinsert(I, st, a, info):
    e = I.deref(st, a[0])
    if e[0] != 'entryv':
        return None
    r, k = e[1], e[2]
    st = st.fork()
    m = I.load(st, r)
    old = mapget(m, k)
    I.store(st, r, insert_at(st, m, k, a[1]))
    if info['name'].startswith('Occ'):
        return ret(st, old[3][0] if old[0] == 'adt' and old[3] else fld(old, 1, 0))
    return ret(st, ('ref', r[1], r[2] + (('k', k, None),)))


# ---------------------------------------------------------------- sets
def card(s):
    if s[0] == 'set':
        if not s[1]:
            return INT(0)
        if len(s[1]) == 1 and s[1][0][0] == 'one':
            return INT(1)
    v = ('len', s)
    return v


@native('HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def _setnew(I, st, a, info):
    return ret(st, ESET)


@native('HashSet::insert', 'BTreeSet::insert')
def _setinsert(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    e = I.freeze(s, a[1])
    m = mem(e, v)
    I.store(s, r, union(v, ('set', (('one', e),))))
    return ret(s, neg(m))


@native('HashSet::remove', 'BTreeSet::remove')
def _setremove(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    e = I.deref(s, a[1])
    bv = ('bv', 't%d' % next(I.bvs))
    rows = []
    for s2, b in I.fork_bool(s.fork(), eq(bv, e)):
        gs = tuple(sorted((g for g in s2.facts() if g not in s.facts()), key=key))
        rows.append((gs, BOOL(not b)))
    I.store(s, r, mk_set([('sub', filt(unord(v), (bv, rows, None)))]))
    return ret(s, mem(e, v))


@native('HashSet::contains', 'BTreeSet::contains')
def _setcontains(I, st, a, info):
    return ret(st, mem(I.deref(st, a[1]), I.deref(st, a[0])))


@native('HashSet::len', 'BTreeSet::len')
def _setlen(I, st, a, info):
    return ret(st, card(I.deref(st, a[0])))


@native('HashSet::is_empty', 'BTreeSet::is_empty')
def _setempty(I, st, a, info):
    return ret(st, compare(card(I.deref(st, a[0])), INT(0), EQ0))


@native('HashSet::iter', 'HashSet::into_iter', 'HashSet::drain')
def _setiter(I, st, a, info):
    return ret(st, ('it', unord(I.deref(st, a[0]))))


@native('BTreeSet::iter', 'BTreeSet::into_iter')
def _bsetiter(I, st, a, info):
    return ret(st, ('it', sorted_(I.deref(st, a[0]))))


@native('BTreeSet::first')
def _bsetfirst(I, st, a, info):
    return first_of(I, st, sorted_(I.deref(st, a[0])))


@native('BTreeSet::pop_first', 'BTreeSet::pop_last')
def _bsetpopfirst(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    S = sorted_(v)
    first = info['name'].endswith('first')
    out = []
    for s2, k, x in (first_of if first else last_of)(I, s, S):
        if x != NONE:
            s2 = s2.fork()
            rest = drop(S, INT(1)) if first else take(S, sub(seq_len(S), INT(1)))
            I.store(s2, r, mk_set([('sub', rest)]))
        out.append((s2, k, x))
    return out


@native('HashSet::is_disjoint', 'BTreeSet::is_disjoint')
def _disjoint(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    bv = ('bv', 't%d' % next(I.bvs))
    rows = []
    for s2, b in I.fork_bool(st.fork(), mem(bv, y)):
        rows.append((tuple(sorted((g for g in s2.facts() if g not in st.facts()), key=key)), BOOL(b)))
    return ret(st, neg(nonempty(filt(unord(x), (bv, rows, None)))))


# ---------------------------------------------------------------- booleans
@native('bool::then_some')
def _then_some(I, st, a, info):
    return [(s, 'ret', SOME(a[1]) if b else NONE) for s, b in I.fork_bool(st.fork(), I.deref(st, a[0]))]


@native('bool::then')
def _then(I, st, a, info):
    out = []
    for s, b in I.fork_bool(st.fork(), I.deref(st, a[0])):
        if b:
            out += [(s2, k, SOME(v) if k == 'ret' else v) for s2, k, v in I.call_closure(s, a[1], [])]
        else:
            out += ret(s, NONE)
    return out


@native('BTreeSet::last')
def _bsetlast(I, st, a, info):
    return last_of(I, st, sorted_(I.deref(st, a[0])))


@native('HashSet::is_subset', 'BTreeSet::is_subset')
def _subset(I, st, a, info):
    return ret(st, subset(I.deref(st, a[0]), I.deref(st, a[1])))


@native('HashSet::is_superset', 'BTreeSet::is_superset')
def _superset(I, st, a, info):
    return ret(st, subset(I.deref(st, a[1]), I.deref(st, a[0])))


def subset(a, b):
    return ('subset', mk_set([('sub', a)]), mk_set([('sub', b)]))


@native('HashSet::difference', 'BTreeSet::difference')
def _difference(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    bv = ('bv', 'z')
    return ret(st, ('it', fm(unord(x), bv, [(term_guards(neg(mem(bv, y))) or (), (('one', bv),))])))


@native('HashSet::intersection', 'BTreeSet::intersection')
def _intersection(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    bv = ('bv', 'z')
    return ret(st, ('it', fm(unord(x), bv, [(term_guards(mem(bv, y)) or (), (('one', bv),))])))


@native('HashSet::union', 'BTreeSet::union')
def _union(I, st, a, info):
    return ret(st, ('it', unord(union(I.deref(st, a[0]), I.deref(st, a[1])))))


@native('Extend::extend')
def _extend(I, st, a, info):
    ty = info['substs'][0] if info['substs'] else None
    c = container(ty)
    ity = None
    for x in info['substs'][1:]:
        if x != ("'",):
            ity = x
    out = []
    for s0, it in into_iter(I, st, a[1], ity):
        def f(s, S):
            s2, r, v = mutate(I, s, a[0])
            if s2 is None:
                return None
            if c in ('set', 'bset') or v[0] == 'set':
                nv = union(v, mk_set([('sub', S)]))
            elif c == 'map':
                nv = v
                if all(x[0] == 'one' and x[1][0] == 'tup' for x in segs(S)):
                    for _, x in segs(S):
                        nv = mapins(nv, x[1][0], x[1][1])
                elif v == EMAP:
                    nv = ('mapof', S)
                else:
                    nv = ('mapext', v, S)
            else:
                nv = cat(v, S)
            I.store(s2, r, nv)
            return ret(s2, UNIT)
        out += bind(gather(I, s0, it_arg(I, s0, it), info), f)
    return out


@native('HashSet::retain', 'Vec::retain', 'BTreeSet::retain', 'VecDeque::retain')
def _retain(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    lam = lam_bool(I, st, a[1])
    if lam is None:
        return None
    isset = 'Set' in info['name']
    F = filt(unord(v) if isset else v, lam)
    I.store(s, r, mk_set([('sub', F)]) if isset else F)
    return ret(s, UNIT)


@native('HashMap::retain', 'BTreeMap::retain')
def _mapretain(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None

    def make(s1, bv):
        res = []
        for s2, k, x in I.call_closure(s1, a[1], [fld(bv, 0, 0), fld(bv, 0, 1)]):
            res += [(s2, k, x)] if k != 'ret' else [(s3, 'ret', BOOL(b)) for s3, b in I.fork_bool(s2, x)]
        return res
    lam = I.pure_lambda(st, a[1], make)
    if lam is None or lam[2]:
        return None
    I.store(s, r, ('mapof', filt(items(v), lam)))
    return ret(s, UNIT)


# ---------------------------------------------------------------- vectors
@native('Vec::new', 'VecDeque::new', 'String::new', 'Vec::with_capacity', 'VecDeque::with_capacity',
        'String::with_capacity')
def _vecnew(I, st, a, info):
    return ret(st, EMPTY)


@native('Vec::push', 'VecDeque::push_back', 'String::push')
def _push(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    I.store(s, r, cat(v, mk_seq([('one', a[1])])))
    return ret(s, UNIT)


@native('VecDeque::push_front')
def _pushfront(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    I.store(s, r, cat(mk_seq([('one', a[1])]), v))
    return ret(s, UNIT)


@native('VecDeque::pop_front')
def _popfront(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    out = []
    for s2, e, rest in seq_next(I, s, v):
        s2 = s2.fork()
        I.store(s2, r, rest)
        out += ret(s2, NONE if e is None else SOME(e))
    return out


@native('Vec::pop', 'VecDeque::pop_back', 'String::pop')
def _pop(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    ss = segs(v)
    if not ss:
        return ret(s, NONE)
    if ss[-1][0] == 'one':
        I.store(s, r, mk_seq(ss[:-1]))
        return ret(s, SOME(ss[-1][1]))
    out = []
    n = seq_len(v)
    s2 = s.fork()
    if s2.assume(compare(n, INT(0), ((1, INF),))):
        I.store(s2, r, take(v, sub(n, INT(1))))
        out += ret(s2, SOME(nth(v, sub(n, INT(1)))))
    s2 = s.fork()
    if s2.assume(compare(n, INT(0), EQ0)):
        out += ret(s2, NONE)
    return out


@native('Vec::len', 'VecDeque::len', 'slice::len')
def _len(I, st, a, info):
    return ret(st, seq_len(I.deref(st, a[0])))


@native('String::len', 'str::len')
def _slen(I, st, a, info):
    v = ('app', 'bytelen', I.deref(st, a[0]))
    T.DOM.setdefault(v, ((0, INF),))
    return ret(st, v)


@native('Vec::is_empty', 'VecDeque::is_empty', 'slice::is_empty', 'String::is_empty', 'str::is_empty')
def _isempty(I, st, a, info):
    return ret(st, neg(nonempty(I.deref(st, a[0]))))


@native('Vec::append', 'VecDeque::append')
def _append(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    s, r2, w = mutate(I, s, a[1])
    I.store(s, r, cat(v, w))
    I.store(s, r2, EMPTY)
    return ret(s, UNIT)


@native('Vec::extend_from_slice', 'String::push_str')
def _extslice(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    I.store(s, r, cat(v, I.deref(s, a[1])))
    return ret(s, UNIT)


@native('Vec::clear', 'VecDeque::clear', 'String::clear')
def _clear(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    I.store(s, r, EMPTY)
    return ret(s, UNIT)


@native('HashSet::clear', 'BTreeSet::clear')
def _sclear(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    I.store(s, r, ESET)
    return ret(s, UNIT)


@native('HashMap::clear', 'BTreeMap::clear')
def _mclear(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    I.store(s, r, EMAP)
    return ret(s, UNIT)


@native(*['%s::%s' % (c, f) for c in ('Vec', 'VecDeque', 'String', 'HashMap', 'HashSet') for f in ('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to')])
def _capacity(I, st, a, info):
    return ret(st, UNIT)


@native('Vec::dedup')
def _dedup(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    I.store(s, r, ('app', 'dedup', v))
    return ret(s, UNIT)


@native('slice::reverse', 'Vec::reverse')
def _reverse(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    I.store(s, r, rev(v))
    return ret(s, UNIT)


@native('Vec::truncate')
def _truncate(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    out = []
    c = compare(a[1], seq_len(v), LE)
    s1 = s.fork()
    if s1.assume(c):
        I.store(s1, r, take(v, a[1]))
        out += ret(s1, UNIT)
    s1 = s.fork()
    if s1.assume(c, False):
        out += ret(s1, UNIT)
    return out


def range_bounds(I, st, rg, n):
    p = rg[1].split('::')[-1]
    if p == 'Range':
        return rg[3][0], rg[3][1]
    if p == 'RangeFrom':
        return rg[3][0], n
    if p == 'RangeTo':
        return INT(0), rg[3][0]
    if p == 'RangeFull':
        return INT(0), n
    if p == 'RangeInclusive':
        return rg[3][0], add(rg[3][1], INT(1))
    if p == 'RangeToInclusive':
        return INT(0), add(rg[3][0], INT(1))
    return None


def inside(i, n):
    """whether i is an index below n; a difference that falls below zero is not"""
    b = compare(i, n, LT)
    c, k = lin(i)
    if k < 0 or any(x < 0 for x in (c.values() if isinstance(c, dict) else [y for _, y in c])):
        return conj([compare(INT(0), i, LE), b])
    return b


def checked_range(I, st, rg, v, info, then):
    """bounds check of a range on v; then(state, lo, hi)"""
    n = seq_len(v)
    b = range_bounds(I, st, rg, n)
    if b is None:
        return None
    lo, hi = b
    info = dict(info, fn=I.stack[-1] if I.stack else '?')
    c = conj([compare(INT(0), lo, LE), compare(lo, hi, LE), compare(hi, n, LE)])
    out = []
    for s in I.split(st, c, True):
        out += then(s, lo, hi)
    if c != TRUE:
        for s in I.split(st, c, False):
            out.append(pan(s, info, 'range'))
    return out


@native('Vec::drain', 'VecDeque::drain')
def _drain(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None or a[1][0] != 'adt':
        return None

    def then(s2, lo, hi):
        s2 = s2.fork()
        part = drop(take(v, hi), lo)
        I.store(s2, r, cat(take(v, lo), drop(v, hi) if hi != seq_len(v) else EMPTY))
        return ret(s2, ('it', part))
    return checked_range(I, s, a[1], v, info, then)


@native('Vec::split_off')
def _splitoff(I, st, a, info):
    s, r, v = mutate(I, st, a[0])

    def then(s2, lo, hi):
        s2 = s2.fork()
        I.store(s2, r, take(v, lo))
        return ret(s2, drop(v, lo))
    return checked_range(I, s, ('adt', 'RangeFrom', 0, (a[1],)), v, info, then)


@native('Index::index', 'IndexMut::index_mut')
def _index(I, st, a, info):
    v = I.deref(st, a[0])
    i = I.deref(st, a[1])
    c = container(info['substs'][0] if info['substs'] else None)
    info = dict(info, fn=I.stack[-1] if I.stack else '?')
    if c == 'map':
        g = mapget(v, i)
        if g[0] != 'adt':
            T.ADT_OF.setdefault(g, OPT)
        return opt_case(I, st, g, lambda s, p: ret(s, p), lambda s: [pan(s, info, 'index')])
    if i[0] == 'adt' and 'Range' in i[1]:
        return checked_range(I, st, i, v, info, lambda s, lo, hi: ret(s, drop(take(v, hi), lo)))
    out = []
    b = inside(i, seq_len(v))
    for s in I.split(st, b, True):
        if info['name'].startswith('IndexMut'):
            r = I.last_ref(s, a[0])
            out += ret(s, ('ref', r[1], r[2] + (('n', i),)))
        else:
            out += ret(s, nth(v, i))
    if b != TRUE:
        out += [pan(s, info, 'index') for s in I.split(st, b, False)]
    return out


@native('Vec::remove', 'Vec::swap_remove', 'VecDeque::remove')
def _vremove(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    info = dict(info, fn=I.stack[-1] if I.stack else '?')
    i = a[1]
    out = []
    b = inside(i, seq_len(v))
    dq = info['name'].startswith('VecDeque')
    for s1 in I.split(s, b, True):
        e = nth(v, i)
        if 'swap_remove' in info['name']:
            # the last element takes the place
            n = sub(seq_len(v), INT(1))
            for last in (True, False):
                for s2 in I.split(s1, compare(i, n, EQ0), last):
                    s2 = s2.fork()
                    rest = cat(cat(take(v, i), mk_seq((('one', nth(v, n)),))), take(drop(v, add(i, INT(1))), sub(sub(n, i), INT(1))))
                    I.store(s2, r, take(v, n) if last else rest)
                    out += ret(s2, e)
            continue
        s1 = s1.fork()
        I.store(s1, r, cat(take(v, i), drop(v, add(i, INT(1)))))
        if take(v, i) == EMPTY and sub(seq_len(v), i) == INT(1):
            I.store(s1, r, EMPTY)
        out += ret(s1, SOME(e) if dq else e)
    if b != TRUE:
        for s1 in I.split(s, b, False):
            out += ret(s1, NONE) if dq else [pan(s1, info, 'remove')]
    return out


@native('Vec::insert')
def _vinsert(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    i = a[1]
    if i == INT(0):
        I.store(s, r, cat(mk_seq([('one', a[2])]), v))
    else:
        I.store(s, r, cat(take(v, i), mk_seq([('one', a[2])]), drop(v, i)))
    return ret(s, UNIT)


@native('Vec::resize_with', 'Vec::resize')
def _resize(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    if info['name'].endswith('with'):
        f = a[2]
        if f[0] == 'fn' and f[1].endswith('Default::default'):
            elem = None
            t = info['substs'][0] if info['substs'] else None
            outs = ret(s, default_of(I, t))
        else:
            outs = I.call_closure(s, f, [])
    else:
        outs = ret(s, a[2])

    def g(s2, d):
        out = []
        c = compare(a[1], seq_len(v), LE)
        s3 = s2.fork()
        if s3.assume(c):
            I.store(s3, r, take(v, a[1]))
            out += ret(s3, UNIT)
        s3 = s2.fork()
        if s3.assume(c, False):
            I.store(s3, r, ('resize', v, a[1], d))
            out += ret(s3, UNIT)
        return out
    return bind(outs, g)


@native('slice::get', 'VecDeque::get', 'Vec::get')
def _get(I, st, a, info):
    v = I.deref(st, a[0])
    i = I.deref(st, a[1])
    if i[0] == 'adt':
        return None
    return get_at(I, st, v, i, None)


def get_at(I, st, v, i, r):
    out = []
    b = inside(i, seq_len(v))
    for s in I.split(st, b, True):
        out += ret(s, SOME(nth(v, i) if r is None else ('ref', r[1], r[2] + (('n', i),))))
    if b != TRUE:
        for s in I.split(st, b, False):
            out += ret(s, NONE)
    return out


@native('slice::get_mut', 'VecDeque::get_mut')
def _getmut(I, st, a, info):
    r = I.last_ref(st, a[0])
    if r is None:
        return None
    return get_at(I, st, I.load(st, r), I.deref(st, a[1]), r)


@native('slice::iter', 'VecDeque::iter', 'Vec::iter', 'Vec::into_iter', 'slice::into_iter')
def _siter(I, st, a, info):
    v = I.deref(st, a[0])
    return ret(st, ('it', v))


@native('slice::iter_mut', 'VecDeque::iter_mut')
def _itermut(I, st, a, info):
    r = I.last_ref(st, a[0])
    return ret(st, ('iter', 'mut', r))


@native('slice::first', 'VecDeque::front')
def _first(I, st, a, info):
    return first_of(I, st, I.deref(st, a[0]))


@native('slice::last', 'VecDeque::back')
def _slast(I, st, a, info):
    return last_of(I, st, I.deref(st, a[0]))


@native('slice::last_mut', 'slice::first_mut', 'VecDeque::back_mut', 'VecDeque::front_mut')
def _slastmut(I, st, a, info):
    r = I.last_ref(st, a[0])
    v = I.load(st, r)
    i = sub(seq_len(v), INT(1)) if ('last' in info['name'] or 'back' in info['name']) else INT(0)
    out = []
    c = nonempty(v)
    s = st.fork()
    if s.assume(c):
        out += ret(s, SOME(('ref', r[1], r[2] + (('n', i),))))
    s = st.fork()
    if s.assume(c, False):
        out += ret(s, NONE)
    return out


@native('slice::split_first', 'slice::split_last')
def _splitfirst(I, st, a, info):
    v = I.deref(st, a[0])
    out = []
    c = nonempty(v)
    n = seq_len(v)
    s = st.fork()
    if s.assume(c):
        if info['name'].endswith('first'):
            out += ret(s, SOME(tup(nth(v, INT(0)), drop(v, INT(1)))))
        else:
            out += ret(s, SOME(tup(nth(v, sub(n, INT(1))), take(v, sub(n, INT(1))))))
    s = st.fork()
    if s.assume(c, False):
        out += ret(s, NONE)
    return out


@native('slice::contains', 'VecDeque::contains')
def _scontains(I, st, a, info):
    v, e = I.deref(st, a[0]), I.deref(st, a[1])
    bv = ('bv', 'z')
    g = term_guards(eq(bv, e))
    if all(x[0] == 'one' for x in segs(v)):
        t = mem(e, mk_set(segs(v)))
        if t[0] == 'mem' and e[0] in ('fld', 'nth', 'sym', 'phi') and all(ground(x[1]) for x in segs(v)):
            out = []
            for x in segs(v):
                s = st.fork()
                if s.assume(eq(e, x[1])):
                    out += ret(s, TRUE)
                if not st.assume(eq(e, x[1]), False):
                    return out
            return out + ret(st, FALSE)
        return ret(st, t)
    return ret(st, nonempty(fm(v, bv, [(g, (('one', bv),))])))


@native('str::contains')
def _strcontains(I, st, a, info):
    v, e = I.deref(st, a[0]), I.deref(st, a[1])
    if v[0] == 'str' and is_intlike(e):
        v = mk_seq(segs(v))
    elif v[0] == 'str' or not is_intlike(e):
        return None
    if v == EMPTY or all(x[0] == 'one' and x[1][0] == 'int' for x in segs(v)):
        return ret(st, compare(e, INT(0), iv_norm(tuple((x[1][1], x[1][1]) for x in segs(v)))))
    return None


def case_map(frm, d):
    def f(I, st, a, info):
        v = I.deref(st, a[0])
        if not is_intlike(v):
            return None
        t = compare(v, INT(0), frm)
        out = []
        s = st.fork()
        if s.assume(t):
            out += ret(s, add(v, INT(d)))
        s = st.fork()
        if s.assume(t, False):
            out += ret(s, v)
        return out
    return f


NATIVES['char::to_ascii_lowercase'] = case_map(((65, 90),), 32)
NATIVES['char::to_ascii_uppercase'] = case_map(((97, 122),), -32)


@native('char::eq_ignore_ascii_case')
def _eqcase(I, st, a, info):
    low = NATIVES['char::to_ascii_lowercase']
    out = []
    for s, k, x in low(I, st, [I.deref(st, a[0])], info):
        for s2, k2, y in low(I, s, [I.deref(s, a[1])], info):
            out.append((s2, 'ret', compare(x, y, EQ0)))
    return out


@native('slice::to_vec', 'slice::into_vec', 'slice::as_slice', 'Vec::as_slice', 'IntoIter::as_slice', 'str::to_string',
        'str::to_owned', 'String::as_str', 'ToOwned::to_owned', 'ToString::to_string', 'Vec::into_boxed_slice',
        'IntoIter::as_mut_slice', 'Iter::as_slice', 'Chars::as_str', 'AsRef::as_ref', 'Borrow::borrow', 'VecDeque::as_slices')
def _asslice(I, st, a, info):
    v = I.deref(st, a[0])
    if v[0] == 'it':
        return ret(st, v[1])
    return ret(st, v)


@native('str::chars')
def _chars(I, st, a, info):
    v = I.deref(st, a[0])
    return ret(st, ('it', mk_seq(segs(v)) if v[0] == 'str' else v))


@native('str::char_indices')
def _char_indices(I, st, a, info):
    v = I.deref(st, a[0])
    return ret(st, ('it', ('app', 'char_indices', v)))


@native('boxed::box_assume_init_into_vec_unsafe')
def _boxvec(I, st, a, info):
    v = I.deref(st, a[0])
    s = find_seq(v)
    if s is None:
        return None
    return ret(st, s)


def find_seq(v):
    if not isinstance(v, tuple):
        return None
    if v and v[0] == 'seq':
        return v
    for x in v:
        if isinstance(x, tuple):
            r = find_seq(x)
            if r is not None:
                return r
    return None


@native('Box::new_uninit')
def _uninit(I, st, a, info):
    return ret(st, ('uninit',))


# ---------------------------------------------------------------- conversions, pointers
@native('Box::new', 'Box::pin', 'Pin::new', 'Pin::get_ref', 'Pin::get_mut', 'Pin::get_unchecked_mut', 'Pin::new_unchecked',
        'NonNull::as_ref', 'NonNull::as_mut', 'NonNull::as_ptr', 'Pin::into_inner', 'Rc::new', 'Pin::as_mut',
        'DerefMut::deref_mut', 'Box::leak', 'Box::into_raw', 'Box::from_raw', 'Pin::into_ref', 'Rc::clone', 'Box::as_mut',
        'Box::as_ref', 'NonNull::new_unchecked', 'Box::into_pin', 'Pin::into_inner_unchecked', 'Vec::as_mut_slice',
        'AsMut::as_mut', 'convert::identity', 'BorrowMut::borrow_mut', 'ptr::from_ref', 'NonNull::from_ref', 'hint::black_box')
def _ident(I, st, a, info):
    return ret(st, a[0])


@native('Pin::as_ref')
def _pinasref(I, st, a, info):
    return ret(st, I.deref(st, a[0]))


@native('NonNull::new')
def _nnnew(I, st, a, info):
    return ret(st, SOME(a[0]))


@native('Deref::deref')
def _deref(I, st, a, info):
    v = I.deref(st, a[0])
    if v[0] == 'adt' and v[1] == COW:
        return ret(st, v[3][0])
    return ret(st, v)


@native('Cow::into_owned')
def _cowown(I, st, a, info):
    v = I.deref(st, a[0])
    if v[0] == 'adt' and v[1] == COW:
        return ret(st, v[3][0])
    return None


@native('Clone::clone', 'dyn_clone::clone_box', 'Clone::clone_from')
def _clone(I, st, a, info):
    return ret(st, I.freeze(st, a[0]))


@native('mem::take')
def _memtake(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    t = info['substs'][0] if info['substs'] else info.get('dty')
    d = default_of(I, t)
    if d[0] == 'app':
        d2 = default_of(I, info.get('dty'))
        d = d2 if d2[0] != 'app' else d
    if d[0] == 'app':
        if t and t[0] == 'adt' and is_local_adt(I, t[1]):
            outs = call_default(I, s, t, info)
            if outs:
                def f(s2, x):
                    s2 = s2.fork()
                    I.store(s2, r, x)
                    return ret(s2, v)
                return bind(outs, f)
    I.store(s, r, d)
    return ret(s, v)


def call_default(I, st, t, info):
    impl = I.prog.impl_of.get(('core::default::Default', t[1]))
    if impl:
        p = impl[0]['items'].get('core::default::Default::default')
        if p and p in I.prog.bodies:
            return I.call_body(st, I.prog.bodies[p], [], t[2])
    return None


@native('mem::replace')
def _memreplace(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None:
        return None
    I.store(s, r, a[1])
    return ret(s, v)


@native('mem::swap')
def _memswap(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    s, r2, w = mutate(I, s, a[1])
    I.store(s, r, w)
    I.store(s, r2, v)
    return ret(s, UNIT)


@native('mem::discriminant')
def _discriminant(I, st, a, info):
    v = I.deref(st, a[0])
    t = info['substs'][0] if info['substs'] else None
    if v[0] == 'adt':
        return ret(st, INT(v[2]))
    if not t or t[0] != 'adt' or t[1] not in T.UNIVERSE:
        return None
    T.ADT_OF.setdefault(v, t[1])
    out = []
    for i in T.UNIVERSE[t[1]]:
        s = st.fork()
        if s.assume(isvar(v, (i,), T.UNIVERSE[t[1]])):
            out += ret(s, INT(i))
    return out


@native('mem::drop', 'mem::forget')
def _memdrop(I, st, a, info):
    return ret(st, UNIT)


@native('Default::default')
def _default(I, st, a, info):
    t = info.get('dty')
    if info['substs'] and info['substs'][0] != ("'",):
        t = info['substs'][0]
    if t and t[0] == 'adt' and is_local_adt(I, t[1]):
        return call_default(I, st, t, info)
    return ret(st, default_of(I, t))


@native('From::from', 'Into::into', 'TryFrom::try_from', 'TryInto::try_into')
def _from(I, st, a, info):
    nm = info['name']
    if nm.startswith('Try'):
        return None
    if nm == 'From::from':
        to, fm_ = info['substs'][0], info['substs'][1] if len(info['substs']) > 1 else None
    else:
        fm_, to = info['substs'][0], info['substs'][1] if len(info['substs']) > 1 else None
    if nm == 'Into::into' and to is not None:
        # user impl of From through the blanket impl
        cands = []
        tp = peel(to) if to[0] != 'ref' else to
        for i in I.prog.impls:
            if i['trait'] == 'core::convert::From' and i['targs'][0][0] == 'adt' and tp[0] == 'adt' and i['targs'][0][1] == tp[1]:
                m = {}
                if fm_ is None or unif(i['targs'][1], fm_, m):
                    m2 = dict(m)
                    unif(i['targs'][0], to, m2)
                    cands.append((i, m2))
        if len(cands) == 1:
            i, m = cands[0]
            p = i['items']['core::convert::From::from']
            n = max(m) + 1 if m else 0
            return I.local(st, p, tuple(m.get(k, ("'",)) for k in range(n)), a, info)
    c = container(to)
    v = I.deref(st, a[0])
    if c in ('seq', 'string'):
        if v[0] in ('seq', 'str') or True:
            return ret(st, v if v[0] != 'it' else v[1])
    if c in ('set', 'bset'):
        return ret(st, mk_set([('sub', v)]))
    if c == 'map':
        return ret(st, build_container(I, st, v, to))
    if c == 'opt' and container(fm_) != 'opt':
        return ret(st, SOME(a[0]))
    if to and to[0] == 'prim':
        return ret(st, v)
    return ret(st, a[0])


def unif(p, t, m):
    from program import tunify
    return tunify(p, t, m)


# ---------------------------------------------------------------- iterators from nothing
@native('iter::once')
def _once(I, st, a, info):
    return ret(st, ('it', mk_seq([('one', a[0])])))


@native('iter::empty')
def _emptyit(I, st, a, info):
    return ret(st, ('it', EMPTY))


@native('iter::repeat')
def _repeat(I, st, a, info):
    return ret(st, ('it', ('repeat', a[0])))


@native('iter::repeat_n')
def _repeatn(I, st, a, info):
    return ret(st, ('it', ('app', 'repeat_n', a[0], a[1])))


# ---------------------------------------------------------------- closures
@native('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _call(I, st, a, info):
    args = list(a[1][1]) if a[1][0] == 'tup' else [a[1]]
    f = a[0]
    c = I.deref(st, f)
    if c[0] in ('clo', 'fn'):
        return I.call_closure(st, f, args)
    return I.opaque_call(st, 'dyncall', [f] + args, info)


# ---------------------------------------------------------------- chars and ints
def char_pred(iv):
    def f(I, st, a, info):
        c = I.deref(st, a[0])
        I.type_dom(('prim', 'char'), c)
        return ret(st, compare(c, INT(0), iv))
    return f


DIG = ((48, 57),)
UP = ((65, 90),)
LO = ((97, 122),)
NATIVES['char::is_ascii_digit'] = char_pred(DIG)
NATIVES['char::is_ascii_uppercase'] = char_pred(UP)
NATIVES['char::is_ascii_lowercase'] = char_pred(LO)
NATIVES['char::is_ascii_alphabetic'] = char_pred(UP + LO)
NATIVES['char::is_ascii_alphanumeric'] = char_pred(DIG + UP + LO)
NATIVES['char::is_ascii_hexdigit'] = char_pred(DIG + ((65, 70), (97, 102)))
NATIVES['char::is_ascii_whitespace'] = char_pred(((9, 10), (12, 13), (32, 32)))
NATIVES['char::is_ascii'] = char_pred(((0, 127),))
NATIVES['char::is_ascii_control'] = char_pred(((0, 31), (127, 127)))
NATIVES['char::is_ascii_punctuation'] = char_pred(((33, 47), (58, 64), (91, 96), (123, 126)))


@native('char::is_alphabetic', 'char::is_whitespace', 'char::is_numeric', 'char::is_alphanumeric', 'char::is_control',
        'char::is_uppercase', 'char::is_lowercase')
def _charclass(I, st, a, info):
    c = I.deref(st, a[0])
    if c[0] == 'int' and c[1] < 128:
        ch = chr(c[1])
        r = {'char::is_alphabetic': ch.isalpha(), 'char::is_whitespace': ch in '\t\n\x0b\x0c\r ',
             'char::is_numeric': ch.isdigit(), 'char::is_alphanumeric': ch.isalnum(),
             'char::is_control': c[1] < 32 or c[1] == 127, 'char::is_uppercase': ch.isupper(),
             'char::is_lowercase': ch.islower()}[info['name']]
        return ret(st, BOOL(r))
    if info['name'] == 'char::is_alphanumeric':
        x, y = ('app', 'char::is_alphabetic', c), ('app', 'char::is_numeric', c)
        return ret(st, neg(conj([neg(x), neg(y)])))
    return ret(st, ('app', info['name'], c))


def digit_iv(radix):
    if radix <= 10:
        return ((48, 47 + radix),)
    return ((48, 57), (65, 54 + radix), (97, 86 + radix))


@native('char::to_digit')
def _to_digit(I, st, a, info):
    c = I.deref(st, a[0])
    I.type_dom(('prim', 'char'), c)
    rx = a[1]
    if rx[0] != 'int':
        return None
    t = compare(c, INT(0), digit_iv(rx[1]))
    out = []
    s = st.fork()
    if s.assume(t):
        if rx[1] <= 10:
            d = sub(c, INT(48))
        elif c[0] == 'int':
            d = INT(int(chr(c[1]), 36))
        else:
            d = ('digit', c, rx[1])
        out += ret(s, SOME(d))
    s = st.fork()
    if t != TRUE and s.assume(t, False):
        out += ret(s, NONE)
    return out


@native('char::is_digit')
def _is_digit(I, st, a, info):
    if a[1][0] != 'int':
        return None
    c = I.deref(st, a[0])
    I.type_dom(('prim', 'char'), c)
    return ret(st, compare(c, INT(0), digit_iv(a[1][1])))


@native('char::from_u32')
def _from_u32(I, st, a, info):
    v = I.deref(st, a[0])
    t = compare(v, INT(0), CHARS)
    out = []
    s = st.fork()
    if s.assume(t):
        out += ret(s, SOME(v))
    s = st.fork()
    if t != TRUE and s.assume(t, False):
        out += ret(s, NONE)
    return out


@native('char::from_digit')
def _from_digit(I, st, a, info):
    return None


def checked(op):
    def f(I, st, a, info):
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        v = op(x, y)
        hi = U32MAX if info['name'].startswith('u32') else INF
        t = compare(v, INT(0), ((0, hi),))
        out = []
        s = st.fork()
        if s.assume(t):
            out += ret(s, SOME(v))
        s = st.fork()
        if t != TRUE and s.assume(t, False):
            out += ret(s, NONE)
        return out
    return f


for _t in ('u32', 'usize', 'u64'):
    NATIVES[_t + '::checked_add'] = checked(add)
    NATIVES[_t + '::checked_sub'] = checked(sub)
    NATIVES[_t + '::checked_mul'] = checked(mul)


@native('usize::saturating_add', 'u64::saturating_add')
def _satadd(I, st, a, info):
    return ret(st, add(I.deref(st, a[0]), I.deref(st, a[1])))


@native('usize::saturating_sub', 'u32::saturating_sub')
def _satsub(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    t = compare(x, y, ((0, INF),))
    out = []
    s = st.fork()
    if s.assume(t):
        out += ret(s, sub(x, y))
    s = st.fork()
    if s.assume(t, False):
        out += ret(s, INT(0))
    return out


@native('u32::saturating_add', 'u32::saturating_mul')
def _satadd32(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    v = add(x, y) if info['name'].endswith('add') else mul(x, y)
    t = compare(v, INT(0), ((0, U32MAX),))
    out = []
    s = st.fork()
    if s.assume(t):
        out += ret(s, v)
    s = st.fork()
    if s.assume(t, False):
        out += ret(s, INT(U32MAX))
    return out


@native('u32::wrapping_add', 'u32::wrapping_mul', 'usize::wrapping_add', 'usize::wrapping_sub', 'u32::wrapping_sub')
def _wrap(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    return ret(st, ('app', info['name'], x, y))


@native('Ord::min', 'Ord::max', 'cmp::min', 'cmp::max', 'usize::min', 'usize::max', 'u32::min', 'u32::max')
def _min(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    mn = info['name'].endswith('min')
    t = compare(x, y, LE)
    d = st.decide(t)
    if d is not None:
        return ret(st, (x if d else y) if mn else (y if d else x))
    d = st.decide(compare(y, x, LE))
    if d is not None:
        return ret(st, (y if d else x) if mn else (x if d else y))
    out = []
    for truth in (True, False):
        s = st.fork()
        if s.assume(t, truth):
            out.append((s, 'ret', x if truth == mn else y))
    return out


@native('RangeInclusive::new')
def _rinew(I, st, a, info):
    return ret(st, ('adt', 'core::ops::range::RangeInclusive', 0, (a[0], a[1])))


@native('RangeInclusive::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains')
def _rcontains(I, st, a, info):
    r = I.deref(st, a[0])
    x = I.deref(st, a[1])
    if r[0] != 'adt':
        return None
    p = r[1].split('::')[-1]
    f = r[3]
    if p == 'RangeInclusive':
        t = conj([compare(f[0], x, LE), compare(x, f[1], LE)])
    elif p == 'Range':
        t = conj([compare(f[0], x, LE), compare(x, f[1], LT)])
    elif p == 'RangeFrom':
        t = compare(f[0], x, LE)
    elif p == 'RangeTo':
        t = compare(x, f[0], LT)
    elif p == 'RangeToInclusive':
        t = compare(x, f[0], LE)
    else:
        return None
    return ret(st, t)


@native('RangeInclusive::start', 'RangeInclusive::end')
def _rstart(I, st, a, info):
    r = I.deref(st, a[0])
    return ret(st, fld(r, 0, 0 if info['name'].endswith('start') else 1))


@native('BitXor::bitxor', 'BitAnd::bitand', 'BitOr::bitor')
def _bitxor(I, st, a, info):
    return ret(st, I.boolop({'BitXor::bitxor': 'BitXor', 'BitAnd::bitand': 'BitAnd', 'BitOr::bitor': 'BitOr'}[info['name']],
                            I.deref(st, a[0]), I.deref(st, a[1])))


@native('Not::not')
def _not(I, st, a, info):
    return ret(st, neg(I.deref(st, a[0])))


@native('Sub::sub', 'Add::add', 'Mul::mul')
def _arith(I, st, a, info):
    f = {'Sub::sub': sub, 'Add::add': add, 'Mul::mul': mul}[info['name']]
    return ret(st, f(I.deref(st, a[0]), I.deref(st, a[1])))


@native('AddAssign::add_assign', 'SubAssign::sub_assign')
def _arithassign(I, st, a, info):
    s, r, v = mutate(I, st, a[0])
    if s is None or container(info['substs'][0] if info['substs'] else None):
        return None
    f = add if info['name'].startswith('Add') else sub
    I.store(s, r, f(v, I.deref(s, a[1])))
    return ret(s, UNIT)


def by_address(t):
    """comparison and hash of the type look at addresses"""
    while t and t[0] == 'ref':
        t = t[2]
    if not t:
        return False
    if t[0] == 'ptr':
        return True
    if t[0] == 'tuple':
        return any(by_address(x) for x in t[1])
    if t[0] == 'adt' and not t[1].startswith('pango'):
        if t[1] == 'core::ptr::non_null::NonNull':
            return True
        return t[1].startswith(('core::option', 'alloc::vec::Vec', 'core::cell', 'core::cmp::Reverse')) and any(by_address(x) for x in t[2])
    return False


def addr_eq(st, x, y, isq=True):
    """equal addresses hold equal values; the converse is unknown"""
    t = ('app', 'addr_eq', *sorted((x, y), key=key))
    out = []
    for b in (True, False):
        s = st.fork()
        if s.assume(t, b) and (not b or s.assume(eq(x, y))):
            out.append((s, 'ret', BOOL(b == isq)))
    return out


@native('ptr::eq', 'ptr::addr_eq')
def _ptreq(I, st, a, info):
    return addr_eq(st, I.freeze(st, a[0]), I.freeze(st, a[1]))


@native('intrinsics::discriminant_value')
def _discr(I, st, a, info):
    v = I.deref(st, a[0])
    if v[0] == 'adt':
        return ret(st, INT(v[2]))
    t = info['substs'][0] if info.get('substs') else None
    while t and t[0] == 'ref':
        t = t[2]
    p = T.ADT_OF.get(v) or (t[1] if t and t[0] == 'adt' else None)
    u = T.UNIVERSE.get(p)
    if not u:
        return None
    T.ADT_OF.setdefault(v, p)
    out = []
    for i in u:
        s = st.fork()
        if s.assume(isvar(v, (i,), u)):
            out += ret(s, INT(i))
    return out


@native('ptr::hash')
def _ptrhash(I, st, a, info):
    st = st.fork()
    st.ev = st.ev + (('hash', ('app', 'addr', I.freeze(st, a[0]))),)
    return ret(st, UNIT)


@native('NonNull::addr', 'ptr::addr', 'const_ptr::addr', 'mut_ptr::addr')
def _addr(I, st, a, info):
    return ret(st, ('app', 'addr', I.freeze(st, a[0])))


@native('PartialEq::eq', 'PartialEq::ne')
def _eq(I, st, a, info):
    if by_address(info['substs'][0] if info.get('substs') else None):
        return addr_eq(st, I.freeze(st, a[0]), I.freeze(st, a[1]), info['name'].endswith('eq'))
    return decided_eq(st, eq(I.freeze(st, a[0]), I.freeze(st, a[1])), info['name'].endswith('eq'))


def decided_eq(st, t, isq=True):
    """equality with a fixed value of several parts is decided part by part"""
    if t[0] != 'and' or not all(x[0] in ('isvar', 'in') for x in t[1]):
        return ret(st, t if isq else neg(t))
    out = []
    # a payload only exists once its variant is known
    for x in sorted(t[1], key=lambda y: (y[0] != 'isvar', len(str(y[1])))):
        d = st.decide(x)
        if d is True:
            continue
        if d is None:
            s = st.fork()
            if s.assume(x, False):
                out.append((s, 'ret', BOOL(not isq)))
            st = st.fork()
            if st.assume(x):
                continue
            return out
        out.append((st, 'ret', BOOL(not isq)))
        return out
    out.append((st, 'ret', BOOL(isq)))
    return out


def cmp_term(I, st, a, wrap, info=None):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if info and by_address(info['substs'][0] if info.get('substs') else None):
        return ret(st, wrap(('app', 'cmp', ('app', 'addr', x), ('app', 'addr', y))))
    if is_intlike(x) or is_intlike(y):
        out = []
        for v, iv in ((0, LT), (1, EQ0), (2, ((1, INF),))):
            s = st.fork()
            if s.assume(compare(x, y, iv)):
                out += ret(s, wrap(('adt', ORD, v, ())))
        return out
    return ret(st, wrap(('app', 'cmp', x, y)))


@native('Ord::cmp')
def _cmp(I, st, a, info):
    return cmp_term(I, st, a, lambda v: v, info)


@native('PartialOrd::partial_cmp')
def _pcmp(I, st, a, info):
    return cmp_term(I, st, a, SOME, info)


@native('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _lt(I, st, a, info):
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    iv = {'lt': LT, 'le': LE, 'gt': ((1, INF),), 'ge': ((0, INF),)}[info['name'].split('::')[1]]
    return ret(st, compare(x, y, iv))


@native('Hash::hash', 'Hasher::finish')
def _hash(I, st, a, info):
    st = st.fork()
    v = I.freeze(st, a[0])
    if by_address(info['substs'][0] if info.get('substs') else None):
        v = ('app', 'addr', v)
    st.ev = st.ev + (('hash', v),)
    return ret(st, UNIT)


# ---------------------------------------------------------------- formatting, panics
@native('panicking::panic_fmt', 'rt::panic_fmt', 'panicking::panic', 'panicking::unreachable_display', 'rt::begin_panic',
        'panicking::assert_failed', 'option::expect_failed', 'panicking::panic_display', 'panicking::panic_explicit',
        'process::abort', 'panicking::panic_nounwind')
def _panic(I, st, a, info):
    info = dict(info, fn=I.stack[-1] if I.stack else '?')
    return [pan(st, info, 'panic')]


def fmtval(I, st, a, info):
    return ret(st, ('app', 'fmt'))


for _n in ('Argument::new_debug', 'Argument::new_display', 'Arguments::from_str', 'Arguments::from_str_nonconst',
           'Arguments::new', 'Arguments::new_const', 'Arguments::new_v1'):
    NATIVES[_n] = fmtval


def d_eq(I, st, a, info):
    return decided_eq(st, eq(I.freeze(st, a[0]), I.freeze(st, a[1])))


def d_clone(I, st, a, info):
    return ret(st, I.freeze(st, a[0]))


def d_hash(I, st, a, info):
    return _hash(I, st, a, info)


DERIVED['eq'] = d_eq
DERIVED['clone'] = d_clone
DERIVED['hash'] = d_hash
