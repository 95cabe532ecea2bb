"""Path-sensitive abstract interpreter over MIR.

One run computes, for a function and an abstract initial state, the table of
its outcomes: (state, kind, value) with kind 'ret' or 'panic'.  Branches
partition the state by facts about terms; loops are brought to a fixpoint by
generalising everything an iteration changes to a loop carried unknown
('phi'), and described by a summary (initial values, one row per way through
the body).  No path condition is handed to a solver: facts are variant sets,
interval sets of (linear) integer terms and truth values of atoms.
"""
import itertools
import sys

from program import tsubst, tunify, norm_pretty
from terms import *
import terms as T

sys.setrecursionlimit(200000)


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'V', 'I', 'A', 'ev', 'trail')

    def __init__(self):
        self.mem = {}
        self.V = {}
        self.I = {}
        self.A = {}
        self.ev = ()
        self.trail = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.V = dict(self.V)
        s.I = dict(self.I)
        s.A = dict(self.A)
        s.ev = self.ev
        s.trail = self.trail
        return s

    def facts(self):
        out = set()
        for t, (vs, u) in self.V.items():
            out.add(('V', t, vs, u))
        for v, iv in self.I.items():
            out.add(('I', v, iv))
        for a, b in self.A.items():
            out.add(('A', a, b))
        return out

    def decide(self, t):
        """truth of boolean term under the facts: True/False/None"""
        if t[0] == 'bool':
            return t[1]
        if t[0] == 'not':
            r = self.decide(t[1])
            return None if r is None else not r
        if t[0] == 'isvar':
            f = self.V.get(t[1])
            if f:
                if set(f[0]) <= set(t[2]):
                    return True
                if not set(f[0]) & set(t[2]):
                    return False
            return None
        if t[0] == 'in':
            f = self.I.get(t[1])
            if f is None:
                f = self.bound(t[1])
            if f:
                x = iv_and(f, t[2])
                if not x:
                    return False
                if x == iv_norm(f):
                    return True
            return None
        if t[0] == 'and':
            rs = [self.decide(x) for x in t[1]]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        return self.A.get(t)

    def bound(self, vec):
        """interval of a linear vector from the intervals of its atoms"""
        if len(vec) == 1:
            return dom_of(vec[0][0])
        lo, hi = 0, 0
        for a, c in vec:
            iv = self.I.get(((a, 1),)) or dom_of(a)
            iv = iv_and(iv, dom_of(a))
            if not iv:
                return FULL
            l, h = iv[0][0], iv[-1][1]
            if c < 0:
                l, h = h, l
            lo = lo + c * l if l not in (INF, -INF) else -INF if (l == -INF) == (c > 0) else INF
            hi = hi + c * h if h not in (INF, -INF) else INF if (h == INF) == (c > 0) else -INF
            if lo == INF or hi == -INF:
                return FULL
        # combine pairs already known: a - b in X and ...
        return ((lo, hi),)

    def assume(self, t, truth=True):
        """in place; returns False if infeasible"""
        if not truth:
            t = neg(t)
        d = self.decide(t)
        if d is not None:
            return d
        if t[0] == 'isvar':
            f = self.V.get(t[1])
            vs = set(t[2])
            if f:
                vs &= set(f[0])
            if not vs:
                return False
            self.V[t[1]] = (tuple(sorted(vs)), t[3])
            return True
        if t[0] == 'in':
            f = self.I.get(t[1])
            base = f if f is not None else vec_dom(t[1])
            x = iv_and(base, t[2])
            if not x:
                return False
            self.I[t[1]] = x
            return self.propagate(t[1])
        if t[0] == 'and':
            return all(self.assume(x) for x in t[1])
        if t[0] == 'not':
            if t[1][0] == 'and':
                un = [x for x in t[1][1] if self.decide(x) is None]
                if len(un) == 1:
                    return self.assume(un[0], False)
            if t[1][0] == 'or':
                return all(self.assume(x, False) for x in t[1][1])
            self.A[t[1]] = False
            return True
        self.A[t] = True
        return True

    def propagate(self, vec):
        """a - b in {0} etc: check consistency of other vectors"""
        for v, iv in self.I.items():
            if len(v) > 1:
                b = self.bound(v)
                if not iv_and(b, iv):
                    return False
        return True


class Loop:
    def __init__(self, lid, where):
        self.work = {}
        self.id = lid
        self.where = where
        self.phis = []          # (phi, init, (root, path))
        self.backs = []         # rows: dict(facts, upd, ev, state)
        self.exits = 0
        self.entry = None
        self.iters = {}         # phi -> source sequence, for suffix iterators
        self.parent = None

    def init(self, phi):
        for p, i, _ in self.phis:
            if p == phi:
                return i
        return None

    def upd(self, row, phi):
        return row['upd'].get(phi, phi)


class Interp:
    MAX_STATES = 6000
    UNROLL = 8

    def __init__(self, prog, opaque=None, natives=None, max_inline=None):
        self.prog = prog
        self.opaque = opaque or (lambda path: False)
        self.extra = natives or {}
        self.frames = itertools.count()
        self.roots = itertools.count()
        self.bvs = itertools.count()
        self.loops = {}
        self.inits = {}
        self.lost = False
        self.lid = itertools.count(1)
        self.stack = []
        self.framestack = []
        self.unknown = set()     # unmodelled functions met
        self.inlined = set()
        self.loopstack = []
        self.steps = 0
        self.panics = []
        import natives as N
        self.nat = N
        for t in (T.DOM, T.ADT_OF, T.ORIGIN):
            t.clear()

    # ------------------------------------------------------------ memory
    def new_root(self, st, val, hint='t'):
        r = (hint, next(self.roots))
        st.mem[r] = val
        return r

    def getp(self, val, p):
        k = p[0]
        if k == 'f':
            return fld(val, p[1], p[2])
        if k == 'k':
            if p[2] is None:
                g = mapget(val, p[1])
                return g[3][0] if g[0] == 'adt' and g[3] else fld(g, 1, 0)
            return mapgetor(val, p[1], p[2])
        if k == 'n':
            return nth(val, p[1])
        if k == 'sel':
            return self.found(val, p[1])
        if k == 'x':
            return val[p[1]] if len(val) > p[1] and val[0] in ('it', 'iter') else val
        raise Exception(p)

    def found(self, s, lam):
        if s[0] == 'updsel' and s[2] == lam:
            return s[3]
        return nth(subst(lam, {('sym', '_'): s}), INT(0))

    def setp(self, val, path, x):
        if not path:
            return x
        p = path[0]
        inner = self.setp(self.getp(val, p), path[1:], x)
        k = p[0]
        if k == 'f':
            return set_fld(val, p[1], p[2], inner)
        if k == 'k':
            return mapins(val, p[1], inner)
        if k == 'n':
            ss = segs(val)
            if p[1][0] == 'int' and len(ss) > p[1][1] and all(s[0] == 'one' for s in ss[:p[1][1] + 1]):
                return mk_seq(ss[:p[1][1]] + (('one', inner),) + ss[p[1][1] + 1:])
            d = sub(seq_len(val), p[1])
            if d[0] == 'int' and 1 <= d[1] <= len(ss) and all(s[0] == 'one' for s in ss[-d[1]:]):
                i = len(ss) - d[1]
                return mk_seq(ss[:i] + (('one', inner),) + ss[i + 1:])
            return ('updnth', val, p[1], inner)
        if k == 'sel':
            if val[0] == 'updsel' and val[2] == p[1]:
                val = val[1]
            return ('updsel', val, p[1], inner)
        if k == 'x':
            if val[0] not in ('it', 'iter'):
                return ('it', inner) if p[1] == 1 else inner
            return val[:p[1]] + (inner,) + val[p[1] + 1:]
        raise Exception(p)

    def load(self, st, ref):
        v = st.mem.get(ref[1], ('dead',))
        for p in ref[2]:
            if v[0] == 'ref':
                v = self.load(st, v)
            v = self.getp(v, p)
        return v

    def store(self, st, ref, x):
        st.mem[ref[1]] = self.setp(st.mem.get(ref[1], ('undef',)), ref[2], x)

    def deref(self, st, v):
        """follow mutable references to the value"""
        n = 0
        while v[0] == 'ref':
            v = self.load(st, v)
            n += 1
            if n > 20:
                break
        return v

    def last_ref(self, st, v):
        """innermost reference of a chain"""
        while v[0] == 'ref':
            x = self.load(st, v)
            if x[0] != 'ref':
                return v
            v = x
        return None

    # ------------------------------------------------------------ bodies
    def type_dom(self, ty, v):
        if ty and ty[0] == 'prim' and v[0] in ('sym', 'fld', 'nth', 'app', 'phi', 'getor', 'bv', 'found', 'post', 'src', 'el', 'choice'):
            if v not in T.DOM:
                n = ty[1]
                if n == 'char':
                    T.DOM[v] = ((0, 0x10FFFF),)
                elif n in ('usize', 'u64', 'u128'):
                    T.DOM[v] = ((0, INF),)
                elif n == 'u32':
                    T.DOM[v] = ((0, 2 ** 32 - 1),)
                elif n == 'u16':
                    T.DOM[v] = ((0, 2 ** 16 - 1),)
                elif n == 'u8':
                    T.DOM[v] = ((0, 255),)
                elif n in ('isize', 'i64', 'i32', 'i16', 'i8', 'i128'):
                    T.DOM[v] = FULL
        return v

    def read(self, st, fr, pl):
        v = st.mem.get((fr['id'], pl['l']), ('undef',))
        variant = 0
        tt = fr['b']['tt']
        for e in pl['p']:
            k = e[0]
            if k == '*':
                bt = tsubst(tt.get(e[1]), fr['s'])
                if v[0] == 'ref' and not (bt[0] == 'ref' and not bt[1]):
                    v = self.load(st, v)
                variant = 0
            elif k == 'f':
                if v[0] == 'ref':
                    v = self.load(st, v)
                v = self.nat.field_hook(self, st, v, variant, e[1])
                v = self.type_dom(tt.get(e[3]), v)
                variant = 0
            elif k == 'v':
                variant = e[1]
            elif k == 'i':
                i = st.mem.get((fr['id'], e[1]), ('undef',))
                v = nth(self.deref(st, v), i)
            elif k == 'ci':
                v = self.deref(st, v)
                v = nth(v, INT(e[1]) if not e[3] else sub(seq_len(v), INT(e[1])))
            elif k == 'ss':
                v = self.deref(st, v)
                n = sub(seq_len(v), INT(e[2])) if e[3] else INT(e[2])
                v = drop(take(v, n), INT(e[1]))
            else:
                v = ('app', 'proj?', v)
        return self.type_dom(tt.get(pl['ty']), v)

    def loc(self, st, fr, pl):
        """place -> ('ref', root, path)"""
        root, path = (fr['id'], pl['l']), ()
        tt = fr['b']['tt']
        variant = 0
        for e in pl['p']:
            k = e[0]
            if k == '*':
                v = self.load(st, ('ref', root, path))
                bt = tsubst(tt.get(e[1]), fr['s'])
                if v[0] == 'ref' and not (bt[0] == 'ref' and not bt[1]):
                    root, path = v[1], v[2]
                variant = 0
            elif k == 'f':
                v = self.load(st, ('ref', root, path))
                if v[0] == 'ref':
                    root, path = v[1], v[2]
                path = path + (('f', variant, e[1]),)
                variant = 0
            elif k == 'v':
                variant = e[1]
            elif k == 'i':
                i = st.mem.get((fr['id'], e[1]), ('undef',))
                path = path + (('n', i),)
            elif k == 'ci':
                v = self.deref(st, self.load(st, ('ref', root, path)))
                path = path + (('n', INT(e[1]) if not e[3] else sub(seq_len(v), INT(e[1]))),)
            else:
                path = path + (('n', ('app', 'proj?')),)
        return ('ref', root, path)

    def operand(self, st, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read(st, fr, o['p'])
        if k == 'const':
            ty = fr['b']['tt'].get(o['ty'])
            if 'fn' in o:
                return self.fnval(fr, o)
            if 'v' in o:
                if ty == ('prim', 'bool'):
                    return BOOL(o['v'] != 0)
                return INT(o['v'])
            if 'str' in o:
                return ('str', o['str'])
            if 'zst' in o:
                if ty[0] == 'tuple':
                    return UNIT
                if ty[0] == 'closure':
                    return ('clo', ty[1], ty[2], ())
                if ty[0] == 'adt':
                    return ('adt', ty[1], 0, ())
                return ('app', 'zst', str(ty))
            return ('app', 'const', o.get('raw', '?'))
        return ('app', 'operand?')

    def fnval(self, fr, o):
        tt = fr['b']['tt']
        g = lambda a: tuple(tsubst(tt.get(x), fr['s']) if not isinstance(x, str) else ("'",) for x in a)
        rp = o.get('rp') if o.get('rk') == 'item' else None
        return ('fn', o['fn'], g(o['fnargs']), (o['pretty'], rp, g(o['ra']) if rp else (), o.get('trait')))

    def rvalue(self, st, fr, r):
        """-> value, or ('FORK', outcomes)"""
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k == 'ref':
            if r['m'] == 'mut':
                return self.loc(st, fr, r['p'])
            return self.read(st, fr, r['p'])
        if k == 'rawptr':
            if 'Mut' in r['m']:
                return self.loc(st, fr, r['p'])
            return self.read(st, fr, r['p'])
        if k == 'bin':
            a = self.deref(st, self.operand(st, fr, r['a']))
            b = self.deref(st, self.operand(st, fr, r['b']))
            ty = fr['b']['tt'].get(r['ty'])
            if ty and ty[0] == 'ptr' and r['op'] in ('Eq', 'Ne'):
                return ('FORK', [(s, v) for s, _, v in self.nat.addr_eq(st, a, b, r['op'] == 'Eq')])
            if ty and ty[0] == 'ptr' and r['op'] in ('Lt', 'Le', 'Gt', 'Ge'):
                return ('app', 'addr_' + r['op'], a, b)
            self.type_dom(ty, a)
            self.type_dom(ty, b)
            return self.binop(r['op'], a, b, ty)
        if k == 'un':
            a = self.deref(st, self.operand(st, fr, r['a']))
            if r['op'] == 'Not':
                if a[0] == 'int':
                    return ('app', 'bitnot', a)
                return neg(a)
            if r['op'] == 'Neg':
                return mul(INT(-1), a)
            if r['op'] == 'PtrMetadata':
                return seq_len(a)
            return ('app', r['op'], a)
        if k == 'cast':
            a = self.operand(st, fr, r['o'])
            if r['ck'] == 'PointerExposeProvenance':
                return ('app', 'addr', self.freeze(st, a))
            if r['ck'] == 'IntToInt':
                if a[0] == 'bool':
                    return INT(1 if a[1] else 0)
                to = fr['b']['tt'].get(r['ty'])
                fm = fr['b']['tt'].get(r['from'])
                self.type_dom(fm, a)
                if narrowing(fm, to):
                    v = ('app', 'cast:' + to[1], a)
                    top = {'u8': 255, 'u16': 65535, 'u32': 2 ** 32 - 1}.get(to[1])
                    if top is None:
                        return v
                    self.type_dom(to, v)
                    fits, cut = st.fork(), st.fork()
                    rows = []
                    if fits.assume(compare(a, INT(top), LE)):
                        rows.append((fits, a))
                    if cut.assume(compare(a, INT(top), ((1, INF),))):
                        rows.append((cut, v))
                    if len(rows) == 1:
                        return rows[0][1]
                    return ('FORK', rows)
            return a
        if k == 'discr':
            v = self.deref(st, self.read(st, fr, r['p']))
            ty = tsubst(fr['b']['tt'].get(r['p']['ty']), fr['s'])
            while ty[0] == 'ref':
                ty = ty[2]
            return self.discr(v, ty)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r['o'])
            a = r['a']
            if a['k'] == 'tuple':
                return ('tup', ops)
            if a['k'] == 'array':
                return mk_seq([('one', x) for x in ops])
            if a['k'] == 'adt':
                return self.mk_adt(a['p'], a['v'], ops)
            if a['k'] == 'closure':
                tt = fr['b']['tt']
                s = tuple(tsubst(tt.get(x), fr['s']) if not isinstance(x, str) else ("'",) for x in a['a'])
                return ('clo', a['p'], s, ops)
            return ('app', 'agg?') + ops
        if k == 'repeat':
            x = self.operand(st, fr, r['o'])
            return ('app', 'array_repeat', x, r['n'])
        return ('app', 'rvalue?', r.get('s', ''))

    def mk_adt(self, path, v, ops):
        if path in ('core::pin::Pin',) and len(ops) == 1:
            return ops[0]
        return ('adt', path, v, ops)

    def discr(self, v, ty):
        if v[0] == 'adt':
            if v[1] == 'core::cmp::Ordering':
                return INT([255, 0, 1][v[2]])
            return INT(v[2])
        if v[0] == 'with':
            return self.discr(v[1], ty)
        if ty[0] == 'adt':
            T.ADT_OF.setdefault(v, ty[1])
            if ty[1] not in T.UNIVERSE:
                return INT(0)
            return ('discr', v, ty[1])
        return ('discr', v, None)

    def binop(self, op, a, b, ty=None):
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return T.complement(sub(a, b))
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if ty and ty[0] == 'prim' and ty[1] == 'bool':
                t = eq(a, b)
                return neg(t) if op == 'Ne' else t
            if a[0] == 'discr' or b[0] == 'discr':
                if a[0] != 'discr':
                    a, b = b, a
                if b[0] == 'int':
                    vs = T.UNIVERSE.get(a[2], ())
                    t = isvar(a[1], (b[1],), vs)
                else:
                    t = ('eq', *sorted((a, b), key=key))
                return t if op == 'Eq' else neg(t)
            iv = {'Eq': EQ0, 'Ne': iv_not(EQ0), 'Lt': LT, 'Le': LE, 'Gt': ((1, INF),), 'Ge': ((0, INF),)}[op]
            return compare(a, b, iv)
        if op == 'Rem':
            if a[0] == 'int' and b[0] == 'int' and b[1]:
                return INT(a[1] % b[1])
            return ('mod', a, b)
        if op == 'Div':
            if a[0] == 'int' and b[0] == 'int' and b[1]:
                return INT(a[1] // b[1])
            return ('app', 'div', a, b)
        if op in ('Shl', 'ShlUnchecked'):
            if b[0] == 'int':
                return mul(a, INT(2 ** b[1]))
            return ('app', 'shl', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a[0] == 'int' and b[0] == 'int':
                return INT({'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}[op])
            isb = ty is None or (ty[0] == 'prim' and ty[1] == 'bool')
            if isb:
                return self.boolop(op, a, b)
            if op == 'BitAnd':
                for x, y in ((a, b), (b, a)):
                    if y[0] == 'int' and y[1] > 0 and y[1] & (y[1] + 1) == 0 and is_intlike(x):
                        return ('mod', x, INT(y[1] + 1))
            return ('app', op, *sorted((a, b), key=key))
        if op == 'Shr' and b[0] == 'int':
            return ('app', 'div', a, INT(2 ** b[1]))
        return ('app', 'bin:' + op, a, b)

    def boolop(self, op, a, b):
        if op == 'BitAnd':
            return conj([a, b])
        if op == 'BitOr':
            return neg(conj([neg(a), neg(b)]))
        if a[0] == 'bool':
            return neg(b) if a[1] else b
        if b[0] == 'bool':
            return neg(a) if b[1] else a
        n = False
        if a[0] == 'not':
            a, n = a[1], not n
        if b[0] == 'not':
            b, n = b[1], not n
        t = ('xor', *sorted((a, b), key=key))
        return neg(t) if n else t

    # ------------------------------------------------------------ running
    def run(self, path, args, st=None, substs=()):
        """outcomes of calling local function `path`"""
        st = st or State()
        b = self.prog.bodies[path]
        return self.call_body(st, b, args, substs)

    def call_body(self, st, b, args, substs):
        self.inlined.add(b['path'])
        fr = {'id': next(self.frames), 'b': b, 's': substs}
        st = st.fork()
        for i, a in enumerate(args):
            st.mem[(fr['id'], i + 1)] = self.type_dom(b['ltys'][i + 1], a) if i + 1 < len(b['ltys']) else a
        self.stack.append(b['path'])
        self.framestack.append(fr)
        try:
            outs = self.walk(st, fr, 0, None)
        finally:
            self.stack.pop()
            self.framestack.pop()
        res = []
        for s, w in outs:
            if w[0] == 'ret':
                v = s.mem.get((fr['id'], 0), UNIT)
                self.drop_frame(s, fr['id'])
                res.append((s, 'ret', v))
            elif w[0] == 'panic':
                res.append((s, 'panic', w[1]))
        return self.merge(res)

    def drop_frame(self, s, fid):
        for r in [r for r in s.mem if r[0] == fid]:
            del s.mem[r]

    def merge(self, res):
        """joins outcomes with equal memory, events and result"""
        if len(res) < 2:
            return res
        groups = {}
        order = []
        for s, k, v in res:
            kk = (k, v if k == 'ret' else repr(v), tuple(sorted(s.mem.items(), key=repr)), s.ev)
            if kk in groups:
                groups[kk].append(s)
            else:
                groups[kk] = [s]
                order.append((kk, k, v))
        out = []
        for kk, k, v in order:
            out.extend((s, k, v) for s in join_exact(groups[kk]))
        return out

    def walk(self, st, fr, bb, loop):
        """runs from block bb; outcomes: (state, ('ret',)|('panic',..)|('back',)|('exit', bb))
        relative to `loop` = (header, blocks) or None."""
        b = fr['b']
        out = []
        todo = [(st, bb, True)]
        while todo:
            st, bb, first = todo.pop()
            if not first or loop is None or bb != loop[0]:
                if loop is not None:
                    if bb == loop[0]:
                        out.append((st, ('back',)))
                        continue
                    if bb not in loop[1]:
                        out.append((st, ('exit', bb)))
                        continue
                if bb in b['loops'] and not (first and loop is not None and bb == loop[0]):
                    for s2, w in self.run_mir_loop(st, fr, bb):
                        if w[0] == 'exit':
                            todo.append((s2, w[1], False))
                        else:
                            out.append((s2, w))
                    continue
            self.steps += 1
            if self.steps > 400000:
                raise Limit('too many steps')
            for s2, w in self.block(st, fr, bb):
                if isinstance(w, int):
                    todo.append((s2, w, False))
                else:
                    out.append((s2, w))
            if len(todo) + len(out) > self.MAX_STATES:
                raise Limit('too many states in ' + b['path'])
        return out

    def run_mir_loop(self, st, fr, h):
        blocks = fr['b']['loops'][h]

        def body(s):
            res = []
            for s2, w in self.walk(s, fr, h, (h, blocks)):
                res.append(('back' if w[0] == 'back' else 'out', s2, w))
            return res

        outs = self.run_loop(st, body, (fr['b']['path'], h, self.block_span(fr['b'], h)))
        return [(s, w) for _, s, w in outs]

    def block_span(self, b, h):
        return b['blocks'][h]['t'].get('span', b['span'])

    # generic loop machinery -------------------------------------------------
    def run_loop(self, st, body, where):
        """body(state) -> [(kind, state, payload)], kind 'back' or anything else.
        Returns the non-back outcomes of the stable iteration."""
        lid = next(self.lid)
        L = Loop(lid, where)
        L.parent = self.loopstack[-1] if self.loopstack else None
        L.fn = self.stack[-1] if self.stack else None
        L.stack = tuple(self.stack)
        phis = {}
        u = self.unroll(st, body, lid)
        if u is not None:
            return u
        hdr = st.fork()
        self.loopstack.append(lid)
        try:
            for it in range(25):
                ev0 = hdr.ev
                h = hdr.fork()
                outs = self.last_round(st, hdr, body, body(h))
                backs = [o for o in outs if o[0] == 'back']
                changed = self.lost = False
                for _, s, _ in backs:
                    for r in list(hdr.mem):
                        if r not in s.mem:
                            continue
                        a, bval = hdr.mem[r], s.mem[r]
                        if a == bval:
                            continue
                        n = self.lgg(a, bval, (r, ()), phis, lid)
                        if n != a:
                            hdr.mem[r] = n
                            changed = True
                if not changed and not self.lost:
                    break
            else:
                raise Limit('loop does not stabilise: %s' % (where,))
        finally:
            self.loopstack.pop()
        L.entry = st
        L.hdr = hdr
        base = hdr.facts()
        for (loc_, phi) in phis.items():
            L.phis.append((phi, self.inits.get(phi, ('undef',)), loc_))
        for _, s, _ in backs:
            upd = {}
            for (r, p), phi in phis.items():
                if r in s.mem:
                    v = self.mem_at(s.mem[r], p)
                    upd[phi] = v
            L.backs.append({'facts': frozenset(s.facts() - base), 'upd': upd, 'ev': s.ev[len(ev0):], 'state': s})
        # suffix iterators
        for phi, init, _ in L.phis:
            ups = [row['upd'].get(phi, phi) for row in L.backs]
            if ups and all(u == drop(phi, INT(1)) for u in ups):
                L.iters[phi] = init
        self.loops[lid] = L
        res = []
        for k, s, p in outs:
            if k == 'back':
                continue
            s = s.fork()
            s.ev = ev0 + (('loop', lid),) + s.ev[len(ev0):]
            res.append((k, s, p))
        res = self.first_hit(L, base, res)
        # iterators that other exits leave before their end
        L.early = {it for it in L.iters for _, s, _ in res if s.I.get(((('len', it), 1),)) != EQ0
                   and (any(contains(f, lambda x: x == it) for f in s.facts())
                        or any(contains(v, lambda x: x == it) for v in s.mem.values()))}
        res = [(k, s2, p) for k, s, p in res for s2 in self.close(L, s)]
        L.nexits = len(res)
        # merge exits that agree
        g = {}
        for k, s, p in res:
            kk = (k, repr(p), tuple(sorted(s.mem.items(), key=repr)), s.ev)
            g.setdefault(kk, (k, p, []))[2].append(s)
        return [(k, s, p) for k, p, ss in g.values() for s in join_exact(ss)]

    def last_round(self, st, hdr, body, outs):
        """a round that turns a flag over, after which the loop is left: what follows
        it belongs to the round"""
        flags = [r for r, v in hdr.mem.items() if v in (TRUE, FALSE) and st.mem.get(r) == v]
        res = []
        for o in outs:
            k, s, p = o
            more = None
            if k == 'back' and any(s.mem.get(r) in (TRUE, FALSE) and s.mem[r] != hdr.mem[r] for r in flags):
                more = body(s.fork())
                if not more or any(x[0] == 'back' for x in more):
                    more = None
            res += [o] if more is None else more
        return res

    def mem_at(self, v, path):
        for p in path:
            if p[0] == 'f':
                v = fld(v, p[1], p[2])
            elif p[0] == 'x':
                v = v[p[1]] if isinstance(v, tuple) and len(v) > p[1] else ('undef',)
        return v

    def lgg(self, a, b, at, phis, lid):
        if a == b:
            return a
        if a[0] == 'phi' and a[1] == lid:
            self.not_suffix(a, b)
            return a
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            return ('adt', a[1], a[2], tuple(self.lgg(x, y, (at[0], at[1] + (('f', a[2], i),)), phis, lid)
                                             for i, (x, y) in enumerate(zip(a[3], b[3]))))
        if a[0] == 'tup' and b[0] == 'tup' and len(a[1]) == len(b[1]):
            return ('tup', tuple(self.lgg(x, y, (at[0], at[1] + (('f', 0, i),)), phis, lid)
                                 for i, (x, y) in enumerate(zip(a[1], b[1]))))
        if a[0] == 'clo' and b[0] == 'clo' and a[1] == b[1]:
            return a[:3] + (tuple(self.lgg(x, y, (at[0], at[1] + (('f', 0, i),)), phis, lid)
                                  for i, (x, y) in enumerate(zip(a[3], b[3]))),)
        if a[0] == 'with' and b[0] == 'with' and a[1] == b[1] and [u[:2] for u in a[2]] == [u[:2] for u in b[2]]:
            r = a[1]
            for (v, i, x), (_, _, y) in zip(a[2], b[2]):
                r = set_fld(r, v, i, self.lgg(x, y, (at[0], at[1] + (('f', v, i),)), phis, lid))
            return r
        if b[0] == 'with' and a[0] != 'with' and b[1] == a:
            r = a
            for v, i, y in b[2]:
                x = fld(a, v, i)
                r = set_fld(r, v, i, self.lgg(x, y, (at[0], at[1] + (('f', v, i),)), phis, lid))
            return r
        if a[0] == 'with' and b[0] == 'with' and a[1] == b[1]:
            keys = sorted({u[:2] for u in a[2]} | {u[:2] for u in b[2]})
            r = a[1]
            for v, i in keys:
                r = set_fld(r, v, i, self.lgg(fld(a, v, i), fld(b, v, i), (at[0], at[1] + (('f', v, i),)), phis, lid))
            return r
        if a[0] == 'with' and b == a[1]:
            r = a[1]
            for v, i, x in a[2]:
                r = set_fld(r, v, i, self.lgg(x, fld(b, v, i), (at[0], at[1] + (('f', v, i),)), phis, lid))
            return r
        if a[0] == 'it' and b[0] == 'it':
            return ('it', self.lgg(a[1], b[1], (at[0], at[1] + (('x', 1),)), phis, lid))
        if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and len(a) == len(b):
            return a[:2] + tuple(self.lgg(x, y, (at[0], at[1] + (('x', i + 2),)), phis, lid)
                                 if isinstance(x, tuple) and isinstance(y, tuple) else x
                                 for i, (x, y) in enumerate(zip(a[2:], b[2:])))
        if at not in phis:
            phi = ('phi', lid, len(phis))
            phis[at] = phi
            T.ORIGIN[phi] = a
            self.inits[phi] = a
        phi = phis[at]
        if b != phi:
            self.not_suffix(phi, b)
        for src in (a, b):
            if src in T.DOM and phi not in T.DOM:
                T.DOM[phi] = T.DOM[src]
        if is_intlike(a) and phi not in T.DOM:
            if a[0] == 'int' and a[1] >= 0:
                T.DOM[phi] = ((0, INF),)
        return phi

    def not_suffix(self, phi, b):
        """a loop carried value that is not always a suffix of its first value"""
        if phi not in T.ORIGIN or b in (phi, EMPTY):
            return
        o = T.ORIGIN[phi]
        if b[0] == 'drop' and (b[1] == phi or b[1] == (o[1] if o[0] == 'drop' else o)):
            return
        if o[0] == 'seq' and b == drop(o, INT(1)):
            return
        del T.ORIGIN[phi]
        self.lost = True

    def close(self, L, s):
        """replaces accumulators by closed forms at an exit after the driving
        iterator is exhausted; returns the resulting states"""
        if not L.backs:
            return [s]
        for it, src in L.iters.items():
            vec = ((('len', it), 1),)
            if s.I.get(vec) != EQ0:
                continue
            m = {}
            last = []
            for phi, init, _ in L.phis:
                if phi == it or phi in L.iters:
                    continue
                c = self.closed_acc(L, it, src, phi, init)
                if c is None:
                    f = self.closed_max(L, it, src, phi, init)
                    if f is not None:
                        last.append((phi, init, f, lambda f, n: ('app', 'maxof', f)))
                        continue
                    f = self.closed_last(L, it, src, phi)
                    if f is not None:
                        last.append((phi, init, f, lambda f, n: nth(f, sub(n, INT(1)))))
                else:
                    m[phi] = c
            m[it] = EMPTY
            self.subst_state(s, m, it)
            if it not in L.early:
                del s.I[vec]
            out = [s]
            for phi, init, f, val in last:
                nxt = []
                for s in out:
                    n = seq_len(f)
                    for c, v in ((compare(n, INT(1), ((0, INF),)), val(f, n)), (compare(n, INT(0), EQ0), init)):
                        s2 = s.fork()
                        if s2.assume(c):
                            if self.subst_state(s2, {phi: v}):
                                nxt.append(s2)
                out = nxt
            return out
        for phi, init, _ in L.phis:
            if s.I.get(((('len', phi), 1),)) == EQ0:
                m = self.worklist(L, phi, init)
                if m:
                    m[phi] = EMPTY
                    self.subst_state(s, m, phi)
                    del s.I[((('len', phi), 1),)]
                    return [s]
        return self.counted(L, s)

    def counted(self, L, s):
        """a loop that takes one element off the end of a sequence per round and
        counts the rounds: the sequence and what is collected from it"""
        if len(L.backs) != 1:
            return [s]
        upd = L.backs[0]['upd']
        own = self.own(L)
        inits = {p: i for p, i, _ in L.phis}
        cs = [c for c in inits if upd.get(c) == add(c, INT(1)) and inits[c][0] == 'int']
        ps = [p for p in inits if upd.get(p) == take(p, sub(seq_len(p), INT(1)))]
        if len(cs) != 1 or len(ps) != 1:
            return [s]
        c, p = cs[0], ps[0]
        i = inits[p]
        left = add(sub(seq_len(i), c), inits[c])
        last = ('nth', p, sub(seq_len(p), INT(1)))
        m = {p: take(i, left)}
        for a in inits:
            u = upd.get(a, a)
            if a in (c, p) or u == a:
                continue
            if u[0] != 'seq' or len(u[1]) != 2 or u[1][0] != ('sub', a) or u[1][1][0] != 'one':
                return [s]
            bv = ('bv', 't%d' % next(self.bvs))
            e = subst(u[1][1][1], {last: bv})
            if contains(e, lambda t: t in own):
                return [s]
            n = 1 + max_bv(e)
            f = mk_flatmap(('rev', drop(i, left)), n, (((), (('one', subst(e, {bv: ('bv', n)})),)),))
            m[a] = mk_seq((('sub', inits[a]), ('sub', f))) if inits[a] != EMPTY else f
        # at the end the counter is at its bound, or nothing is left
        at = None
        for vec, iv in s.I.items():
            d = dict(vec)
            if d == {('len', p): 1} and iv == EQ0:
                at = add(seq_len(i), inits[c])
            elif at is None and d.get(c) == -1 and iv == ((-INF, 0),) and not contains(tuple(x for x, _ in vec if x != c), lambda t: t in own):
                n = INT(0)
                for x, k in vec:
                    if x != c:
                        n = add(n, mul(INT(k), x))
                if State.decide(s, compare(n, inits[c], ((0, INF),))) is True or inits[c] == INT(0):
                    at = n
        self.subst_state(s, {a: v for a, v in m.items() if a != p})
        if at is not None:
            m2 = {p: subst(m[p], {c: at}), c: at}
            s = s.fork()
            s.I.pop(((('len', p), 1),), None)
            s.I.pop(((c, 1),), None)
            fits = self.subst_state(s, m2)
        else:
            fits = self.subst_state(s, m)
        return [s] if fits else []

    def worklist(self, L, W, w0):
        """closed forms of the containers grown by a loop that takes elements
        off W until it is empty; every element is put there at most once"""
        if W not in L.work:
            L.work[W] = self.worklist_(L, W, w0)
        return dict(L.work[W] or {})

    def worklist_(self, L, W, w0):
        own = {p for p, _, _ in L.phis}
        last = sub(seq_len(W), INT(1))
        ends = ((drop(W, INT(1)), ('nth', W, INT(0))), (take(W, last), ('nth', W, last)))
        for rest, x in ends:
            pops = []
            for row in L.backs:
                u = row['upd'].get(W, W)
                if u == rest:
                    pops.append(())
                elif u[0] == 'seq' and u[1] and u[1][0] == ('sub', rest):
                    pops.append(u[1][1:])
                elif u[0] == 'seq' and u[1] and u[1][-1] == ('sub', rest):
                    pops.append(u[1][:-1])
                else:
                    break
            else:
                break
        else:
            return None
        res = {}
        for R, r0, _ in L.phis:
            if R == W:
                continue
            c = self.grown(L, W, w0, x, pops, R, r0, own)
            if c is not None:
                res[R] = c
        return res

    def grown(self, L, W, w0, x, pops, R, r0, own):
        bv = ('bv', 't%d' % next(self.bvs))
        paths = []
        adds_ = []
        part = False
        late = None
        inits = {p: i for p, i, _ in L.phis}
        for row, push in zip(L.backs, pops):
            a = self.additions(row['upd'].get(R, R), R)
            if a is None or a[0] not in (None, 'set', 'rel'):
                return None
            facts, tests = self.self_tests(row, own)
            facts = [g for g in facts if not (g[0] == 'I' and g[1] == ((('len', W), 1),))]
            facts, seen = self.seen_tests(L, row, facts, [t for t in tests if t[0] != R], a, inits)
            if seen is None:
                return None
            tests = [t for t in tests if t[0] == R]
            if seen and seen[0] is True:
                # what this element stands for was treated before
                if push or a[1] or tests:
                    return None
                continue
            if seen:
                e = seen[1]
                if contains(subst((tuple(push), tuple(a[1])), {e: sym('seen')}), lambda t: t == x):
                    return None
            again = []
            if any(e == x for _, e, _ in tests):
                # seen before is tested when an element is taken off
                if late is False or len(tests) != 1 or (tests[0][2] and (push or a[1] not in ((), (('one', x),)))):
                    return None
                late = True
                if tests[0][2]:
                    continue
                if a[1] != (('one', x),):
                    return None
                gen = push
            else:
                if late and (push or a[1]):
                    return None
                if push or a[1]:
                    late = False
                adds = set(a[1])
                gen = []
                exp = set()
                todo = list(push)
                for _, e, truth in tests:
                    if truth:
                        exp.add(('one', e))
                        again.append(('one', e))
                        continue
                    f = [p for p in todo if p[0] == 'one' and p[1] == e or (e[0] == 'tup' and len(e[1]) == 2 and p == ('one', e[1][1]))]
                    if ('one', e) not in adds:
                        return None
                    if not f:
                        continue
                    if len(f) != 1:
                        return None
                    todo.remove(f[0])
                    exp.add(('one', e))
                    gen.append(('one', e if f[0][1] == e else tup(e, f[0][1])))
                for p in todo:
                    if p[0] != 'sub' or p[1][0] != 'newof':
                        return None
                    if p[1][2] != R and ('sub', R) not in set_segs(p[1][2]) and not (p[1][2][0] == 'rel' and p[1][2][1] == R):
                        return None
                    for q in set_segs(self.idents(p[1][1], a[0])):
                        exp.add(q)
                    gen.append(('sub', p[1][1]))
                if not adds <= exp:
                    part = True
                gen = tuple(gen)
            m = {x: bv}
            gs = subst_guards(facts, m)
            if gs is None:
                continue
            ss = subst(tuple(gen), m)
            ag = subst(tuple(again), m)
            ad = subst(tuple(a[1]), m)
            if contains((gs, ss, ad, ag), lambda t: t in own):
                return None
            paths.append((gs, ss, ag))
            adds_.append((gs, ad + ag))
        if late is None:
            return None
        if late and (r0 not in (ESET, EMPTY) or part):
            return None

        def fm(paths):
            n = 1 + max_bv(tuple(paths))
            return mk_flatmap(('selfset',), n, tuple((subst_guards(g, {bv: ('bv', n)}), subst(y, {bv: ('bv', n)})) for g, y in paths))
        start = union(ESET, w0)
        if part:
            # not everything that is added is looked at again
            return ('wclosure', r0, start, fm([(g, y) for g, y, _ in paths]), fm(adds_))
        return ('closure', start if late else r0, start, fm([(g, y + z) for g, y, z in paths]))

    def seen_tests(self, L, row, facts, tests, a, inits):
        """tests whether something derived from an element was seen before, in a
        set or in the keys of a map that the loop grows:
        (other facts, None on failure | () | (truth, element))"""
        own = set(inits)
        res = ()
        out = []
        tests = [(c, e, t, None) for c, e, t in tests]
        for g in facts:
            if g[0] == 'V' and g[1][0] == 'mapget' and g[1][1] in own:
                tests.append((g[1][1], g[1][2], g[2] == (1,), g))
            else:
                out.append(g)
        for c, e, truth, g in tests:
            if res:
                return out, None
            if contains(e, lambda t: t in own and t[0] == 'phi' and t == c):
                return out, None
            u = self.additions(row['upd'].get(c, c), c)
            if u is None:
                return out, None
            if not truth:
                keys = [self.key_of(q) for q in u[1]] if g else [q[1] if q[0] == 'one' else None for q in u[1]]
                if e not in keys:
                    return out, None
                i = inits[c]
                t = isvar(mapget(i, e), (0,), T.UNIVERSE[OPT]) if g else neg(mem(e, i))
                for x in term_guards(t) or ():
                    out.append(x)
                if t == FALSE:
                    return out, None
            elif u[1]:
                return out, None
            res = (truth, e)
        return out, res

    def key_of(self, q):
        """the key of all pairs of a segment"""
        while q[0] == 'sub' and q[1][0] == 'flatmap' and len(q[1][3]) == 1 and len(q[1][3][0][1]) == 1:
            q = q[1][3][0][1][0]
        return q[1][1][0] if q[0] == 'one' and q[1][0] == 'tup' else None

    def idents(self, f, kind):
        """the added elements of a ('newof', f, ..) term"""
        def idt(s):
            if s[0] == 'one':
                v = s[1]
                if kind == 'rel' and v[0] == 'tup' and len(v[1]) == 2 and v[1][0][0] == 'tup' and len(v[1][0][1]) == 2 \
                        and v[1][0][1][1] == v[1][1]:
                    return ('one', v[1][0])
                return s
            return ('sub', self.idents(s[1], kind))
        if f[0] == 'flatmap':
            return union(ESET, mk_flatmap(f[1], f[2], tuple((g, tuple(idt(s) for s in ss)) for g, ss in f[3])))
        if f[0] in ('set', 'seq'):
            return mk_set([idt(s) for s in f[1]])
        return f

    def subst_state(self, s, m, memonly=None):
        """False if the facts contradict each other afterwards"""
        fits = True
        for r in list(s.mem):
            s.mem[r] = subst(s.mem[r], m)
        m = {k: v for k, v in m.items() if k != memonly}
        if m:
            for d in (s.V, s.A):
                for t in list(d):
                    n = subst(t, m)
                    if n != t:
                        d[n] = d.pop(t)
            for vec, iv in list(s.I.items()):
                g = ('I', vec, iv)
                n = subst_guards((g,), m)
                if n != (g,):
                    del s.I[vec]
                    fits = fits and n is not None
                    for x in n or ():
                        fits = s.assume(guard_term(x)) and fits
            s.ev = subst(s.ev, m)
        return fits

    def unroll(self, st, body, lid):
        """runs a loop whose number of iterations is a small literal as straight
        code; None if it is not of that form"""
        ups = any(v[0] == 'int' and 0 <= v[1] <= 8 for v in st.mem.values())
        if not ups and not any(small_counter(v, top=self.UNROLL) for v in st.mem.values()):
            return None
        limit = 200
        todo = [st.fork()]
        out = []
        first = True
        work = 0
        for i in range(self.UNROLL + 2):
            nxt = []
            for s in todo:
                for k, s2, p in body(s.fork()):
                    if k == 'back':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, p))
                work += 1
            if first:
                if not nxt:
                    return None
                if not all(self.counts_down(st, s2) for s2 in nxt):
                    if not all(self.counts(st, s2) for s2 in nxt):
                        return None
                    limit = 60
                first = False
            if not nxt:
                return out
            nxt = self.join_states(nxt)
            if len(nxt) + len(out) > limit or work > limit:
                return None
            todo = nxt
        return None

    def join_states(self, ss):
        g = {}
        for s in ss:
            g.setdefault((tuple(sorted(s.mem.items(), key=repr)), s.ev), []).append(s)
        return [x for v in g.values() for x in join_exact(v)]

    def counts(self, a, b):
        return any(v[0] == 'int' and b.mem.get(r, v)[0] == 'int' and abs(b.mem[r][1] - v[1]) == 1
                   for r, v in a.mem.items() if r in b.mem)

    def counts_down(self, a, b):
        for r, v in a.mem.items():
            w = b.mem.get(r)
            if w is not None and w != v and small_counter(v, top=self.UNROLL) and small_counter(w, True, self.UNROLL) and \
                    count_of(w) is not None and count_of(w) < count_of(v):
                return True
        return False

    def first_hit(self, L, base, res):
        """a loop that leaves at the first element with some property: its exits
        are described by the sub sequence of the elements having the property"""
        if len(L.iters) != 1 or not L.backs:
            return res
        (it, src), = L.iters.items()
        own = {p for p, _, _ in L.phis} - {it}
        elem = ('nth', it, INT(0))
        vec = ((('len', it), 1),)
        early, late, pan = [], [], []
        for o in res:
            iv = o[1].I.get(vec)
            if isinstance(o[2], tuple) and o[2] and o[2][0] == 'panic':
                pan.append(o)
            elif iv == EQ0:
                late.append(o)
            elif iv is not None and iv[0][0] >= 1:
                early.append(o)
            else:
                return res
        if not early:
            return res
        bv = ('bv', 't%d' % next(self.bvs))
        at = lambda x: {elem: x}
        if src[0] == 'flatmap' and len(src[3]) == 1 and not src[3][0][0] and len(src[3][0][1]) == 1 and src[3][0][1][0][0] == 'one':
            # one element for each element of another sequence
            _, under, n, ((_, ((_, val),)),) = src
            if any(contains(tuple(s.facts() - base), lambda t: t == ('src', it)) for _, s, _ in early):
                src = under
                at = lambda x: {elem: subst(val, {('bv', n): x}), ('src', it): x}
        paths = []
        for k, s, p in early:
            gs = [g for g in s.facts() - base if not (g[0] == 'I' and g[1] == vec)]
            gs = subst_guards(gs, at(bv))
            if gs is None or contains(tuple(gs), lambda t: t in own or t == it or t[0] in ('src', 'el')):
                return res
            paths.append((gs, (('one', bv),)))
        for row in L.backs:
            if contains(tuple(row['facts']), lambda t: t in own):
                return res
        n = 1 + max_bv(tuple(paths))
        f = mk_flatmap(src, n, tuple((subst_guards(g, {bv: ('bv', n)}), subst(x, {bv: ('bv', n)})) for g, x in paths))
        if f == EMPTY:
            return res
        ln = seq_len(f)
        hit = nth(f, INT(0))
        # exits that do not tell the properties apart
        kinds = {}
        for k, s, p in early:
            mm = tuple(sorted(((r, subst(v, at(hit))) for r, v in s.mem.items()), key=repr))
            kinds.setdefault((k, repr(p), mm, s.ev), []).append(s)
        out = []
        for k, s, p in early:
            s = s.fork()
            if len(kinds) == 1:
                for g in s.facts() - base:
                    del {'V': s.V, 'I': s.I, 'A': s.A}[g[0]][g[1]]
                for g in base:
                    s.assume(guard_term(g))
            else:
                s.I.pop(vec, None)
            self.subst_state(s, at(hit))
            if s.assume(compare(ln, INT(1), ((0, INF),))):
                out.append((k, s, p))
        for k, s, p in late:
            s = s.fork()
            if s.assume(compare(ln, INT(0), EQ0)):
                out.append((k, s, p))
        L.hit = it
        return out + pan

    def own(self, L):
        """loop variables of a loop and of the loops inside it"""
        out, todo = set(), [L]
        seen = set()
        while todo:
            X = todo.pop()
            if X.id in seen:
                continue
            seen.add(X.id)
            out.update(p for p, _, _ in X.phis)
            todo.extend(self.loops[e[1]] for r in X.backs for e in r['ev'] if e[0] == 'loop' and e[1] in self.loops)
        return out

    def closed_max(self, L, it, src, phi, init):
        """the sequence of the values compared with phi when phi keeps the largest"""
        if init != INT(0):
            return None
        own = self.own(L)
        rows = []
        grow, keep = {}, []
        for row in L.backs:
            u = row['upd'].get(phi, phi)
            cmps = [g for g in row['facts'] if g[0] == 'I' and contains(g[1], lambda t: t == phi)]
            rest = frozenset(g for g in row['facts'] if g not in cmps)
            if u == phi and not cmps:
                rows.append((rest, ()))
                continue
            if len(cmps) != 1:
                return None
            vec, iv = dict(cmps[0][1]), cmps[0][2]
            k = vec.pop(phi, 0)
            if abs(k) != 1 or len(iv) != 1:
                return None
            lo, hi = iv[0]
            e = from_lin({a: c * -k for a, c in vec.items()}, 0)
            if k < 0:
                lo, hi = -hi, -lo
            # phi - e lies in [lo, hi]
            if u == phi:
                keep.append((rest, e, lo))
            else:
                d = sub(u, e)
                if d[0] != 'int' or hi > d[1] or rest in grow:
                    return None
                grow[rest] = u
                rows.append((rest, (('one', u),)))
        for rest, e, lo in keep:
            u = grow.get(rest)
            if u is None:
                return None
            d = sub(u, e)
            if d[0] != 'int' or lo < d[1]:
                return None
        if not any(ss for _, ss in rows):
            return None
        return self.comprehend(it, src, rows, own)

    def closed_last(self, L, it, src, phi):
        """the sequence of the values assigned to phi, when none depends on it"""
        own = self.own(L)
        bv = ('bv', 't%d' % next(self.bvs))
        m = {('nth', it, INT(0)): bv}
        paths = []
        for row in L.backs:
            u = row['upd'].get(phi, phi)
            gs = [g for g in row['facts'] if not (g[0] == 'I' and g[1] == ((('len', it), 1),))]
            gs = subst_guards(gs, m)
            if gs is None:
                return None
            ss = () if u == phi else (('one', subst(u, m)),)
            if contains((gs, ss), lambda t: t in own or t[0] in ('src', 'el')):
                return None
            paths.append((gs, ss))
        n = 1 + max_bv(tuple(paths))
        return mk_flatmap(src, n, tuple((subst_guards(g, {bv: ('bv', n)}), subst(x, {bv: ('bv', n)})) for g, x in paths))

    def additions(self, u, phi):
        """u as phi plus something: (kind, segments), None if it is not"""
        if u == phi:
            return None, ()
        if u[0] == 'seq' and u[1] and u[1][0] == ('sub', phi):
            return 'seq', u[1][1:]
        if u[0] == 'set' and ('sub', phi) in u[1]:
            return 'set', tuple(x for x in u[1] if x != ('sub', phi))
        if u[0] == 'rel' and u[1] == phi:
            return 'rel', set_segs(u[2])
        if u[0] == 'nest' and u[1] == phi:
            return 'nest', set_segs(u[2])
        if u[0] == 'lin' and dict(u[1]) == {phi: 1} and u[2] == 1:
            return 'count', (('one', INT(0)),)
        return None

    def self_tests(self, row, own):
        """membership tests of a row in containers the loop itself grows:
        (other facts, [(container, element, truth)])"""
        rest, tests = [], []
        for g in row['facts']:
            t = g[1]
            if g[0] == 'A' and t[0] == 'mem':
                if t[2] in own:
                    tests.append((t[2], t[1], g[2]))
                    continue
                if t[2][0] == 'getor' and t[2][1] in own and t[2][3] == ESET:
                    tests.append((t[2][1], tup(t[2][2], t[1]), g[2]))
                    continue
                if t[2][0] == 'fld' and t[2][1][0] == 'mapget' and t[2][1][1] in own:
                    tests.append((t[2][1][1], tup(t[2][1][2], t[1]), g[2]))
                    continue
            rest.append(g)
        return rest, tests

    def closed_acc(self, L, it, src, phi, init):
        rows = []
        kind = None
        own = {p for p, _, _ in L.phis}
        inits = {p: i for p, i, _ in L.phis}
        news = None
        for row in L.backs:
            u = row['upd'].get(phi, phi)
            a = self.additions(u, phi)
            if a is None:
                return None
            k, ss = a
            if k is not None:
                if kind and kind != k:
                    return None
                kind = k
            rows.append((row, ss))
        if kind is None:
            return None
        out = []
        for row, ss in rows:
            facts, tests = self.self_tests(row, own)
            for c, e, truth in tests:
                if c == phi:
                    # adding what is already there changes nothing
                    if truth:
                        ss = tuple(ss) + (('one', e),)
                    elif ('one', e) not in ss:
                        return None
                    continue
                if kind == 'count':
                    return None
                a = self.additions(row['upd'].get(c, c), c)
                if a is None or (not truth and ('one', e) not in a[1]):
                    return None
                if kind == 'seq':
                    if len(tests) != 1 or (news and news[0] != c):
                        return None
                    if truth:
                        if ss:
                            return None
                        continue
                    if len(ss) > 1 or any(x[0] != 'one' for x in ss):
                        return None
                    news = (c,)
                    ss = tuple(('one', e if x[1] == e else tup(e, x[1])) for x in ss)
                else:
                    return None
            if kind == 'seq' and not tests and any(x[0] == 'sub' and x[1][0] == 'newof' and x[1][2] in own for x in ss):
                # a nested loop put new elements there
                if len(ss) != 1 or (news and news[0] != ss[0][1][2]):
                    return None
                c = ss[0][1][2]
                a = self.additions(row['upd'].get(c, c), c)
                f = ss[0][1][1]
                if a is None or not set(set_segs(self.idents(f, a[0]))) <= set(a[1]):
                    return None
                news = (c,)
                ss = (('sub', f),)
                tests = True
            if kind in ('set', 'rel', 'nest'):
                ss = tuple(set(ss))
            out.append((facts, ss, bool(tests)))
        if news and any(ss and not t for _, ss, t in out):
            return None
        f = self.comprehend(it, src, [(g, ss) for g, ss, _ in out], self.own(L), kind in ('set', 'rel', 'nest') or news)
        if f is None:
            return None
        if news:
            return cat(init, ('newof', fm_set(f) if f[0] == 'flatmap' else f, untouched(inits[news[0]])))
        if kind == 'seq':
            return cat(init, f)
        if kind == 'count':
            return add(init, seq_len(f))
        if kind == 'rel':
            return mk_rel(untouched(init), f)
        if kind == 'nest':
            return mk_nest(init, f)
        return union(init, f)

    def comprehend(self, it, src, rows, own, aset=False):
        """the sequence emitted by rows [(facts, segments)] of a loop over src"""
        elem = ('nth', it, INT(0))
        n = 0
        paths = []
        vs = []
        depth = None
        for facts, ss in rows:
            gs = [g for g in facts if not (g[0] == 'I' and g[1] == ((('len', it), 1),))]
            els, d, whole = [], None, False
            for t in subterms((tuple(gs), tuple(ss))):
                if t == elem:
                    whole = True
                elif t[0] == 'el' and len(t) == 3 and t[2] == it:
                    els.append(t)
                elif t[0] == 'src' and len(t) == 2:
                    k, b = 1, t[1]
                    while b[0] == 'src':
                        k, b = k + 1, b[1]
                    if b == it:
                        d = max(d or 0, k)
            if whole and (els or d):
                return None
            vs.append((gs, ss, els, d, whole))
        # the sequence the rows range over
        base, k = src, 0
        while base[0] == 'flatmap':
            base, k = base[1], k + 1
        if any(els or d for _, _, els, d, _ in vs):
            if any(whole for _, _, _, _, whole in vs):
                return None
            s = base
            sv = it
            for _ in range(k):
                sv = ('src', sv)
        else:
            s, sv = src, elem
            if k and not aset and not any(whole for _, _, _, _, whole in vs):
                subs = False
                b = src
                while b[0] == 'flatmap':
                    subs = subs or any(x[0] == 'sub' for _, q in b[3] for x in q)
                    b = b[1]
                if subs or len(src[3]) > 1:
                    return None
        for gs, ss, els, d, whole in vs:
            if d and d != k:
                return None
            if sv != elem and not els and not aset and any(x[0] == 'sub' for b in self.fm_chain(src) for _, q in b[3] for x in q):
                return None
            # outermost first
            els.sort(key=lambda t: len(repr(t)))
            m = {}
            bvs = []
            for e in els:
                bvs.append((('bv', 't%d' % next(self.bvs)), e))
            top = ('bv', 't%d' % next(self.bvs))
            m = {sv: top}
            seqs = []
            for v, e in bvs:
                seqs.append((v, subst(e[1], m)))
                m[e] = v
                m[('el', subst(e[1], {k2: v2 for k2, v2 in m.items() if k2 != e}), it)] = v
            # substitution of a nested element must win over its parts
            gs2 = self.subst_els(gs, m, els, guards=True)
            if gs2 is None:
                continue
            ss2 = self.subst_els(tuple(ss), m, els)
            if contains((gs2, ss2, tuple(seqs)), lambda t: t in own or t == it or (t[0] in ('src', 'el') and contains(t, lambda q: q == it))):
                return None
            for v, X in reversed(seqs):
                inner = [g for g in gs2 if contains(g, lambda t: t == v)]
                gs2 = tuple(g for g in gs2 if g not in inner)
                nn = 1 + max_bv((tuple(inner), ss2))
                f = mk_flatmap(X, nn, ((subst_guards(inner, {v: ('bv', nn)}), subst(ss2, {v: ('bv', nn)})),))
                ss2 = (('sub', f),) if f != EMPTY else ()
            paths.append((gs2, ss2, top))
        n = 1 + max_bv(tuple((g, x) for g, x, _ in paths))
        return mk_flatmap(s, n, tuple((subst_guards(g, {top: ('bv', n)}), subst(x, {top: ('bv', n)})) for g, x, top in paths))

    def fm_chain(self, t):
        while t[0] == 'flatmap':
            yield t
            t = t[1]

    def subst_els(self, x, m, els, guards=False):
        """substitutes element variables, innermost terms first"""
        for e in reversed(els):
            x = subst_guards(x, {e: m[e]}) if guards else subst(x, {e: m[e]})
            if x is None:
                return None
        rest = {k: v for k, v in m.items() if k not in els}
        return subst_guards(x, rest) if guards else subst(x, rest)

    # ------------------------------------------------------------ blocks
    def underflows(self, fr, r, v):
        """condition under which an unsigned difference exists, unless it always does"""
        if r['k'] != 'bin' or r['op'] != 'Sub' or v[0] not in ('lin', 'int'):
            return None
        ty = fr['b']['tt'].get(r['ty'])
        if not ty or ty[0] != 'prim' or ty[1] not in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128'):
            return None
        c, k = lin(v)
        if k >= 0 and all(x > 0 for x in c.values()):
            return None
        c = compare(INT(0), v, LE)
        return None if c == TRUE else c

    def block(self, st, fr, bb, i0=0):
        b = fr['b']
        blk = b['blocks'][bb]
        for i in range(i0, len(blk['s'])):
            s = blk['s'][i]
            if s['k'] == '=':
                v = self.rvalue(st, fr, s['r'])
                c = self.underflows(fr, s['r'], v)
                if c is not None:
                    # a difference below zero panics where overflow is checked
                    out = [(s2, ('panic', ('underflow', s.get('span', b['span'] if 'span' in b else ''), b['path']))) for s2 in self.split(st, c, False)]
                    for s2 in self.split(st, c, True):
                        s2 = s2.fork()
                        self.assign(s2, fr, s['p'], v)
                        out += self.block(s2, fr, bb, i + 1)
                    return out
                if v[0] == 'FORK':
                    out = []
                    for s2, v2 in v[1]:
                        self.assign(s2, fr, s['p'], v2)
                        out += self.block(s2, fr, bb, i + 1)
                    return out
                self.assign(st, fr, s['p'], v)
            elif s['k'] == 'dead':
                st.mem.pop((fr['id'], s['l']), None)
        t = blk['t']
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(st, t['t'])]
        if k == 'return':
            return [(st, ('ret',))]
        if k == 'unreachable':
            return []
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'assert':
            c = self.operand(st, fr, t['o'])
            if not t['e']:
                c = neg(c)
            out = []
            s1 = st.fork()
            if s1.assume(c):
                out.append((s1, t['t']))
            if c[0] != 'bool' or not c[1]:
                s2 = st.fork()
                if s2.assume(c, False):
                    out.append((s2, ('panic', ('assert', t['span'], b['path']))))
            return out
        if k == 'call':
            f = self.operand(st, fr, t['f'])
            args = [self.operand(st, fr, a) for a in t['a']]
            outs = self.call(st, f, args, {'span': t['span'], 'fr': fr, 'dty': tsubst(b['tt'].get(t['d']['ty']), fr['s']),
                                           'at': t.get('at')})
            res = []
            for s, kk, v in outs:
                if kk == 'panic':
                    res.append((s, ('panic', v)))
                elif t['t'] is not None:
                    if s is st:
                        s = s.fork()
                    self.assign(s, fr, t['d'], v)
                    res.append((s, t['t']))
            return res
        if k == 'resume':
            return []
        raise Exception('terminator ' + k)

    def assign(self, st, fr, pl, v):
        if not pl['p']:
            st.mem[(fr['id'], pl['l'])] = self.type_dom(fr['b']['tt'].get(pl['ty']), v)
            return
        self.store(st, self.loc(st, fr, pl), v)

    def switch(self, st, fr, t):
        v = self.deref(st, self.operand(st, fr, t['o']))
        out = []
        span = t['span']
        if v[0] == 'int' or v[0] == 'bool':
            n = v[1] if v[0] == 'int' else int(v[1])
            for x, tgt in t['ts']:
                if x == n:
                    return [(st, tgt)]
            return [(st, t['else'])]
        if v[0] == 'discr':
            return self.switch_discr(st, v, t)
        ty = fr['b']['tt'].get(t['ty'])
        if ty == ('prim', 'bool'):
            tt = dict((x, tgt) for x, tgt in t['ts'])
            for val in (True, False):
                tgt = tt.get(int(val), t['else'])
                for s in self.split(st, v, val):
                    s.trail = s.trail + (span,)
                    out.append((s, tgt))
            return out
        # integers / chars
        self.type_dom(ty, v)
        rest = []
        for x, tgt in t['ts']:
            s = st.fork()
            if s.assume(compare(v, INT(x), EQ0)):
                s.trail = s.trail + (span,)
                out.append((s, tgt))
            rest.append((x, x))
        s = st.fork()
        if s.assume(compare(v, INT(0), iv_not(iv_norm(rest)))):
            s.trail = s.trail + (span,)
            out.append((s, t['else']))
        return out

    def split(self, st, v, val):
        """states in which boolean v has truth val"""
        if v[0] == 'not':
            return self.split(st, v[1], not val)
        if v[0] == 'and' and not val:
            # first false conjunct decides
            out = []
            cur = [st]
            for x in v[1]:
                nxt = []
                for s in cur:
                    out.extend(self.split(s, x, False))
                    nxt.extend(self.split(s, x, True))
                cur = nxt
            return out
        if v[0] == 'and' and val:
            cur = [st]
            for x in v[1]:
                cur = [s2 for s in cur for s2 in self.split(s, x, True)]
            return cur
        if v[0] == 'xor':
            out = []
            for a in (True, False):
                for s in self.split(st, v[1], a):
                    out.extend(self.split(s, v[2], a ^ val))
            return out
        if v[0] == 'ite':
            out = []
            for c in (True, False):
                for s in self.split(st, v[1], c):
                    out.extend(self.split(s, v[2] if c else v[3], val))
            return out
        s = st.fork()
        return [s] if s.assume(v, val) else []

    def switch_discr(self, st, v, t):
        out = []
        term, path = v[1], v[2]
        hook = self.nat.discr_hook(self, st, term)
        if hook is not None:
            for s, variant in hook:
                for x, tgt in t['ts']:
                    if x == variant:
                        out.append((s, tgt))
                        break
                else:
                    out.append((s, t['else']))
            return out
        uni = T.UNIVERSE.get(path)
        if uni is None:
            uni = tuple(sorted(x for x, _ in t['ts'])) + (10 ** 6,)
        conv = (lambda i: [255, 0, 1][i]) if path == 'core::cmp::Ordering' else (lambda i: i)
        byt = {}
        listed = {x: tgt for x, tgt in t['ts']}
        for i in uni:
            byt.setdefault(listed.get(conv(i), t['else']), []).append(i)
        for tgt, vs in byt.items():
            if tgt == t['else']:
                # an otherwise branch to `unreachable` is not a path
                pass
            s = st.fork()
            if s.assume(isvar(term, tuple(vs), uni)):
                s.trail = s.trail + (t['span'],)
                out.append((s, tgt))
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, info):
        if f[0] == 'clo':
            return self.call_closure(st, f, args)
        if f[0] != 'fn':
            f2 = self.deref(st, f)
            if f2[0] == 'clo':
                return self.call_closure(st, f, args)
            if f2[0] == 'fn':
                f = f2
            else:
                return self.opaque_call(st, 'dyncall', [f2] + args, info)
        path, substs, (pretty, rp, ra, trait) = f[1], f[2], f[3]
        name = norm_pretty(pretty)
        info = dict(info, name=name, path=path, substs=substs, trait=trait, pretty=pretty)
        # user supplied models
        for key_ in (rp, path):
            if key_ and key_ in self.extra:
                return self.extra[key_](self, st, args, info)
        if name in self.extra:
            r = self.extra[name](self, st, args, info)
            if r is not None:
                return r
        # constructor functions
        c = self.ctor(path)
        if c:
            return [(st, 'ret', self.mk_adt(c[0], c[1], tuple(args)))]
        # local bodies
        if trait is None and path in self.prog.bodies:
            return self.local(st, path, substs, args, info)
        if trait is not None:
            tgt = self.dispatch(st, path, trait, substs, args, rp, ra)
            if tgt:
                return self.local(st, tgt[0], tgt[1], args, info)
        elif rp and rp in self.prog.bodies:
            return self.local(st, rp, ra, args, info)
        n = self.nat.NATIVES.get(name)
        if n is not None:
            r = n(self, st, args, info)
            if r is not None:
                return r
        # default methods of local traits
        if trait is not None and path in self.prog.bodies:
            return self.local(st, path, substs, args, info)
        if path in self.prog.bodies:
            return self.local(st, path, substs, args, info)
        if trait is None or not (trait.startswith('pango')):
            self.unknown.add(name)
        return self.opaque_call(st, name, args, info)

    def ctor(self, path):
        if path in self.prog.adts:
            a = self.prog.adts[path]
            if a['k'] == 'struct':
                return (path, 0)
        for suf in ('::{constructor#0}', '::{ctor}', '::{{constructor}}'):
            if path.endswith(suf):
                p = path[:-len(suf)]
                if p in self.prog.adts:
                    return (p, 0)
                head, _, last = p.rpartition('::')
                if head in self.prog.adts:
                    for i, v in enumerate(self.prog.adts[head]['v']):
                        if v['n'] == last:
                            return (head, i)
        return None

    def dispatch(self, st, path, trait, substs, args, rp, ra):
        """-> (body path, substs) of a local impl, or None"""
        if rp and rp in self.prog.bodies and rp != path:
            return rp, ra
        if trait in ('core::cmp::PartialEq', 'core::hash::Hash', 'core::cmp::Ord', 'core::cmp::PartialOrd') and substs and self.nat.by_address(substs[0]):
            return None
        # by the dynamic value of self
        cands = []
        if args:
            v = self.deref(st, args[0])
            p = v[1] if v[0] == 'adt' else T.ADT_OF.get(v)
            if v[0] == 'with':
                p = T.ADT_OF.get(v[1])
            if p:
                cands = [i for i in self.prog.impl_of.get((trait, p), []) if path in i['items']]
        self_t = substs[0] if substs else None
        while self_t and self_t[0] == 'ref':
            self_t = self_t[2]
        if not cands and self_t and self_t[0] == 'adt':
            cands = [i for i in self.prog.impl_of.get((trait, self_t[1]), []) if path in i['items']]
        best = []
        for i in cands:
            m = {}
            if substs and all(tunify(a, b, m) for a, b in zip(i['targs'][1:], substs[1:])):
                m2 = dict(m)
                if substs and tunify(i['targs'][0], substs[0], m2):
                    m = m2
                best.append((i, m))
        if len(best) == 1 or (best and all(len(x[0]['targs']) == 1 for x in best)):
            i, m = best[0]
            n = max(m) + 1 if m else 0
            return i['items'][path], tuple(m.get(k, ("'",)) for k in range(n))
        return None

    def local(self, st, path, substs, args, info):
        b = self.prog.bodies[path]
        if self.stack.count(path) >= (4 if self.ground(st, args) else 1) or self.opaque(path) or len(self.stack) > 60:
            return self.opaque_call(st, path, args, info)
        if b['derived']:
            nm = b['name']
            n = self.nat.DERIVED.get(nm)
            if n:
                return n(self, st, args, info)
        return self.call_body(st, b, args, substs)

    def ground(self, st, args):
        """recursion on a constant self (a value without symbols) is followed"""
        v = self.deref(st, args[0]) if args else UNIT
        return v[0] == 'adt' and not any(x[0] not in ('adt', 'int', 'bool') for x in subterms(v))

    def opaque_call(self, st, name, args, info):
        st = st.fork()
        vals = tuple(self.freeze(st, a) for a in args)
        res = ('app', name) + vals
        if info.get('dty'):
            t = info['dty']
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'adt':
                T.ADT_OF.setdefault(res, t[1])
            if t == ('prim', 'bool'):
                pass
            self.type_dom(t, res)
        mut = []
        for i, a in enumerate(args):
            if a[0] == 'ref':
                r = self.last_ref(st, a)
                if r:
                    mut.append((r, ('post', name, i, vals)))
            elif a[0] in ('clo', 'tup', 'adt'):
                # references captured inside
                for x in subterms(a):
                    if x[0] == 'ref':
                        r = self.last_ref(st, x)
                        if r:
                            mut.append((r, ('post', name, (i, key(x)), vals)))
        for r, v in mut:
            self.store(st, r, v)
        if info.get('dty') and info['dty'] == ('prim', '!'):
            return [(st, 'panic', ('diverge', info.get('span'), self.stack[-1] if self.stack else '?'))]
        st.ev = st.ev + (('call', name, vals, res, info.get('span')),)
        return [(st, 'ret', res)]

    def freeze(self, st, v, d=0):
        """value with references replaced by what they point to"""
        if not isinstance(v, tuple) or not v or d > 40:
            return v
        if v[0] == 'ref':
            return self.freeze(st, self.deref(st, v), d + 1)
        if v[0] == 'adt':
            return ('adt', v[1], v[2], tuple(self.freeze(st, x, d + 1) for x in v[3]))
        if v[0] == 'tup':
            return ('tup', tuple(self.freeze(st, x, d + 1) for x in v[1]))
        if v[0] == 'clo':
            return v[:3] + (tuple(self.freeze(st, x, d + 1) for x in v[3]),)
        if v[0] in ('it', 'iter'):
            return v[:1] + tuple(self.freeze(st, x, d + 1) if isinstance(x, tuple) else x for x in v[1:])
        if v[0] == 'seq':
            return mk_seq([(a, self.freeze(st, x, d + 1)) for a, x in v[1]])
        return v

    def call_closure(self, st, f, args):
        """f: closure value or reference to one; args: list of argument values"""
        c = self.deref(st, f)
        if c[0] == 'fn':
            return self.call(st, c, args, {'span': None})
        if c[0] != 'clo':
            return self.opaque_call(st, 'dyncall', [c] + list(args), {})
        b = self.prog.bodies.get(c[1])
        if b is None:
            return self.opaque_call(st, c[1], [c] + list(args), {})
        if self.stack.count(c[1]) >= 1:
            return self.opaque_call(st, c[1], [c] + list(args), {})
        want = b['ltys'][1]
        tmp = None
        if want[0] == 'ref' and want[1]:
            if f[0] == 'ref':
                me = self.last_ref(st, f)
            else:
                st = st.fork()
                tmp = self.new_root(st, c, 'clo')
                me = ('ref', tmp, ())
        else:
            me = c
        outs = self.call_body(st, b, [me] + list(args), c[2])
        if tmp:
            for s, _, _ in outs:
                s.mem.pop(tmp, None)
        return outs

    # ------------------------------------------------------------ comprehension helpers
    def fork_opt(self, st, v):
        """[(state, payload or None)] for an Option value"""
        v = self.deref(st, v)
        if v[0] == 'adt':
            return [(st, v[3][0] if v[2] == 1 else None)]
        out = []
        T.ADT_OF.setdefault(v, OPT)
        s = st.fork()
        if s.assume(isvar(v, (1,), (0, 1))):
            out.append((s, fld(v, 1, 0)))
        s = st.fork()
        if s.assume(isvar(v, (0,), (0, 1))):
            out.append((s, None))
        return out

    def fork_bool(self, st, v):
        if v[0] == 'bool':
            return [(st, v[1])]
        return [(s, val) for val in (True, False) for s in self.split(st, v, val)]

    def pure_lambda(self, st, f, make):
        """evaluates closure f on a generic element.  make(state, bv) -> outcomes.
        Returns (bv, [(guards, value)]) or None when it has effects or panics."""
        bv = ('bv', 't%d' % next(self.bvs))
        s0 = st.fork()
        base = s0.facts()
        mem0 = dict(s0.mem)
        outs = make(s0, bv)
        res = []
        pan = []
        for s, k, v in outs:
            gs = tuple(sorted((g for g in s.facts() if g not in base), key=key))
            if k == 'panic':
                pan.append((s, v))
                continue
            if any(s.mem.get(r) != x for r, x in mem0.items()):
                return None
            v = self.freeze(s, v)
            if v[0] in ('it',) or True:
                res.append((gs, v))
            if s.ev != s0.ev:
                for e in s.ev[len(s0.ev):]:
                    if e[0] == 'call' and not pure_name(e[1]):
                        return None
        return bv, res, pan


def untouched(m):
    """a map of sets without the empty entry that is made before its elements are added"""
    if m[0] == 'mapins' and m[3] == mapgetor(m[1], m[2], ESET):
        return m[1]
    return m


def count_of(v):
    """remaining iterations of a counted iterator value"""
    if v[0] == 'iter' and v[1] == 'take' and v[3][0] == 'int':
        return v[3][1]
    if v[0] == 'adt' and v[1] in ('core::ops::range::Range', 'core::ops::range::RangeInclusive') and len(v[3]) >= 2 \
            and v[3][0][0] == 'int' and v[3][1][0] == 'int':
        return max(0, v[3][1][1] - v[3][0][1] + (1 if v[1].endswith('Inclusive') else 0))
    if v[0] == 'it' and v[1][0] in ('seq', 'str'):
        ss = segs(v[1])
        if all(x[0] == 'one' for x in ss):
            return len(ss)
    if v[0] == 'int':
        return v[1]
    return None


def small_counter(v, zero=False, top=8):
    c = count_of(v)
    return c is not None and (0 if zero else 1) <= c <= top and v[0] != 'int'


def pure_name(n):
    return True


def narrowing(fm, to):
    w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'char': 21, 'i8': 7, 'i16': 15,
         'i32': 31, 'i64': 63, 'isize': 63, 'bool': 1, 'i128': 127}
    if fm[0] != 'prim' or to[0] != 'prim':
        return False
    return w.get(fm[1], 0) > w.get(to[1], 0)


def join_exact(states):
    """joins states with equal memory when the union of their facts is again a
    conjunction of facts"""
    ss = list(states)
    changed = len(ss) > 1
    while changed:
        changed = False
        for i in range(len(ss)):
            for j in range(i + 1, len(ss)):
                n = join2(ss[i], ss[j])
                if n is not None:
                    ss[i] = n
                    del ss[j]
                    changed = True
                    break
            if changed:
                break
    return ss


def join2(a, b):
    fa, fb = a.facts(), b.facts()
    if fa <= fb:
        return a
    if fb <= fa:
        return b
    da, db = fa - fb, fb - fa
    if len(da) == 1 and len(db) == 1:
        x, y = next(iter(da)), next(iter(db))
        m = guard_not_compl(x, y)
        if m is None:
            return None
        s = a.fork()
        del {'V': s.V, 'I': s.I, 'A': s.A}[x[0]][x[1]]
        for g in m:
            if g[0] == 'V':
                s.V[g[1]] = (g[2], g[3])
            elif g[0] == 'I':
                s.I[g[1]] = g[2]
            else:
                s.A[g[1]] = g[2]
        return s
    return None
