"""Where the pointers in a value come from.

For every local of every body the set of origins of the pointers its value
holds: ('own', l) points into storage owned by the local l of the same body,
('arg', k) is something the caller reaches through argument k, ('self',) points
into what the value itself owns behind a stable allocation.  The sets are found
by a fixpoint over all bodies, without order of statements and without fields;
types tell apart what a pointer can point to.  Calls into the standard library
can put everything they are given into everything they may change."""
from program import succs, tsubst

STABLE = ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc')
SHARED = ('alloc::rc::Rc', 'alloc::sync::Arc')
PLAIN = ('core::marker::PhantomData', 'core::marker::PhantomPinned', 'alloc::alloc::Global')
WEAK = ('alloc::rc::Weak', 'alloc::sync::Weak')
NONNULL = 'core::ptr::non_null::NonNull'
ANY = ('any',)


def norm(t):
    """type parameters by name"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'param':
        return ('param', t[2] if len(t) > 2 else t[1])
    return tuple(norm(x) for x in t)


def elem(t):
    """the element of a slice or array behind a pointer"""
    while t[0] in ('slice', 'array'):
        t = t[1]
    return t


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.caps = {}
        self.hidden = {}
        for b in prog.bodies.values():
            tt = b['tt']
            for r, h in list(tt.hidden.items()):
                self.hidden[norm(r)] = norm(tt.get(h))
            for bb in b['blocks']:
                for st in bb['s']:
                    if st['k'] == '=' and st['r']['k'] == 'agg' and st['r']['a']['k'] == 'closure':
                        ts = [norm(op_type(b, o)) for o in st['r']['o']]
                        self.caps.setdefault(st['r']['a']['p'], ts)

    def parts(self, t):
        """(by value parts, pointees, raw pointees, alias)"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = ((), (), ())
        k = t[0]
        val, ref, raw = (), (), ()
        if k == 'ref':
            ref = (t[2],)
        elif k == 'ptr':
            raw = (t[2],)
        elif k in ('slice', 'array'):
            val = (t[1],)
        elif k == 'tuple':
            val = tuple(t[1])
        elif k == 'closure':
            val = tuple(self.caps.get(t[1], ()))
        elif k == 'alias' or k == 'other':
            h = self.hidden.get(t)
            if h is not None:
                val = (h,)
            else:
                ref = (ANY,)
        elif k == 'dyn':
            ref = (ANY,)
        elif k == 'adt':
            p, args = t[1], t[2]
            ts = tuple(x for x in args if x != ("'",))
            a = self.prog.adts.get(p)
            if p in PLAIN:
                pass
            elif p == NONNULL or p in WEAK:
                raw = ts[:1]
            elif a and a['local']:
                val = tuple(norm(tsubst(f['ty'], args)) for v in a['v'] for f in v['f'] if f['ty'])
            elif ("'",) in args and not p.endswith('::Cow') and not p.endswith('::Drain'):
                ref = ts
            else:
                val = ts
        self.memo[t] = (val, ref, raw)
        return self.memo[t]

    def owned(self, t, through=lambda t: True, seen=None):
        """t and everything it owns by value"""
        seen = seen if seen is not None else set()
        if t in seen:
            return seen
        seen.add(t)
        if through(t):
            for x in self.parts(t)[0]:
                self.owned(x, through, seen)
        return seen

    def heart(self, t):
        """the stable allocations of t, or all its parts if it has none"""
        o = self.owned(t)
        return {u for u in o if u[0] == 'adt' and u[1] in STABLE} or o

    def owns(self, t, x):
        return x == ANY or elem(x) in self.owned(t) or x in self.owned(t)

    def loose(self, t, x):
        """t owns x without a stable allocation in between"""
        o = self.owned(t, lambda u: not (u[0] == 'adt' and u[1] in STABLE))
        o = {u for u in o if not (u[0] == 'adt' and u[1] in STABLE)}
        return elem(x) in o or x in o

    def raws(self, t):
        return {y for x in self.owned(t) for y in self.parts(x)[2]}

    def pointees(self, t):
        """everything behind the pointers of t, at any depth"""
        out, todo = set(), [t]
        while todo:
            for x in self.owned(todo.pop()):
                for y in self.parts(x)[1] + self.parts(x)[2]:
                    if y not in out:
                        out.add(y)
                        todo.append(y)
        return out

    def surely(self, t):
        """what every value of type t owns"""
        out, todo = set(), [t]
        while todo:
            u = todo.pop()
            if u in out:
                continue
            out.add(u)
            if u[0] == 'tuple':
                todo += u[1]
            elif u[0] == 'adt' and u[1] in STABLE + ('core::pin::Pin',):
                todo += [x for x in u[2][:1]]
            elif u[0] == 'adt':
                a = self.prog.adts.get(u[1])
                if a and a['local'] and len(a['v']) == 1:
                    todo += self.parts(u)[0]
            elif u[0] == 'closure':
                todo += self.parts(u)[0]
        return out

    def reaches(self, t, x):
        return any(y == ANY or self.owns(y, x) for y in self.pointees(t))


def op_type(b, o):
    if o['k'] in ('copy', 'move'):
        return b['tt'].get(o['p']['ty'])
    return b['tt'].get(o['ty']) if 'ty' in o else ('other', '?')


def is_ptr(t):
    return t[0] in ('ref', 'ptr')


# functions that keep what they are given
TOTAL = ('Some', 'Ok', 'into', 'from', 'map', 'ok', 'ok_or', 'ok_or_else', 'map_err', 'new', 'pin', 'zip')


class Prov:
    def __init__(self, prog, only):
        self.T = Types(prog)
        self.bodies = {p: b for p, b in prog.bodies.items() if b['crate'] == only}
        self.B = {p: Body(self, b) for p, b in self.bodies.items()}
        changed = True
        n = 0
        while changed and n < 40:
            n += 1
            changed = False
            for x in self.B.values():
                if x.run():
                    changed = True
        self.rounds = n

    def callee(self, f):
        if f['k'] != 'const':
            return None
        return self.B.get(f.get('rp') or f.get('fn')) or self.B.get(f.get('fn'))


class Body:
    def __init__(self, P, b):
        self.P, self.T, self.b = P, P.T, b
        self.ty = [norm(t) for t in b['ltys']]
        n = len(self.ty)
        self.O = [set() for _ in range(n)]      # origins of the pointers in the value
        self.C = [set() for _ in range(n)]      # locals whose ownership may be inside
        self.st = {}                            # argument -> origins stored behind it
        self.stc = {}                           # argument -> locals moved behind it
        self.mut = set()
        for k in range(1, b['argc'] + 1):
            if self.T.pointees(self.ty[k]):
                self.O[k].add(('arg', k))
        self.must = {}
        self.consts = self.promotable()
        for bb in b['blocks']:
            for s in bb['s']:
                if s['k'] == '=' and s['r']['k'] in ('ref', 'rawptr') and ('mut' in s['r']['m'].lower()):
                    self.mut.add(s['r']['p']['l'])

    def promotable(self):
        """temporaries that only ever hold a constant"""
        ok, bad = set(), set(self.b['named']) | set(range(self.b['argc'] + 1))
        for bb in self.b['blocks']:
            for s in bb['s']:
                if s['k'] != '=':
                    continue
                l, r = s['p']['l'], s['r']
                if not s['p']['p'] and (r['k'] == 'agg' and all(o['k'] == 'const' for o in r['o']) or r['k'] == 'use' and r['o']['k'] == 'const'):
                    ok.add(l)
                else:
                    bad.add(l)
                if r['k'] in ('ref', 'rawptr') and 'mut' in r['m'].lower():
                    bad.add(r['p']['l'])
            if bb['t']['k'] == 'call':
                bad.add(bb['t']['d']['l'])
        return ok - bad

    # ------------------------------------------------------------ values
    def load(self, S):
        out = set()
        for o in S:
            out |= self.O[o[1]] if o[0] == 'own' else {o}
        return out

    def reach(self, S):
        out, todo = set(), list(S)
        while todo:
            o = todo.pop()
            if o in out:
                continue
            out.add(o)
            if o[0] == 'own':
                todo += self.O[o[1]]
        return out

    def val(self, p):
        S = set(self.O[p['l']])
        for e in p['p']:
            if e[0] == '*' and is_ptr(norm(self.b['tt'].get(e[1]))):
                S = self.load(S)
        return S

    def addr(self, p):
        """origins of a pointer to the place"""
        i = max((n for n, e in enumerate(p['p']) if e[0] == '*' and is_ptr(norm(self.b['tt'].get(e[1])))), default=None)
        if i is None:
            return {('static',)} if p['l'] in self.consts else {('own', p['l'])}
        return self.val({'l': p['l'], 'p': p['p'][:i]})

    def op(self, o):
        return self.val(o['p']) if o['k'] in ('copy', 'move') else set()

    def opc(self, o):
        """what is moved with an operand"""
        if o['k'] != 'move':
            return set()
        l = o['p']['l']
        return self.C[l] | {l}

    def fit(self, S, t):
        """the origins that a pointer in a value of type t can have"""
        ps = self.T.pointees(t)
        if not ps:
            return set()
        if ANY in ps:
            return set(S)
        out = set()
        for o in S:
            if o[0] == 'own':
                if any(self.T.owns(self.ty[o[1]], x) for x in ps):
                    out.add(o)
            elif o[0] == 'arg':
                if any(self.T.reaches(self.ty[o[1]], x) for x in ps):
                    out.add(o)
            else:
                out.add(o)
        return out

    def fitc(self, C, t):
        """the moved locals that a value of type t can hold"""
        own = self.T.owned(t)
        if any(x[0] in ('alias', 'dyn') for x in own):
            return set(C)
        return {l for l in C if self.T.heart(self.ty[l]) & own}

    # ------------------------------------------------------------- updates
    def put(self, p, S, C):
        """a value with origins S is written to the place"""
        i = max((n for n, e in enumerate(p['p']) if e[0] == '*' and is_ptr(norm(self.b['tt'].get(e[1])))), default=None)
        if i is None:
            self.add(p['l'], S, C)
        else:
            self.behind(self.val({'l': p['l'], 'p': p['p'][:i]}), S, C)

    def add(self, l, S, C=()):
        S = self.fit(S, self.ty[l])
        C = self.fitc(set(C) - {l}, self.ty[l])
        if not S <= self.O[l] or not C <= self.C[l]:
            self.O[l] |= S
            self.C[l] |= C
            self.changed = True

    def behind(self, ptrs, S, C=()):
        """values with origins S are stored behind the pointers"""
        for o in ptrs:
            if o[0] == 'own':
                self.add(o[1], S, C)
            elif o[0] == 'arg':
                k = o[1]
                ts = self.T.pointees(self.ty[k])
                S2 = {x for x in S if x != o and any(self.fit({x}, t) for t in ts if t != ANY)}
                C2 = {l for l in C if any(self.fitc({l}, t) for t in ts if t != ANY)}
                a, c = self.st.setdefault(k, set()), self.stc.setdefault(k, set())
                if not S2 <= a or not C2 <= c:
                    a |= S2
                    c |= C2
                    self.changed = True

    def run(self):
        self.changed = False
        for bb in self.b['blocks']:
            if bb['cleanup']:
                continue
            for s in bb['s']:
                if s['k'] == '=':
                    S, C = self.rvalue(s['r'])
                    self.put(s['p'], S, C)
            if bb['t']['k'] == 'call':
                self.call(bb['t'])
        return self.changed

    def rvalue(self, r):
        k = r['k']
        if k in ('use', 'cast', 'repeat'):
            return self.op(r['o']), self.opc(r['o'])
        if k in ('ref', 'rawptr'):
            return self.addr(r['p']), set()
        if k == 'agg':
            S, C = set(), set()
            for o in r['o']:
                S |= self.op(o)
                C |= self.opc(o)
            return S, C
        return set(), set()

    def call(self, t):
        f = self.P.callee(t['f'])
        args = [self.op(o) for o in t['a']]
        moved = [self.opc(o) for o in t['a']]
        if t['f']['k'] != 'const':
            args.append(self.op(t['f']))
            moved.append(set())
            f = None
        if f is not None and not f.b['closure']:
            def sub(S):
                out = set()
                for o in S:
                    if o[0] == 'arg':
                        out |= self.reach(args[o[1] - 1]) if o[1] - 1 < len(args) else set()
                    elif o[0] == 'own':
                        if o[1] in f.C[0] | {0}:
                            out.add(('self',))
                        elif o[1] <= f.b['argc'] and o[1] > 0 and any(o[1] in c for c in f.stc.values()):
                            out.add(('self',))
                        else:
                            out.add(('static',))
                    else:
                        out.add(o)
                return out
            S = sub(f.O[0])
            if ('self',) in S:
                S = S - {('self',)}
                if not t['d']['p']:
                    S.add(('own', t['d']['l']))
            C = set()
            for k in f.C[0]:
                if 0 < k <= f.b['argc'] and k - 1 < len(moved):
                    C |= moved[k - 1]
            self.put(t['d'], S, C)
            for k, S in f.st.items():
                if k - 1 < len(args):
                    C = set()
                    for j in f.stc.get(k, ()):
                        if 0 < j <= f.b['argc'] and j - 1 < len(moved):
                            C |= moved[j - 1]
                    self.behind(args[k - 1], sub(S) - {('self',)}, C)
            return
        every, moves = set(), set()
        for S, C in zip(args, moved):
            every |= self.reach(S)
            moves |= C
        self.put(t['d'], every, moves)
        for o in every:
            if o[0] == 'own' and o[1] in self.mut:
                self.add(o[1], every - {o}, moves)
        for S, ty in zip(args, t['at']):
            ty = norm(self.b['tt'].get(ty))
            if ty[0] == 'ref' and ty[1] or any(x[0] == 'ref' and x[1] for x in self.T.owned(ty)):
                self.behind({o for o in self.reach(S) if o[0] == 'arg'}, every, moves)

    # ------------------------------------------------------- owners on all paths
    def together(self, l):
        """Whether pointers into l leave with l itself on every path: (the result
        surely owns what l owned, every pointer into l in it is in its company)."""
        if l in self.must:
            return self.must[l]
        self.must[l] = (False, False)
        heart = self.T.heart(self.ty[l])
        n = len(self.ty)
        raws = [l in {o[1] for o, _ in self.raw(self.O[d], self.ty[d]) if o[0] == 'own'} if d != l else False for d in range(n)]
        if l <= self.b['argc']:
            raws = [r or d != l and any(o == ('arg', l) for o, _ in self.raw(self.O[d], self.ty[d])) for d, r in enumerate(raws)]
        holds = [bool(heart & self.T.owned(t)) for t in self.ty]
        top = frozenset(range(n))
        argc = self.b['argc']
        start = (frozenset(d for d in range(n) if d == l or d > argc or d == 0), frozenset(d for d in range(n) if d == l or d > argc or d == 0 or not raws[d]))
        ins = {0: start}
        todo = [0]
        out = None
        while todo:
            i = todo.pop()
            M, good = (set(x) for x in ins[i])
            bb = self.b['blocks'][i]
            for s in bb['s']:
                if s['k'] == '=':
                    self.step(l, s['p'], *self.given(l, s['r'], M, good, raws, heart), M, good, holds, raws)
            t = bb['t']
            if t['k'] == 'call':
                self.step(l, t['d'], *self.returned(l, t, M, good, raws, heart), M, good, holds, raws)
            if t['k'] == 'return':
                a = (0 in M, 0 in good)
                out = a if out is None else (out[0] and a[0], out[1] and a[1])
            for j in succs(t):
                if j is None or self.b['blocks'][j]['cleanup']:
                    continue
                new = (frozenset(M), frozenset(good))
                if j in ins:
                    new = (ins[j][0] & new[0], ins[j][1] & new[1])
                    if new == ins[j]:
                        continue
                ins[j] = new
                todo.append(j)
        self.must[l] = out or (True, True)
        return self.must[l]

    def step(self, l, p, m, g, M, good, holds, raws):
        d = p['l']
        if any(e[0] == '*' for e in p['p']):
            return
        if d == l and not p['p']:
            M.add(d)
            good.add(d)
            return
        m = m and holds[d]
        g = g and (holds[d] or not raws[d]) or m
        if p['p']:
            m = m or d in M
            g = m or g and d in good
        (M.add if m else M.discard)(d)
        (good.add if g else good.discard)(d)

    def ops(self, l, os, M, good, raws, heart):
        m, g = False, True
        for o in os:
            if o['k'] not in ('copy', 'move'):
                continue
            p = o['p']
            t = norm(self.b['tt'].get(p['ty']))
            if o['k'] == 'move' and p['l'] in M and heart & self.T.owned(t):
                m = True
            elif raws[p['l']] and self.raw({('own', l), ('arg', l)} if l <= self.b['argc'] else {('own', l)}, t):
                g = g and p['l'] in good and bool(heart & self.T.owned(t))
        return m, m or g

    def rawtype(self, u):
        return [('ptr', True, y) for y in self.T.parts(u)[2]]

    def given(self, l, r, M, good, raws, heart):
        if r['k'] in ('use', 'cast', 'repeat'):
            return self.ops(l, [r['o']], M, good, raws, heart)
        if r['k'] == 'agg':
            return self.ops(l, r['o'], M, good, raws, heart)
        return False, True

    def returned(self, l, t, M, good, raws, heart):
        m, g = self.ops(l, t['a'], M, good, raws, heart)
        f = self.P.callee(t['f'])
        d = norm(self.b['tt'].get(t['d']['ty']))
        if f is not None and not f.b['closure']:
            for k, o in enumerate(t['a'], 1):
                if o['k'] == 'move' and o['p']['l'] in M and heart & self.T.owned(norm(self.b['tt'].get(o['p']['ty']))):
                    return f.together(k)
        elif m and not heart & self.T.surely(d):
            name = (t['f'].get('rp') or t['f'].get('fn') or '?').split('::')[-1]
            m = name in TOTAL
            # pointers and owner go along in a value that holds both
            us = {u for o in t['a'] if o['k'] == 'move' and o['p']['l'] in M for u in self.T.owned(norm(self.b['tt'].get(o['p']['ty']))) if heart & self.T.owned(u)}
            rest = self.T.owned(d, lambda u: u not in us) - us
            return m, m or not any(self.raw({('own', l)}, ('tuple', tuple(self.rawtype(u)))) for u in rest)
        S = self.reach(set().union(*[self.op(o) for o in t['a']])) & {('own', l)}
        if not m and S and self.raw(S, d):
            g = g and any(o['k'] == 'move' and raws[o['p']['l']] for o in t['a'])
        return m, g

    # -------------------------------------------------------------- results
    def raw(self, S, t):
        """origins of raw pointers in a value of type t: [(origin, pointee)]"""
        out = []
        for x in self.T.raws(t):
            for o in sorted(S):
                if o[0] == 'own' and self.T.owns(self.ty[o[1]], x) or o[0] == 'arg' and (self.T.reaches(self.ty[o[1]], x)):
                    out.append((o, x))
        return out
