"""C23: internal pointers into the grammar stay valid."""
from common import *
from prov import *
from report import AnchorError

G = 'pango_parser::grammar::Grammar'
PIN = 'core::pin::Pin'
BOX = 'alloc::boxed::Box'
CELLS = ('Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock')
# what may be done with a mutable pointer to a pinned value
VIEWS = ('as_mut', 'as_ref', 'get_ref', 'get_unchecked_mut', 'map_unchecked', 'map_unchecked_mut', 'deref', 'deref_mut', 'into_ref', 'pin', 'new_unchecked', 'fmt', 'from',
         'into_pin', 'new')
READS = ('read', 'read_unaligned', 'read_volatile', 'transmute', 'transmute_copy', 'replace', 'take', 'swap', 'into_inner', 'write', 'copy', 'copy_nonoverlapping', 'drop_in_place')


def check(ctx):
    ctx.rule('every raw pointer that leaves a function in a value or behind an argument points into something given by the caller, or into a pinned allocation that leaves in the same value')
    ctx.rule('the part of the pinned allocation that pointers point into is never borrowed mutably, assigned, moved out or replaced')
    ctx.rule('the pinned type is not Unpin; no exported function returns a movable or mutable view of it, a raw pointer into what it was lent, or a reference that is not tied to an argument')
    C = Check(ctx)
    for name, f in (('kept pointers', C.kept), ('changes', C.changes), ('calls', C.calls), ('pinned', C.pinned), ('exported', C.exported), ('cells', C.cells)):
        ctx.part(name, f)


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        prog = ctx.prog
        if G not in prog.adts:
            raise AnchorError('grammar type')
        self.P = Prov(prog, 'pango_parser')
        self.T = T = self.P.T
        vt = (('param', 'V'), ('param', 'T'))
        self.g = ('adt', G, vt)
        self.parts = {t for t in T.owned(self.g) if t[0] in ('adt', 'param') and t not in (('adt', 'alloc::alloc::Global', ()),) and t != ('param', 'V')} - {('param', 'S')}
        self.parts = {t for t in self.parts if T.owns(t, ('param', 'T'))}
        local = [('adt', p, vt[:nparams(prog, p)]) for p, a in prog.adts.items() if a['local'] and p.startswith('pango_parser::')]
        # types that hold raw pointers into parts of the grammar
        self.holders = {t for t in local if any(x in self.parts for x in T.raws(t))}
        ctx.need(self.holders, 'types with pointers into the grammar')
        # what is kept in a pinned allocation
        self.pinned_t = {x[2][0] for b in self.P.B.values() for t in b.ty for x in T.owned(t)
                         if x[0] == 'adt' and x[1] == BOX and x[2] and x[2][0][0] == 'adt' and x[2][0] in local and T.owns(x[2][0], self.g)}
        ctx.need(self.pinned_t, 'pinned type that owns the grammar')
        self.watched = self.pinned_t | self.parts
        ctx.analysed |= set(self.P.B)
        ctx.notes['fixpoint_rounds'] = self.P.rounds
        ctx.notes['holder_types'] = sorted(x[1] for x in self.holders)
        ctx.notes['pinned_types'] = sorted(x[1] for x in self.pinned_t)

    def site(self, x, span=None):
        return '%s (%s)' % (x.b['path'], span or x.b['span'])

    # -------------------------------------------------- pointers that are kept
    def kept(self):
        for p, x in sorted(self.P.B.items()):
            name = fname(x.b)
            outs = [('the result', x.raw(x.O[0], x.ty[0]), x.C[0])]
            for k, S in x.st.items():
                r = {q for t in self.T.pointees(x.ty[k]) if t != ANY for q in x.raw(S, t)}
                outs.append(('what argument %d points to' % k, sorted(r, key=repr), x.stc.get(k, set())))
            n = bad = 0
            for where, rs, moved in outs:
                for o, t in rs:
                    if not any(self.T.owns(t, q) or self.T.owns(q, t) for q in self.parts):
                        continue
                    n += 1
                    if o[0] == 'own':
                        l = lname(x.b, o[1])
                        if self.T.loose(x.ty[o[1]], t):
                            bad += 1
                            self.ctx.violate('%s keeps a pointer into %s' % (name, l), '%s holds a pointer into %s, a local that is not pinned and is moved or freed' % (where, l), self.site(x))
                        elif o[1] != 0 and where == 'the result' and o[1] in moved and not x.together(o[1])[1]:
                            bad += 1
                            self.ctx.violate('%s keeps a pointer into %s' % (name, l), '%s holds a pointer into the allocation of %s, which does not leave with it on every path' % (where, l), self.site(x))
                        elif o[1] not in moved and o[1] != 0:
                            bad += 1
                            self.ctx.violate('%s keeps a pointer into %s' % (name, l), '%s holds a pointer into the allocation of %s, which does not leave with it' % (where, l), self.site(x))
                    elif x.b['exported'] and where == 'the result' and t not in self.T.raws(x.ty[o[1]]):
                        bad += 1
                        self.ctx.violate('%s returns a pointer' % name, '%s holds a pointer into what argument %d was lent' % (where, o[1]), self.site(x))
            if n and not bad:
                self.ctx.ok('%s: %d kept pointers stay valid' % (name, n))

    # ------------------------------------------------------------ places
    def inside(self, x, p):
        """the place is behind a pointer or box and part of a pinned grammar"""
        tt = x.b['tt']
        base = x.ty[p['l']]
        deref = hit = False
        cur = base
        for e in p['p']:
            if e[0] == '*':
                ty = norm(tt.get(e[1]))
                deref = True
                if ty[0] == 'adt':
                    cur = ty[2][0] if ty[2] else cur
                else:
                    cur = ty[2]
                    if ty[0] == 'ptr' and cur in self.parts:
                        hit = True
            elif e[0] == 'f':
                ft = norm(tt.get(e[3]))
                if deref and cur in self.pinned_t and self.T.owns(ft, self.g) or deref and cur in self.pinned_t and ft in self.parts:
                    hit = True
                cur = ft
        return deref, hit, cur

    def changes(self):
        n = 0
        for p, x in sorted(self.P.B.items()):
            bad = 0
            for bb in x.b['blocks']:
                if bb['cleanup']:
                    continue
                for s in bb['s']:
                    if s['k'] != '=':
                        continue
                    n += 1
                    bad += self.change(x, s['p'], 'assigned', s['span'])
                    r = s['r']
                    if r['k'] in ('ref', 'rawptr') and 'mut' in r['m'].lower():
                        bad += self.change(x, r['p'], 'borrowed mutably', s['span'])
                    for o in ([r['o']] if r['k'] in ('use', 'cast') else r['o'] if r['k'] == 'agg' else []):
                        bad += self.moved(x, o, s['span'])
                if bb['t']['k'] == 'call':
                    for o in bb['t']['a']:
                        bad += self.moved(x, o, bb['t']['span'])
            uses = any(t in self.pinned_t for y in x.ty for t in self.T.owned(y) | self.T.pointees(y))
            if uses and not bad:
                self.ctx.ok('%s: pinned grammar not changed' % fname(x.b))
        self.ctx.notes['assignments_checked'] = n

    def change(self, x, p, how, span):
        deref, hit, t = self.inside(x, p)
        ref = how != 'assigned'
        if not deref and p['p'] and how == 'assigned' and self.pin_box(t):
            hit = not self.fresh(x, p)
        elif deref and (t in self.pinned_t and not ref or self.pin_box(t) and not ref):
            hit = True
        if hit:
            self.ctx.violate('%s changes the grammar' % fname(x.b), 'a part of the pinned value of type %s is %s' % (tshow(t), how), self.site(x, span))
            return 1
        return 0

    def fresh(self, x, p):
        """the field of a local that was made here with nothing in it"""
        if len(p['p']) != 1 or p['p'][0][0] != 'f' or p['l'] <= x.b['argc']:
            return False
        def sets(l):
            return [s['r'] for bb in x.b['blocks'] for s in bb['s'] if s['k'] == '=' and s['p'] == {**s['p'], 'l': l, 'p': []}] \
                + [None for bb in x.b['blocks'] if bb['t']['k'] == 'call' and bb['t']['d']['l'] == l]
        def empty(l):
            return all(r and r['k'] == 'agg' and not r['o'] for r in sets(l))
        rs = sets(p['l'])
        i = p['p'][0][1]
        return bool(rs) and all(r and r['k'] == 'agg' and i < len(r['o']) and r['o'][i]['k'] == 'move' and not r['o'][i]['p']['p'] and empty(r['o'][i]['p']['l']) for r in rs)

    def pin_box(self, t):
        return any(u[0] == 'adt' and u[1] == BOX and u[2] and u[2][0] in self.pinned_t for u in self.T.owned(t)) and t[0] == 'adt' and t[1] in (PIN, BOX, 'core::option::Option')

    def moved(self, x, o, span):
        if o['k'] != 'move':
            return 0
        deref, hit, t = self.inside(x, o['p'])
        if deref and (hit and t in self.watched | {self.g} and t[0] == 'adt' or t in self.pinned_t):
            self.ctx.violate('%s moves the grammar' % fname(x.b), 'a value of type %s is moved out of the pinned allocation' % tshow(t), self.site(x, span))
            return 1
        return 0

    # ------------------------------------------------------------- calls
    def calls(self):
        """mutable access to pinned values given to other crates"""
        n = 0
        for p, x in sorted(self.P.B.items()):
            for bb in x.b['blocks']:
                t = bb['t']
                if t['k'] != 'call' or bb['cleanup'] or t['f']['k'] != 'const' or self.P.callee(t['f']):
                    continue
                f = (t['f'].get('rp') or t['f']['fn'])
                name = f.split('::')[-1]
                at = [norm(x.b['tt'].get(a)) for a in t['at']]
                d = norm(x.b['tt'].get(t['d']['ty']))
                for a in at:
                    n += 1
                    u = a[2][0] if a[0] == 'adt' and a[1] == PIN else a
                    why = None
                    if u[0] in ('ref', 'ptr') and u[1] and (u[2] in self.pinned_t or self.pin_box(u[2])) and name not in VIEWS:
                        why = 'a mutable pointer to the pinned value is given to %s' % name
                    elif f.startswith(NONNULL.rsplit('::', 1)[0]) and name == 'as_mut' and any(y in self.parts for y in self.T.raws(u[2] if is_ptr(u) else u)):
                        why = 'a pointer into the grammar is made mutable'
                    elif name in READS and u[0] in ('ref', 'ptr') and u[2] in self.pinned_t | {self.g} and self.from_pinned(x, t):
                        why = 'the pinned value is given to %s' % name
                    if why:
                        self.ctx.violate('%s: %s' % (fname(x.b), name), why, self.site(x, t['span']))
        self.ctx.notes['call_arguments_checked'] = n

    def from_pinned(self, x, t):
        for o in t['a']:
            for q in x.reach(x.op(o)):
                if q[0] == 'own' and any(self.T.owns(x.ty[q[1]], ('adt', BOX, (y, ('adt', 'alloc::alloc::Global', ())))) for y in self.pinned_t):
                    return True
                if q[0] == 'arg' and any(self.T.reaches(x.ty[q[1]], y) for y in self.pinned_t):
                    return True
        return False

    # --------------------------------------------------------------- types
    def pinned(self):
        prog = self.ctx.prog
        for t in sorted(self.pinned_t):
            soft = self.T.owned(t, lambda u: not (u[0] == 'adt' and u[1] in STABLE))
            name = t[1].split('::')[-1]
            hard = any(u[0] == 'adt' and u[1] == 'core::marker::PhantomPinned' for u in soft)
            imps = [i for i in prog.impls if i['trait'] == 'core::marker::Unpin' and i['targs'][0][:2] == t[:2]]
            out = [x for x in self.P.B.values() if x.b['exported'] and any(self.hands_out(x.ty[0], t))]
            if not out:
                self.ctx.ok('%s is not handed out' % name)
            elif imps:
                self.ctx.violate('%s is Unpin' % name, 'an implementation of Unpin lets the pinned value be moved', imps[0]['span'])
            elif not hard:
                self.ctx.violate('%s is Unpin' % name, 'the type has no PhantomPinned, so what %s returns can be moved' % fname(out[0].b), self.site(out[0]))
            else:
                self.ctx.ok('%s is not Unpin' % name)

    def hands_out(self, t, q):
        for u in self.T.owned(t):
            if u[0] == 'adt' and u[1] == PIN and u[2][0][0] in ('adt', 'ref') and q in u[2][0][-1 if u[2][0][0] == 'ref' else 2:]:
                yield u
            if u[0] == 'adt' and u[1] == PIN and u[2][0][0] == 'adt' and q in u[2][0][2]:
                yield u

    def exported(self):
        n = 0
        for p, x in sorted(self.P.B.items()):
            b = x.b
            if not b['exported']:
                continue
            n += 1
            bad = 0
            ins = [x.ty[k] for k in range(1, b['argc'] + 1)]
            lent = any(self.T.reaches(t, q) or self.T.owns(t, q) for t in ins for q in self.pinned_t)
            name = fname(b)
            for u in self.T.owned(x.ty[0]):
                if u in self.pinned_t and not self.covered(x.ty[0], u) or u[0] == 'adt' and u[1] == BOX and u[2][0] in self.pinned_t and not self.behind_pin(x.ty[0], u):
                    self.ctx.violate('%s hands out a movable value' % name, 'the result holds %s without a pin' % tshow(u), self.site(x))
                    bad += 1
            for u in {u for t in [x.ty[0]] for u in self.T.owned(t)}:
                if u[0] == 'ref' and u[1] and lent and not self.pinned_ref(x.ty[0], u) and any(u[2] in self.watched or self.T.owns(u[2], q) for q in self.pinned_t | {self.g}):
                    self.ctx.violate('%s hands out a mutable reference' % name, 'the result holds %s' % tshow(u), self.site(x))
                    bad += 1
            known = {r for i in b['sig_in'] for r, t in i}
            ps = self.T.pointees(x.ty[0])
            for r, t in b['sig_out'][0] if b['sig_out'] else []:
                t = norm(b['tt'].get(t)) if t is not None else None
                if t is not None and not self.relevant(t) or t is None and not any(self.relevant(y) for y in ps):
                    continue
                if r not in known:
                    self.ctx.violate('%s returns a reference without owner' % name, 'the lifetime of the result is not that of an argument', self.site(x))
                    bad += 1
            if not bad:
                self.ctx.ok('%s: exported, hands out nothing that outlives or changes the grammar' % name)
        self.ctx.need(n >= 5, 'exported functions')

    def relevant(self, t):
        return t != ANY and (any(self.T.owns(t, q) for q in self.parts if q[0] == 'adt') or self.T.raws(t) or t == ('param', 'T'))

    def covered(self, t, u):
        """u is only owned behind a box"""
        return u not in {v for v in self.T.owned(t, lambda w: not (w[0] == 'adt' and w[1] in STABLE))} or t in self.holders and t not in self.pinned_t

    def behind_pin(self, t, u):
        return u not in self.T.owned(t, lambda w: not (w[0] == 'adt' and w[1] == PIN))

    def pinned_ref(self, t, u):
        return u not in self.T.owned(t, lambda w: not (w[0] == 'adt' and w[1] == PIN))

    def cells(self):
        bad = [u for u in self.T.owned(self.g) if u[0] == 'adt' and u[1].split('::')[-1] in CELLS and any(self.T.owns(u, q) for q in self.parts)]
        if bad:
            self.ctx.unknown('cells', 'the grammar can be changed through %s' % tshow(bad[0]))
        else:
            self.ctx.ok('the grammar has no interior mutability')
        for i in self.ctx.prog.impls:
            t = norm(i['targs'][0])
            if i['trait'] == 'core::ops::drop::Drop' and (t in self.holders or t in self.pinned_t):
                self.ctx.unknown('drop', '%s has its own drop' % tshow(t))


def nparams(prog, p):
    n = 0
    todo = [f['ty'] for v in prog.adts[p]['v'] for f in v['f'] if f['ty']]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple) and t and t[0] == 'param':
            n = max(n, t[1] + 1)
        elif isinstance(t, tuple):
            todo += [x for x in t if isinstance(x, tuple)]
    return n


def fname(b):
    st = b['self_t']
    base = st[1].split('::')[-1] + '::' if st and st[0] == 'adt' else ''
    if b['closure']:
        parts = b['path'].split('::')
        return 'closure in ' + '::'.join(q for q in parts[1:] if not q.startswith('{closure') and not q.startswith('{impl'))
    return base + b['name'] + (' (%s)' % b['of_trait'].split('::')[-1] if b['of_trait'] else '')


def lname(b, l):
    for n, p in b['names']:
        if p['l'] == l and not p['p']:
            return n
    return 'a temporary' if l > b['argc'] else 'argument %d' % l


def tshow(t):
    if t[0] == 'adt':
        a = [tshow(x) for x in t[2] if x != ("'",) and x != ('adt', 'alloc::alloc::Global', ())]
        return t[1].split('::')[-1] + ('<%s>' % ', '.join(a) if a else '')
    if t[0] == 'param':
        return t[1]
    if t[0] in ('ref', 'ptr'):
        return ('&' if t[0] == 'ref' else '*') + ('mut ' if t[1] else '') + tshow(t[2])
    return str(t[1] if len(t) > 1 else t[0])
