"""Loads the MIR dump: bodies, types, impls, adts, loops."""
import json
import os
import re

from terms import NAMES, UNIVERSE


def norm_pretty(p):
    """`std::option::Option::<T>::map` -> `Option::map`"""
    s = p
    # drop generic arguments
    out = []
    depth = 0
    i = 0
    while i < len(s):
        if s.startswith('::<', i) and depth == 0 and not s.startswith('::<impl', i):
            depth = 1
            i += 3
            continue
        if depth:
            if s[i] == '<':
                depth += 1
            elif s[i] == '>' and s[i - 1] != '-':
                depth -= 1
            i += 1
            continue
        out.append(s[i])
        i += 1
    s = ''.join(out)
    s = re.sub(r'<impl \[T\]>', 'slice', s)
    s = re.sub(r'<impl ([A-Za-z0-9_]+)>', r'\1', s)
    parts = s.split('::')
    return '::'.join(parts[-2:])


class Prog:
    def __init__(self, dumpdir):
        self.bodies = {}
        self.impls = []
        self.adts = {}
        self.dumps = {}
        for c in ('pango_lexer', 'pango_parser'):
            d = json.load(open(os.path.join(dumpdir, c + '.json')))
            ty = TypeTable(d['types'])
            for b in d['bodies']:
                b['tt'] = ty
                b['crate'] = c
                b['named'] = {n[1]['l'] for n in b['names'] if not n[1].get('p')}
                b['self_t'] = ty.get(b['self_ty']) if b['self_ty'] is not None else None
                b['ltys'] = [ty.get(x) for x in b['locals']]
                self.bodies[b['path']] = b
            for i in d['impls']:
                i['targs'] = tuple(ty.get(x) if not isinstance(x, str) else ("'",) for x in i['ta'])
                i['crate'] = c
                self.impls.append(i)
            for p, a in d['adts'].items():
                if a is None:
                    continue
                if p in self.adts and not a['local']:
                    continue
                for v in a['v']:
                    for f in v['f']:
                        f['ty'] = ty.get(f['t']) if f['t'] is not None else None
                self.adts[p] = a
        for p, a in self.adts.items():
            NAMES[p] = [v['n'] for v in a['v']]
            if a['k'] == 'enum':
                UNIVERSE[p] = tuple(range(len(a['v'])))
        self.impl_of = {}
        for i in self.impls:
            st = i['targs'][0]
            self.impl_of.setdefault((i['trait'], st[1] if st[0] == 'adt' else None), []).append(i)
        for b in self.bodies.values():
            find_loops(b)

    def find(self, suffix):
        r = [b for p, b in self.bodies.items() if b['pretty'].endswith(suffix) or p.endswith(suffix)]
        return r

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]['v']):
            if v['n'] == name:
                return i
        raise KeyError(name)

    def field(self, adt, name, v=0):
        for i, f in enumerate(self.adts[adt]['v'][v]['f']):
            if f['n'] == name:
                return i
        raise KeyError(name)


class TypeTable:
    def __init__(self, js):
        self.js = js
        self.memo = {}
        self.hidden = {}

    def get(self, i):
        if i in self.memo:
            return self.memo[i]
        j = self.js[i]
        k = j['k']
        g = lambda a: tuple(self.get(x) if not isinstance(x, str) else ("'",) for x in a)
        if k == 'prim':
            r = ('prim', j['n'])
        elif k == 'adt':
            r = ('adt', j['p'], g(j['a']))
        elif k == 'ref':
            r = ('ref', j['m'], self.get(j['t']))
        elif k == 'ptr':
            r = ('ptr', j['m'], self.get(j['t']))
        elif k in ('slice', 'array'):
            r = (k, self.get(j['t']))
        elif k == 'tuple':
            r = ('tuple', g(j['a']))
        elif k in ('fndef', 'closure'):
            r = (k, j['p'], g(j['a']))
        elif k == 'param':
            r = ('param', j['i'], j['n'])
        elif k == 'dyn':
            r = ('dyn', j['p'])
        else:
            r = (k, j.get('s'))
            if j.get('h') is not None:
                self.hidden[r] = j['h']
        self.memo[i] = r
        return r


def tsubst(t, s):
    if not s or not t or not isinstance(t, tuple):
        return t
    if t[0] == 'param':
        return s[t[1]] if t[1] < len(s) and s[t[1]] != ("'",) else t
    return tuple(tsubst(x, s) if isinstance(x, tuple) else x for x in t)


def tunify(pat, t, m):
    """matches a type with params in pat against t; m: index -> type"""
    if pat[0] == 'param':
        if pat[1] in m:
            return m[pat[1]] == t or t[0] in ('alias', 'param', 'other')
        m[pat[1]] = t
        return True
    if t[0] in ('alias', 'other'):
        return True
    if pat == ("'",) or t == ("'",):
        return True
    if pat[0] != t[0] or len(pat) != len(t):
        return False
    for a, b in zip(pat, t):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a and isinstance(a[0], tuple) or not a:
                if len(a) != len(b):
                    return False
                if not all(tunify(x, y, m) for x, y in zip(a, b)):
                    return False
            elif not tunify(a, b, m):
                return False
        elif a != b:
            return False
    return True


def succs(t):
    k = t['k']
    if k in ('goto', 'drop', 'assert'):
        return [t['t']]
    if k == 'switch':
        return [x[1] for x in t['ts']] + [t['else']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    return []


def find_loops(b):
    """natural loops: header -> set of blocks"""
    blocks = b['blocks']
    color = {}
    back = []
    stack = [(0, iter(succs(blocks[0]['t'])))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(succs(blocks[s]['t']))))
                break
            elif color[s] == 1:
                back.append((n, s))
        else:
            color[n] = 2
            stack.pop()
    preds = {}
    for i, bb in enumerate(blocks):
        if i in color:
            for s in succs(bb['t']):
                preds.setdefault(s, []).append(i)
    loops = {}
    for n, h in back:
        body = loops.setdefault(h, {h})
        todo = [n]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo.extend(preds.get(x, []))
    b['loops'] = loops
