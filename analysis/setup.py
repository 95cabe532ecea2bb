"""Unknown inputs: symbolic arguments shaped by their types."""
from terms import *
import terms as T
from natives import container, COW
from program import tsubst

ITERS = ('core::iter::adapters::peekable::Peekable', 'alloc::vec::into_iter::IntoIter', 'core::str::iter::Chars',
         'core::iter::adapters::enumerate::Enumerate', 'core::slice::iter::Iter')


def sym_of(I, ty, name, depth=0, skip=()):
    """unknown value of a type: structs of the program are opened"""
    while ty[0] in ('ref', 'ptr'):
        ty = ty[2]
    if ty[0] == 'adt':
        p = ty[1]
        if p in ITERS:
            return ('it', sym(name))
        if p in ('alloc::boxed::Box', 'core::pin::Pin', 'core::ptr::non_null::NonNull'):
            return sym_of(I, ty[2][0], name, depth, skip)
        if p == COW:
            x = [a for a in ty[2] if a != ("'",)]
            return ('adt', COW, 0, (sym_of(I, x[0], name, depth, skip),))
        a = I.prog.adts.get(p)
        if a and a['k'] == 'struct' and p.startswith('pango') and p not in skip and depth < 6:
            fs = []
            for f in a['v'][0]['f']:
                ft = tsubst(f['ty'], ty[2]) if f['ty'] else ('other', None)
                fs.append(sym_of(I, ft, name + '.' + f['n'], depth + 1, skip))
            return ('adt', p, 0, tuple(fs))
        v = sym(name)
        T.ADT_OF[v] = p
        return v
    if ty[0] == 'tuple':
        return ('tup', tuple(sym_of(I, t, '%s.%d' % (name, i), depth, skip) for i, t in enumerate(ty[1])))
    v = sym(name)
    I.type_dom(ty, v)
    return v


def argname(b, i):
    for n, pl in b['names']:
        if pl['l'] == i and not pl.get('p'):
            return n
    return 'arg%d' % i


def sym_args(I, st, b, skip=()):
    args = []
    for i in range(1, b['argc'] + 1):
        ty = b['ltys'][i]
        n = argname(b, i)
        v = sym_of(I, ty, n, 0, skip)
        if (ty[0] == 'ref' and ty[1]):
            r = I.new_root(st, v, n)
            args.append(('ref', r, ()))
        else:
            args.append(v)
    return args
