"""Helpers shared by the property rules."""
from terms import *
import terms as T
from engine import Interp, State, Limit
from setup import sym_args, sym_of
from tables import *
from report import AnchorError

L = 'pango_lexer::'
P = 'pango_parser::'


def self_adt(b):
    t = b['self_t']
    while t and t[0] == 'ref':
        t = t[2]
    return t[1] if t and t[0] == 'adt' else None


def fns(prog, cls, name, crate=None):
    r = []
    for p, b in prog.bodies.items():
        if b['name'] != name or b['closure'] or '{closure' in p:
            continue
        if crate and not p.startswith(crate):
            continue
        a = self_adt(b)
        if cls is None or (a and a.rsplit('::', 1)[-1] == cls):
            r.append(b)
    return r


def fn(ctx, cls, name, crate=None, argc=None, pred=None):
    r = fns(ctx.prog, cls, name, crate)
    if argc is not None:
        r = [b for b in r if b['argc'] == argc]
    if pred:
        r = [b for b in r if pred(b)]
    if len(r) != 1:
        raise AnchorError('%s::%s found %d times' % (cls, name, len(r)))
    return r[0]


def adt(ctx, suffix):
    r = [p for p in ctx.prog.adts if p.endswith('::' + suffix) and p.startswith('pango')]
    if len(r) != 1:
        raise AnchorError('type %s found %d times' % (suffix, len(r)))
    return r[0]


def var(ctx, path, *names):
    try:
        return tuple(ctx.prog.variant(path, n) for n in names)
    except KeyError as e:
        raise AnchorError('variant %s of %s' % (e, path))


def uni(path):
    return T.UNIVERSE[path]


def site(b):
    return '%s (%s)' % (b['pretty'], b['span'])


def short(b):
    """stable name of a function"""
    a = self_adt(b)
    return ((a.rsplit('::', 1)[-1] + '::') if a else '') + b['name']


def interp(ctx, **kw):
    return Interp(ctx.prog, **kw)


def facts_of(st, extra=()):
    return gshow(sorted(st.facts(), key=key))


def rows_state(*conds):
    """state with the given boolean terms true; None if contradictory"""
    s = State()
    for c in conds:
        if not s.assume(c):
            return None
    return s


def opaque_in(t, allowed=()):
    """uninterpreted parts of a term, except allowed functions"""
    bad = set()
    for x in subterms(t):
        if x[0] in ('undef', 'dead', 'bad', 'post', 'phi', 'uninit') and x not in allowed:
            bad.add(x[0])
        elif x[0] == 'app' and x[1] not in allowed and not str(x[1]).startswith(('char::is_', 'cast:')):
            bad.add('app ' + str(x[1]))
    return bad
