"""Shared vocabulary of the contracts: symbolic grids, index maps, small spec helpers."""
from pyvc.terms import *
from pyvc import terms as T
from pyvc.values import *
from pyvc import npmodel as NM
from pyvc.framework import contract, case, lemma, ANY, Kit, capture
from pyvc.framework import resolve, solve
import numpy as np
from fractions import Fraction


def cls(qual):
    """class object of the repository"""
    import importlib
    m, q = qual.split(':')
    return getattr(importlib.import_module(m), q)


def Q(x):
    return num(x)


def fl(p):
    return SV(p, 'float')


def arr(shape, get, dtype='f', kind='nd'):
    return Arr.of(shape, frozen_reader(get), dtype, kind)


def exc(name, msg=''):
    raise PyExc(name, msg)


def pget(o, name):
    return o.st[name]


# ------------------------------------------------------------------ grids
PSG = 'CADMium.psgrid.psgrid:Psgrid'
ABSTRACT = '_mir'      # marker attribute: the reflection is an uninterpreted involution of [0, Nelem)


def midx(grid, p):
    """index of the mirror image (z -> -z) of grid point p"""
    if grid.st.get(ABSTRACT) is not None:
        return involution('mir', p)
    Na = Q(grid.st['Na'])
    # RANGE: p = a + Na*r
    r = T.idiv(p, Na)
    a = p - Na * r
    return (Na - 1 - a) + Na * r


def grid_sizes(k, lo=1):
    Na = k.int('Na', lo)
    Nr = k.int('Nr', lo)
    return Na, Nr


def abstract_grid(k, **extra):
    """a grid as seen by its clients: Nelem points, a reflection, weights, operators"""
    N = k.int('Np', 1)
    I = k.I
    g = Obj(cls(PSG), {}, 'grid')
    g.st[ABSTRACT] = True
    g.st['Nelem'] = I.mkint(N)
    involution('mir', fresh('x', 'int', (ZERO, N)))
    T.INV_DOMAIN['mir'] = N
    g.st['a'] = k.real('a', pos=True)
    g.st['ha'] = k.real('ha', pos=True)
    g.st['hr'] = k.real('hr', pos=True)
    for n in ('Xa', 'Xr', 'Y', 'Z', 'f', 'h1', 'h2', 'h3'):
        g.st[n] = k.arr(n, (N,))
    g.st['w'] = k.arr('w', (N,), nonneg=True)
    g.st['wi'] = k.arr('wi', (N,))
    for n in ('elap', 'olap', 'grada', 'gradr', 'diva', 'divr'):
        g.st[n] = k.arr(n, (N, N), kind='sp')
    for n, v in extra.items():
        g.st[n] = v
    return g, N


def quad(grid, f, N=None):
    """the quadrature functional: 2 pi hr ha sum_p wi_p w_p f(p)"""
    N = Q(grid.st['Nelem'])
    wi, w = grid.st['wi'], grid.st['w']
    return scale(T.PI, 2) * Q(grid.st['hr']) * Q(grid.st['ha']) * sum_(N, lambda q: wi.get(q) * w.get(q) * f(q))


def matvec(M, N, f):
    """p -> sum_q M[p,q] f(q)"""
    return lambda p: sum_(N, lambda q: M.get(p, q) * f(q))


def absval(p):
    return T.fn('abs', p)


_names = {}
_slow = set()


def _same_named(tag, k, args, ctx):
    from pyvc import solve
    a, b = atom_of(ext(tag, k, ())), atom_of(ext(tag, args, ()))
    key = a, b, frozenset(ctx.a)
    if key in _slow:
        return False
    now = __import__('time').time
    old, D = solve._DEADLINE[0], solve._DEADLINE
    D[0] = min(now() + 10, old or 1e18)
    try:
        return solve.opaque_equal(a, b, ctx, None, 0)
    except solve.Timeout:
        if old is not None and now() > old:
            raise
        _slow.add(key)
        return False
    finally:
        D[0] = old


def named(I, tag, args):
    """a name for the result of an opaque function of `args` (tuple of frozen contents and numbers): equal arguments, equal name"""
    args = tuple(args)
    tab = I.__dict__.setdefault('named', [])
    hit = next((s for t, k, s in tab if t == tag and k == args), None)
    if hit is None:
        if getattr(I, 'body_phase', False):     # the contract has run already: match its calls, in their order, then in any order
            base, turn = getattr(I, 'base_ctx', None), I.__dict__.setdefault('named_turn', {})
            mine = [(k, s) for t, k, s in tab if t == tag and len(k) == len(args)]
            i = turn[tag] = turn.get(tag, -1) + 1
            for k, s in mine[i:] + mine[:i]:
                if any(_same_named(tag, k, args, c) for c in (base, I.ctx) if c is not None):    # what follows from the precondition alone is found again in the other paths
                    hit = s
                    break
        if hit is None:
            hit = _names.get((tag, args))
            if hit is None:
                hit = _names[tag, args] = fresh(tag, 'real')
        tab.append((tag, args, hit))
    return hit
