"""Contracts of the Hartree solver."""
from .lib import *
from . import grid as _g

H = 'CADMium.hartree.hartree:Hartree'
ORDER = 7


def lpmv(k, x):
    return T.fn('lpmv', ZERO, C(k), x)


def vh_source(I, g, n):
    """right-hand side of the discretised Poisson equation: -4 pi w n minus the Laplacian's action on the multipole
    expansion (orders 0..7) of the potential outside the box, in the last bcN radial rows"""
    st = g.st
    a, Na, Nr, h = Q(st['a']), Q(st['Na']), Q(st['Nr']), Q(st['bcN'])
    half = Fraction(1, 2)
    N = Na * Nr

    def sph(A, R):
        ch, co = (lambda p: fn('cosh', R.get(p))), (lambda p: fn('cos', A.get(p)))
        r = lambda p: a * power(power(ch(p), 2) + power(co(p), 2) - 1, half)
        return r, (lambda p: a * ch(p) * co(p) * power(r(p), -1))
    r, t = sph(st['Xa'], st['Xr'])
    br, bt = sph(st['bXa'], st['bXr'])
    moment = [quad(g, lambda p, k=k: power(r(p), k) * lpmv(k, t(p)) * n(p)) for k in range(ORDER + 1)]

    def vout(p):
        v = ZERO
        for k in range(ORDER + 1):
            v = v + moment[k] * power(br(p), -(k + 1)) * lpmv(k, bt(p))
        return v
    w, bl = st['w'], st['blap']
    bq = lambda p: sum_(Na * h, lambda q: bl.get(p, q) * vout(q))

    def b(p):
        x, s = p - Na * T.idiv(p, Na), T.idiv(p, Na)
        out = scale(T.PI, -4) * w.get(p) * n(p)
        return out - iv(ge(s, Nr - h)) * bq(x + Na * (s - (Nr - h)))
    return b


def hartree_potential(I, g, n):
    st = g.st
    N = Q(st['Na']) * Q(st['Nr'])
    b = NM.lamof(ArrC((N,), vh_source(I, g, n), 'f'))
    x = NM.lamof(ArrC((N,), lambda i: ext('linsolve', (NM.lamof(st['L_lap'].c), b), (i,)), 'f'))
    return lambda i: ext('linsolve', (NM.lamof(st['U_lap'].c), x), (i,))


def total(nh):
    """sum over spin columns"""
    if nh.ndim == 1:
        return lambda p: nh.get(p)
    return lambda p: sum_(nh.shape[1], lambda s: nh.get(p, s))


@contract(H + '.v_hartree')
def v_hartree(I, self, nh):
    """U^-1 L^-1 (source), the same column for both spins"""
    g = self.st['grid']
    pol = 1 if nh.ndim == 1 else nh.shape[1].intval()
    N = Q(g.st['Na']) * Q(g.st['Nr'])
    v = hartree_potential(I, g, total(nh))
    return arr((N, pol), lambda p, s: v(p))


@contract(H + '.e_hartree')
def e_hartree(I, self, nh):
    """half the Hartree potential of the total density, one column"""
    g = self.st['grid']
    N = Q(g.st['Na']) * Q(g.st['Nr'])
    v = hartree_potential(I, g, total(nh))
    return arr((N, 1), lambda p, s: scale(v(p), Fraction(1, 2)))


@contract(H + '.__init__')
def hartree_init(I, self, grid):
    """stores the grid"""
    self.st['grid'] = grid


def solver_grid(k):
    """a grid with explicit sizes, boundary region and a factorised Laplacian"""
    h, Na, Nr = k.int('h', 1), k.int('Na', 1), k.int('Nr', 1)
    k.assume(le(h, Nr))
    mk = k.I.mkint
    g = Obj(cls(PSG), {}, 'grid')
    N = Na * Nr
    g.st.update(Na=mk(Na), Nr=mk(Nr), Nelem=mk(N), bcN=mk(h), a=k.real('a', pos=True), ha=k.real('ha', pos=True), hr=k.real('hr', pos=True))
    for n in ('Xa', 'Xr', 'wi'):
        g.st[n] = k.arr(n, (N,))
    g.st['w'] = k.arr('w', (N,), nonneg=True)
    for n in ('bXa', 'bXr'):
        g.st[n] = k.arr(n, (Na * h,))
    g.st['blap'] = k.arr('blap', (Na * h, Na * h), kind='sp')
    for n in ('L_lap', 'U_lap'):
        g.st[n] = k.arr(n, (N, N), kind='sp')
    return g, N


def _hs(val, rng):
    h = rng.randint(1, 3)
    val.syms.update(h=h, Na=rng.randint(1, 4), Nr=rng.randint(h, 5))
    val.dists.update(Xr='pos', bXr='pos')


def solver(k):
    g, N = solver_grid(k)
    return Obj(cls(H), {'grid': g}, 'hartree'), N


@case(H + '.__init__', 'any grid')
def _(k):
    g, N = abstract_grid(k)
    return [Obj(cls(H), {}, 'hartree'), g]


@case(H + '.v_hartree', '1-d', sample=_hs)
def _(k):
    s, N = solver(k)
    return [s, k.arr('n', (N,))]


@case(H + '.v_hartree', 'pol=1', sample=_hs)
def _(k):
    s, N = solver(k)
    return [s, k.arr('n', (N, 1))]


@case(H + '.v_hartree', 'pol=2', sample=_hs)
def _(k):
    s, N = solver(k)
    return [s, k.arr('n', (N, 2))]


@case(H + '.e_hartree', 'pol=1', sample=_hs)
def _(k):
    s, N = solver(k)
    return [s, k.arr('n', (N, 1))]


@case(H + '.e_hartree', 'pol=2', sample=_hs)
def _(k):
    s, N = solver(k)
    return [s, k.arr('n', (N, 2))]
