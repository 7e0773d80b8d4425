"""Contracts of the grid layer."""
from .lib import *

G = 'CADMium.psgrid.'


# ------------------------------------------------------------------ coulomb
@contract('CADMium.common.coulomb:coulomb')
def coulomb(I, grid, Za, Zb):
    """v(p) = -Za/(a (cosh Xr + cos Xa)) - Zb/(a (cosh Xr - cos Xa))"""
    a, Xa, Xr = Q(grid.st['a']), grid.st['Xa'], grid.st['Xr']
    za, zb = Q(Za), Q(Zb)

    def v(p):
        ch, co = fn('cosh', Xr.get(p)), fn('cos', Xa.get(p))
        return -za * power(a * (ch + co), -1) - zb * power(a * (ch - co), -1)
    return arr(Xr.shape, v)


@case('CADMium.common.coulomb:coulomb', 'any grid, any charges')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.real('Za'), k.real('Zb')]


# ------------------------------------------------------------------ index maps
@contract(G + 'mirror:mirror')
def mirror(I, self, fin):
    """result[p, ...] = fin[mirror(p), ...]"""
    return arr(fin.shape, lambda p, *r: fin.get(midx(self, p), *r), fin.dtype)


def concrete_grid(k):
    Na, Nr = grid_sizes(k)
    g = Obj(cls(PSG), {}, 'grid')
    g.st.update(Na=k.I.mkint(Na), Nr=k.I.mkint(Nr), Nelem=k.I.mkint(Na * Nr))
    return g, Na, Nr


@case(G + 'mirror:mirror', '1-d')
def _(k):
    g, Na, Nr = concrete_grid(k)
    return [g, k.arr('f', (Na * Nr,))]


@case(G + 'mirror:mirror', '2-d')
def _(k):
    g, Na, Nr = concrete_grid(k)
    s = k.int('Ns', 1)
    return [g, k.arr('f', (Na * Nr, s))]


@contract(G + 'square:square')
def square(I, self, fin):
    """result[a, r, s] = fin[a + Na r, s]"""
    Na, Nr = Q(self.st['Na']), Q(self.st['Nr'])
    if fin.ndim == 1:
        return arr((Na, Nr, 1), lambda a, r, s: fin.get(a + Na * r), fin.dtype)
    return arr((Na, Nr, fin.shape[1]), lambda a, r, s: fin.get(a + Na * r, s), fin.dtype)


@case(G + 'square:square', '1-d')
def _(k):
    g, Na, Nr = concrete_grid(k)
    return [g, k.arr('f', (Na * Nr,))]


@case(G + 'square:square', '2-d')
def _(k):
    g, Na, Nr = concrete_grid(k)
    return [g, k.arr('f', (Na * Nr, k.int('Ns', 1)))]


@contract(G + 'spinflip:spinflip')
def spinflip(I, self, fin):
    """columns in reverse order; one-dimensional input unchanged"""
    if fin.ndim == 1:
        return fin
    n = fin.shape[1]
    return arr(fin.shape, lambda p, s: fin.get(p, n - 1 - s), fin.dtype)


@case(G + 'spinflip:spinflip', '1-d')
def _(k):
    g, Na, Nr = concrete_grid(k)
    return [g, k.arr('f', (Na * Nr,))]


@case(G + 'spinflip:spinflip', '2-d')
def _(k):
    g, Na, Nr = concrete_grid(k)
    return [g, k.arr('f', (Na * Nr, k.int('Ns', 1)))]


# ------------------------------------------------------------------ quadrature
@contract(G + 'integrate:integrate')
def integrate(I, self, f):
    """2 pi hr ha sum wi w f; a (N,1) array is one function; column-wise (broadcast over rows) for more columns"""
    if f.ndim == 1:
        return fl(quad(self, lambda p: f.get(p)))
    if f.shape[1].intval() == 1:
        return fl(quad(self, lambda p: f.get(p, 0)))
    return arr(f.shape, lambda p, s: quad(self, lambda q: f.get(q, s)))


@case(G + 'integrate:integrate', '1-d')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('F', (N,))]


@case(G + 'integrate:integrate', 'one column')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('F', (N, 1))]


@case(G + 'integrate:integrate', 'columns')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('F', (N, k.int('Ns', 2)))]


# ------------------------------------------------------------------ sigma
def grad_dot(self, n, s, t):
    N = Q(self.st['Nelem'])
    ga, gr = self.st['grada'], self.st['gradr']

    def f(p):
        def d(M, s):
            return sum_(N, lambda q: M.get(p, q) * n.get(q, s))
        return d(ga, s) * d(ga, t) + d(gr, s) * d(gr, t)
    return f


@contract(G + 'sigma:sigma')
def sigma(I, self, n):
    """sigma_ss' = grad n_s . grad n_s'"""
    pol = n.shape[1].intval()
    if pol == 1:
        g = grad_dot(self, n, 0, 0)
        return arr(n.shape, lambda p, s: g(p))
    if pol == 2:
        uu, ud, dd = grad_dot(self, n, 0, 0), grad_dot(self, n, 0, 1), grad_dot(self, n, 1, 1)
        return arr((n.shape[0], 3), lambda p, s: NM.pick([uu(p), ud(p), dd(p)], s))
    exc('ValueError')


@case(G + 'sigma:sigma', 'pol=1')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('n', (N, 1))]


@case(G + 'sigma:sigma', 'pol=2')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('n', (N, 2))]


@case(G + 'sigma:sigma', 'pol=3')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('n', (N, 3))]


# ------------------------------------------------------------------ reduced gradient
@contract(G + 'reduced_grad:reduced_grad')
def reduced_grad(I, self, n):
    """s = |grad n| / (2 (3 pi^2)^(1/3) n^(4/3)); spin-scaled (n -> 2 n_s) for polarized densities"""
    pol = n.shape[1].intval()
    k = scale(power(scale(power(T.PI, 2), 3), Fraction(1, 3)), 2)

    def s(p, c, f):
        g = grad_dot(self, n, c, c)(p)
        return scale(power(g, Fraction(1, 2)), f) * power(k * power(scale(n.get(p, c), f), Fraction(4, 3)), -1)
    return arr(n.shape, lambda p, c: s(p, c, 1 if pol == 1 else 2))


@case(G + 'reduced_grad:reduced_grad', 'pol=1')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('n', (N, 1), nonneg=True)]


@case(G + 'reduced_grad:reduced_grad', 'pol=2')
def _(k):
    g, N = abstract_grid(k)
    return [g, k.arr('n', (N, 2), nonneg=True)]
