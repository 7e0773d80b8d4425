"""Contracts of the grid construction: operators, initialize, factorisation."""
from .lib import *
from . import numerics
from .numerics import FDC

G = 'CADMium.psgrid.'


def split(grid):
    Na = Q(grid.st['Na'])

    def f(p):
        r = T.idiv(p, Na)
        return p - Na * r, r
    return f


def delta(i, j):
    return iv(eq(i, j))


@contract(G + 'operators:operators')
def operators(I, self):
    """scale factors; gradient, divergence and (volume-weighted) Laplacians as Kronecker products of the 1-d matrices;
    blap: the Laplacian's action of the samples outside the box on the last bcN radial rows"""
    st = self.st
    a, Na, Nr, N, h = Q(st['a']), Q(st['Na']), Q(st['Nr']), Q(st['Nelem']), Q(st['bcN'])
    Xa, Xr = st['Xa'], st['Xr']
    sh, ch, s, c = (lambda p: fn('sinh', Xr.get(p))), (lambda p: fn('cosh', Xr.get(p))), (lambda p: fn('sin', Xa.get(p))), (lambda p: fn('cos', Xa.get(p)))
    half = Fraction(1, 2)
    h1 = lambda p: a * power(power(sh(p), 2) + power(s(p), 2), half)
    h3 = lambda p: a * sh(p) * s(p)
    st['h1'] = arr((N,), h1)
    st['h2'] = arr((N,), h1)
    st['h3'] = arr((N,), h3)
    sp = split(self)
    D = {n: st[n] for n in ('eDa1', 'eDa2', 'eDr1', 'eDr2', 'oDa1', 'oDa2', 'oDr1', 'oDr2')}

    def ang(M):      # 1 (x) M
        def f(p, q):
            (x, r), (y, t) = sp(p), sp(q)
            return delta(r, t) * M.get(x, y)
        return f

    def rad(M):      # M (x) 1
        def f(p, q):
            (x, r), (y, t) = sp(p), sp(q)
            return delta(x, y) * M.get(r, t)
        return f
    st['grada'] = arr((N, N), lambda p, q: power(h1(p), -1) * ang(D['eDa1'])(p, q), kind='sp')
    st['gradr'] = arr((N, N), lambda p, q: power(h1(p), -1) * rad(D['eDr1'])(p, q), kind='sp')
    st['diva'] = arr((N, N), lambda p, q: power(h1(p) * h1(p) * h3(p), -1) * ang(D['oDa1'])(p, q) * h1(q) * h3(q), kind='sp')
    st['divr'] = arr((N, N), lambda p, q: power(h1(p) * h1(p) * h3(p), -1) * rad(D['oDr1'])(p, q) * h1(q) * h3(q), kind='sp')
    for e in 'eo':
        def lap(p, q, e=e):
            A2, A1, R2, R1 = D[e + 'Da2'], D[e + 'Da1'], D[e + 'Dr2'], D[e + 'Dr1']
            return a * (sh(p) * (s(p) * ang(A2)(p, q) + c(p) * ang(A1)(p, q)) + s(p) * (sh(p) * rad(R2)(p, q) + ch(p) * rad(R1)(p, q)))
        st[e + 'lap'] = arr((N, N), lap, kind='sp')
    bc1, bc2 = st['bc1'], st['bc2']

    def blap(p, q):
        (x, i), (y, j) = sp(p), sp(q)
        P0 = x + Na * (Nr - h + i)
        return a * delta(x, y) * s(P0) * (sh(P0) * bc2.get(i, j) + ch(P0) * bc1.get(i, j))
    st['blap'] = arr((Na * h, Na * h), blap, kind='sp')


def coords(k, g):
    """cell-centred coordinates of the product grid"""
    Na, Nr = Q(g.st['Na']), Q(g.st['Nr'])
    xr = k.arr('xr', (Nr,), nonneg=True)
    sp = split(g)
    ang = lambda x: T.PI * (x + Fraction(1, 2)) * power(Na, -1)
    g.st['Xa'] = arr((Na * Nr,), lambda p: ang(sp(p)[0]))
    g.st['Xr'] = arr((Na * Nr,), lambda p: xr.get(sp(p)[1]))


@case(G + 'operators:operators', 'any grid')
def _(k):
    h = k.int('h', 1)
    Na, Nr = k.int('Na', 1), k.int('Nr', 1)
    k.assume(le(h, Nr))
    g = Obj(cls(PSG), {}, 'grid')
    mk = k.I.mkint
    g.st.update(Na=mk(Na), Nr=mk(Nr), Nelem=mk(Na * Nr), bcN=mk(h), a=k.real('a', pos=True))
    coords(k, g)
    for e in 'eo':
        for o in '12':
            g.st[f'{e}Da{o}'] = k.arr(f'{e}Da{o}', (Na, Na))
            g.st[f'{e}Dr{o}'] = k.arr(f'{e}Dr{o}', (Nr, Nr))
    for o in '12':
        g.st[f'bc{o}'] = k.arr(f'bc{o}', (h, h))
    return [g]


# ------------------------------------------------------------------ LU factors
@contract(G + 'factorize_laplacian:factorize_laplacian')
def factorize_laplacian(I, self, DISP):
    """L_lap, U_lap: two matrices whose product is the even Laplacian"""
    N = Q(self.st['Nelem'])
    Lm = NM.lamof(self.st['elap'].c)
    self.st['L_lap'] = arr((N, N), lambda i, j: ext('factor_L', (Lm,), (i, j)), kind='sp')
    self.st['U_lap'] = arr((N, N), lambda i, j: ext('factor_U', (Lm,), (i, j)), kind='sp')


def _lu_ensures(cm, args, result):
    """(L_lap U_lap)[i,j] = elap[i,j], from the library's guarantee sum_k L[perm_r(i),k] U[k,j] = elap[i,j]"""
    g = args[0]
    N = Q(g.st['Nelem'])
    Lm = NM.lamof(g.st['elap'].c)
    Lc, Uc = g.st.get('L_lap'), g.st.get('U_lap')
    if not isinstance(Lc, Arr) or not isinstance(Uc, Arr):
        return cm.ob('L_lap and U_lap are matrices', False, 'not set')
    i, j = fresh('i', 'int', (ZERO, N)), fresh('j', 'int', (ZERO, N))
    pr = ext('lu_perm_r', (Lm,), (i,), 'int')
    atom_of(pr).rng = (ZERO, N)
    prod = sum_(N, lambda k: Lc.get(i, k) * Uc.get(k, j))
    lib = sum_(N, lambda k: ext('lu_L', (Lm,), (pr, k)) * ext('lu_U', (Lm,), (k, j)))
    cm.zero('(L_lap U_lap)[i,j] = elap[i,j]', prod - lib, cm.ctx.with_(le(ZERO, i), lt(i, N), le(ZERO, j), lt(j, N)))


def _lu_real(rargs, result):
    from pyvc.framework import Mismatch
    g = rargs[0]
    d = abs((g.L_lap @ g.U_lap) - g.elap).max()
    if not d <= 1e-8 * (1 + abs(g.elap).max()):
        raise Mismatch(f'L_lap @ U_lap differs from the Laplacian by {d}')


@case(G + 'factorize_laplacian:factorize_laplacian', 'any matrix', ignore=('L_lap', 'U_lap'), ensures=_lu_ensures, ensures_real=_lu_real)
def _(k):
    g, N = abstract_grid(k)
    return [g, k.flag('disp')]


# ------------------------------------------------------------------ the grid itself
@contract(G + 'initialize:initialize')
def initialize(I, self, DISP=False, factor=True):
    """coordinates, Newton-Cotes product weights, volume element, centrifugal potential, operators of the grid"""
    st = self.st
    a, L, NP = Q(st['a']), Q(st['L']), Q(st['NP'])
    Na = (NP - 1) * Q(st['NMa']) + 1
    Nr = (NP - 1) * Q(st['NMr']) + 1
    mk = I.mkint
    N = Na * Nr
    h1, h2 = st['i1'].shape[0], st['i2'].shape[0]
    h = T.idiv(h1 - 1, C(2))
    half = Fraction(1, 2)
    ha, hr = T.PI * power(Na, -1), L * power(Nr, -1)
    st.update(Na=mk(Na), Nr=mk(Nr), Nelem=mk(N), ha=fl(ha), hr=fl(hr), bcN=mk(h))
    xa = lambda j: ha * (j + half)
    xr = lambda j: hr * (j + half)
    st['xa'], st['xr'] = arr((Na,), xa), arr((Nr,), xr)
    sp = split(self)
    XA, XR = (lambda p: xa(sp(p)[0])), (lambda p: xr(sp(p)[1]))
    st['Xa'], st['Xr'] = arr((N,), XA), arr((N,), XR)
    st['bXa'] = arr((Na * h,), XA)
    st['bXr'] = arr((Na * h,), lambda p: L + hr * (sp(p)[1] + half))
    sh, ch, s, c = (lambda p: fn('sinh', XR(p))), (lambda p: fn('cosh', XR(p))), (lambda p: fn('sin', XA(p))), (lambda p: fn('cos', XA(p)))
    st['Z'] = arr((N,), lambda p: a * ch(p) * c(p))
    st['Y'] = arr((N,), lambda p: a * sh(p) * s(p))
    NCc = I.contracts['CADMium.common.NC:NC']
    wa, wr = NCc(I, st['NP'], st['NMa']), NCc(I, st['NP'], st['NMr'])
    st['wi'] = arr((N,), lambda p: wa.get(sp(p)[0]) * wr.get(sp(p)[1]))
    st['w'] = arr((N,), lambda p: power(a, 3) * s(p) * sh(p) * (power(s(p), 2) + power(sh(p), 2)))
    st['f'] = arr((N,), lambda p: scale(power(a * sh(p) * s(p), -2), half))
    for o in (1, 2):
        I.contracts[f'{G}finite_difference_{o}d:finite_difference_{o}d'](I, self)
    I.contracts[G + 'operators:operators'](I, self)
    if I.fork(I.truth(factor)):
        I.contracts[G + 'factorize_laplacian:factorize_laplacian'](I, self, DISP)


def _grid_sample(val, rng):
    M = rng.randint(1, 3)
    h = rng.randint(1, 3)
    val.syms.update(M=M, h=h, Na=M * rng.randint(max(1, -(-h // M)), 4) + 1, Nr=M * rng.randint(max(1, -(-h // M)), 4) + 1, a=rng.uniform(0.4, 3), L=rng.uniform(1, 3))


def raw_grid(k):
    """a freshly constructed grid; NP = M + 1 and the numbers of blocks are (Na - 1)/M, (Nr - 1)/M"""
    h, M, Na, Nr = k.int('h', 1), k.int('M', 1), k.int('Na', 2), k.int('Nr', 2)
    k.assume(le(h + 1, Na))
    k.assume(le(h + 1, Nr))
    blocks = lambda n: SV((n - 1) * power(M, -1), 'int')
    return h, dict(NP=k.I.mkint(M + 1), NMa=blocks(Na), NMr=blocks(Nr), a=k.real('a', pos=True), L=k.real('L', pos=True),
                   loc=arr((scale(h, 2) + 1,), lambda i: i - h, 'i'))


@case(G + 'initialize:initialize', 'any grid', sample=_grid_sample, ignore=('L_lap', 'U_lap'))
def _(k):
    h, d = raw_grid(k)
    loc = d.pop('loc')
    g = Obj(cls(PSG), {}, 'grid')
    g.st.update(d, i1=loc, i2=loc)
    return [g]
