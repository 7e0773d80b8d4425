"""Contracts of the 1-d numerics: Newton-Cotes weights, finite-difference coefficients."""
from .lib import *


def vandermonde(N, x):
    """A[k, j] = x(j)^k"""
    return ArrC((N, N), lambda k, j: power(x(j), k) if False else NM._pow(x(j), k), 'f')


def moments(N, A, b):
    """the solution of A w = b given by the library's least-squares routine"""
    la, lb = NM.lamof(A), NM.lamof(ArrC((N,), b, 'f'))
    return lambda j: ext('lstsq', (la, lb), (j,))


def nc_block(N):
    A = vandermonde(N, lambda j: j)
    return moments(N, A, lambda k: power(k + 1, -1) * NM._pow(N - 1, k + 1))


def nc_end(N):
    half = P(Fraction(1, 2))
    A = vandermonde(N, lambda j: j - half * iv(ge(j, 1)))
    return moments(N, A, lambda k: power(k + 1, -1) * NM._pow(half, k + 1))


@contract('CADMium.common.NC:NC')
def NC(I, N, Nm):
    """w_j = sum over the Nm blocks of the closed N-point rule, plus half-cell corrections at both ends"""
    N, Nm = Q(N), Q(Nm)
    w, w1 = nc_block(N), nc_end(N)
    NP = (N - 1) * Nm + 1

    def get(j):
        s = sum_(Nm, lambda i: iv(band(ge(j - (N - 1) * i, 0), lt(j - (N - 1) * i, N))) * w(j - (N - 1) * i))
        return s + iv(lt(j, N - 1)) * w1(j + 1) + iv(lt(NP - 1 - j, N - 1)) * w1(NP - j)
    return arr((NP,), get)


def _ncs(val, rng):
    val.syms.update(N=rng.randint(2, 8), Nm=rng.randint(1, 4))


@case('CADMium.common.NC:NC', 'any number of points and blocks', sample=_ncs)
def _(k):
    return [k.iv('N', 2), k.iv('Nm', 1)]


def taylor_solution(n, x, deriv):
    """the solution c of sum_j c_j x_j^k / k! = [k == deriv], k < n"""
    A = ArrC((n, n), lambda k, j: -power(T.fn('factorial', k), -1) * NM._pow(x(j), k), 'f')
    la = NM.lamof(A)
    lb = NM.lamof(ArrC((n, 1), lambda k, z: -iv(eq(k, deriv)), 'f'))
    return lambda j: ext('lstsq', (la, lb), (j, ZERO))


def fd_coeffs(n, x, deriv):
    c = taylor_solution(n, x, deriv)
    tiny = P(Fraction('1e-10'))
    return lambda j: iv(bnot(lt(T.fn('abs', c(j)), tiny))) * c(j)


@contract('CADMium.common.finite_difference_coefficients:finite_difference_coefficients')
def finite_difference_coefficients(I, x, deriv):
    """the solution of the Taylor conditions, entries below 1e-10 in magnitude set to zero"""
    n = x.shape[0]
    return arr((n,), fd_coeffs(n, x.get, Q(deriv)))


@case('CADMium.common.finite_difference_coefficients:finite_difference_coefficients', 'any stencil')
def _(k):
    n = k.int('n', 3)
    return [k.arr('x', (n,), 'i'), k.iv('d', 1, 2)]


# ------------------------------------------------------------------ derivative matrices
FDC = 'CADMium.common.finite_difference_coefficients:finite_difference_coefficients'


def parity_coeffs(I, x, deriv):
    """what the derivative matrices need of the coefficients: c(-k) = (-1)^deriv c(k) on a symmetric stencil"""
    n = x.shape[0]
    d = num(deriv).intval()
    s = (-1) ** d
    g = lambda j: scale(app(f'fd{d}', (j,), 'real') + scale(app(f'fd{d}', (n - 1 - j,), 'real'), s), Fraction(1, 2))
    return arr((n,), g)


def stencil(ds, h):
    """k -> coefficient of the sample at distance k"""
    return lambda k: iv(band(le(-h, k), le(k, h))) * ds.get(k + h)


def fold(c, N, scale_, sg, both):
    """matrix of the stencil acting on the (sg = +1 even, -1 odd) reflection of the samples"""
    def get(p, q):
        r = c(q - p) + scale(c(-1 - q - p), sg)
        if both:
            r = r + scale(c(scale(N, 2) - 1 - q - p), sg)
        return r * scale_
    return arr((N, N), get)


def fd_summary(order):
    def f(I, self):
        st = self.st
        x = st['i1'] if order == 1 else st['i2']
        I.used_contracts.add(FDC)
        ds = I.contracts[FDC](I, x, order)
        st[f'd{order}'] = ds
        h = Q(st['bcN'])
        c = stencil(ds, h)
        Na, Nr = Q(st['Na']), Q(st['Nr'])
        sa, sr = power(Q(st['ha']), -order), power(Q(st['hr']), -order)
        for nm, sg in (('e', 1), ('o', -1)):
            st[f'{nm}Da{order}'] = fold(c, Na, sa, sg, True)
            st[f'{nm}Dr{order}'] = fold(c, Nr, sr, sg, False)
        # weights of the samples just outside the box, for the last bcN rows
        st[f'bc{order}'] = arr((h, h), lambda i, j: c(h + j - i) * sr)
        return None
    f.__doc__ = f"""order-{order} matrices: the stencil on the even/odd mirror extension of the samples at both angular ends and at the
    inner radial end; bc{order} are the weights of the samples beyond the outer radial end"""
    return f


for _o in (1, 2):
    _q = f'CADMium.psgrid.finite_difference_{_o}d:finite_difference_{_o}d'
    contract(_q)(fd_summary(_o))

    def _b(k, o=_o):
        h = k.int('h', 1)
        Na, Nr = k.int('Na'), k.int('Nr')
        k.assume(le(h + 1, Na))
        k.assume(le(h + 1, Nr))
        g = Obj(cls(PSG), {}, 'grid')
        mk = k.I.mkint
        n = scale(h, 2) + 1
        g.st.update(Na=mk(Na), Nr=mk(Nr), bcN=mk(h), ha=k.real('ha', pos=True), hr=k.real('hr', pos=True))
        g.st[f'i{o}'] = arr((n,), lambda i: i - h, 'i')
        k.override(FDC, parity_coeffs)
        return [g]
    case(_q, 'any half-width, any grid')(_b)
