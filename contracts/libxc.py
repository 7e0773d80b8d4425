"""Contracts of the exchange-correlation interface."""
from .lib import *
from . import grid as _g

X = 'CADMium.libxc.libxc:Libxc'


def ingredients(I, self, n):
    pol = n.shape[1].intval()
    fam = self.st['xc_family']
    if fam == 'lda':
        sg = None
    elif fam == 'gga':
        sg = I.contracts['CADMium.psgrid.psgrid:Psgrid.sigma'](I, self.st['grid'], n)
    else:
        exc('ValueError')
    return pol, NM.xc_outputs(I, Q(self.st['func_id']), pol, n, sg)


@contract(X + '.__init__')
def libxc_init(I, self, grid, xc_family, func_id):
    """stores grid, family and functional"""
    self.st.update(grid=grid, xc_family=xc_family, func_id=func_id)


@contract(X + '.get_xc_dictionary')
def get_xc_dictionary(I, self, n, pol):
    """the functional evaluated on the density (and, for a GGA, its contracted gradients); other families are refused"""
    return PDict(ingredients(I, self, n)[1])


def vxc(I, self, n, out, pol):
    """functional derivative: vrho - 2 div(vsigma_ss grad n_s) - div(vsigma_st grad n_t)"""
    vrho = out['vrho']
    if self.st['xc_family'] == 'lda':
        return vrho
    g = self.st['grid'].st
    N = Q(g['Nelem'])
    vs = out['vsigma'].c
    nc = n.c

    def div(k, s):
        """divergence of vsigma_k grad n_s"""
        r = lambda p: ZERO
        for D, G in (('diva', 'grada'), ('divr', 'gradr')):
            d, gr, prev = g[D].c, g[G].c, r
            r = lambda p, d=d, gr=gr, prev=prev: prev(p) + sum_(N, lambda q: d.get(p, q) * vs.get(q, C(k)) * sum_(N, lambda t: gr.get(q, t) * nc.get(t, C(s))))
        return r
    vr = vrho.c
    if pol == 1:
        d = div(0, 0)
        return arr((N, 1), lambda p, s: vr.get(p, s) - 2 * d(p))
    uu, ud, du, dd = div(0, 0), div(1, 1), div(1, 0), div(2, 1)
    return arr((N, 2), lambda p, s: vr.get(p, s) - NM.pick([2 * uu(p) + ud(p), 2 * dd(p) + du(p)], s))


@contract(X + '.get_xc')
def get_xc(I, self, n, return_epsilon=False):
    """energy = integral of epsilon times the total density; potential = functional derivative of that energy"""
    pol, out = ingredients(I, self, n)
    eps = out['zk']
    e = fl(quad(self.st['grid'], lambda p: sum((eps.get(p, C(0)) * n.get(p, C(s)) for s in range(pol)), ZERO)))
    v = vxc(I, self, n, out, pol)
    if I.decide(I.truth(return_epsilon)):
        return (e, eps, v)
    return (e, v)


def functional(k, g, family, name='func'):
    return Obj(cls(X), dict(grid=g, xc_family=family, func_id=k.iv(name + '_id', 1)), name)


for _fam in ('lda', 'gga'):
    for _pol in (1, 2):
        def _b(k, fam=_fam, pol=_pol):
            g, N = abstract_grid(k)
            return [functional(k, g, fam), k.arr('n', (N, pol)), k.I.mkint(C(pol))]
        case(X + '.get_xc_dictionary', f'{_fam}, pol={_pol}')(_b)

        for _eps in (False, True):
            def _b(k, fam=_fam, pol=_pol, eps=_eps):
                g, N = abstract_grid(k)
                return [functional(k, g, fam), k.arr('n', (N, pol)), eps]
            case(X + '.get_xc', f'{_fam}, pol={_pol}' + (', with energy density' if _eps else ''))(_b)


@case(X + '.get_xc', 'unknown family')
def _(k):
    g, N = abstract_grid(k)
    return [functional(k, g, 'mgga'), k.arr('n', (N, 1))]


@case(X + '.__init__', 'any')
def _(k):
    g, N = abstract_grid(k)
    return [Obj(cls(X), {}, 'func'), g, 'gga', k.iv('id', 1)]
