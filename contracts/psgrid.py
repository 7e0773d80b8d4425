"""Contracts of the Psgrid methods: each one is the grid function of the same name applied to the grid."""
from .lib import *
from . import grid, numerics, operators
from .operators import raw_grid, _grid_sample

G = 'CADMium.psgrid.'
P_ = 'CADMium.psgrid.psgrid:Psgrid.'


@contract(P_ + '__init__')
def psgrid_init(I, self, NP, NM, a, L, loc):
    """stores the parameters; everything else is unset; the same stencil for first and second derivatives"""
    get = lambda i: I.getitem(NM, i)
    for n in ('Na', 'Nr', 'Nelem', 'xa', 'xr', 'Xa', 'Xr', 'ha', 'hr', 'Y', 'Z', 'w', 'wi', 'f', 'bcN', 'bXa', 'bXr', 'h1', 'h2', 'h3', 'L_lap', 'U_lap'):
        self.st[n] = None
    self.st.update(NP=NP, NMa=get(0), NMr=get(1), a=a, L=L, i1=loc, i2=loc)


@case(P_ + '__init__', 'any parameters', sample=_grid_sample)
def _(k):
    h, d = raw_grid(k)
    g = Obj(cls(PSG), {}, 'grid')
    return [g, d['NP'], PList([d['NMa'], d['NMr']]), d['a'], d['L'], d['loc']]


def _wrap(name, doc=None):
    def w(I, self, *args, **kw):
        return I.contracts[f'{G}{name}:{name}'](I, self, *args, **kw)
    return w


def _wrapper(name, params):
    src = f'def w(I, self{"".join(", " + p for p in params)}):\n    return I.contracts["{G}{name}:{name}"](I, self{"".join(", " + p for p in params)})'
    d = {}
    exec(src, d)
    d['w'].__doc__ = f'the grid function {name} of this grid'
    contract(P_ + name)(d['w'])


for _n, _p in (('mirror', ['fin']), ('square', ['fin']), ('sigma', ['n']), ('spinflip', ['fin']), ('integrate', ['f']), ('reduced_grad', ['n']),
               ('finite_difference_1d', []), ('finite_difference_2d', []), ('operators', []), ('factorize_laplacian', ['DISP']), ('initialize', [])):
    _wrapper(_n, _p)


def _like(name, src=None, **opts):
    from pyvc.framework import CASES, Case
    for c in CASES[f'{G}{name}:{name}']:
        o = {q: v for q, v in c.opts.items() if q != 'ensures'}
        CASES.setdefault(P_ + name, []).append(Case(P_ + name, c.name, c.build, c.sample, o))


for _n in ('mirror', 'square', 'sigma', 'spinflip', 'integrate', 'reduced_grad', 'finite_difference_1d', 'finite_difference_2d', 'operators', 'factorize_laplacian', 'initialize'):
    _like(_n)
