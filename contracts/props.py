"""Which contracts decide which property."""
G = 'CADMium.psgrid.'
P_ = G + 'psgrid:Psgrid.'
C_ = 'CADMium.common.'


def g(*names):
    return [f'{G}{n}:{n}' for n in names] + [P_ + n for n in names]


MODULES = ['grid', 'numerics', 'operators', 'psgrid', 'hartree', 'solver', 'libxc', 'ks', 'partition', 'inverter', 'orbinv']
ASSUME = [
    'machine floating point is treated as exact real arithmetic',
    'numpy and scipy behave as modelled in pyvc/npmodel.py',
    'division by zero, roots of negative numbers and overflow do not occur in the values compared',
]
SV_ = 'CADMium.pssolver.'
IS_ = SV_ + 'pssolver:i_solver.'


def s(*names):
    return [f'{SV_}{n}:{n}' for n in names] + [IS_ + n for n in names]


KS_ = 'CADMium.kohnsham.kohnsham:Kohnsham.'
LX_ = 'CADMium.libxc.libxc:Libxc.'
SHELLS = 'one or two angular momenta and one or two spins (exhaustive in spin; every angular momentum block is treated by the same loop)'
PM_ = 'CADMium.partition.'
IM_ = 'CADMium.inverter.'
IV_ = IM_ + 'inverter:Inverter.'
PT_ = PM_ + 'partition:Partition.'
FRAGS = 'each fragment has one angular momentum and one or two spins; with and without two-member ensembles'
INTERNAL = {LX_ + 'get_xc_dictionary'}

PROPS = {
    'C01': dict(functions=g('initialize') + [P_ + '__init__']),
    'C02': dict(functions=[C_ + 'NC:NC'] + g('integrate')),
    'C03': dict(functions=[C_ + 'finite_difference_coefficients:finite_difference_coefficients'] + g('finite_difference_1d', 'finite_difference_2d')),
    'C04': dict(functions=g('operators', 'factorize_laplacian')),
    'C05': dict(functions=g('mirror', 'square', 'spinflip')),
    'C06': dict(functions=g('sigma', 'reduced_grad')),
    'C07': dict(functions=[C_ + 'coulomb:coulomb']),
    'C08': dict(functions=['CADMium.hartree.hartree:Hartree.' + n for n in ('__init__', 'v_hartree', 'e_hartree')]),
    'C09': dict(functions=s('calc_density', 'normalize_orbitals'), lemmas=['density integrates to N']),
    'C10': dict(functions=s('calc_energy', 'get_homo')),
    'C11': dict(functions=s('calc_ked_WFI'), lemmas=['kinetic energy density integrates to Ts']),
    'C12': dict(functions=s('calc_orbitals', 'iter_orbitals') + [IS_ + 'hamiltonian', IS_ + 'setveff', IS_ + '__init__', SV_ + 'pssolver:Pssolver'],
                bounded=['the number of orbitals per solver is 0, 1 or 2 (grid, matrices, potentials symbolic)', 'the retry loop for NaN orbitals is not entered: the eigensolver is assumed to return finite numbers'],
                assume=['scipy eigs returns the eigenpairs its documentation promises (an uninterpreted function of matrix, number and shift)']),
    'C13': dict(functions=s('calc_response'), bounded=['the number of occupied orbitals is 0, 1 or 2 plus at most one partly filled orbital']),
    'C14': dict(functions=[LX_ + '__init__', LX_ + 'get_xc', LX_ + 'get_xc_dictionary'], assume=['libxc evaluates a fixed pointwise function of density and contracted gradient (a stub with that property stands in for the absent pylibxc)']),
    'C15': dict(functions=[KS_ + n for n in ('calc_nuclear_potential', 'set_effective_potential', 'set_veff_external', 'calc_density', 'calc_hxc_potential', 'energy', 'calc_chempot')], bounded=[SHELLS]),
    'C16': dict(functions=['CADMium.kohnsham.scf:scf', KS_ + 'scf'], bounded=[SHELLS]),
    'C17': dict(functions=[KS_ + '__init__'], bounded=[SHELLS]),
    'C18': dict(functions=[PT_ + n for n in ('__init__', 'calc_scale_factors', 'calc_nuclear_potential')], bounded=[FRAGS]),
    'C19': dict(functions=[PT_ + n for n in ('calc_protomolecule', 'calc_Q', 'mirrorAB')], lemmas=['fragment shares add up to one', 'promolecule has the electrons of the fragments'], bounded=[FRAGS]),
    'C20': dict(functions=[PM_ + f'{n}:{n}' for n in ('energy', 'partition_energy', 'ep_nuclear')], lemmas=['nuclear energies add up to the molecular one'], bounded=[FRAGS]),
    'C21': dict(functions=[PM_ + f'{n}:{n}' for n in ('ep_kinetic', 'vp_kinetic')], bounded=[FRAGS]),
    'C22': dict(functions=[PM_ + f'{n}:{n}' for n in ('ep_hxc', 'vp_hxc', 'vp_overlap', 'vp_surprise', 'EnsCorHar')], bounded=[FRAGS]),
    'C23': dict(functions=[PM_ + f'{n}:{n}' for n in ('vp_nuclear', 'partition_potential')], bounded=[FRAGS]),
    'C24': dict(functions=[PM_ + 'scf:scf', PT_ + 'scf'], bounded=[FRAGS]),
    'C25': dict(functions=[IV_ + n for n in ('__init__', 'invert', 'linresponse', 'get_vt', 'get_Ts', 'get_ts_WFI', 'Ws', 'Jacobian')] + [IM_ + f'{n}:{n}' for n in ('linresponse', 'get_Ts', 'get_ts_WFI')],
                lemmas=['the Jacobian is the derivative of the residual'], bounded=['one or two angular momenta, one or two spins'],
                assume=['scipy least_squares returns an arbitrary function of the starting point, residual, Jacobian and tolerances (in replays a stand-in that takes one damped gradient step)']),
    'C26': dict(functions=[IM_ + 'orbitalinvert:' + n for n in ('kmatrix', 'normalize', 'ab_symmetrize', 'orbitalinvert')] + [IV_ + 'orbitalinvert', IV_ + 'invert'],
                lemmas=['the inversion step solves the linearised Kohn-Sham equations', 'normalised orbitals hold their occupation'],
                bounded=['one or two orbitals in one or two angular momenta for the Newton loop, up to three orbitals for one step', 'nearly degenerate orbitals (symmetrisation) are replayed only']),
}
