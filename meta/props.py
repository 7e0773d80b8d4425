prop('C01', 'Grid coordinates, integration layout and geometric fields',
     'A grid built from any number of quadrature blocks, bond half-length, box size and stencil has cell-centred prolate spheroidal coordinates covering the angular interval (0, pi) and the radial interval (0, L), '
     'the matching Cartesian coordinates, boundary coordinates continuing just outside the box, the exact volume element and the centrifugal potential 1/(2 rho^2) of those coordinates, all in one common point order. '
     'The integration weight of every point is the product of the angular and radial one-dimensional weights of that same point. All differential operators and the factorised Laplacian are built from exactly this geometry.',
     ['configurations'], 'for every number of points per block, every number of angular and radial blocks, every half bond length, box size and stencil width',
     'The tests build one small grid with equal numbers of angular and radial points and look at attribute types and shapes and a few values; transposed layouts and wrong fields on other grids pass.',
     ['psgrid/initialize.py', 'psgrid/psgrid.py'], ['meshgrid followed by column-major reshapes', 'outer product of one-dimensional weights', 'symmetrisation with the mirror image'])
prop('C02', 'Quadrature is the composite closed Newton-Cotes product rule',
     'One-dimensional weights are the sum over all blocks of the closed Newton-Cotes rule of the chosen order plus the half-cell end corrections on both ends, for every order and number of blocks. '
     'Integrating a function over space returns 2 pi times the spacings times the sum of weight, volume element and function value over all grid points, the same for one-dimensional and single-column input, and separately per column otherwise.',
     ['inputs', 'configurations'], 'for every order, every number of blocks and every function on every grid',
     'The tests integrate on one grid of two-point blocks; single-block grids, longer rules and multi-column integrands are never exercised.',
     ['common/NC.py', 'psgrid/integrate.py'], ['moment equations solved by least squares', 'accumulation of overlapping blocks', 'weighted dot product'])
prop('C03', 'Finite-difference derivatives on the symmetric extension',
     'Finite-difference coefficients solve the Taylor conditions for the requested derivative on the requested stencil. The first and second derivative matrices apply that stencil, divided by the right power of the spacing, to the even or odd mirror extension of the function '
     'across the boundaries of the angular interval and the inner radial boundary, with no extension beyond the outer radial boundary. The boundary matrices hold exactly the stencil weights that reach outside the box.',
     ['inputs', 'configurations'], 'for every stencil width, every number of grid points at least as large as the stencil needs, every spacing and both parities',
     'The tests check one nine-point stencil on a seven-by-seven grid by shape and by a few reference numbers.',
     ['common/finite_difference_coefficients.py', 'psgrid/finite_difference_1d.py', 'psgrid/finite_difference_2d.py'],
     ['Vandermonde system', 'banded matrices folded at the boundaries', 'parity signs'])
prop('C04', 'Spheroidal gradient, divergence and Laplacian operators',
     'The gradient, divergence and volume-weighted Laplacian matrices of both parities are the prolate spheroidal differential operators written with the one-dimensional derivative matrices along each coordinate, acting on the right coordinate of the point ordering. '
     'The outside-the-box Laplacian couples the last radial rows with the boundary region through the same operator. The stored triangular factors multiply to the even Laplacian.',
     ['inputs', 'configurations'], 'for every grid size, stencil width and half bond length; for every Laplacian matrix in the factorisation',
     'The tests compare shapes and some elements on one grid with as many angular as radial points, where transposed operators look alike, and whose factorisation happens to need no row exchange.',
     ['psgrid/operators.py', 'psgrid/factorize_laplacian.py'], ['Kronecker products with diagonal scale factors', 'sparse LU factorisation with natural column order'])
prop('C05', 'Mirror image, spin flip and reshaping are exact index maps',
     'Mirroring a function returns its values at the points reflected through the bond midplane for every column and applying it twice returns the original. Spin flip reverses the columns and leaves one-column input unchanged. '
     'Squaring returns the same values addressed by angular and radial index.',
     ['inputs', 'configurations'], 'for every grid size, every function and every number of columns',
     'The tests check one grid with equal sizes and one function.', ['psgrid/mirror.py', 'psgrid/spinflip.py', 'psgrid/square.py'], ['column-major reshapes and reversed slices'])
prop('C06', 'Gradient invariants of a density',
     'The contracted gradient of a spin-unpolarised density is the squared gradient; of a polarised density it consists of the up-up, up-down and down-down products of the spin density gradients, in this order. '
     'The reduced gradient of each column is the gradient length over 2 (3 pi^2)^(1/3) n^(4/3), with spin scaling for polarised densities. Other numbers of columns are refused.',
     ['inputs'], 'for every density, both polarisations, every grid', 'The tests call the unpolarised contraction once and check its shape.',
     ['psgrid/sigma.py', 'psgrid/reduced_grad.py'], ['products of the gradient matrices with the spin columns'])
prop('C07', 'Nuclear attraction potential',
     'The external potential of two nuclei on the grid is minus each charge over the distance of the point to that nucleus, with nucleus A at negative and nucleus B at positive height on the bond axis; zero charges contribute nothing.',
     ['inputs', 'configurations'], 'for all charges and all grids', 'No stable test evaluates the potential.', ['common/coulomb.py'], ['closed form in spheroidal coordinates'])
prop('C08', 'Hartree potential solves the discretised Poisson equation',
     'The Hartree potential of a density is the solution, by the stored factors of the Laplacian, of the discretised Poisson equation with source minus four pi times the total density (summed over spin) times the volume element, and with boundary values '
     'taken from the multipole expansion of that total density through order seven. Both spin columns of a polarised density receive the same potential, and the Hartree energy density is half the potential in a single column.',
     ['inputs', 'configurations'], 'for every density, both polarisations, one- and two-dimensional input, every grid and stencil', 'No stable test runs the Hartree solver.',
     ['hartree/hartree.py'], ['multipole moments', 'boundary source term', 'two triangular solves'])
prop('C09', 'Orbital densities integrate to the number of electrons',
     'The density of a solver is the occupation-weighted sum of its orbital densities, each divided by its own norm: every full orbital holds two electrons (one if spin-polarised), doubled for non-zero angular momentum, '
     'and with fractional occupation the next orbital holds the remainder. It therefore integrates to exactly the number of electrons of the solver. Normalising scales every orbital so that its square integrates to the electrons it can hold.',
     ['inputs', 'configurations'], 'for every set of orbitals, number of electrons, angular momentum, polarisation and occupation mode, on every grid', 'No stable test runs a solver.',
     ['pssolver/calc_density.py', 'pssolver/normalize_orbitals.py'], ['occupation numbers from the electron count', 'loop over occupied orbitals', 'quadrature of the squared orbital'])
prop('C10', 'Orbital energies, potential energy and highest occupied level',
     'The orbital energy of a solver is the occupation-weighted sum of its eigenvalues with the occupations of the density; the potential energy is the integral of density times effective potential; the kinetic energy is their difference. '
     'The reported highest occupied eigenvalue is that of the highest orbital holding any electrons, full or partial, and a huge negative number when there is none.',
     ['inputs', 'configurations'], 'for every spectrum, number of electrons, angular momentum, polarisation and occupation mode', 'No stable test runs a solver.',
     ['pssolver/calc_energy.py', 'pssolver/get_homo.py'], ['occupation numbers from the electron count', 'quadrature'])
prop('C11', 'Kinetic energy density integrates to the kinetic energy',
     'The kinetic energy density of a solver is the occupation-weighted sum of orbital times base Hamiltonian applied to the orbital over the volume element, each orbital normalised, with the same occupations as the density. '
     'It integrates to the orbital energy minus the potential energy whenever the orbitals satisfy their eigenvalue equations.',
     ['inputs', 'configurations'], 'for every set of orbitals, number of electrons, angular momentum, polarisation and occupation mode', 'No stable test runs a solver.',
     ['pssolver/calc_ked_WFI.py'], ['loop over occupied orbitals', 'sparse matrix times orbital'])
prop('C12', 'Orbitals solve the Kohn-Sham equations of their symmetry block',
     'Each solver belongs to one angular momentum and spin. Its base Hamiltonian is minus half the Laplacian of the right parity plus the centrifugal term. Its orbitals are the lowest eigenpairs of the weighted Hamiltonian with the current potential, in ascending order, '
     'with near-degenerate pairs separated into even and odd combinations and optional projection on mirror parity; without orbitals a sentinel eigenvalue is stored. Iterative refinement applies one bordered Newton correction to exactly the orbitals whose residual exceeds the tolerance and renormalises. '
     'Options are recognised regardless of case and unknown ones are refused.',
     ['inputs', 'configurations'], 'for every potential, grid, angular momentum, polarisation and option setting', 'No stable test runs a solver.',
     ['pssolver/pssolver.py', 'pssolver/calc_orbitals.py', 'pssolver/iter_orbitals.py'], ['sparse eigenproblem', 'bordered Newton system', 'option validation'],
     note='Bounded in the number of orbitals (0, 1, 2). ')
prop('C13', 'Density response of occupied orbitals',
     'The response matrix of a solver is the derivative of its density with respect to its potential: the sum over occupied orbitals, with the same occupations as the density, of twice the orbital times the solution of its bordered linear response equations, '
     'including a partly filled orbital in fractional occupation and both signs of angular momentum.',
     ['inputs', 'configurations'], 'for every set of orbitals and eigenvalues, potential, angular momentum, polarisation and occupation', 'No stable test runs a solver.',
     ['pssolver/calc_response.py'], ['bordered linear systems', 'occupation numbers from the electron count'], note='Bounded in the number of occupied orbitals (0, 1, 2 plus a partly filled one). ')
prop('C14', 'Exchange-correlation energies and potentials on the grid',
     'The functional interface returns the integral over the grid of energy density times total density, the energy density, and for every spin the functional derivative of that energy: the local part and, for gradient functionals, minus the divergence of the derivative '
     'with respect to the contracted gradients times the spin density gradients, with the cross term of the opposite spin. The library is given density and contracted gradients of the same points in its own spin order. The values agree whether or not the energy density is requested.',
     ['inputs', 'configurations'], 'for every density, both polarisations, local and gradient functionals, every functional number and every grid',
     'No stable test evaluates a functional (the library is not installed).', ['libxc/libxc.py'], ['flattening of spin columns', 'gradient and divergence matrices', 'quadrature'])
prop('C15', 'Kohn-Sham potentials, density and energy decomposition',
     'The nuclear potential, the Hartree-exchange-correlation potential of the current density and the external potential add up to the effective potential, and every solver receives the column of its own spin; an explicitly given potential is handed out the same way. '
     'The density of each spin is the sum over all its symmetry blocks, whichever orbital solver is used, and is mirror averaged with the symmetry option. The energy is the sum of kinetic, nuclear, Hartree, exchange and correlation parts and the nuclear repulsion, '
     'all evaluated with the current density; eigenvalue sums per spin and all eigenvalues are collected. The chemical potential is the highest occupied level of all solvers. Different calculations never share these records.',
     ['inputs', 'configurations'], 'for every density, potential, charge pair, polarisation, interaction type, functional family and option setting, on every grid', 'No stable test runs a Kohn-Sham calculation.',
     ['kohnsham/kohnsham.py'], ['loops over the solver array', 'child processes returning orbitals', 'quadrature'], note='One and two angular momenta are exhausted. ')
prop('C16', 'Kohn-Sham self-consistency procedure',
     'A self-consistent calculation starts from the density of the bare nuclei, or from the stored density when continuing. Every iteration builds the potential of the current density, optionally averages it with its spin-flipped mirror image before any solver sees it, solves for the new density, mixes it linearly into the old one, '
     'and evaluates energies and chemical potential of the mixed density. It ends exactly when the larger of the relative energy and density changes of the last iteration is within the tolerance (and, with automatic tolerance, has stopped improving for the requested number of iterations) or the iteration limit is reached. '
     'Iterative orbital refinement is used only when requested and close to convergence. Options are recognised regardless of case and unknown ones refused.',
     ['histories', 'configurations'], 'for every number of iterations (loop invariant, no bound), every option setting, starting density, potential and grid', 'No stable test runs a self-consistent calculation.',
     ['kohnsham/scf.py'], ['while loop with linear mixing', 'convergence tests', 'option model'], note='The loop is proved by an inductive invariant, without a bound; one and two angular momenta. ')
prop('C17', 'Construction of a Kohn-Sham calculation and its options',
     'A Kohn-Sham calculation accepts its options regardless of case, refuses unknown option names and unknown interaction types, and refuses occupation tables of different shapes. It owns one solver per angular momentum and spin, each with the right electrons, occupation mode, symmetry, base Hamiltonian and energy estimate, '
     'the nuclear potential, and for interacting electrons a Hartree solver and the exchange and correlation functionals of the requested family and numbers.',
     ['inputs', 'configurations'], 'for every option setting, charge pair, occupation table and grid', 'No stable test constructs one.', ['kohnsham/kohnsham.py', 'pssolver/pssolver.py'],
     ['pydantic option models', 'construction of the solver array'], note='One and two angular momenta are exhausted. ')
prop('C18', 'Construction of a partition into fragments and their weights',
     'A partition accepts its options regardless of case, refuses unknown option names and values and an A/B symmetry between different nuclei. Fragment A holds only nucleus A and fragment B only nucleus B, each with the electrons, occupations and calculation options given for it; with fractional electron numbers each fragment is an ensemble of two members. '
     'The weight of the members are 1 - nu and nu (halved when spin-flipped copies are added), or 1 without an ensemble, also when only one of the two fragments is fractional. Each nuclear potential is minus the charge over the distance to its own nucleus.',
     ['inputs', 'configurations'], 'for every option setting, charge pair, electron numbers, ensemble fractions, polarisation and grid', 'No stable test constructs a partition.',
     ['partition/partition.py'], ['pydantic option models', 'ensemble branch of the constructor', 'weights'], note='One and two spins; one or two members per fragment. ')
prop('C19', 'Promolecule, fragment shares and mirrored fragments',
     'The promolecular density is the weighted sum of the fragment densities, member by member and spin by spin (plus the spin-flipped copy in the spin-symmetric ensemble), and integrates to the weighted number of electrons. The share of each member is its weighted density divided by the promolecular density, zero where that is not finite; the shares add up to one. '
     'With A/B symmetry fragment B is the mirror image of fragment A: density, shares, potentials and energy densities reflected, energies and chemical potential copied without sharing records.',
     ['inputs', 'configurations'], 'for every set of fragment densities, weights, polarisation, option setting and grid', 'No stable test evaluates a partition.',
     ['partition/partition.py'], ['sums over members and spins', 'reflection of grid functions', 'shared records'], note='One and two spins; one or two members per fragment. ')
prop('C20', 'Energy bookkeeping of a partition',
     'Fragment energies and all their parts are weighted sums over the members of both fragments (fragment A twice with A/B symmetry, doubled when spin-flipped copies are added). The partition energy is the sum of its nuclear, kinetic and Hartree-exchange-correlation parts and zero for isolated fragments; the total is fragments plus partition energy plus nuclear repulsion. '
     'The nuclear part is the attraction of each fragment to the other nucleus, so that fragments and partition together give the attraction of the promolecule to both nuclei.',
     ['inputs', 'configurations'], 'for every set of fragment energies, densities, weights, polarisation, option setting and grid', 'No stable test evaluates a partition.',
     ['partition/energy.py', 'partition/partition_energy.py', 'partition/ep_nuclear.py'], ['sums over members', 'symmetry shortcuts'], note='One and two spins; one or two members per fragment. ')
prop('C21', 'Non-additive kinetic energy and potential of a partition',
     'The kinetic part of the partition energy is the kinetic energy of the promolecule minus the weighted kinetic energies of the fragments, and the kinetic part of the partition potential of each member is the kinetic potential of the promolecule minus its own, in every supported approximation: von Weizsaecker, kinetic functionals of the library, two-orbital, neglected, inversion (the highest occupied level of all members minus the effective potential of the member; each spin of the promolecule inverted, the second one copied from the first for spin-symmetric ensembles); with "fixed" the potential is left alone. '
     'Energy densities are the promolecular one minus the sum of weighted shares times fragment ones.',
     ['inputs', 'configurations'], 'for every set of densities, weights, shares, polarisation, option setting and grid', 'No stable test evaluates a partition.',
     ['partition/ep_kinetic.py', 'partition/vp_kinetic.py'], ['per-approximation branches', 'sums over members', 'division by vanishing densities'],
     note='One and two spins; one or two members per fragment. ')
prop('C22', 'Non-additive Hartree, exchange and correlation energy and potential',
     'The Hartree, exchange and correlation parts of the partition energy are the functional of the promolecule minus that of the fragments, combined as the selected approximation says (exact, Hartree only, overlap-weighted, surprisal-weighted), and the potentials of each member are the corresponding differences with the derivatives of the overlap weight. '
     'The overlap measure is the error-function-like weight of the fragment overlap integral and its derivative is the functional derivative with respect to each member density. The correlated Hartree energy of an ensemble is the weighted sum over pairs of members. Frozen fragments are left out. Non-interacting electrons have none of these.',
     ['inputs', 'configurations'], 'for every set of densities, potentials, weights, shares, polarisation, approximation and grid', 'No stable test evaluates a partition.',
     ['partition/ep_hxc.py', 'partition/vp_hxc.py', 'partition/vp_overlap.py', 'partition/vp_surprise.py', 'partition/EnsCorHar.py'], ['per-approximation branches', 'functional derivatives', 'sums over members'],
     note='One and two spins; one or two members per fragment. ')
prop('C23', 'Assembly of the partition potential',
     'The nuclear part of the partition potential of a fragment is the potential of the other nucleus. The partition potential of each member is the sum of its nuclear, kinetic and Hartree-exchange-correlation parts, and the global one is the sum of the member potentials weighted with the shares, mirrored for A/B symmetry and averaged with its spin-flipped copy in spin-symmetric ensembles.',
     ['inputs', 'configurations'], 'for every set of component potentials, shares, polarisation, option setting and grid', 'No stable test evaluates a partition.',
     ['partition/partition_potential.py', 'partition/vp_nuclear.py'], ['sum over members', 'symmetry shortcuts'], note='The potential assembled from components; one and two spins, one or two members per fragment. ')
prop('C24', 'Self-consistency of the fragments of a partition',
     'The procedure starts every fragment from its bare nucleus, or from the stored densities when continuing. Each iteration renews the Hartree-exchange-correlation potential of every fragment and then the partition potential (none for isolated fragments; the global one, or the member one with subsystem embedding; a frozen fragment keeps its potential), solves each fragment, mixes its density with its own factor, mirrors fragment A onto B with A/B symmetry, '
     'and renews promolecule (unless a target density is kept), shares and energies. It ends exactly when the larger relative change of total energy and promolecule is within the tolerance (and with automatic tolerance stopped improving) or the iteration limit is reached. Options are recognised regardless of case and unknown ones refused.',
     ['histories', 'configurations'], 'for every number of iterations (loop invariant, no bound), every option setting, fragment densities, weights and grid', 'No stable test runs a partition calculation.',
     ['partition/scf.py', 'partition/partition.py'], ['while loop over fragments', 'linear mixing', 'convergence tests'], note='The loop is proved by an inductive invariant, without a bound; one and two spins, one or two members per fragment. ')
prop('C25', 'Density inversion by linear response',
     'The inverter reproduces a target density (of one spin, or of both): for each spin the effective potential is the solution of the least-squares problem whose residual is the inverse target density times the difference between the density of all angular momenta at the trial potential and the target, plus the gauge condition that the potential vanishes at the last point, and whose Jacobian is the derivative of that residual; it starts from the potential the solvers hold, else from the given guess, else from the von Weizsaecker potential. '
     'With A/B symmetry only the symmetric part counts; in a spin-symmetric ensemble the first spin is inverted and copied. The chemical potential is the highest occupied level, the kinetic potential is chemical minus effective potential, the kinetic energy and its density are sums over all solvers. Options are recognised regardless of case; unknown options and methods are refused.',
     ['inputs', 'configurations'], 'for every target density, starting potential, set of options, polarisation and grid', 'No stable test inverts a density.',
     ['inverter/inverter.py', 'inverter/linresponse.py', 'inverter/get_Ts.py', 'inverter/get_ts_WFI.py'], ['spin of a single-column target', 'sums over angular momenta', 'symmetry shortcuts'],
     note='One and two spins, one and two angular momenta; least_squares itself is an assumed dependency. ')
prop('C26', 'Density inversion by Newton steps on orbitals, eigenvalues and potential',
     'One step of the orbital inversion solves the Kohn-Sham equations of all orbitals, the normalisation of all but the last orbital and the target density together, linearised about the present orbitals, eigenvalues (relative to the last orbital) and potential: the matrix is the derivative of those equations with respect to all unknowns, with the Hamiltonian of the angular momentum each orbital belongs to. '
     'Every orbital is kept at its occupation (two electrons over the number of spins for m = 0, four otherwise, the fraction left over in the last orbital of an angular momentum that is not full). It starts from the orbitals the solvers hold, else from the given guess, of the chosen spin; with A/B symmetry every orbital is replaced by its even or odd part and the potential by its even part. '
     'It stops when the largest residual of equations and density is below the tolerance or the iterations are used up, takes a Newton step when the density is worse than the orbitals (or, with loop avoidance, when the residuals repeat), and otherwise recomputes the orbitals of the present potential. It leaves potential, orbitals, eigenvalues, density and the highest occupied level of that spin only, and reports convergence, iterations and final residual of its own run.',
     ['inputs', 'configurations', 'histories'], 'for every target density, guess, grid, spin, number of iterations and set of tolerances', 'No stable test inverts a density.',
     ['inverter/orbitalinvert.py', 'inverter/inverter.py'], ['unknowns stacked in one vector', 'fractional occupation of the last orbital', 'Hamiltonian blocks per angular momentum', 'choice between Newton step and recomputed orbitals'],
     note='One and two orbitals, one and two angular momenta in the loop; the iterative linear solver option is not covered. ')
