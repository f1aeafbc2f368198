# ruff: noqa
INPUTS = ["inputs"]
UNIT = (
    "The stable tests exercise basis truncation/padding on a handful of fixed sizes and 1-D interpolation; "
)

prop(
    "C01",
    "Basis conversion preserves the represented object",
    "Re-expressing an array, vector, dual vector or matrix from one basis to another of the same underlying space (position, momentum, truncated, evenly spaced, explicit, or a tensor product of these, along any array axis) gives exactly the projection of the object the original coefficients represent onto the new basis. Hence it is linear, returns the same coefficients on a round trip through any basis that can represent the object, gives the same result through any faithful intermediate basis, preserves norms and inner products for unitary bases, and treats dual vectors as complex conjugates of vectors.",
    ["inputs", "configurations"],
    "All basis families and tensor products of them, all sizes/offsets/steps (odd and even), all array axes, all complex coefficient arrays.",
    UNIT + "they never mix families, axes, products, duals or explicit bases, so a wrong phase, frequency order or conjugation survives.",
    ["basis/basis.py", "basis/basis_like.py", "basis/conversion.py", "basis/explicit_basis.py", "basis/evenly_spaced_basis.py", "stacked_basis/conversion.py", "basis/stacked_basis.py"],
    [("basis as/into fundamental transforms", "basis/basis.py"), ("conversion via the shared fundamental basis", "basis/conversion.py"), ("tensor-product conversion", "stacked_basis/conversion.py")],
    ["converted coefficient arrays", "basis vectors"],
    {"technique": "differential test against dense reference basis matrices, plus round-trip / composition / unitarity laws",
     "level_note": "Sizes up to ~12 per axis and 3 axes; tolerance 1e-9 relative."},
)
prop(
    "C02",
    "Lattice sampling geometry is self-consistent",
    "For any lattice and sampling, the indices, positions, momenta, unit vectors and volumes reported for a basis agree with its direct lattice vectors: sample positions are the integer combinations of lattice vector divided by sample count, momenta the integer combinations of reciprocal vectors (standard discrete-Fourier order), and direct and reciprocal vectors satisfy a_i·b_j = 2π δ_ij. Flat and stacked indices convert into each other bijectively in row-major order, every flattened list of points or momenta is ordered by that flat index, and evenly spaced time samples and Bloch fractions are the stated arithmetic sequences and the stated subset of the fundamental samples.",
    ["inputs", "configurations"],
    "All 1-3 dimensional non-degenerate lattices (any orientation, skew, handedness), all sample counts, truncated/evenly spaced/fundamental bases, all integer index inputs including negative ones.",
    UNIT + "geometry of skew lattices, odd/even sizes and index inversion is only sampled at single points.",
    ["basis/util.py", "basis/basis.py", "stacked_basis/build.py", "basis/time_basis_like.py", "basis/block_fraction_basis.py", "basis/evenly_spaced_basis.py"],
    [("geometry helper", "basis/util.py"), ("basis builders", "stacked_basis/build.py")],
    ["point and momentum arrays", "index arrays"],
    {"technique": "generated lattices vs an independent geometry model", "level_note": "Sizes up to ~9 per axis."},
)
prop(
    "C03",
    "Wrapping, folding and paths stay lattice-equivalent",
    "Wrapping an index or position about an origin changes it only by whole lattice periods and brings it into the single period centred on that origin (half a period at most along each axis), so wrapping is idempotent and invariant under lattice translations; folding momenta by one Brillouin zone changes each by a reciprocal lattice vector, shortens every momentum outside the first zone and leaves those inside unchanged. Distances along a path start at zero, never decrease and accumulate the true Cartesian length of each step (of the wrapped step when wrapping), and projecting points onto axes keeps their coordinates and mutual distances in the spanned plane.",
    INPUTS,
    "All lattices, all integer/real coordinates including many periods away and negative, all origins, all paths and axis choices.",
    UNIT + "wrapping and folding are tested on few points of orthogonal cells; two of those tests fail at the pinned commit.",
    ["stacked_basis/util.py", "stacked_basis/brillouin_zone.py", "basis/util.py"],
    [("wrapping helpers", "stacked_basis/util.py"), ("Brillouin zone folding", "stacked_basis/brillouin_zone.py")],
    ["wrapped coordinates", "path distances", "folded momenta"],
    {"technique": "metamorphic relations and brute-force reference on generated lattices", "level_note": "Brillouin-zone folding compared with brute force over nearby reciprocal vectors."},
)
prop(
    "C04",
    "Fourier interpolation reproduces the trigonometric polynomial",
    "Zero-padding or truncating a discrete spectrum along any axes keeps every retained signed frequency's amplitude and adds only zeros, and resampling periodic data through Fourier interpolation gives the values of its band-limited trigonometric interpolant at the new sample points, for any sizes, axes and dimensions. Resampling to the same size is the identity, and resampling up and back down recovers band-limited data; spline interpolation along any axis reproduces the data at the original sample points.",
    INPUTS,
    "All array shapes (odd/even), all target sizes above and below, all axis subsets, real and complex data.",
    UNIT + "tests check real data for few sizes along one axis order; frequency placement for odd/even transitions and axis combinations is a for-all claim.",
    ["util/interpolation.py", "state_vector/conversion.py"],
    [("spectrum padding", "util/interpolation.py"), ("state interpolation", "state_vector/conversion.py")],
    ["interpolated arrays"],
    {"technique": "differential test against direct evaluation of the trigonometric polynomial", "level_note": "Nyquist amplitudes (even sizes) are excluded or checked only for what is documented."},
)
prop(
    "C05",
    "State and state-list operations preserve physical content",
    "Changing the basis of a state or list of states never changes inner products, norms or expectation values it can represent; collecting states into a list, selecting, iterating, averaging or combining lists returns precisely those states in order with their attached eigenvalues or weights. Inner products are conjugate-symmetric and linear in the ket, list inner products are independent of the basis either list is given in, and the slice of a state along chosen axes is the stored amplitudes at the requested index of the remaining axes.",
    ["inputs", "histories"],
    "All list lengths, bases, complex amplitudes, axes, indices and sequences of list operations.",
    UNIT + "no stable test covers state lists, duals or inner products at all.",
    ["state_vector/state_vector.py", "state_vector/state_vector_list.py", "state_vector/conversion.py", "state_vector/util.py", "state_vector/eigenstate_list.py"],
    [("state lists", "state_vector/state_vector_list.py"), ("state conversion", "state_vector/conversion.py")],
    ["amplitude arrays", "inner products"],
    {"technique": "model-based check against lists of plain numpy vectors", "level_note": "Lists up to ~6 states, spaces up to ~30 dimensions."},
)
prop(
    "C06",
    "Operator algebra agrees with matrix algebra in any basis",
    "Adding, subtracting, scaling, multiplying, commuting, conjugating and applying operators (dense, diagonal or lists; in the matching bases of the two operands, or any mix of bases where the function converts, as lists and actions on states do) gives what matrix algebra gives for the operators they represent, and changing basis is the corresponding similarity transform, so traces, Hermiticity, products and expectation values do not depend on the basis. Converting between diagonal, dense, listed and density-matrix forms loses nothing it can represent, and position, momentum and potential operators, and displacement operators on axis-aligned lattices, have their defining matrix elements.",
    INPUTS,
    "All operators (Hermitian or not, complex), bases, list lengths and combinations thereof.",
    UNIT + "the operator tests cannot be collected at the pinned commit, and matrix identities hold for all matrices.",
    ["operator/operator.py", "operator/operator_list.py", "operator/operations.py", "operator/conversion.py", "operator/build.py"],
    [("operator operations", "operator/operations.py"), ("operator conversion", "operator/conversion.py"), ("operator builders", "operator/build.py")],
    ["operator matrices", "expectation values"],
    {"technique": "differential test against dense numpy matrix algebra", "level_note": "Spaces up to ~24 dimensions."},
)
prop(
    "C07",
    "Spectral decompositions and functions of operators are exact",
    "Diagonalising an operator yields orthonormal (Hermitian case) eigenstates and eigenvalues that satisfy the eigenvalue equation, reassemble to the original operator and are independent of the basis used; the requested number of eigenpairs are the lowest ones, in order. Exponentials and other functions of an operator act on its eigenvalues, thermal occupations are normalised Boltzmann weights, and expectation values agree with amplitudes and eigenvalues.",
    INPUTS,
    "All Hermitian operators including degenerate spectra, all bases, all temperatures and subset sizes.",
    UNIT + "nothing stable diagonalises any operator.",
    ["state_vector/eigenstate_calculation.py", "state_vector/eigenstate_list.py", "operator/operations.py", "operator/operator.py"],
    [("eigenstate calculation", "state_vector/eigenstate_calculation.py"), ("functions of operators", "operator/operations.py")],
    ["eigenvalues", "eigenvectors", "expectation values"],
    {"technique": "residual and reconstruction oracles on generated Hermitian operators", "level_note": "Residual tolerances relative to the operator norm."},
)
prop(
    "C08",
    "Potential transformations preserve the potential",
    "Re-expressing a potential in another basis of the same cell gives the projection of the same function, and its continuous form is the band-limited periodic function through the samples: it agrees with them at the sample points, is lattice periodic, and its derivative is the derivative of that function. Loading, truncating and undoing truncation, shifting the minimum to zero, and interpolating from unevenly spaced planes change the values only as defined (in particular undo inverts the truncation for every parameter choice) and keep the lattice.",
    INPUTS,
    "All real/complex sampled potentials, lattices, target samplings, truncation parameters and file contents.",
    UNIT + "no stable test touches potentials.",
    ["potential/potential.py", "potential/conversion.py", "potential/point_potential.py"],
    [("potential conversion", "potential/conversion.py"), ("truncation and loading", "potential/potential.py")],
    ["potential values"],
    {"technique": "differential test against the trigonometric interpolant; round trips through files and inverse transforms", "level_note": "Truncation is only inverted inside its numerically invertible range."},
)
prop(
    "C09",
    "Hamiltonians equal kinetic plus potential energy",
    "A Hamiltonian built for a particle of given mass in a sampled potential is Hermitian and has, in every basis and for every Bloch wavevector, exactly the matrix elements ⟨k|ħ²(k+q)²/2m|k'⟩ plus the potential's, so its spectrum is real, shifts rigidly with a constant offset of the potential, and its low-lying part is unchanged by shifting the Bloch wavevector by a reciprocal lattice vector once the momentum set is converged. Truncated and oscillator-type basis builders give the projection of that same Hamiltonian, and the one-dimensional oscillator and potential eigenbases consist of orthonormal states of increasing energy.",
    ["inputs", "configurations"],
    "All lattices, potentials, masses, Bloch fractions, sample counts and oscillator parameters.",
    UNIT + "the Hamiltonian tests cannot be collected at the pinned commit.",
    ["hamiltonian_builder/momentum_basis.py", "hamiltonian_builder/sho_subtracted_basis.py", "hamiltonian_builder/explicit_z_basis.py", "stacked_basis/sho_basis.py", "stacked_basis/potential_basis.py"],
    [("momentum Hamiltonian", "hamiltonian_builder/momentum_basis.py"), ("oscillator basis", "stacked_basis/sho_basis.py"), ("potential basis", "stacked_basis/potential_basis.py")],
    ["Hamiltonian matrix", "eigenstates"],
    {"technique": "differential test against an independently assembled dense Hamiltonian", "level_note": "The Rust extension is absent; its two builders are exercised with a Python stand-in written from the Rust source."},
)
prop(
    "C10",
    "Bloch states built per wavevector solve the supercell problem",
    "Sampling a Hamiltonian over Bloch wavevectors yields, for every band and wavevector, a state that unfurls into the repeated cell as a normalised eigenstate of the full supercell problem with the reported energy, obeys Bloch's theorem under lattice translation, and has wavevectors in the stated order. Converting, selecting, flattening or re-sampling a set of such states keeps each state's physical content, energy and label, and states of different band or wavevector stay orthogonal.",
    ["inputs", "configurations"],
    "All lattices, potentials, numbers of bands and wavevector grids (odd/even, multi-dimensional).",
    UNIT + "the wavepacket tests cannot be collected at the pinned commit.",
    ["wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "wavepacket/conversion.py", "wavepacket/eigenstate_conversion.py", "basis/block_fraction_basis.py"],
    [("wavepacket generation", "wavepacket/wavepacket.py"), ("state extraction", "wavepacket/get_eigenstate.py"), ("unfurling", "wavepacket/eigenstate_conversion.py")],
    ["state vectors", "eigenvalues"],
    {"technique": "differential test against a directly built supercell Hamiltonian", "level_note": "Up to 2 lattice dimensions, supercells up to ~60 points."},
)
prop(
    "C11",
    "Localised states span the same bands, orthonormally",
    "Turning Bloch bands into localised (Wannier-like) states is a unitary change within those bands: the localised states built from a localisation operator (projection, tight binding, or external tool) are orthonormal, span the same subspace, are lattice translates of each other, and transform back to the original Bloch states, and the position-operator recipe gives states spanning the same subspace. The Hamiltonian re-expressed in the localised states has the same spectrum as the original bands, with couplings depending only on the translation between cells.",
    ["inputs", "configurations"],
    "All band sets, lattices, recipes and projection functions.",
    UNIT + "no stable test reaches localisation.",
    ["wavepacket/localization_operator.py", "wavepacket/localization/_operator.py", "wavepacket/localization/_projection.py", "wavepacket/localization/_tight_binding.py", "wavepacket/localization/_wannier90.py"],
    [("localisation operators", "wavepacket/localization_operator.py"), ("projection recipe", "wavepacket/localization/_projection.py"), ("external tool interface", "wavepacket/localization/_wannier90.py")],
    ["localised states", "band Hamiltonian"],
    {"technique": "unitarity / spectrum-invariance oracles on generated band structures, with a scripted stand-in for the external tool", "level_note": "The external tool is replaced by a stand-in executable that validates its inputs."},
)
prop(
    "C12",
    "Noise operators reproduce the noise kernel they came from",
    "Decomposing a noise kernel into independent noise operators and recombining them gives back the kernel, whichever decomposition (dense or diagonal eigenvalue, Fourier, real Fourier, stacked) is used on a kernel in its domain, and truncated or Taylor decompositions keep the documented leading contribution. The operators of eigenvalue and complex Fourier decompositions are normalised and mutually orthogonal with their strengths reported alongside, and the recombination of arbitrary operators equals the sum of strength-weighted outer products.",
    INPUTS,
    "All Hermitian / diagonal / isotropic kernels, positive or not, in any dimension and sampling, and all operator lists.",
    UNIT + "the kernel tests cannot be collected at the pinned commit.",
    ["kernel/kernel.py", "kernel/solve/_eigenvalue.py", "kernel/solve/_fft.py", "kernel/solve/_taylor.py", "kernel/solve/_util.py", "kernel/build.py"],
    [("decompositions", "kernel/solve/"), ("recombination", "kernel/kernel.py")],
    ["kernel arrays", "noise operators"],
    {"technique": "round-trip and outer-product reference on generated kernels", "level_note": "Kernels on up to ~12 points; Taylor recipes checked against their analytic kernels at small displacement."},
)
prop(
    "C13",
    "Kernel forms and correlation functions agree with their definition",
    "Converting a noise kernel between full, diagonal, isotropic and per-axis forms, or between bases, preserves every element the target form represents, and combined per-axis kernels are the products of their parts. Kernels built from a correlation function (Gaussian, Lorentzian, effective or user-supplied) have that function of the periodic displacement as elements on any rectangular (axis-aligned) lattice and dimension, and temperature-corrected operators and effective parameters follow their stated formulae.",
    INPUTS,
    "All kernels, lattices in 1-3 dimensions, correlation functions and parameters.",
    UNIT + "the kernel tests cannot be collected at the pinned commit.",
    ["kernel/kernel.py", "kernel/conversion.py", "kernel/build.py", "kernel/gaussian.py", "kernel/lorentzian.py", "operator/build.py"],
    [("kernel forms", "kernel/kernel.py"), ("correlation builders", "kernel/build.py"), ("Gaussian noise", "kernel/gaussian.py")],
    ["kernel arrays"],
    {"technique": "element-wise reference model over generated kernels and lattices", "level_note": "Periodic displacements are taken along lattice axes as the library defines them."},
)
prop(
    "C14",
    "Sampled noise has the covariance of its kernel",
    "Random noise potentials drawn from a kernel or its operators are zero-mean complex circular noise with covariance equal to ħ times the kernel, independent between samples, and linear in the square root of the noise strength. Sampled values are exactly the strength-weighted sums of the noise operators with the random coefficients drawn.",
    ["inputs", "configurations"],
    "All kernels and operator lists, sample counts and time grids.",
    UNIT + "nothing stable samples noise.",
    ["kernel/sample.py"],
    [("noise sampling", "kernel/sample.py")],
    ["sampled potentials"],
    {"technique": "exact covariance through substituted orthonormal random coefficients, plus metamorphic scaling", "level_note": "The generator of random numbers is replaced by a recording one; statistical quality of numpy's generator is trusted."},
)
prop(
    "C15",
    "Quantum time evolution is the unitary evolution of the Hamiltonian",
    "Evolving a state under a time-independent Hamiltonian returns at every requested time the state exp(-iHt/ħ)|ψ⟩, whichever solver is used, starting from the initial state at time zero (the diagonal solver takes the state in any basis, the others in the Hamiltonian's; the numerical ones need times that are not negative). Norm and energy are therefore conserved, evolution composes over successive intervals, and open-system solvers receive exactly the Hamiltonian and collapse operators (divided by √ħ) that the caller specified, in a common basis and units.",
    ["inputs", "histories"],
    "All Hermitian Hamiltonians, initial states, bases and time grids (any step, offset, spacing).",
    UNIT + "nothing stable evolves a state.",
    ["dynamics/schrodinger/solve.py", "dynamics/stochastic_schrodinger/solve.py", "dynamics/util.py", "basis/time_basis_like.py"],
    [("Schrodinger solvers", "dynamics/schrodinger/solve.py"), ("stochastic solver front ends", "dynamics/stochastic_schrodinger/solve.py")],
    ["state lists over time"],
    {"technique": "differential test against the matrix exponential", "level_note": "Compiled stochastic solvers are absent: their calls are captured and their arguments checked."},
)
prop(
    "C16",
    "Incoherent hopping conserves probability and follows the rate equation",
    "The rate matrix built from pairwise hopping rates conserves total probability (every column sums to zero, off-diagonal entries are the given rates between the corresponding sites and bands, translated periodically), and evolving occupations under it gives exp(Mt) applied to the start at every requested time. Total probability stays one and non-negative, the long-time limit is a stationary distribution, and the reported rates, modes and equilibria are those of that matrix. The band locations taken from wavepackets are the positions of their localised states in the unit cell.",
    INPUTS,
    "All non-negative rate sets, lattice sizes, numbers of bands, initial distributions and time grids.",
    UNIT + "nothing stable covers hopping dynamics.",
    ["dynamics/tunnelling_basis.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "dynamics/incoherent_propagation/eigenstates.py", "dynamics/incoherent_propagation/isf.py"],
    [("rate matrix", "dynamics/incoherent_propagation/tunnelling_matrix.py"), ("rate solution", "dynamics/incoherent_propagation/eigenstates.py")],
    ["rate matrix", "occupations over time"],
    {"technique": "differential test against a site-by-site rate model and the matrix exponential", "level_note": "Lattices up to 4x4 and 3 bands."},
)
prop(
    "C17",
    "Scattering functions and their models are consistent",
    "The intermediate scattering function of a hopping system equals one at zero time and is the occupation-weighted sum of exp(i Δk·displacement to the nearest image) evolved under the rate equation, and its equilibrium-averaged variants are the stated averages over initial or final states. Model decay curves evaluated from parameters have the stated rates, amplitudes and baseline, the Fey model curves equal the response of two-site hexagonal hopping, and fitting a noiseless model curve whose parameters lie near the starting guess recovers that curve. Rates extracted from a system reproduce its decay rates.",
    INPUTS,
    "All rate sets, momentum transfers, initial occupations, model parameters and time grids.",
    UNIT + "nothing stable covers scattering functions.",
    ["dynamics/isf.py", "dynamics/incoherent_propagation/isf.py"],
    [("scattering models and fits", "dynamics/isf.py"), ("scattering from rates", "dynamics/incoherent_propagation/isf.py")],
    ["scattering function values", "fit results"],
    {"technique": "analytic reference and fit round trips", "level_note": "Fit recovery only for well-conditioned parameters."},
)
prop(
    "C18",
    "Overlaps transform and interpolate as Fourier transforms",
    "The overlap of two wavepackets is the pointwise product of one's conjugate with the other at every sample of their common cell, its momentum form is the unitary discrete Fourier transform of that product (kernel exp(-ik·x)/√N) and converts back exactly, and interpolating it at any momentum equals the direct Fourier sum Σ O(x) exp(ik·x) over the cell centred on the origin in its first two axes, agreeing with √N times the transform at -k for lattice momenta k. Swapping the two states conjugates the overlap and the overlap at zero momentum is their inner product.",
    INPUTS,
    "All wavepackets, lattices, offsets between cells and momenta on or off the lattice.",
    UNIT + "the overlap tests cannot be collected at the pinned commit.",
    ["overlap/calculation.py", "overlap/conversion.py", "overlap/interpolation.py", "overlap/overlap.py"],
    [("overlap calculation", "overlap/calculation.py"), ("overlap transform", "overlap/conversion.py"), ("overlap interpolation", "overlap/interpolation.py")],
    ["overlap arrays"],
    {"technique": "differential test against direct sums", "level_note": "Small cells; Angstrom-scale momenta."},
)
prop(
    "C19",
    "Cached functions are transparent over any call history",
    "A function whose results are cached to disk returns, over any sequence of calls, cache hits, forced reloads and bypasses with differing arguments, an object equal to what the undecorated function would return for that call's cache entry: the first computation for each path is stored and returned unchanged afterwards until explicitly recomputed. A call that raises, or that is interrupted or killed at any point up to the entry being completely written, leaves the previous entry (or none) for later calls, and different paths never share entries.",
    ["histories", "crash_points", "fault_sequences"],
    "All sequences of cached, uncached, load-only and recompute calls over several paths, with functions that raise or return arrays/objects, and missing directories.",
    "No stable test touches caching; a stale or poisoned entry appears only after a particular history.",
    ["util/decorators.py"],
    [("disk caches", "util/decorators.py")],
    ["returned values", "cache files", "number of underlying calls"],
    {"technique": "stateful model-based testing (rule-based state machine) with injected faults", "level_note": "All files live in a scratch directory."},
)
prop(
    "C20",
    "Occupation probabilities are conserved by every reduction",
    "Occupation probabilities taken from states (or density matrices) are the squared amplitudes (or real diagonal), and summing, averaging, slicing or converting lists of them gives the corresponding marginal, mean or slice of those numbers over the requested axes, with every untouched axis kept in order. Total probability equals the squared norm and is unchanged by marginalisation.",
    INPUTS,
    "All state lists, axis choices (including reordered) and list dimensions.",
    "Nothing stable covers probability vectors.",
    ["probability_vector/probability_vector.py", "probability_vector/conversion.py"],
    [("reductions", "probability_vector/probability_vector.py"), ("conversion", "probability_vector/conversion.py")],
    ["probability arrays"],
    {"technique": "model-based check against numpy marginals", "level_note": "Lists up to 3 dimensions."},
)
prop(
    "C21",
    "Closed-form dissipation integrals match their defining integrals",
    "The electron-bath friction integrals reported for Hermitian coupling equal numerical evaluation of their defining integrals: the occupation integrand is n(k)(1-n(k')) with k' carrying the extra energy, is positive, satisfies detailed balance between energy gain and loss and depends only on energies relative to temperature, and its integral tends to m·k_B·T/(ħ²k_F) per unit Bose factor at low temperature. The potential integral is the angular integral over φ in (0, π) of 4mk_F³/(2πħ)³ · sin φ · V(q)² · overlap(q) at q = k_F sin(φ/2) with V the screened Coulomb potential of the hydrogen charge density, linear in the overlap and conjugated with it, and the full integral is the product of the two.",
    INPUTS,
    "All temperatures, frequencies, Fermi momenta, boson masses and overlap functions in the physical range.",
    "No stable test evaluates the integrals.",
    ["dynamics/hermitian_gamma_integral.py"],
    [("occupation and overlap integrals", "dynamics/hermitian_gamma_integral.py")],
    ["integral values"],
    {"technique": "differential test against independent quadrature", "level_note": "Quadrature tolerance 1e-5."},
)
prop(
    "C22",
    "Plots show exactly the data and coordinates they are given",
    "Every line, mesh or scatter drawn for a state, operator, potential, probability, kernel or eigenvalue set has as values the chosen measure (real, imaginary, absolute, angle) of the underlying data and as coordinates the matching positions, momenta, indices or energies, in the order of the basis. Slicing for a plot selects the requested index of every hidden axis, the requested axis scale is the one drawn on, nonlinear axis scales invert exactly and do not depend on the unit of the data, nothing drawn is cut off by the view limits, and drawing never changes the data given.",
    INPUTS,
    "All bases, slices, axes, measures and scales accepted by the plotting functions.",
    "No test inspects any plot.",
    ["util/plot.py", "util/util.py", "util/squared_scale.py", "state_vector/plot.py", "operator/plot.py", "potential/plot.py", "kernel/plot.py", "probability_vector/plot.py", "stacked_basis/plot.py", "state_vector/plot_value_list.py", "dynamics/plot.py", "basis/plot.py"],
    [("plot data helpers", "util/plot.py"), ("measures and slices", "util/util.py")],
    ["artist data of the returned figures"],
    {"technique": "generated data drawn on an off-screen canvas and read back from the artists", "level_note": "Checks the data handed to the plotting library, not pixels."},
)
prop(
    "C23",
    "Library calls never modify their inputs",
    "No conversion, query, builder, decomposition or simulation modifies any basis, state, operator, kernel, potential, rate set, path or array passed to it, so evaluating any sequence of calls on shared objects gives the same results as evaluating each on fresh copies, in any order. Repeating a call with the same arguments gives the same result.",
    ["inputs", "histories"],
    "All public call sequences over shared arguments.",
    "Unit tests build fresh arguments for every call, so aliasing or in-place edits stay invisible.",
    ["operator/operations.py", "state_vector/conversion.py", "kernel/kernel.py", "potential/potential.py", "wavepacket/wavepacket.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "util/interpolation.py", "stacked_basis/util.py"],
    [("functions returning new values", "operator/operations.py")],
    ["argument arrays before and after"],
    {"technique": "generated call sequences under a monitor: deep snapshots of arguments and earlier results around every call, repetition, and re-evaluation on fresh copies in another order in a fresh process", "level_note": "Covers the calls made by the generated inputs of all other properties (except C19); results of calls which use random numbers, files or drawing canvases are not repeated."},
)
prop(
    "C24",
    "Trajectory and band summaries are the stated statistics",
    "The quantities that summarise simulated states and bands are the statistics they name: mean positions and momenta, periodic (unwrapped) positions, spreads and coherent coordinates x0, k0, sigma0 of each state along the chosen axis; mean square displacement, scattering function and drift at every time difference averaged over all pairs of times; thermal band occupations independent of the zero of energy, average band energies, total band occupations of a state, and effective masses which for a free particle are its mass.",
    INPUTS,
    "All state lists over time, bases, axes, lattices, wavepackets and temperatures.",
    "No test evaluates any of these summaries; their errors (a wrong axis, normalisation, lag count or phase unwrap) still give plausible curves.",
    ["state_vector/plot.py", "wavepacket/plot.py", "state_vector/plot_value_list.py", "wavepacket/get_eigenstate.py"],
    [("trajectory statistics", "state_vector/plot.py"), ("band statistics", "wavepacket/plot.py")],
    ["returned value lists and drawn lines"],
    {"technique": "differential against sums over dense position and momentum amplitudes, analytic Gaussian and free-particle cases, invariance under a shift of the zero of energy", "level_note": "States of up to 64 points in 1-3 dimensions."},
)
prop(
    "C25",
    "Results do not depend on how the system is described",
    "Observable results are the same for every equivalent description of one physical system, up to the corresponding relabelling: lattice axes listed in another order; the lattice rotated or mirrored; the origin moved by a whole number of sample points; the zero of energy shifted; lengths, masses, energies, rates and times in other units; bands relabelled, multiplied by phases, or mixed within a wavevector; the starting cell of a hop translated. This holds for band energies and densities, evolved states, occupations and scattering functions of hopping systems, localised states and their Hamiltonians, continuous potentials and derivatives, sample points, path distances, Bragg points, interpolated overlaps, noise kernels and operators, and trajectory summaries. Energies at opposite wavevectors agree for real potentials.",
    ["inputs", "configurations"],
    "All lattices, sizes, bases, potentials, rates, wavepackets and pairs of descriptions of them (for kernels built from displacements: axis-aligned lattices).",
    "Every test fixes one description (usually a cubic cell with its first axis along x, in one set of units), so an axis, unit, origin or orientation built into the code by accident is invisible.",
    ["hamiltonian_builder/momentum_basis.py", "wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "wavepacket/localization/_projection.py", "dynamics/schrodinger/solve.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "dynamics/incoherent_propagation/isf.py", "potential/conversion.py", "basis/util.py", "stacked_basis/util.py", "stacked_basis/brillouin_zone.py", "overlap/interpolation.py", "kernel/build.py", "kernel/gaussian.py", "state_vector/plot.py"],
    [("band energies and states", "wavepacket/wavepacket.py"), ("hopping rate matrix", "dynamics/incoherent_propagation/tunnelling_matrix.py"), ("points and distances", "stacked_basis/util.py"), ("kernels from displacements", "kernel/build.py")],
    ["energies, densities, occupations, curves and kernels of two descriptions"],
    {"technique": "metamorphic: the same generated system under two descriptions, compared up to the relabelling (no model of the result is needed)", "level_note": "Up to 64 sample points in 1-3 dimensions; degenerate bands are compared through densities of whole groups."},
)
prop(
    "C26",
    "Results depend on values, not on how they are stored",
    "A call gives the same result when the same values are passed in another form: arrays that are strided, reversed, non-contiguous or column-major views, read-only or not; numpy scalars instead of Python numbers; bases built from such arrays; and, where the values allow it, real, complex or integer arrays. A function may refuse a number type with a TypeError, but does not silently return something else. No call depends on the memory layout of, or on spare memory next to, the arrays it is given, and none overwrites an argument, however it is stored.",
    ["inputs", "configurations"],
    "All public calls on all inputs, with every array stored in any layout and number type that represents the same values.",
    "Unit tests pass freshly made contiguous arrays of one type; a flattening in memory order, a reinterpretation of a buffer, or a type taken from an argument works on those and corrupts views.",
    ["basis/conversion.py", "basis/basis_like.py", "stacked_basis/conversion.py", "operator/operator.py", "operator/operations.py", "state_vector/state_vector_list.py", "wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "potential/potential.py", "kernel/kernel.py", "dynamics/incoherent_propagation/tunnelling_matrix.py", "overlap/calculation.py", "probability_vector/probability_vector.py", "util/interpolation.py"],
    [("flattening and reshaping of coefficient arrays", "basis/basis_like.py"), ("conversion along one axis", "basis/conversion.py"), ("results of the argument's number type", "operator/operations.py")],
    ["results of each call and of its repetition with other storage"],
    {"technique": "metamorphic: every monitored call repeated with the same values in eight other forms; differences count only where rounding noise on the arguments leaves the result as it is", "level_note": "Covers the calls made by the generated inputs of all other properties except C19 and C22 (drawing); vectors are flat by contract, so their shape is not varied."},
)
prop(
    "C27",
    "Every result says on which basis its values are",
    "The basis handed back with a result is the one its values are given on: the same lattice vectors, number of states and kind of states (sample points, plane waves, truncated or bespoke states) as the arguments determine. A conversion hands back the basis asked for; an operation on operators, states, overlaps, kernels or probabilities keeps the basis of its operands (rows from the left factor, columns from the right, list labels from the list); an evolution gives the basis of the system, listed by the times given; eigenstates, projections and noise operators are on the basis of their operator or kernel; a wavepacket put together over its cells is on the lattice repeated that many times; and functions documented to give fundamental position or momentum bases give those of the same lattice.",
    INPUTS,
    "All public calls that hand back a basis, on all inputs.",
    "Tests compare values, or only shapes; a basis of the right size with another lattice, sampling or order of axes gives right-looking arrays and wrong positions, momenta, distances and conversions later on.",
    ["operator/operations.py", "operator/operator.py", "operator/operator_list.py", "operator/conversion.py", "operator/build.py", "state_vector/state_vector.py", "state_vector/state_vector_list.py", "state_vector/conversion.py", "state_vector/eigenstate_calculation.py", "probability_vector/probability_vector.py", "overlap/calculation.py", "overlap/conversion.py", "kernel/kernel.py", "kernel/build.py", "kernel/conversion.py", "kernel/solve/_fft.py", "kernel/solve/_eigenvalue.py", "kernel/solve/_taylor.py", "dynamics/schrodinger/solve.py", "wavepacket/get_eigenstate.py", "wavepacket/conversion.py", "wavepacket/eigenstate_conversion.py", "hamiltonian_builder/momentum_basis.py", "potential/conversion.py"],
    [("basis entry of returned objects", "operator/operations.py"), ("unfurled lattice", "wavepacket/eigenstate_conversion.py"), ("basis of noise operators", "kernel/solve/_fft.py")],
    ["the basis of each result, by its sizes, lattice vectors and action on a test vector"],
    {"technique": "invariant over all generated calls: the basis of each result is held against a table (function, part of the result, basis of an argument or a sampling of it), compared by what it describes", "level_note": "Covers the public functions called by the checks of C01-C18, C20, C21, C24 and C25; parts whose size comes from a number argument are left to those checks."},
)
