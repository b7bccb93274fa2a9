"""The properties: one place for properties.jsonl and MANIFEST.json (tools/gen.py)."""
SIM = "nannos/simulation.py"
LAY = "nannos/layers.py"
LAT = "nannos/lattice.py"
EXC = "nannos/excitation.py"
GEO = "nannos/geometry.py"
OPT = "nannos/optimize.py"
SMP = "nannos/sample.py"
PAR = "nannos/parallel.py"
INI = "nannos/__init__.py"
FFT = "nannos/formulations/fft.py"
TAN = "nannos/formulations/tangent.py"
JON = "nannos/formulations/jones.py"
HLP = "nannos/utils/helpers.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, bounds, observe=None, technique=None, kind="claimed", reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, observe=observe, technique=technique, reason=reason))


prop("C01", "Reciprocal lattice is the dual basis",
     "For every pair of non-parallel basis vectors, the reciprocal vectors satisfy K_i . L_j = 2 pi delta_ij, the area is the absolute determinant of the basis, and the sampling grid holds the points s L1 + t L2 for s, t equally spaced from 0 to 1 (shape = discretization). For a one-dimensional lattice of period a the same holds with the dual vector 2 pi / a along x, and a stripe marks exactly the grid points within half its width of its center. The constant arrays and layers made by a lattice have its shape, value and identity.",
     ["inputs"], "all real basis vectors with non-zero determinant, all periods > 0, all stripe centers and widths; grids up to 3 x 3",
     "the tests use a handful of square lattices; an error in an off-diagonal element needs an oblique lattice, and holds or fails for all real vectors",
     [LAT], [("Lattice.reciprocal", LAT), ("Lattice.area", LAT), ("Lattice.unit_grid / grid / transform", LAT), ("Lattice.stripe", LAT)],
     "all basis vectors (nonlinear real arithmetic); grids up to 3x3")
prop("C02", "Truncation keeps the nearest harmonics, closed under negation",
     "For every lattice and every requested number n of harmonics, the harmonics are distinct integer pairs, at most n of them, contain (0,0), are closed under negation, and are returned in the requested order without loss or duplication. Circular truncation keeps complete shells of the reciprocal vectors nearest to the origin (no dropped vector is nearer than a kept one); parallelogram truncation keeps the full odd square block; one-dimensional truncation keeps the orders -m..m on x. A user-supplied list of harmonics is used as given.",
     ["inputs", "configurations"], "all n up to the bound; circular: all lattices in one-parameter families of rectangular and oblique cells covering aspect ratios around 1 to 4; the counts for 1D and parallelogram truncation: every n up to 60",
     "tests take a few values of n on square lattices, where both axes are interchangeable and shells are symmetric",
     [LAT], [("circular truncation", LAT), ("parallelogram truncation", LAT), ("1D truncation", LAT), ("get_harmonics(sort)", LAT)],
     "circular: lattice families with one free parameter, n up to 13 (quick) / 21 (thorough)")
prop("C03", "Results per diffraction order are attributed to the right order",
     "Looking up an order returns the entry of the harmonic with exactly that pair of integers; results returned as dictionaries hold, for every order of the truncation and no other, the same reflected and transmitted values as the array form, for real efficiencies and complex amplitudes alike. Asking for dictionaries changes no later result, and an integer order is accepted only for one-dimensional lattices.",
     ["inputs", "histories"], "all permutations / choices of harmonics lists, all layer and wave parameters, sequences of queries",
     "no test asks for the dictionary form; a mix-up of orders needs several harmonics with different amplitudes",
     [SIM], [("Simulation.get_order_index / get_order", SIM), ("Simulation.diffraction_efficiencies(return_dict)", SIM)],
     "up to 5 harmonics with symbolic integer orders; every wave")
prop("C04", "Excitation is a unit transverse plane wave",
     "For every wavelength and every triple of angles, the wavevector has length 2 pi / wavelength and the direction of the polar and azimuthal angles, and the amplitude is a real unit vector orthogonal to it with the stated polarization angle. In the incidence medium the incident field seen by the simulation in the zeroth harmonic is this amplitude divided by the refractive index, with the magnetic field k x E / omega, and all other harmonics are zero.",
     ["inputs"], "all wavelengths > 0, all angles with |theta| < 90 degrees, all lossless incidence media",
     "tests use a few angles, mostly with phi = psi = 0, where sign and axis errors cancel",
     [EXC, SIM], [("PlaneWave.__init__", EXC), ("Simulation.__init__ (initial amplitudes)", SIM)],
     "every angle triple and wavelength (trigonometric functions as points of the unit circle)")
prop("C05", "Diffracted wavevectors follow the grating equation",
     "For every lattice, incidence medium, wave and set of harmonics, the in-plane wavevector of harmonic (m,n) is n_in k0 (sin theta cos phi, sin theta sin phi) + m K1 + n K2, with K1, K2 the reciprocal vectors of the lattice. The position of the zeroth harmonic is that of the pair (0,0), and the incident amplitude sits only there.",
     ["inputs"], "all lattices, all waves, all permittivities of the incidence medium, up to 5 symbolic harmonics",
     "square lattices with axis-aligned vectors hide transposed reciprocal matrices; tests never look at the wavevectors",
     [SIM, LAT], [("Simulation.__init__ (kx, ky)", SIM), ("Lattice.reciprocal", LAT)],
     "every lattice, wave, index; lists of up to 5 harmonics with integer orders in [-3,3]")
prop("C06", "Energy is conserved in uniform lossless stacks",
     "For every stack of uniform lossless layers, every wave and every non-grazing incidence, reflection plus transmission is exactly 1, each lies in [0,1], and total internal reflection gives 0 transmission. With an absorbing substrate the reflection and the power entering the substrate sum to 1.",
     ["inputs", "configurations"], "all angles, wavelengths, indices and thicknesses; stacks of up to 4 layers; propagating and evanescent films and substrates",
     "the tests sum R + T at a few points with a tolerance; energy conservation is an identity over all angles, indices and thicknesses",
     [SIM, LAY], [("Simulation.get_S_matrix", SIM), ("Simulation.get_z_poynting_flux", SIM), ("Simulation.diffraction_efficiencies", SIM), ("Layer.solve_uniform", LAY)],
     "interface and one film: every wave of s or p polarization and medium, one wave of mixed polarization out of the axes; two films: every medium and thickness at one oblique wave; three and four films: every thickness, given media")
prop("C07", "Uniform stacks obey the Fresnel and Airy formulas",
     "For a single interface the reflected and transmitted complex amplitudes are the Fresnel coefficients for s and p polarization and their projection for every mixture, for every incidence angle, azimuth and pair of media, including absorbing and totally reflecting substrates. For one film they are the Airy formulas with the film's phase thickness.",
     ["inputs"], "all angles, polarizations, wavelengths, complex permittivities of substrate and film, thicknesses",
     "the tests compare with no closed form, only with stored numbers or between backends",
     [SIM, LAY, EXC], [("Simulation.get_S_matrix", SIM), ("Simulation._get_complex_orders", SIM), ("interface matrices", SIM)],
     "one interface: all inputs; one film: all inputs with a symbolic phase factor")
prop("C08", "Splitting, empty or duplicated layers leave the response unchanged",
     "Inserting a layer of zero thickness, splitting a layer in two of the same total thickness, inserting a layer of the medium of its neighbour in a film, or replacing a layer by a copy of an identical one changes neither the efficiencies nor the complex amplitudes, for every stack and wave. This also holds when the copy precedes its original or its original is not in the stack.",
     ["inputs", "configurations"], "all angles, media, thicknesses t1 + t2; patterned layers with arbitrary eigenmodes; all positions of the copy",
     "no test builds two stacks that must agree; copies are tested only for their attributes",
     [SIM, LAY], [("Simulation.get_S_matrix", SIM), ("Layer.copy", LAY), ("Simulation.build_matrix (copies)", SIM)],
     "films fully symbolic; one patterned layer with an arbitrary 2x2 mode basis")
prop("C09", "Tangential fields are continuous across every interface",
     "At every interface between consecutive layers, the tangential electric and magnetic fields obtained at the bottom of the upper layer equal those at the top of the lower layer, harmonic by harmonic, for every stack, wave and thickness. This includes patterned layers with arbitrary eigenmodes and the first and last half-spaces.",
     ["inputs", "configurations"], "all waves, media and thicknesses; uniform stacks of up to 4 layers and patterned layers with arbitrary eigenvectors and eigenvalues",
     "fields are only smoke-tested; continuity relates two independent queries at many depths",
     [SIM], [("Simulation._solve_int / _solve_ext", SIM), ("Simulation.get_field_fourier", SIM), ("amplitude translation", SIM), ("interface matrices", SIM)],
     "1 harmonic with arbitrary modes, several harmonics in uniform layers")
prop("C10", "Fields satisfy Maxwell's equations inside every uniform layer",
     "In every uniform layer, at every depth and for every harmonic, the six Fourier components satisfy the curl and divergence equations of Maxwell with the layer's permittivity: fields at two depths are related by the forward and backward exponentials of the layer, and each part is a transverse plane wave of the dispersion k.k = epsilon omega^2. In patterned layers the longitudinal components are those implied by the transverse ones through the permittivity operator.",
     ["inputs"], "all waves, media, thicknesses and depths", "no test evaluates the equations on the returned fields",
     [SIM, LAY], [("Simulation.get_field_fourier", SIM), ("Layer.solve_uniform", LAY)],
     "film of symbolic thickness, two symbolic depths")
prop("C11", "Poynting flux equals the flux of the returned fields",
     "The forward and backward fluxes of a layer add up, harmonic by harmonic, to the z component of Re(E x H*) computed from the fields returned in the same layer, for every wave, medium and depth. The efficiencies are these fluxes divided by the incident one, and in a lossless stack the total flux is the same at every depth of every layer.",
     ["inputs"], "all waves, lossless and absorbing media, thicknesses and depths; patterned layers with arbitrary modes",
     "flux and fields come from different code paths that no test compares",
     [SIM], [("Simulation.get_z_poynting_flux", SIM), ("Simulation.get_field_fourier", SIM), ("Simulation.diffraction_efficiencies", SIM)],
     "one film, all inputs; arbitrary modes for one harmonic")
prop("C12", "Complex amplitudes are consistent with the efficiencies",
     "For every propagating order, the squared modulus of the complex reflected (transmitted) amplitude vector equals the reflected (transmitted) efficiency of that order, whatever the names and thicknesses of the outer layers. Without the per-order option the amplitudes are summed over the orders for each component.",
     ["inputs", "configurations"], "all waves, media, names of layers, lattices and up to 3 harmonics",
     "the test checks sums on one grating with layers named as the code expects",
     [SIM], [("Simulation._get_complex_orders", SIM), ("Simulation.diffraction_efficiencies(complex)", SIM)],
     "single interface and film, up to 3 harmonics, all inputs")
prop("C13", "Fourier operators of a pattern are the Toeplitz matrices of its coefficients",
     "For every sampled pattern and every set of harmonics, the operator entry (i,j) is the Fourier coefficient of the pattern at the difference of harmonics i and j, the forward and inverse transforms are inverse of each other, and a constant pattern gives the constant times the identity. A real pattern gives a Hermitian operator, and shifting the pattern by one sample multiplies each entry by the corresponding phase.",
     ["inputs"], "all complex patterns on grids up to 5 x 4, all harmonics allowed on the grid",
     "tests never look at the operator; transposed axes or a conjugated kernel cancel for symmetric shapes",
     [SIM, FFT], [("Simulation._get_toeplitz_matrix", SIM), ("fourier_transform / inverse_fourier_transform", FFT), ("Simulation.build_matrix", SIM)],
     "grids 3x3, 4x3, 5x4; up to 5 harmonics; every complex value")
prop("C14", "All formulations apply Laurent's rule along and inverse rule across boundaries",
     "For a constant pattern every formulation gives the same operator, and for a one-dimensional pattern described on a two-dimensional lattice with its tangent direction, the improved formulations give the direct rule for the field along the lines and the inverse rule for the field across, in whatever direction the lines run, exactly as the one-dimensional lattice does. Rotating the tangent direction by 90 degrees exchanges the two rules.",
     ["inputs", "configurations"], "all complex patterns on small grids, all tangent directions, all formulations",
     "tests only check that the formulations run; exchanging the two rules still conserves energy",
     [SIM, JON, TAN], [("Simulation._get_Peps", SIM), ("Simulation.build_matrix (formulations)", SIM), ("Simulation._get_nu_hat_inv", SIM)],
     "grids 3x3 and 3x1, up to 3 harmonics, symbolic constant direction and complex Jones directions")
prop("C15", "Anisotropic permittivity acts along its own axes",
     "For a patterned anisotropic layer the transverse electric displacement of the layer's operator is the permittivity tensor applied to the electric field, component by component in the x, y axes used for the fields, for every tensor. A scalar tensor gives exactly the isotropic layer, and a layer uniform in the plane of tensor diag(a, b, c) shows index sqrt(a) to a normally incident wave polarized along x and sqrt(b) along y.",
     ["inputs"], "all complex tensors with a 2x2 + 1 block structure on small grids",
     "the only anisotropic test checks that the calculation runs",
     [SIM], [("Simulation.build_matrix (anisotropic)", SIM), ("Simulation._get_nu_hat_inv", SIM)],
     "grids 3x3, up to 3 harmonics")
prop("C16", "Lossless patterned layers have Hermitian operators",
     "For a real permittivity pattern (or Hermitian tensor) the permittivity operator in the original formulation and in the one-dimensional tangent formulation is Hermitian, so is the magnetic operator, and the eigenvalue matrix is the product of both minus the term of the longitudinal fields, for every wave. This is what makes the conservation of energy hold at every truncation.",
     ["inputs"], "all real patterns on small grids, all waves with real wavevectors",
     "tests check a few energy balances with a tolerance",
     [SIM], [("Simulation.build_matrix", SIM), ("longitudinal-field matrices", SIM)],
     "grids 3x1, 3x3, up to 3 harmonics, every real pattern")
prop("C17", "Only decaying exponentials are ever evaluated",
     "In passive layers (Im epsilon >= 0) the z wavenumbers have non-negative imaginary part and non-negative real part when real, so every exponential evaluated while computing the response or the fields at a depth inside the layer has modulus at most 1, whatever the thickness. This is why thick layers do not overflow.",
     ["inputs"], "all passive permittivities, waves, thicknesses and depths in [0, thickness]; all eigenvalues of patterned layers",
     "tests use thin layers; a growing branch overflows only for thick or strongly evanescent ones",
     [SIM, LAY], [("Layer.solve_uniform", LAY), ("Layer.solve_eigenproblem", LAY), ("Simulation.get_S_matrix", SIM), ("amplitude translation", SIM)],
     "3-layer stacks, arbitrary modes, depths inside the layer")
prop("C18", "Cached and incremental scattering matrices equal fresh ones",
     "Whatever sequence of queries (partial stacks, fields, efficiencies, resets, changes of thickness followed by a reset) was made before, every query returns what a freshly built simulation with the same parameters returns. The scattering matrix of a stack is the Redheffer star product of those of its two parts, and that of an empty range is the identity.",
     ["histories", "inputs"], "all sequences of up to 3 earlier operations out of 8, all thicknesses, media and waves",
     "tests make at most one query per object; a stale cache entry needs a particular order of calls",
     [SIM], [("Simulation.get_S_matrix (cache)", SIM), ("Simulation.reset", SIM), ("Simulation._solve_int", SIM)],
     "4-layer stacks, histories up to length 2 (quick) / 3 (thorough)")
prop("C19", "Simulations sharing layers do not disturb each other",
     "When the same layer objects are used in several simulations (other wavelength, angle, order of layers or number of harmonics), every query on each simulation returns what it would with layers of its own, in every interleaving of their queries. Building or querying a simulation does not change the user's inputs.",
     ["histories", "inputs"], "all interleavings of up to 4 operations on two simulations, all waves and media",
     "no test uses two simulations alive at the same time",
     [SIM, LAY], [("Simulation.solve", SIM), ("Simulation.get_S_matrix", SIM), ("attributes stored on layers", LAY)],
     "two simulations, interleavings up to length 4")
prop("C20", "Geometry masks mark exactly the grid points inside the shape",
     "For every shape, the mask is true exactly at the grid points (in lattice coordinates) contained in it, for grids of every size, and is indexed [x, y] as the lattice grid is. Circles, ellipses, rectangles, squares and polygons describe the shape with the given center, sizes and rotation, on square and oblique lattices.",
     ["inputs", "configurations"], "all shapes (arbitrary answers of the containment predicates consistent with geometry), grids up to 4 x 3, all lattices, centers, sizes, angles",
     "tests draw a few shapes without looking at the mask",
     [GEO, LAT], [("shape_mask", GEO), ("geometry_mask", GEO), ("circle / ellipse / rectangle / square / polygon", GEO)],
     "grids up to 4x3; the shape library is a stub with its documented contract")
prop("C21", "Real-space fields are the Fourier series of the harmonic amplitudes",
     "For every set of amplitudes, the field on the grid point (i, j) of an N x M unit cell is the sum over harmonics of amplitude times exp(2 pi i (m i / N + n j / M)); component and field selections return the corresponding parts of the full result, for every layer including uniform ones. The reconstructed permittivity is the truncated Fourier series of the pattern.",
     ["inputs", "configurations"], "all complex amplitudes, harmonics lists, selections, grids up to 5 x 4",
     "tests only call the functions; a swapped axis, a conjugated sign or a wrong component goes unnoticed",
     [SIM, FFT], [("Simulation.get_ifft_amplitudes / get_ifft", SIM), ("Simulation.get_field_grid", SIM), ("Simulation.get_epsilon", SIM)],
     "up to 3 harmonics, grids up to 5x4")
prop("C22", "Density interpolation and projection are monotone maps with exact end points",
     "The interpolation maps density 0 to the first and 1 to the last permittivity, stays between them and is increasing for real ordered values; with several materials it passes through each of them at equally spaced densities. The projection maps 0 to 0 and 1 to 1, stays in [0,1], is increasing for every steepness and threshold, and the multi-level one is the mean of the single ones.",
     ["inputs"], "all densities in [0,1], permittivities, exponents, steepness > 0, thresholds in (0,1)",
     "no test covers these maps",
     [OPT], [("simp / multi_simp", OPT), ("project / multi_project", OPT)],
     "real arithmetic; tanh and powers by their monotonicity axioms")
prop("C23", "The optimizer returns the point it reports",
     "The point and value returned are those of one evaluation: the value is the objective at the returned point with the last projection level; when the stop value is reached the returned point is the one that reached it. Every level starts from the previous result, calls the objective with doubled projection level and the user's remaining arguments, keeps the variables in [0,1], and reports each evaluation to the callback exactly once.",
     ["histories", "inputs"], "all sequences of up to 3 evaluations per level, 2 levels, all objective values and stop values",
     "no test runs the optimizer to a stop value",
     [OPT], [("StopFun", OPT), ("TopologyOptimizer.minimize", OPT)],
     "the numerical minimizer is a stub evaluating arbitrary points; 2 levels, 3 evaluations")
prop("C24", "Adaptive sampling only refines, and returns matching values",
     "The returned points are sorted, distinct, contain all initial points and stay within their range, and each returned value is the function's value at the point of the same index, for scalar and multi-output functions and any order of the initial points; the points depend on the first output only. No point is evaluated twice, intervals already below the relative minimum are not halved without need, and a linear function sampled regularly is returned unchanged.",
     ["inputs", "histories"], "all increasing initial points (3 to 4) and all function values, one round of refinement with arbitrary values",
     "the tests sample two fixed functions",
     [SMP], [("adaptive_sampler", SMP)],
     "3 or 4 initial points, arbitrary function values, bounded refinement rounds")
prop("C25", "Parallel loops return the results in input order",
     "A function decorated for parallel execution returns the list of its results for each element of the first argument, in the order of the inputs, with the remaining positional and keyword arguments passed unchanged to each call, whatever the number of workers and the scheduling. The name of the function is kept.",
     ["schedules", "inputs"], "all inputs of length up to 4, all completion orders",
     "tests run two or three calls and rely on the library",
     [PAR], [("parloop", PAR)],
     "lists of up to 4 elements; the worker pool is a stub returning results in submission order as documented, executing in an arbitrary order")
prop("C26", "Backend selection is a state machine that ends in the requested backend",
     "After any sequence of backend selections, precision and device switches, the package reports the last valid selection and uses that library's arrays and types; an unknown name raises an error and changes nothing. Selecting the current backend is a no-op, and a missing optional library falls back to numpy.",
     ["histories", "configurations"], "all sequences of up to 3 operations over 5 backends, 32/64 bit and device switches, with each optional library present or missing",
     "tests make one fixed sequence of switches",
     [INI], [("set_backend / get_backend", INI), ("use_32_bit", INI), ("use_gpu", INI)],
     "sequences up to length 3 (quick) / 4 (thorough)")
prop("C27", "All backends compute the same results",
     "For every input the efficiencies, complex amplitudes, fields, harmonics, masks and Fourier operators computed with each available backend are those of the numpy backend. Differences between array libraries (transform axes, data types, in-place updates, function names) do not show in any result.",
     ["configurations", "inputs"], "all backends; all inputs of the harnesses shared with the other properties",
     "tests compare a few cases and within a tolerance; scipy, autograd, jax branches are each partly covered",
     [INI, FFT, SIM, HLP], [("backend-specific branches", FFT), ("set_index", HLP), ("lattice transform / truncation branches", LAT)],
     "the backend-specific source branches under models of the five array libraries")
prop("C28", "Invalid input is rejected, valid input is accepted",
     "A negative thickness, duplicated layer names, different lattices in a stack, an unknown formulation, truncation, tangent field type (the layer's own or the one given as argument), field, component, layer name, layer index or diffraction order, a formulation unavailable in one dimension, a shape method other than the stripe in one dimension, a non-integer number of harmonics asked of the lattice, a layer of permeability other than 1, a uniform layer with a tensor permittivity, and a grid too coarse for the harmonics used are rejected with an error; the same calls with valid values are accepted. A grid is too coarse when one of its numbers of samples (in one dimension, the first) is not larger than twice the largest order magnitude, of either sign and along either axis.",
     ["inputs", "configurations"], "all thicknesses, names, formulations, discretizations and harmonics lists within the bounds",
     "tests try one invalid value of each kind; boundaries (0 thickness, limit discretization, negative orders) are not tried",
     [SIM, LAY, LAT], [("Simulation.__init__ checks", SIM), ("Layer.__init__", LAY), ("Lattice.__init__", LAT), ("get_field_grid checks", SIM)],
     "symbolic integers and reals over small ranges")
prop("C29", "Results depend only on lengths relative to the wavelength",
     "Multiplying the wavelength, all periods and all thicknesses by the same positive factor leaves efficiencies and complex amplitudes unchanged, for every stack and wave. Rotating the lattice, the incidence plane and the tangent of the fields about z by the same angle also leaves the efficiencies unchanged.",
     ["inputs"], "all positive factors, rotation angles, waves, lattices and media",
     "a metamorphic relation over all inputs; tests have none",
     [SIM, EXC, LAT], [("Simulation", SIM), ("PlaneWave", EXC), ("Lattice", LAT)],
     "uniform stacks with up to 3 harmonics; scale factor symbolic")
prop("C30", "Momentum flux is constant inside lossless layers",
     "In every uniform layer of real permittivity the three components of the integrated stress tensor are the same at every depth, for every wave and stack, and they equal the sum over harmonics of the Maxwell stress of the returned fields. In the outer media they vanish on the axis they must by symmetry at normal incidence. In a patterned layer the stress is that of its fields and of the displacement of the layer's operator, in every formulation and for tensors, and its zz component is the same at every depth of a lossless one.",
     ["inputs"], "all waves, real permittivities, thicknesses and depths",
     "the test only checks that the function runs",
     [SIM], [("Simulation.get_z_stress_tensor_integral", SIM)],
     "one film; symbolic media, depths and thicknesses; patterned: two orders, arbitrary modes (stress of the fields) or exact modes (constancy)")
prop("C31", "Tangent and Jones fields",
     "Jones vectors have unit length for every nonzero tangent vector; the Jones vector of a unit tangent is parallel to it up to a phase; rotating the tangent rotates the Jones vector, up to a phase; for short tangents it tends to one circular polarization whichever the direction. For every pattern, every vector of the normalized tangent fields has unit length and no vector of the scaled ones is longer than one, with the longest of unit length. The 'fft' field of a pattern of lines is parallel to the lines (or zero, which normalizing replaces by the unit vector along x). The 'opt' field is the real part, turned by 90 degrees, of the Fourier series over the given harmonics whose coefficients the minimization returns, sampled on the grid of the pattern, square or not; the minimized functional is the mean squared deviation of the real part of that series from a target directed along the gradient of the pattern. A tangent field given to the layer is returned as it is; uniform layers have none.",
     ["inputs"], "all real patterns on small grids, all tangent vectors, all results of the minimizer",
     "tests only call the functions",
     [TAN, JON, HLP], [("get_jones_field", JON), ("_get_tangent_field_fft", TAN), ("_get_tangent_field_min", TAN), ("norm / apply_filter", HLP)],
     "symbolic vectors; grids up to 3x3; transforms, minimizer, derivatives, interpolation replaced by over-approximations")
prop("C35", "Filtering is a centred periodic average",
     "apply_filter with radius zero returns the pattern; with positive radii it returns, for every real pattern, the periodic average of the pattern with fixed positive weights of sum one: constant patterns are unchanged and no value leaves the range of the pattern. Shifting the pattern cyclically shifts the result. The weights are a product of one factor per axis, mirror symmetric and decreasing with the distance from the sample itself along axes of odd size (from the middle between the sample and its next neighbour along axes of even size). With lattice vectors given, radii are in the units of the vectors.",
     ["inputs"], "all patterns and radii",
     "tests filter one pattern and look at no value",
     [HLP, FFT], [("_apply_filter", HLP), ("fourier_transform / inverse_fourier_transform", FFT)],
     "grids up to 6x4 (quick) and 12x8 (thorough)")
prop("C36", "Results do not depend on how a structure is described",
     "Shifting all patterns by the same number of samples leaves every efficiency unchanged and multiplies the fields of each harmonic by its phase; describing the same periodic structure with other lattice vectors (exchanged, negated, combined, or those of a larger cell with the corresponding harmonics), or a grating of lines with a two-dimensional lattice, gives the same efficiencies and fields for the same diffracted waves; mirroring the structure and the incident wave, exchanging the two axes, or turning both by 180 degrees, gives the mirrored results. This holds for every formulation when the tangent fields given to the layers are transformed alike. The order and the normalization of the eigenmodes returned by the solver do not matter.",
     ["inputs", "configurations"], "all materials of given layouts on grids of up to 8 x 6 samples, all waves, thicknesses and (arbitrary) modes; shifts, mirrors and lattice changes enumerated",
     "relations between two simulations of the same structure, which no test compares; errors in them (exchanged axes, wrong sign of a phase) are consistent inside one simulation",
     [SIM, LAT, LAY, FFT], [("Simulation.build_matrix / _get_toeplitz_matrix / _get_Peps", SIM), ("Lattice.reciprocal", LAT), ("Simulation.diffraction_efficiencies / get_field_fourier", SIM), ("Layer.solve_eigenproblem", LAY)],
     "two harmonics; operators: every wave and every set of materials of a layout; response: normal incidence, every thickness, arbitrary modes carried over to the image (the matrices are proved to be related)")
prop("C37", "Transmission is reciprocal",
     "The transmission of a stack between two lossless media equals that of the stack upside down lit from the other side along the reversed transmitted wave, for each polarization, also with absorbing and evanescent layers; without absorption the reflections of the specular wave agree as well. For gratings the efficiency of each transmitted order equals that of the reversed path: the same structure upside down, lit in the reversed direction of that order.",
     ["inputs"], "all film media and thicknesses; all profiles and thicknesses of two-order gratings in Littrow mounting",
     "relation between two simulations lit from opposite sides; no test has one, and errors of normalization or of the direction of layers cancel in the energy balance",
     [SIM, LAY, EXC], [("Simulation.get_S_matrix", SIM), ("Simulation.diffraction_efficiencies", SIM), ("Simulation.build_matrix", SIM)],
     "one and two films; gratings of two orders with exact modes, lossless (every profile) and absorbing (a given profile); one pair of media")

NA = [
    ("C32", "Gradients equal the derivative of the results",
     "For the backends with automatic differentiation, the gradient of any real function of the computed quantities equals its derivative with respect to the layer parameters.",
     ["inputs"], "all parameters and objectives", "tests compare a few finite differences",
     [INI, OPT], "the derivative is computed inside the compiled autodiff engines (torch, autograd, jax); no source in the repository implements it, so there is nothing here to execute symbolically"),
    ("C33", "Efficiencies converge as the number of harmonics grows",
     "For every grating the efficiencies converge when the number of harmonics grows, and faster with the improved formulations.",
     ["inputs"], "all gratings, unbounded truncation", "only a limit statement; tests look at one truncation",
     [SIM], "a statement about an unbounded limit of dense eigenproblems in floating point; no finite query with symbolic inputs expresses it"),
    ("C34", "The optimized tangent field minimizes its functional",
     "The iteratively computed tangent field is the minimizer of the smoothness functional over the harmonics in use.",
     ["inputs"], "all patterns", "tests call it once",
     [TAN], "the result is the output of an external iterative minimizer with autodiff gradients and a limited number of iterations; neither can be encoded"),
]
