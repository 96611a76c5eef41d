"""how each property is decided, for DESIGN.md"""
NOTES = {
 "C01": dict(spec="PointMass and Sphere potential, field, gradient: value at a generic point of a (..., 3) batch, inside/on/outside split by the path condition; fresh objects and objects re-parametrised through every setter",
             oracle="Newton's closed forms over (mass, density, radius, location, point) written in specs/gravity.py",
             lemmas="g = grad U, gradient = Jacobian of g, symmetric, trace 0 outside and -4 pi G rho inside, continuity on the surface"),
 "C03": dict(spec="gravity.Prism potential, field, gradient plus mass, volume, centre and rejection of inverted boxes; calls of the kernels are replaced by the kernel contracts proved in C05",
             oracle="signed corner sums of the kernels with the constant and sign of the convention of C01",
             lemmas="corner sums annihilate functions of fewer than three coordinates, so the kernels' derivative lemmas of C05 make field = grad potential and gradient = grad field"),
 "C04": dict(spec="MagneticPrism scalar potential, H, B, H gradient, moment; B splits on the closed prism",
             oracle="signed corner sums (C05 kernels); B = mu_0 (H + M 1[inside])", lemmas="as C03"),
 "C05": dict(spec="the nine kernels, three times: numpy fallback, Cython wrapper (mechanically translated) and the C++ functions they call (clang AST), at every point with each zero pattern of the coordinates a separate path",
             oracle="the closed form with singular terms dropped", lemmas="each kernel is the stated derivative of its parent up to terms that cancel over a box; symmetries"),
 "C06": dict(spec="MagneticDipoleWholeSpace A, B, H (Cartesian and cylindrical arguments and results) and MagneticPoleWholeSpace B, H; orientation given as any vector or axis letter",
             oracle="dipole and pole closed forms", lemmas="B = curl A, div B = 0, curl B = 0, div A = 0, H = B/mu"),
 "C07": dict(spec="CircularLoopWholeSpace A, B, H in both coordinate systems for a generic orientation; rotation_matrix_from_normals is used through its contract (C22)",
             oracle="elliptic-integral solution off the axis; in the near-axis window the Taylor polynomial the code uses, shown to be the expansion of the elliptic form",
             lemmas="B = curl A through the derivatives of K and E, div B = 0, agreement with the on-axis value, orientation reversal"),
 "C08": dict(spec="LineCurrentWholeSpace A, B, H, potential, E, J for a symbolic number of segments: the loop over segments is summarised by an invariant, the generic segment is proved",
             oracle="finite-wire closed forms and two grounded electrodes", lemmas="curl, divergence and gradient of the segment forms"),
 "C09": dict(spec="PointCurrentWholeSpace, PointCurrentHalfSpace, DipoleHalfSpace: potential, E, J, two-electrode forms, rejection above the surface",
             oracle="image solutions", lemmas="E = -grad V, J = E/rho, div J = 0, J_z = 0 on the surface"),
 "C10": dict(spec="ElectrostaticSphere potential, E, J for every `field` selection, charge density", oracle="boundary-value solution inside/outside",
             lemmas="E = -grad V on both sides, continuity of V and of the normal J, jump of normal E = charge/epsilon_0, harmonicity"),
 "C11": dict(spec="MagnetostaticSphere potential, H, B for every `field` selection", oracle="boundary-value solution inside/outside", lemmas="as C10 with permeability"),
 "C12": dict(spec="ElectricDipoleWholeSpace and MagneticDipoleWholeSpace (fdem): potentials, E, J, H, B; frequency scalar or array, quasistatic on and off, any orientation",
             oracle="Ward and Hohmann's closed forms", lemmas="curl E = -i omega mu H, curl H = J_hat, B = mu H, J = sigma E, static limit",
             bounds="none; Ampere's law with displacement current is an open finding (section 4)"),
 "C13": dict(spec="HarmonicPlaneWave and TransientPlaneWave: E, J, H, B, both orientations, scalar and array frequency/time", oracle="one-dimensional closed forms", lemmas="1-D Faraday and Ampere laws, transversality, decay"),
 "C14": dict(spec="omega, wavenumber, sigma_hat, skin_depth, diffusion_distance, peak_time, peak_distance, theta, unit conversions of the bases, after arbitrary setter histories", oracle="defining formulas", lemmas="physical branch of the wavenumber (Im <= 0), extremality of the peaks"),
 "C15": dict(spec="tdem.ElectricDipoleWholeSpace E, J, H, dH/dt, B, dB/dt", oracle="Ward and Hohmann's step-off solution", lemmas="each derivative method is d/dt of its field; diffusive Faraday and Ampere laws"),
 "C16": dict(spec="the module functions of the central loop and vertical dipole, and the class VerticalMagneticDipoleHalfSpace, 2- and 3-coordinate receivers", oracle="closed forms with erf, iv", lemmas="every *_time_deriv is d/dt of its field, B = mu H, late-time limits"),
 "C17": dict(spec="fdem.MagneticDipoleHalfSpace.magnetic_field (secondary/total, each orientation, frequency arrays) and the harmonic central loop", oracle="Ward and Hohmann's surface solution", lemmas="linearity, reciprocity XY/YX, XZ/ZX"),
 "C18": dict(spec="MagneticDipoleLayeredHalfSpace.magnetic_field, sigma_hat, wavenumber: sum over the filter with arbitrary abscissae and weights, each entry a function of the layer contract (C19); scalar / per-layer / per-layer-and-frequency parameters; rejections",
             oracle="Ward and Hohmann's Hankel kernels", lemmas="each mode is the gradient of a harmonic potential, reciprocity",
             bounds="none on layers, receivers, frequencies; quadrature error of the filter is outside the property"),
 "C19": dict(spec="rTE_forward of the numpy kernel, the Cython wrapper (layout, size checks) and the C++ loop: invariants for the layer loop (admittance recurrence), frame on the output buffers, bounds of every pointer access",
             oracle="surface-admittance recurrence", lemmas="same-material layer, zero thickness and layer splitting leave the recurrence unchanged"),
 "C20": dict(spec="rTE_gradient of the numpy kernel, wrapper and C++ loops: forward and backward layer loops by invariant; shapes and positions", oracle="derivative of the recurrence by symbolic differentiation of C19's step"),
 "C21": dict(spec="the coordinate transforms of points and vectors, the deprecated spellings, there-and-back compositions, including axes and origin", oracle="standard formulas; orthonormality"),
 "C22": dict(spec="rotation_matrix_from_normals (matrix and Rotation), rotate_points_from_normals, generic/parallel/anti-parallel/within tolerance", oracle="R R^T = 1, det = 1, R v0 = v1, fixes v0 x v1; rigid motion about x0"),
 "C23": dict(spec="every contract case of the other properties re-run with the frame as postcondition: arguments, attributes, earlier arrays and result storage", oracle="storage identity in the model, bytewise snapshots on the package"),
 "C24": dict(spec="every validated attribute of every class: constructor and setter, accepted and rejected value classes, read-back, defaults, nothing else changed", oracle="the table in specs/attrs.py"),
 "C25": dict(spec="every contract case with observation points re-run with tuple, list, integer, Fortran-ordered, strided and zero-dimensional forms, and wrong last axes", oracle="the result of the plain array form"),
 "C26": dict(spec="geoana.utils and the geometric helpers of the bases", oracle="their documented value"),
 "C27": dict(spec="Oksar.simulation_grid, displacement_vector; EarthquakeInterferogram.get_LOS_vector; EarthquakeInterferogram data location keys", oracle="Okada (1985) with the module's degree constant; spherical line of sight",
             bounds="lists of 1 to 3 locations; points off the tolerance planes (assumption in the evidence)"),
}
