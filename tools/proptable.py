"""the properties, as data"""
W, F, T_ = "geoana/em/static/wholespace.py", "geoana/em/fdem/wholespace.py", "geoana/em/tdem/wholespace.py"
ST = "geoana/em/static/"
TESTS_FIX = "Existing tests compare a handful of fixed sources on one grid with a re-typed copy of the formula; they cannot quantify over all source parameters, orientations, points and array shapes."

PROPS = [
 dict(id="C01", title="Point-mass and sphere gravity fields are the exact Newtonian ones",
      statement="For every point mass, and for every homogeneous sphere, the gravitational potential, field and gradient tensor returned at any point (inside, on and outside the sphere) equal Newton's closed-form values, so that the field is the gradient of the potential and the gradient is the derivative of the field with the Poisson trace. This holds for every batch shape of observation points and after any change of the body's attributes.",
      over=["inputs", "histories"], quant="all masses, densities, radii > 0, locations, all finite observation points other than the point mass itself, all array shapes (..., 3), objects freshly built or re-parametrised through setters",
      why=TESTS_FIX, files=["geoana/gravity.py", "geoana/shapes.py"],
      mech=[("PointMass.gravitational_potential/field/gradient", "geoana/gravity.py"), ("Sphere.* inside/outside masks", "geoana/gravity.py")], observe=["geoana.gravity.PointMass", "geoana.gravity.Sphere"]),
 dict(id="C06", title="Static magnetic dipole and pole fields are the exact whole-space ones",
      statement="For every moment, permeability, location and orientation, the vector potential, flux density and field of a static magnetic dipole (and the flux density and field of a magnetic pole) equal the closed-form expressions, so that B is the curl of A, divergence-free and curl-free away from the source, and H = B/mu. The same physical vector is returned whichever coordinate system the caller asks for.",
      over=["inputs", "histories"], quant="all moments, mu > 0, locations, orientations (vectors of any length, axis letters), all points off the source, Cartesian and cylindrical coordinates, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[W, "geoana/em/base.py", "geoana/spatial.py"],
      mech=[("MagneticDipoleWholeSpace", W), ("MagneticPoleWholeSpace", W)]),
 dict(id="C07", title="Circular current loop fields are exact everywhere off the wire",
      statement="For every radius, current, permeability, location and orientation of a circular current loop, the vector potential, flux density and field equal the elliptic-integral solution off the axis and its series limit near the axis, at every point off the wire. Hence B = curl A, and reversing the orientation reverses the field.",
      over=["inputs", "histories"], quant="all radii > 0, currents, mu > 0, locations, orientations (any vector or axis letter), all points off the wire, both coordinate systems, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[W, "geoana/spatial.py"],
      mech=[("CircularLoopWholeSpace.vector_potential / magnetic_flux_density / magnetic_field", W), ("rotation_matrix_from_normals", "geoana/spatial.py")]),
 dict(id="C08", title="Polyline current fields are the exact sum over their segments",
      statement="For every polyline of straight current segments (any number of nodes, any geometry, open or closed), the vector potential, flux density and field at any point off the wire are the sums over the segments of the exact finite-wire values, including at points on the extension of a segment; the scalar potential, electric field and current density are those of its two grounded ends. Hence B is the curl of A and divergence-free, E = -grad V and J = sigma E.",
      over=["inputs", "histories"], quant="all node counts and positions (distinct consecutive nodes), currents, mu > 0, sigma > 0, all points off the wire, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[W, "geoana/spatial.py"],
      mech=[("LineCurrentWholeSpace", W), ("rotation_matrix_from_normals", "geoana/spatial.py")]),
 dict(id="C09", title="DC point-current potentials, fields and currents are exact and conservative",
      statement="The potential, electric field and current density of a point current in a whole space, in a half-space and of a current dipole on or in a half-space equal the closed-form (image) solutions, so E = -grad V, J = E/rho, no current leaves through the surface, and a two-electrode measurement is the difference of its two potentials. Sources and observation points above the surface are rejected with an error instead of being evaluated.",
      over=["inputs", "histories"], quant="all currents, resistivities > 0, source positions and observation points in the medium, all batch shapes, one or two receiver electrodes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[W, ST + "halfspace.py"],
      mech=[("PointCurrentWholeSpace", W), ("PointCurrentHalfSpace", ST + "halfspace.py"), ("DipoleHalfSpace", ST + "halfspace.py")]),
 dict(id="C10", title="Conductive sphere in a uniform field: exact potentials, fields, currents, charge",
      statement="For every sphere in a uniform electric field, primary, secondary and total potential, electric field and current density equal the exact boundary-value solution inside and outside, with total = primary + secondary, E = -grad V, J = sigma E with the conductivity of the region the point is in, and the surface charge density equal to the jump of the normal field. Observers on the surface get the value of one fixed side.",
      over=["inputs", "histories"], quant="all radii > 0, background and sphere conductivities > 0, amplitudes, locations, all points, all field selections, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[ST + "sphere.py", "geoana/shapes.py"],
      mech=[("ElectrostaticSphere", ST + "sphere.py")]),
 dict(id="C11", title="Permeable sphere in a uniform field: exact potential, H and B",
      statement="For every sphere in a uniform magnetic field, primary, secondary and total magnetic potential, field and flux density equal the exact boundary-value solution inside and outside, with total = primary + secondary, H = -grad V and B = mu H with the permeability of the region the point is in.",
      over=["inputs", "histories"], quant="all radii > 0, background and sphere permeabilities > 0, amplitudes, locations, all points, all field selections, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[ST + "sphere.py", "geoana/shapes.py"],
      mech=[("MagnetostaticSphere", ST + "sphere.py")]),
 dict(id="C21", title="Coordinate transforms of points and vectors are exact and invertible",
      statement="Converting points between Cartesian, cylindrical and spherical coordinates gives the standard values, converting vectors rotates components into the local basis at that point (so length is preserved), and converting there and back returns the original point or vector. This holds on the axes and at the origin, and for the deprecated spellings.",
      quant="all points including on-axis and origin, all vectors, 2-D and 3-D cylindrical grids, all batch shapes",
      why="Tests convert a few random clouds of points; a wrong branch or sign in one octant or on an axis passes.", files=["geoana/spatial.py"],
      mech=[("cylindrical_to_cartesian / cartesian_to_cylindrical / spherical_to_cartesian / cartesian_to_spherical", "geoana/spatial.py")]),
 dict(id="C22", title="The rotation between two directions is a proper rotation with that action",
      statement="For every pair of non-zero vectors the returned rotation is orthogonal with determinant one and maps the direction of the first onto the direction of the second, including parallel and anti-parallel pairs; for non-parallel pairs it fixes their common normal. Rotating points with it moves them rigidly about the chosen origin.",
      quant="all pairs of non-zero vectors of any length (generic, parallel, anti-parallel), all point clouds and rotation centres, matrix and object results",
      why="Tests use a few random directions and the exact axes; the anti-parallel and nearly anti-parallel branch is a measure-zero set.", files=["geoana/spatial.py"],
      mech=[("rotation_matrix_from_normals", "geoana/spatial.py"), ("rotate_points_from_normals", "geoana/spatial.py")]),
 dict(id="C12", title="Harmonic dipoles in a conductive whole space satisfy Maxwell's equations",
      statement="For every frequency (positive, or an array of them), conductivity, permeability, permittivity, moment, location and orientation, the potentials, fields, flux and current densities of the harmonic electric and magnetic dipoles equal the closed-form whole-space solution; hence Faraday's law and Ampere's law hold away from the source, J = sigma E, B = mu H, and the low-frequency limit is the static dipole.",
      over=["inputs", "histories"], quant="all frequencies > 0 (scalar or array), sigma, mu, eps, quasistatic on or off, orientations (any vector or axis letter), all points off the source, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[F, "geoana/em/fdem/base.py", "geoana/em/base.py"],
      mech=[("ElectricDipoleWholeSpace", F), ("MagneticDipoleWholeSpace", F)]),
 dict(id="C13", title="Plane waves attenuate and propagate as Maxwell's equations demand",
      statement="The harmonic plane wave and the transient (step-off) plane-wave solutions return exactly the documented fields for every orientation, position and frequency or time: E and H are transverse and orthogonal, J = sigma E, B = mu H, and the fields obey the one-dimensional Maxwell equations.",
      over=["inputs", "histories"], quant="all frequencies / times > 0 (scalar or array), sigma, mu, eps, amplitudes, every horizontal orientation, all points, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/em/fdem/wholespace.py", "geoana/em/tdem/wholespace.py"],
      mech=[("HarmonicPlaneWave", F), ("TransientPlaneWave", T_)]),
 dict(id="C14", title="Derived electromagnetic quantities follow from the stored parameters",
      statement="omega, wavenumber, sigma_hat, skin depth, diffusion distance, peak times, theta and the unit conversions always equal their defining formula of the object's current parameters, with the physical branch of the wavenumber, whatever sequence of parameter changes preceded the call.",
      over=["inputs", "histories"], quant="all positive frequencies / times / conductivities / permeabilities / permittivities, scalar or array, quasistatic on or off, fresh and re-parametrised objects",
      why="Tests evaluate the formulas at a few values on fresh objects; stale cached values, wrong branches and broadcast errors pass.", files=["geoana/em/fdem/base.py", "geoana/em/tdem/base.py", "geoana/em/base.py"],
      mech=[("BaseFDEM / wavenumber / skin_depth / sigma_hat", "geoana/em/fdem/base.py"), ("BaseTDEM / peak_time / diffusion_distance / theta", "geoana/em/tdem/base.py")]),
 dict(id="C15", title="Transient electric dipole satisfies the diffusive Maxwell equations",
      statement="For every time (scalar or array), conductivity, permeability, moment, location and orientation, the transient electric dipole's fields, currents, flux densities and their time derivatives equal the closed-form step-off solution, so that Faraday's and Ampere's laws hold in the medium away from the source and each time-derivative method is the derivative of the corresponding field.",
      over=["inputs", "histories"], quant="all times > 0 (scalar or array), sigma, mu > 0, orientations, all points off the source, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=[T_, "geoana/em/tdem/base.py"],
      mech=[("ElectricDipoleWholeSpace", T_)]),
 dict(id="C16", title="Transient loop and vertical dipole on a half-space: exact, derivatives exact",
      statement="The central-loop fields and the surface fields of a vertical magnetic dipole on a conductive half-space equal the closed-form step-off solutions, every time-derivative function is the time derivative of its field, and every flux is mu times the field. The dipole class returns the same values relative to its source position, for receivers given with two or three coordinates.",
      over=["inputs", "histories"], quant="all times > 0 (scalar or array), sigma, mu, radius > 0, currents, turns, moments, receivers off the source, (..., 2) or (..., 3) points, all batch shapes, fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/em/tdem/simple_functions.py", "geoana/em/tdem/halfspace.py", "geoana/em/tdem/reference.py"],
      mech=[("vertical_magnetic_*_horizontal_loop", "geoana/em/tdem/simple_functions.py"), ("magnetic_*_magnetic_dipole", "geoana/em/tdem/simple_functions.py"), ("VerticalMagneticDipoleHalfSpace", "geoana/em/tdem/halfspace.py")]),
 dict(id="C17", title="Harmonic dipole and central loop on a half-space surface are exact",
      statement="The surface magnetic field of an arbitrarily oriented harmonic dipole on a half-space, and the central-loop field, equal the closed-form solution for every frequency and conductivity; the total field is the secondary plus the static dipole field, the solution is linear in the moment and reciprocal between orientations. A source off the surface is rejected.",
      over=["inputs", "histories"], quant="all frequencies > 0 (scalar or array), conductivities, permittivities, quasistatic on or off, orientations, moments, receivers off the source with two or three coordinates, secondary and total field, all batch shapes (length-one axes squeezed as documented), fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/em/fdem/halfspace.py", "geoana/em/fdem/simple_functions.py"],
      mech=[("MagneticDipoleHalfSpace.magnetic_field", "geoana/em/fdem/halfspace.py"), ("vertical_magnetic_*_horizontal_loop", "geoana/em/fdem/simple_functions.py")]),
 dict(id="C03", title="Gravity of a rectangular prism: exact potential, field and gradient tensor",
      statement="For every axis-aligned prism of constant density, the gravitational potential, field and gradient tensor equal the exact closed-form volume integrals (the signed sum of the corner kernels) at every observation point, including points inside the prism and on its faces, edges and corners where the result stays finite; mass, volume and centre follow from the stored geometry. Prisms whose maximum is not strictly greater than the minimum are rejected.",
      over=["inputs", "histories"], quant="all corner locations with max > min, all densities, all observation points, all batch shapes, compiled and fallback kernels, fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/gravity.py", "geoana/shapes.py"],
      mech=[("Prism.gravitational_potential / field / gradient", "geoana/gravity.py"), ("BasePrism._eval_def_int", "geoana/shapes.py")]),
 dict(id="C04", title="Magnetised rectangular prism: exact potential, H, B and field gradient",
      statement="For every axis-aligned prism with constant magnetisation, the scalar potential, H field and H gradient equal the exact closed-form integrals with H the gradient of the potential, and B = mu_0 (H + M) for points in the closed prism and mu_0 H outside. The moment is volume times magnetisation.",
      over=["inputs", "histories"], quant="all corner locations with max > min, all magnetisation vectors, all observation points (inside, outside, on faces, edges, corners), all batch shapes, compiled and fallback kernels, fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/em/static/freespace.py", "geoana/shapes.py"],
      mech=[("MagneticPrism", "geoana/em/static/freespace.py"), ("BasePrism._eval_def_int", "geoana/shapes.py")]),
 dict(id="C05", title="Prism kernels: compiled and Python forms agree and are exact derivatives",
      statement="Each of the nine prism kernels returns its closed form at every point, including the coordinate planes, axes and origin where the singular terms are dropped so the value is finite. The compiled kernel and the numpy fallback therefore return the same numbers, and each kernel is (up to terms that cancel over a box) the derivative of the one it is named after.",
      quant="all real triples (x, y, z) with every combination of zero and non-zero coordinates, all batch shapes, both implementations",
      why="Tests compare the two implementations on one random grid and derivatives at a few nodes; sign conventions on planes, axes and half-lines are measure-zero sets.", files=["geoana/kernels/potential_field_prism.py", "geoana/kernels/_extensions/potential_field_prism.pyx"],
      mech=[("_prism_f ... _prism_fxyz", "geoana/kernels/potential_field_prism.py"), ("prism_f ... prism_fxyz", "geoana/kernels/_extensions/potential_field_prism.pyx")]),
 dict(id="C19", title="TE reflection coefficient of a layered earth is exact in every implementation",
      statement="For every stack of layers, frequency and wavenumber, rTE_forward returns the surface-admittance recurrence from the basement up and the reflection against air, in the Python and the compiled kernel alike; so a layer of the material below it, a layer of zero thickness and splitting a layer in two change nothing. The compiled function accepts any memory layout and rejects arrays of inconsistent size instead of reading past them.",
      quant="any number of layers, frequencies and wavenumbers, all complex sigma and mu, all thicknesses, any array layout",
      why="Tests compare the two implementations on one stack; the layer count, array layout, and index arithmetic of the C++ loops are unbounded.", files=["geoana/kernels/tranverse_electric_reflections.py", "geoana/kernels/_extensions/rTE.pyx", "geoana/kernels/_extensions/_rTE.cpp"],
      mech=[("_rTE_forward", "geoana/kernels/tranverse_electric_reflections.py"), ("rTE_forward", "geoana/kernels/_extensions/rTE.pyx"), ("funcs::rTE", "geoana/kernels/_extensions/_rTE.cpp")]),
 dict(id="C20", title="rTE_gradient returns the exact derivatives of rTE_forward",
      statement="For every stack of layers, frequency and wavenumber, rTE_gradient returns the partial derivatives of the reflection coefficient with respect to each layer's conductivity, thickness and permeability (chain rule through the recurrence), each in its documented position and shape, in the Python and the compiled kernel alike; inconsistent sizes are rejected.",
      quant="any number of layers, frequencies and wavenumbers, all complex sigma and mu, all thicknesses, any array layout",
      why="Tests take finite differences on one stack; the layer count, array layout, and index arithmetic of the C++ loops are unbounded.", files=["geoana/kernels/tranverse_electric_reflections.py", "geoana/kernels/_extensions/rTE.pyx", "geoana/kernels/_extensions/_rTE.cpp"],
      mech=[("_rTE_gradient", "geoana/kernels/tranverse_electric_reflections.py"), ("rTE_gradient", "geoana/kernels/_extensions/rTE.pyx"), ("funcs::rTEgrad", "geoana/kernels/_extensions/_rTE.cpp")]),
 dict(id="C18", title="Dipole over a layered earth: exact Hankel transform of the stack response",
      statement="The field of a harmonic magnetic dipole above a layered half-space equals, at every receiver on or above the surface, the digital-filter Hankel transform of the layered reflection coefficient with the coefficients of Ward and Hohmann; each mode is the gradient of a harmonic potential, linear in the moment and reciprocal; the total field adds the static dipole. Layer properties given as scalars, per layer, or per layer and frequency mean the same. Sources or receivers below the surface are rejected.",
      over=["inputs", "histories"], quant="any number of layers, frequencies and receivers, all valid complex sigma, mu, epsilon, thicknesses, moments, orientations, source heights, quasistatic on or off, secondary and total field, fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/em/fdem/layered.py"],
      mech=[("MagneticDipoleLayeredHalfSpace.magnetic_field", "geoana/em/fdem/layered.py")]),
 dict(id="C23", title="Evaluations never modify their arguments or the object they are called on",
      statement="Constructing a source, assigning an attribute, or evaluating any potential, field, kernel or coordinate transform leaves every array passed in by the caller, and every array passed to earlier calls, unchanged; evaluating a method leaves every public parameter of the object unchanged, and the array it returns does not share storage with any array of the caller.",
      over=["inputs", "histories"], quant="every public class, method and kernel covered by the other properties, all inputs and array shapes, C- and Fortran-ordered arrays, all call sequences of construction, assignment and evaluation",
      why="Tests never compare inputs before and after a call; in-place arithmetic on a view of the caller's array passes every value comparison.", files=["geoana/em/base.py", W, F, T_, "geoana/gravity.py", "geoana/spatial.py", "geoana/shapes.py", "geoana/kernels/potential_field_prism.py"],
      mech=[("in-place operators on arrays obtained with np.asarray", "geoana/em/base.py"), ("in-place operators in field methods", W)]),
 dict(id="C24", title="Physical parameters are validated on construction and on assignment",
      statement="Every physical parameter of every source class (conductivity, resistivity, permeability, permittivity, frequency, time, location, orientation, moment, current, length, radius, nodes, layer properties, magnetisation, mass, density, fault geometry and interferogram parameters, ...) is checked when the object is built and when it is assigned: a value of the wrong type, shape or sign raises an error and leaves the object exactly as it was, while an accepted value reads back unchanged (orientations normalised, axis letters in either case expanded to unit vectors) and changes no other parameter. Omitted parameters take their documented defaults.",
      over=["inputs", "histories"], quant="all source classes and the two earthquake classes, all of their parameters, all values inside the documented domain and all values outside it (non-positive, negative in any array position, wrong length, wrong rank, non-numeric, unknown axis letter), at construction and at assignment",
      why="Tests assign one or two invalid values per class; boundary values (zero), one bad element of an array, half-updated objects after a rejected assignment are not sampled.", files=["geoana/em/base.py", ST + "sphere.py", ST + "halfspace.py", W, F, T_, "geoana/em/fdem/base.py", "geoana/em/fdem/layered.py", "geoana/em/tdem/base.py", "geoana/gravity.py", "geoana/shapes.py", ST + "freespace.py"],
      mech=[("property setters", "geoana/em/base.py"), ("layer property setters", "geoana/em/fdem/layered.py")]),
 dict(id="C25", title="Observation points mean the same in every accepted input form",
      statement="Every field, potential and gradient method gives the same result (same values, same shape rule: one result per point, components last) whether the observation points are one (..., 3) array, a tuple of three equally shaped coordinate arrays, nested lists, integers instead of floats, or an array of any memory layout; points whose last axis is not three long (or a tuple of the wrong length) raise ValueError instead of being silently accepted.",
      over=["inputs"], quant="every source class with an xyz argument that documents (..., 3) points, all of its field methods, all point sets of all shapes, every input form",
      why="Tests pass one float array per method; tuples, integer arrays (silent truncation of in-place results), single points and wrong dimensions are sampled for at most one class.", files=["geoana/utils.py", "geoana/em/base.py", W, F, T_, "geoana/gravity.py", ST + "freespace.py", ST + "sphere.py", "geoana/shapes.py"],
      mech=[("check_xyz_dim", "geoana/utils.py"), ("field methods", W)]),
 dict(id="C26", title="Grid, vector and geometry helpers",
      statement="mkvc flattens any array in Fortran order and appends exactly n_dims-1 unit axes; ndgrid returns the full tensor grid of one, two or three vectors with the first varying fastest, as columns or as arrays; append_ndim appends exactly the given number of unit axes; check_xyz_dim returns the points as (..., dim) floats and raises ValueError for any other length; vector_magnitude, vector_distance, distance, vector_dot and repeat_scalar return what their names say for any number of points; a dipole's vector_distance, distance, dot_orientation and cross_orientation are taken from its current location and orientation; a line current has one segment fewer than nodes.",
      over=["inputs", "histories"], quant="all arrays of all lengths (mkvc: one to three axes; append_ndim, check_xyz_dim: any number of axes), all dims, fresh and re-parametrised objects",
      why=TESTS_FIX, files=["geoana/utils.py", "geoana/spatial.py", "geoana/em/base.py"],
      mech=[("mkvc, ndgrid, append_ndim, check_xyz_dim", "geoana/utils.py"), ("vector_magnitude ... repeat_scalar", "geoana/spatial.py"), ("BaseDipole.vector_distance ... cross_orientation", "geoana/em/base.py")]),
 dict(id="C27", title="Earthquake module: Okada surface displacement and satellite line of sight",
      statement="Oksar.simulation_grid is the regular grid spanned from the origin by U and V, whatever their directions; Oksar.displacement_vector gives at every grid point the surface displacement of Okada (1985) for a rectangular dislocation with the object's centre, depths, strike, dip, rake, slip, length and elastic moduli (any dip in (0, 90], vertical and outcropping faults and pure dip slip included). EarthquakeInterferogram.get_LOS_vector gives, for one or several locations, the unit pointing vector with the satellite's azimuth and the incidence angle found on the sphere of local radius from the angular distance to the satellite's track.",
      over=["inputs", "histories"], quant="all origins, U, V, centres, depths, strikes, dips, rakes, slips, lengths, moduli, grid sizes and grid points; all reference points, azimuths, incidences, altitudes and radii, both hemispheres, fresh and re-parametrised objects",
      why="The repository's tests only run one example; axis-aligned U and V, one dip and one rake.", files=["geoana/earthquake/oksar.py"],
      mech=[("Oksar.displacement_vector", "geoana/earthquake/oksar.py"), ("Oksar.simulation_grid", "geoana/earthquake/oksar.py"), ("EarthquakeInterferogram.get_LOS_vector", "geoana/earthquake/oksar.py")]),
]
NOT_APPLICABLE = []
