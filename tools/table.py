"""The properties: one row each. gen.py writes properties.jsonl and MANIFEST.json from it."""
F = "src/harmonica/_forward/"
I = ["inputs"]
IC = ["inputs", "configurations"]
IH = ["inputs", "histories"]
S = "The tests evaluate "

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)]
P = [
 ("P01", "Point masses in Cartesian coordinates follow Newton's law and add up",
  "The gravitational potential, the acceleration components (in mGal) and the tensor components (in Eotvos) computed for point masses in Cartesian coordinates equal, at every observation point, the sum over all masses of Newton's law and its exact derivatives, with g_z pointing down and easting, northing, upward right-handed. This holds for any number of points and masses, in parallel or not, for every input shape; the result has the shape of the observation points and no input is modified.",
  IC, "all coordinates, masses, fields, parallel flag", S + "a few symmetric configurations and finite differences at fixed points; a wrong sign or factor of one component away from them is not seen.",
  [F + "point.py"], [("kernels and loops", F + "point.py")]),
 ("P02", "Point masses in spherical coordinates follow Newton's law",
  "The potential and the downward acceleration (mGal) of point masses given by longitude, latitude and radius equal the sum of the exact Newtonian expressions along the local vertical, and do not change when whole turns are added to a longitude or everything is rotated about the axis.",
  IC, "all longitudes, latitudes, radii, masses", S + "a handful of points.", [F + "point.py"], [("potential_spherical, gravity_u_spherical", F + "point.py")]),
 ("P03", "Dipoles produce the dipole field, component by component",
  "The magnetic field of dipoles equals the sum over dipoles of mu0/4pi (3 (m.r) r / r^5 - m / r^3) in nT; asking for one component gives the same numbers as that component of the full vector; the result has the shape of the observation points, in parallel or not, with or without a progress bar, and no input is modified.",
  IC, "all coordinates and moments", S + "one dipole along an axis and random comparisons between components.", [F + "dipole.py"], [("dipole kernels and loops", F + "dipole.py")]),
 ("P04", "Gravity of prisms is the signed, scaled sum over all prisms",
  "The field of a set of prisms is, at every point, the sum over every prism with nonzero volume of the closed form of that component with that prism's density, in the documented units (J/kg, mGal, Eotvos) and sign (z down, so g_z, g_ez and g_nz change sign and g_zz does not); flat lists, numbers, parallel or serial runs and disabled checks give the same numbers.",
  IC, "all prisms, densities, points, fields, flags", S + "few prisms against stored values and symmetric points.", [F + "prisms/gravity.py", F + "prisms/utils.py"], [("dispatch, loops, scaling", F + "prisms/gravity.py")]),
 ("P05", "Magnetic field of prisms is the scaled sum over all prisms",
  "The magnetic field of a set of prisms is, at every point, the sum over every prism with nonzero volume of the closed form for that prism's own magnetization vector, in nT; asking for one component gives the same numbers as that component of the full vector, in parallel or serial, with or without checks.",
  IC, "all prisms, magnetizations, points, fields, flags", S + "few prisms.", [F + "prisms/magnetic.py"], [("dispatch, loops, scaling", F + "prisms/magnetic.py")]),
 ("P06", "Invalid prisms and mismatched sizes are rejected; singular points warned",
  "A set of prisms is rejected exactly when one of them has west > east, south > north or bottom > top, and any point mass, prism or dipole model is rejected exactly when the number of densities, masses or components of magnetization differs from the number of sources, whichever field is asked for. A tensor component of the gravity of a prism is announced by a warning exactly when one of the observation points is on a place (edge, vertex or face) where that component is not defined.",
  IC, "every set of prisms, sizes, points and fields", S + "one bad prism per boundary and a few singular points of one prism.", [F + "prisms/utils.py", F + "prisms/gravity.py", F + "prisms/magnetic.py", F + "point.py", F + "dipole.py", F + "utils.py"], [("_check_prisms and singular point checks", F + "prisms/utils.py")]),
 ("P07", "Observation coordinates of any broadcastable shape give the same field",
  "Coordinates of observation points may be numbers, arrays of any dimension or a mixture that broadcasts together: the value at each place of the result is the one obtained for that single point, the result has the broadcast shape, and integers are as good as floats. This holds for point masses, dipoles, prisms, tesseroids, layers, ellipsoids, equivalent sources and the IGRF.",
  IC, "all shapes and values of the coordinates, all forward models", S + "arrays of one common shape.", [F + "point.py", F + "dipole.py", F + "prisms/gravity.py", F + "prisms/magnetic.py", F + "tesseroid_gravity.py", F + "prisms/layer.py", "src/harmonica/_equivalent_sources/cartesian.py"], [("np.broadcast of the coordinates", "every forward model")]),
 ("P08", "Parallel loops are free of races",
  "In every loop that runs in parallel, two different iterations never write the same element and none reads what another one writes, so the result of the parallel run is the one of the serial run for every number of threads and every schedule.",
  ["schedules", "inputs", "configurations"], "every pair of iterations, every schedule", "Tests run one schedule on one machine; a lost update is rare and depends on timing.",
  [F + "point.py", F + "dipole.py", F + "prisms/gravity.py", F + "prisms/magnetic.py", F + "prisms/layer.py", F + "tesseroid_gravity.py", "src/harmonica/_equivalent_sources/cartesian.py", "src/harmonica/_equivalent_sources/utils.py", "src/harmonica/_spherical_harmonics/igrf.py"], [("prange loops", "every jitted loop")]),
 ("P09", "Tesseroids are accepted exactly when valid; longitudes keep the region",
  "A set of tesseroids is rejected exactly when one of them has south > north, bottom > top, a latitude out of [-90, 90], a negative radius or longitudes that cannot describe one sector up to a full turn. Whatever convention the longitudes of an accepted tesseroid follow (-180..180 or 0..360, west > east across the seam), the model stands for the same region of space.",
  I, "every set of boundaries", S + "a dozen of fixed tesseroids.", [F + "_tesseroid_utils.py", F + "tesseroid_gravity.py"], [("_check_tesseroids, longitude_continuity", F + "_tesseroid_utils.py")]),
 ("P10", "Points inside a tesseroid are rejected, all others accepted",
  "Computing the gravity of tesseroids is refused exactly when one of the observation points is strictly inside one of the tesseroids, for any longitude convention of points and tesseroids, and every pair of point and tesseroid is examined.",
  I, "every point and tesseroid", S + "fixed points in each convention.", [F + "_tesseroid_utils.py"], [("check_points_outside_tesseroids", F + "_tesseroid_utils.py")]),
 ("P11", "Adaptive discretization partitions the tesseroid and meets the ratio",
  "When a tesseroid is divided because a point is close, the pieces cover it exactly, without gaps or overlaps, for every point; every piece kept satisfies the distance-size ratio in each of the dimensions that are divided, no dimension is divided without need, and running out of room is an error.",
  I, "every tesseroid, point and ratio", S + "fixed tesseroids with a few distances.", [F + "_tesseroid_utils.py"], [("_adaptive_discretization, _split_tesseroid", F + "_tesseroid_utils.py")]),
 ("P12", "Gravity of tesseroids is the quadrature over all the pieces",
  "The potential and the downward acceleration (mGal) of tesseroids are the sum, over each piece of each tesseroid with volume, of the Gauss-Legendre quadrature of second order of point masses times the density of that tesseroid; a constant given as a function of radius equals the number, a linear one is evaluated at the nodes, and null tesseroids contribute nothing. The documented default distance-size ratios (1 and 2.5) are in force.",
  IC, "every tesseroid, density, point, field, flag", S + "spherical shells and stored values with a tolerance of 0.1 %.", [F + "tesseroid_gravity.py", F + "_tesseroid_utils.py", F + "_tesseroid_variable_density.py"], [("jit_tesseroid_gravity, gauss_legendre_quadrature", F + "tesseroid_gravity.py")]),
 ("P13", "Variable density tesseroids are divided until the density is near linear",
  "A tesseroid with a density that depends on the radius is divided only along the radius, the pieces stack from its bottom to its top without gaps or overlaps and keep its horizontal boundaries; every piece kept satisfies the documented bound on the difference between normalised density and straight line times relative size, and no piece that satisfies it is divided.",
  I, "every tesseroid, density function, and location of the maximum found by the minimiser", S + "three density functions.", [F + "_tesseroid_variable_density.py"], [("density_based_discretization", F + "_tesseroid_variable_density.py")]),
 ("P14", "A layer of prisms describes the region between surface and reference",
  "For a regular grid in any order, each prism of a layer is centred in its grid node, has the spacing as horizontal size, and spans from the lower to the higher of surface and reference there; prisms of neighbouring nodes share their boundaries, the whole layer spans the reported boundaries, and irregular coordinates or arrays of another shape are rejected. Updating surface and reference any number of times leaves only the last pair in force. Each value belongs to the node of its labels, whatever the order of the dimensions of the variables of the layer.",
  IH, "every regular grid, surface and reference, every sequence of updates", S + "one grid with constant surface.", [F + "prisms/layer.py"], [("prism_layer, update_top_bottom, get_prism", F + "prisms/layer.py")]),
 ("P15", "Gravity of a layer of prisms is that of its valid prisms",
  "The gravity of a layer of prisms equals the one of the list of its prisms, in each field and unit, where prisms with a missing density, surface or reference, without thickness, or thinner than a given threshold are left out (with a warning exactly when a density is missing).",
  IC, "every layer up to the bound, missing values anywhere, threshold, field", S + "one layer per field.", [F + "prisms/layer.py"], [("_forward_gravity_prism_layer", F + "prisms/layer.py")]),
 ("P16", "A layer of tesseroids and its gravity match the list of its tesseroids",
  "Each tesseroid of a layer is centred in its grid node with the spacing as size and spans from the lower to the higher of surface and reference; coordinates that are irregular or overlap around the globe are rejected. The gravity of the layer equals that of the list of its tesseroids without those that have missing values or are thinner than a given threshold, with a warning exactly when only the density is missing.",
  IH, "every layer up to the bound", S + "one layer per field.", [F + "tesseroid_layer.py"], [("tesseroid_layer and accessor", F + "tesseroid_layer.py")]),
 ("P17", "The ellipsoidal coordinate of outer points is the largest confocal root",
  "For every point outside an ellipsoid (triaxial, prolate, oblate or sphere) the ellipsoidal coordinate that its fields are built on is the largest root of the confocal quadric equation, zero on the surface, and the tests for being inside and the formulas for its derivatives agree with that equation.",
  I, "every ellipsoid and point", S + "sampled points and a tolerance.", [F + "ellipsoids/utils.py"], [("calculate_lambda, get_derivatives_of_elliptical_integrals", F + "ellipsoids/utils.py")]),
 ("P18", "Ellipsoid integrals satisfy their exact identities in every shape",
  "The three elliptical integrals behind the field of an ellipsoid satisfy A + B + C = 2/sqrt((a2+l)(b2+l)(c2+l)), and the derivative of each in l is minus 1/((s2+l) sqrt((a2+l)(b2+l)(c2+l))) with its own semiaxis s, in every branch (triaxial, prolate, oblate), so the field inside obeys Poisson's equation and outside Laplace's; exactly the semiaxes of (almost) spheres are refused.",
  I, "every triple of semiaxes and ellipsoidal coordinate", S + "sampled points near each branch.", [F + "ellipsoids/utils.py", F + "ellipsoids/gravity.py"], [("get_elliptical_integrals and its branches", F + "ellipsoids/utils.py")]),
 ("P19", "Demagnetization of ellipsoids has unit trace and is self-consistent",
  "The internal demagnetization tensor of an ellipsoid is symmetric with unit trace, and the magnetization of an ellipsoid with remanence and (isotropic or anisotropic) susceptibility in an external field is the one that satisfies M = chi (H0 - N M) + Mr; with no susceptibility the magnetization is the remanence.",
  I, "every ellipsoid, susceptibility tensor, remanence and field", S + "a sphere and few limits.", [F + "ellipsoids/magnetic.py", F + "ellipsoids/utils.py"], [("get_demagnetization_tensor_internal, get_magnetisation", F + "ellipsoids/magnetic.py")]),
 ("P20", "Fields of ellipsoids move with the body and add up",
  "The gravity and magnetic fields of a set of ellipsoids are the sum of those of each of them; moving body and points together leaves the field as it is, rotating both rotates the vectors, naming the semiaxes in another order with the rotation that matches changes nothing, and ellipsoids without the needed property are ignored with a warning.",
  IC, "every pose, order of axes and set of ellipsoids", S + "few angles.", [F + "ellipsoids/gravity.py", F + "ellipsoids/magnetic.py", F + "ellipsoids/utils.py"], [("ellipsoid_gravity, ellipsoid_magnetic", F + "ellipsoids/")]),
 ("P21", "An ellipsoid object is never in an invalid state",
  "After any sequence of constructions and assignments (semiaxes, angles, center, density, susceptibility, remanence), accepted or rejected, the semiaxes of an ellipsoid are positive, its properties have the documented types and shapes, and a rejected assignment leaves the previous value; the rotation matrix is always a proper rotation that follows the documented angles.",
  IH, "every sequence of assignments up to the bound", "Tests assign one value once.", [F + "ellipsoids/ellipsoids.py"], [("Ellipsoid setters", F + "ellipsoids/ellipsoids.py")]),
 ("P22", "Magnetic angles and vectors convert into each other",
  "Converting intensity, inclination and declination into a vector follows the convention (inclination positive down, declination positive east), converting back recovers them for every vector, and the total field anomaly is the projection of the anomalous field on the direction of the main field.",
  I, "every vector and angles, numbers or arrays", S + "eight directions.", ["src/harmonica/_utils.py"], [("magnetic_angles_to_vec, magnetic_vec_to_angles, total_field_anomaly", "src/harmonica/_utils.py")]),
 ("P23", "Bouguer correction is the infinite plate of crust or missing crust",
  "The Bouguer correction is, in mGal and for each value of topography, 2 pi G times the crust density times the topography on land and times minus (crust minus water density) times the water depth at sea, which is continuous at the shore, linear on each side, and keeps the shape and the labels of the input.",
  I, "every topography and densities", S + "constant topography.", ["src/harmonica/_gravity_corrections.py"], [("bouguer_correction", "src/harmonica/_gravity_corrections.py")]),
 ("P24", "Airy Moho balances the mass of each column",
  "The depth of the Moho given by Airy isostasy is the one for which the mass of each column (basement plus all layers plus root) equals that of the reference column, for any number of layers given as numbers, arrays or labelled grids, and the inputs are left as they were; a labelled Moho tells the densities it was computed with.",
  I, "every basement, layers and densities", S + "null and two fixed cases.", ["src/harmonica/_isostasy.py"], [("isostatic_moho_airy", "src/harmonica/_isostasy.py")]),
 ("P25", "Each filter multiplies by its exact response in wavenumber",
  "The response of each frequency-domain filter is the documented function of the wavenumbers: (i k)^n for horizontal derivatives, (-|k|)^n for upward derivatives, exp(-|k| h) for continuation, a Gaussian of unit value at zero (low-pass) and its complement (high-pass), and the reduction to the pole by the directions of field and magnetization, with zero mean preserved at zero wavenumber; pairs of filters satisfy their identities (low plus high is one, continuation composes, vertical direction needs no reduction).",
  I, "every wavenumber and parameter", S + "stored responses on one grid.", ["src/harmonica/filters/_filters.py"], [("filter kernels", "src/harmonica/filters/_filters.py")]),
 ("P26", "Grid transformations filter the spectrum and keep the grid",
  "A transformation in the frequency domain is linear in the grid, multiplies each Fourier coefficient by the response of the filter at its own wavenumber, and returns a real grid with the same coordinates and dimensions; with padding the result is cut to the original grid. Grids that are not two-dimensional, irregular or with missing values are rejected, and neither the grid nor the options given are modified.",
  IC, "every grid up to the bound, every response", S + "few grids with a tolerance of percents.", ["src/harmonica/filters/_utils.py", "src/harmonica/filters/_fft.py", "src/harmonica/_transformations.py"], [("apply_filter, grid_sanity_checks", "src/harmonica/filters/_utils.py")]),
 ("P27", "Derivatives, tilt and total gradient are built on the right derivatives",
  "Derivatives by finite differences are exact for grids that are linear along the direction and of any spacing; the total gradient amplitude is the root of the sum of squares of the three derivatives and the tilt is the angle between the upward derivative and the horizontal gradient, for every sign; a derivative of order n is the first derivative taken n times, each public filter is the one it is named after, and the coordinates of the grid that are not dimensions are kept by all but upward continuation, which drops them.",
  I, "every grid up to the bound", S + "fields of a few prisms with a tolerance.", ["src/harmonica/_transformations.py"], [("derivative_*, total_gradient_amplitude, tilt_angle", "src/harmonica/_transformations.py")]),
 ("P28", "Equivalent sources predict the field of the sources they fitted",
  "The field predicted by fitted equivalent sources is the sum over sources of coefficient over distance at any points, which is the matrix of the fit times the coefficients at the data points; sources are put below the data (or block averages) at the documented depth, or exactly where the user says, and the memory announced is the one of the matrix of the fit. Coordinates of any shape and type, weights and repeated fits are handled, for Cartesian and spherical coordinates; profiles and grids hold the prediction at each of their places; and fitting leaves the options given to the constructor as they were.",
  IH, "every data set up to the bound, coefficients, options", S + "a few grids of a smooth field.", ["src/harmonica/_equivalent_sources/cartesian.py", "src/harmonica/_equivalent_sources/spherical.py", "src/harmonica/_equivalent_sources/utils.py"], [("EquivalentSources, EquivalentSourcesSph", "src/harmonica/_equivalent_sources/")]),
 ("P29", "Gradient boosting accounts for every window exactly",
  "Fitting by gradient boosting uses, in each step, only sources and data of one window, the residue after each step is the data minus the prediction of all the coefficients so far, each window is visited once in an order fixed by the seed, every point and source is in some window, and the errors reported are the root mean square of the residues.",
  IH, "every data set up to the bound, every fit of a window", S + "one data set.", ["src/harmonica/_equivalent_sources/gradient_boosted.py"], [("EquivalentSourcesGB", "src/harmonica/_equivalent_sources/gradient_boosted.py")]),
 ("P30", "Euler deconvolution solves Euler's equation by least squares",
  "For data that satisfy Euler's homogeneity equation exactly, Euler deconvolution recovers the source location and base level for every structural index and every offset of the coordinates; in general its estimate minimises the misfit of that equation.",
  I, "every set of points up to the bound, location, base level, index", S + "one source per index.", ["src/harmonica/_euler_methods.py"], [("EulerDeconvolution.fit", "src/harmonica/_euler_methods.py")]),
 ("P31", "Euler inversion keeps the best index and a consistent estimate",
  "Euler inversion returns the structural index among those given with the smallest misfit, with location, base level and predictions that belong to that index, and its steps keep the residual of Euler's equation consistent with the predicted data; weights and inputs given by the user are not modified.",
  IH, "every data set up to the bound, every list of indices", S + "two models.", ["src/harmonica/_euler_methods.py"], [("EulerInversion", "src/harmonica/_euler_methods.py")]),
 ("P32", "IGRF coefficients are interpolated linearly and exactly in time",
  "For every date in the validity of the model the Gauss coefficients are the linear interpolation between the two epochs around it (or the secular variation after the last epoch), equal to the table at each epoch, continuous in time; dates out of validity are rejected, and each number of the coefficient file is read into its own epoch, degree and order.",
  I, "every date", S + "few dates.", ["src/harmonica/_spherical_harmonics/igrf.py"], [("interpolate_coefficients", "src/harmonica/_spherical_harmonics/igrf.py")]),
 ("P33", "Legendre functions and derivatives satisfy their closed forms",
  "The associated Legendre functions, normalised or not, and their derivatives returned for every degree from zero on equal the closed forms for every argument, and filling them in place gives the same numbers whatever was in the arrays and touches nothing else.",
  I, "every argument in [-1, 1] and degree up to the bound", S + "samples of the argument.", ["src/harmonica/_spherical_harmonics/legendre.py"], [("associated_legendre*", "src/harmonica/_spherical_harmonics/legendre.py")]),
 ("P34", "IGRF field is minus the gradient of its potential, in local directions",
  "The field predicted for any set of Gauss coefficients, between the minimum and maximum degree asked for, is minus the gradient of the spherical harmonic potential, rotated to east, north and up of the ellipsoid (at the very poles, where east is not defined, the east component is zero), and predicting on a grid gives the same values as predicting on its points.",
  IC, "every position, coefficients, grid", S + "stored values at some places with the actual coefficients.", ["src/harmonica/_spherical_harmonics/igrf.py"], [("evaluate_igrf, IGRF14.predict, IGRF14.grid", "src/harmonica/_spherical_harmonics/igrf.py")]),
 ("P35", "Oasis montaj grids are read as their header says",
  "The values of a grid in Oasis montaj format are (stored value / factor + base) with missing values where the dummy number is, placed in the order, shape, origin and spacing of the header for each element type and compression; headers that are out of what is supported are rejected.",
  IC, "every header and data up to the bound", S + "a few stored files.", ["src/harmonica/_io/oasis_montaj_grd.py"], [("load_oasis_montaj_grid", "src/harmonica/_io/oasis_montaj_grd.py")]),
 ("P36", "ICGEM grids are read into the right place or rejected",
  "Each value of an ICGEM file, whose lines run along parallels, goes to the latitude and longitude of its own line, under the name and units of its own column (also when only some columns are read, in any order); files whose header is incomplete, or whose limits or sizes do not agree with the data, are rejected.",
  I, "every file up to the bound", S + "a few files.", ["src/harmonica/_io/icgem_gdf.py"], [("load_icgem_gdf", "src/harmonica/_io/icgem_gdf.py")]),
 ("P37", "Distances agree with Euclid in each coordinate system",
  "The distance between two points used by sources and samplers is the Euclidean one of their positions in Cartesian, spherical and geodetic coordinates, symmetric, zero only for the same place, and not changed by whole turns of longitude.",
  I, "every pair of points", S + "a few pairs.", [F + "utils.py"], [("distance", F + "utils.py")]),
 ("P38", "Meshes for plotting have the geometry and properties of the prisms",
  "The mesh built for plotting prisms has one hexahedron per prism whose eight corners are those of the prism in the order the format asks for, with the properties attached to the same prism; properties with more than one dimension are rejected; the mesh of a layer of prisms has one cell per prism (those without volume or with a missing boundary only when asked to keep them), each with the properties of its own node.",
  I, "every list of prisms up to the bound", S + "one prism.", ["src/harmonica/visualization/_prism.py"], [("prism_to_pyvista", "src/harmonica/visualization/_prism.py")]),
]

# properties that this family cannot decide here
NA = [
 ("P90", "FFT filters approximate the analytic field away from the edges",
  "Derivatives, continuations and reductions of a grid of a compact source approximate the analytic ones away from the edges.",
  I, "every source and grid", S + "a few sources with a tolerance.", ["src/harmonica/_transformations.py"], [("transformations", "src/harmonica/_transformations.py")],
  "An approximation property of the discrete Fourier transform of transcendental functions on grids of hundreds of nodes: no exact assertion exists, and error bounds over the reals with exp/log/atan of that size are out of reach of SMT; what is exact is claimed by P25-P27."),
 ("P91", "Results are accurate in floating point",
  "Every forward model keeps a small relative error in double precision for any scale of its inputs.",
  I, "all doubles", S + "one scale.", [F], [("all kernels", F)],
  "Rounding of compositions with log, atan2, sin, cos of libm has no SMT theory (z3/cvc5 floating point has only +-*/ and sqrt, and already the simplest kernel times out); all checks reason over the reals and say so."),
 ("P92", "Quadrature of tesseroids converges to the exact field within 0.1 %",
  "With the documented ratios the gravity of a tesseroid differs by less than 0.1 % from that of the exact body.",
  I, "every tesseroid and point", S + "spherical shells.", [F + "tesseroid_gravity.py"], [("DISTANCE_SIZE_RATII", F + "tesseroid_gravity.py")],
  "Needs a bound of the integration error of a transcendental integrand: the exact field has no closed form, so there is no oracle term to assert against; P11 and P12 decide the ratio and the quadrature themselves."),
 ("P93", "Downloaded IGRF coefficients are the official ones",
  "The coefficients in use are those of the official file, checked by its hash.",
  ["fault_sequences"], "every download", "Tests use the cache.", ["src/harmonica/_spherical_harmonics/igrf.py"], [("fetch_igrf", "src/harmonica/_spherical_harmonics/igrf.py")],
  "It depends on the network and on SHA-256 of a file, by pooch; nothing symbolic in the code of this repository decides it."),
 ("P94", "Damped least squares of real data sets are well conditioned",
  "Fitting equivalent sources with damping reproduces smooth fields of large data sets.",
  I, "every smooth field", S + "one field.", ["src/harmonica/_equivalent_sources/"], [("fit", "src/harmonica/_equivalent_sources/cartesian.py")],
  "A statistical and numerical quality of LAPACK solutions of large dense systems; exact small systems are in P28-P31, conditioning has no exact assertion."),
]
