I = ["inputs"]
IC = ["inputs", "configurations"]


def declare(prop, na):
    prop("C01", "Numeric metrics are the exact Schwarzschild, Kerr and Kerr-Newman metrics",
         "For every mass, spin, charge and event, the covariant metric tensor returned by the Schwarzschild, Kerr and Kerr-Newman classes has every component equal to the "
         "textbook line element in (t, r, theta, phi) with signature (+,-,-,-) in SI units. It is symmetric, and components outside the block structure are zero.",
         I, "all M > 0, 0 <= a <= 1, Q, r, theta, phi", "Tests compare a few numeric points, mostly with Q = 0 or on the equator; a wrong term that vanishes there is invisible.",
         ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/base_metric.py"],
         [("metric_covariant / _g_cov", "metric/kerrnewman.py"), ("sigma, delta, alpha, rho", "metric/base_metric.py")])
    prop("C02", "Contravariant metric is the inverse of the covariant metric",
         "For every metric class and every event, the contravariant metric is the exact inverse of the covariant metric, perturbation included, at the same event. A user supplied perturbation is "
         "added once, linearly, to the covariant metric.",
         IC, "all metric parameters, events and perturbations", "Tests invert at sampled points and never combine a perturbation with inversion.",
         ["metric/base_metric.py", "metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"],
         [("metric_contravariant / _g_contra", "metric/kerr.py"), ("perturbation", "metric/base_metric.py")])
    prop("C03", "Christoffel symbols are the Levi-Civita connection of the metric",
         "For every metric class and event, the Christoffel symbols equal the torsion-free metric-compatible connection obtained by differentiating that metric, "
         "and the published list of non-zero symbols of Kerr is exactly the set of non-vanishing ones.",
         I, "all parameters and events, 64 components per class", "Existing tests compare a couple of components or check symmetry at one point; one wrong sign in a rarely probed component passes.",
         ["metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py"], [("christoffels", "metric/kerr.py"), ("_dg_dx", "metric/kerrnewman.py")])
    prop("C04", "Equations of motion are the geodesic equation plus the Lorentz force",
         "The right hand side used for time-like geodesics equals (u, -Gamma u u) for every metric class and every state vector, and for a charged Kerr-Newman test particle it adds the "
         "Lorentz acceleration of the electromagnetic field of the black hole.",
         I, "all 8-component states, parameters and charges", "Tests integrate one or two orbits; a wrong coefficient of a velocity product that happens to vanish on them goes unseen.",
         ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"], [("f_vec", "metric/kerrnewman.py"), ("f_vec", "metric/kerr.py")])
    prop("C05", "Kerr-Newman field tensor is the exterior derivative of its potential",
         "The electromagnetic potential is the Kerr-Newman potential linear in the charge (including its sign), the covariant field tensor is its exterior derivative, and the contravariant "
         "tensor is the covariant one with both indices raised by the metric.",
         I, "all parameters and events", "Tests pin values at one point, including two components with the wrong sign.",
         ["metric/kerrnewman.py"], [("em_potential_covariant, em_tensor_covariant, em_tensor_contravariant", "metric/kerrnewman.py")])
    prop("C06", "Schwarzschild radius, spin, charge and horizon helpers match their formulas",
         "Schwarzschild radius, spin parameter, charge length scale, Sigma, Delta, event horizon, ergosphere and maximum spin helpers equal their defining formulas for all parameters; "
         "Delta vanishes at the horizon and g_tt vanishes at the ergosphere.",
         I, "all M, a, Q, theta", "Tests evaluate one mass with a = 0 or theta = pi/2.",
         ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py"],
         [("schwarzschild_radius, alpha, sigma, delta, rho", "metric/base_metric.py"), ("singularities", "metric/base_metric.py")])
    prop("C07", "Results do not depend on the unit in which a quantity is supplied",
         "Passing the same physical quantity in any dimensionally compatible unit (kg, g, solar mass; m, km; rad, deg; s, h; C) gives the same metric, coordinates, velocities, and helper "
         "values.",
         IC, "all quantities and all compatible units at every quantity-typed parameter", "Tests use base SI units almost everywhere.",
         ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py", "coordinates/core.py", "coordinates/differential.py", "bodies.py"],
         [("unit validation and conversion", "metric/base_metric.py")])
    prop("C08", "Wrong coordinate systems, units and unphysical parameters are rejected",
         "Metrics reject coordinates of another system, spins outside [0, 1] and quantities of the wrong dimension with the documented exception, setting a time velocity needs a metric in the same "
         "coordinate system, and no such call returns a value.",
         IC, "every public entry point taking coordinates, units or spin; all argument values", "Tests exercise one bad value per entry point; other branches (subclasses, keyword paths) are never tried.",
         ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "coordinates/differential.py", "utils/exceptions.py"],
         [("_validate_coordinates, spin check", "metric/base_metric.py"), ("v_t setter", "coordinates/differential.py")])
    prop("C09", "Position conversions preserve the physical event",
         "Converting a position between Cartesian, spherical and Boyer-Lindquist coordinates leaves the event unchanged: time is preserved, the coordinates satisfy the defining "
         "transformation with alpha = a M G / c^2, and round trips are the identity, for objects and plain functions alike.",
         I, "all positions, masses, spins, source and target systems", "Tests convert a few points in one octant; axis, x = 0, negative z and other quadrants are not covered.",
         ["coordinates/conversion.py", "coordinates/core.py", "coordinates/utils.py"], [("*_to_* functions", "coordinates/utils.py"), ("convert_*", "coordinates/conversion.py")])
    prop("C10", "Velocity conversions are the differential of the position conversion",
         "The converted velocity equals the Jacobian of the position transformation applied to the original velocity, for every pair of systems, and stays finite wherever the transformation is regular.",
         I, "all positions and velocities, all pairs of systems", "Tests sample two states; x = 0 plane and vanishing spin were never tried.",
         ["coordinates/utils.py", "coordinates/conversion.py", "coordinates/differential.py"], [("*_to_* with velocities", "coordinates/utils.py")])
    prop("C11", "Coordinate objects report exactly the event and velocity they were built from",
         "values() lists the SI components in declared order (velocities included exactly when all are given), position() is (ct, q1, q2, q3), indexing by name or number returns the stored quantity, "
         "and an out-of-range index raises.",
         IC, "all coordinate classes, keys and presence patterns of velocities", "Tests index a few names; mixed presence patterns are not enumerated.",
         ["coordinates/core.py", "coordinates/differential.py", "coordinates/conversion.py"], [("values, position, __getitem__", "coordinates/core.py")])
    G, GI = "geodesic/geodesic.py", "integrators/fantasy.py"
    prop("C12", "The time component of the 4-velocity normalises it",
         "For every coordinate class, velocity(metric) returns (u0, v1, v2, v3) with the given spatial components and u0 the future-directed root of g_ab u^a u^b = c^2 for the metric at that event "
         "(any symmetric metric). v_t is unset before, is recomputed for each metric, and lorentz_factor is 1/sqrt(1 - v^2/c^2).",
         I, "all positions, velocities and symmetric metrics", "Tests normalise a few states in diagonal metrics; a wrong cross-term coefficient vanishes there.",
         ["coordinates/differential.py", "coordinates/utils.py"], [("v_t setter, velocity", "coordinates/differential.py"), ("v0, lorentz_factor", "coordinates/utils.py")])
    prop("C13", "Contravariant metrics of the geodesic module are the inverse black-hole metrics",
         "The built-in metrics used for geodesics (Schwarzschild, Kerr, KerrNewman) are, at every event and for every parameter, the inverse of the textbook metric in geometrized units "
         "(G = c = M = 1) with signature (-,+,+,+).",
         I, "all a, Q, r, theta", "Tests compare a couple of entries at one position.", ["geodesic/utils.py"], [("_sch, _kerr, _kerrnewman", "geodesic/utils.py")])
    prop("C14", "A geodesic starts on the mass shell of its metric",
         "The initial 4-momentum keeps the given spatial momentum and adds the root p_t = (-B + sqrt(B^2 - 4AC))/2A of g^ab p_a p_b = -1 (time-like) or 0 (null), for any symmetric "
         "contravariant metric, built-in or user supplied, evaluated at (0, position) with the given parameters.",
         IC, "all positions, momenta, metrics and parameters, both particle kinds", "Tests only use metrics whose only cross term is g03.", ["geodesic/utils.py", G],
         [("_P", "geodesic/utils.py"), ("Geodesic.__init__", G)])
    prop("C15", "Dual number arithmetic is forward-mode differentiation",
         "For every operator (also with plain numbers on either side) and elementary function of DualNumber, the value part is the operation on the values and the derivative part its exact "
         "derivative; 0/0 resolves to the ratio of the derivatives; equality compares both parts.",
         I, "all values and derivatives, all operators in both operand orders", "Tests evaluate each operator at one pair of numbers.", ["utils/dual.py"], [("DualNumber", "utils/dual.py")])
    prop("C16", "Automatic differentiation of a metric is exact",
         "The derivative of every entry of every metric function (built-in or user supplied) with respect to every coordinate, as used by the integrator, is the exact partial derivative; the force "
         "is d_k g^ij p_i p_j. Invalid indices raise ValueError.",
         I, "all metrics, entries, coordinates and events", "Tests differentiate one entry of one metric at one point.", ["utils/dual.py", "integrators/utils.py"],
         [("_jacobian_g, _diff_g, _deriv", "utils/dual.py"), ("_PartHamFlow", "integrators/utils.py")])
    prop("C17", "The integrator is the symplectic FANTASY scheme of the requested order",
         "One step of order 2 is the Strang composition A(d/2) B(d/2) C(d, omega) B(d/2) A(d/2) of the exact partial flows of the extended Hamiltonian, in both phase-space copies; orders 4, 6, 8 "
         "are the Yoshida triple jumps of the next lower order. Steps start from the given state; other orders raise.",
         IC, "all states, step sizes, coupling omega, metrics and orders 2, 4, 6, 8",
         "Tests integrate specific orbits with loose tolerances; a scheme of the wrong order or with swapped copies still gives plausible orbits.", [GI, "integrators/utils.py"],
         [("GeodesicIntegrator.step", GI), ("_flow_A, _flow_B, _flow_mixed, _Z", "integrators/utils.py")])
    prop("C18", "Constraint violation during integration is always reported",
         "After each step a RuntimeWarning naming the step is issued exactly when |g^ab p_a p_b - norm| exceeds atol + rtol*|norm| at the new state, never with suppress_warnings; the results do not depend on it.",
         IC, "all states, tolerances, metrics, both particle kinds", "Tests check that one bad run warns.", [GI], [("GeodesicIntegrator.step", GI)])
    prop("C19", "A geodesic's trajectory is the integrator's sequence of states, one row per step",
         "trajectory is (0..steps-1, rows); row n holds position and momentum after step n+1 of the integrator built from the same metric, parameters, initial state and options. With return_cartesian "
         "the position columns are (t, x, y, z) and the momenta are unchanged. Options default as documented; Timelike and Nulllike select the norm.",
         IC, "all states and step counts, all metrics, classes and option combinations", "Tests inspect the shape and a few end points.", [G, GI],
         [("Geodesic, Timelike, Nulllike, calculate_trajectory", G)])
    Y = "symbolic/"
    prop("C20", "Symbolic Christoffel symbols are the Levi-Civita connection",
         "ChristoffelSymbols.from_metric(g)[i,j,k] = 1/2 g^il (d_k g_lj + d_j g_lk - d_l g_jk) for every metric of every dimension, whichever index position the metric is supplied in.",
         I, "all metrics (uninterpreted component functions), dimensions 2-4", "Tests use a handful of diagonal metrics.", [Y + "christoffel.py", Y + "metric.py"], [("ChristoffelSymbols.from_metric", Y + "christoffel.py")])
    prop("C21", "Riemann, Ricci and scalar curvature follow their definitions on every route",
         "Riemann[t,s,r,n] = d_r G^t_sn - d_n G^t_sr + G^p_sn G^t_pr - G^p_sr G^t_pn, Ricci_sn = Riemann[k,s,k,n], scalar = g^sn Ricci_sn; every from_* constructor yields the same tensor "
         "for the same metric, whatever index position its input is in, and the algebraic symmetries of the curvature hold.",
         I, "all metrics with uninterpreted components, dimensions 2-4, every constructor", "Tests compare specific metrics and a few components.", [Y + "riemann.py", Y + "ricci.py"],
         [("RiemannCurvatureTensor.from_*", Y + "riemann.py"), ("RicciTensor.from_*, RicciScalar.from_*", Y + "ricci.py")])
    prop("C22", "Einstein, Schouten and stress-energy tensors follow their definitions",
         "Einstein = Ricci - g R/2, Schouten = (Ricci - g R/(2(n-1)))/(n-2) with dimension below 3 rejected, stress-energy = c^4/(8 pi G) (Einstein - Lambda g), with both indices down "
         "whatever form the metric is given in.",
         I, "all metrics, dimensions 2-4", "Tests compare two known metrics.", [Y + "einstein.py", Y + "schouten.py", Y + "stress_energy_momentum.py"],
         [("from_metric", Y + "einstein.py"), ("from_metric", Y + "schouten.py"), ("from_metric", Y + "stress_energy_momentum.py")])
    prop("C23", "The Weyl tensor is the trace-free part of the Riemann tensor",
         "Weyl_iklm equals its definition for every metric of dimension 3 and above, index position llll; it vanishes for n = 3 and for conformally flat metrics, is trace-free, and n < 3 is rejected.",
         I, "all metrics, dimensions 2-4", "Tests check one metric.", [Y + "weyl.py"], [("WeylTensor.from_metric, from_tensors", Y + "weyl.py")])
    prop("C24", "Raising and lowering indices contracts exactly the changed slots with the metric",
         "change_config contracts each slot that changes with g_ij or g^ij and leaves the others, for every pair of index configurations and every tensor class, using the metric argument or else the "
         "parent metric in either index position. Malformed configurations raise ValueError, a missing metric raises; converting back restores the tensor.",
         IC, "all tensors, metrics, ranks and pairs of configurations", "Tests change a few configurations with diagonal metrics, for which a transposed contraction is invisible.",
         [Y + "tensor.py", Y + "metric.py", Y + "riemann.py", Y + "christoffel.py", Y + "weyl.py"], [("_change_config, _change_name", Y + "tensor.py"), ("change_config", Y + "riemann.py")])
    prop("C25", "Tensors keep their class, index positions, coordinates, metric and name",
         "The result of every from_*, change_config, lorentz_transform, subs, tensor(), order, symbols and inv carries the right class, configuration, coordinates, parent metric (the one it was "
         "computed with; none after a Lorentz transform) and name.",
         IC, "all classes, operations and configurations", "Tests check one class per attribute.", [Y + "tensor.py", Y + "metric.py", Y + "riemann.py", Y + "ricci.py", Y + "weyl.py", Y + "stress_energy_momentum.py"],
         [("BaseRelativityTensor", Y + "tensor.py"), ("change_config of each class", Y + "ricci.py")])
    prop("C26", "Tensor products and contractions are exact",
         "tensor_product(A, B) is the outer product with concatenated configuration; with indices (i, j) one upper and one lower index are summed and removed, equal positions raise; coordinates "
         "and parent metric come from A, free variables and functions from both.",
         IC, "all tensors, ranks, configurations and contracted index pairs", "Tests contract two tensors in one configuration.", [Y + "tensor.py"], [("tensor_product", Y + "tensor.py")])
    prop("C27", "Lorentz transformation acts correctly on every index",
         "lorentz_transform(L) contracts every upper index with L and every lower index with the transposed inverse of L, so scalars are invariant and transforming back restores the tensor.",
         IC, "all tensors, classes, configurations and invertible matrices", "Tests only transform with symmetric boosts or metrics.", [Y + "tensor.py", Y + "metric.py", Y + "ricci.py", Y + "einstein.py", Y + "vector.py"],
         [("lorentz_transform", Y + "tensor.py")])
    prop("C28", "Symbolic tensors accept exactly valid data and lambdify faithfully",
         "A tensor holds exactly the given components; wrong types, configurations, ranks, dimensions, coordinates, variables or functions are rejected with the documented exception; the lambdified "
         "tensor takes coordinates then variables in order (or the given arguments) and returns the components.",
         IC, "all components, configurations and argument patterns", "Tests build one or two bad inputs.", [Y + "tensor.py", Y + "metric.py", Y + "vector.py", Y + "helpers.py", Y + "christoffel.py"],
         [("Tensor.__init__, BaseRelativityTensor.__init__, tensor_lambdify", Y + "tensor.py")])
    prop("C29", "Predefined metrics are the published solutions of the field equations",
         "Each predefined metric has the published line element in its coordinates, covariant, with every argument in its documented place; vacuum solutions have zero Ricci tensor, charged ones zero "
         "scalar curvature, (anti) de Sitter Ricci proportional to g, flat ones zero Riemann tensor.",
         I, "all parameter values and events, every predefined metric", "Tests only check the type or a few components.",
         [Y + "predefined/%s.py" % f for f in ("minkowski", "de_sitter", "vacuum_solutions", "bertotti_kasner", "bessel_gravitational_wave", "cmetric", "davidson", "ernst", "godel", "janis_newman_winicour", "alcubierre_warp")],
         [("metric functions", Y + "predefined/vacuum_solutions.py")])
    prop("C30", "Predefined metrics can be found and imported under their names",
         "find(s) lists exactly the predefined metrics whose name contains s, ignoring case; each is exported by einsteinpy.symbolic; every name in an __all__ or imported by a package is the object "
         "its module defines.",
         IC, "all predefined metrics, search strings and package exports", "Tests search two strings.", [Y + "predefined/find.py", Y + "predefined/__init__.py", Y + "__init__.py"], [("find", Y + "predefined/find.py")])
    prop("C31", "The cosmological scale factor follows the law of its era",
         "scalar_factor(t, era, k) is k T^(2/3) in the matter era (the default), k T^(1/2) in the radiation era and k exp(sqrt(Lambda/3) T) in the dark energy era, T being t in seconds whatever "
         "time unit t has; scalar_factor_derivative is its derivative with respect to T. Any other era raises ValueError; a time without time dimension is rejected.",
         IC, "all times, time units, eras and scales", "Tests evaluate each era once, in seconds.", ["utils/scalar_factor.py"],
         [("scalar_factor, scalar_factor_derivative", "utils/scalar_factor.py")])
    prop("C32", "The Runge-Kutta steppers take the classical step and stop at their bound",
         "RK4naive.step performs exactly one classical fourth order Runge-Kutta update of (t, y), or warns and changes nothing once t has reached t_bound in the direction of integration. RK45 hands "
         "its arguments and documented defaults to scipy and turns a RuntimeError of step, and nothing else, into a RuntimeWarning.",
         I, "all right hand sides, states, step sizes and bounds, forwards and backwards", "Tests integrate one equation to a tolerance, which hides a wrong stage or a missed bound.",
         ["integrators/runge_kutta.py"], [("RK4naive, RK45", "integrators/runge_kutta.py")])
    prop("C33", "Queries have no side effects and do not depend on call history",
         "Calling a query (metric components, symbols, field tensors, conversions, velocities, tensor constructors, change of configuration, singularities, integration) changes neither its arguments nor "
         "its object nor shared state, documented caching excepted, and gives the same answer on a fresh object as after any other calls, in any order.",
         ["inputs", "histories"], "all inputs; every ordered pair of queries of each class", "Tests call each query once on a fresh object, so state leaking between calls or into arguments stays unseen.",
         ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "coordinates/core.py", "coordinates/differential.py", Y + "tensor.py", Y + "metric.py", GI],
         [("metric query methods", "metric/base_metric.py"), ("conversions", "coordinates/differential.py"), ("change_config, inv, lower_config", Y + "metric.py")])
    prop("C34", "A Body holds what it is given and exposes its coordinates",
         "A Body holds the name, mass, charge, radius, coordinates and parent it is given (defaults: Generic Body, 0 kg, 0 C, 0 km, none, none) and rejects quantities of the wrong dimension. pos_vec and "
         "vel_vec are the spatial position and velocity of its coordinates in whatever system. Predefined bodies have their published masses and radii and form the tree Sun > planets, Earth > Moon.",
         IC, "all bodies, coordinate systems and units", "Tests build one body with one set of coordinates.", ["bodies.py"], [("Body.__post_init__", "bodies.py"), ("predefined bodies", "bodies.py")])
    prop("C35", "Physical constants have a single source",
         "einsteinpy.constant provides the CODATA values of c, G, eps0, k = 1/(4 pi eps0), the documented Lambda, solar mass and solar radius, and no other module carries a numeric copy of a physical constant. "
         "primitive() turns every quantity into its SI value, in order, leaving numbers alone. Symbolic constants are found by name and differ from user symbols.",
         IC, "every module; every constant, unit and argument list", "Tests compare single values; a second, diverging copy of a constant is invisible to them.",
         ["constant.py", "units.py", Y + "constants.py"], [("constants", "constant.py"), ("primitive", "units.py"), ("SymbolicConstant, get_constant", Y + "constants.py")])
    prop("C36", "Plotters draw exactly the computed curves",
         "The geodesic plotters (static and interactive) draw the outer horizon r = 1 + sqrt(1 - a^2), the ergosphere r = 1 + sqrt(1 - a^2 cos^2 theta) when asked, and the trajectory columns for the chosen "
         "coordinates or, parametrically, each coordinate against the affine parameter; invalid aspects and coordinates raise. Shadow and hypersurface plotters pass on exactly their object's curves.",
         IC, "all trajectories, spins, coordinate choices and options", "Tests check that plotting functions are called, not what is drawn.",
         ["plotting/geodesic/static.py", "plotting/geodesic/interactive.py", "plotting/rays/shadow.py", "plotting/hypersurface/core.py"],
         [("StaticGeodesicPlotter", "plotting/geodesic/static.py"), ("InteractiveGeodesicPlotter", "plotting/geodesic/interactive.py"), ("ShadowPlotter", "plotting/rays/shadow.py")])
    prop("C37", "numba is optional and compiled functions stay compilable",
         "Without numba the package imports, warns, and jit in every form (bare, called, with options) returns a function that behaves as the undecorated one. Every function decorated with jit uses only "
         "names, builtins and statements that numba's nopython mode accepts.",
         ["configurations"], "with and without numba; every decorated function", "Tests run in one environment only.", ["ijit.py", "plotting/fractal.py", "integrators/utils.py"],
         [("jit, ijit", "ijit.py")])
    prop("C38", "The Schwarzschild embedding surface is the tabulated flow of its slope",
         "For m = M / 1e23 kg: R(r) = r / sqrt(1 - 2m/r); get_values tabulates (R, Z) outwards from r = 3m + 1e-4 to 9m and inwards to 9m/4 in steps m/alpha with Z the running sum of the slope; "
         "get_values_surface revolves the outward curve up to 20m about the Z axis. The slope is the documented gradient (see known findings for its extra factor).",
         I, "all masses, mass units and resolutions", "Tests compare one table and only its first entries.", ["hypersurface/schwarzschildembedding.py"],
         [("SchwarzschildEmbedding", "hypersurface/schwarzschildembedding.py")])
    prop("C39", "The Schwarzschild shadow integrates the published intensity for every ray",
         "n_rays impact parameters run from b_crit = 3 sqrt(3) M to the field of view; a ray is kept when r/sqrt(1 - 2M/r) = b has a real turning point, found over the complex numbers; its intensity is the "
         "blue shifted integral in plus the red shifted one out (Bambi 2013). As many rays below b_crit are integrated from the horizon. Profiles are symmetric; smoothen interpolates cubically.",
         IC, "all masses, fields of view, units, ray counts and patterns of real roots", "Tests check shapes and one smoothed array.", ["rays/shadow.py"], [("Shadow", "rays/shadow.py")])
    prop("C40", "Text forms show the object's own data under the right labels",
         "str() and repr() of coordinates, metrics, bodies, geodesics, integrators, dual numbers and tensors never fail and show every field of the object right after its label. BaseError and CoordinateError "
         "join their arguments into message, print as 'Class : message' and can be caught as BaseError and Exception.",
         IC, "all objects of each class, with and without optional parts", "Tests compare str with repr, or a single literal.",
         ["coordinates/core.py", "coordinates/differential.py", "metric/base_metric.py", "bodies.py", G, GI, "utils/dual.py", "utils/exceptions.py", Y + "tensor.py"],
         [("__str__, __repr__", "metric/base_metric.py"), ("BaseError", "utils/exceptions.py")])
    prop("C41", "Bundled example, plotter selection and Julia set compute what they document",
         "precession() is the time-like Schwarzschild geodesic from r = 40 in the equatorial plane with p_phi = 3.83405, 5500 steps of size 1. GeodesicPlotter is the interactive plotter exactly in a notebook "
         "kernel. Julia pixel (i, j) is (n/iter_max)^0.2 for the n iterations of z^2 + c that stay below zabs_max; fractal() draws divs images, the last visible, one slider step each.",
         IC, "all shells; all image parameters (image sizes up to 2x2 pixels)", "Tests only check that the calls return.", ["examples.py", "plotting/geodesic/core.py", "plotting/fractal.py"],
         [("precession", "examples.py"), ("in_ipynb", "plotting/geodesic/core.py"), ("_julia, fractal", "plotting/fractal.py")])
    prop("C46", "Transformation matrices and array helpers keep every entry",
         "A TransformationMatrix holds exactly the given entries (any other rank than 2 raises ValueError), coordinates and rules; from_new2old fills entry [i, j] with the reciprocal of the derivative of old "
         "coordinate j by new coordinate i, and inv() is the entrywise reciprocal, computed once per matrix; from_old2new is not implemented. simplify_sympy_array and sympy_to_np_array keep the shape and the value of every entry.",
         IC, "all matrices up to 4x4, all arrays up to rank 4", "Tests use one 2x2 matrix.", [Y + "helpers.py"], [("TransformationMatrix", Y + "helpers.py"), ("simplify_sympy_array", Y + "helpers.py")])
    na("C42", "Long integrations keep energy, momentum and norm within tolerance",
       "Over a whole trajectory in double precision the conserved quantities of a geodesic drift no more than the tolerances the user asked for.",
       I, "all orbits, step sizes and step counts", "Tests integrate a few orbits for a few steps.", [GI], [("GeodesicIntegrator.step", GI)],
       "Accumulated truncation and rounding error over thousands of steps of a user-chosen size is a runtime quantity: no sound static bound below divergence exists for arbitrary orbits. C17 decides the exact step and C18 that drift is reported.")
    na("C43", "Floating point evaluation stays close to the exact formulas",
       "For every representable input away from singularities, the numeric results agree with the exact formulas to near machine precision.",
       I, "all double inputs", "Tests use benign magnitudes.", ["metric/kerrnewman.py", "coordinates/conversion.py"], [("metric components", "metric/kerrnewman.py"), ("conversions", "coordinates/conversion.py")],
       "Rounding, cancellation and overflow depend on runtime magnitudes over about 40 decades of SI values; a static error analysis of these expressions over that range gives no useful bound. All checks decide exact real arithmetic.")
    na("C44", "Adaptive and iterative library solvers converge to the right answer",
       "The turning points found by Newton's method, the fixed order quadratures of the shadow and the adaptive Runge-Kutta steps converge to the true values.",
       I, "all inputs", "Tests fix one mass.", ["rays/shadow.py", "integrators/runge_kutta.py"], [("newton, fixed_quad", "rays/shadow.py"), ("RK45", "integrators/runge_kutta.py")],
       "Convergence of scipy's iterations depends on runtime values inside library code; C39 and C32 decide that the right problem is handed to the solver with the right limits and guesses.")
    na("C45", "Symbolic simplification ends and changes no value",
       "Calling sympy's simplify on any tensor terminates and changes no value.",
       I, "all tensors", "Tests simplify small expressions.", [Y + "helpers.py", Y + "tensor.py"], [("simplify_sympy_array", Y + "helpers.py")],
       "Correctness and termination of sympy's heuristic simplifier is a property of the library, outside the analysed source; the checks treat simplify as value preserving and decide that it is applied entry by entry.")
