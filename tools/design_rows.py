ROWS = {
"C01": ("metric_covariant at symbolic event, M, a, Q against the textbook line element, 16 entries per class and per argument form; events given as Python integers (numpy integer storage truncates)", "none"),
"C02": ("g·g⁻¹ = 1 as terms; user metrics with uninterpreted entries, with and without perturbation, under several names, charges and coordinate systems; arrays kept by the user stay intact", "user metric patterns: two block forms, dense"),
"C03": ("64 symbols per class against the connection obtained by differentiating the specified metric; list of non-zero symbols as a set", "none"),
"C04": ("f_vec(λ, (x,u)) against −Γuu (+ Lorentz term); finding F1 pinned by its exact wrong term", "none"),
"C05": ("potential, dA, both field tensors as terms; finding F2 pinned by its exact wrong term", "none"),
"C06": ("helpers as terms, boundary values a = 0, 1 by boundary sampling; Δ(horizon)=0, g_tt(ergosphere)=0", "none"),
"C07": ("quantities in a unit of symbolic scale k and in named units (also percent): k cancels from every result", "none"),
"C08": ("gated exception conditions: raised exactly on the invalid inputs, with the documented class", "entry points listed in the check"),
"C09": ("conversion terms against the defining maps; round trips; all pairs, object and function forms", "none"),
"C10": ("velocities against the symbolic Jacobian of C09's map; regular planes x = 0, z = 0 included", "none"),
"C11": ("abstract values of accessors, indexing and iteration", "none"),
"C12": ("v0 against the root of the quadratic for a generic symmetric metric; unit of v_t; recomputation for a second metric and for a perturbed one", "none"),
"C13": ("16 entries per built-in metric", "none"),
"C14": ("_P and the constructors on a metric whose entries are uninterpreted functions; momenta given as integers", "none"),
"C15": ("each operator and function on symbolic duals, derivative of the specified term; concrete zero and negative values", "compound expressions of depth 3"),
"C16": ("derivative terms of uninterpreted metric functions, all (i,j,k)", "none"),
"C17": ("order 2 on metrics with one position dependent entry; composition by replacing the partial flows with uninterpreted functions and comparing call structure; two steps from distinct copies; one step with the step counter an arbitrary natural number", "linear problems up to order 4 (quick), 6 (thorough); composition for 2, 4, 6, 8"),
"C18": ("guard of the warning event against the tolerance predicate; per-step marks over several steps", "1 to 24 steps (quick), 64 (thorough)"),
"C19": ("rows of the trajectory with the step replaced by fresh states; forwarding of every option; user functions under any name", "1, 2, 3, 50 steps with distinct states; 1203 and 12007 for the length"),
"C20": ("metrics of uninterpreted functions", "families of dimension 1–7 (2, 3: general or block; 4–7: structured; thorough adds dense 3D and 4D)"),
"C21": ("as C20, plus opaque tensors for every route and index position", "as C20; opaque tensors in dimension 2–4"),
"C22": ("as C21", "as C20"),
"C23": ("as C21; trace and conformal flatness as terms", "dimension 2–6, plus a conformally flat family"),
"C24": ("opaque tensors, all pairs of configurations; numeric, sparse and constant tensors in Minkowski, null and constant metrics", "rank ≤ 4"),
"C25": ("labels of every result object", "all classes × operations"),
"C26": ("opaque tensors, all index pairs", "rank sum ≤ 6"),
"C27": ("opaque tensors under opaque and structured matrices, given as list, tuple, Matrix, Array, ndarray", "rank ≤ 5"),
"C28": ("constructor exceptions as gated conditions; lambdify modelled as (argument list, component terms)", "none"),
"C29": ("line elements entry by entry; curvature identities computed from the line element by the spec side", "18 metrics"),
"C30": ("resolved import graph and __all__; find() on search strings incl. case, empty, Unicode", "listed strings"),
"C31": ("terms and time units; era strings", "none"),
"C32": ("RK4 update on uninterpreted right hand sides; guard of the bound; recorded scipy call; counters havocked to an arbitrary history", "1–2 steps, dimension ≤ 3"),
"C33": ("effect analysis: write events against caller-owned allocation sites, module and class state; value comparison of fresh versus used objects", "call sequences of length 2–3"),
"C34": ("field values and exception conditions; predefined bodies against published values", "none"),
"C35": ("values of constants as terms; syntax-tree query for numeric literals that copy a constant", "all modules"),
"C36": ("recorded plotting calls, their argument terms compared with horizon, ergosphere and trajectory columns", "trajectories of 1–7 rows"),
"C37": ("nopython subset as a rule over every jit-decorated function; ijit interpreted with numba missing", "all decorated functions"),
"C38": ("tables as running sums with the loops unrolled at chosen (m, α); the gradient for symbolic arguments", "seven (m, α) pairs for the tables, one with 2000 subdivisions; finding F3 pinned"),
"C39": ("integrals and roots as opaque linear functionals; integrands as terms", "1–3 rays, all patterns of real and complex roots listed"),
"C40": ("text built as a sequence of literals and field references; each field after its label", "none"),
"C41": ("escape-time recursion with concrete small iteration limits and symbolic start; slider structure", "images ≤ 2×2; symbolic start for iter_max ≤ 3, chosen points up to iter_max 101; divs 1, 3, 4"),
"C46": ("entries as terms, shapes, identity of the kept coordinates and rules, cached inverse", "matrices up to 4×4, arrays up to rank 4"),
}
