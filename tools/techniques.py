# (technique, what assurance the check gives)
T = {
"C01": ("random domains and mesh sizes against a closed-form reference geometry", "All 39 vectors and scalars of the mesh are compared for every generated domain (widths 1e-60 to 1e60)."),
"C02": ("round trips and closed-form conversions on random states, stateful sequences of conversions against a model", "Both physics systems, all locations."),
"C03": ("random states against the Euler gas laws, stateful sequences of updates against a model", "Both physics systems, all locations."),
"C04": ("random states and boundary conditions against a reference of all eight modes", "Every mode per equation and edge, all locations."),
"C05": ("random uniform flows stepped with every scheme; invariant: uniformity", "Tolerances scale with the number of stages; covers every flux scheme, limiter and Runge-Kutta mode."),
"C06": ("telescoping sum against reference edge fluxes, metamorphic interior changes, conservation over closed-box histories", "Right-hand sides of both schemes; runs in closed boxes for HLL."),
"C07": ("random states against an independent HLL reference", "Face fluxes recomputed from the documented formula for every generated state."),
"C08": ("random states against an independent KT/limiter reference plus limiter invariants", "Face values and right-hand sides for all five limiters."),
"C09": ("metamorphic single-cell perturbation; bit-identical outside of the stencil", "Right-hand sides and sequences of steps."),
"C10": ("metamorphic mirror symmetry over whole runs", "Whole runs with every scheme, compared step by step."),
"C11": ("metamorphic scaling by powers of two over whole runs", "Whole runs with every scheme, compared step by step."),
"C12": ("user-defined right-hand sides against textbook Butcher tableaux", "Single steps and sequences of steps for all nine modes; measured order of accuracy."),
"C13": ("stateful histories of runs: recorded times against invariants", "Every step of generated runs is recorded and judged."),
"C14": ("random states and limits against the closed-form step width; injected bad states", "Every step of generated runs is recorded and judged."),
"C15": ("recorded attempts of runs with step control against the embedded error estimate recomputed by a reference", "Every accepted step is judged; termination by a budget of evaluations."),
"C16": ("fault injection at random points of runs; files and state after the failure against a model", "Faults: iteration limit, step width, poisoned right-hand sides."),
"C17": ("random run configurations against a model of the set of output files and times", "Directory contents and recorded times of whole runs."),
"C18": ("round trip: parse generated outputs and compare with the live state", "Every column type, both formats and string modes."),
"C19": ("round trip: parse the metadata and compare with every configured field", "All fields of the configuration."),
"C20": ("random directory trees before and after a run against a model of allowed changes", "Trees with nested folders and files; all combinations of clearing."),
"C21": ("random valid configurations, and single violations of each documented constraint", "Each constraint is violated in many ways; panics are caught."),
"C22": ("fault injection on output files (full device, directories in place, missing permission)", "Every stream and output number."),
"C23": ("differential: thread pools, concurrent runs, manual stepping, other streams, other simulations before it, a fresh process; bit-identical", "Bit-wise comparison of states, times and files."),
"C24": ("fault injection of NaN, infinities and negative values; invariant on every successful step", "Injected in initial states, right-hand sides and solutions."),
"C25": ("random values against exact conversion factors", "All conversion functions in both unit systems."),
"C26": ("random Riemann problems against an exact Riemann solver on refined meshes", "L1 errors at several resolutions."),
"C27": ("random smooth transported profiles; measured order of convergence", "L1 errors at several resolutions."),
"C28": ("random initial states and boundary conditions; consistency of everything after initialisation", "All fields of the initialised components."),
"C29": ("random dirty states and arguments against the documented set-ups and defaults", "All fields of the default configurations."),
"C30": ("random stream configurations; captured stdout of a child process against the expected blocks", "Complete text of stdout."),
"C31": ("differential: whole runs against an independent reference solver, step by step", "Every configuration the generator reaches."),
"C32": ("random arrays and scalars against a direct evaluation of the guards", "All macros in field and expression form."),
"C34": ("differential: the same generated runs in builds of corries with and without the default feature, bit by bit", "Every step, the final state and all files are compared; a second build of the harness (harness-nv) is needed."),
"C35": ("metamorphic invariant over generated runs: uniform velocity and pressure stay uniform; maximum principle and total variation for HLL", "Every step of whole runs is judged."),
"C36": ("metamorphic: the same generated problem shifted in the mesh, in space and in time, bit by bit where representable", "Single cells and whole runs compared step by step."),
"C37": ("differential and metamorphic: user-defined systems of permuted and further equations against the built-in ones, bit by bit", "Two user-defined systems (4 and 3 equations), three mesh sizes."),
"C38": ("fault injection: child processes that end before generated steps or while writing, against the files of a complete run", "Ends between steps (four ways) and at generated file sizes."),
"C39": ("model-based testing: generated sequences of writer operations around runs, files compared with a model after every operation", "Sequences of at most 20 operations."),
"C40": ("metamorphic: runs restarted from the text of their own output files against the uninterrupted run", "Without step control, whose controller remembers the last error; at most some 20 steps after the restart."),
"C41": ("fuzzing with extreme states and settings of whole accepted configurations; panics, hangs (budget of evaluations, wall time) and step counts judged", "Initialisation, runs and further use after them."),
"C42": ("user-defined linear systems against an independent reference, and metamorphic superposition, scaling and exact shift", "Systems of 1, 2 and 5 equations; four mesh sizes."),
"C43": ("random profiles of scalar advection; invariants: maximum principle, total variation, monotonicity", "Every step is judged; CFL numbers within the theoretical limits."),
"C44": ("user-defined flux schemes and integrators that record their arguments, against reference steps and a model of the calls; fault injection", "Flux scheme with every Runge-Kutta mode; failures at generated calls."),
"C45": ("long generated runs; differential of sampled steps against fresh simulations, invariants over the history", "Up to 70 000 steps; steps are compared without step control, whose controller remembers the last error."),
"C46": ("random violent states; invariants of the theory of averaged Riemann solutions: success, and bounded loss of density and pressure", "HLL with RK1 and CFL up to 1/2, where the theory holds."),
"C47": ("random states with jumps and transonic expansions; invariants: minimum principle of the entropy, balance of the total entropy; the exact Riemann solution decides where they hold", "HLL with RK1 and CFL up to 1/2, where the theory holds; faces whose exact shocks outrun the estimated waves are left out."),
"C33": ("stateful: random sequences of state operations against a model", "All 25 public operations, both states."),
}
NA = {}
