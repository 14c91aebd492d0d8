#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they can be edited as a table."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SIM = "physics systems, HLL and KT with every limiter, every Runge-Kutta mode, boundary conditions, meshes and states"

prop("C01", "Mesh cells tile the configured domain and the geometry is self-consistent",
 "For every accepted domain [xi_in, xi_out] the S-4 computational cells are equally wide and tile the domain exactly, with two further cells of the same width as ghost cells on either side. Every cell's east face is the west face of its neighbour, its centre lies midway, and widths, line elements, face areas, volumes, inverses and all other derived geometry agree with these coordinates for domains of any physical size.",
 "inputs configurations", "all domains (1e-9 to 1e9 wide, shifted, negative, near 0) and mesh sizes",
 "The one mesh test checks two coordinates on one mesh size with positive bounds; nothing checks interior cells, derived geometry, or very small or shifted domains.",
 "src/mesh.rs src/config/meshconfig.rs",
 [("Mesh::new","src/mesh.rs"),("Mesh validation","src/mesh.rs")], ["fields of Mesh","XiCent/XiWest/XiEast output columns"])

prop("C02", "Primitive and conservative variables convert into each other without loss",
 "At cell centres and at both faces, conservative variables computed from primitive ones are exactly (rho, rho*v, p/(gamma-1)+rho*v^2/2) (without the energy for isothermal gas), and converting back returns the primitive variables up to rounding, and vice versa. Converting one location changes neither the other locations nor the variables converted from.",
 "inputs", "all finite states with positive density and pressure, over many orders of magnitude, all adiabatic indexes, all three locations",
 "The existing round-trip test uses uniform arrays of two cells, one adiabatic index and one decade of magnitudes, at the cell centre only.",
 "src/state.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs src/state/physics.rs",
 [("prim_to_cons / cons_to_prim","src/state/systems"),("update_prim_d / update_cons_d","src/state.rs")], ["State::{cent,west,east}.{prim,cons}"])

prop("C03", "Sound speed, wave speeds and physical fluxes follow the gas laws",
 "For every valid state and at every location, the adiabatic sound speed is sqrt(gamma*p/rho) and the isothermal one is left as the user set it, the wave speeds are v-c <= v <= v+c, and the physical flux is the Euler flux (rho*v, rho*v^2+p, (E+p)*v), with p=rho*c^2 and no energy equation for isothermal gas.",
 "inputs", "all valid states over many orders of magnitude, all adiabatic indexes, all three locations",
 "The tests use a handful of hand-made uniform states at the cell centre.",
 "src/state/physics.rs src/state.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs",
 [("update_c_sound, update_eigen_vals*","src/state/physics.rs"),("update_flux","src/state/systems")], ["State::{cent,west,east}.{c_sound,eigen_vals,flux}"])

prop("C04", "Boundary conditions fill the ghost cells as configured and nothing else",
 "Applying boundary conditions sets the two ghost cells per edge of each configured equation's primitive variable to the documented function of the adjacent interior cells: copy, linear extrapolation, 1e-10 times the edge value, mirror with opposite sign, Kepler scaling with xi^-1/2 from the neighbour, or for the outflow modes mirror for velocities pointing into the domain and copy/extrapolation otherwise. Interior cells, the opposite edge, and equations without a condition keep their values, and afterwards conservative and derived variables agree with the primitive ones everywhere.",
 "inputs configurations", "all condition modes per equation and per edge in any combination, all states, meshes and mesh sizes",
 "The tests apply each mode to a single hand-made array on one mesh; combinations of modes and edges and effects on the other cells are not looked at.",
 "src/boundaryconditions.rs src/boundaryconditions/custom.rs src/state/physics.rs",
 [("CustomBoundaryConditions::apply","src/boundaryconditions/custom.rs"),("init_boundary_condition","src/boundaryconditions.rs")], ["State::cent after update_vars_from_prim/cons"])

prop("C05", "A uniform flow stays exactly uniform",
 "If all cells hold the same density, velocity and pressure (or sound speed) and the boundaries pass the flow through, the state remains this uniform flow up to rounding after any number of time steps, for every flux scheme, limiter, Runge-Kutta mode and mesh.",
 "inputs configurations histories", "all uniform states (sub- and supersonic, both directions, at rest), " + SIM + ", numbers of steps",
 "One unit test per flux scheme feeds one uniform state into one flux evaluation; nothing covers time steps, boundaries or other states.",
 "src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/rhs/numflux.rs src/time/rkf.rs src/boundaryconditions/custom.rs",
 [("flux differences","src/rhs/numflux.rs"),("RungeKuttaFehlberg","src/time/rkf.rs")], ["State::cent after Solver::next_solution"])

prop("C06", "Mass, momentum and energy are conserved",
 "In every flux evaluation the right-hand sides of all computational cells, weighted with the cell volumes, add up to the flux out of the east edge minus the flux into the west edge of the domain, so changing the state in the interior does not change this sum. In a closed box (mirrored velocity, copied density and pressure at both edges) the HLL scheme therefore keeps total mass and energy constant up to rounding over any number of time steps.",
 "inputs configurations histories", "all states, " + SIM + ", numbers of steps",
 "No test looks at conserved totals at all.",
 "src/rhs/numflux.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/rhs.rs src/time/rkf.rs src/boundaryconditions/custom.rs",
 [("calc_dflux_xi_generic","src/rhs/numflux.rs"),("time step update of the conservative variables","src/time/rkf.rs")], ["Rhs::full_rhs","State::cent.cons"])

prop("C07", "The HLL scheme computes the documented HLL flux at every face",
 "For every valid state, the HLL right-hand side in each cell is the difference of the documented HLL fluxes at its two faces divided by the cell width, computed from the cell-centred values and wave speeds of the two adjacent cells (including the ghost cells). In particular the flux equals the physical flux of the upwind cell when the flow is supersonic, and of the common state when both cells are equal.",
 "inputs configurations", "all valid states (random, smooth, shocks, near vacuum, sub-/supersonic), boundary conditions, meshes, both physics systems",
 "The unit tests use a constant state and one step function.",
 "src/rhs/numflux/hll.rs src/rhs/numflux.rs src/rhs.rs",
 [("Hll::calc_dflux_dxi","src/rhs/numflux/hll.rs"),("calc_dflux_xi_generic","src/rhs/numflux.rs")], ["Rhs::full_rhs"])

prop("C08", "The KT scheme reconstructs with the chosen limiter and computes the KT flux",
 "For every state, the face values of the conservative variables are the cell value plus/minus half a cell times the slope of the configured limiter (NoLimiter, MinMod, Superbee, Monocent(theta), VanLeer as documented), so limited face values stay between the cell and its neighbours, are flat at extrema and, for all limiters but Superbee (whose documented slope is at most half of the larger difference), exact for linear profiles. The right-hand side is the difference of the documented Kurganov-Tadmor fluxes computed from these face values.",
 "inputs configurations", "all valid states, all limiters and theta > 1, boundary conditions, meshes, both physics systems",
 "The unit tests use a constant state and one step function, for which most limiters give the same (zero) slope.",
 "src/rhs/numflux/kt.rs src/rhs/numflux.rs src/config/numericsconfig/numfluxconfig.rs",
 [("Kt::reconstruct","src/rhs/numflux/kt.rs"),("Kt::calc_dflux_dxi","src/rhs/numflux/kt.rs")], ["Rhs::full_rhs","State::{west,east}.cons"])

prop("C09", "Information propagates only through the stencil of the scheme",
 "Changing the state of one cell changes the right-hand side only in cells within the stencil of the scheme (one neighbour for HLL, two for KT), and after n time steps of an s-stage Runge-Kutta mode with a fixed step width only cells within n*s stencils differ. All other cells come out bit-identical.",
 "inputs configurations histories", "all states and single-cell perturbations, " + SIM + ", numbers of steps",
 "No test compares two perturbed runs.",
 "src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/time/rkf.rs src/rhs.rs",
 [("stencils of Hll and Kt","src/rhs/numflux"),("stage loop","src/time/rkf.rs")], ["Rhs::full_rhs","State::cent after next_solution"])

prop("C10", "Mirroring the problem mirrors the solution",
 "Mirroring the initial state in space (reversing the cells, negating velocities, exchanging the boundary conditions of both edges) and running the same number of steps gives the mirrored solution with the same time step widths, up to rounding. This holds for flows in either direction, every flux scheme, limiter, Runge-Kutta mode and with automatic step control.",
 "inputs configurations histories", "all states, " + SIM + ", numbers of steps, with and without automatic step control",
 "The integration tests run two set-ups whose flow pattern never exercises the mirrored direction on its own.",
 "src/state/physics.rs src/state.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/boundaryconditions/custom.rs src/time/rkf.rs",
 [("calc_dt_cfl","src/state.rs"),("west/east implementations of every boundary condition","src/boundaryconditions/custom.rs")], ["State::cent and TimeStep::dt after next_solution"])

prop("C11", "Solutions do not depend on the units the problem is expressed in",
 "Rescaling lengths, times and densities of a whole problem (mesh, state, time and step limits) by powers of two rescales the solution of a run accordingly, in all variables and step widths, up to rounding, without hidden absolute scales.",
 "inputs configurations histories", "all states, " + SIM + ", scale factors 2^-30 to 2^30, numbers of steps",
 "All tests use meshes of order 1 and states of order 1, where hidden absolute constants are invisible.",
 "src/mesh.rs src/rhs/numflux/kt.rs src/rhs/numflux/hll.rs src/state/physics.rs src/time/timestep.rs",
 [("derived geometry","src/mesh.rs"),("limiters and flux","src/rhs/numflux")], ["State::cent, TimeStep::dt after next_solution"])

prop("C12", "Time integration is the textbook Runge-Kutta method of the chosen mode",
 "One time step of width dt maps the conservative variables u of the computational cells to exactly the result of the textbook Butcher tableau of the configured mode (RK1, midpoint RK2, Kutta RK3, classic RK4, Heun2, Fehlberg 1(2) and 4(5), SSPRK3, and SSPRK5, the five-stage third-order scheme of Macdonald's embedded pair to the five digits the code gives) applied to du/dt = -rhs(u), every stage being evaluated on the intermediate state with boundary conditions applied. Consequently the modes reach their formal order of accuracy in time.",
 "inputs configurations histories", "arbitrary right-hand sides (linear, nonlinear, coupled), states, step widths, all nine modes",
 "No test exercises the integrator apart from shock tubes, for which forward Euler passes as well.",
 "src/time/rkf.rs src/time/rkf/butchertableau.rs src/time.rs",
 [("ButcherTableau::new","src/time/rkf/butchertableau.rs"),("calc_rkf_solution","src/time/rkf.rs")], ["State::cent.cons after TimeSolver::next_solution with a user-defined NumFlux"])

prop("C13", "A run advances time monotonically, hits every output time and ends at t_end",
 "During a run simulation time strictly increases, starts at t0, never passes a scheduled output time or t_end, and equals the sum of the step widths taken. A run that succeeds ends at t_end up to dt_min and rounding, for every t0, t_end, number of outputs (including 0) and step limit; running a finished simulation again changes nothing.",
 "inputs configurations histories", "all time spans (offset, tiny, huge), numbers of outputs, dt_max, CFL numbers, states and schemes",
 "The integration tests look at one time span starting at 0 with one output.",
 "src/components.rs src/time/timestep.rs src/time/rkf.rs src/solver.rs",
 [("Runner::run_corries","src/components.rs"),("TimeStep::cap_dt","src/time/timestep.rs")], ["TimeStep fields at each step of run_corries (recording TimeSolver)"])

prop("C14", "The step width respects the CFL condition and the configured limits",
 "Every step of width dt taken without automatic step control is the minimum of dt_cfl_param times the smallest crossing time width/(|v|+c) over all cells, dt_max, and the time left until the next output and t_end. If the CFL step falls below dt_min or is not finite, the step fails with an error and the state is left unchanged.",
 "inputs configurations histories", "all states (either flow direction, v near +-c, any cell being the fastest), CFL numbers, dt_min/dt_max, meshes, both physics systems",
 "No test looks at dt; the integration tests only contain flows for which v+c is the fastest wave.",
 "src/time/timestep.rs src/state/physics.rs src/state.rs src/time/rkf.rs",
 [("Physics::calc_dt_cfl","src/state/physics.rs"),("TimeStep::calc_dt_expl, cap_dt","src/time/timestep.rs")], ["TimeStep::{dt,t,dt_kind}, result of next_solution"])

prop("C15", "Automatic step control only takes steps whose estimated error is tolerated",
 "With automatic step control and a mode that supports it, every step taken is one for which the embedded error estimate max|u_high-u_low|/(rtol*(|u|+atol)) over the interior is below 1, its width never exceeds the CFL step, dt_max or the time left until the next output, and rejected attempts only ever shrink it. If no acceptable step of at least dt_min exists, the step fails with an error instead of looping; for modes without an embedded pair the setting has no effect.",
 "inputs configurations histories", "all right-hand sides and flows, tolerances over many orders of magnitude, friction values, all modes, histories of steps",
 "No test switches automatic step control on.",
 "src/time/rkf.rs src/time/rkf/butchertableau.rs src/time/timestep.rs",
 [("accept/reject loop in next_solution","src/time/rkf.rs"),("error estimate and step controller","src/time/rkf.rs")], ["TimeStep::dt and State::cent.cons after next_solution"])

prop("C16", "A failing run reports the error and dumps the last state",
 "When a step cannot be completed (iteration limit reached, step width below dt_min, non-finite or unphysical solution), the run returns an error and has written exactly one additional output, holding the then current state, time and iteration, with the step kind marked as err. All outputs scheduled before remain intact, and a run that needs fewer than iter_max steps does not fail because of the limit.",
 "fault_sequences configurations inputs", "all failure kinds at any step of the run, iteration limits around the number of steps needed, output set-ups",
 "No test lets a run fail.",
 "src/components.rs src/solver.rs src/time/timestep.rs src/time/rkf.rs",
 [("error dump in run_corries","src/components.rs"),("iter_max check","src/solver.rs")], ["result of run_corries","output files"])

prop("C17", "A run writes the initial state and output_counter_max evenly spaced outputs",
 "A successful run with output_counter_max = N writes exactly N+1 outputs to every configured stream, at t0 + k*(t_end-t0)/N for k = 0..N: for vector files the files <name>_<k>.<ext> with k zero-padded to the number of digits of N, for scalar files one file with one header and N+1 rows. No other files appear, and the recorded iteration numbers strictly increase from one output to the next.",
 "configurations inputs histories", "all N (0 to hundreds, incl. powers of ten), time spans, step limits, combinations of streams",
 "The integration tests write one output beyond the initial one and only check that the run succeeds.",
 "src/components.rs src/writer.rs src/writer/output.rs src/time/timestep.rs",
 [("output loop","src/components.rs"),("file naming","src/writer/output.rs"),("output counter","src/writer.rs")], ["directory listing and content of the output folder"])

prop("C18", "Output files contain exactly the requested data of the current state",
 "Each output holds the configured columns in the configured order under their documented names, with one row per cell (with or without the two ghost cells per edge) in vector mode or one row in scalar mode, separated by commas (CSV) or blanks with a commented header (TSV). Every number is the current value of the requested quantity in that very cell, printed in scientific notation with the configured number of decimals, so parsing it recovers the value to that precision.",
 "configurations inputs histories", "all column selections incl. repeated ones, formats, precisions, ghost cell settings, states incl. extreme magnitudes, several streams at once",
 "No test reads an output file back.",
 "src/writer/output.rs src/writer/data.rs src/writer.rs src/state/variables.rs src/mesh.rs src/time/timestep.rs",
 [("write_into_stream, get_header, format_data_to_buffer","src/writer/output.rs"),("Collectable implementations","src/state/variables.rs, src/mesh.rs, src/time/timestep.rs")], ["content of the output files"])

prop("C19", "The metadata file records the full configuration of the run",
 "If requested for a file stream, initialisation writes one JSON document next to the data (named after the stream) from which every field of the configuration can be read back with the value that was configured; if not requested, no such file appears.",
 "configurations", "all configurations: every enum variant, payload, float magnitude, any strings as names, several streams",
 "No test reads the metadata.",
 "src/writer.rs src/writer/output.rs src/config.rs src/config/numericsconfig.rs src/config/outputconfig.rs",
 [("Writer::write_metadata","src/writer.rs"),("Serialize implementations","src/config")], ["<file_name>[_]_metadata.json"])

prop("C20", "Only configured output folders are touched, and cleared only on request",
 "Initialising and running a simulation creates, changes or removes nothing outside the folders configured for file streams; existing files in such a folder survive unless a stream asks for the folder to be cleared or writes a file of the same name, which then holds only the new content. A configuration that is rejected leaves the file system exactly as it was.",
 "configurations histories fault_sequences", "all stream combinations (nested, shared, missing and existing folders, trailing slashes), pre-existing content, sequences of several runs, valid and invalid configurations",
 "The tests only ever write into fresh or cleared folders and never look at what else is there.",
 "src/writer/output.rs src/writer.rs src/config.rs",
 [("folder set-up in Output::new","src/writer/output.rs"),("validation before construction in init_corries","src/config.rs")], ["recursive snapshots of the working directory before and after"])

prop("C21", "Invalid configurations are rejected with an error and valid ones are accepted",
 "Initialisation returns an error, and never panics, whenever a documented constraint is violated: xi_in < xi_out and finite geometry, 1 < gamma < 2, iter_max > 0, 0 <= t0 < t_end, positive dt_min, dt_max, CFL number and tolerances, Monocent parameter > 1, names for file streams, columns that exist and fit the stream mode, existing equation indexes, a flux configuration matching the flux type; NaN counts as a violation. Every configuration that satisfies all constraints is accepted.",
 "configurations", "all fields at, around and beyond their limits, including NaN and infinities, one or several violations at once",
 "No test passes an invalid configuration.",
 "src/config.rs src/config/meshconfig.rs src/config/physicsconfig.rs src/config/numericsconfig.rs src/config/outputconfig.rs src/config/numericsconfig/numfluxconfig.rs src/config/numericsconfig/timeintegrationconfig.rs",
 [("Validation implementations","src/config"),("init_corries","src/config.rs")], ["result of CorriesConfig::init_corries"])

prop("C22", "Output that cannot be written makes the run fail",
 "If an output or metadata file cannot be opened or written completely (missing permission or folder, a directory in its place, full device), at any output of the run and for any of the streams, initialisation or the run returns an error. Success is only reported when everything was written.",
 "fault_sequences configurations", "all kinds of write faults injected at any output index and stream, all output set-ups",
 "No test injects a fault.",
 "src/writer.rs src/writer/output.rs src/components.rs src/config.rs",
 [("error propagation from Output to run_corries","src/writer.rs, src/components.rs")], ["result of init_corries/run_corries under injected faults"])

prop("C23", "Runs are reproducible and independent of threads, other runs and outputs",
 "The same configuration and initial state always give bit-identical states, step widths and files, regardless of the number of worker threads, of other simulations running at the same time in the process, and of whether steps are made by run_corries or by hand. Which streams are configured has no influence on the solution.",
 "schedules configurations histories inputs", "all simulations, thread pool sizes, numbers of concurrent simulations, stream set-ups",
 "The tests run each simulation once.",
 "src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/writer.rs src/components.rs src/solver.rs",
 [("parallel loops without reductions","src/rhs/numflux"),("parallel writer","src/writer.rs")], ["State, TimeStep and files of repeated runs"])

prop("C24", "A successful step yields a finite, physical state; bad states become errors",
 "Whenever a step or run returns success, all primitive and conservative variables are finite and density (and pressure) are positive in every cell. If an initial state, a right-hand side or a solution contains NaN, infinities or non-positive densities or pressures in the computational domain, the step that produces or meets them returns an error instead of success.",
 "inputs configurations fault_sequences histories", "all states including near-vacuum, strong shocks, oversized CFL numbers, and values poisoned at any cell, equation and step",
 "The tests only run well-behaved flows.",
 "src/time/rkf.rs src/state.rs src/state/variables.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/macros.rs",
 [("validation at the end of each step","src/time/rkf.rs"),("Physics::validate","src/state/systems")], ["result of next_solution and State::cent"])

prop("C25", "Unit conversions are exact physical conversions",
 "For every value, converting a length, mass or time from the simulation's unit system to SI or CGS yields the physically equal value (1 m = 100 cm, 1 kg = 1000 g, 1 s = 1 s) in both unit modes. Conversions are linear and conversions into the system's own units are the identity up to rounding.",
 "inputs configurations", "all finite values, both unit modes, all quantities",
 "There are no tests for units.",
 "src/units.rs", [("Units::convert_*","src/units.rs")], ["return values of Units::convert_*"])

prop("C26", "Shock tube solutions converge to the exact Riemann solution",
 "For every Riemann problem without vacuum, the computed density, velocity and pressure profiles approach the exact solution of the Riemann problem as the mesh is refined, with an L1 error within the bounds expected of the scheme at each resolution.",
 "inputs configurations", "all left and right states (shocks, rarefactions, contacts, moving frames), both physics systems, flux schemes and limiters, Runge-Kutta modes",
 "The Sod and Noh tests run two fixed problems on one resolution and hardly compare against the exact solution.",
 "src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/time/rkf.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs src/components.rs",
 [("whole solver","src/solver.rs")], ["State::cent.prim after run_corries"])

prop("C27", "Smooth flows converge with the order of the scheme",
 "For smooth density profiles transported in a flow of constant velocity and pressure, the error against the exact transported profile falls at least linearly with the cell width for HLL, and clearly faster than linearly (second order away from extrema) for KT with every limiter but Superbee (first order, as its documented slopes are halved), in combination with time integration of at least second order.",
 "inputs configurations", "all smooth profiles, velocities, adiabatic indexes, limiters, Runge-Kutta modes",
 "No test measures convergence; with slopes stuck at 0 all tests pass.",
 "src/rhs/numflux/kt.rs src/rhs/numflux/hll.rs src/time/rkf.rs",
 [("Kt::reconstruct","src/rhs/numflux/kt.rs"),("stages","src/time/rkf.rs")], ["State::cent.prim after run_corries at several resolutions"])

prop("C28", "Initialisation turns any initial primitive state into a consistent simulation",
 "After initialisation with a user function that sets the primitive variables of the cells, the interior primitive variables are exactly as set, ghost cells obey the boundary conditions, conservative and derived variables agree with them in every cell, face variables equal the cell variables, and time, iteration and output counters are at their start. An error returned by the user function is returned by the initialisation.",
 "inputs configurations", "all initial states, boundary conditions, meshes, both physics systems",
 "The tests initialise two fixed set-ups.",
 "src/config.rs src/state.rs src/state/physics.rs src/solver.rs src/time/timestep.rs src/rhs.rs",
 [("init_corries","src/config.rs"),("init_west_east","src/state.rs")], ["components returned by init_corries"])

prop("C29", "Ready-made set-ups match their documentation",
 "The Noh and Sod initial conditions set exactly the documented left and right states with the jump at the middle cell for every mesh size, regardless of what the state held before, and refuse physics they do not support. The default constructors for configurations produce exactly the documented values for every argument, and the resulting configurations are valid and run.",
 "inputs configurations", "all mesh sizes, physics and flux types, constructor arguments, previous states",
 "Doc tests check one mesh size and one set of arguments.",
 "src/initfuncs.rs src/config.rs src/config/meshconfig.rs src/config/numericsconfig.rs src/config/outputconfig.rs src/config/numericsconfig/timeintegrationconfig.rs src/config/physicsconfig.rs",
 [("init_noh, init_sod","src/initfuncs.rs"),("default_* constructors","src/config")], ["State::cent after the init functions","fields of the default configurations"])

prop("C30", "Everything meant for stdout arrives there complete and in order",
 "A run prints, in this order, the banner if requested, the metadata of each stdout stream that asks for it, and then for each output the complete block of each stdout stream, with the same columns and formats as files, blocks of an output coming before those of the next one and never being interleaved or lost. File streams print nothing.",
 "configurations schedules", "all numbers and kinds of stdout streams, formats, banner and metadata settings, thread counts",
 "No test reads stdout.",
 "src/writer/output.rs src/writer.rs src/config.rs",
 [("write_output for stdout","src/writer/output.rs"),("parallel dispatch over outputs","src/writer.rs")], ["captured stdout of a child process"])

prop("C31", "Whole runs agree step by step with an independent reference solver",
 "For every configuration and initial state, the sequence of times, step widths and states produced by a run equals, up to rounding, that of the documented algorithm: boundary conditions, reconstruction, flux, Runge-Kutta stages, CFL and output limits, and automatic step control applied in the documented order.",
 "inputs configurations histories", SIM + ", automatic step control, output schedules, numbers of steps",
 "Tests check single ingredients on hand-made states; nothing checks that they are put together correctly over several steps.",
 "src/components.rs src/solver.rs src/time/rkf.rs src/time/timestep.rs src/rhs.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/boundaryconditions/custom.rs src/state/physics.rs",
 [("run_corries and next_solution","src/components.rs, src/time/rkf.rs")], ["State::cent and TimeStep after each step"])

prop("C32", "The finiteness and positivity guards accept exactly the allowed values",
 "The exported guard macros succeed if and only if every number given to them, in every position of every scalar or array argument, is finite (respectively strictly greater than zero), and otherwise return an error naming the offending value.",
 "inputs", "all floating point values incl. NaN, infinities, zeros, subnormals, at any position of any of several arguments",
 "The doc tests use two hand-made argument lists each.",
 "src/macros.rs", [("check_finite_*/check_positive_* macros","src/macros.rs")], ["result of the enclosing function"])

prop("C33", "State operations change exactly the variables they name",
 "For every sequence of public update, assignment and copy operations on a state, each operation recomputes or copies precisely the variables and location it names from the current values of its inputs, and leaves all other variables, locations and the source of a copy untouched.",
 "histories inputs", "all sequences of state operations on all valid states, locations and both physics systems",
 "The tests call single operations on fresh states.",
 "src/state.rs src/state/variables.rs src/state/physics.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs",
 [("State::update_*_d, assign*, init_west_east","src/state.rs"),("Variables::assign","src/state/variables.rs")], ["all fields of State::{cent,west,east}"])

prop("C34", "The feature `validation` only checks and never changes results",
 "For every configuration and initial state, a run that succeeds with the default feature `validation` takes, in a build without this feature, bit-identical steps to a bit-identical final state and produces the same output files; a run that fails does so not before the same sequence of successful steps has been made.",
 "inputs configurations", SIM + ", with and without automatic step control, with output streams; two builds of corries",
 "All tests are compiled with the default features; the other build is never run.",
 "src/lib.rs Cargo.toml src/time/rkf.rs src/mesh.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs",
 [("cfg!(feature = \"validation\") blocks","src/time/rkf.rs, src/rhs/numflux/hll.rs, src/rhs/numflux/kt.rs, src/mesh.rs")], ["State and TimeStep after each step of a child process running the other build", "output files"])

prop("C35", "Density profiles are transported without disturbing velocity and pressure",
 "If velocity and pressure of an adiabatic gas are the same in all cells and the boundaries pass the flow through, both stay so up to rounding in every step of a run, whatever the density profile, for every flux scheme, limiter and Runge-Kutta mode, with and without step control. With HLL, a strong-stability-preserving mode (RK1, Heun2, SSPRK3) and a CFL number of at most 1/2, the density moreover never leaves the range of its initial values and its total variation never grows.",
 "inputs configurations histories", "all density profiles, velocities (subsonic, supersonic, none), pressures and sizes of mesh; HLL and KT with every limiter, every Runge-Kutta mode, step control, and boundary conditions that pass the flow",
 "Tests run the Sod and Noh problems for fixed states and only compare them with stored results.",
 "src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/rhs.rs src/time/rkf.rs src/time/rkf/butchertableau.rs src/state/systems/euler1dadiabatic.rs src/boundaryconditions/custom.rs",
 [("calc_dflux_dxi","src/rhs/numflux/hll.rs, src/rhs/numflux/kt.rs"),("Runge-Kutta stages","src/time/rkf.rs")], ["State::cent after each step"])

prop("C36", "The solution does not depend on where and when the problem takes place",
 "All cells are treated alike: moving an initial profile that is surrounded by constant states to another place of the mesh, or to a mesh with more cells of the same width, gives the same solution there, and shifting the domain by a whole number of cells changes nothing (bit-identical where the coordinates are exactly representable; conditions that refer to the coordinate itself, i.e. the Kepler ones, excepted). Starting a simulation at another t0 gives the same states and step widths, up to rounding.",
 "inputs configurations histories", SIM + " (without Kepler conditions), places of the profile, sizes of mesh from 68 to 1030 cells, places of the domain including negative coordinates, start times, with and without step control",
 "Tests use one mesh and one place for the discontinuity each, and t0 = 0.",
 "src/mesh.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/rhs.rs src/time/rkf.rs src/time/timestep.rs src/state/physics.rs src/state/variables.rs src/boundaryconditions/custom.rs",
 [("loops over cells","src/rhs/numflux/hll.rs, src/rhs/numflux/kt.rs, src/state/systems/euler1dadiabatic.rs, src/state/systems/euler1disot.rs"),("time loop","src/components.rs, src/time/timestep.rs")], ["State::cent and TimeStep after each step"])

prop("C37", "Systems of equations defined by the user are solved like the built-in ones",
 "A user may implement Physics for a system of any number of equations in any order (in terms of its constants JRHO, JXI, JETA, JPRESSURE). If such a system consists of the built-in equations, in another order and together with a further passive velocity, the state accessors return the right variables, the built-in variables, step widths and success of every step are bit-identical to those of the built-in system, a uniform passive velocity stays uniform up to rounding, and scaling the passive velocity scales only its own equation.",
 "inputs configurations histories", "adiabatic and isothermal systems with a further equation and permuted equations; " + SIM + ", boundary conditions of the further equation, step control",
 "The tests only use the two built-in systems, whose density, velocity and pressure are equations 0, 1 and 2; nothing implements the public Physics trait.",
 "src/state/physics.rs src/state.rs src/state/variables.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/rhs/numflux.rs src/time/rkf.rs src/boundaryconditions.rs src/boundaryconditions/custom.rs",
 [("provided methods of Physics","src/state/physics.rs"),("loops over equations","src/rhs/numflux/hll.rs, src/rhs/numflux/kt.rs, src/time/rkf.rs")], ["State::cent and TimeStep after each step","accessors of Physics"])

prop("C38", "Outputs written before a crash are complete",
 "If the process of a simulation ends at any time (killed, aborted, exited, a panic in user code, or killed while it writes), every output that was due in the steps before is completely in its file or on standard output, as are the metadata, and what exists of later outputs is at most the beginning of the output that was being written.",
 "inputs configurations crash_points histories", "steps before which the process ends, ways to end, sizes of files at which the process is killed while writing; 1 to 3 streams of every kind, to files and standard output, up to 109 outputs",
 "No test ends a process, or looks at files before the end of a run.",
 "src/writer.rs src/writer/output.rs src/components.rs",
 [("Output::write_output, write_metadata","src/writer/output.rs"),("run_corries","src/components.rs")], ["files of all streams","standard output"])

prop("C39", "Writers driven by hand write what was collected last, in sequence",
 "For every sequence of Writer::update_data, write_output and write_metadata calls, changes of the state, and a run: each write_output writes to every stream exactly the data that were last collected, as the next output in sequence (numbered files, further rows), beyond the configured number of outputs too; it leaves earlier outputs as they are; collecting data and writing metadata change no output; a run continues the sequence; running a simulation that has finished again changes nothing.",
 "histories inputs configurations", "sequences of up to 20 operations, before and after a run, states of arbitrary numbers, 1 to 3 file streams of every kind, 0 to 1000 configured outputs",
 "No test calls the writer; they only count the files of complete runs.",
 "src/writer.rs src/writer/output.rs src/components.rs",
 [("Writer::update_data, write_output, write_metadata","src/writer.rs"),("Output::write_output","src/writer/output.rs"),("run_corries","src/components.rs")], ["files of all streams after every operation"])

prop("C40", "A run restarted from one of its outputs continues as if never interrupted",
 "If a simulation without step control is initialised with the primitive variables (isothermal: and sound speeds) of all cells and the time that an output file of a run shows with at least 16 significant digits, with the remaining number of outputs up to the same t_end, it produces the remaining outputs of that run, at the same times, up to rounding errors and their growth.",
 "inputs configurations histories", SIM + ", 1 to 6 outputs, restarts from every output but the last, both file formats, 16 to 25 digits",
 "No test reads an output file or continues from one.",
 "src/writer/output.rs src/writer/data.rs src/state/variables.rs src/time/timestep.rs src/time/rkf.rs src/components.rs src/config.rs src/solver.rs",
 [("Output::format_data_to_buffer","src/writer/output.rs"),("run_corries","src/components.rs"),("CorriesConfig::init_corries","src/config.rs"),("TimeStep::new, cap_dt","src/time/timestep.rs")], ["output files of both runs"])

prop("C41", "Accepted configurations never panic, never run for ever",
 "Once a configuration is accepted, initialising the simulation, running it and using its parts further return success or an error and never panic or hang, whatever the initial state (NaN, infinities, zeros, negative or denormal numbers, any magnitude, in single cells or everywhere), whatever the magnitude of every setting that is accepted (domain, times, CFL, smallest and largest step width, tolerances, limiter parameter, adiabatic index near its bounds, precision and number of outputs), and a run never makes more than iter_max steps.",
 "inputs configurations histories", SIM + "; up to four changes to extreme values of cells, variables or settings, output streams of every kind",
 "Tests run two benign shock tubes and Noh problems whose values are of order one; nothing runs with non-finite, zero or huge values.",
 "src/lib.rs src/config.rs src/config/outputconfig.rs src/components.rs src/solver.rs src/time/rkf.rs src/time/timestep.rs src/state.rs src/state/physics.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/mesh.rs src/writer/output.rs",
 [("run_corries","src/components.rs"),("Solver::next_solution","src/solver.rs"),("calc_dt_cfl_limited","src/state/physics.rs"),("step control loop","src/time/rkf.rs"),("Output::format_data_to_buffer","src/writer/output.rs")], ["results of CorriesConfig::init_corries, Runner::run, Solver::next_solution","number of steps"])

prop("C42", "User-defined linear systems are solved linearly for any number of equations",
 "For a linear system of any number of equations (one, two, five) that a user defines by implementing Physics, every step equals the formula of the scheme evaluated for each equation; without limiting and with linear boundary conditions the solution of a superposition or multiple of initial states is the superposition or multiple of the solutions; and scalar advection at CFL number 1 with HLL and Euler steps shifts every profile by exactly one cell per step.",
 "inputs configurations histories", "systems with random real wave speeds and eigenvectors, meshes from 6 to 68 cells, both flux schemes with every limiter, every Runge-Kutta mode, boundary conditions, profiles",
 "The tests only use the two built-in nonlinear systems with two and three equations; no test compares a run of any linear system.",
 "src/state/physics.rs src/state.rs src/state/variables.rs src/rhs.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/time/rkf.rs src/boundaryconditions/custom.rs src/solver.rs",
 [("NumFlux::calc_dflux_dxi","src/rhs/numflux/hll.rs, src/rhs/numflux/kt.rs"),("RungeKuttaFehlberg::next_solution","src/time/rkf.rs"),("provided methods of Physics","src/state/physics.rs")], ["State::cent after each step","Rhs::full_rhs"])

prop("C43", "Upwind and limited reconstruction create no new extrema",
 "In scalar advection with constant speed, for HLL and for KT with a limiter of the TVD family (MinMod, Superbee, VanLeer, Monocent with theta up to 2), Runge-Kutta modes that are convex combinations of Euler steps, and CFL numbers within their limits, the solution stays within the range of the initial profile, its total variation does not grow, and a monotone profile stays monotone, up to rounding, in every cell next to the boundary as well as inside.",
 "inputs configurations histories", "profiles (steps, spikes, waves, random, ramps), speeds of either sign, meshes from 6 to 68 cells, limiters and their parameter, four Runge-Kutta modes, no-gradient boundaries",
 "The shock tube test prints an error norm; overshoots of limited schemes are not measured by any test.",
 "src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/time/rkf.rs src/state/physics.rs src/boundaryconditions/custom.rs src/rhs.rs",
 [("limiters and reconstruction","src/rhs/numflux/kt.rs"),("HLL flux","src/rhs/numflux/hll.rs"),("Butcher tableaux","src/time/rkf.rs")], ["State::cent after each step"])

prop("C44", "User-defined flux schemes and time integrators are driven consistently",
 "A user may implement NumFlux or TimeSolver. Whenever a flux scheme of the user is evaluated it sees a consistent state (conservative, primitive, derived variables and ghost cells of the same state), and each step is that of the selected Runge-Kutta mode applied to it; an integrator of the user is called once per step, counted as one iteration, with the next due output time set, and nothing changes state or time between its calls. Outputs appear at the due times, and an error of the integrator ends the run with that error and one final output.",
 "inputs configurations histories fault_sequences", SIM + "; a flux scheme (Rusanov) and integrators (Euler, Heun, ones that fail at a given call) implemented by the harness; output schedules",
 "Tests only use the built-in schemes; nothing implements NumFlux or TimeSolver.",
 "src/rhs.rs src/rhs/numflux.rs src/time.rs src/time/rkf.rs src/time/timestep.rs src/solver.rs src/components.rs src/config.rs src/state/physics.rs",
 [("Rhs::update","src/rhs.rs"),("Solver::next_solution","src/solver.rs"),("run_corries","src/components.rs"),("RungeKuttaFehlberg::next_solution","src/time/rkf.rs")], ["arguments of NumFlux and TimeSolver calls","State::cent, TimeStep after each step","output files"])

prop("C45", "In long runs every step depends only on the current state",
 "However many steps and outputs a run has made, each step depends only on the current state, the time and the configuration: a simulation made afresh (without step control) and started from the state before any step gives the bit-identical result and step width. The number of iterations counts every step, time never goes back, outputs stay in sequence at their due times, and domains closed by walls keep their totals.",
 "inputs configurations histories", "runs of 300 to 70 000 steps of both equations of state, all flux schemes and the Runge-Kutta modes, with few or many outputs; steps sampled over the whole run and around powers of two",
 "The longest test runs take a few hundred steps and compare nothing between them.",
 "src/solver.rs src/time/rkf.rs src/time/timestep.rs src/rhs.rs src/rhs/numflux/hll.rs src/rhs/numflux/kt.rs src/state.rs src/state/physics.rs src/boundaryconditions/custom.rs src/components.rs",
 [("Solver::next_solution","src/solver.rs"),("RungeKuttaFehlberg::next_solution","src/time/rkf.rs"),("run_corries","src/components.rs")], ["State::cent, TimeStep before and after sampled steps","output files"])

prop("C46", "First-order HLL steps keep density and pressure positive",
 "For any physical state however violent (strong shocks, near-vacuum, colliding and separating flows), with the HLL flux, Euler steps (RK1) and a CFL number up to 1/2, every step succeeds (apart from states whose pressure is lost in the rounding errors of the total energy), and the density and pressure of a cell fall by no more than the fraction the waves can sweep out of it in one step, 2 dt max(|v| + c) / dx.",
 "inputs configurations histories", "states of up to 60 cells with jumps over many decades, both equations of state, all adiabatic indices, all boundary conditions that keep states physical, CFL numbers up to 1/2, several steps",
 "The tests run one moderate shock tube; nothing checks states near vacuum or at strong shocks.",
 "src/rhs/numflux/hll.rs src/time/rkf.rs src/state/physics.rs src/rhs.rs src/solver.rs",
 [("Hll::calc_dflux_dxi","src/rhs/numflux/hll.rs"),("calc_dt_cfl","src/state/physics.rs"),("RungeKuttaFehlberg::next_solution","src/time/rkf.rs")], ["State::cent before and after each step"])

prop("C47", "HLL steps obey the second law of thermodynamics",
 "With the HLL flux, Euler steps (RK1) and a CFL number up to 1/2, wherever the exact waves between neighbouring cells stay within the fastest waves of both cells (the estimate of the scheme), a step never lowers the specific entropy of a cell below the lowest one of the cell and its two neighbours; the total entropy of a domain (isothermal gas of one temperature: minus its available energy, kinetic energy plus c^2 rho ln rho) never falls between reflecting walls, and with no-gradient boundaries never by more than what the flow carries through the edges. There are no expansion shocks.",
 "inputs configurations histories", "states with jumps of all strengths, transonic expansions, both equations of state and all adiabatic indices, closed and open domains, CFL numbers up to 1/2, up to 60 steps",
 "The tests run one moderate shock tube without sonic points and judge no thermodynamics.",
 "src/rhs/numflux/hll.rs src/time/rkf.rs src/state/physics.rs src/rhs.rs src/boundaryconditions/custom.rs src/state/systems/euler1dadiabatic.rs src/state/systems/euler1disot.rs",
 [("Hll::calc_dflux_dxi","src/rhs/numflux/hll.rs"),("calc_dt_cfl","src/state/physics.rs"),("RungeKuttaFehlberg::next_solution","src/time/rkf.rs")], ["State::cent before and after each step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
