#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, outputs are committed)."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, B, F, H, R, L, SE, ST, O, A, T, I, VI, SC, RS = [
    "fvhoe/" + x + ".py"
    for x in "solver boundary_conditions fv hydro riemann_solvers slope_limiting smooth_extrema_detection stencils ode array_management timer initial_conditions visualization scripting romain_solver".split()
]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe))


REPLAY = "explicit-state model checking (TLC) of a TLA+ state machine; every behaviour TLC generates is replayed in the code and compared step by step"
TRACE = "TLA+ specification in exact rational arithmetic; events recorded from the code are checked by TLC against it (trace conformance)"

prop("C01", "Totals are conserved by the update",
     "In a domain that is periodic in every direction, the sums over all cells of mass, the three momenta, energy and every passive scalar density stay what they were initially, up to rounding, for any number of steps. In a box closed by reflecting walls (with periodic directions allowed beside them), mass, energy and every passive scalar stay constant likewise. This holds for every polynomial degree, dimension, interface flux that models gas dynamics, and with or without a posteriori limiting.",
     ["inputs", "configurations", "histories"], "all initial data with positive density and pressure, all mesh sizes, degrees, limiting options and numbers of steps",
     "Tests follow a few symmetric problems; a lost flux shows only for particular mesh shapes, boundary cells that happen to be troubled, or passive variables nobody sums up.",
     [S, L, B], [("euler_equation", S), ("revise_fluxes", S), ("broadcast_to_troubled_interfaces", L)], TRACE + "; conservation of the specified scheme itself is a TLC invariant",
     "random configurations; totals of every recorded state are summed exactly by TLC", "conserved variables before and after steps")
prop("C02", "Uniform flow stays uniform",
     "A state that is the same in every cell stays the same in every cell, up to rounding, for any number of steps, whenever the boundaries are compatible with it (periodic, free, outflow, prescribed values equal to it, or reflecting walls it does not flow through). This holds for every degree, dimension, interface flux, choice of passive scalars and limiting option.",
     ["inputs", "configurations", "histories"], "all uniform states with positive density and pressure, all compatible boundaries, meshes, degrees and limiting options",
     "A weight, a ghost cell or an interface flux that is slightly off for one degree, side or variable is hidden by the discretisation error of the problems tests run.",
     [S, ST, B, R], [("stencil_sweep", F), ("BoundaryCondition.apply", B), ("hydrofluxes", S)], TRACE,
     "random configurations and states, several steps")
prop("C03", "Runs stop, step and snapshot exactly when they should",
     "A run to a time lands exactly on that time and on every requested intermediate time still ahead, in order, never steps over one, and never takes a larger step than the one proposed; without exactness only the final time matters and it may be overshot by one step. Snapshots are logged once at the start of a run, at each requested time and at the end, or after every step if asked, and a run of a given number of steps takes exactly that many and snapshots its start and its end. Time, step count, list of step times and list of snapshot times always agree, including when runs follow each other on the same object.",
     ["schedules", "histories", "inputs"], "all sequences of proposed step sizes, all sets of requested times (unordered, repeated, already passed, equal to the end), all sequences of runs",
     "Which branch is taken depends on how the proposed steps fall around the requested times; tests only see the few schedules their problems produce.",
     [O, S], [("integrate", O), ("take_step", O), ("_hit_target", O)], REPLAY,
     "all behaviours of the bounded model are replayed with prescribed step sizes; longer random runs of real solvers are monitored", "timestamps, snapshot_times, step_count, t")
prop("C04", "Integrators are the Runge-Kutta methods they are named after",
     "For every right-hand side depending on time and state, one step of the explicit Euler, two- and three-stage strong-stability-preserving and classical four-stage methods gives the result of that method, with each stage evaluated at its own time, so that the methods have orders one to four. The default run picks the method whose order is the largest polynomial degree plus one, up to four. The step size used is the one proposed at the beginning of the step unless a target time shortens it. The solver's count of right-hand-side evaluations counts every stage once.",
     ["inputs", "configurations"], "all right-hand sides, states, times, step sizes and polynomial degrees",
     "Autonomous test problems cannot see stage times, and errors in one coefficient only lower the order of convergence.",
     [O, S], [("euler, ssprk2, ssprk3, rk4", O), ("run", S)], TRACE + "; order conditions of the tableaux are TLC invariants",
     "random polynomial right-hand sides in t and u, and whole solver steps")
prop("C05", "The time-step size respects the CFL bound",
     "The proposed time-step size equals the Courant number times the smallest cell width divided by the largest signal speed, the sum of the absolute velocities plus the number of active dimensions times the speed of sound, over all cells of the domain and the ghost cells the evaluation uses. The square of the speed of sound is never taken below its floor, and a fixed time-step size replaces the rule entirely. The helper for pure advection divides by the sum of the given speeds instead. The same proposal is made whatever happened before.",
     ["inputs", "configurations", "histories"], "all states (also with negative pressure, where the floor acts), meshes, dimensions, boundaries, Courant numbers and floors",
     "A step that is slightly too large stays stable in most tests; only states whose fastest cell is in a corner, a ghost cell or an inactive direction tell.",
     [H, S], [("hydro_dt", H), ("compute_sound_speed", H), ("hydrofluxes", S)], TRACE, "random states and configurations, single evaluations and sequences of steps")
prop("C06", "Ghost cells follow the declared boundary conditions",
     "Extending data beyond the domain gives, for every side, direction, ghost width and variable, exactly: the cell one period away (periodic), the nearest cell (free), the mirror image (outflow), the mirror image with the normal momentum reversed (reflective), or the prescribed constant or function of position and time evaluated at the ghost cell's own centre and at the time of the evaluation (Dirichlet, initial data). The domain itself is unchanged, corners follow the order x, y, z, and widths larger than the domain continue the same rule. The wall of the double Mach reflection is free left of x = 1/6 and reflective elsewhere, and during a step prescribed functions are evaluated at the time of each stage.",
     ["inputs", "configurations"], "all combinations of conditions on the six sides, shapes, ghost widths, numbers of variables, functions and times",
     "Tests look at one condition at a time on cubes; corners between different conditions, thin domains and times within a step are combinations they do not reach.",
     [B, S, F], [("BoundaryCondition.apply", B), ("trim_slabs", B), ("fv_uniform_meshgen", F)], TRACE, "random combinations; index rules checked exactly, functions up to rounding")
prop("C07", "Interpolation is exact up to its polynomial degree",
     "For degrees zero to eight, the weights that turn cell averages into left-face, centre and right-face values, and point values into cell averages, are exactly the ones that reproduce every polynomial up to the degree (for odd degrees the symmetric mean of the two one-sided stencils), with left and right mirror images of each other. Applying them along any axis of any array, or in three directions with different degrees, combines exactly the cells of the stencil and shortens only that axis.",
     ["inputs", "configurations"], "all degrees, positions, axes, array shapes and data",
     "Each weight is one number among hundreds; a convergence test at one degree and one axis leaves the others unchecked.",
     [ST, F], [("get_conservative_interpolation_stencil_weights", ST), ("get_transverse_reconstruction_stencil_weights", ST), ("stencil_sweep", F)],
     TRACE + "; the weights are derived in the specification and their exactness is a TLC invariant", "all weights exhaustively; sweeps on random arrays")
prop("C08", "The mesh is uniform and initial averages are exact",
     "Cell centres and widths are those of the uniform partition of the given bounds for any bounds and cell counts, and the coordinates handed to boundary functions continue the same mesh outwards. Initial cell averages are exact for data that is polynomial up to the scheme's degree in each direction, whether given as primitive or conserved, pointwise or averaged. A direction is inactive exactly when it has one cell and degree zero.",
     ["inputs", "configurations"], "all bounds, cell counts, slab widths, degrees and polynomial data",
     "Tests use unit cubes with few degrees, where a wrong bound, offset or quadrature order cancels or is below the discretisation error.",
     [F, S], [("fv_uniform_meshgen", F), ("fv_average", F), ("_init_initial_conditions", S)], TRACE, "random meshes and polynomials, exact averages from the specification")
prop("C09", "Interface fluxes are the named Riemann solvers",
     "For every pair of states with positive density and every direction, the interface fluxes are those of pressureless upwinding, local Lax-Friedrichs and HLLC with Davis wave speeds, for all five variables and every passive scalar. In particular they reduce to the exact flux for equal states, use only the upwind side in supersonic flow, carry no mass through a resting symmetric interface, and turn into their mirror images under reflection.",
     ["inputs"], "all pairs of states (subsonic, supersonic, resting, receding, floor-limited), directions, adiabatic indices and numbers of passive scalars",
     "Tests run the solvers in problems that visit few branches; a wrong star state or passive flux in one branch or direction only changes the accuracy.",
     [R], [("advection_upwind", R), ("llf", R), ("hllc", R)], TRACE + "; consistency, upwinding and mirror symmetry of the specified fluxes are TLC invariants over a lattice of states", "random and lattice states, batches of interfaces")
prop("C10", "Primitive and conserved variables describe the same gas",
     "Conversions between primitive and conserved variables are the ideal-gas relations and inverses of each other for every state with positive density, for any number of passive scalars, and leave their input unchanged. The physical flux in each direction and the speed of sound, with a floor on its square, follow from the same relations.",
     ["inputs"], "all states with positive density, adiabatic indices, directions, floors and numbers of passive scalars",
     "A term that vanishes in tests (a velocity component, a passive scalar, the floor) can be wrong without a test noticing.",
     [H], [("compute_primitives", H), ("compute_conservatives", H), ("compute_fluxes", H), ("compute_sound_speed", H)], TRACE, "random states over several magnitudes")
prop("C11", "Limited reconstructions create no new extrema",
     "The slopes of the fallback reconstruction are the minmod or monotonised-central ones (or the central difference when no limiter is chosen), along any axis and for every variable; with a limiter, face values stay between the neighbouring cell values and an extremum is reconstructed flat. The fallback scheme uses this reconstruction along each direction it limits.",
     ["inputs"], "all triples of neighbouring values including ties, zeros, sign changes and tiny differences; all axes and shapes",
     "The limiter has many sign cases; a wrong one only shows as a slight overshoot in a particular configuration of neighbours.",
     [L, S], [("MUSCL_interpolations", L), ("minmod", L), ("moncen", L)], TRACE + "; boundedness and symmetry of the specified limiters are TLC invariants over a lattice", "lattice of integer triples exhaustively and random arrays, plus whole evaluations with every cell forced to the fallback")
prop("C12", "Exactly the inadmissible cells are flagged as troubled",
     "A cell is flagged exactly when one of the checked variables of the candidate solution leaves the range of its neighbourhood in the previous solution by more than the tolerance (global or local range, relative or absolute, as chosen) without being a smooth extremum of that variable, or when any bounded variable leaves its physical bounds. Flags do not depend on the direction an extremum is seen from, and reported violation magnitudes are positive exactly where the respective criterion fires and tell by how much the worst variable is out of range.",
     ["inputs", "configurations"], "all previous and candidate data, dimensions, tolerances, modes, sets of checked variables and bounds",
     "The criteria combine dozens of neighbour comparisons; tests with a few shocks see whether something is flagged, not whether each decision is right.",
     [L, SE, S], [("detect_troubled_cells", L), ("compute_1d_smooth_extrema_detector", SE)], TRACE + ", with three-valued decisions where rounding could decide", "random data; comparisons closer than 1e-9 are not judged")
prop("C13", "Fallback fluxes act on exactly the interfaces of troubled cells",
     "Every interface of a troubled cell takes the fallback flux completely, every interface away from trouble keeps the high-order flux, and with convex blending the share fades over two cells as 1, 3/4, (1/2 diagonally,) 1/4 and never leaves [0, 1]. The two copies of an interface on a periodic boundary always get the same share, and trouble does not wrap around a non-periodic one. With all cells forced to be troubled the update is that of the fallback scheme alone.",
     ["inputs", "configurations"], "all patterns of troubled cells, shapes, active dimensions, periodicities and blending modes",
     "Patterns are exponentially many, and a wrong share at one boundary or diagonal leaves solutions plausible.",
     [L, S], [("broadcast_to_troubled_interfaces", L), ("convex_1d_broadcast_to_troubled_interfaces", L), ("convex_2d_broadcast_to_troubled_interfaces", L), ("revise_fluxes", S)],
     TRACE + "; all patterns on small meshes are enumerated, and the blending rules are TLC invariants over them", "exhaustive on small meshes, random patterns on larger ones, whole limited updates")
prop("C14", "Saved runs come back complete or not at all",
     "After a run with a snapshot directory, the same run by a fresh solver returns the saved snapshots and snapshot times unchanged without computing anything, while overwriting recomputes and replaces all of them. A save interrupted at any point, or one over a directory that holds other data, never makes a later run return anything but a complete set of snapshots of one of the saves: it raises instead. What another run saved there meanwhile is replaced only by a run told to overwrite. A saved directory also holds the settings of the solver, its timing report and the commit of the code, and saving changes nothing in the solver. The scripting wrapper draws one picture per snapshot of a run it computes.",
     ["crash_points", "histories", "configurations"], "all sequences of runs with and without overwriting, all points at which a save can be interrupted, all solver configurations",
     "Tests save and load once and never die half-way.",
     [S, O, SC], [("write_snapshots", S), ("read_snapshots", S), ("integrate", O)], REPLAY + ", with crash injection at every file operation", "all histories of the bounded model; crash points enumerated from the code's own file operations in scratch directories")
prop("C15", "Snapshots are faithful and keep their values",
     "Each snapshot holds the time, the cell coordinates and the primitive variables of the state at that moment, as cell averages or as values at cell centres as chosen, and with limiting the flags and the violation magnitudes averaged over the stages of the last step. Later steps, later snapshots and other solvers never change a snapshot already taken, and taking a snapshot never changes the solution. A snapshot helper function is called with the solver once at the end of every snapshot.",
     ["histories", "configurations"], "all configurations and sequences of steps and snapshots",
     "Aliasing and stale averages show only when a snapshot is compared with a copy made at the time, after more steps.",
     [S, A], [("snapshot", S), ("log_troubles", S), ("get_numpy", A)], TRACE, "random configurations; snapshots compared with the specification and with copies taken when they were made")
prop("C16", "The scheme treats all directions and places alike",
     "Renaming the axes, reflecting an axis, or shifting a periodic problem by whole cells, applied to the data together with mesh, degrees and boundaries, transforms the result accordingly (reflection: for the gas-dynamics fluxes, and for flagging criteria that do not depend on the sign of a velocity). A problem that does not vary along an extra periodic direction gives the same result as the problem without it (at equal time-step size).",
     ["inputs", "configurations"], "all initial data, meshes, degrees per direction, symmetric boundary types and limiting options",
     "Each direction has its own code path; tests compare symmetric problems mostly along x.",
     [S, L, B, R, F], [("hydrofluxes", S), ("revise_fluxes", S), ("BoundaryCondition.apply", B)], TRACE + " of pairs of runs (the transformations are specified in TLA+)", "random pairs; comparisons close to a limiting decision are not judged")
prop("C17", "Names and cuts address exactly the cells they say",
     "Selecting a variable, a group of variables or several of them by name, and a range along any axis, addresses exactly those entries, for any passive scalars, array dimension and range given from either end; zero as an end means the end of the axis. Velocity and momentum names share the slot of their direction, pressure and energy theirs, passive scalars follow in the given order, and unknown, duplicate or reserved names and invalid axes are refused. Selections never depend on earlier ones or on other instances.",
     ["inputs", "histories"], "all names, groups, tuples of names, ranges, steps, axes, array dimensions and sequences of selections",
     "Every index in the code goes through this; tests probe a handful of calls.",
     [H], [("HydroState.__call__", H), ("HydroState.__init__", H)], "TLA+ specification of addressing, enumerated by TLC; every generated case is replayed in the code", "exhaustive over small names, shapes and ranges")
prop("C18", "The array store returns what was stored",
     "For every history of adding, removing, reading and modifying arrays, a name refers to the array last stored under it until removed; adding an existing name, reading or removing a missing one, and storing something that is not an array are refused and change nothing. Reading returns the live array, copying out returns an independent copy, separate stores never share arrays, and asking for a GPU that is not there falls back to ordinary arrays.",
     ["histories"], "all histories of operations on a store over a few names",
     "Tests exercise each operation once, not their interleavings.",
     [A], [("ArrayManager", A)], REPLAY, "all histories up to the bound")
prop("C19", "Timers add up exactly the time between start and stop",
     "For every history of starts, stops and clock readings, each category's total is the sum of its completed intervals, independent of the others; starting a running or unknown category, stopping an idle or unknown one, and adding an existing one are refused and change nothing. The summary and the report show every category once with its total rounded to the chosen precision.",
     ["histories"], "all histories of operations over several categories and all clock readings",
     "Interleavings of categories and refused operations are not tested.",
     [T], [("Timer", T)], REPLAY, "all histories up to the bound, replayed with a controlled clock")
prop("C20", "Passive scalars only ride along",
     "Adding, removing, renaming or reordering passive scalars never changes density, velocities, pressure, time steps or flags, and the scalars do not influence each other. A scalar that is uniform stays uniform, replacing a scalar by a linear function of it replaces its result by the same linear function, and without reconstruction (degree zero) a scalar stays within its initial range.",
     ["inputs", "configurations"], "all flows, numbers and names of scalars, scalar data, degrees, limiting options and numbers of steps",
     "Tests check that a scalar is advected; influence on other variables needs pairs of runs.",
     [S, H, R], [("compute_fluxes", H), ("hllc, llf, advection_upwind", R), ("build_ic", I)], TRACE + " of pairs of runs", "random pairs of runs, with scalars added, removed, reordered and transformed")
prop("C21", "Initial conditions are the documented ones",
     "Every catalogued initial condition returns, at every point and for every choice of its parameters, the density, velocities and pressure its description defines, with positive density and pressure, and passive scalars are appended from their own functions in order. Coordinates y and z that the data does not depend on may be left out. Unknown modes or inconsistent parameters are refused.",
     ["inputs"], "all points and parameter values of each initial condition",
     "Tests evaluate a few with default parameters at one resolution.",
     [I], [("InitialCondition subclasses", I), ("build_ic", I)], TRACE, "random parameters and points away from discontinuities")
prop("C22", "Plots and samples show the snapshot they claim to show",
     "Slices, line plots, overlays and radial averages use the snapshot closest to the requested time and the cells closest to the requested coordinates, put the right variable's values at the right coordinates with the right orientation, and mark exactly the cells flagged by the chosen criterion. They never change the snapshots.",
     ["inputs", "configurations"], "all snapshot lists, requested times and coordinates, variables, slice orientations and overlay modes",
     "Tests only run the functions; the picture is not looked at.",
     [VI, S], [("plot_1d_slice", VI), ("plot_2d_slice", VI), ("sample_circular_average", VI), ("plot_fields", S)], TRACE, "random snapshots; what is handed to the axes object is recorded and judged")
prop("C23", "The update is the documented finite-volume scheme",
     "The rate of change of every cell is the difference of its face fluxes over the cell width, where face fluxes are obtained from cell averages by going to primitive averages, interpolating to face centres with the degree of each direction, solving one Riemann problem per face, averaging over the face, and, with limiting, replacing fluxes at troubled interfaces by those of the limited second-order fallback. This holds at any time, for every combination of dimensions, degrees, boundaries, fluxes and limiting options, and after any history.",
     ["inputs", "configurations", "histories"], "all states and configurations",
     "The combinations of dimension, degree per direction, boundaries and limiting options are thousands; the tests sample a few dozen symmetric ones.",
     [S, F, L, B, R, H], [("hydrodynamics", S), ("hydrofluxes", S), ("revise_fluxes", S), ("interpolate_primitives_from_conservatives", S)], TRACE + " (the whole scheme is executable in TLA+)", "random configurations over the full option space")
prop("C24", "Solvers are independent and deterministic",
     "A run depends only on its own arguments: the same configuration gives bit-identical results every time, whether other solvers were created, advanced in between, or failed, and whether the run is done at once or in several calls that end at the same steps. No run changes the data, functions or objects it was given, nor the state it is evaluated on.",
     ["histories", "schedules"], "all interleavings of the steps of several solvers with arbitrary configurations",
     "Shared caches and default objects only matter when differently configured solvers alternate in one process.",
     [S, O, H, F, ST, B], [("lru_cache users", H), ("BoundaryCondition", B), ("EulerSolver.__init__", S)], REPLAY + " (interleavings of solver steps)", "all interleavings of the bounded model, with random configurations")
prop("C25", "The one-dimensional reference solver is the scheme it stands for",
     "romain_solver.weno returns the initial state and the state after every step up to the first that reaches tend. Every step advances the conserved variables of a gamma = 1.4 gas on n equal cells of the unit interval by the chosen Runge-Kutta method (time 1 to 4: Euler, midpoint, three-stage Heun, classical fourth order) with dt = cfl h / max(|v| + c), using the chosen reconstruction of the primitive variables (space 1 to 5) limited to the neighbours' range except at smooth extrema, the chosen flux (llf or hllc) and periodic or free boundaries; each named initial state is the textbook one. With periodic boundaries mass, momentum and energy are conserved, and a uniform state stays uniform.",
     ["inputs", "configurations", "histories"], "all initial states, cell counts of at least four, boundaries, fluxes, orders in time and space, end times",
     "No test touches this solver, although comparisons with it are what other results are judged by.",
     [RS], [("weno", RS), ("cmp_flux", RS), ("trace, smooth_extrema", RS), ("llf, hllc", RS), ("set_ic", RS)], TRACE + " (the reference scheme is executable in TLA+)", "random configurations and initial states")
prop("C26", "Options mean what they say",
     "Leaving an option out is the same as giving its documented default, and equivalent spellings of a value (lists or tuples, integers or floats, one boundary type or a pair, no boundary or all periodic, intermediate times in any order) give identical runs, bit for bit. Options of features that are switched off or that concern output only change nothing in the solution: limiting options without limiting, detection options when all cells are forced to be troubled, the Courant factor with a prescribed step, the progress bar. Unknown Riemann solvers, limiters (when limiting uses them), detection modes and variables, boundary types and malformed boundaries, boundary functions reaching beyond the prepared coordinates, reserved passive names and impossible degrees are refused before any step is taken. With progress_bar=False nothing is printed, and a solver can be constructed wherever the code lies, with or without git. Giving an option another value changes the outcome where it applies.",
     ["configurations", "inputs"], "all combinations of options, omitted or spelled in different ways, and all installations",
     "Defaults and irrelevant options are many and combine freely; tests spell each out in one way.",
     [S, O, B, L], [("EulerSolver.__init__", S), ("_init_slope_limiting", S), ("integrate", O), ("get_commit_details", O), ("BoundaryCondition.__init__", B)], "TLA+ state machine whose transitions rewrite a configuration without changing its meaning (or break it); every configuration TLC generates is run in the code and its outcome compared bit for bit", "all single edits of fourteen configurations, pairs and random sequences of edits")

DONE = set(sys.argv[1:]) or {p["id"] for p in P if os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".py"))}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in DONE:
            continue
        an = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
        if p["observe"]:
            an["observe_at"] = [p["observe"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=an)) + "\n")
py = "/opt/venv/bin/python /verif/check.py"
json.dump(
    dict(
        version=1,
        setup_cmd=f"{py} --setup",
        checks=[
            dict(
                property=p["id"],
                quick_cmd=f"{py} {p['id']} --tier quick",
                thorough_cmd=f"{py} {p['id']} --tier thorough",
                technique=p["technique"],
                level="model_checking",
                level_note=p["note"],
            )
            for p in P
            if p["id"] in DONE
        ],
        not_applicable=[],
        notes="TLA+ specifications in spec/, checked with TLC; see DESIGN.md.",
    ),
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
