#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the texts)."""
import json, os
F = "mpopt/mpopt.py"
P = []
def prop(id, title, statement, over, qtext, why, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": [F],
                    "state": state or [],
                    "mechanism": [{"name": n, "where": F + ": " + w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Every collocation node satisfies the scaled dynamics of its segment",
 "The nonlinear program handed to the solver contains, for every phase, segment, collocation node and state, an equality that forces the derivative of the segment's interpolating polynomial to equal the user's dynamics evaluated at that node's unscaled state, control, parameters and actual time, multiplied by the segment's duration per unit of collocation coordinate and the state's scale. No node, state or phase is left without such an equation, and the two sides always belong to the same node.",
 ["inputs", "configurations"], "all states, controls, times, parameters, segment widths, scale factors and dynamics functions, for every mesh (segments, mixed polynomial degrees), scheme and number of phases within the bounds",
 "The tests check shapes of the constraint vector and solve a few smooth unit-scale, equal-width problems; a wrong index, scale or width at one node of one phase leaves shapes intact and still converges.",
 [("collocated dynamics", "mpopt.get_discretized_dynamics_constraints_and_cost_matrices, get_nlp_constraints_for_dynamics"), ("composite differentiation matrix", "Collocation.get_composite_differentiation_matrix")],
 ["create_nlp()[0]['g']"])
prop("C02", "Path constraints hold at every collocation node",
 "For every phase with path constraints, each constraint component appears in the program once per collocation node, evaluated at that node's unscaled state, control, parameters and actual time, and bounded above by zero only; a phase without path constraints contributes none.",
 ["inputs", "configurations"], "all node values, scales, widths, constraint functions, meshes and phase combinations within the bounds",
 "Tests have at most one path constraint, in unit scaling, and only look at sizes.",
 [("path constraint rows", "mpopt.get_nlp_constraints_for_path_contraints; OCP.has_path_constraints")], ["create_nlp()[0]['g']"])
prop("C03", "Terminal constraints and costs see the true phase end points",
 "Each phase's terminal constraints and terminal cost are evaluated at that phase's unscaled final state, final time, initial state, initial time and parameters, in that order; the constraints are imposed as equalities to zero and every phase's terminal cost enters the objective exactly once.",
 ["inputs", "configurations"], "all end-point values, scales, terminal functions, phases and parameter counts within the bounds",
 "Test problems have zero initial times, unit scales and mostly one phase, so a swapped or unscaled argument is invisible.",
 [("terminal constraints and Mayer term", "mpopt.get_nlp_constraints_for_terminal_contraints, create_nlp")], ["create_nlp()[0]['f'], ['g']"])
prop("C04", "The objective contains the exact quadrature of the running cost",
 "The objective equals the sum over phases of the terminal cost plus the collocation quadrature of the running cost over the actual time interval, with each segment's contribution weighted by its own width and its end-node contributions all included, so that the integral is exact for running costs that are polynomial in time up to the scheme's degree of exactness. In particular a unit running cost adds exactly the phase duration, for every scheme and mesh.",
 ["inputs", "configurations"], "all running cost values and polynomials, all segment widths and times, LGR, LGL and CGL, mixed polynomial degrees and multiple phases within the bounds",
 "Tests compare the composite weights of two code paths with each other and never integrate a known function on a multi-segment Lobatto mesh.",
 [("running cost sum", "mpopt.discretize_phase; Collocation.get_composite_quadrature_weights")], ["create_nlp()[0]['f']"])
prop("C05", "Linked phases are continuous in state, control and time",
 "For every declared link from phase i to phase j the program bounds the state jump from the end of i to the start of j by the link's declared lower and upper values, forces the control at both sides to be equal, and forces the start time of j to equal the final time of i. Links that are not declared produce no constraints.",
 ["inputs", "configurations"], "all end-point values, jump bounds, scale factors and link lists within the bounds",
 "Only a default-link two-phase problem is tested, with zero jump bounds and unit scaling.",
 [("event constraints", "mpopt.get_event_constraints")], ["create_nlp()[0]['g'] and the bounds lbg/ubg"])
prop("C06", "Variable bounds are the user's bounds and the initial state is fixed",
 "In the bounds given to the solver every state, control, parameter, start time and final time of every phase is limited by exactly the user's lower and upper bound for that quantity expressed in scaled units, at every node. The first phase's first node is fixed to the user's initial state, and no other phase's initial state is fixed.",
 ["inputs", "configurations"], "all bound values (finite, infinite, fixed), scale factors, meshes and phases within the bounds",
 "Tests only compare the lengths of bound vectors and variables.",
 [("bounds of the decision vector", "mpopt.get_nlp_variables, mpopt_adaptive.get_nlp_variables")], ["create_nlp()[1] lbx/ubx"])
prop("C07", "Optional control constraints are imposed exactly when and where requested",
 "When requested for a phase, the program bounds the time derivative of every control at every collocation node by the user's slope limits, makes the control's time derivative continuous across every interior segment boundary, and keeps the interpolated control within its bounds half-way between neighbouring nodes. When not requested, the phase has none of these constraints.",
 ["inputs", "configurations"], "all control values, slope limits, bounds, scale factors, durations, unequal segment widths and on/off combinations per phase within the bounds",
 "No test enables slope limits or slope continuity; mid-point bounds are only run on one problem and never inspected.",
 [("slope limits", "mpopt.get_nlp_constraints_for_control_input_slope"), ("slope continuity", "mpopt.get_nlp_constrains_for_control_slope_continuity_across_segments"), ("mid-point bounds", "mpopt.get_nlp_constrains_for_control_input_at_mid_colloc_points")], ["create_nlp()[0]['g']"])
prop("C08", "Adaptive-width optimisation keeps the mesh and mid-point residuals valid",
 "When segment widths are decision variables, each phase's width fractions are bounded by the configured limits and constrained to sum to one, controls and states interpolated between neighbouring nodes stay within their bounds, and the width-weighted dynamics residual at every such mid-point stays within the configured tolerance when that feature is on. Dynamics, path, terminal, slope and linking constraints are the same as for fixed widths with the variable widths substituted.",
 ["inputs", "configurations"], "all node values, widths, scales, bounds, tolerances and dynamics functions, and both settings of the mid-point residual feature within the bounds",
 "Tests solve two problems and check array shapes only.",
 [("width constraints", "mpopt_adaptive.get_nlp_constrains_for_segment_widths"), ("variable layout", "mpopt_adaptive.get_nlp_variables, discretize_phase")], ["create_nlp()"])
prop("C09", "Nothing but the declared problem constrains the solver",
 "Every constraint of the program is one of: node dynamics, node path constraints, terminal constraints, phase links, and the optional control constraints that were switched on; there are no further ones, and every decision variable is exactly one of the nodal states, nodal controls, times, parameters or (in the adaptive variant) segment widths, once each. Features left off or functions not defined for a phase add nothing.",
 ["inputs", "configurations"], "all node values and all combinations of optional features per phase within the bounds",
 "Tests compare lengths of vectors produced by the same code, never the content of the rows.",
 [("NLP assembly", "mpopt.create_nlp, discretize_phase")], ["create_nlp()"])
prop("C10", "The default starting point is the linear interpolation of the user's guess",
 "When no starting point is supplied, the solver starts from states and controls that go from the user's initial to final guess in equal steps from node to node of each phase, in the order of the decision vector, with the guessed times, parameters and (adaptive variant) equal widths, all in scaled units.",
 ["inputs", "configurations"], "all guesses, scale factors, numbers of states, controls, parameters, phases and meshes within the bounds",
 "Tests check only the length of the starting vector, and have one control, where a transposed layout is invisible.",
 [("initial guess", "mpopt.init_solution_per_phase, initialize_solution; mpopt_adaptive.init_solution_per_phase")], ["initialize_solution()"])
prop("C11", "Scaling factors do not change the problem being solved",
 "Changing the state, control, parameter or time scale factors changes only the units of the solver's internal variables: for any values, the objective in user units is identical, each constraint is the same constraint up to a positive constant factor, and the bounds describe the same set of trajectories (the adaptive variant's residual tolerance, which is stated in scaled units, excepted).",
 ["inputs", "configurations"], "all positive scale factors against unit scaling, at all trajectories, times, parameters and widths within the bounds",
 "It relates two programs for every trajectory; tests never build the same problem under two scalings.",
 [("unscaling before user functions, scaling of bounds", "mpopt.create_variables and all users of scale_x/scale_u/scale_a/scale_t")], ["create_nlp(), initialize_solution()"])
prop("C12", "What the user leaves out keeps its default and constrains nothing else",
 "A problem that leaves items out is the same nonlinear program, with the same starting point, as the problem that states their defaults explicitly: free states, controls and parameters, times that are not negative with the first phase starting at zero, consecutive phases joined without a jump, unit scales, zero dynamics and costs, no path or terminal constraints, control bounds also at the interval mid-points, no slope limits (of -15 and 15 when only switched on) and a guess of zero over the time from 0 to 1; setting an item of one phase changes no other item, phase or problem. Optimiser arguments that are left out or abbreviated (one segment, degree 9, Radau nodes, one degree for all segments) behave like the written-out ones.",
 ["inputs", "configurations"], "all states, controls, times, parameters, widths, user functions and stated values, for every single stated item and several sets of them, phases, sizes and optimiser classes within the bounds",
 "Tests never look at the program that results from the items they leave out.",
 [("defaults", "OCP.__init__, mpopt.__init__"), ("use of the defaults", "mpopt.create_nlp, mpopt.get_nlp_variables, mpopt.discretize_phase, mpopt.get_event_constraints, mpopt.initialize_solution")], ["create_nlp(), initialize_solution()"])
prop("K01", "Collocation nodes are the scheme's nodes in the configured interval",
 "For every supported scheme and degree p the nodes are p+1 strictly increasing numbers starting and ending exactly at the ends of the configured interval, whose interior nodes are the zeros of the scheme's defining polynomial mapped affinely to that interval.",
 ["inputs", "configurations"], "LGR, LGL, CGL, all degrees and both interval conventions within the bounds",
 "Tests check the first and last node of two degrees.",
 [("node generation", "CollocationRoots.roots_*, get_collocation_points")], ["CollocationRoots(scheme)._taus_fn(p)"])
prop("K02", "Differentiation matrices are exact for the interpolating polynomials",
 "For any polynomial of the segment's degree, applying the differentiation matrix to its nodal values gives the polynomial's first (or second) derivative at the nodes or at the requested points, segment by segment, and the composite matrices place every segment's block at that segment's nodes.",
 ["inputs", "configurations"], "all polynomial coefficients (hence all nodal values), all schemes, degree lists, requested points and both implementation methods within the bounds",
 "The tests compare two implementations with each other on one degree and check degree 1 with one-sided comparisons that accept any negative error.",
 [("differentiation matrices", "Collocation.get_diff_matrix, get_composite_differentiation_matrix, get_composite_interpolation_Dmatrix_at")], ["Collocation(...)"])
prop("K03", "Quadrature weights integrate exactly up to the scheme's degree",
 "For any polynomial up to the scheme's degree of exactness (at least p, 2p-2 for flipped Radau nodes with both ends, 2p-1 for Gauss-Lobatto), the weighted sum of nodal values equals the integral over the configured interval or over a requested sub-interval, and the composite weights integrate the piecewise interpolant including both sides of every segment boundary.",
 ["inputs", "configurations"], "all polynomial coefficients, schemes, degree lists, sub-intervals and both implementation methods within the bounds",
 "Tests compare the symbolic and numeric weights with each other, never with an integral.",
 [("quadrature weights", "Collocation.get_quadrature_weights, get_composite_quadrature_weights")], ["Collocation(...)"])
prop("K04", "Interpolation reproduces the segment polynomial at any point",
 "For any polynomial of the segment's degree and any points in the interval, the interpolation matrix applied to nodal values returns the polynomial's value at those points; in particular it returns nodal values at nodes and its rows sum to one, and the composite matrix uses only the nodes of the segment each point belongs to, also when a segment has no points.",
 ["inputs", "configurations"], "all polynomial coefficients and all real evaluation points in the interval, schemes, degree lists, point counts per segment and both implementation methods within the bounds",
 "Tests check only sizes of interpolated arrays.",
 [("interpolation matrices", "Collocation.get_interpolation_matrix, get_composite_interpolation_matrix")], ["Collocation(...)"])
prop("K05", "The time grid maps nodes affinely, in order, from start to final time",
 "Within each phase the reported node times start at the initial time, end at the final time when the widths sum to one, advance across each segment by that segment's share of the duration, and inside a segment are affine images of the collocation nodes; interpolated times at requested points follow the same map.",
 ["inputs", "configurations"], "all times, widths, time scales, meshes and requested points within the bounds",
 "Tests compare three hand-made grids with equal widths.",
 [("time grid", "mpopt.get_discretized_dynamics_constraints_and_cost_matrices, init_trajectories, get_interpolated_time_grid")], ["init_trajectories(phase)(z, p)"])
prop("A01", "Merge/split refinement conserves widths and refines where residuals are large",
 "Given positive segment widths and segment residuals, merge/split refinement returns as many positive widths with the same total; consecutive segments meeting the tolerance are merged into one, every group exceeding it is divided into equal parts, and the widths come back unchanged when nothing can be freed or nothing needs refinement.",
 ["inputs"], "all residual vectors, widths and tolerances for every segment count within the bounds",
 "No test calls it; it is only reached through solves whose result is checked by shape.",
 [("merge/split", "mpopt_h_adaptive.merge_split_segments_based_on_residuals, refine_segment_widths_based_on_residuals")], ["returned widths"])
prop("A02", "Equal-area refinement puts equal residual area in every segment",
 "For any non-negative residual samples that are not all zero, equal-area refinement returns positive widths summing to one such that the piecewise-constant (trapezoidal per interval) residual area is the same in every new segment.",
 ["inputs"], "all residual sample vectors and segment counts within the bounds, including samples with zero stretches",
 "No test looks at the widths.",
 [("equal area", "mpopt_h_adaptive.get_roots_wrt_equal_area")], ["returned widths"])
prop("A03", "Slope refinement puts segment boundaries at the steepest control points",
 "Given candidate times inside the phase with their control slopes, slope refinement keeps only interior times at or above the threshold, prefers the largest slopes, and returns as many positive widths summing to one whose boundaries include as many of the preferred times as there are interior boundaries.",
 ["inputs"], "all time grids, slope values, thresholds and segment counts within the bounds",
 "No test examines the selected times or widths; ascending or descending selection passes alike.",
 [("slope selection", "mpopt_h_adaptive.compute_time_at_max_values, compute_segment_widths_at_times")], ["returned times and widths"])
prop("A04", "Mesh refinement always yields valid widths and leaves converged phases alone",
 "Whatever the residuals and method, the refined width parameters consist of one block per phase of positive fractions summing to one, a phase whose residuals are all below its own tolerance keeps its widths unchanged, any other phase is refined by the requested method from its own residuals or control slopes (slope-based widths are brought within that phase's own width limits and then scaled to a total of one), and the reported error is the largest residual magnitude over all phases.",
 ["inputs", "histories"], "all residual arrays (including segments without samples), old widths, tolerances, phases and methods within the bounds",
 "Each test run exercises one residual pattern of a converging single-phase problem.",
 [("per-phase refinement", "mpopt_h_adaptive.get_segment_width_parameters, compute_seg_width_based_on_residuals, compute_seg_width_based_on_input_slope")], ["returned widths and error"])
prop("A05", "Residual grid points are mapped to the right segment and local coordinate",
 "For any valid widths, each requested point after the phase's start is assigned to exactly the segment whose share of the interval contains it, with a local coordinate that maps back to the same point; the residual grids lie strictly inside the phase for the fixed grid, half-way between nodes for the mid-point grid and inside each segment for the spectral grid.",
 ["inputs", "configurations"], "all positive width vectors summing to one (also up to rounding), all point vectors, grid types and interval conventions within the bounds",
 "Tests use two width vectors with exactly representable sums.",
 [("grid mapping", "mpopt.compute_interpolation_taus_corresponding_to_original_grid, get_residual_grid_taus")], ["returned points"])
prop("A06", "The adaptive driver pairs solutions with their widths and stops as documented",
 "On every run of the adaptive solve loop, the returned solution is the solver's last answer, the stored widths are the ones it was solved with or the refined ones consistent with the stopping rule, each iteration warm starts from the previous solution and passes the current widths, and the loop ends no later than the iteration limit (of at least one), as soon as the error is below tolerance, or when widths or error stagnate.",
 ["histories", "inputs"], "all sequences of residuals, errors and refined widths, methods and iteration limits within the bounds",
 "A test sees one residual history per problem; most stopping branches are never taken.",
 [("driver loop", "mpopt_h_adaptive.solve")], ["arguments of the solver calls, returned solution, iteration records"])
prop("A07", "The ph-adaptive driver refines until tolerance or iteration limit",
 "The ph-adaptive solve runs to completion for any residual history, keeps polynomial degrees within the configured limits and width fractions positive and summing to one, refines as long as the relative state residual of any phase, assessed on the kind of grid that was asked for, exceeds the tolerance and iterations remain (raising degrees exactly in the segments above the tolerance, within the limits, and then splitting exactly those still above it whose curvature grew beyond the non-smooth threshold, in all phases alike), and returns the solution of its last solve.",
 ["histories", "inputs"], "all residual and curvature histories, segment counts and iteration limits within the bounds",
 "No test calls it.",
 [("ph driver", "mpopt_ph_adaptive.solve_ph, get_abs_max_residual")], ["returned solution, degrees, widths"])
prop("S01", "Solving passes the problem, widths, bounds and warm start through unchanged",
 "A solve hands the solver the program and bounds built from the current problem, the requested (or equal) segment widths, the user's solver options on top of the defaults, and the caller's primal and dual warm start when given or the default guess otherwise, and returns the solver's answer; it rebuilds the program exactly when none exists or when asked to.",
 ["inputs", "histories"], "all warm-start dictionaries, width vectors, option dictionaries and sequences of up to three solve calls within the bounds",
 "Tests call solve once with defaults.",
 [("solve protocol", "mpopt.solve, create_solver, get_solver_warm_start_input_parameters; mpopt_adaptive.solve, create_solver")], ["arguments received by the solver"])
prop("S02", "Solving never changes the caller's problem, options or other optimisers",
 "Building and solving never modifies the problem object, the option or warm-start dictionaries given by the caller, later changes to the caller's problem do not affect an existing optimiser, and the options of one call or optimiser are not remembered by another.",
 ["histories", "inputs"], "all sequences of up to three solves over two optimisers with arbitrary option dictionaries within the bounds",
 "It needs two consecutive calls sharing default arguments; each test uses fresh objects and never inspects inputs afterwards.",
 [("isolation", "mpopt.__init__ (deep copy); solve default arguments in all optimisers")], ["caller's objects after the call"])
prop("S03", "A problem is accepted exactly when it is consistent",
 "Validation passes for every problem with the default phase links whose functions, scales, guesses and bounds (on states, controls, parameters, times and phase jumps) have the declared dimensions with every lower bound not above its upper bound, and fails for any problem in which one of them does not, whichever quantity, phase or component it is.",
 ["inputs", "configurations"], "all bound values including infinities, and any single wrongly sized or inverted quantity in any phase within the bounds",
 "Tests re-implement the checks on seven valid problems and never call it on an invalid one.",
 [("validation", "OCP.validate")], ["assertion raised or not"])
prop("S04", "One-call solve builds, solves and processes exactly the given problem",
 "The module-level solve function solves the given problem once on the requested segments, polynomial degrees (a list, or one number for all segments) and collocation scheme, with the solve arguments passed through unchanged, and returns that optimiser with the post-processor of that answer, holding the residuals that were requested and drawing plots only when asked; nothing of one call carries over to the next.",
 ["inputs", "configurations"], "all problems, solver answers, warm starts, options, meshes, schemes and flag combinations within the bounds",
 "Tests call it on two converging problems and look at the final state.",
 [("one-call solve", "solve")], ["solve(...)"])
prop("S05", "Changing the mesh of an optimiser equals building a new one",
 "After the segments, polynomial degrees or collocation scheme of an existing optimiser are changed and it is reset, the next solve hands the solver the same program, bounds, starting point and widths, and its answer is processed to the same trajectories, residuals and second derivatives, as with a new optimiser built on that mesh, whatever was solved before.",
 ["histories", "configurations"], "all problems, solver answers and sequences of up to three meshes within the bounds",
 "No test changes the mesh of an optimiser that has already solved.",
 [("re-initialisation", "mpopt.reset_mpopt, compute_numerical_approximation, create_variables, solve, process_results")], ["arguments of the solver call, processed results"])
prop("P01", "Retrieved trajectories are the solution in user units",
 "The retrieved states, controls, times and parameters of each phase are the entries of the solution vector for that phase, states, controls and parameters divided by their scale factors (or left scaled when asked), times always in user units, in node order, and requesting several phases stacks them in the requested order.",
 ["inputs", "configurations"], "all solution vectors, scale factors, widths, numbers of states, controls, parameters and phases within the bounds",
 "Tests compare row counts, with unit scales and no parameters.",
 [("retrieval", "post_process.get_trajectories, get_original_data, get_data; mpopt.process_results")], ["get_data()"])
prop("P02", "Interpolated data are the segment polynomials through the solution",
 "Interpolated states and controls are the values of each segment's interpolating polynomial through the retrieved solution, paired with the matching interpolated times and covering the phase from its start to its end without skipping a segment, and parameters are returned as in the non-interpolated data.",
 ["inputs", "configurations"], "all solution vectors, scales, widths, interpolation points, meshes and phases within the bounds",
 "Tests compare row counts.",
 [("interpolation", "post_process.get_interpolated_data, get_interpolation_taus, get_interpolated_time_grid")], ["get_data(interpolate=True)"])
prop("P03", "Dynamics residuals are the defect of the interpolated solution",
 "The dynamics residual reported for a phase, segment and point is the scaled derivative of the interpolated state minus the scaled dynamics at the interpolated unscaled state, control, parameters and actual time of that point, in solver time units of that segment, and comes with that point's time; in relative form it is divided by the largest dynamics magnitude of that state in the phase.",
 ["inputs", "configurations"], "all solution vectors, dynamics values, widths, scales, grids and phases within the bounds",
 "Tests check that residuals of a few converged solutions are small, which a missing factor survives.",
 [("residuals", "mpopt.get_dynamics_residuals, get_dynamics_residuals_single_phase, interpolate_single_phase")], ["get_dynamics_residuals()"])
prop("P04", "State residuals compare the solution with the integrated dynamics",
 "The state residual at a point is the interpolated state minus the state at the start of its segment plus the integral from there of the polynomial interpolating the scaled dynamics at the segment's grid points, using that segment's width; in relative form it is divided by the largest integrated magnitude of that state in the phase.",
 ["inputs", "configurations"], "all solution vectors, dynamics values, widths, scales, grids and phases within the bounds",
 "Tests check closeness on converged unit-scale solutions with equal widths.",
 [("state residuals", "mpopt.get_states_residuals, compute_states_from_solution_dynamics")], ["get_states_residuals()"])
prop("P05", "Second derivatives are those of the segment polynomials",
 "The reported second derivatives of states and controls at a point are the second derivatives, with respect to the collocation coordinate, of the segment's interpolating polynomial at exactly the points of the requested grid, with that point's time.",
 ["inputs", "configurations"], "all solution vectors, widths, grids (default, named or explicit) and phases within the bounds",
 "The existing test checks one quadratic problem and disables the comparison of the values it cares about.",
 [("second derivative", "mpopt.get_state_second_derivative, get_state_second_derivative_single_phase")], ["get_state_second_derivative()"])
prop("P06", "Processing results returns every residual that was requested",
 "Processing a solution attaches state residuals exactly when they were requested and dynamics residuals exactly when they were requested, each computed from that solution, together with the mesh widths and scale factors of that solution; all four combinations of requests work for the fixed-width and adaptive-width optimisers.",
 ["inputs", "configurations"], "all solution vectors and widths, all combinations of the request flags, both optimisers, within the bounds",
 "Tests use the default combination only.",
 [("result processing", "mpopt.process_results, mpopt_adaptive.process_results")], ["process_results(...)"])
prop("P08", "Interpolation grids cover the interval and refine the given grid",
 "The uniform interpolation grid has the requested number of equally spaced points from the start to the end of the collocation interval; the refined grid keeps every point of the given grid, in increasing order, and divides every interval into equal parts by repeated halving until there are at least the requested number of points or six halvings were made.",
 ["inputs", "configurations"], "all increasing grids and requested numbers of points within the bounds",
 "The existing test checks one grid.",
 [("interpolation grids", "post_process.get_interpolation_taus, get_non_uniform_interpolation_grid")], ["get_interpolation_taus()"])
prop("N01", "A converged solve satisfies the discretised problem to tolerance",
 "When the solver reports success, the returned trajectory satisfies every constraint of the discretised problem to the solver's tolerance and is locally optimal.",
 ["inputs"], "all problems and starting points",
 "Tests run a handful of problems to convergence.",
 [("NLP solver call", "mpopt.solve -> casadi nlpsol (IPOPT)")], ["solution"])
prop("P07", "Plots show the retrieved data",
 "Every plot draws exactly the retrieved or interpolated data of the selected phases and dimensions against their times, and no two plots of a figure lie over each other.",
 ["inputs", "configurations"], "all solutions, phase and dimension selections",
 "Tests never plot.",
 [("plots", "post_process.plot_*")], ["figures"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
