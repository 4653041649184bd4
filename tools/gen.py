#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, not by the checks)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

DTS = 'pympc/dynamics/discrete_time_systems.py'
DM = 'pympc/dynamics/discretization_methods.py'
DU = 'pympc/dynamics/utils.py'
GEO = 'pympc/geometry/polyhedron.py'
GU = 'pympc/geometry/utils.py'
PRG = 'pympc/optimization/programs.py'
PN = 'pympc/optimization/solvers/pnnls.py'
GR = 'pympc/optimization/solvers/gurobi.py'
PP = 'pympc/optimization/parametric_programs.py'
CT = 'pympc/control/controllers.py'

P = []


def p(id, title, statement, over, text, why, mech, observe):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': sorted({w.split('::')[0] for _, w in mech}),
                          'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})


p('C01', 'Condensed dynamics reproduce the step-by-step simulation',
  'For linear, affine and piecewise-affine systems, the condensed matrices (A_bar, B_bar, c_bar) applied to any initial state and any stacked input sequence give exactly the stacked states obtained by simulating one step at a time (piecewise-affine: along the given mode sequence). Simulating in closed loop with u = K x is the same as applying those inputs.',
  ['inputs', 'histories'], 'all system matrices and offsets, initial states, input sequences, horizons and mode sequences',
  'The tests compare fixed numeric systems over a few random inputs; an error confined to one block (an offset propagated through the wrong product, one mode transition) shows only for particular matrices, offsets or mode orders.',
  [('simulate / condense', DTS + '::LinearSystem, AffineSystem, PieceWiseAffineSystem.condense'), ('condense_pwa_system', DTS + '::condense_pwa_system'), ('productory', DTS + '::productory')],
  ['return values of condense, simulate and simulate_closed_loop'])

p('C02', 'Piecewise-affine simulation uses a mode whose domain contains the point',
  'Asking for the mode of a state-input pair returns the index of a domain that contains the pair (inequalities and equalities), and None only if no domain does. Simulation from x0 applies, at each step, the dynamics of such a mode and reports the states and modes it visited; it raises a ValueError as soon as the current pair lies in no domain.',
  ['inputs', 'histories'], 'all dynamics, domains (with equalities), initial states and input sequences',
  'The tests simulate a few trajectories that stay well inside known domains; leaving the domains half-way, equality-constrained domains and overlapping domains are not reached.',
  [('get_mode', DTS + '::PieceWiseAffineSystem.get_mode'), ('simulate', DTS + '::PieceWiseAffineSystem.simulate'), ('membership', GEO + '::Polyhedron.contains')],
  ['return values and exceptions of get_mode and simulate'])

p('C03', 'Discretisation is exact: explicit Euler and zero-order hold',
  'Discretising x_dot = A x + B u + c with step h by explicit Euler gives x + h (A x + B u + c), and by zero-order hold gives the exact flow exp(A h) x + int_0^h exp(A s) ds (B u + c), for every x and u, singular A included. The system constructors from continuous-time data use the requested method, default to zero-order hold, and refuse unknown method names with a ValueError.',
  ['inputs'], 'all continuous-time matrices, offsets, steps, states and inputs',
  'The tests check single numeric systems; a mistake that vanishes for the tested A (nilpotent, invertible, zero offset) or step passes.',
  [('explicit_euler / zero_order_hold', DM), ('from_continuous', DTS + '::LinearSystem.from_continuous, AffineSystem.from_continuous')],
  ['matrices returned by the discretisation functions and the constructors'])

p('C04', 'Symbolic constructors reproduce the given expression at every point',
  'Systems and polyhedra built from symbolic expressions evaluate, at every point and for every coefficient, to the value of those expressions: x_next = A x + B u + c, A x <= b where the inequality expression is non-positive, C x = d where the equality expression vanishes. Linear constructors refuse expressions with an offset, and expressions that are not affine are refused.',
  ['inputs', 'programs'], 'all affine expressions in the given state and input symbols, in any algebraic form',
  'The tests build one or two expressions with fixed coefficients.',
  [('get_state_transition_matrices', DTS + '::get_state_transition_matrices'), ('get_matrices_affine_expression', GEO + '::get_matrices_affine_expression'), ('from_symbolic', GEO + '::Polyhedron.from_symbolic, add_symbolic_inequality, add_symbolic_equality')],
  ['matrices of the constructed objects'])

p('C05', 'The LQR solution is the Bellman-optimal cost and feedback',
  'The matrices (P, K) returned for a linear system and weights (Q, R) satisfy, for every state x and every input u, x\'Px <= x\'Qx + u\'Ru + (Ax+Bu)\'P(Ax+Bu), with equality at u = K x. A system that is not controllable is refused with a ValueError, and controllability is decided by the rank of [B, AB, ..., A^(n-1)B].',
  ['inputs'], 'all system matrices, positive definite weights, states and inputs',
  'The tests compare one numeric system; a wrong sign or transposition can cancel for symmetric or scalar data.',
  [('solve_dare', DTS + '::LinearSystem.solve_dare'), ('controllable', DTS + '::LinearSystem.controllable')],
  ['return values and exceptions of solve_dare and controllable'])

p('C06', 'The maximal constraint-admissible set is admissible, invariant and maximal',
  'For stable closed-loop dynamics x+ = A x and a bounded polytope X with the origin in its interior, the computed set is contained in X, is mapped into itself by A, and contains every state whose whole trajectory stays in X; for u = K x and constraints on (x, u) the same holds with the closed-loop dynamics and the constraints at (x, K x). Unstable dynamics (an eigenvalue of modulus above one), unbounded constraint sets and constraint sets without the origin are refused with a ValueError.',
  ['inputs', 'histories'], 'all stable dynamics, gains, constraint sets given by inequalities, states, and trajectory lengths',
  'The tests check set inclusion on one or two numeric systems; missing one inequality at one step of the recursion, or stopping one step early, shows only for particular right-hand sides.',
  [('mcais', DTS + '::mcais'), ('LinearSystem.mcais', DTS + '::LinearSystem.mcais')],
  ['the returned polyhedron; ValueError'])

p('C07', 'Polyhedra contain exactly the points that satisfy their constraints',
  'A point is reported as contained iff it satisfies all inequalities and equalities (up to the tolerance asked for). Constructing from bounds and adding inequalities, equalities, lower or upper bounds on all or on selected coordinates (in the order given) restricts the set to exactly the points that satisfy the new constraint on those coordinates, and leaves the given arrays alone.',
  ['inputs', 'histories'], 'all constraint data, index lists and points',
  'The tests probe a handful of points and sorted index lists; a point that violates only one equality, or indices out of order, is not reached.',
  [('contains', GEO + '::Polyhedron.contains'), ('add_*', GEO + '::Polyhedron.add_inequality, add_equality, add_lower_bound, add_upper_bound, add_bounds, _selection_matrix'), ('from_*', GEO + '::Polyhedron.from_lower_bound, from_upper_bound, from_bounds')],
  ['contains; the attributes A, b, C, d'])

p('C08', 'Intersection, Cartesian product and normalisation describe the right sets',
  'A point is in the intersection of two polyhedra iff it is in both, and (y, z) is in the Cartesian product iff y is in the first and z in the second; the operands are left unchanged and stay independent of the result. Normalising scales every row and its right-hand side by the same positive factor to unit norm, leaves zero rows alone, and does not touch arrays or polyhedra that share data.',
  ['inputs', 'histories'], 'all pairs of polyhedra (with equalities) and points',
  'The tests compare matrices of fixed examples, mostly without equalities.',
  [('intersection / cartesian_product', GEO + '::Polyhedron.intersection, cartesian_product'), ('normalize', GEO + '::Polyhedron.normalize')],
  ['membership in the results; A, b, C, d of operands'])

p('C09', 'Removing redundant inequalities keeps the set and leaves no redundant row',
  'After removing redundant inequalities from a non-empty polyhedron the set of points is the same, every remaining inequality cuts something off that the others do not, and equalities are untouched. The list of minimal facets selects such a set of rows without changing the polyhedron, and is None (removal: ValueError) iff the polyhedron is empty.',
  ['inputs'], 'all right-hand sides, duplicated, scaled and zero rows, with and without equalities',
  'The tests use a few hand-made polyhedra; which rows are redundant changes with the right-hand side, and ties between duplicates are order-dependent.',
  [('minimal_facets', GEO + '::Polyhedron.minimal_facets'), ('remove_redundant_inequalities', GEO + '::Polyhedron.remove_redundant_inequalities'), ('_remove_equalities', GEO + '::Polyhedron._remove_equalities')],
  ['A, b, C, d after removal; the returned index list; ValueError'])

p('C10', 'Emptiness and boundedness are decided correctly',
  'A polyhedron is reported empty iff no point satisfies its constraints. It is reported bounded iff it is empty or contains no half-line, also in the presence of equality constraints.',
  ['inputs'], 'all polyhedra',
  'The tests probe a few shapes; whether a set is empty flips with the right-hand side, and boundedness along an equality-constrained direction is barely covered.',
  [('empty', GEO + '::Polyhedron.empty'), ('bounded', GEO + '::Polyhedron.bounded'), ('LP solver', PN + '::linear_program')],
  ['the properties empty and bounded'])

p('C11', 'Set inclusion is decided correctly',
  'One polyhedron is reported as included in another iff every one of its points belongs to the other (up to the tolerance); empty, lower-dimensional and unbounded sets and sets with equality constraints included. The test changes neither set.',
  ['inputs'], 'all pairs of polyhedra of the same dimension',
  'The tests check a few pairs of boxes and triangles.',
  [('is_included_in', GEO + '::Polyhedron.is_included_in'), ('LP solver', PN + '::linear_program')],
  ['return value of is_included_in'])

p('C12', 'Chebyshev centre and radius describe the largest inscribed ball',
  'The ball of the reported radius around the reported centre (within the affine hull of the equalities) satisfies every inequality, and no larger ball does. The radius is negative iff the set is empty, and radius and centre are None iff balls of any size fit.',
  ['inputs'], 'all polyhedra, with and without (independent) equalities',
  'The tests compare a few numeric sets; scaled rows and equalities change the effective norms.',
  [('_chebyshev', GEO + '::Polyhedron._chebyshev'), ('radius / center', GEO + '::Polyhedron.radius, center')],
  ['the properties radius and center'])

p('C13', 'Polyhedron answers always describe the current constraints',
  'After any sequence of constraint additions, normalisation and redundancy removal, and on copies and intersections, the emptiness, boundedness, radius, centre and vertices reported by a polyhedron are those of its current constraints, whatever was asked (and cached) before.',
  ['histories', 'inputs'], 'all interleavings of queries and modifications, all constraint data',
  'The tests query each object in one order; a stale cached answer shows only if a query precedes the modification that changes it.',
  [('cached attributes', GEO + '::Polyhedron._delete_attributes'), ('add_*', GEO + '::Polyhedron.add_inequality, add_equality, ...')],
  ['empty, bounded, radius, center, vertices after a history'])

p('C15', 'Vertex enumeration is exact',
  'For a bounded polyhedron with interior points (relative to its equalities) the reported vertices are exactly its extreme points: each satisfies all constraints, none is missing and none is repeated, also when equalities confine the set to a lower dimension. Empty and unbounded polyhedra have no vertices (None).',
  ['inputs'], 'all bounded, empty and unbounded polyhedra',
  'The tests enumerate fixed polytopes.',
  [('vertices', GEO + '::Polyhedron.vertices')], ['the property vertices'])

p('C16', 'Projection and convex hull are exact',
  'A point belongs to the projection of a bounded polyhedron onto selected coordinates (in the given order) iff it can be completed to a point of the polyhedron, and the vertices reported for the projection are its extreme points. A point belongs to the polyhedron built from the convex hull of a set of points iff it is a convex combination of them.',
  ['inputs'], 'all bounded polyhedra, coordinate selections and point sets',
  'The tests project a few fixed polytopes; the expansion of the inner approximation stops early only for particular shapes.',
  [('project_to', GEO + '::Polyhedron.project_to'), ('convex_hull_method', GEO + '::convex_hull_method, _get_two_vertices, _get_inner_simplex, _expand_simplex'), ('from_convex_hull', GEO + '::Polyhedron.from_convex_hull'), ('plane_through_points', GU + '::plane_through_points')],
  ['membership in the returned polyhedron', 'the vertices of the returned polyhedron'])

p('C17', 'The built-in LP solver returns optimal solutions with valid multipliers',
  'For every linear program the default solver returns a feasible minimiser with its cost, non-negative inequality multipliers and equality multipliers that satisfy stationarity and complementarity, and as active set the inequalities with positive multipliers. If the program is infeasible or unbounded every field is None; giving only one of C and d raises a ValueError.',
  ['inputs'], 'all costs, constraint matrices and right-hand sides, with and without equalities',
  'The tests solve a few fixed programs and check one field at a time.',
  [('linear_program', PN + '::linear_program'), ('pnnls', PN + '::pnnls')], ['the returned dictionary'])

p('C18', 'The built-in QP solver returns optimal solutions with valid multipliers',
  'For every strictly convex quadratic program the default solver returns the feasible minimiser with its cost, non-negative inequality multipliers and equality multipliers that satisfy stationarity and complementarity, and as active set the inequalities with positive multipliers. If the program is infeasible every field is None; giving only one of C and d raises a ValueError.',
  ['inputs'], 'all positive definite Hessians, costs, constraint matrices and right-hand sides, with and without equalities',
  'The tests solve a few fixed programs.',
  [('quadratic_program', PN + '::quadratic_program'), ('pnnls', PN + '::pnnls')], ['the returned dictionary'])

p('C19', 'Solver selection and the Gurobi wrappers honour the same contract',
  'The model handed to Gurobi is the program asked for (objective, free variables, inequalities, equalities, binaries as the last variables), and what is returned follows the conventions of the default solver: minimiser, cost, non-negative inequality multipliers, equality multipliers satisfying stationarity, active set, and None in every field when there is no solution. The program front ends route to the named solver with all their arguments and refuse unknown solver names with a ValueError; options given to the wrappers reach the solver.',
  ['inputs'], 'all program data, all solver outcomes',
  'The tests solve a few fixed programs on which signs and orderings can coincide.',
  [('gurobi wrappers', GR), ('front ends', PRG)], ['the model built; the returned dictionary'])

p('C21', 'The condensed optimal control problem is the optimal control problem',
  'For every mode sequence, the parametric program obtained by condensing has, at every initial state and input sequence, the cost of the trajectory (stage costs, terminal cost, constant terms included) as its objective, and its constraints hold iff every stage constraint of the visited modes and the terminal constraint hold along that trajectory.',
  ['inputs', 'histories'], 'all dynamics, offsets, weights, domains, terminal sets, mode sequences, initial states and input sequences',
  'The tests evaluate fixed numeric problems, mostly with zero offsets and one mode.',
  [('condense_optimal_control_problem', CT + '::condense_optimal_control_problem'), ('condense', DTS + '::condense_pwa_system')],
  ['the blocks H, f, g, A, b of the parametric program'])

p('C22', 'Linear MPC returns the optimal admissible input sequence',
  'For every state the feedforward inputs keep the simulated trajectory inside the stage constraints and the terminal set, no other admissible input sequence costs less, and the reported value is their cost; the feedback is the first input. Inputs, value and feedback are None iff no admissible sequence exists.',
  ['inputs'], 'all states, constraint right-hand sides, horizons; all competing input sequences',
  'The tests check a few states of one double integrator.',
  [('feedforward / feedback', CT + '::ModelPredictiveController'), ('solve', PP + '::MultiParametricQuadraticProgram.solve')],
  ['return values of feedforward and feedback'])

p('C23', 'Critical regions satisfy the optimality conditions everywhere in them',
  'For an active set with independent rows, the critical region contains exactly the parameters for which that active set satisfies the KKT conditions, and inside it the explicit input, multipliers and value equal the minimiser, multipliers and optimal cost of the program. Dependent active rows give None. The region returned for a feasible parameter contains it, a wrong active-set guess notwithstanding, and None is returned for an infeasible one.',
  ['inputs'], 'all parameters, active sets, guesses, linear cost terms and right-hand sides',
  'The tests evaluate fixed programs at fixed points.',
  [('explicit_solve_given_active_set', PP + '::MultiParametricQuadraticProgram.explicit_solve_given_active_set'), ('explicit_solve_given_point', PP + '::MultiParametricQuadraticProgram.explicit_solve_given_point'), ('CriticalRegion', PP + '::CriticalRegion')],
  ['u, p, V and the polyhedron of a critical region'])

p('C24', 'Explicit MPC agrees with implicit MPC on the whole feasible set',
  'Once the explicit solution is stored, looking up any state gives the same inputs, multipliers and value as solving the program at that state, and None iff the program is infeasible there; feedback and feedforward lookups agree. Looking up before storing raises a ValueError.',
  ['inputs'], 'all states; problems whose feasible set is bounded, contains the origin and has no degenerate facets',
  'The tests compare at a few random states; a critical region that is skipped or mis-stepped shows only inside that region.',
  [('explicit_solve', PP + '::MultiParametricQuadraticProgram.explicit_solve'), ('ExplicitSolution', PP + '::ExplicitSolution'), ('feedforward_explicit', CT + '::ModelPredictiveController.feedforward_explicit, feedback_explicit')],
  ['u, p, V of the explicit solution; feedforward_explicit, feedback_explicit'])

p('C25', 'Hybrid MPC is exactly the optimal control problem of the PWA system',
  'For every state the returned inputs, states and mode sequence form a trajectory of the piecewise-affine system: each state-input pair lies in the domain of its mode, each successor follows that mode, the last state lies in the terminal set, and the value is the cost of the trajectory. No admissible trajectory under any mode sequence costs less, and the answer is None (in every field) iff there is none; the feedback is the first input.',
  ['inputs'], 'all states, all competing mode and input sequences, offsets and right-hand sides',
  'The tests check a few states; a big-M constant that is too small cuts off only extreme trajectories.',
  [('big-M constants', CT + '::HybridModelPredictiveController._get_bigM_dynamics, _get_bigM_domains'), ('program', CT + '::HybridModelPredictiveController._condense_program, _build_inequalities'), ('solve', PP + '::MultiParametricMixedIntegerQuadraticProgram.solve')],
  ['return values of feedforward and feedback'])

p('C26', 'Fixing the modes of the hybrid problem gives the matching parametric program',
  'The parametric program of the hybrid controller for a mode sequence has, at every state, the optimal admissible input sequence among those that follow these modes as its solution and its cost as its value; its infimum over mode sequences is the hybrid value.',
  ['inputs', 'histories'], 'all states, mode sequences and competing input sequences',
  'The tests compare one sequence at one state.',
  [('get_mpqp', CT + '::HybridModelPredictiveController.get_mpqp'), ('feedforward', CT + '::HybridModelPredictiveController.feedforward')],
  ['the parametric program and its solve'])

p('C27', 'Inconsistent dimensions are refused when objects are built',
  'Building a linear, affine or piecewise-affine system from data whose dimensions do not fit together (non-square dynamics, rows of the input matrix or offset, numbers of systems and domains, differing state or input dimensions, domains of the wrong dimension), discretising with a negative step, or building or extending a polyhedron with a right-hand side that does not match the rows of its matrix or is not one-dimensional, with only one of C and d, or with blocks and bounds that do not match the selected coordinates, raises a ValueError and leaves existing objects as they were; consistent data is accepted and stored unchanged.',
  ['inputs', 'configurations'], 'all combinations of dimensions up to the bound, all entries',
  'The tests try one mismatch per constructor.',
  [('check_affine_system', DU + '::check_affine_system'), ('constructors', GEO + '::Polyhedron.__init__; ' + DTS + '::PieceWiseAffineSystem.__init__'), ('_same_number_rows', GEO + '::Polyhedron._same_number_rows')],
  ['exceptions and attributes of the constructors'])

p('C28', 'Geometry utilities: nullspace, independent rows, hyperplanes, comparisons',
  'The nullspace basis spans exactly the nullspace with orthonormal columns; the selected rows are linearly independent, and all rows are selected if they are independent; the hyperplane through n independent points has a unit normal, contains all of them and bounds away the origin with a non-negative offset; comparing rows (up to positive scale) or vectors holds iff the two collections are equal as multisets. No utility modifies its arguments.',
  ['inputs'], 'all matrices and point sets within the bounds',
  'The tests use a handful of fixed matrices.',
  [('nullspace_basis', GU + '::nullspace_basis'), ('linearly_independent_rows', GU + '::linearly_independent_rows'), ('plane_through_points', GU + '::plane_through_points'), ('same_rows / same_vectors', GU + '::same_rows, same_vectors')],
  ['return values'])

p('C29', 'A PWA system is reported well posed iff its domains do not overlap',
  'A piecewise-affine system is reported well posed iff no two of its domains share a ball of positive radius (within the common equalities), however many modes there are and in whichever order they are listed.',
  ['inputs'], 'all domains given by inequalities and independent equalities, bounded or not',
  'The tests check one well-posed and one overlapping system.',
  [('is_well_posed', DTS + '::PieceWiseAffineSystem.is_well_posed'), ('intersection, radius', GEO + '::Polyhedron.intersection, radius')],
  ['return value of is_well_posed'])

p('C30', 'The feasible set of a parametric program is the set of solvable parameters',
  'A parameter belongs to the feasible set of a parametric quadratic program iff some input satisfies the constraints at that parameter, i.e. iff solving the program there returns a solution (bounded constraint set).',
  ['inputs'], 'all parameters; programs with bounded constraint sets',
  'The tests probe a few parameters.',
  [('get_feasible_set', PP + '::MultiParametricQuadraticProgram.get_feasible_set'), ('project_to', GEO + '::Polyhedron.project_to')],
  ['membership in the returned polyhedron; solve'])

p('C31', 'Plots show the trajectories and sets they are given',
  'The plotting functions draw the given states, inputs, outputs, bounds and polyhedra at the right positions and times.',
  ['inputs'], 'all trajectories and polyhedra', 'The repository has no test for plotting.',
  [('plot', 'pympc/plot.py'), ('Polyhedron.plot', GEO + '::Polyhedron.plot')], ['the figure'])

p('C32', 'The Drake wrappers honour the same contract as the default solver',
  'Programs solved through Drake return the same kind of solution as the default solver.',
  ['inputs'], 'all program data', 'Drake is not installed, its tests are skipped.',
  [('drake wrappers', 'pympc/optimization/solvers/drake.py')], ['the returned dictionary'])

NA = {
    'C31': 'the observable is a figure produced by matplotlib; there is no assertion over program values for a solver to decide',
    'C32': 'pydrake is not installed: the module cannot even be imported here, so no counterexample could be replayed on the real code',
}

TECH = 'symbolic execution of the current source on symbolic reals, z3 decides every branch and obligation; counterexamples replayed on the real code'
NOTE = 'Holds for every value within the bounds below (exact real arithmetic). Bounds: %s. Outside: %s. Trusted: the symbolic numpy/scipy layer in vp/ (validated by replaying path witnesses on the real code), z3%s.'


def main():
    from vp import props
    checks, na = [], []
    for q in P:
        i = q['id']
        if os.path.exists(os.path.join(V, 'vp', 'props', i.lower() + '.py')) and i not in NA:
            info = props.info(i)
            a = [x for x in info['assumptions'] if x not in props.COMMON_ASSUMPTIONS]
            checks.append({'property': i, 'quick_cmd': './run.py %s --tier quick' % i, 'thorough_cmd': './run.py %s --tier thorough' % i,
                           'technique': getattr(props.mod(i), 'TECHNIQUE', TECH), 'level': 'model_checking',
                           'level_note': NOTE % (info['bounds'], info['outside'], '; ' + '; '.join(a) if a else '')})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './run.py --selftest', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: the sources are loaded unmodified. See DESIGN.md.'}, f, indent=1)
        f.write('\n')


main()
