"""Writes /verif/properties.jsonl (one place to edit titles and statements)."""
import json, os
G, U = 'pympc/geometry/polyhedron.py', 'pympc/geometry/utils.py'
PR, PN, GU = 'pympc/optimization/programs.py', 'pympc/optimization/solvers/pnnls.py', 'pympc/optimization/solvers/gurobi.py'
MP = 'pympc/optimization/parametric_programs.py'
DS, DM, DU = 'pympc/dynamics/discrete_time_systems.py', 'pympc/dynamics/discretization_methods.py', 'pympc/dynamics/utils.py'
CO, PL = 'pympc/control/controllers.py', 'pympc/plot.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})

prop('C01', 'Linear programs: right verdict and a true optimum',
     'Minimising f.x over {A x <= b, C x = d} returns a feasible point and the minimum value whenever the program is feasible and bounded below, and reports no solution (all fields None) exactly when it is infeasible or unbounded. This holds for every available solver, with and without equalities, with redundant, trivial, duplicated or no constraints.',
     ['inputs'], 'every LP (any size, any mix of equalities/inequalities, degenerate ones included)',
     'The tests solve about ten hand-picked LPs; the verdict has to be right on degenerate, empty, unbounded and flat feasible sets, in every order of the rows.',
     [PR, PN, GU], [('dispatch', PR + ': linear_program'), ('LP by strong duality and NNLS', PN + ': linear_program'), ('Gurobi back end', GU + ': linear_program')], ['linear_program return value'])
prop('C02', 'Quadratic programs: right verdict and the unique minimiser',
     'Minimising a strictly convex quadratic over {A x <= b, C x = d} returns the unique minimiser and its value whenever the feasible set is nonempty, and reports no solution (all fields None) exactly when it is empty. This holds for every available solver; for the NNLS solver it is claimed on sets with a relative interior (or identity Hessian).',
     ['inputs'], 'every strictly convex QP',
     'The tests solve a handful of QPs; wrong verdicts or non-optimal points show only for particular combinations of active rows, equalities and Hessians.',
     [PR, PN, GU], [('dispatch', PR + ': quadratic_program'), ('QP by NNLS', PN + ': quadratic_program'), ('Gurobi back end', GU + ': quadratic_program')], ['quadratic_program return value'])
prop('C03', 'Every LP/QP solution carries a valid optimality certificate',
     'The multipliers returned with a solution of an LP or a QP satisfy the KKT conditions: inequality multipliers are nonnegative and vanish on constraints that are not tight, and the gradient plus the constraint gradients weighted by the multipliers is zero. The active set lists only tight constraints and contains every constraint with a positive multiplier.',
     ['inputs'], 'every LP/QP that has a solution',
     'The tests compare multipliers on a few programs with one active row; stationarity and complementarity must hold for every optimal active set.',
     [PN, GU], [('dual solution of the NNLS problem', PN + ': linear_program, quadratic_program'), ('duals from Gurobi', GU)], ['fields multiplier_inequality, multiplier_equality, active_set'])
prop('C04', 'Mixed-integer QPs: the global optimum over all binary assignments',
     'A mixed-integer quadratic program whose trailing variables are binary returns a feasible point with those variables equal to 0 or 1 and cost equal to the best over all binary assignments, and reports no solution exactly when every assignment is infeasible.',
     ['inputs'], 'every mixed-integer QP with convex cost',
     'The tests solve one or two MIQPs; global optimality is a statement over all 2^n assignments.',
     [PR, GU], [('dispatch', PR + ': mixed_integer_quadratic_program'), ('Gurobi model', GU + ': mixed_integer_quadratic_program')], ['mixed_integer_quadratic_program return value'])
prop('C05', 'Every constructor and add-method describes exactly the stated set',
     'However a polyhedron is written (matrices, bounds on all or on selected components in any order, symbolic expressions, constraints added one by one), it is the set the description states, and the membership test accepts exactly the points of that set up to its tolerance.',
     ['histories', 'inputs'], 'every sequence of constructor and add-operations, every point',
     'The tests compare a few matrices; index lists, their order, mixed sequences and several equalities are not covered.',
     [G], [('constructors and add_*', G), ('selection of components', G), ('membership', G + ': contains')], ['A, b, C, d and contains'])
prop('C06', 'Answers about a polyhedron never depend on earlier questions or edits',
     'After any sequence of queries and changes (adding constraints, normalising, removing redundancy, copying), every query about a polyhedron answers for the set it describes now; nothing remembered from before a change is ever returned.',
     ['histories'], 'every interleaving of queries and mutations on one object (and its copies)',
     'The tests ask a query or two on a fresh object; a stale answer needs query - change - query.',
     [G], [('cached emptiness, boundedness, radius, center, vertices and their reset', G)], ['public queries after each history'])
prop('C07', 'Emptiness and boundedness are decided correctly',
     'A polyhedron is reported empty exactly when no point satisfies its constraints, and bounded exactly when it is empty or fits in a ball; the order in which the two are asked does not matter.',
     ['inputs'], 'every polyhedron', 'The tests look at a few sets; the two verdicts gate almost every other algorithm and have to be right on thin, flat, unbounded and degenerate sets.',
     [G, PR, PN], [('minimum-norm QP', G + ': empty'), ('theorem of alternatives', G + ': bounded')], ['empty, bounded'])
prop('C08', 'Set inclusion is decided correctly',
     'Asking whether one polyhedron is included in another answers yes exactly when every point of the first satisfies the constraints of the second up to the tolerance; empty and unbounded sets and equalities on either side included.',
     ['inputs'], 'every ordered pair of polyhedra', 'The tests try four pairs; the answer has to be right for every pair, including unbounded/empty/lower-dimensional ones and small margins.',
     [G], [('one LP per facet', G + ': is_included_in')], ['is_included_in'])
prop('C09', 'Intersection and Cartesian product are exactly those sets',
     'The intersection of two polyhedra is the set of points in both and the Cartesian product the set of pairs; both operands are left as they were and answers remembered by the operands are not carried over.',
     ['inputs', 'histories'], 'every pair of polyhedra, with any queries asked before', 'The tests build one intersection; equalities on either side, earlier queries on the operands and empty blocks are not covered.',
     [G], [('intersection', G), ('cartesian_product', G)], ['resulting A, b, C, d and its queries'])
prop('C10', 'Rewriting a description never changes the set, and minimal is minimal',
     'Normalising rows and removing redundant inequalities leave the described set unchanged; after removal no remaining inequality can be dropped without changing the set, and the reported minimal facets are such a list of indices (none for an empty set).',
     ['inputs'], 'every polyhedron, with and without equalities', 'The tests reduce a few descriptions; duplicates, facets touching the set in one point and equalities make the difference.',
     [G], [('one LP per facet', G + ': minimal_facets'), ('elimination of equalities', G), ('normalize', G)], ['A, b, C, d after the operation'])
prop('C11', 'Chebyshev radius and center are those of the largest inscribed ball',
     'Radius and center describe a largest ball inside the polyhedron (within the affine subspace of its equalities); the radius is negative for empty sets and both are absent when balls of any size fit.',
     ['inputs'], 'every polyhedron', 'The tests check a few boxes and triangles.',
     [G], [('LP for the ball', G), ('elimination of equalities', G)], ['radius, center'])
prop('C12', 'Vertices and convex hulls convert exactly between the two descriptions',
     'For a bounded polyhedron with relative interior the listed vertices are exactly its extreme points (nothing is listed for unbounded, empty or flat sets), and the polyhedron built from the convex hull of points contains them all and nothing outside their hull.',
     ['inputs'], 'every polytope, every finite point set with interior', 'The tests convert three small sets; equalities, degenerate vertices and trivial inequalities are not covered.',
     [G], [('halfspace intersection', G + ': vertices'), ('convex hull', G + ': from_convex_hull')], ['vertices, from_convex_hull'])
prop('C13', 'Orthogonal projection is exact for every choice of coordinates',
     'Projecting a bounded full-dimensional polyhedron onto any ordered choice of coordinates gives exactly the set of those coordinates of its points, in that order, in both its inequality and its vertex description; empty, unbounded and equality-constrained sets are refused with a ValueError.',
     ['inputs'], 'every polytope and ordered coordinate choice', 'The tests project two sets onto the first coordinates; order of coordinates, degenerate directions and higher dimensions decide.',
     [G, U], [('convex hull method', G), ('plane through points', U)], ['project_to: A, b, vertices'])
prop('C14', 'Calls never modify their arguments, and repeating a call repeats its answer',
     'No function, constructor or query modifies the arrays, lists or objects it is given (only the documented add/normalise/remove operations change the object they are called on), objects built from the same arrays stay independent, and asking the same question twice gives the same answer.',
     ['histories', 'configurations'], 'every public operation and every sharing pattern of its arguments', 'No test checks arguments after the call.',
     [G, U, PR, PN, GU, MP, DS, DM, CO], [('copy on write / copies before mutation', G), ('list of systems', DS)], ['arguments before and after'])
prop('C15', 'Linear-algebra helpers: nullspaces, independent rows, planes, row comparison',
     'The nullspace basis is an orthonormal basis of the whole nullspace, the selected independent rows are a maximal independent subset, the plane through n points in n dimensions contains exactly those points up to scaling, and comparison of row lists recognises equality up to order (and, when asked, up to positive scaling) and nothing else.',
     ['inputs'], 'every matrix / point set', 'The tests use single matrices.',
     [U], [('SVD nullspace', U), ('independent rows', U), ('plane through points', U), ('same_rows, same_vectors', U)], ['return values'])
prop('C16', 'Discretisation and symbolic construction give the stated dynamics',
     'Zero-order hold is the exact solution of the differential equation over one step with constant input (and offset), explicit Euler the first-order step, for every system and step length; systems written symbolically have exactly the coefficients written.',
     ['inputs', 'configurations'], 'every continuous-time system, step and method', 'The tests discretise one or two systems.',
     [DM, DS, DU], [('matrix exponential', DM), ('Jacobians', DS)], ['discrete A, B, c'])
prop('C17', 'Simulation and condensed prediction follow the recursion for every mode sequence',
     'For every horizon and mode sequence the condensed matrices map initial state and inputs to exactly the states of the step-by-step recursion, and open-loop and closed-loop simulation return that recursion, starting from the given state.',
     ['inputs', 'histories'], 'every mode sequence, horizon, initial state and input sequence', 'The tests condense one sequence; order of non-commuting products shows only with several modes and longer horizons.',
     [DS], [('condensed matrices', DS), ('simulators', DS)], ['condense, simulate, simulate_closed_loop'])
prop('C18', 'Piecewise-affine systems: mode, trajectory and well-posedness',
     'The mode reported for a state-input pair is a domain containing it (none exactly when no domain does), simulation applies that mode at every step and raises ValueError exactly when the pair leaves all domains, and well-posedness is true exactly when no two domains overlap by more than the tolerance.',
     ['inputs', 'histories'], 'every PWA system, initial state and input sequence', 'The tests walk one trajectory of one system.',
     [DS, G], [('mode lookup', DS), ('simulation', DS), ('pairwise intersections', DS)], ['get_mode, simulate, is_well_posed'])
prop('C19', 'LQR: the returned cost-to-go and gain are the optimal stabilising ones',
     'For every controllable system with R positive definite and (A, Q) observable the returned cost matrix is the symmetric positive definite solution of the Riccati equation, the gain attains it, and the closed loop is stable; controllability is decided correctly and uncontrollable systems are refused with a ValueError.',
     ['inputs'], 'every linear system and cost', 'The tests solve one Riccati equation.',
     [DS], [('controllability matrix', DS), ('Riccati solution and gain', DS)], ['solve_dare, controllable'])
prop('C20', 'The maximal invariant set is admissible, invariant and maximal',
     'For every stable system and bounded inequality-described constraint set with the origin in its interior, the returned set is exactly the set of initial states whose whole trajectory satisfies the constraints; unstable systems, unbounded sets and sets without the origin are refused with a ValueError.',
     ['inputs'], 'every stable system / gain and constraint set', 'The tests check invariance of one set by sampling.',
     [DS, G], [('iteration over time', DS), ('redundancy removal', G)], ['mcais (function and method)'])
prop('C21', 'MPC: the optimal admissible input sequence, and None exactly when infeasible',
     'For every state the controller returns the input sequence of minimal cost among those that keep every stage state-input pair in the stage set and the terminal state in the terminal set, together with that cost, and returns None exactly when no such sequence exists; the feedback is the first input of that sequence.',
     ['inputs', 'configurations'], 'every linear system, horizon, cost, constraint sets and state', 'The tests look at one double integrator.',
     [CO, DS, MP, PN], [('condensing', CO), ('mpQP at a point', MP)], ['feedforward, feedback'])
prop('C22', 'The explicit solution agrees with the implicit one everywhere',
     'Wherever the parametric QP is feasible the stored explicit solution returns the same minimiser and value (and valid multipliers) as solving the QP at that point, and it returns None wherever the QP is infeasible.',
     ['inputs', 'configurations'], 'every parameter value, for every strictly convex mpQP / MPC problem whose critical regions share whole facets (the documented assumption)', 'The tests compare at random points of one problem; a missing or wrong critical region is a small set.',
     [MP, CO, G], [('KKT system per active set', MP), ('exploration of neighbouring regions', MP), ('lookup', MP + ', ' + CO)], ['explicit solution u, p, V; feedforward_explicit, feedback_explicit'])
prop('C23', 'The feasible set of a parametric program is exactly where it is solvable',
     'The feasible set reported for a parametric QP is exactly the set of parameters for which some decision variable satisfies the constraints.',
     ['inputs', 'configurations'], 'every mpQP with bounded full-dimensional constraints', 'The tests check one set at random points.',
     [MP, G], [('projection', MP + ', ' + G)], ['get_feasible_set'])
prop('C24', 'Hybrid MPC: the best over all mode sequences, consistent with the dynamics',
     'For every state the hybrid controller returns an input sequence, state trajectory and mode sequence that satisfy the piecewise-affine dynamics, the domains and the terminal set, with cost equal to the minimum over all mode sequences, and None exactly when no mode sequence is feasible; the program for a fixed mode sequence is the optimal control problem of that sequence.',
     ['inputs', 'configurations'], 'every PWA system, horizon, cost, terminal set and state', 'The tests look at one system at a few states; global optimality quantifies over all mode sequences.',
     [CO, MP, GU], [('big-M constants', CO), ('mixed-integer program', CO), ('fixed-sequence program', CO)], ['feedforward, feedback, get_mpqp'])
prop('C25', 'Closed-loop MPC: recursively feasible, cost decreasing, constraints met',
     'With the LQR cost-to-go as terminal cost and the maximal invariant set of the LQR law as terminal set, from every feasible state the closed loop stays feasible at every step, satisfies the stage constraints, and the optimal cost decreases at least by the stage cost.',
     ['histories', 'inputs'], 'every feasible initial state and every step of the closed loop', 'The tests never run a closed loop; it composes every module.',
     [CO, DS, MP, G], [('terminal ingredients', DS), ('MPC', CO)], ['closed-loop trajectories'])
prop('C26', 'Malformed data is refused with ValueError and leaves objects unchanged',
     'Arguments with incoherent sizes or missing halves (matrices and right-hand sides of a polyhedron with different numbers of rows, one half of a pair of equality constraints missing, non-square or mismatched dynamics, systems and domains of different sizes or numbers, negative steps, unknown solver or method names) are refused with a ValueError, and so are operations asked of an object that cannot support them (redundancy removal on an empty polyhedron, projection of an unbounded one, the explicit controller before it is stored); the object a refused operation was called on is left exactly as it was.',
     ['inputs', 'histories'], 'every public entry point and malformed shape', 'The tests try a few error cases, none looks at the object afterwards.',
     [G, PR, DS, DU, DM, MP], [('size checks', G + ', ' + DU), ('PWA checks', DS)], ['exception type, object state after'])
prop('C27', 'Plots draw the data they are given',
     'The plotting functions draw exactly the given polyhedron (its projection on the chosen coordinates), input sequence, state trajectory or state-space trajectory, on the chosen components and with the matching labels.',
     ['inputs', 'configurations'], 'every trajectory / polytope and choice of components', 'No test covers plotting.',
     [PL, G, CO], [('plot helpers', PL), ('Polyhedron.plot', G)], ['artists on the axes'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
