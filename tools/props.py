TRUST_IDYN = "Trusts iDynTree's forward kinematics and dynamics, freshly built, as the reference."

P("V01", "Labelled variables always map to disjoint, contiguous, stable ranges",
  "After any sequence of adding, clearing, copying and writing labelled variables, every label maps to a contiguous range, the ranges are disjoint and cover the whole vector in insertion order, and duplicate or invalid labels are refused without any effect. Writing through a label, a range, an index or the whole vector changes exactly the addressed entries and is read back unchanged through every other access path.",
  ["histories"], "All operation sequences (add, write, zero, clear, copy) up to depth 5 (quick) or 6 (thorough) over clashing labels and dimensions 0 to 4.",
  "The only test adds a handful of labels once and reads them back; it never clears, copies, re-adds or interleaves writes.",
  ["include/DynamicalPlannerPrivate/Utilities/VariablesLabeller.h", "src/private/VariablesLabeller.cpp"],
  [("label map and running size", "src/private/VariablesLabeller.cpp")],
  "explicit-state enumeration of operation histories on the real class against a list model",
  "Exhaustive up to the depth; the model is replayed step by step against the implementation.")

P("V02", "A levi expression evaluates to the mathematical value of its formula",
  "For every well-sized combination of the levi operators (sums, products, quotients, powers, transpose, skew and vee, rows, columns, blocks, elements, concatenations, vector assembly, casts between sizes) over variables and constants of dynamic or fixed size, the expression has the size of the formula and evaluates to its value, now and after every reassignment of the variables, whichever sub-expressions it shares and in whatever order they are evaluated.",
  ["inputs", "histories"], "All expression terms of depth 2, all sums and all products of up to 4 operands of a family, over 9 leaves, and all accessor/operator combinations of fixed-size operands, each over a history of 3 assignments (thorough: bigger operand families).",
  "The tests check a few dozen hand-picked formulas; simplifications (null, identity, transposed transposes, chained accessors) trigger on combinations of operators.",
  ["extern/levi/include/levi/OperatorsEvaluables.h", "extern/levi/include/levi/AccessorEvaluables.h", "extern/levi/include/levi/BasicEvaluables.h", "extern/levi/include/levi/Expression.h", "extern/levi/include/levi/ExpressionImplementation.h", "extern/levi/include/levi/AdvancedConstructors.h", "extern/levi/include/levi/AddendsExpander.h"],
  [("simplifications of null and identity operands, skipped re-evaluation of unchanged operands", "extern/levi/include/levi/ExpressionImplementation.h, OperatorsBase.h")],
  "exhaustive enumeration of expression terms and assignment histories on the real code against direct evaluation of the formula",
  "Terms whose value is out of range (division by a small number, overflow) are skipped.")

P("V03", "First and second derivatives of a levi expression are those of its formula",
  "For every well-sized combination of the levi operators and every variable, the column derivatives and their derivatives have the declared sizes and equal the mathematical derivatives of the formula, now and after every reassignment of the variables. An expression depends on a variable whenever its derivative with respect to it is not identically zero.",
  ["inputs", "histories"], "All expression terms of depth 2, all sums and products of a family, and all combinations of fixed-size operands; every column, every variable, first and second derivatives, over a history of assignments.",
  "The tests check derivatives of a few formulas by finite differences; simplifications and dependency bookkeeping depend on combinations of operators.",
  ["extern/levi/include/levi/OperatorsEvaluables.h", "extern/levi/include/levi/AccessorEvaluables.h", "extern/levi/include/levi/BasicEvaluables.h", "extern/levi/include/levi/Evaluable.h", "extern/levi/include/levi/AdvancedConstructors.h"],
  [("per-operator derivative rules and dependency sets", "extern/levi/include/levi/OperatorsEvaluables.h: getNewColumnDerivative; DependenciesSet.h")],
  "exhaustive enumeration of expression terms on the real code against forward-mode (second order jets) differentiation of the formula",
  "Terms whose value or derivatives are out of range are skipped.")

P("V04", "Levi caches never serve a stale value, derivative or freshness flag",
  "After any history of assigning variables and mutables, evaluating expressions and their operands in any order, re-binding, emptying and copying handles, requesting first and second derivatives, clearing derivative caches and rebuilding on shared operands, every evaluation returns the value of the formula (or derivative) at the current values. A variable made from an expression follows it, with derivatives that account for it exactly when it was declared dependent. An expression reported as not new has the value last read.",
  ["histories"], "All histories of 4 operations out of 20 for 86 templates covering every operator over variables, mutables and variables following expressions (thorough: 114 more templates and depth 5 for a subset).",
  "Staleness needs a specific order of assignments, evaluations through different owners and re-bindings; tests evaluate once per assignment.",
  ["extern/levi/include/levi/Registrar.h", "extern/levi/include/levi/Evaluable.h", "extern/levi/include/levi/ExpressionImplementation.h", "extern/levi/include/levi/AdvancedConstructors.h", "extern/levi/include/levi/Variable.h"],
  [("evaluation registers, recycled caller IDs, dependency chain", "extern/levi/include/levi/Registrar.h: isNew, getNewCallerID, dependenciesChecked"), ("derivative cache", "extern/levi/include/levi/Evaluable.h: getColumnDerivative")],
  "exhaustive enumeration of operation histories on the real code against direct evaluation of the formula at the current values",
  "Two values per variable; single thread.")

P("V05", "Squeezed expressions evaluate exactly as the expressions they replace",
  "A squeezed expression, a set of expressions squeezed together, and an expression which contains a squeezed one have the value of the original expressions after every sequence of assignments and evaluations, in whatever order the squeezed and the original expressions are evaluated and whichever sub-expressions they share.",
  ["inputs", "histories"], "All expression terms of depth 2, all sums of 3 and products of 4 operands of a family, squeezed alone, with their derivative, and together with their operands and variants; every variable assigned in turn, several evaluation orders.",
  "The tests squeeze one expression; the tree expansion merges equal sub-trees and dispatches on operator types and sizes.",
  ["extern/levi/include/levi/SqueezeEvaluable.h", "extern/levi/include/levi/MultipleSqueezedExpressions.h", "extern/levi/include/levi/TreeExpander.h"],
  [("merging of equal sub-trees and evaluation by operator type", "extern/levi/include/levi/TreeExpander.h, SqueezeEvaluable.h")],
  "exhaustive enumeration of expression terms, assignment histories and evaluation orders on the real code against direct evaluation",
  "Derivatives of squeezed expressions are not offered by the library. Compiled expressions (run-time code generation) are not covered.")

P("V06", "Kinematic queries depend only on the state asked for, never on the history",
  "Every kinematic or dynamic quantity asked of the shared kinematics at a robot state equals the quantity of that state for the current robot model, base link and gravity, whatever states, frames and quantities were asked before. Joint derivatives (of the momentum, of the centre of mass Jacobian, of frame velocities, of the static torques) equal the derivatives of the quantities they differentiate. Re-configuration (base link, gravity, model reload) and copies take effect immediately.",
  ["histories", "inputs"], "All histories of queries (every query kind, frame and representation) and configuration changes up to depth 2 (full alphabet) and 4 (reduced alphabet), over states that differ in all or exactly one component.",
  "The tests evaluate a few derivatives at random states in one order; they do not revisit states, change the configuration or differ in a single component.",
  ["src/private/SharedKinDynComputations.cpp", "include/DynamicalPlannerPrivate/Utilities/SharedKinDynComputations.h", "src/private/QuaternionUtils.cpp"],
  [("skip of the update when the state is the same", "src/private/SharedKinDynComputations.cpp: sameState, updateRobotState"), ("infos of the joints and derivative computation", "src/private/SharedKinDynComputations.cpp")],
  "exhaustive enumeration of query/configuration histories on the real code against a fresh-computation oracle",
  TRUST_IDYN + " Derivatives are judged against central finite differences (1e-6).")

P("V07", "Concurrent kinematic queries behave as if executed one at a time",
  "When several callers query or re-configure one shared kinematics object concurrently, every answer equals the answer for the state that caller asked for, under some sequential order of the re-configurations. No schedule deadlocks or corrupts the object for later callers.",
  ["schedules"], "All schedules with at most 2 (quick) or 3 (thorough) preemptions of 2 threads x 1 and x 2 operations and 3 threads x 1 operation, over all pairs of operations.",
  "No test runs two threads; the interleavings of a stress test would be a sample.",
  ["src/private/SharedKinDynComputations.cpp"], [("mutex taken in every query", "src/private/SharedKinDynComputations.cpp")],
  "stateless model checking: preemption-bounded exploration of all schedules of the real code under a controlled scheduler",
  "Scheduling points are mutex operations and every call into the dynamics library; sequentially consistent memory. " + TRUST_IDYN)

P("V08", "A time is served by the kinematics of its nearest mesh instant",
  "For any strictly increasing mesh and any sequence of query times, a query is served by the instance of the nearest instant of the current mesh, distinct instants have distinct instances, and the order of earlier queries does not matter. Changes of the mesh, robot model, base link, gravity and tolerance apply to every instance served afterwards.",
  ["histories", "inputs"], "All query sequences of length 3 (4 thorough) on each mesh of a family including all subsets of a grid, and all histories of mesh changes, queries and re-configurations up to a depth.",
  "The solver tests query one mesh in one order; nothing compares the chosen instance with the nearest one after arbitrary earlier queries.",
  ["src/private/TimelySharedKinDynComputations.cpp", "include/DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h"],
  [("search of the closest instant starting from the previous one", "src/private/TimelySharedKinDynComputations.cpp: get")],
  "exhaustive enumeration of query and configuration histories on the real code against an exhaustive-search model",
  "A tie, or a query within 1e-9 of one, may go either way. " + TRUST_IDYN)

P("V09", "Robot expressions have the value and derivatives of the current state",
  "Every expression offered by the expression server (base rotation and twist, transforms, adjoints, Jacobians, relative and absolute velocities, orientation errors, centre of mass, inertias, momentum, and their derivatives) evaluates to the corresponding kinematic quantity of the robot state the server was last updated to, and its first and second derivatives with respect to the state variables are the derivatives of that quantity. This holds for every frame pair, base link, model, update and request order, and whichever expressions were requested or evaluated before.",
  ["histories", "inputs"], "Every expression of the catalogue x frame pairs x base links x models x generic states with all first and second derivatives, and all histories up to depth 4 (5 thorough) of state updates at two instants, time-only updates, foreign kinematic queries and evaluations in both orders.",
  "The tests compare single expressions at random states with one server each, and never request clashing frames, return to an earlier instant, or mix updates with foreign queries.",
  ["src/private/ExpressionsServer.cpp", "src/private/AdjointTransformExpression.cpp", "src/private/RelativeJacobianExpression.cpp", "src/private/MomentumInBaseExpression.cpp", "src/private/CoMInBaseExpression.cpp", "src/private/AbsoluteVelocityExpression.cpp", "src/private/QuaternionErrorExpression.cpp"],
  [("update skipped when the state is the same; memoised expressions", "src/private/ExpressionsServer.cpp"), ("hand-written derivatives", "src/private/*Expression.cpp")],
  "exhaustive enumeration of expressions and update/evaluation histories on the real code against a fresh kinematics computation",
  TRUST_IDYN + " Derivatives are judged against central differences (2e-6 first, 3e-5 second). The joints derivative of the momentum of a foreign twist variable is out of scope: the code defines it at the twist of the state.")

P("V10", "Vertex forces of a rectangular foot reproduce the wrench they are asked for",
  "For every wrench with a positive normal force the returned vertex forces sum up to the requested force and moment (with a single loaded vertex, the torsional moment excepted), wherever the centre of pressure is, and their normal components are non-negative whenever it is inside the foot. The normal ratios of the vertices sum to one and reproduce the centre of pressure, an unloaded foot gets zero forces, and the vertex positions are the rectangle moved by the frame transform. Invalid geometries are refused without effect, and an answer never depends on earlier calls.",
  ["inputs", "histories"], "All centres of pressure, loads, tangential forces and torques on a grid, four geometries, and all call histories up to a depth.",
  "The test checks a few random wrenches on one geometry with a fresh object.",
  ["src/RectangularFoot.cpp", "include/DynamicalPlanner/RectangularFoot.h"], [("ratios of the vertices", "src/RectangularFoot.cpp: getPositions, getForces, getForcesRatios")],
  "exhaustive enumeration of wrench grids and call histories on the real code against a statics oracle", "Tolerance 2e-6 of the load.")

P("V11", "Settings are accepted exactly when they are consistent, and stored unchanged",
  "A settings structure is accepted exactly when every active task and constraint has admissible parameters, references and weights of the right size for the robot; accepted settings are returned field by field as given, and a refused structure leaves the stored settings and their validity untouched. The default settings are deterministic and accepted.",
  ["inputs", "configurations", "histories"], "All combinations of up to two (thorough: three) single-field edits at and beyond each validity limit of an all-active and an all-inactive structure, and all import histories up to a depth.",
  "No test edits settings to be invalid.",
  ["src/Settings.cpp", "include/DynamicalPlanner/Settings.h"], [("consistency checks", "src/Settings.cpp: isValid / setFromStruct")],
  "exhaustive enumeration of configuration edits and import histories against an executable specification", "NaN values are not edited in.")

P("V12", "The walking references follow the state machine of their specification",
  "Whatever the sequence of observed robot states and elapsed times, a new step is planned at the end of the horizon exactly when the current one ends early enough and the predicted feet centroid reaches it (or the wait exceeded twice its duration); it replaces the current step only when the forward foot is loaded enough and the remaining time is below the minimum. References move only by the configured increment, intervals shift by the elapsed time as specified, and repeated initialisation starts over while a refused one changes nothing.",
  ["histories", "inputs"], "All update sequences up to depth 4 (5 thorough) over 32 update kinds for four parameter sets, plus breadth-first search over the reachable plans.",
  "No unit test drives the reference updates over more than one sequence.",
  ["src/PositionReferenceGenerator.cpp", "src/Utilities.cpp", "include/DynamicalPlanner/PositionReferenceGenerator.h", "include/DynamicalPlanner/Utilities.h"],
  [("step phases", "src/Utilities.cpp / src/PositionReferenceGenerator.cpp")],
  "explicit-state exploration of a reference machine replayed step by step against the implementation",
  "Elapsed times are binary fractions so that the model computes exact times.")

P("V13", "Position references and their weights are those of the active interval",
  "At every time the reference position is the one of the interval containing that time (zero when none is active), and its weight goes from the initial to the final value over the interval and is finite for every admissible interval. Editing a reference is visible to every time-varying object obtained before or after, and queries never influence later ones.",
  ["histories", "inputs"], "All assignments of overlapping, nested, instantaneous and unbounded intervals to up to 3 (4 thorough) references, all weight growth factors and query orders on a grid, and all edit histories up to a depth.",
  "Tests use one reference active at any time.",
  ["src/PositionReferenceGenerator.cpp", "include/DynamicalPlanner/PositionReferenceGenerator.h"], [("choice of the active reference, increasing weight", "src/PositionReferenceGenerator.cpp")],
  "exhaustive enumeration of interval assignments and edit histories on the real code against a reference function",
  "For intervals of zero or unbounded length only finiteness and the range of the weight are required.")

P("V18", "Robot state, control and initial-state utilities return what they were given",
  "State and control containers keep every value written through any resize, zero and copy history and report the declared sizes; the feet pose and centroid computed from contact points, the initial state filled from joint positions and base pose, and the state guess at any time agree with forward kinematics and the configured references. Inconsistent arguments are refused and leave the outputs usable.",
  ["histories", "inputs"], "All resize/zero/write/copy histories up to a depth, all placements of contact points on a grid, initial states over a grid of configurations and base poses, all query histories on the state guess.",
  "The tests use these helpers on one configuration as set-up and never judge their output.",
  ["src/State.cpp", "src/Control.cpp", "src/Utilities.cpp"], [("containers", "src/State.cpp, src/Control.cpp"), ("fill of the initial state, guesses", "src/Utilities.cpp")],
  "exhaustive enumeration of histories and configurations on the real code against a reference model", TRUST_IDYN)

COMP_FILES_C = ["src/private/CentroidalMomentumConstraint.cpp", "src/private/CoMPositionConstraint.cpp", "src/private/ContactPositionConsistencyConstraint.cpp", "src/private/FeetLateralDistanceConstraint.cpp", "src/private/FeetRelativeHeightConstraint.cpp", "src/private/QuaternionNormConstraint.cpp", "src/private/PlanarVelocityControlConstraints.cpp", "src/private/NormalVelocityControlConstraints.cpp", "src/private/DynamicalComplementarityConstraint.cpp", "src/private/ClassicalComplementarityConstraint.cpp", "src/private/ClassicalPlanarComplementarityConstraint.cpp", "src/private/ContactForceControlConstraints.cpp", "src/private/ContactFrictionConstraint.cpp"]
COMP_FILES_K = ["src/private/%sCost.cpp" % x for x in ("CoMVelocity", "Complementarity", "FeetDistance", "FootYaw", "ForceMean", "ForceRatio", "FrameAngularVelocity", "FrameOrientation", "JointsVelocityForPostural", "MeanPointPosition", "PhantomForces", "StaticTorques", "Swing")]
COMP_FILES_D = ["src/private/DynamicalConstraints.cpp", "src/private/HyperbolicTangent.cpp", "src/private/HyperbolicSecant.cpp"]

P("V16", "Answers of constraints, costs and dynamics do not depend on earlier calls",
  "The constraints, the costs and the dynamics share one robot and one expression server per instant. Whichever functions (value, first and second derivatives) of whichever of them were called before, at whichever states, controls and times, each call returns what it would return if it were the first one: the quantity at the state, control and time it is given, also when only part of them (for example the velocities or the time) changed since the last call.",
  ["histories"], "All call sequences a, b, a with a and b any of 11 components x 6 functions x 5 points (thorough: all sequences a, b, a, c, b, a over 7 points and 3 robots), without ever resetting the shared robot.",
  "The tests evaluate each component alone, at one or a few random points, in the order of one integrator.",
  COMP_FILES_C[:4] + COMP_FILES_K + COMP_FILES_D[:1] + ["src/private/SharedKinDynComputations.cpp", "src/private/ExpressionsServer.cpp"],
  [("skipped updates when the variables are the same", "src/private/*Constraint.cpp: sameVariables / updateVariables"), ("shared robot state", "src/private/SharedKinDynComputations.cpp")],
  "exhaustive enumeration of call histories on the real components against a process in which the call is the first",
  "Answers equal to 1e-9. " + TRUST_IDYN)

P("V17", "Every constraint has the value and bounds of its definition",
  "At every state, control and time each constraint evaluates to its definition: measured minus commanded angular momentum about the centre of mass, centre of mass and contact point positions; squared quaternion norm minus one; difference of the mean heights of the feet; a coordinate of one foot relative to the other; activation-limited planar and normal velocities; dynamical and classical complementarity; controlled contact force; friction cone with the configured coefficient. Sizes, bounds, tolerances and feasibility answers are those configured.",
  ["inputs", "histories"], "Every constraint of every foot and contact point on 3 robots: 16 points (boundaries included), every single-variable change around the generic ones and back, 3 times.",
  "The tests only compare derivatives with values, so a wrong value with consistent derivatives passes.",
  COMP_FILES_C, [("evaluateConstraint and the bounds set by the constructors", "src/private/*Constraint*.cpp")],
  "exhaustive enumeration of points and single-block changes on the real constraints against independent formulas",
  "Relative tolerance 1e-7. " + TRUST_IDYN)

P("V19", "Every cost has the value of its definition",
  "At every state, control and time each cost evaluates to its definition with the configured weights and the references at that time: squared distance of a contact force from the mean of the foot or from its desired share, swing height times velocity, phantom forces, complementarity, distance between the feet, mean contact point from its target, orientation and angular velocity of a frame, joint velocities for postural, centre of mass velocity, joint torques balancing gravity and contact forces, and foot yaw (zero for a rectangular foot at the desired yaw).",
  ["inputs", "histories"], "Every cost of every foot and contact point on 3 robots: 16 points (boundaries included), every single-variable change around the generic ones and back, 3 times with time-varying references and weights.",
  "The tests only compare derivatives with values, with constant references at one time.",
  COMP_FILES_K, [("costEvaluation", "src/private/*Cost.cpp")],
  "exhaustive enumeration of points and single-block changes on the real costs against independent formulas",
  "Relative tolerance 1e-7. The frame angular velocity cost adds a body-fixed velocity and an error in inertial coordinates: taken as its definition. " + TRUST_IDYN)

P("V20", "First derivatives of constraints, costs and dynamics are those of their values",
  "At every state, control and time, the Jacobians and gradients with respect to state and control returned by every constraint, every cost and the dynamics are the derivatives of the value that the same component returns, in every row and column, including the columns that must be zero and including unnormalised quaternions and points on the boundary of the domain.",
  ["inputs"], "Every component of every foot and contact point on 3 robots, 16 points and single-variable changes: all entries of both first derivatives.",
  "The derivative tests perturb at a few random points with one point distribution and configuration.",
  COMP_FILES_C + COMP_FILES_K + COMP_FILES_D, [("constraintJacobianWRT*, costFirstPartialDerivativeWRT*, dynamics*FirstDerivative", "src/private/")],
  "exhaustive enumeration of components, points and columns on the real code against central differences of its own values",
  "Relative tolerance 2e-5.")

P("V21", "Declared sparsity patterns cover every nonzero derivative entry",
  "For every constraint, every cost and the dynamics, the declared sparsity of each first and second derivative contains every entry that can be nonzero, in the returned matrices as well as in the true derivatives, and every declared index lies inside the matrix. Solvers only read the declared entries, so anything outside would be silently dropped.",
  ["inputs"], "Every component of every foot and contact point on 3 robots, points of the family: all entries outside the five declared patterns.",
  "The sparsity test compares one configuration at random points for the whole problem, where another component may mask a missing entry.",
  COMP_FILES_C + COMP_FILES_K + COMP_FILES_D, [("*Sparsity members set up by the constructors", "src/private/")],
  "exhaustive enumeration of components, points and undeclared entries on the real code, analytically and by central differences",
  "An entry counts as nonzero above 1e-12 (returned) or 1e-5 (numerical).")

P("V22", "Second derivatives of constraints, costs and dynamics are those of their values",
  "At every state, control and time and for all multipliers, the Hessians with respect to state, control and both returned by every constraint, every cost and the dynamics are the derivatives of the (multiplier-weighted) first derivatives of the same component, in every entry, independently of which function was evaluated before.",
  ["inputs"], "Every component (the static torques cost excepted, which declares none) of every foot and contact point on 3 robots, 16 points and single-variable changes, generic and unit multipliers: all entries.",
  "The Hessian tests use a few random points, equal parameters for both axes and one multiplier vector.",
  COMP_FILES_C + COMP_FILES_K + COMP_FILES_D, [("*SecondPartialDerivativeWRT*", "src/private/")],
  "exhaustive enumeration of components, points, multipliers and entries on the real code against central differences of the first derivatives",
  "Relative tolerance 2e-5.")

P("V23", "The dynamics is the one of a robot with contact forces at its contact points",
  "At every state, control and time the derivative of the state is: momentum from gravity and all contact forces and their moments about the centre of mass; centre of mass from the momentum over the mass; contact points from their velocity controls, the planar ones scaled by the activation of their height; contact forces from their controls, the normal one activated near the ground and dissipated away from it; base position from the rotated base velocity; base quaternion and joints from their controls. Disabled activations do not change the controls.",
  ["inputs", "histories"], "Both activations on and off, 3 robots, 16 points, every single-variable change around the generic ones and back, 3 times.",
  "The dynamics tests check derivatives of the returned values, not the values.",
  COMP_FILES_D, [("dynamics", "src/private/DynamicalConstraints.cpp")],
  "exhaustive enumeration of configurations, points and single-block changes on the real code against an independent formula",
  "Relative tolerance 1e-7. " + TRUST_IDYN)

P("V15", "The nonlinear programme solved is the one the settings describe",
  "Whatever valid settings, initial state, guesses, integrator and optimizer are given, the problem handed to the optimizer is the one they describe: instants from the initial time over the horizon within the step and control period bounds; variables starting from the guesses, the first state fixed to the initial one; bounds of contact points, forces, momentum, centre of mass, joints and controls, and their switch-off after the active part of the horizon; a cost that is the weighted sum of exactly the active costs, each in its range of activity; and exactly the configured constraints and dynamics with their tolerances.",
  ["inputs"], "Every single cost, every pair of costs, all costs and all but one, every complementarity x planar complementarity x integrator, time grids x active part x initial time, ranges of activity, infinities and moments of setting the optimizer, gravities and bases, frames and lateral direction: 565 configurations, each row of the programme at two generic points.",
  "No test builds a Solver with more than one configuration, and none looks at the programme handed to the optimizer.",
  ["src/Solver.cpp", "src/Settings.cpp", "src/private/DynamicalConstraints.cpp", "src/private/ExpressionsServer.cpp", "src/private/TimelySharedKinDynComputations.cpp"],
  [("setCosts, setConstraints, setBounds", "src/Solver.cpp"), ("specifySettings, solve", "src/Solver.cpp")],
  "exhaustive enumeration of configurations on the real solver with a scripted optimizer, against an independent statement of the programme",
  "The optimizer is scripted: only what is handed to it is judged. The transcription (multiple shooting) of iDynTree is taken as it is; its layout is read off coded guesses. " + TRUST_IDYN)

P("V14", "A solver used again answers as a fresh one with the same inputs",
  "Whatever sequence of settings, guesses, initial states, optimizers, integrators and solves a solver went through, the next solve hands the optimizer the same problem, the same starting point and returns the same decoded states, controls and timings as a solver created for the current settings, initial state, guesses (or the previous solution after the first solve) and optimizer. A refused call changes nothing; a specification which fails midway leaves no mixture of settings, and nothing is solved before valid settings are given.",
  ["histories"], "Breadth-first search of the solver state machine (settings of three kinds and dimensions, optimizers, integrators, initial state, guesses, solves, failures): every state and operation, followed by probes; all histories of 2 (thorough: 4) of 12 operations after a prepared solver.",
  "No test uses a Solver twice; stale vectors, guesses and flags need a second specification with other dimensions, a failure, or a new optimizer.",
  ["src/Solver.cpp", "include/DynamicalPlanner/Solver.h"],
  [("prepared, firstRun, guesses and solution vectors", "src/Solver.cpp: specifySettings, setOptimizer, setGuesses, solve")],
  "explicit-state exploration of an abstract solver machine, each transition replayed on the real solver with a scripted optimizer",
  "The optimizer is scripted: it records the programme and returns coded solutions or failures.")

P("V24", "Derivatives and sparsity of the whole programme are those of its values",
  "For every configuration, the gradient of the cost, the Jacobian of the constraints and the Hessians handed to the optimizer are the derivatives of the cost and constraints of the same programme at every point, every entry that can be nonzero is declared in the Jacobian and Hessian sparsity, and the declared indices lie inside the matrices.",
  ["inputs"], "171 configurations (thorough 646) of costs, constraints, complementarities, integrators and time grids: all entries of the gradient, the Jacobian and the Hessian at generic points, and all entries outside the declared sparsity.",
  "The sparsity test looks at one configuration at random points, and no test differentiates the whole programme.",
  ["src/Solver.cpp"] + COMP_FILES_C + COMP_FILES_K + COMP_FILES_D,
  [("components assembled with weights, ranges and sparsity", "src/Solver.cpp: setCosts, setConstraints")],
  "exhaustive enumeration of configurations and entries on the real solver with a scripted optimizer against central differences of the programme itself",
  "Relative tolerance 2e-5. The static torques cost declares no Hessian.")

P("V25", "Compiled expressions evaluate exactly as the expressions they replace",
  "An expression compiled at run time, alone or in a set compiled together, has the size and the value of the original expression after every sequence of assignments, whatever sub-expressions its operands share, whatever name it is given, whichever expressions were compiled before (also under the same name), and when it is used inside other expressions.",
  ["inputs", "histories"], "Terms of depth 1 compiled alone and in sets of 2, 7 and 40 with their derivatives; 10,000 unary and 40,000 binary terms of depth 2, sums, products, negated products, powers with non-decimal exponents and long sums in sets; names; the same name twice; every variable assigned in turn (thorough: all 117,000 terms of depth 2, longer sums and products).",
  "The only test compiles one rotation and its derivatives; the generated source merges equal sub-expressions as text, and depends on the combination of operators.",
  ["extern/levi/include/levi/AutogeneratedHelper.h", "extern/levi/include/levi/AutogeneratedEvaluable.h", "extern/levi/include/levi/MultipleCompiledExpressions.h", "extern/levi/include/levi/TreeExpander.h"],
  [("generation of the source and of common sub-expressions", "extern/levi/include/levi/AutogeneratedHelper.h: expandElement, getLiteralExpression")],
  "exhaustive enumeration of expression terms, sets and assignment histories on the real code generator against direct evaluation",
  "The generated source is built with g++ -O0 by a script which stands for cmake.")
