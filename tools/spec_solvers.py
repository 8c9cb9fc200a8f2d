C = "rainbow/simulators/proximal_contact/"
P("S01", "Contact graphs are exact and every colouring separates neighbours",
  "The contact graph joins two contacts exactly when they share a rigid body (or a node of their tetrahedra for soft bodies). Greedy and random colouring give every contact exactly one colour and never the same colour to two neighbours, for every graph and "
  "for every outcome of the random choices and every iteration limit; the greedy colouring lists the exact index block of each contact.",
  ["inputs", "schedules"], "all assignments of up to 3 (4) contacts to body pairs and tetrahedra; all labelled graphs up to 6 nodes (greedy); all labelled graphs up to 5 (6) nodes with all outcomes of all random choices",
  "the tests colour one path of five nodes with one random seed",
  [C + "blocking.py"], [("edge test", C + "blocking.py"), ("palettes and stale colours", C + "blocking.py")],
  "exhaustive over graphs and random outcomes within the bounds (choice points of numpy's generator are enumerated depth first)",
  technique="stateless model checking of the real code (all outcomes of nondeterministic choices)")
P("S02", "Friction projections return the nearest point of the friction set",
  "The proximal operators map every point to the nearest point of the friction set: the ball of radius mu times normal force (rigid and contact versions), the origin, and the ellipsoid with one coefficient per direction. Points inside stay unchanged, "
  "without normal force the result is zero, and the projections are idempotent and non-expansive.",
  ["inputs"], "direction lattice x radii (inside, on, outside, tiny, huge) x coefficients x normal forces; all pairs for non-expansiveness",
  "there is no test of any operator",
  [C + "proximal_operators.py", "rainbow/simulators/prox_rigid_bodies/prox_operators.py"], [("radial scaling", C + "proximal_operators.py"), ("bisection for the ellipsoid", C + "proximal_operators.py")],
  "exhaustive over the lattice; ellipsoids with all coefficients positive or all zero, compiled functions run as Python code",
  technique="explicit-state model checking of the real code (bounded exhaustive input enumeration)")
P("S03", "Parallel contact solvers are schedule independent and solve the contact laws",
  "The result of each contact solver (Gauss-Seidel, parallel Gauss-Seidel, parallel Jacobi, hybrid Jacobi) does not depend on how the iterations of its parallel loops are interleaved nor on the number of threads. A parallel Gauss-Seidel sweep equals a serial one in the order of the colours, a Jacobi sweep uses "
  "the previous iterate throughout (the hybrid one: the new normal force for friction). Converged impulses never pull, leave no approach velocity, stay in the friction cone and oppose sliding.",
  ["schedules", "inputs"], "all contact topologies of up to 3 (4) contacts over 4 bodies (rigid, fixed, soft) x velocity patterns x friction x scheme; all orders of parallel iterations with recorded memory footprints; compiled code on 1, 2, 3, 4, 8 threads",
  "a race or an update lost between colours shows only under particular schedules and contact graphs; no test runs the parallel solvers",
  [C + "gauss_seidel_solver.py", C + "jacobi_solver.py", C + "solver_interface.py", C + "blocking.py"],
  [("parallel loop over a colour", C + "gauss_seidel_solver.py"), ("parallel loop over contacts", C + "jacobi_solver.py"), ("r-factor strategy and roll-back", C + "solver_interface.py")],
  "controlled scheduler with partial order reduction (independence of iterations checked on cell footprints, all iteration orders executed), bound to the compiled code by a conformance run on several thread counts",
  technique="stateless model checking with partial order reduction of the real code under a controlled scheduler")
