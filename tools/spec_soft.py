B = "rainbow/simulators/prox_soft_bodies/"
P("D01", "Soft body set-up keeps a consistent scene under every sequence of calls",
  "Whatever set-up calls are made in whatever order (bodies, materials, interactions, models, masses, damping, velocities, coordinates, gravity, conditions, numbering), the engine describes exactly the scene requested: last write wins, "
  "names are unique, illegal calls are rejected without changing anything, node offsets partition the global vectors, gather and scatter are inverse, bodies do not influence each other and no array is shared with the caller.",
  ["histories"], "all histories of up to 3 (4) calls from an alphabet of valid and invalid calls after several prefixes, two bodies, three materials",
  "the tests set up one scene in one order",
  [B + "api.py", B + "types.py"], [("create_soft_body", B + "api.py"), ("materials and interactions", B + "api.py"), ("position and velocity vectors", B + "api.py")],
  "breadth-first search, every state compared with a dictionary model",
  technique="explicit-state model checking of the real code (breadth-first search over operation histories)")
P("D02", "Elastic forces of soft bodies are the exact gradient of the elastic energy",
  "For every constitutive model (corotational, Saint Venant-Kirchhoff, stable Neo-Hookean), mesh, material constants and deformation without inverted elements, the reported elastic energy is the integral of the energy density of the model and the nodal forces are exactly its negative gradient. "
  "They vanish at rest and after rigid motions, carry no net force or torque, rotate with the body, scale with the stiffness and depend on no other body; inverted elements are refused. Strain and stress measures are related by their definitions.",
  ["inputs"], "six meshes x three models x four pairs of constants x rest, rigid, linear, bending and single-node deformations; all stacks of up to three deformation gradients; all tabulated materials",
  "the tests check a few assembled matrices of one mesh for one model",
  [B + "solver.py"], [("elastic forces", B + "solver.py"), ("deformation gradient", B + "solver.py")],
  "exhaustive over the lattice; reference is dense and element by element")
P("D03", "Mass, damping, gravity, traction and boundary conditions of soft bodies",
  "For every mesh and every order of the set-up calls: the mass matrix (lumped or consistent) integrates the density exactly, its inverse inverts it, damping is the viscosity in place of the density, gravity acts on the whole mass of each body, tractions load exactly the selected surface triangles with "
  "their area, Dirichlet conditions select exactly the nodes in the given region, and parameters changed later take effect at once. Element arrays and their products stand for the assembled matrix.",
  ["inputs", "histories"], "worlds of one to three bodies over six meshes x densities x viscosities x all orders of set-up calls; all histories of up to 3 (4) changes; lattice of half spaces and balls; pairs of bodies that share a mesh in different sizes or a material",
  "the tests look at single matrices of one body",
  [B + "api.py", B + "solver.py"], [("mass matrix", B + "solver.py"), ("traction", B + "api.py"), ("dirichlet", B + "api.py")],
  "exhaustive over the lattice, dense references")
P("D04", "Soft bodies follow the equations of motion through every history of steps",
  "Without contact, every history of simulation steps and changes in between (velocity, coordinates, gravity, density, viscosity, elasticity, model, material, type, boundary conditions, new bodies) follows the semi-implicit Euler integration of the equations of motion: "
  "fixed bodies and clamped nodes do not move, free bodies keep linear and angular momentum, simulated time is split into steps of at most the requested size, bodies do not influence each other.",
  ["histories"], "all histories of up to 4 (5) operations; laws over four meshes x three models x damping x time splits",
  "the tests take single steps from one initial state",
  [B + "solver.py", B + "api.py"], [("stepper", B + "solver.py"), ("simulate", B + "api.py")],
  "breadth-first search, every state compared with a dense reference integrator",
  technique="explicit-state model checking of the real code (breadth-first search over operation histories)")
P("D05", "Contacts of soft bodies: detection, contact Jacobian and response",
  "For bodies in any pose or deformation: each contact point lies on the surface of one body at the barycentric coordinates stated, its gap is the distance to the other body within the resolution of the distance field, its unit normal points out of that body; penetrating vertices give contacts, "
  "distant bodies and parts of a body that do not meet give none. Both broad phases, all creation orders and all histories of moves and changes of type give the same contacts. Contact Jacobians measure the relative velocity of the contact point; contact impulses are opposite, lie in the friction cone of the two materials that meet, oppose sliding with full friction, and stop bodies from sinking in, with every solver.",
  ["inputs", "histories"], "5x5 meshes x icosahedral orientations x directions x depths x rigid or deformed x broad phase; drops with four solvers on fixed, clamped, half clamped and free ground; crowds of three boxes and up to three plates of four materials in all creation orders; histories of two (three) moves, squeezes and type changes of two or three bodies",
  "the tests use one pair of beams in axis-aligned positions",
  [B + "collision_detection.py", B + "solver.py", "rainbow/geometry/spatial_hashing.py"], [("contacts", B + "collision_detection.py"), ("contact jacobian", B + "solver.py"), ("contact solve", B + "solver.py")],
  "exhaustive over the lattice; exact point-mesh distances as oracle; a contact is demanded only for penetrations deeper than the grid resolves")
