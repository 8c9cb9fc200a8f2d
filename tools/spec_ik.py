I = "rainbow/simulators/inverse_kinematics/"
P("K01", "Skeletons: poses, chains and joint angles agree with the bone tree",
  "For every skeleton built through the API and after every history of adding bones, setting angles, updating and asking for derivatives: parents, children and roles match the tree, an updated bone's world pose is the product of the translations and Euler rotations on its path, "
  "chains are the paths from the root to the leaves, end effectors place the tool in the world, angle vectors read back what was set, illegal calls are rejected without effect and queries leave the skeleton unchanged.",
  ["inputs", "histories"], "all trees of up to 4 (5) bones x Euler codes in every position x angle lattice; all histories of up to 4 (5) operations from an alphabet of 19",
  "the tests fix one chain of three bones and a handful of angles",
  [I + "api.py", I + "types.py"], [("update_skeleton", I + "api.py"), ("make_chains", I + "api.py"), ("angle vectors", I + "api.py")],
  "exhaustive within the bounds; oracle is a product of 4x4 matrices and a dictionary model of the tree",
  technique="explicit-state model checking of the real code (breadth-first search over operation histories)")
P("K02", "Inverse kinematics derivatives are the derivatives of the objective",
  "For every skeleton, Euler codes, joint angles, tools and goals: the objective is half the sum of squared distances of end effectors to goals, and Jacobian, gradient and Hessian are its exact derivatives (also for branching trees, where joints are shared by chains, for several chains that end in one bone, chains that end inside the skeleton, and any order of chains). The finite difference versions "
  "agree within their truncation error and leave angles and poses unchanged; steps against the gradient lower the objective.",
  ["inputs"], "all trees of up to 4 (5) bones x Euler codes x angle lattice x tools x goals (reached, far, one per chain) x chain lists",
  "a wrong block cancels for symmetric poses; the tests compare one three-bone chain with loose tolerances",
  [I + "api.py"], [("compute_jacobian", I + "api.py"), ("compute_hessian", I + "api.py"), ("finite differences", I + "api.py")],
  "exhaustive over the lattice, differentiated analytically factor by factor",
  technique="explicit-state model checking of the real code (bounded exhaustive input enumeration)")
