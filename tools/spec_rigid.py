A = "rainbow/simulators/prox_rigid_bodies/"
P("R01", "Rigid body set-up calls keep names, references and values consistent",
  "After any sequence of set-up calls (creating shapes, bodies, hinges, forces and materials; setting pose, velocities, type, shape, density, mass, material, forces) every getter returns exactly what was last set, the objects named are the "
  "objects affected, and nothing else changes. Calls with unknown or duplicate names or illegal values are rejected and leave the engine unchanged, and arrays passed in or handed out never alias engine state.",
  ["histories"], "breadth-first over histories of up to 4 (5) calls from several prefixes over two bodies, two shapes, two forces, a hinge and three materials, merged by model state",
  "tests call each setter once on a fresh engine; order effects, aliasing and failed calls need histories",
  [A + "api.py", A + "types.py"], [("engine dictionaries keyed by name", A + "api.py"), ("shape/body/force references", A + "types.py")],
  "breadth-first search over the real API compared with a dictionary model after each call")
P("R02", "A body's model frame and body frame are two views of one placement",
  "Creating a shape moves the mesh into its principal frame without changing the modelled geometry: the world vertices of a body placed with the model frame at (r,q) are exactly the modelled vertices moved by (r,q). Reading the position or orientation in either "
  "frame returns the pose last set in that frame, and setting one component leaves the other component's meaning intact, in any sequence of such calls.",
  ["histories", "inputs"], "all sequences of up to 3 (4) placement calls in both frames with octahedral/icosahedral rotations on six shapes; all shapes under 168 rotations x offsets x scales",
  "tests place one box whose model frame is the body frame",
  [A + "api.py", A + "mass.py"], [("stored model-to-body transform", A + "api.py"), ("principal axes", A + "mass.py")],
  "exhaustive over the stated sequences; world geometry compared as a set because the choice of principal axes is free")
P("R03", "Mass, centre of mass and inertia are those of the closed mesh",
  "For every closed outward mesh the computed mass, centre of mass and inertia tensor equal the volume integrals of the enclosed solid at the given density; translation, rotation and scaling of the mesh transform them as the "
  "parallel axis, congruence and scaling laws demand; and the body frame diagonalises the tensor with a proper rotation.",
  ["inputs"], "boxes over a size lattice, all lattice tetrahedra, prisms, disjoint unions and generated meshes under all octahedral and icosahedral rotations, translations and scales",
  "tests check one or two boxes aligned with the axes",
  [A + "mass.py", A + "api.py"], [("face integrals", A + "mass.py"), ("eigen decomposition to body frame", A + "mass.py"), ("Jacobi rotations", "rainbow/math/matrix3.py")],
  "exhaustive over the catalogue against signed tetrahedra integrals", technique="explicit-state model checking of the real code (bounded exhaustive input enumeration)")
P("R04", "Rigid contact points are real, complete and independent of bookkeeping order",
  "Every contact point reported between two rigid bodies lies on one body's surface, within the collision envelope of the other, with the gap being the signed distance, the normal being a unit vector along the distance gradient and the two bodies named correctly. Bodies with a vertex "
  "inside another have a contact, bodies apart by more than the envelope have none. The set of contacts depends only on the relative placement: not on creation order, earlier steps or placements, other bodies or a common rigid motion.",
  ["inputs", "configurations", "histories"], "all pairs of five convex shapes x icosahedral orientations x three directions x five gaps; all creation orders; common motions, third bodies; all histories of up to 3 moves, type and shape changes of two or three bodies against a scene built anew",
  "tests place two boxes axis aligned once",
  [A + "collision_detection.py"], [("BVH traversal in local frame", A + "collision_detection.py"), ("minimiser on the triangle", A + "collision_detection.py"), ("contact reduction", A + "collision_detection.py")],
  "one cell of the 16-cell distance field is the accuracy of gaps; edge-edge crossings and 10 poses missed by the local search are known findings")
P("R05", "Free rigid bodies follow the documented semi-implicit Euler step",
  "A body without contacts changes in one step exactly as the documented scheme says: velocities by the forces assigned to that body (gravity, damping and gyroscopic terms), then pose by the new velocities with a unit quaternion. Fixed bodies never move, "
  "and neither other bodies nor the order of creation have any influence.",
  ["inputs", "histories", "configurations"], "all combinations of shape, orientation, velocities, force subsets, types, density and step size for one step; worlds of three bodies in all creation orders; trajectories of several steps",
  "tests drop one box under gravity",
  [A + "steppers.py", A + "api.py"], [("semi-implicit Euler", A + "steppers.py"), ("force assembly by body index", A + "api.py"), ("state storage", A + "state_storage.py")],
  "exhaustive over the stated lattice against an independent integrator written with rotation matrices")
P("R06", "Contact impulses obey momentum, non-penetration, Coulomb and restitution laws",
  "In a time step with contacts the impulses exchanged are equal and opposite (total linear and angular momentum of free bodies changes only by external forces), never pull, lie in the friction cone of the pair's coefficient, oppose sliding, remove the approach velocity (or reverse it "
  "by the restitution coefficient), and do not act on separating contacts. Energy is never created, fixed bodies do not move, swapping the creation order of the bodies leaves the result unchanged, and impacts that share no free body do not influence each other.",
  ["inputs", "configurations"], "all combinations of body pair, orientation, friction, restitution, velocity, support type, gravity, creation order and solver accuracy with contacts found by the real detection; crowds of 2-3 impacts with different materials against each one alone",
  "tests check that a step runs; no law is asserted",
  [A + "constraints/contacts.py", A + "gauss_seidel_solver.py", A + "prox_operators.py", A + "steppers.py"],
  [("Jacobian and W", A + "constraints/contacts.py"), ("proximal sweep with adaptive r", A + "gauss_seidel_solver.py"), ("friction cone projection", A + "prox_operators.py")],
  "impulses of single contacts judged against every law at tolerance 1e-10; several points: conservation and remaining approach")
P("R07", "Simulating a duration performs exactly the steps that cover it",
  "simulate(T) with step h performs steps of exactly h followed by one shorter remainder step if and only if T is not a multiple of h; the steps sum to T up to round-off, no step is of round-off length, and non-positive durations are rejected before anything changes. "
  "Simulating in several calls that end on step boundaries gives the same states as a single call. This holds for the rigid and the soft simulator.",
  ["inputs", "histories"], "all (duration, step) pairs over decimal lattices, all call sequences of length 3, through a recording stepper; real worlds stepped whole and in parts",
  "tests simulate one duration that happens to divide evenly",
  [A + "api.py", "rainbow/simulators/prox_soft_bodies/api.py"], [("time loop", A + "api.py"), ("time loop", "rainbow/simulators/prox_soft_bodies/api.py")],
  "exhaustive over the lattices; the count of steps judged with rational arithmetic")
P("R08", "Hinges stay where they are placed and leave exactly one relative rotation",
  "A hinge set in world, body or model coordinates has both its sockets at the requested point and axis for every placement of the bodies, and they follow the bodies. After a step the linked bodies have no relative velocity at the anchor and no relative spin across the axis (longer chains: up to the "
  "solver's accuracy), hinge forces do not change total momentum, exert no torque about the free axis and create no energy, and a linkage pulled apart closes again under stabilization, for every order in which bodies and hinges were created. "
  "While a linked body touches something, hinges and contacts hold in the same step: without friction the result is the least change of velocity that respects both (single hinge, up to four contacts).",
  ["inputs", "configurations", "histories"], "all placements over frames x body orientations x origins x axes; one step of all linkages up to four links in every creation order, fixed/free roots, velocity patterns; drifted linkages over 40 steps; linkages on fixed and free floors",
  "tests create one hinge between aligned boxes",
  [A + "api.py", A + "constraints/hinges.py"], [("sockets, arms, axes", A + "types.py"), ("hinge Jacobian", A + "constraints/hinges.py"), ("error reduction", A + "constraints/hinges.py")],
  "exhaustive over the stated linkages; single hinges at 1e-4, chains at the solver's accuracy; linkages in contact compared with an independent least squares solution over the detected contacts")
P("R09", "Material lookup is symmetric, total and never leaks between pairs",
  "The friction and restitution acting in a contact between two bodies are those declared for the unordered pair of the bodies' materials, or those of the default pair when that pair was not declared, whatever other pairs were declared, "
  "in whichever sequence, with the two names in whichever order, and whichever body was created first.",
  ["histories", "configurations"], "every subset of five declared pairs in both sequences and both name orders x all materials of two bodies x both creation orders; coefficients measured from real sliding impacts",
  "tests declare one pair",
  [A + "types.py", A + "api.py"], [("symmetric pair key", A + "types.py"), ("default behaviour", A + "types.py")],
  "exhaustive over the declared subsets; effective coefficients recovered from the impulse of a real impact and compared with a dictionary of unordered pairs")
P("R10", "Contact response is the least change of velocity that stops penetration",
  "Without friction, a step in contact changes velocities only by pushes along the detected contact normals, and (with up to four contacts) by exactly the least mass-weighted change (Gauss' principle) that leaves no contact approaching, whatever the shapes, orientation, depth, velocity and gravity. "
  "Position stabilization before or after the step likewise moves penetrating bodies by the least change that removes the configured part of the penetration beyond the accepted gap. Nothing that is not in contact is affected.",
  ["inputs", "configurations"], "scenes (on the ground, pair, moving support, leaning beside, tower, bystander) x shapes x orientations x depths x velocities x gravity x stabilization mode x parameters x step size",
  "tests check that a step runs; no response is compared with the solution of the contact problem",
  [A + "steppers.py", A + "constraints/contacts.py", A + "gauss_seidel_solver.py"],
  [("semi-implicit step", A + "steppers.py"), ("drift stabilization", A + "steppers.py"), ("contact Jacobian, baumgarte vector", A + "constraints/contacts.py")],
  "compared with an independent non-negative least-squares solution over the contacts the real detection reports; with more than four contacts the adaptive solver can stall, so only the direction law is judged")
SC = A + "scenes/"
P("R11", "Procedurally generated rigid scenes are geometrically sound",
  "Every scene generator (pillar, arch, dome, tower, colosseum, pantheon, temple, box stack, lattice of shapes, sandbox, funnel, glasses, jacks, poles, rock slide, ground) creates exactly the bodies it names, with the density, material and placement asked for: closed outward blocks with mass = density x volume, "
  "pairwise disjoint, each resting through a chain of touching blocks on the ground, with the dimensions and rotational symmetry asked for. Invalid dimensions are rejected, generators can be called repeatedly in one engine, and the named scenes come complete with ground, gravity and damping on every body.",
  ["inputs", "configurations", "histories"], "every combination of dimensions, counts, pose and density on a lattice per generator; all ordered pairs of generators in one engine; all named scenes",
  "tests contain no scene generator at all",
  [SC + "create_arch.py", SC + "create_dome.py", SC + "create_tower.py", SC + "create_colosseum.py", SC + "create_pantheon.py", SC + "create_temple.py", SC + "create_pillar.py", SC + "create_box_stack.py", SC + "create_lattice.py",
   SC + "create_sandbox.py", SC + "create_funnel.py", SC + "create_glasses.py", SC + "create_jack_lattice.py", SC + "create_poles.py", SC + "create_rock_slide.py", SC + "create_ground.py", SC + "create_scene.py"],
  [("curved block grids", SC + "create_arch.py"), ("stone meshes", "rainbow/geometry/surface_mesh.py"), ("named scenes", SC + "create_scene.py")],
  "pairwise separation exact by separating axes; three temples whose epistyle bricks overlap are known findings", technique="explicit-state model checking of the real code (bounded exhaustive input enumeration)")
P("R12", "Gears mesh, mail rings interlock and hinge chains hang together",
  "Generated gears are closed involute gears of the asked module, teeth and pressure angle; paired gears mesh at every phase and contact direction with little overlap and little play, turning in the ratio of their teeth, and incompatible gears are refused. Each gear of a train is hinged about its own upright axis. "
  "Chain mail rings interlock exactly with their neighbours without overlapping, pinned only at corners. Cubes of a hinge chain are disjoint, hinged where they meet, and stay together when simulated.",
  ["inputs", "configurations"], "all gears over modules, tooth numbers (6-80) and pressure angles; all ordered pairs x directions x phases; all trains, mails and chains over sizes and seeds",
  "tests contain no generator of a mechanism",
  [SC + "create_gear_train.py", SC + "create_chainmail.py", SC + "create_cube_hinge_chain.py"],
  [("gear profile", SC + "create_gear_train.py"), ("gear pairing", SC + "create_gear_train.py"), ("ring lattice", SC + "create_chainmail.py")],
  "overlap limit 0.006 modules from 12 teeth, 0.06 below (teeth of small gears are not undercut)", technique="explicit-state model checking of the real code (bounded exhaustive input enumeration)")
P("R13", "A robot read from URDF stands in its zero pose with stated masses and joints",
  "Reading a URDF file creates one body per link with a collision mesh and one hinge per revolute joint between such links. World geometry is forward kinematics of the joint origins, with the root link frame at the world frame, applied to collision origin and scaled mesh; body frames are the inertial frames, masses and principal moments those stated; "
  "hinges join parent and child at the joint's origin along its axis. The order of elements in the file, virtual links, other joint types, links that share a mesh file, files read before and existing bodies have no influence.",
  ["inputs", "configurations"], "all kinematic trees up to 4 (5) links x joint, inertial and collision origins x scales x axes x formats x all element orders x all decorations with virtual links x shared mesh files; all histories of up to 3 files read from one folder; the shipped robot",
  "tests do not read any URDF file",
  [SC + "read_urdf.py", "rainbow/math/coordsys.py"], [("tree traversal from the root", SC + "read_urdf.py"), ("frames, meshes and inertia", SC + "read_urdf.py")],
  "exhaustive over the stated trees, compared with homogeneous matrices")
P("U02", "Engines are isolated, runs are reproducible and profiling only observes",
  "Any number of engines, of the same or of different simulators, can be set up and stepped in any interleaving in one process: each evolves bit for bit as if it ran alone, whatever is set in one leaves the contents and defaults of the others and of new engines alone, and building the same scene again repeats the run whatever ran before. "
  "Profiling any subset of the steps leaves every state unchanged, and each log entry tells truthfully the step size, contacts, penetration, energies and solver convergence of its step. Timers measure exactly the time between start and end.",
  ["histories", "schedules", "configurations"], "all interleavings of two set-ups and 2 (2-4) steps each over all pairs of seven scenes; all subsets of profiled steps; all words of up to 2 (3) of the set-up operations with engines created before and after; all timer call sequences under a controlled clock",
  "tests run one engine at a time, with profiling always off or on; leaking state needs a second engine or an unprofiled step to show",
  ["rainbow/simulators/prox_rigid_bodies/steppers.py", "rainbow/simulators/prox_rigid_bodies/api.py", "rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py", "rainbow/simulators/prox_rigid_bodies/collision_detection.py",
   "rainbow/simulators/prox_soft_bodies/solver.py", "rainbow/simulators/prox_soft_bodies/api.py", "rainbow/simulators/proximal_contact/solver_interface.py", "rainbow/util/timer.py"],
  [("per-engine stepper and log", "rainbow/simulators/prox_rigid_bodies/api.py"), ("warm start and history of the solver", "rainbow/simulators/proximal_contact/solver_interface.py"), ("timer", "rainbow/util/timer.py")],
  "exhaustive over the stated interleavings with the random table of the spatial hash fixed")
P("U03", "Exported scenes and recorded animations contain exactly the engine's content",
  "A scene exported to XML contains every body, shape, material, force, hinge and parameter of the engine with its current value to the printed precision, whatever names are used; exporting is repeatable and changes nothing. "
  "A recording opened again holds each object's exact mesh and its pose or shape at every recorded time, whatever the order of the recording calls; calls for unknown objects and duplicate rigid bodies are rejected.",
  ["inputs", "histories"], "all combinations of bodies, names, values and connections exported; breadth-first over all histories of recording calls up to depth 3 (4)",
  "there is no test of the exporter nor of the recorder",
  ["rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py", "rainbow/util/USD.py"],
  [("attribute formatting", "rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py"), ("time samples and transforms", "rainbow/util/USD.py")],
  "exhaustive over the stated exports and call histories, each read back by an independent parser")
