P("G03", "Barycentric coordinates and tetrahedron geometry are exact and self-consistent",
  "For every non-degenerate edge, triangle and tetrahedron the barycentric coordinates of a point sum to one, reproduce the point (or its closest point on the simplex' span) and classify points in the interior as inside "
  "and points beyond a face as outside. Signed volume, circumscribed and inscribed spheres, coordinate gradients and interior sample points agree with these coordinates.",
  ["inputs"], "all lattice simplices up to the bound under several rigid motions and scales, all barycentric lattice points and off-span offsets",
  "tests check a dozen fixed points; classification of computed (rounded) coordinates is never exercised",
  ["rainbow/geometry/barycentric.py", "rainbow/geometry/tetrahedron.py"],
  [("coordinates by linear solve/projection", "rainbow/geometry/barycentric.py"), ("inside tests", "rainbow/geometry/barycentric.py"), ("sphere constructions", "rainbow/geometry/tetrahedron.py")],
  "exhaustive over the stated lattices with floating point tolerances; points exactly on a face are not judged")
P("G04", "Regular grids: indexing, reconstruction, gradient and signed distances agree",
  "Node indices, node coordinates and enclosing cells of a regular grid are mutually consistent and one-to-one, and reconstruction is the multilinear interpolation of the nodal data with the gradient being its true derivative, "
  "continued from the closest cell outside the box. A sampled signed distance grid encloses the mesh with the requested margin and holds the exact distance, negative inside, at every node; ill-formed requests are rejected.",
  ["inputs", "configurations"], "all resolutions 2..4 per axis, boxes with positive/negative/zero origin, every node, cell and a 6^3 point lattice per cell; all multilinear monomials and every one-hot nodal field",
  "tests use a symmetric unit box (where origin and spacing coincide up to sign) and linear functions",
  ["rainbow/geometry/grid3.py"], [("linear index", "rainbow/geometry/grid3.py"), ("trilinear interpolation and derivative", "rainbow/geometry/grid3.py"), ("cell clamping", "rainbow/geometry/grid3.py")],
  "exhaustive over the stated grids; distances checked on three convex polyhedra with an independent point-triangle distance")
P("G06", "Broad phase boxes and hash grid never lose or resurrect an object",
  "Axis aligned boxes tightly enclose their points and report an overlap exactly when all three intervals, enlarged as requested, meet, symmetrically and without modifying the boxes. Inserting an object in the hash grid reports every "
  "object inserted earlier in the same cell at the same time stamp and no object of an earlier time stamp, whatever the hash function's random table.",
  ["inputs", "histories"], "all box pairs on an interval lattice with enlargements; all insertion sequences up to depth 4 (5) over cells, bodies and time steps for each table family",
  "tests insert two objects at one time stamp; no history crosses time stamps and the random table is never controlled",
  ["rainbow/geometry/aabb.py", "rainbow/geometry/spatial_hashing.py"],
  [("interval test", "rainbow/geometry/aabb.py"), ("lazy clearing by time stamp", "rainbow/geometry/spatial_hashing.py"), ("perfect hash with offset table", "rainbow/geometry/spatial_hashing.py")],
  "breadth-first over insertion histories on the real class; random offset table enumerated over six structured families including total collision")
P("U01", "Priority queue always yields the least current priority",
  "After any sequence of insertions, priority updates and removals, removal returns an element whose latest priority is minimal among the elements present, each element exactly once, and nothing when the queue is empty. "
  "The emptiness test is exact at every moment.",
  ["histories"], "all operation sequences up to length 5 (6) over 3 keys x 3 priorities, with fresh and shared priority objects, each followed by a full drain",
  "there is no test of the queue; stale entries left by updates only matter in longer histories",
  ["rainbow/util/heap.py"], [("lazy deletion of superseded entries", "rainbow/util/heap.py")],
  "exhaustive over operation sequences up to the bound on the real class against a dictionary")
P("G01", "Generated surface meshes are closed, outward oriented and have their stated size",
  "Every surface generator (box, cuboid, cylinder, cone, conical, sphere, ellipsoid, capsule, torus, profile sweep, convex hull) yields for all admissible sizes and resolutions a watertight, non-degenerate mesh with outward faces whose "
  "vertices lie on the requested shape and whose volume and extents match. Translating, rotating, scaling, normalising or sorting a mesh transforms exactly its points and keeps its triangles.",
  ["inputs", "configurations"], "all slice/segment counts up to 9 (16) x size lattice; all subsets of 4-6 lattice points for hulls; all sequences of up to 3 (4) mesh operations",
  "tests cover one tetrahedral hull; no generator is checked for closedness, orientation or volume",
  ["rainbow/geometry/surface_mesh.py"], [("profile sweep with modular indexing", "rainbow/geometry/surface_mesh.py"), ("torus grid", "rainbow/geometry/surface_mesh.py"), ("axis sort with index remapping", "rainbow/geometry/surface_mesh.py")],
  "exhaustive over the stated parameter lattice against topology rules and closed form volumes")
P("G02", "Tetrahedral meshes conform; adjacency, surface and subdivision are exact",
  "Beam and grid meshes fill their box with positively oriented, conforming tetrahedra. For every complex of elements, in any order, numbering and orientation preserving node order, the neighbour table, the boundary surface with its owners "
  "and the elements around a node are exactly those of the mesh and the surface is outward oriented. Subdivision splits each element into eight positive children of equal volume without gaps.",
  ["inputs", "configurations"], "all beams up to 4^3 (6^3) nodes; all 31 sub-complexes of a cell and all up to 4 (10) elements of two cells, under 12 node orders and relabelings",
  "there is no test of the volume mesh module",
  ["rainbow/geometry/volume_mesh.py"], [("flipped five-tetrahedra pattern", "rainbow/geometry/volume_mesh.py"), ("sorted face table", "rainbow/geometry/volume_mesh.py"), ("edge midpoint table", "rainbow/geometry/volume_mesh.py")],
  "exhaustive over the stated complexes against a dictionary of faces")
P("G05", "The bounding volume hierarchy reports every overlapping pair of elements",
  "For any mesh, chunk size, set of slab directions and envelope, traversing two hierarchies reports every pair of elements whose enlarged bounding volumes overlap, each once, and none whose volumes are disjoint. "
  "This holds again after every refit to new coordinates; volumes and unions are tight.",
  ["inputs", "histories"], "all element counts 1..9 (17) x 7 chunk sizes x 2 slab sets x offsets; all refit histories up to depth 2 (3)",
  "there is no test of the hierarchies; chunk boundaries and last partial chunks only appear for particular element counts",
  ["rainbow/geometry/kdop_bvh.py", "rainbow/geometry/kdop.py"], [("chunked construction", "rainbow/geometry/kdop_bvh.py"), ("bottom-up refit", "rainbow/geometry/kdop_bvh.py"), ("iterative tandem traversal", "rainbow/geometry/kdop_bvh.py")],
  "exhaustive over the stated trees and histories against all pairs of elements")
P("G07", "Mean curvature of a sampled field is the divergence of its unit normal",
  "At every interior node of a sampled field with a non-vanishing gradient the computed mean curvature equals the divergence of the normalised gradient, clamped to what the grid resolves, for any spacing and orientation. "
  "Boundary nodes are zero, the field itself is unchanged and the result lives on the same grid.",
  ["inputs"], "all quadratic fields with coefficients from a lattice (differences are exact on them) on several grid shapes, spacings and origins",
  "there is no test of the curvature", ["rainbow/geometry/mean_curvature.py"], [("central differences", "rainbow/geometry/mean_curvature.py"), ("clamp to the grid resolution", "rainbow/geometry/mean_curvature.py")],
  "exhaustive over the stated quadratics; gradients shorter than one half are judged for finiteness only")
