P("M01", "Rotation algebra: matrices, quaternions, Euler angles and frames agree",
  "Every conversion between rotation matrices, unit quaternions, Euler angles and coordinate frames denotes the same rotation, and every "
  "converted orientation is again a proper rotation. Products, inverses, change of frame and rotation of vectors commute with the conversions, "
  "including at gimbal lock and at half turns, and never modify their operands.",
  ["inputs", "histories"], "all pairs/triples of the binary octahedral and icosahedral groups, angle lattices around every branch point, all frame pairs",
  "the unit tests sample a handful of angles and axes; branch boundaries (trace zero, gimbal lock, half turns, both signs of a quaternion) are not reached",
  ["rainbow/math/quaternion.py", "rainbow/math/matrix3.py", "rainbow/math/euler.py", "rainbow/math/coordsys.py"],
  [("quaternion <-> matrix conversion branches", "rainbow/math/quaternion.py"), ("Euler extraction and gimbal lock branch", "rainbow/math/euler.py"),
   ("frame composition and inverse", "rainbow/math/coordsys.py")],
  "every element and pair of finite rotation groups and angle lattices executed on the real code against independent closed forms; not a proof over all reals")
P("M02", "Rotation vectors, their derivatives and orientation interpolation",
  "The exponential and logarithm of rotation vectors are mutually inverse within the principal range and always denote the same rotation, and shortening a "
  "rotation vector keeps its rotation. The derivatives offered for rotation vectors equal the true derivatives, and interpolation between two orientations "
  "stays on the shortest arc at constant rate, always yielding a unit orientation with the given end points.",
  ["inputs"], "15 axes x 10 degree lattice to 900 degrees plus neighbourhoods of all branch points; all ordered pairs of the binary octahedral group with perturbations",
  "tests use a few angles far from the series cut-offs and from antipodal pairs",
  ["rainbow/math/expmap.py", "rainbow/math/quaternion.py", "rainbow/math/functions.py"],
  [("series/closed form branches", "rainbow/math/expmap.py"), ("spherical interpolation", "rainbow/math/quaternion.py")],
  "exhaustive over the stated lattices; one known finding (logarithm of an exact half turn)")
P("M03", "Polynomials evaluate, differentiate, interpolate and print consistently",
  "The value of a polynomial, the values of all its partial derivatives of any order and its printed form all denote the polynomial with the given coefficients. "
  "Interpolation through enough well placed points returns, for every data column, the unique polynomial through the data; ill-posed requests are rejected and inputs are never modified.",
  ["inputs", "histories"], "all coefficient vectors over a small alphabet up to order 2, over magnitudes up to 1e300 for order 1 and lattices to order 5, all derivative sequences up to length 3, all node orders",
  "tests check two printed examples and random interpolation data only at the nodes",
  ["rainbow/math/polynomial.py"], [("monomial table", "rainbow/math/polynomial.py"), ("derivative of each term", "rainbow/math/polynomial.py")],
  "exhaustive over the stated coefficient alphabets against exact dictionary polynomials")
P("M04", "Textual vectors and rotations denote exactly what they say",
  "Every well-formed textual vector, orientation, axis rotation, keyword or random range, with any decimal number as printed by the language, is accepted regardless of capitalisation and yields exactly the "
  "denoted value. Text that is not of one of these forms is rejected with an error, never silently read as something else.",
  ["inputs"], "all numbers of the shape grammar up to the bound in every position, all keywords and capitalisations, all single-character edits of well-formed texts",
  "tests sample about thirty texts; digits after a decimal point starting with zero and padded exponents do not occur",
  ["rainbow/util/parse_string.py", "rainbow/math/vector3.py", "rainbow/math/quaternion.py"],
  [("number grammar", "rainbow/util/parse_string.py"), ("template dispatch", "rainbow/math/quaternion.py"), ("template dispatch", "rainbow/math/vector3.py")],
  "exhaustive over the bounded grammar and its one-edit neighbourhood; fractional exponents (accepted by the grammar, meaningless) are outside the property")
P("M05", "Linear algebra helpers: polar factors, principal directions, frames, ordering",
  "Polar decomposition of every orientation preserving deformation returns its unique rotation and symmetric stretch, singly and in batches; the direction of most variance of a point set is a "
  "real unit vector attaining the largest variance. Frames built from a direction are right-handed and orthonormal with that direction, and the vector order is the lexicographic total order.",
  ["inputs"], "all pairs of finite rotation groups times stretch lattices with repeated values; rotated point sets of every anisotropy class; all lattice directions and vector pairs",
  "tests use axis aligned point sets (where rows and columns of the eigenvectors coincide) and random matrices",
  ["rainbow/math/matrix3.py", "rainbow/math/functions.py", "rainbow/math/vector3.py", "rainbow/math/angle.py"],
  [("polar decomposition through the squared stretch", "rainbow/math/matrix3.py"), ("principal component analysis", "rainbow/math/functions.py"), ("frame from a normal", "rainbow/math/vector3.py")],
  "exhaustive over the stated groups and lattices; singular deformations are required to be rejected")
