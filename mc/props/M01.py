"""M01 rotations and rigid transforms form one consistent algebra."""
import itertools
import math

import numpy as np

import rainbow.math.coordsys as X
import rainbow.math.matrix3 as M3
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3
from rainbow.math.euler import EulerXYZ, make_euler_xyz_from_matrix, make_euler_xyz_from_quaternion
from mc import groups as G
from mc.core import close, expect, fresh, observe, tick

LEVEL = "model_checking"
RULE = ("All pairs of the binary octahedral group (48x48), all elements of the binary icosahedral group (120), the "
        "15-degree lattice of angles in [-720,720] over 15 axes, the Euler lattice of 15 degrees including every gimbal "
        "pose, and all concat/inverse/relative histories of rigid transforms up to the depth bound; every constructor called twice with its first result overwritten; reference = "
        "Rodrigues/Hamilton/4x4 matrices; states are observed rotations/transforms.")
ASSUMPTIONS = ["numpy float64 arithmetic; tolerance 1e-9 (1e-7 for angle extraction, which squares the error near poles)"]

VECS = [np.array(v, float) for v in itertools.product((-2.0, 0.0, 1.0), repeat=3)] + [np.array([0.3, -7.0, 1e3])]
VARR = np.array(VECS)


def qa(q):
    return np.array(q, dtype=np.float64)


def pair(case):
    a, b = qa(case[0]), qa(case[1])
    a0, b0 = a.copy(), b.copy()
    ab = Q.prod(a, b)
    tick()
    expect(close(ab, G.hamilton(a, b)), "quaternion product is not the Hamilton product")
    expect(close(Q.to_matrix(ab), Q.to_matrix(a) @ Q.to_matrix(b)), "matrix(ab) != matrix(a) matrix(b)")
    expect(close(Q.conjugate(ab), Q.prod(Q.conjugate(b), Q.conjugate(a))), "conj(ab) != conj(b) conj(a)")
    expect(close(Q.prod_array(a, np.array([b, a])), [ab, G.hamilton(a, a)]), "array product (single*array) disagrees")
    expect(close(Q.prod_array(np.array([a, b]), b), [ab, G.hamilton(b, b)]), "array product (array*single) disagrees")
    for v in (VECS[5], VECS[-1]):
        expect(close(Q.rotate(ab, v), Q.rotate(a, Q.rotate(b, v))), "rotating by a product is not composing")
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), "an operand was modified")
    observe(ab)


def single(case):
    q = qa(case)
    R = G.mat(q)
    tick()
    M = Q.to_matrix(q)
    expect(close(M, R), "to_matrix differs from the rotation of the quaternion")
    expect(close(M @ M.T, np.eye(3)) and abs(np.linalg.det(M) - 1) < 1e-9, "to_matrix is not a rotation")
    expect(G.same_rotation(Q.from_matrix(M), q, 1e-8), "from_matrix(to_matrix(q)) is another rotation")
    expect(close(Q.rotate_array(q, VARR), VARR @ R.T), "rotate_array differs from the matrix")
    for v in VECS:
        expect(close(Q.rotate(q, v), R @ v), "rotate differs from the matrix")
        expect(close(Q.prod(Q.prod(q, Q.from_vector3(v)), Q.conjugate(q)), np.concatenate([[0.0], R @ v])), "conjugation of a vector as quaternion differs from the matrix")
        expect(close(Q.rotate(Q.conjugate(q), Q.rotate(q, v)), v), "conjugate does not undo the rotation")
    expect(close(Q.prod(q, Q.conjugate(q)), Q.identity()), "q conj(q) != identity")
    theta, axis = Q.to_angle_axis(q)
    if np.linalg.norm(axis) > 0:
        expect(close(Q.Ru(theta, axis), q, 1e-7), "angle/axis does not reproduce the quaternion")
        expect(abs(np.linalg.norm(axis) - 1) < 1e-9, "axis is not a unit vector")
        al = Q.to_angle(q, axis)
        expect(-math.pi - 1e-9 <= al <= math.pi + 1e-9 and close(G.rodrigues(axis, al), R, 1e-7),
               "angle about own axis does not reproduce the rotation")
    else:
        expect(close(R, np.eye(3)), "zero axis for a proper rotation")
    for s in (0.5, 3.0):
        expect(close(Q.unit(s * q), q), "unit() changes the direction")
        expect(close(Q.to_matrix(s * q), R), "to_matrix depends on the length of the quaternion")
    e = make_euler_xyz_from_quaternion(q)
    expect(close(G.rodrigues((0, 0, 1), e.gamma) @ G.rodrigues((0, 1, 0), e.beta) @ G.rodrigues((1, 0, 0), e.alpha),
                 R, 2e-7), "Euler angles of the quaternion do not recompose")
    h = Q.hat(q)
    expect(abs(float(np.dot(h, q))) < 1e-9 and abs(np.linalg.norm(h) - 1) < 1e-9, "hat(q) is not orthogonal")
    observe(M)


def axis_angle(case):
    axis, deg = np.array(case[0], float), case[1]
    rad = math.radians(deg)
    R = G.rodrigues(axis, rad)
    keep = axis.copy()
    tick()
    expect(close(Q.to_matrix(Q.Ru(rad, axis)), R), "Ru (quaternion) is not the rotation about the axis")
    expect(close(Q.Ru(rad, axis), G.quat(axis, rad)), "Ru (quaternion) has the wrong sign or half angle")
    expect(close(M3.Ru(rad, axis), R), "Ru (matrix) is not the rotation about the axis")
    expect(G.same_rotation(Q.from_matrix(R), G.quat(axis, rad), 1e-7), "from_matrix of a rotation matrix")
    expect(np.array_equal(axis, keep), "axis was modified")
    observe(R)


def principal(case):
    deg = case
    rad = math.radians(deg)
    tick()
    for i, (mq, mm) in enumerate(((Q.Rx, M3.Rx), (Q.Ry, M3.Ry), (Q.Rz, M3.Rz))):
        ax = np.eye(3)[i]
        expect(close(mm(rad), G.rodrigues(ax, rad)), f"principal rotation matrix about axis {i}")
        expect(close(mq(rad), G.quat(ax, rad)), f"principal rotation quaternion about axis {i}")
        expect(close(M3.Ru(rad, ax), mm(rad)), f"Ru and principal matrix rotation disagree, axis {i}")
    observe(M3.Rx(rad))


def euler(case):
    a, b, c = (math.radians(x) for x in case)
    R = G.rodrigues((0, 0, 1), c) @ G.rodrigues((0, 1, 0), b) @ G.rodrigues((1, 0, 0), a)
    tick()
    for what, e in (("matrix", make_euler_xyz_from_matrix(R)),
                    ("quaternion", make_euler_xyz_from_quaternion(
                        G.hamilton(G.quat((0, 0, 1), c), G.hamilton(G.quat((0, 1, 0), b), G.quat((1, 0, 0), a)))))):
        R2 = G.rodrigues((0, 0, 1), e.gamma) @ G.rodrigues((0, 1, 0), e.beta) @ G.rodrigues((1, 0, 0), e.alpha)
        expect(close(R2, R, 2e-7), f"Euler angles extracted from the {what} do not recompose the rotation")
        expect(-math.pi / 2 - 1e-9 <= e.beta <= math.pi / 2 + 1e-9, "pitch outside [-90,90] degrees")
    observe(R)


def basis(case):
    """Orthonormal frames about a normal, row/column construction, cross-product matrix, orthonormalisation."""
    n = np.array(case, float)
    keep = n.copy()
    t, b, m = V3.make_orthonormal_vectors(n)
    tick()
    u = n / np.linalg.norm(n)
    expect(close(m, u), "the third vector is not the unit normal")
    F = np.array([t, b, m])
    expect(close(F @ F.T, np.eye(3)), "the frame is not orthonormal")
    expect(close(np.cross(t, b), m), "the frame is not right handed")
    expect(np.array_equal(n, keep), "the normal was modified")
    R = M3.make_from_cols(t, b, m)
    expect(close(R[:, 0], t) and close(R[:, 2], m) and close(M3.make_from_rows(t, b, m), R.T), "rows/columns mixed up")
    expect(close(Q.to_matrix(Q.from_matrix(R)), R, 1e-8), "frame -> quaternion -> matrix does not return the frame")
    for w in VECS[:9]:
        expect(close(M3.star(n) @ w, np.cross(n, w)), "star(n) w != n x w")
        expect(close(V3.cross(n, w), np.cross(n, w)), "cross product")
    observe(F)


def ortho(case):
    A = np.array(case, float)
    B = A.copy()
    if abs(np.linalg.det(A)) < 1e-6:
        return
    R = M3.ortonormalize(B)
    tick()
    expect(close(R @ R.T, np.eye(3)) and abs(np.linalg.det(R) - 1) < 1e-9, "orthonormalize does not give a rotation")
    expect(close(R[0] * np.linalg.norm(A[0]), A[0]), "first row direction changed")
    expect(abs(float(np.dot(R[2], A[0]))) < 1e-9 and abs(float(np.dot(R[2], A[1]))) < 1e-9, "row plane changed")
    observe(R)


# ---- histories of rigid transforms against 4x4 homogeneous matrices ----
GEN = [((1.0, -2.0, 0.5), (S, 0.0, S, 0.0)) for S in (math.sqrt(0.5),)] + \
      [((0.0, 3.0, 0.0), (0.5, 0.5, 0.5, 0.5)), ((-1.0, 0.0, 2.0), tuple(G.quat((1, 2, -1), 0.7)))]


def H(r, q):
    M = np.eye(4)
    M[:3, :3] = G.mat(q)
    M[:3, 3] = r
    return M


def model(hist):
    """Registers: cur (starts as identity) and prev."""
    cur, prev = np.eye(4), np.eye(4)
    for op in hist:
        if op[0] == "left":
            cur, prev = H(*GEN[op[1]]) @ cur, cur
        elif op[0] == "right":
            cur, prev = cur @ H(*GEN[op[1]]), cur
        elif op[0] == "inv":
            cur, prev = np.linalg.inv(cur), cur
        elif op[0] == "rel":
            cur, prev = np.linalg.inv(prev) @ cur, cur
        elif op[0] == "compose":
            cur, prev = cur @ prev, cur
    return cur, prev


OPS = [("left", 0), ("left", 1), ("left", 2), ("right", 0), ("right", 1), ("right", 2), ("inv",), ("rel",), ("compose",)]


def tkey(hist):
    cur, prev = model(hist)
    return (tuple(np.round(cur, 6).ravel() + 0.0), tuple(np.round(prev, 6).ravel() + 0.0))


def transforms(hist):
    def mk(i):
        return X.make(np.array(GEN[i][0]), np.array(GEN[i][1]))
    cur, prev = X.CoordSys(), X.CoordSys()
    for op in hist:
        before = (cur.r.copy(), cur.q.copy(), prev.r.copy(), prev.q.copy())
        old_c, old_p = cur, prev
        if op[0] == "left":
            cur, prev = X.concat(mk(op[1]), cur), cur
        elif op[0] == "right":
            cur, prev = X.concat(cur, mk(op[1])), cur
        elif op[0] == "inv":
            cur, prev = X.inverse(cur), cur
        elif op[0] == "rel":
            cur, prev = X.make_coordsys_from_to(cur, prev), cur
        elif op[0] == "compose":
            cur, prev = X.concat(cur, prev), cur
        after = (old_c.r, old_c.q, old_p.r, old_p.q)
        expect(all(np.array_equal(a, b) for a, b in zip(before, after)), f"{op} modified its operands")
        tick()
    M, _ = model(hist)
    Mi = np.linalg.inv(M)
    for p in (VECS[0], VECS[7], VECS[13], VECS[22], np.array([0.25, 4.0, -3.0])):
        expect(close(X.xform_point(cur, p), (M @ np.append(p, 1))[:3]), "transformed point differs")
        expect(close(X.xform_vector(cur, p), M[:3, :3] @ p), "transformed direction differs")
        expect(close(X.xform_point(X.inverse(cur), X.xform_point(cur, p)), p), "inverse does not undo the transform")
    expect(close(X.xform_matrix(cur, np.diag([1.0, 2, 3])), M[:3, :3] @ np.diag([1.0, 2, 3])), "transformed matrix")
    expect(abs(np.linalg.norm(cur.q) - 1) < 1e-9, "orientation is not of unit length")
    observe(tkey(hist)[0])


FAMILIES = dict(pair=pair, single=single, axis_angle=axis_angle, principal=principal, euler=euler, basis=basis,
                ortho=ortho, transforms=transforms)


def rounded(case):
    """A rotation matrix whose entries carry rounding errors still gives its rotation."""
    q, signs = case
    R = G.mat(qa(q)).round(12) + 0.0
    R = R + 2.0 ** -51 * np.diag(signs)
    tick()
    x = Q.from_matrix(R)
    expect(np.isfinite(x).all() and G.same_rotation(x, qa(q), 1e-7), f"from_matrix of a matrix with rounding errors gives {x}")


FRESH = {
    "V3": (V3, dict(zero=(), ones=(), i=(), j=(), k=(), make=(1, 2, 3), make_vec4=(1, 2, 3, 4), make_orthonormal_vectors=("v",), cross=("v", "w"), unit=("v",), from_string=("[1,2,3]",))),
    "Q": (Q, dict(identity=(), make=(1, 0, 0, 0), from_array=("q",), from_vector3=("v",), unit=("q",), Ru=(0.5, "v"), Rx=(0.5,), Ry=(0.5,), Rz=(0.5,), to_matrix=("q",), from_matrix=("R",),
                  conjugate=("q",), prod=("q", "p"), rotate=("q", "v"), to_angle_axis=("q",), slerp=("q", "p", 0.5), lerp=("q", "p", 0.5), hat=("q",), from_string=("rx:30",))),
    "M3": (M3, dict(identity=(), zero=(), ones=(), diag=(1, 2, 3), diag_from_array=("v",), make=tuple(range(9)), make_from_rows=("v", "w", "v"), make_from_cols=("v", "w", "v"), star=("v",),
                    Ru=(0.5, "v"), Rx=(0.5,), Ry=(0.5,), Rz=(0.5,), polar_decomposition=("R",))),
}


def freshness(case):
    module, name = case
    m, calls = FRESH[module]
    vals = dict(v=lambda: np.array((1.0, 2.0, -0.5)), w=lambda: np.array((0.0, 1.0, 3.0)), q=lambda: Q.Ru(0.7, np.array((1.0, 2.0, 3.0))), p=lambda: Q.Rx(1.0), R=lambda: G.mat(G.quat((1.0, 2.0, 3.0), 0.7)))
    if hasattr(m, name):
        fresh(lambda: getattr(m, name)(*[vals[a]() if a in vals else a for a in calls[name]]), f"{module}.{name}")


FAMILIES["rounded"] = rounded
FAMILIES["freshness"] = freshness


def explore(ctx):
    o, ic = G.octa(), G.icosa()
    ctx.run("pair", list(itertools.product(o, o)), procs=4)
    if not ctx.quick:
        ctx.run("pair", list(itertools.product(ic, ic)), procs=8)
    ctx.run("single", o + ic)
    step = 15 if ctx.quick else 5
    lattice = [tuple(G.quat(a, math.radians(d))) for a in G.axes13() for d in range(-360, 361, step)]
    ctx.run("single", lattice, procs=8)
    # neighbourhoods of the branch points (trace = 0, half turns, identity)
    eps = [s * 10.0 ** -k for k in (3, 6, 8, 10, 13) for s in (1, -1)] + [0.0]
    near = [tuple(G.quat(a, th + e)) for a in G.axes13() for th in (0.0, 2 * math.pi / 3, math.pi, math.pi / 2) for e in eps]
    ctx.run("single", near, procs=8)
    tiny = [tuple(np.array(v) / np.linalg.norm(v)) for v in itertools.product((0.0, 1e-9, -1e-8, 3e-8, 1e-6, 1e-3, 1.0), repeat=4) if 1.0 in v]
    ctx.run("single", tiny[::1 if not ctx.quick else 3] + [t for t in tiny if t[0] == 0], procs=8)
    ctx.run("freshness", [(m, n) for m in FRESH for n in FRESH[m][1]])
    ctx.run("rounded", list(itertools.product(o, itertools.product((-1, 0, 1), repeat=3))))
    ctx.run("axis_angle", [(a, d) for a in G.axes13() for d in range(-720, 721, step)], procs=4)
    ctx.run("principal", list(range(-720, 721, 5)))
    es = 15 if not ctx.quick else 30
    ctx.run("euler", [(a, b, c) for a in range(-180, 181, es) for b in range(-90, 91, es) for c in range(-180, 181, es)],
            procs=8)
    ctx.run("euler", [(a, s * (90 - 10.0 ** -k), c) for a in (-90, 0, 40, 180) for s in (1, -1) for k in range(1, 9)
                      for c in (-135, 0, 25, 90)])
    nv = [v for v in itertools.product((-3.0, -1.0, 0.0, 1.0, 2.5), repeat=3) if any(v)] + \
         [(1e-8, 1e-8, 1.0), (1e-8, 1.0, 0.0), (1e6, 1.0, 1.0), (1.0, 1.0, 1.0 + 1e-12)]
    ctx.run("basis", nv)
    rows = [(1.0, 0.0, 0.0), (0.0, 2.0, 0.0), (1.0, 1.0, 0.0), (0.0, -1.0, 1.0), (3.0, 1.0, -2.0)]
    ctx.run("ortho", list(itertools.permutations(rows, 3)))
    ctx.bfs("transforms", lambda h: OPS, tkey, depth=4 if ctx.quick else 5)
