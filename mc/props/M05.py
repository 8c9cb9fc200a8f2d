"""M05 linear algebra helpers used by the simulators: polar decomposition, principal directions, frames, ordering."""
import itertools

import numpy as np

import rainbow.math.angle as A
import rainbow.math.functions as F
import rainbow.math.matrix3 as M3
import rainbow.math.vector3 as V3
from mc import groups as G
from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("Deformations R1 diag(s) R2^T with R1, R2 in the octahedral/icosahedral rotation groups and s on a stretch lattice "
        "(repeated and nearly repeated stretches included); point clouds rotated by the same groups with every "
        "anisotropy class; every lattice direction as frame normal; every pair and triple of lattice vectors for the order.")
ASSUMPTIONS = ["deformations with positive determinant; principal direction judged by the variance it attains"]


def polar(case):
    q1, q2, s = case
    R1, R2 = G.mat(q1), G.mat(q2)
    Fm = R1 @ np.diag(s) @ R2.T
    F0 = Fm.copy()
    Rref, Sref = R1 @ R2.T, R2 @ np.diag(s) @ R2.T
    tick(2)
    R, S = M3.polar_decomposition(Fm)
    expect(close(R, Rref, 1e-7) and close(S, Sref, 1e-7), "polar decomposition is not rotation times stretch")
    expect(close(R @ S, Fm), "the factors do not multiply to the input")
    expect(close(R @ R.T, np.eye(3), 1e-7) and np.linalg.det(R) > 0, "rotation factor is not a rotation")
    Rs, Ss = M3.polar_decomposition_array(np.array([Fm, np.eye(3), 2 * Fm, Rref]))
    for a, b, r, t in ((Rs[0], Ss[0], Rref, Sref), (Rs[1], Ss[1], np.eye(3), np.eye(3)), (Rs[2], Ss[2], Rref, 2 * Sref),
                       (Rs[3], Ss[3], Rref, np.eye(3))):
        expect(close(a, r, 1e-7) and close(b, t, 1e-7), "array polar decomposition differs from the single one")
    expect(np.array_equal(Fm, F0), "input modified")
    observe((Rref, Sref), 4)


def singular(case):
    Fm = np.array(case, float)
    tick()
    try:
        M3.polar_decomposition(Fm)
        ok = False
    except ValueError:
        ok = True
    expect(ok, "singular deformation accepted by the polar decomposition")
    observe(case)


def principal(case):
    q, s, kind, off = case
    base = dict(
        box=[np.array(c, float) for c in itertools.product((-1, 1), repeat=3)],
        cross=[sg * e for e in np.eye(3) for sg in (1.0, -1.0)] + [np.zeros(3)],
        grid=[np.array(c, float) for c in itertools.product((-1, 0, 0.5, 1), repeat=3)])[kind]
    R = G.mat(q)
    P = np.array([R @ (np.array(s) * p) + np.array(off) for p in base])
    P0 = P.copy()
    tick()
    d = F.direction_of_most_variance(P)
    C = np.cov((P - P.mean(axis=0)).T)
    top = np.linalg.eigvalsh(C)[-1]
    expect(np.isrealobj(d) and abs(np.linalg.norm(d) - 1) < 1e-9, "direction is not a unit vector")
    d = np.real(d)
    expect(d @ C @ d >= top - 1e-7 * (1 + abs(top)), f"variance along the direction {d @ C @ d:.6g} is below the largest {top:.6g}")
    m, vals, vecs = F.PCA(P)
    expect(close(m, P.mean(axis=0)), "mean")
    expect(close(sorted(np.real(vals)), np.linalg.eigvalsh(C), 1e-8), "variances")
    expect(close(C @ vecs, vecs * vals, 1e-8), "columns are not the principal axes")
    expect(np.array_equal(P, P0), "points modified")
    observe(C, 4)


def frame(case):
    n0 = np.array(case[0], float) * case[1]
    c = n0.copy()
    tick()
    t, b, n = V3.make_orthonormal_vectors(n0)
    u = n0 / np.linalg.norm(n0)
    expect(close(n, u), "third vector is not the direction given")
    M = np.array([t, b, n])
    expect(close(M @ M.T, np.eye(3), 1e-9), "frame is not orthonormal")
    expect(close(np.cross(t, b), n) and close(np.cross(b, n), t) and close(np.cross(n, t), b), "frame is left-handed")
    expect(np.array_equal(n0, c), "normal modified")
    expect(close(V3.unit(n0), u), "unit")
    i = V3.max_abs_component(n0)
    expect(abs(n0[i]) == np.abs(n0).max(), "max_abs_component")
    observe(M)


def ortho(case):
    Mx = np.array(case, float)
    a, b = Mx[0].copy(), Mx[1].copy()
    tick()
    O = M3.ortonormalize(Mx.copy())
    expect(close(O @ O.T, np.eye(3)) and np.linalg.det(O) > 0, "rows are not a right-handed orthonormal set")
    expect(close(O[0], a / np.linalg.norm(a)), "first row changes direction")
    expect(abs(O[2] @ b) < 1e-9 * (1 + np.linalg.norm(b)) and O[1] @ b > 0, "second row leaves the span")
    observe(O)


def order(case):
    a, b = np.array(case[0], float), np.array(case[1], float)
    ta, tb = tuple(case[0]), tuple(case[1])
    tick()
    expect(bool(V3.less(a, b)) == (ta < tb), f"less{ta, tb}")
    expect(bool(V3.greather(a, b)) == (ta > tb), f"greater{ta, tb}")
    expect(bool(V3.less_than_equal(a, b)) == (ta <= tb), f"less or equal{ta, tb}")
    expect(bool(V3.greather_than_equal(a, b)) == (ta >= tb), f"greater or equal{ta, tb}")
    expect(close(V3.cross(a, b), [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]), "cross")
    expect(close(M3.star(a) @ b, np.cross(a, b)), "cross product matrix")
    expect(close(M3.diag_from_array(a), np.diag(a)) and close(M3.diag(*a), np.diag(a)), "diag")
    c = a + b
    expect(close(M3.make_from_rows(a, b, c), np.array([a, b, c])) and close(M3.make_from_cols(a, b, c), np.array([a, b, c]).T)
           and close(M3.make(*a, *b, *c), np.array([a, b, c])), "assembly")
    observe((ta, tb))


def angle(case):
    tick()
    expect(close(A.degrees_to_radians(case), np.deg2rad(case)) and close(A.radians_to_degrees(case), np.rad2deg(case)), "angle")
    expect(close(A.radians_to_degrees(A.degrees_to_radians(case)), case), "round trip")
    observe(case)


FAMILIES = dict(polar=polar, singular=singular, principal=principal, frame=frame, ortho=ortho, order=order, angle=angle)


def explore(ctx):
    o = G.octa()[::2] if ctx.quick else G.octa()
    o = list(dict.fromkeys(o))
    i = G.icosa()
    S = [(1, 1, 1), (1, 1, 1 + 1e-9), (2, 1, 1), (0.5, 2, 2), (0.1, 1, 3), (1e-2, 1, 10), (0.7, 0.8, 0.9), (1 + 1e-6, 1, 1 - 1e-6), (1e3, 1e3, 1e3)]
    pairs = list(itertools.product(o, o))[:: 2 if ctx.quick else 1]
    ctx.run("polar", [(a, b, s) for a, b in pairs for s in S], procs=8)
    ctx.run("polar", [(a, b, s) for a in i[::3] for b in i[::7] for s in S], procs=8)
    ctx.run("singular", [tuple(map(tuple, m)) for m in ([[0, 0, 0]] * 3, np.diag([1., 1, 0]).tolist(), np.diag([0., 2, 0]).tolist())])
    A3 = [(3, 2, 1), (1, 2, 3), (2, 3, 1), (1, 1, 2), (2, 2, 1), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 5), (1, 1, 0), (1e-3, 2e-3, 1e-3),
          (1, 1.05, 1)]
    rots = list(dict.fromkeys(G.octa()[::2] + i[::2])) + [tuple(G.quat(ax, t)) for ax in G.axes13() for t in (0.3, 1.2)]
    ctx.run("principal", [(q, s, k, off) for q in rots for s in A3 for k in ("box", "cross", "grid")
                          for off in ((0, 0, 0), (10, -3, 0.5))], procs=8)
    dirs = [d for d in itertools.product((-2, -1, -1e-3, 0, 1e-9, 1, 1.5), repeat=3) if any(abs(x) > 1e-12 for x in d)]
    ctx.run("frame", [(d, s) for d in dirs for s in (1.0, 1e-6, 1e6)], procs=8)
    rows = list(itertools.product((-1, 0, 2), repeat=3))
    ctx.run("ortho", [(a, b, c) for a in rows for b in rows for c in ((0, 0, 1), (1, -1, 3))
                      if np.linalg.norm(np.cross(a, b)) > 0], procs=8)
    vv = list(itertools.product((-1, 0, 1), repeat=3)) + [(0.5, 0, 0), (0, 1e-12, 0), (0, 0, -1e-300)]
    ctx.run("order", itertools.product(vv, vv))
    ctx.run("angle", [k * 7.5 for k in range(-100, 101)])
