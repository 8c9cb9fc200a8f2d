"""R03 mass properties of triangle meshes and inertia tensors under changes of frame."""
import itertools

import numpy as np

import rainbow.geometry.surface_mesh as SM
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.mass as MASS
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import icosa, mat, octa
from mc.props.R02 import SHAPES

LEVEL = "model_checking"
RULE = ("All polyhedra of a catalogue (boxes over a size lattice, all positively oriented tetrahedra with corners on the lattice, "
        "prisms, unions of separate parts, mesh generators) under all octahedral and icosahedral rotations, translations and scales "
        "against a volume integral over signed tetrahedra; all rotations for the tensor update.")
ASSUMPTIONS = ["closed, outward oriented meshes", "floating point tolerance grows with the distance from the origin"]
ROTS = list(octa())[::2] + list(icosa())[24:]


def catalogue(name):
    if name in SHAPES:
        return SHAPES[name]
    kind, a = name
    if kind == "box":
        return geo.box(*a)
    if kind == "tet":
        return np.array(a, float), np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
    if kind == "gen":
        return getattr(SM, a[0])(*a[1:])
    if kind == "two":  # two separate parts
        V1, T1 = catalogue(a[0])
        V2, T2 = catalogue(a[1])
        V2 = V2 + np.array([9.0, -7.0, 8.0])
        return np.concatenate([V1, V2]), np.concatenate([T1, np.asarray(T2) + len(V1)])
    raise KeyError(name)


def full(p):
    return (p.mass, np.array([p.x, p.y, p.z]), np.array([[p.Ixx, p.Ixy, p.Ixz], [p.Ixy, p.Iyy, p.Iyz], [p.Ixz, p.Iyz, p.Izz]]))


def integrals(case):
    name, qi, off, scale, rho = case
    V, T = catalogue(name)
    V = scale * (np.asarray(V, float) @ mat(np.array(ROTS[qi])).T) + np.array(off, float)
    T = np.asarray(T)
    V0, T0 = V.copy(), T.copy()
    vol, com, I = geo.moments(V, T)
    m, c, J = full(MASS.compute_mass_properties(V, T, rho))
    tick()
    expect(np.array_equal(V, V0) and np.array_equal(T, T0), "the mesh was modified")
    L = np.abs(V - com).max()
    far = 1.0 + np.abs(V).max() / L
    tol = 1e-9 * far ** 3
    expect(abs(m - rho * vol) <= tol * rho * vol, f"mass {m}, expected {rho * vol}", f"mass:{name}")
    expect(np.abs(c - com).max() <= tol * L + 2e-10, f"centre of mass {c}, expected {com}", f"com:{name}")
    s = rho * np.abs(I).max()
    expect(np.abs(J - rho * I).max() <= tol * s, f"inertia {J}, expected {rho * I}", f"inertia:{name}")
    # body frame
    p = MASS.compute_mass_properties(V, T, rho)
    r, q, mb, Ib = MASS.xform_model_2_body_space(p)
    tick()
    R = mat(q)
    Icom = rho * (I - vol * (com @ com * np.eye(3) - np.outer(com, com)))
    tb = 1e-8 * far ** 4
    sc = np.abs(Icom).max()
    expect(close(np.linalg.norm(q), 1.0) and np.abs(r - com).max() <= tol * L + 2e-10 and abs(mb - rho * vol) <= tol * rho * vol,
           "body frame origin or mass", f"bodyframe:{name}")
    expect(np.abs(R @ np.diag(Ib) @ R.T - Icom).max() <= tb * sc, f"rotated body inertia {R @ np.diag(Ib) @ R.T}, expected {Icom}", f"bodyinertia:{name}")
    expect(min(Ib) > 0 and all(Ib[i] + Ib[(i + 1) % 3] >= Ib[(i + 2) % 3] * (1 - 1e-6) - tb * sc for i in range(3)), f"not an inertia tensor: {Ib}", f"triangle:{name}")
    observe((np.sort(Ib) / max(Ib), R), 3)


def tensor(case):
    qi, d = case
    R = mat(np.array(ROTS[qi]))
    got = MASS.update_inertia_tensor(R, np.array(d))
    tick()
    want = R @ np.diag(d) @ R.T
    expect(close(got, want, 1e-12), f"update_inertia_tensor gives {got}, expected {want}", f"tensor:{np.argmax(np.abs(got - want))}")
    observe(got)


def density(case):
    """Mass of a body scales with the density; the shape is not changed and may be shared."""
    name, dens = case
    V, T = catalogue(name)
    vol, com, I = geo.moments(V, T)
    Icom = np.linalg.eigvalsh(I - vol * (com @ com * np.eye(3) - np.outer(com, com)))
    e = rigid.engine(res=3)
    rigid.add_shape(e, "s", V, T)
    for i, d in enumerate(dens):
        API.create_rigid_body(e, str(i))
        API.connect_shape(e, str(i), "s")
    for i, d in enumerate(dens):
        API.set_mass_properties(e, str(i), d * 2)
        API.set_mass_properties(e, str(i), d)
        tick(2)
    for i, d in enumerate(dens):
        b = e.bodies[str(i)]
        expect(close(b.mass, d * vol, 1e-8), f"mass {b.mass} at density {d}, volume {vol}")
        expect(close(np.sort(b.inertia) / max(Icom), d * Icom / max(Icom), 1e-6), f"inertia {b.inertia} at density {d}, unit density {Icom}")
    observe((name, dens))


FAMILIES = dict(integrals=integrals, tensor=tensor, density=density)


def explore(ctx):
    q = ctx.quick
    names = list(SHAPES)
    names += [("gen", g) for g in (("create_sphere", 0.5, 6, 5), ("create_ellipsoid", 1.0, 0.5, 0.25, 6, 6), ("create_cone", 0.5, 1.0, 7),
                                   ("create_cylinder", 0.5, 2.0, 6), ("create_torus", 1.0, 0.25, 8, 6), ("create_capsule", 0.5, 1.0, 6, 6), ("create_conical", 1.0, 0.5, 0.7, 5))
              if hasattr(SM, g[0])]
    names += [("two", ("box", "tet")), ("two", ("ell", "ell"))]
    cases = [(n, i, o, s, rho) for n in names for i in range(0, len(ROTS), 3 if q else 1) for o in ((0.0, 0.0, 0.0), (3.0, -4.0, 5.0))
             for s, rho in ((1.0, 1.0), (0.01, 1000.0), (40.0, 0.5))]
    sizes = (0.5, 1.0, 3.0) if q else (0.5, 0.75, 1.0, 3.0)
    cases += [(("box", b), i, (0.0, 0.0, 0.0), 1.0, 2.0) for b in itertools.product(sizes, repeat=3) for i in range(0, len(ROTS), 5 if q else 2)]
    pts = list(itertools.product((0, 1), repeat=3)) if q else list(itertools.product((-1, 0, 1), (0, 1), (0, 1)))
    for c in itertools.combinations(pts, 4):
        P = np.array(c, float)
        d = np.linalg.det(P[1:] - P[0])
        if abs(d) < 1e-9:
            continue
        c = c if d > 0 else (c[0], c[2], c[1], c[3])
        cases += [(("tet", c), i, o, 1.0, 1.0) for i in (0, 1, 30, 77) for o in ((0, 0, 0), (0.5, -2.0, 1.0))]
    ctx.run("integrals", cases, procs=8)
    ctx.run("tensor", [(i, d) for i in range(len(ROTS)) for d in itertools.product((0.5, 1.0, 7.0), repeat=3)], procs=8)
    ctx.run("density", [(n, d) for n in SHAPES for k in (1, 2, 3) for d in itertools.product((0.5, 1.0, 7800.0), repeat=k)], procs=8)
