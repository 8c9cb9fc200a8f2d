"""R02 placing bodies by their model frame and by their body frame."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import hamilton, icosa, mat, octa

LEVEL = "model_checking"
RULE = ("All sequences of up to 3 (4) placement calls (position/orientation, model/body frame) with rotations of the octahedral and "
        "icosahedral groups on several shapes, followed after every call against a model that only knows the modelled mesh and the "
        "pose of its frame.")
ASSUMPTIONS = ["bodies with a shape", "the choice of principal axes of the body frame is free; world geometry is compared as a set"]


def prism():
    """L-shaped prism (no symmetry: all products of inertia present)."""
    P = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 2.5), (0, 2.5)]
    h = 0.75
    V = np.array([(x, y, 0) for x, y in P] + [(x, y, h) for x, y in P], float)
    caps = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]
    T = [(a, c, b) for a, b, c in caps] + [(a + 6, b + 6, c + 6) for a, b, c in caps]
    for i in range(6):
        j = (i + 1) % 6
        T += [(i, j, j + 6), (i, j + 6, i + 6)]
    return V, np.array(T)


SHAPES = dict(box=geo.box(1.0, 0.5, 0.25, (0.5, -1.0, 2.0)), cube=geo.box(1, 1, 1), slab=geo.box(1, 1, 0.25), rod=geo.box(0.5, 2.0, 0.5), ell=prism(),
              tet=(np.array([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 3]], float), np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])))
_c = {}


def world(shape, keep=False):
    if (shape, keep) not in _c:
        e = rigid.engine(res=3)
        V, T = SHAPES[shape]
        rigid.add_shape(e, "s", V, T, not keep)
        _c[shape, keep] = e
    e = _c[shape, keep]
    e.bodies.clear()
    API.create_rigid_body(e, "b")
    API.connect_shape(e, "b", "s")
    return e


def sortrows(X, nd=7):
    X = np.round(np.asarray(X), nd) + 0.0
    return X[np.lexsort(X.T)]


ROT = None


def rots():
    global ROT
    if ROT is None:
        ROT = list(octa()) + [q for q in icosa()]
    return ROT


def placement(case):
    shape, keep, ops = case
    e = world(shape, keep)
    V, T = SHAPES[shape]
    b = e.bodies["b"]
    Vb = b.shape.mesh.V.copy()
    vol, com, _ = geo.moments(V, T)
    # model frame -> world; initially the body frame coincides with the world frame, so the model frame pose is read off
    # the geometry: a rigid map taking the modelled mesh to the body mesh must exist (checked in shape_frame)
    R0, r0 = fit(V, T, b)
    if R0 is None:
        return
    R, r = R0, r0
    for kind, model, x in ops:
        if kind == "r":
            API.set_position(e, "b", np.array(x), use_model_frame=model)
            r = np.array(x) if model else np.array(x) - R @ body_origin(com, keep)
        else:
            q = np.array(rots()[x]) * 2.0  # not normalised on purpose
            API.set_orientation(e, "b", q, use_model_frame=model)
            if model:
                R = mat(q / 2.0)
            else:  # body axes given: the centre stays, the model frame follows
                c = R @ body_origin(com, keep) + r
                R = mat(q / 2.0) @ R0
                r = c - R @ body_origin(com, keep)
        tick()
        W = Vb @ mat(API.get_orientation(e, "b")).T + API.get_position(e, "b")
        want = V @ R.T + r
        expect(close(np.linalg.norm(b.q), 1.0), "orientation is not of unit length")
        expect(close(sortrows(W), sortrows(want), 1e-6), f"world geometry after {kind} model={model}: max deviation "
               f"{np.abs(sortrows(W) - sortrows(want)).max()}", f"world:{shape}:{kind}:{model}")
        expect(np.array_equal(Vb, b.shape.mesh.V), "placing a body changes its shape")
    observe((shape, keep, R, r), 4)


def body_origin(com, keep):
    """The body frame's origin in model coordinates is the centre of mass."""
    return com


def fit(V, T, b):
    """Rigid map from the modelled mesh to the body mesh at pose identity."""
    W = b.shape.mesh.V @ mat(b.q).T + b.r
    A = geo.moments(V, T)[1]
    best = None
    # match vertices through the stored frame and verify below (any proper rotation that maps the sets is accepted)
    Rm = mat(b.shape.q)
    for R in (Rm.T, Rm):
        for r in (-R @ b.shape.r, b.shape.r, -b.shape.r, np.zeros(3)):
            if close(sortrows(V @ R.T + r), sortrows(W), 1e-6):
                best = R, r
                break
        if best is not None:
            break
    if best is None:
        expect(False, "the body mesh is not the modelled mesh moved by the stored frame", "frame")
        return None, None
    return best


def shape_frame(case):
    """The mesh of a shape lives in its principal body frame and is the modelled mesh."""
    shape, qi, off, scale = case
    V, T = SHAPES[shape]
    V = scale * (V @ mat(np.array(rots()[qi])).T) + np.array(off)
    e = rigid.engine(res=3, envelope=0.01)
    mesh = API.create_mesh(V.copy(), T.copy())
    expect(soupset(mesh.V, mesh.T) == soupset(V, T), "create_mesh does not keep the triangles")
    API.create_shape(e, "s", mesh)
    tick(2)
    s = e.shapes["s"]
    vol, com, inertia = geo.moments(s.mesh.V, s.mesh.T)
    L = np.abs(V - V.mean(axis=0)).max()
    tol = 1e-6 + 1e-10 * (np.abs(V).max() / L) ** 3  # cancellation far from the origin
    expect(np.abs(com).max() < tol * L, f"centre of mass of the body mesh is {com}")
    d = np.diag(inertia)
    expect(np.abs(inertia - np.diag(d)).max() < tol * d.max(), f"inertia of the body mesh {inertia}")
    expect(close(s.inertia / d.max(), d / d.max(), tol) and close(s.mass / vol, 1.0, 1e-7), f"stored mass {s.mass} {s.inertia}, body mesh has {vol} {d}")
    R = mat(s.q)
    expect(close(soup(s.mesh.V @ R.T + s.r, s.mesh.T, V, T), 0.0, 1e-6 * max(1.0, np.abs(V).max())), "stored frame does not map the body mesh to the modelled mesh")
    A = np.cross(s.mesh.V[s.mesh.T[:, 1]] - s.mesh.V[s.mesh.T[:, 0]], s.mesh.V[s.mesh.T[:, 2]] - s.mesh.V[s.mesh.T[:, 0]])
    expect(geo.signed_volume(s.mesh.V, s.mesh.T) > 0 and np.isfinite(A).all(), "orientation of the faces changed")
    # without the transformation the mesh is left as it is
    m2 = API.create_mesh(V.copy(), T.copy())
    API.create_shape(e, "t", m2, False)
    tick()
    expect(close(soup(e.shapes["t"].mesh.V, e.shapes["t"].mesh.T, V, T), 0.0, 1e-12), "mesh moved although the transformation was turned off")
    observe((shape, np.sort(d / d.max()), R), 3)


def soup(V1, T1, V2, T2):
    """Largest distance between the triangle sets (as sorted barycentre and vertex lists)."""
    a = sortrows(np.concatenate([V1[T1].mean(axis=1), V1]), 6)
    b = sortrows(np.concatenate([V2[T2].mean(axis=1), V2]), 6)
    return np.abs(a - b).max() if a.shape == b.shape else np.inf


def soupset(V, T):
    out = []
    for t in T:
        t = list(t)
        rots_ = [tuple(map(tuple, np.round(V[[t[k], t[(k + 1) % 3], t[(k + 2) % 3]]], 10) + 0.0)) for k in range(3)]
        out.append(min(rots_))
    return sorted(out)


FAMILIES = dict(placement=placement, shape_frame=shape_frame)


def explore(ctx):
    sh = list(SHAPES)
    offs = [(0, 0, 0), (5.0, -3.0, 2.0)] if ctx.quick else [(0, 0, 0), (5.0, -3.0, 2.0), (0.01, 0, 100.0)]
    ctx.run("shape_frame", [(s, i, o, k) for s in sh for i in (list(range(0, 48, 2)) + list(range(48, 168, 2 if ctx.quick else 1))) for o in offs for k in (1.0, 0.05, 0.008)], procs=8)
    qs = [0, 5, 11, 17, 50, 77, 130]
    alpha = [("r", m, x) for m in (False, True) for x in ((0.0, 0.0, 0.0), (1.0, -2.0, 3.5))]
    alpha += [("q", m, x) for m in (False, True) for x in qs[:5 if ctx.quick else 7]]
    cases = []
    for s in sh:
        for n in (1, 2, 3) if ctx.quick else (1, 2, 3, 4):
            cases += [(s, False, ops) for ops in itertools.product(alpha, repeat=n)]
    # every rotation of both groups, each of the four call kinds around it
    for s in sh:
        for qi in range(168):
            for m in (False, True):
                cases += [(s, False, (("q", m, qi),) + tail) for tail in ((), (("r", True, (1.0, 2.0, 3.0)),), (("r", False, (1.0, 2.0, 3.0)),), (("q", True, 31),))]
    ctx.run("placement", cases, procs=8)
