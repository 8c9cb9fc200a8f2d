"""Small rigid body worlds for the checks (built through the public API only)."""
import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import geo
from mc.groups import mat

RES = 8  # resolution of the distance grids (the default of 64 is only slower)


def engine(res=RES, **params):
    e = API.create_engine()
    e.params.resolution = res
    for k, v in params.items():
        if not hasattr(e.params, k):
            raise AttributeError(k)
        setattr(e.params, k, v)
    return e


_cache = {}


def box_shape(e, name, w=1.0, h=1.0, d=1.0, c=(0, 0, 0)):
    V, T = geo.box(w, h, d, c)
    add_shape(e, name, V, T)


def add_shape(e, name, V, T, to_body=True):
    API.create_shape(e, name, API.create_mesh(np.array(V, float), np.array(T)), to_body)


def body(e, name, shape=None, r=(0, 0, 0), q=(1, 0, 0, 0), v=(0, 0, 0), w=(0, 0, 0), density=1.0, fixed=False, forces=(), material=None):
    API.create_rigid_body(e, name)
    if shape is not None:
        API.connect_shape(e, name, shape)
    if shape is not None:  # r, q place the frame the mesh was modelled in (the body frame permutes the axes)
        API.set_orientation(e, name, np.array(q, float), True)
        API.set_position(e, name, np.array(r, float), True)
    else:
        API.set_position(e, name, np.array(r, float))
        API.set_orientation(e, name, np.array(q, float))
    API.set_velocity(e, name, np.array(v, float))
    API.set_spin(e, name, np.array(w, float))
    if shape is not None:
        API.set_mass_properties(e, name, density)
    if fixed:
        API.set_body_type(e, name, "fixed")
    for f in forces:
        API.connect_force(e, name, f)
    if material is not None:
        API.set_body_material(e, name, material)
    return e.bodies[name]


def pose(e, name):
    return API.get_position(e, name), API.get_orientation(e, name)


def state(e):
    return {n: (API.get_position(e, n), API.get_orientation(e, n), API.get_velocity(e, n), API.get_spin(e, n)) for n in e.bodies}


def flat(e):
    return np.concatenate([np.concatenate(s) for s in state(e).values()]) if e.bodies else np.zeros(0)


def inertia_world(b):
    R = mat(b.q)
    return R @ np.diag(b.inertia) @ R.T


def momentum(e, about=np.zeros(3)):
    P, L = np.zeros(3), np.zeros(3)
    for b in e.bodies.values():
        if not b.is_fixed:
            P = P + b.mass * b.v
            L = L + np.cross(b.r - about, b.mass * b.v) + inertia_world(b) @ b.w
    return P, L


def kinetic(e):
    return sum(0.5 * b.mass * b.v @ b.v + 0.5 * b.w @ inertia_world(b) @ b.w for b in e.bodies.values() if not b.is_fixed)


def world_vertices(b):
    return b.shape.mesh.V @ mat(b.q).T + b.r
