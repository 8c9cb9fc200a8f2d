"""R01 set-up interface of the rigid body engine as a state machine."""
import copy

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import geo, rigid
from mc.core import HarnessError, close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("Breadth-first search over histories of set-up calls (valid and invalid: duplicate and unknown names, illegal values) from "
        "several prefixes; the real engine is compared after every call with a dictionary model, arguments and results are "
        "overwritten after every call to expose shared arrays.")
ASSUMPTIONS = ["two bodies, two shapes, two forces, one hinge, three material names", "histories merged by reference model state"]

SHAPES = dict(S=geo.box(1.0, 0.8, 0.5), P=(np.array([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 3]], float),
                                         np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])))
VOL = dict(S=0.4, P=1.0)


def principal(V, T):
    vol, com, I = geo.moments(V, T)
    return np.sort(np.linalg.eigvalsh(I - vol * (com @ com * np.eye(3) - np.outer(com, com))))


MOMENTS = {n: principal(*m) for n, m in SHAPES.items()}
FORCES = dict(G=("gravity", 9.81, (0.0, 2.0, 0.0)), D=("damping", 0.25, 0.5))


class Model:
    def __init__(self):
        self.bodies, self.shapes, self.forces, self.hinges = {}, [], {}, {}
        self.inter = {("default", "default"): (0.0, (1.0, 1.0, 1.0))}

    def key(self):
        return repr((self.bodies, self.shapes, self.forces, self.hinges, sorted(self.inter.items())))

    def apply(self, op):
        """True if the call is valid (and performed)."""
        k, a = op[0], op[1:]
        B = self.bodies
        if k == "body":
            if a[0] in B:
                return False
            B[a[0]] = dict(idx=len(B), r=(0., 0., 0.), q=(1., 0., 0., 0.), v=(0., 0., 0.), w=(0., 0., 0.), mass=None,
                           shape=None, fixed=False, forces=(), material="default")
        elif k == "shape":
            if a[0] in self.shapes:
                return False
            self.shapes.append(a[0])
        elif k in ("gravity", "damping"):
            if a[0] in self.forces or a[1] <= 0 or (k == "damping" and a[2] <= 0):
                return False
            self.forces[a[0]] = (k,) + a[1:]
        elif k == "hinge":
            if a[0] in self.hinges:
                return False
            self.hinges[a[0]] = (len(self.hinges), None, None)
        elif k == "set_hinge":
            if a[0] not in self.hinges or a[1] not in B or a[2] not in B or a[3] not in ("world", "body", "model"):
                return False
            if a[3] == "model" and B[a[1]]["shape"] is None:
                return None
            self.hinges[a[0]] = (self.hinges[a[0]][0], a[1], a[2])
        elif k == "inter":
            key = tuple(sorted(a[:2]))
            if key in self.inter or a[2] < 0 or min(a[3]) < 0:
                return False
            self.inter[key] = (a[2], a[3])
        else:
            if a[0] not in B:
                return False
            b = B[a[0]]
            if k == "connect_shape":
                if a[1] not in self.shapes:
                    return False
                b["shape"] = a[1]
            elif k == "connect_force":
                if a[1] not in self.forces or a[1] in b["forces"]:
                    return False
                b["forces"] += (a[1],)
            elif k in ("r", "v", "w"):
                b[k] = a[1]
            elif k == "q":
                n = np.linalg.norm(a[1])
                b["q"] = tuple(x / n for x in a[1])
            elif k == "mass":
                if b["shape"] is None:
                    return False
                b["mass"] = (b["shape"], a[1])
            elif k == "type":
                if a[1].lower() not in ("fixed", "free"):
                    return False
                b["fixed"] = a[1].lower() == "fixed"
            elif k == "material":
                if not any(a[1] in key for key in self.inter):
                    return False
                b["material"] = a[1]
            else:
                raise HarnessError(op)
        return True


def perform(e, op):
    k, a = op[0], list(op[1:])
    arrays = []

    def arr(x):
        arrays.append(np.array(x, dtype=np.float64))
        return arrays[-1]
    if k == "body":
        API.create_rigid_body(e, a[0])
    elif k == "shape":
        V, T = SHAPES[a[0]]
        API.create_shape(e, a[0], API.create_mesh(V.copy(), T.copy()))
    elif k == "gravity":
        API.create_gravity_force(e, a[0], a[1], arr(a[2]))
    elif k == "damping":
        API.create_damping_force(e, *a)
    elif k == "hinge":
        API.create_hinge(e, a[0])
    elif k == "set_hinge":
        API.set_hinge(e, a[0], a[1], a[2], arr((0.5, 0.25, 0)), arr((0, 0, 1.0)), a[3])
    elif k == "inter":
        API.create_surfaces_interaction(e, a[0], a[1], a[2], arr(a[3]))
    elif k in ("r", "v", "w", "q"):
        f = dict(r=API.set_position, v=API.set_velocity, w=API.set_spin, q=API.set_orientation)[k]
        f(e, a[0], arr(a[1]))
    else:
        f = dict(connect_shape=API.connect_shape, connect_force=API.connect_force, mass=API.set_mass_properties,
                 type=API.set_body_type, material=API.set_body_material)[k]
        f(e, *a)
    for x in arrays:
        x[:] = 77.0


def compare(e, m, what):
    key = "state:" + str(what[0])
    expect(list(e.bodies) == list(m.bodies) and list(e.shapes) == m.shapes and list(e.forces) == list(m.forces)
           and list(e.hinges) == list(m.hinges), f"registries after {what}", key)
    for n, b in m.bodies.items():
        for _ in range(2):
            got = dict(r=API.get_position(e, n), q=API.get_orientation(e, n), v=API.get_velocity(e, n), w=API.get_spin(e, n))
            for k, x in got.items():
                expect(close(x, b[k], 1e-12), f"{k} of {n} is {x} after {what}, expected {b[k]}", key)
                x[:] = -55.0  # a returned array belongs to the caller
        rb = e.bodies[n]
        expect(API.is_fixed_body(e, n) == b["fixed"], f"type of {n} after {what}", key)
        expect(rb.name == n and rb.idx == b["idx"] and rb.material == b["material"], f"identity of {n} after {what}", key)
        expect((rb.shape.name if rb.shape is not None else None) == b["shape"], f"shape of {n} after {what}", key)
        expect(tuple(f.name for f in rb.forces) == b["forces"], f"forces of {n} after {what}", key)
        expect(all(f is e.forces[f.name] for f in rb.forces) and (rb.shape is None or rb.shape is e.shapes[rb.shape.name]),
               f"{n} is not connected to the registered objects after {what}", key)
        if b["mass"]:
            expect(close(rb.mass, VOL[b["mass"][0]] * b["mass"][1], 1e-9), f"mass of {n} after {what} is {rb.mass}", key)
            expect(close(np.sort(rb.inertia), MOMENTS[b["mass"][0]] * b["mass"][1], 1e-9), f"moments of inertia of {n} after {what} are {rb.inertia}", key)
        else:
            expect(rb.mass == 0, f"mass of {n} before it is set", key)
    for n in m.shapes:
        sh = e.shapes[n]
        expect(close(sh.mass, VOL[n], 1e-9) and close(np.sort(sh.inertia), MOMENTS[n], 1e-9), f"mass properties of shape {n} after {what}", key)
        vol, com, _ = geo.moments(sh.mesh.V, sh.mesh.T)
        expect(close(vol, VOL[n], 1e-9) and close(com, np.zeros(3), 1e-9), f"mesh of shape {n} after {what}", key)
    for n, f in m.forces.items():
        g = e.forces[n]
        if f[0] == "gravity":
            expect(g.force_type == "Gravity" and g.g == f[1] and close(g.up, np.array(f[2]) / np.linalg.norm(f[2])),
                   f"gravity {n} after {what}", key)
        else:
            expect(g.force_type == "Damping" and (g.alpha, g.beta) == f[1:], f"damping {n} after {what}", key)
    for n, (i, p, c) in m.hinges.items():
        h = e.hinges[n]
        expect(h.idx == i and (h.parent.name if h.parent else None) == p and (h.child.name if h.child else None) == c,
               f"hinge {n} after {what}", key)
    names = sorted({x for k in m.inter for x in k} | {"m1", "m2", "zz"})
    for A in names:
        expect(e.surfaces_interactions.exist_material(A) == any(A in k for k in m.inter), f"material {A} after {what}", key)
        for Bn in names:
            k = tuple(sorted((A, Bn)))
            expect(e.surfaces_interactions.exist_interaction(A, Bn) == (k in m.inter), f"interaction {k} after {what}", key)
            got = e.surfaces_interactions.get_interaction(A, Bn)
            want = m.inter.get(k, m.inter[("default", "default")])
            expect(got.epsilon == want[0] and close(got.mu, want[1]), f"interaction {A},{Bn} after {what}", key)


PREFIX = [(), (("body", "a"), ("body", "b"), ("shape", "S"), ("gravity", "G", 9.81, (0.0, 2.0, 0.0))),
          (("shape", "P"), ("body", "b"), ("connect_shape", "b", "P"), ("inter", "m1", "m2", 0.5, (0.25, 0.5, 0.75)), ("hinge", "h"),
           ("body", "a"), ("damping", "D", 0.25, 0.5)),
          (("shape", "S"), ("body", "a"), ("body", "b"), ("connect_shape", "b", "S"), ("connect_shape", "a", "S"), ("mass", "b", 3.0))]


def ops_of(m=None):
    out = [("shape", s) for s in ("S", "P")]
    out += [("gravity", "G", 9.81, (0.0, 2.0, 0.0)), ("gravity", "H", 0.0, (0.0, 1.0, 0.0)), ("gravity", "H", 2.5, (3.0, 0.0, 4.0)),
            ("gravity", "D", -1.0, (0.0, 1.0, 0.0)), ("damping", "D", 0.25, 0.5), ("damping", "E", 0.0, 1.0), ("damping", "E", 1.0, 0.0),
            ("damping", "G", 1.0, 2.0), ("hinge", "h"), ("hinge", "k")]
    out += [("inter", "m1", "m2", 0.5, (0.25, 0.5, 0.75)), ("inter", "m2", "m1", 0.125, (1.0, 0.0, 0.0)), ("inter", "m1", "m1", 0.0, (0.0, 0.0, 0.0)),
            ("inter", "default", "m2", 1.0, (2.0, 2.0, 2.0)), ("inter", "m1", "default", -0.1, (1.0, 1.0, 1.0)),
            ("inter", "m2", "m2", 0.1, (1.0, -1.0, 1.0)), ("inter", "m2", "m2", 0.1, (1.0, 1.0, -1e-3)), ("inter", "m2", "m2", 0.1, (-0.5, 1.0, 1.0)),
            ("inter", "default", "default", 0.5, (0.5, 0.5, 0.5))]
    out += [("set_hinge", "h", "a", "b", "world"), ("set_hinge", "h", "b", "a", "body"), ("set_hinge", "h", "b", "a", "model"),
            ("set_hinge", "h", "a", "x", "world"), ("set_hinge", "h", "x", "a", "world"), ("set_hinge", "h", "a", "b", "nowhere"), ("set_hinge", "x", "a", "b", "world")]
    for n, s in (("a", 1.0), ("b", 2.0), ("x", 3.0)):
        out += [("body", n)] if n != "x" else []
        out += [("connect_shape", n, "S"), ("connect_force", n, "G"), ("r", n, (s, -2.0, 0.5)), ("q", n, (s, 1.0, 2.0, -2.0)),
                ("v", n, (0.0, s, 3.0)), ("w", n, (s, s, 0.25)), ("mass", n, 2.0 * s), ("type", n, "fixed"), ("material", n, "m1")]
    out += [("connect_shape", "a", "P"), ("connect_force", "a", "D"), ("connect_force", "b", "H"), ("type", "a", "free"), ("type", "b", "FREE"),
            ("type", "b", "Fixed"), ("type", "a", "static"), ("material", "b", "m2"), ("material", "a", "default"), ("material", "a", "zz"),
            ("mass", "b", 0.5)]
    return out


OPS = ops_of()


def expand(h):
    return (PREFIX[h[0]] + tuple(h[1:])) if h else ()


_start = {}


def start(k):
    """Engine after prefix k (built once per process by the same calls, then copied)."""
    if k not in _start:
        e, m = rigid.engine(res=3), Model()
        for op in PREFIX[k]:
            assert m.apply(op)
            perform(e, op)
            compare(e, m, op)
        _start[k] = (e, m)
    return copy.deepcopy(_start[k])


def history(case):
    e, m = start(case[0])
    seq = case[1:]
    for i, op in enumerate(seq):
        old = copy.deepcopy(m)
        ok = m.apply(op)
        if ok is None:
            return
        try:
            perform(e, op)
            done = True
        except Exception as ex:
            done = False
            if ok:
                raise
            what = ex
        tick()
        if not ok:
            m = old
            expect(not done, f"{op} was accepted after {seq[:i]}", f"accepted:{op}")
        compare(e, m, op)
    observe(m.key())


def key_of(h):
    m = Model()
    for op in expand(h):
        o = copy.deepcopy(m)
        if not m.apply(op):
            m = o
    return (h[0] if h else -1, m.key())


FAMILIES = dict(history=history)


def explore(ctx):
    def enabled(h):
        if not h:
            return list(range(len(PREFIX)))
        return OPS
    ctx.bfs("history", enabled, key_of, 4 if ctx.quick else 5, max_states=200000)
