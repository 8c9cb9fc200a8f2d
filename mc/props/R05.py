"""R05 motion of bodies that touch nothing: free flight, external forces, fixed bodies."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import hamilton, icosa, mat, octa
from mc.props.R02 import SHAPES

LEVEL = "model_checking"
RULE = ("All combinations of shape, orientation, linear/angular velocity, subset of forces, type, density and step size for one step; all "
        "worlds of up to three separated bodies in every creation order; trajectories over several steps; oracle: the documented "
        "semi-implicit Euler step written with rotation matrices.")
ASSUMPTIONS = ["bodies have a shape and a mass and are further apart than the envelope"]
ROTS = list(octa())[::2] + list(icosa())[24::3]
FORCES = dict(G=(9.81, (0.0, 2.0, 0.0)), H=(1.5, (3.0, 0.0, -4.0)), D=(0.5, 0.0005), E=(0.125, 0.002))
_e = {}


def world():
    if "e" not in _e:
        e = rigid.engine(res=3, envelope=0.01)
        for n, (V, T) in SHAPES.items():
            rigid.add_shape(e, n, V, T)
        for n, a in FORCES.items():
            if n in "GH":
                API.create_gravity_force(e, n, a[0], np.array(a[1]))
            else:
                API.create_damping_force(e, n, *a)
        _e["e"] = e
    e = _e["e"]
    e.bodies.clear()
    return e


def make(e, name, spec):
    shape, qi, r, v, w, rho, fixed, forces = spec
    API.create_rigid_body(e, name)
    API.connect_shape(e, name, shape)
    API.set_position(e, name, np.array(r, float))
    API.set_orientation(e, name, np.array(ROTS[qi]))
    API.set_velocity(e, name, np.array(v, float))
    API.set_spin(e, name, np.array(w, float))
    API.set_mass_properties(e, name, rho)
    if fixed:
        API.set_body_type(e, name, "fixed")
    for f in forces:
        API.connect_force(e, name, f)


def predict(b, s, forces, dt):
    """One documented step from state s = (r, q, v, w)."""
    r, q, v, w = s
    if b.is_fixed:
        return s
    R = mat(q)
    J = R @ np.diag(b.inertia) @ R.T
    F, M = np.zeros(3), -np.cross(w, J @ w)
    for f in forces:
        a = FORCES[f]
        if f in "GH":
            up = np.array(a[1]) / np.linalg.norm(a[1])
            F = F - b.mass * a[0] * up
        else:
            F, M = F - a[0] * v, M - a[1] * w
    v = v + dt * F / b.mass
    w = w + dt * np.linalg.solve(J, M)
    r = r + dt * v
    q = q + 0.5 * dt * hamilton((0.0,) + tuple(w), q)
    return r, q / np.linalg.norm(q), v, w


def run(case):
    specs, dt, steps = case
    e = world()
    e.params.time_step = dt
    for i, s in enumerate(specs):
        make(e, f"b{i}", s)
    for k in range(steps):
        before = rigid.state(e)
        API.simulate(e, dt)
        tick()
        expect(not e.contact_points, f"contact points between separated bodies: {len(e.contact_points)}", "contacts")
        for i, s in enumerate(specs):
            n = f"b{i}"
            want = predict(e.bodies[n], before[n], s[7], dt)
            got = API.get_position(e, n), API.get_orientation(e, n), API.get_velocity(e, n), API.get_spin(e, n)
            for what, a, b in zip(("position", "orientation", "velocity", "spin"), got, want):
                expect(close(a, b, 1e-9), f"{what} of body {i} after step {k}: {a}, expected {b}", f"{what}:{'fixed' if s[6] else 'free'}")
            expect(abs(np.linalg.norm(got[1]) - 1.0) < 1e-12, "orientation is not of unit length", "unit")
            if s[6]:
                expect(all(np.array_equal(a, b) for a, b in zip(got, before[n])), "a fixed body moved", "fixed")
            elif not s[7]:
                expect(close(got[2], s[3], 1e-12), "momentum of a free body changed", "momentum")
    observe(rigid.flat(e), 4)


FAMILIES = dict(run=run)


def explore(ctx):
    q = ctx.quick
    V = [(0, 0, 0), (1.0, -2.0, 0.5), (-3.0, 0.0, 0.0)]
    W = [(0, 0, 0), (0.0, 3.0, 0.0), (1.0, -0.5, 2.0), (0.0, 0.0, -6.0)]
    FS = [c for k in range(5) for c in itertools.combinations("GHDE", k)]
    if q:
        FS = [(), ("G",), ("H",), ("D",), ("E",), ("G", "H"), ("H", "D"), ("D", "E"), ("D", "H", "G"), ("E", "G", "H", "D")]
    shapes = list(SHAPES)
    cases = []
    for sh, qi in itertools.product(shapes, range(0, len(ROTS), 6 if q else 2)):
        for v, w in itertools.product(V, W):
            for fs in FS:
                k = (qi + len(fs)) % 3
                cases.append((((sh, qi, (1.0, 2.0, 3.0), v, w, (1.0, 2.0, 1000.0)[k], False, fs),), (0.01, 0.05, 0.001)[k], 1))
            cases.append((((sh, qi, (1.0, 2.0, 3.0), v, w, 1.0, True, ("G", "D")),), 0.01, 2))
    ctx.run("run", cases, procs=8)
    # several bodies, all orders and types
    base = [("box", 3, (0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), 1.0, False, ("G",)),
            ("ell", 14, (20.0, 0.0, 0.0), (0.0, 2.0, 0.0), (1.0, 0.5, 0.0), 2.0, False, ("D", "H")),
            ("tet", 29, (0.0, 30.0, 0.0), (0.0, 0.0, -1.0), (0.0, 0.0, 2.0), 0.5, False, ()),
            ("slab", 40, (0.0, -30.0, 9.0), (1.0, 1.0, 1.0), (-1.0, 1.0, 0.0), 3.0, False, ("E", "G"))]
    cases = []
    for n in (2, 3) if q else (2, 3, 4):
        for sel in itertools.permutations(range(4), n):
            for fx in itertools.product((False, True), repeat=n):
                cases.append((tuple(base[i][:6] + (f,) + base[i][7:] for i, f in zip(sel, fx)), 0.01, 2))
    ctx.run("run", cases, procs=8)
    # bodies that share a shape (and forces) and differ in density, orientation, velocity and type
    twin = [(3, (0.0, 0.0, 0.0), (1.0, -2.0, 0.0), (1.0, -0.5, 2.0), 1.0), (14, (20.0, 0.0, 0.0), (0.0, 2.0, 0.0), (-2.0, 0.5, 1.0), 8.0),
            (29, (0.0, 30.0, 0.0), (0.0, 0.0, -1.0), (0.5, 3.0, 2.0), 0.25)]
    ctx.run("run", [(tuple((sh, qi, r, v, w, d, f, fs) for (qi, r, v, w, d), f, fs in zip(sel, fx, FF)), 0.01, 2)
                    for sh in shapes for n in (2, 3) for sel in itertools.permutations(twin, n) for fx in itertools.product((False, True), repeat=n) if fx.count(True) < n
                    for FF in ((("D", "G"),) * n, (("D",), ("E", "G"), ("D", "E"))[:n])], procs=8)
    # trajectories
    ctx.run("run", [(((sh, qi, (0.0, 0.0, 0.0), V[1], w, 1.0, False, fs),), 0.01, 60 if q else 400) for sh in shapes for qi in (0, 7, 33)
                    for w in W[1:] for fs in ((), ("G", "D"), ("E",))], procs=8)
