"""D04 soft body time stepping (without contacts) against an independent integrator, over operation histories."""
import itertools

import numpy as np

from mc import soft
from mc.core import HarnessError, close, expect, observe, tick
from mc.soft import API, MODELS

LEVEL = "model_checking"
RULE = ("Breadth-first search over histories of steps and changes between steps (velocity, coordinates, gravity, density, viscosity, "
        "elasticity, model, material, type, conditions, new bodies), every state compared with a dense reference integrator; "
        "conservation laws over all meshes x models x time splits.")
ASSUMPTIONS = ["bodies stay apart (contacts are the subject of D05)", "time steps well below the stability limit"]
MESH = dict(A=soft.TWO, B=soft.SKEW, C=soft.beam(2, 2, 2, 1.0, 2.0, 0.5), D=soft.FAN)
AT = dict(a=np.zeros(3), b=np.array([20.0, 0, 0]), c=np.array([0, 30.0, 0]))
DT = 0.01


class Ref:
    """Dense semi-implicit Euler."""

    def __init__(self):
        self.b, self.mats, self.dt = {}, {}, DT

    def body(self, name, x0, T, mat):
        self.b[name] = dict(x0=x0.copy(), x=x0.copy(), u=np.zeros_like(x0), T=T.copy(), mat=mat, g=np.array([0, -9.82, 0]), dir=[], tra=[], fixed=False)

    def force(self, b, x, u):
        m = self.mats[b["mat"]]
        lam, mu = soft.lame(m["E"], m["nu"])
        f = soft.elastic(m["model"], x, b["x0"], b["T"], lam, mu)
        f += soft.traction(x, [t for t, l in b["tra"]], [l for t, l in b["tra"]])
        f -= soft.node_mass(b["x0"], b["T"], m["c"])[:, None] * u
        return f + soft.node_mass(b["x0"], b["T"], m["rho"])[:, None] * b["g"]

    def step(self, dt):
        for b in self.b.values():
            if b["fixed"]:
                b["u"] = np.zeros_like(b["u"])
                continue
            b["x"][b["dir"]] = b["x0"][b["dir"]]
            b["u"][b["dir"]] = 0.0
            b["u"] = b["u"] + dt * self.force(b, b["x"], b["u"]) / soft.node_mass(b["x0"], b["T"], self.mats[b["mat"]]["rho"])[:, None]
            b["u"][b["dir"]] = 0.0
            b["x"] = b["x"] + dt * b["u"]
            b["x"][b["dir"]] = b["x0"][b["dir"]]

    def simulate(self, T):
        n = int(np.floor(T / self.dt + 1e-6))
        for _ in range(n):
            self.step(self.dt)
        if T - n * self.dt > 1e-6 * min(T, self.dt):
            self.step(T - n * self.dt)


PHI = dict(low=lambda p: p[2] + 0.05, left=lambda p: p[0] - 0.2)


def both(e, r, op):
    """Apply an operation to the engine and to the reference."""
    k, a = op[0], op[1:]
    if k == "body":
        name, mesh, mat = a
        V, T = MESH[mesh]
        API.create_soft_body(e, name, V + AT[name], T)
        if mat is not None:
            API.set_material(e, name, mat)
        b = e.bodies[name]
        r.body(name, b.x0, np.array(b.T), mat or "default")
    elif k == "mat":
        API.create_material(e, a[0])
        r.mats[a[0]] = dict(E=1e5, nu=0.3, rho=1000, c=0, model="COR")
    elif k == "elasticity":
        API.set_elasticity(e, *a)
        r.mats[a[0]].update(E=a[1], nu=a[2])
    elif k == "rho":
        API.set_mass_density(e, *a)
        r.mats[a[0]]["rho"] = a[1]
    elif k == "c":
        API.set_viscosity(e, *a)
        r.mats[a[0]]["c"] = a[1]
    elif k == "model":
        API.set_constitutive_model(e, a[0], MODELS[a[1]])
        r.mats[a[0]]["model"] = a[1]
    elif k == "step":
        API.simulate(e, a[0])
        r.simulate(a[0])
    elif k == "dt":
        e.params.time_step = r.dt = a[0]
    else:
        b = r.b.get(a[0])
        if b is None:
            return
        if k == "u":
            API.set_velocity(e, a[0], np.array(a[1]))
            b["u"] = np.tile(np.array(a[1], float), (len(b["x"]), 1))
        elif k == "x":
            x = (b["x0"] - AT[a[0]]) @ np.diag(a[1]) + AT[a[0]] + np.array(a[2])
            API.set_spatial_coordinates(e, a[0], x)
            b["x"] = x.copy()
        elif k == "g":
            API.set_gravity(e, a[0], np.array(a[1]))
            b["g"] = np.array(a[1], float)
        elif k == "type":
            API.set_type(e, *a)
            b["fixed"] = a[1].lower() == "fixed"
        elif k == "setmat":
            API.set_material(e, *a)
            b["mat"] = a[1]
        elif k == "dir":
            phi = lambda p: PHI[a[1]](p - AT[a[0]])
            API.create_dirichlet_conditions(e, a[0], phi)
            b["dir"] = sorted(set(b["dir"]) | {i for i in range(len(b["x0"])) if phi(b["x0"][i]) <= 0})
        elif k == "tra":
            phi = lambda p: PHI[a[1]](p - AT[a[0]])
            API.create_traction_conditions(e, a[0], phi, np.array(a[2]))
            b["tra"] += [(t, a[2]) for t in soft.boundary(b["T"]).values() if all(phi(b["x0"][i]) <= 0 for i in t)]
        else:
            raise HarnessError(op)


def compare(e, r, op):
    for name, b in r.b.items():
        got = e.bodies[name]
        S = 1 + np.abs(b["x"]).max()
        expect(np.abs(got.x - b["x"]).max() <= 1e-8 * S, f"body {name} after {op}: positions differ by {np.abs(got.x - b['x']).max()}", f"x:{op[0]}" if op[0] != "step" else "x")
        if not b["fixed"]:
            expect(np.abs(got.u - b["u"]).max() <= 1e-7 * (1 + np.abs(b["u"]).max()), f"body {name} after {op}: velocities differ by {np.abs(got.u - b['u']).max()}", "u")
        if b["fixed"] and op[0] == "step":
            expect(not np.asarray(got.u).any(), f"fixed body {name} has velocity {got.u[0]}", "fixed u")
        expect(close(API.get_material_coordinates(e, name), b["x0"], 1e-14), f"material coordinates of {name} changed", "x0")


PREFIX = [(("mat", "m"), ("elasticity", "m", 300.0, 0.3), ("rho", "m", 2.0), ("model", "m", "SVK"), ("body", "a", "A", "m")),
          (("mat", "m"), ("elasticity", "m", 200.0, 0.4), ("rho", "m", 3.0), ("model", "m", "SNH"), ("c", "m", 1.0), ("mat", "k"), ("elasticity", "k", 400.0, 0.2), ("rho", "k", 1.0),
           ("model", "k", "COR"), ("body", "a", "C", "m"), ("body", "b", "B", "k"), ("g", "b", (1.0, 0.0, -2.0))),
          (("mat", "m"), ("elasticity", "m", 300.0, 0.3), ("rho", "m", 2.0), ("body", "a", "D", "m"), ("dir", "a", "low"), ("tra", "a", "left", (3.0, 0.0, 1.0)), ("step", 0.02)),
          (("body", "a", "A", None), ("elasticity", "default", 1e4, 0.3), ("step", DT))]
OPS = [("step", DT), ("step", 0.025), ("step", 0.004), ("u", "a", (1.0, -0.5, 0.25)), ("u", "b", (0.0, 2.0, 0.0)), ("x", "a", (1.1, 0.9, 1.0), (0.0, 0.0, 0.5)), ("g", "a", (0.0, 0.0, 4.0)),
       ("type", "a", "fixed"), ("type", "a", "free"), ("rho", "m", 5.0), ("c", "m", 8.0), ("elasticity", "m", 100.0, 0.1), ("model", "m", "COR"), ("dir", "a", "low"), ("dir", "a", "left"),
       ("tra", "a", "low", (0.0, 0.0, -3.0)), ("body", "c", "B", "m"), ("setmat", "a", "default"), ("dt", 0.005)]


def new():
    e, r = soft.engine(4), Ref()
    r.mats["default"] = dict(E=1e5, nu=0.3, rho=1000, c=0, model="COR")
    e.params.time_step = DT
    return e, r


def history(case):
    if not case:
        return
    e, r = new()
    ops = PREFIX[case[0]] + tuple(case[1:])
    for n, op in enumerate(ops):
        if op[0] in ("body", "mat") and op[1] in (r.b if op[0] == "body" else r.mats):
            return
        if len(op) > 1 and op[0] in ("rho", "c", "elasticity", "model") and op[1] not in r.mats or op[0] == "setmat" and op[2] not in r.mats or op[0] == "body" and op[3] is not None and op[3] not in r.mats:
            return
        both(e, r, op)
        tick()
        if n >= len(PREFIX[case[0]]):
            compare(e, r, op)
    observe([(n, b["x"].sum(axis=0), b["u"].sum(axis=0)) for n, b in r.b.items()], 5)


def laws(case):
    mesh, model, damp, dt, T, v, stretch = case
    e, r = new()
    e.params.time_step = r.dt = dt
    for op in (("mat", "m"), ("elasticity", "m", 250.0, 0.35), ("rho", "m", 2.0), ("model", "m", model), ("c", "m", damp), ("body", "a", mesh, "m"), ("g", "a", (0.0, 0.0, 0.0)),
               ("u", "a", v), ("x", "a", stretch, (0.0, 0.0, 0.0))):
        both(e, r, op)
    b = e.bodies["a"]
    m = soft.node_mass(b.x0, b.T, 2.0)[:, None]
    lam, mu = soft.lame(250.0, 0.35)

    def momenta():
        return (m * b.u).sum(axis=0), np.cross(b.x, m * b.u).sum(axis=0), 0.5 * (m * b.u * b.u).sum() + soft.energy(model, b.x, b.x0, b.T, lam, mu)
    p0, l0, e0 = momenta()
    base = soft.energy(model, b.x0, b.x0, b.T, lam, mu)
    last = e0
    for n in range(4):
        API.simulate(e, T)
        r.simulate(T)
        tick()
        compare(e, r, ("step", T))
        p, l, en = momenta()
        t = (n + 1) * T
        if damp == 0.0:
            expect(close(p, p0, 1e-9) and close(l, l0, 1e-8), f"momenta {p}, {l} from {p0}, {l0}", "momentum")
            expect(abs(en - e0) <= 0.1 * (e0 - base) + 1e-6, f"energy {en} from {e0}", "energy")
        else:
            # the damping is proportional to the mass (c/rho per unit of mass)
            k = int(np.floor(T / dt + 1e-6))
            fac = ((1 - dt * damp / 2.0) ** k * (1 - (T - k * dt) * damp / 2.0)) ** (n + 1)
            expect(close(p, p0 * fac, 1e-9), f"momentum {p}, expected {p0 * fac}", "momentum")
        if damp == 0.0 and stretch == (1.0, 1.0, 1.0):
            expect(close(b.x, b.x0 + np.array(v) * t, 1e-8), "an undeformed body in free flight deforms", "flight")
        last = en
    if damp > 1.0:
        expect(last <= e0 + 1e-9, "energy grows in spite of damping", "dissipation")
    observe((mesh, model, damp, last), 4)


def split(case):
    """Free fall of every mesh: v = g t, displacement of a semi-implicit Euler step sequence, whatever the requested time."""
    mesh, dt, T, lumped = case
    e, r = new()
    V, Tt = MESH[mesh]
    API.create_material(e, "m")
    API.set_elasticity(e, "m", 50.0, 0.2)
    API.create_soft_body(e, "a", V, Tt)
    e.bodies["a"].is_lumped = lumped
    API.set_material(e, "a", "m")
    API.set_constitutive_model(e, "m", API.SVK)
    API.set_gravity(e, "a", (1.0, 0.0, -3.0))
    e.params.time_step = dt
    b = e.bodies["a"]
    steps0 = e.params.time_stamp
    API.simulate(e, T)
    tick()
    n = int(np.floor(T / dt + 1e-6))
    rest = T - n * dt if T - n * dt > 1e-6 * min(T, dt) else 0.0
    v, x = 0.0, 0.0
    for h in [dt] * n + ([rest] if rest else []):
        v += h
        x += h * v
    g = np.array([1.0, 0, -3.0])
    if lumped:
        expect(close(b.u, np.tile(g * v, (len(b.x), 1)), 1e-8) and close(b.x, b.x0 + g * x, 1e-8), f"free fall over {T}: {b.u[0]}, expected {g * v}", "fall")
    m = soft.node_mass(b.x0, b.T, 1000)[:, None]
    expect(close((m * b.x).sum(axis=0) / m.sum(), (m * b.x0).sum(axis=0) / m.sum() + g * x, 1e-7) or not lumped, "centre of mass", "fall")
    expect(e.params.time_stamp - steps0 == n + (rest > 0), f"{e.params.time_stamp - steps0} steps for {T} with {dt}", "steps")
    for bad in (0.0, -1.0):
        try:
            API.simulate(e, bad)
            expect(False, f"simulate({bad}) accepted", "time")
        except ValueError:
            pass
    observe((mesh, dt, T, b.x.sum()), 5)


FAMILIES = dict(history=history, laws=laws, split=split)


def explore(ctx):
    q = ctx.quick

    def enabled(h):
        return OPS if h else list(range(len(PREFIX)))
    ctx.bfs("history", enabled, lambda h: h, 4 if q else 5, max_states=10**7)
    ctx.run("laws", [(m, mo, d, dt, T, v, s) for m in MESH for mo in MODELS for d in (0.0, 0.5, 4.0) for dt, T in ((0.004, 0.02), (0.002, 0.007)) for v in ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5))
                     for s in ((1.0, 1.0, 1.0), (1.2, 0.9, 1.05), (0.8, 1.0, 1.1))], procs=8)
    ctx.run("split", [(m, dt, T, True) for m in MESH for dt in (0.01, 0.003, 0.1, 1.0 / 7) for T in (0.01, 0.02, 0.1, 0.025, 0.003, 0.3, 1.0)], procs=8)
