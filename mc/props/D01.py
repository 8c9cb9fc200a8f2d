"""D01 set-up interface of the soft body engine as a state machine."""
import numpy as np

from mc import soft
from mc.core import HarnessError, close, expect, observe, tick
from mc.soft import API, MODELS

LEVEL = "model_checking"
RULE = ("Breadth-first search over histories of set-up calls (valid and invalid: duplicate and unknown names, illegal values, wrong "
        "shapes) from several prefixes; the real engine is compared after every call with a dictionary model, arguments and results "
        "are overwritten after every call to expose shared arrays.")
ASSUMPTIONS = ["two bodies and two materials besides the default", "histories merged by reference model state"]

MESH = dict(A=soft.TWO, B=soft.beam(2, 2, 2, 1.0, 2.0, 0.5))
BAD = (ValueError, RuntimeError, TypeError)


class Model:
    def __init__(self):
        self.bodies, self.mats = {}, {"default": dict(c=0, rho=1000, E=1e5, nu=0.3, model="COR")}
        self.inter = {}

    def key(self):
        return repr((sorted(self.bodies.items()), sorted(self.mats.items()), sorted(self.inter.items())))

    def apply(self, op):
        k, a = op[0], op[1:]
        if k == "body":
            if a[0] in self.bodies:
                return False
            self.bodies[a[0]] = dict(idx=len(self.bodies), mesh=a[1], u=(0., 0., 0.), x="rest", fixed=False, g=(0., -9.82, 0.), mat=None, dir=(), tra=())
        elif k == "material":
            if a[0] in self.mats:
                return False
            self.mats[a[0]] = dict(self.mats["default"], c=0, rho=1000, E=1e5, nu=0.3, model="COR")
        elif k == "inter":
            key = tuple(sorted(a[:2]))
            if a[0] not in self.mats or a[1] not in self.mats or key in self.inter or key == ("default", "default") or a[2] < 0:
                return False
            self.inter[key] = a[2]
        elif k in ("elasticity", "viscosity", "density", "model"):
            if a[0] not in self.mats:
                return False
            m = self.mats[a[0]]
            if k == "elasticity":
                if a[1] <= 0 or not 0 <= a[2] <= 0.5:
                    return False
                m["E"], m["nu"] = a[1:]
            elif k == "model":
                if a[1] not in MODELS:
                    return False
                m["model"] = a[1]
            else:
                if a[1] < 0:
                    return False
                m["c" if k == "viscosity" else "rho"] = a[1]
        else:
            if a[0] not in self.bodies:
                return False
            b = self.bodies[a[0]]
            if k == "velocity":
                if len(a[1]) != 3:
                    return False
                b["u"] = a[1]
            elif k == "gravity":
                if len(a[1]) != 3:
                    return False
                b["g"] = a[1]
            elif k == "x":
                if a[1] == "bad":
                    return False
                b["x"] = a[1]
            elif k == "type":
                if a[1].lower() not in ("fixed", "free"):
                    return False
                b["fixed"] = a[1].lower() == "fixed"
            elif k == "setmat":
                if a[1] not in self.mats:
                    return False
                b["mat"] = a[1]
            elif k == "dir":
                b["dir"] += (a[1],)
            elif k == "tra":
                if a[2] == "list":
                    return False
                b["tra"] += (a[1:],)
            elif k == "read":
                pass
            else:
                raise HarnessError(op)
        return True


PHI = dict(low=lambda p: p[2] + 0.1, all=lambda p: -1.0, none=lambda p: 1.0)


def shape(x0, kind):
    return dict(rest=x0, up=x0 + [0, 0, 3.0], big=x0 * 1.5)[kind].copy()


def perform(e, op):
    k, a = op[0], op[1:]
    junk = []

    def arr(v):
        junk.append(np.array(v, float))
        return junk[-1]
    try:
        if k == "body":
            V, T = MESH[a[1]]
            V, T = V.copy(), T.copy()
            API.create_soft_body(e, a[0], V, T)
            V[:] = 55.0
            T[:] = 0
        elif k == "material":
            API.create_material(e, a[0])
        elif k == "inter":
            API.create_surfaces_interaction(e, *a)
        elif k == "elasticity":
            API.set_elasticity(e, *a)
        elif k == "viscosity":
            API.set_viscosity(e, *a)
        elif k == "density":
            API.set_mass_density(e, *a)
        elif k == "model":
            API.set_constitutive_model(e, a[0], MODELS.get(a[1], dict if a[1] == "dict" else type("Half", (), dict(pk1_stress=0))))
        elif k == "velocity":
            API.set_velocity(e, a[0], arr(a[1]))
        elif k == "gravity":
            API.set_gravity(e, a[0], arr(a[1]))
        elif k == "x":
            x0 = e.bodies[a[0]].x0 if a[0] in e.bodies else MESH["A"][0]
            API.set_spatial_coordinates(e, a[0], arr(x0[:-1] if a[1] == "bad" else shape(x0, a[1])))
        elif k == "type":
            API.set_type(e, *a)
        elif k == "setmat":
            API.set_material(e, *a)
        elif k == "dir":
            API.create_dirichlet_conditions(e, a[0], PHI[a[1]])
        elif k == "tra":
            API.create_traction_conditions(e, a[0], PHI[a[1]], [1.0, 0, 0] if a[2] == "list" else arr(a[2]))
        elif k == "read":
            API.get_material_coordinates(e, a[0])[:] = 33.0
        else:
            raise HarnessError(op)
    finally:
        for j in junk:
            j[...] = 99.0


def compare(e, m, op):
    if not expect(list(e.bodies) == list(m.bodies), f"bodies {list(e.bodies)}", "bodies"):
        return
    n = 0
    for name, b in m.bodies.items():
        r = e.bodies[name]
        V, T = MESH[b["mesh"]]
        expect(r.name == name and r.idx == b["idx"] and r.offset == n, f"{name}: index {r.idx}, offset {r.offset}", "numbering")
        n += len(V)
        if not expect(soft.same_mesh(r.x0, r.T, V, T) is not None, f"{name}: the material mesh is not the mesh given", "mesh"):
            continue
        x0 = API.get_material_coordinates(e, name)
        expect(np.array_equal(x0, r.x0), "get_material_coordinates", "mesh")
        expect(sorted(tuple(sorted(t)) for t in r.surface.tolist()) == sorted(soft.boundary(r.T)), f"{name}: surface", "surface")
        expect(np.array_equal(r.x, shape(x0, b["x"])), f"{name}: spatial coordinates", "x")
        expect(np.array_equal(r.u, np.tile(np.array(b["u"], float), (len(x0), 1))), f"{name}: velocities {r.u[0]}, expected {b['u']}", "u")
        expect(np.array_equal(r.gravity, np.array(b["g"])), f"{name}: gravity", "gravity")
        expect(bool(r.is_fixed) == b["fixed"], f"{name}: fixed", "fixed")
        if b["mat"] is not None:
            expect(r.material_description is e.materials[b["mat"]], f"{name}: material", "material")
        want = [(i, tuple(x0[i])) for p in b["dir"] for i in range(len(x0)) if PHI[p](x0[i]) <= 0]
        expect([(int(c.idx), tuple(c.value)) for c in r.dirichlet_conditions] == want, f"{name}: Dirichlet conditions", "dirichlet")
        want = sorted((tuple(sorted(t)), load) for p, load in b["tra"] for t in soft.boundary(r.T).values() if all(PHI[p](x0[i]) <= 0 for i in t))
        expect(sorted((tuple(sorted((int(c.i), int(c.j), int(c.k)))), tuple(c.traction)) for c in r.traction_conditions) == want, f"{name}: tractions", "traction")
    expect(e.number_of_nodes == n, f"{e.number_of_nodes} nodes, expected {n}", "numbering")
    if not expect(sorted(e.materials) == sorted(m.mats), f"materials {sorted(e.materials)}", "materials"):
        return
    for name, d in m.mats.items():
        r = e.materials[name]
        expect((r.name, r.c, r.rho, r.E, r.nu) == (name, d["c"], d["rho"], d["E"], d["nu"]) and r.constitutive_model is MODELS[d["model"]], f"material {name}: {vars(r)}", "materials")
    lib = e.surfaces_interactions
    names = list(m.mats)
    for A in names:
        for B in names:
            k = tuple(sorted((A, B)))
            exists = k in m.inter or k == ("default", "default")
            expect(bool(lib.exist_interaction(A, B)) == exists, f"interaction {k}", "interaction")
            got = lib.get_interaction(A, B)
            # undeclared pairs use the default interaction
            if expect(got is not None, f"no interaction for {k}", "no interaction"):
                expect(float(got.mu[0]) == float(m.inter.get(k, 1.0)), f"friction of {k} is {got.mu}", "interaction")


def history(case):
    if not case:
        return
    e, m = soft.engine(4), Model()
    tbl = PREFIX[case[0]]
    ops = case[1:]
    for n, op in enumerate(tbl + ops):
        ok = m.apply(op)
        done, why = True, None
        try:
            perform(e, op)
        except BAD as ex:
            done, why = False, ex
        tick()
        expect(done == ok, f"{op}: {'accepted' if done else f'rejected ({why!r})'} after {ops[:max(0, n - len(tbl))]}", f"accept:{op[0]}")
        if n == len(tbl + ops) - 1:
            compare(e, m, op)
    observe(m.key())


def key_of(case):
    if not case:
        return None
    m = Model()
    for op in PREFIX[case[0]] + tuple(case[1:]):
        m.apply(op)
    return m.key()


PREFIX = [(),
          (("body", "a", "A"), ("material", "m")),
          (("body", "a", "B"), ("body", "b", "A"), ("material", "m"), ("material", "k"), ("setmat", "a", "m"), ("setmat", "b", "default"), ("inter", "m", "k", 0.5),
           ("dir", "b", "low"), ("velocity", "a", (1.0, 2.0, 3.0)), ("x", "b", "up"))]
OPS = [("body", "a", "A"), ("body", "b", "B"), ("material", "m"), ("material", "default"), ("material", "k"), ("inter", "m", "m", 0.25), ("inter", "k", "m", 0.75), ("inter", "m", "default", 0.0),
       ("inter", "m", "z", 0.5), ("inter", "k", "k", -0.5), ("inter", "default", "default", 0.5), ("elasticity", "m", 10.0, 0.2), ("elasticity", "m", 0.0, 0.2), ("elasticity", "m", 5.0, 0.6),
       ("elasticity", "m", 5.0, -0.1), ("elasticity", "z", 5.0, 0.1), ("viscosity", "m", 2.0), ("viscosity", "m", -2.0), ("viscosity", "z", 2.0), ("density", "m", 5.0), ("density", "m", -5.0),
       ("density", "z", 5.0), ("model", "m", "SVK"), ("model", "m", "SNH"), ("model", "m", "dict"), ("model", "m", "half"), ("model", "z", "SVK"),
       ("velocity", "a", (0.5, 0.0, -1.0)), ("velocity", "a", (1.0, 2.0)), ("velocity", "z", (1.0, 2.0, 3.0)), ("gravity", "a", (0.0, 0.0, -3.0)), ("gravity", "a", (1.0,)), ("gravity", "z", (0.0, 0, 0)),
       ("x", "a", "up"), ("x", "a", "big"), ("x", "a", "bad"), ("x", "z", "up"), ("type", "a", "FixED"), ("type", "a", "free"), ("type", "a", "static"), ("type", "z", "free"),
       ("setmat", "a", "m"), ("setmat", "b", "m"), ("setmat", "a", "z"), ("setmat", "z", "m"), ("dir", "a", "low"), ("dir", "a", "all"), ("dir", "a", "none"), ("dir", "z", "all"),
       ("tra", "a", "low", (1.0, 2.0, 0.0)), ("tra", "b", "all", (0.0, 0.0, -1.0)), ("tra", "a", "low", "list"), ("tra", "z", "low", (1.0, 0, 0)), ("read", "a"), ("read", "z")]

FAMILIES = dict(history=history)


def explore(ctx):
    def enabled(h):
        return OPS if h else list(range(len(PREFIX)))
    ctx.bfs("history", enabled, key_of, 3 if ctx.quick else 4, max_states=200000)
