"""R06 contact impulses: unilateral, bounded by friction, restitution, conservation."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import rigid
from mc.core import close, expect, observe, tick
from mc.groups import icosa, mat
from mc.props.R04 import MESH

LEVEL = "model_checking"
RULE = ("All combinations of body pair, orientation, friction, restitution, velocities, fixed/moving support, gravity, creation order and "
        "solver accuracy with real contacts; for one contact point the impulse is recovered from the change of momentum and judged "
        "against every contact law, for several points the conservation laws and remaining approach velocities are judged; all crowds of two or three "
        "impacts with different materials, each compared with the same impact alone.")
ASSUMPTIONS = ["one contact: solver tolerance 1e-10 except in the family with default parameters", "restitution, sticking and remaining approach velocities are judged for friction below one (the sweeps may stall beyond)",
               "isotropic Coulomb friction including a torsional part, as documented"]
ICO = list(icosa())
_w = {}


def world():
    if "e" not in _w:
        e = rigid.engine(res=12, envelope=0.05)
        for n in ("plate", "cube", "tet", "rod", "brick"):
            rigid.add_shape(e, n, *MESH[n])
        API.create_gravity_force(e, "g", 9.81, np.array([0.0, 1.0, 0.0]))
        _w["e"] = (e, dict(vars(e.params)))
    e, params = _w["e"]
    e.bodies.clear()
    for k, v in params.items():
        setattr(e.params, k, v)
    e.surfaces_interactions.storage.clear()
    e.surfaces_interactions.storage[("default", "default")] = type("I", (), {})()
    from rainbow.simulators.prox_rigid_bodies.types import SurfacesInteraction
    e.surfaces_interactions.storage[("default", "default")] = SurfacesInteraction()
    return e


def point_velocity(b, s, p):
    return s[2] + np.cross(s[3], p - s[0])


def setup(case):
    a, b, g, support, mu, eps, v, w, grav, order, dt = case
    e = world()
    API.create_surfaces_interaction(e, "m", "k", eps, np.array([mu, 0.9, 0.1]))
    e.params.use_bounce = eps > 0
    e.params.time_step = dt
    q = ICO[g]
    R = mat(np.array(q))
    W = MESH[b][0] @ R.T
    i = np.argmin(W[:, 1])
    off = np.array([0.13, MESH[a][0][:, 1].max(), -0.07]) - W[i] + np.array([0, -0.02, 0])

    def A():
        rigid.body(e, "A", a, fixed=support != "free", material="m", v=(0.4, 0.0, -0.2) if support == "moving" else (0, 0, 0), density=2.0)

    def B():
        rigid.body(e, "B", b, r=off, q=q, v=v, w=w, material="k", forces=["g"] if grav else [])
    for f in ((A, B) if order == "AB" else (B, A)):
        f()
    return e


def free_velocity(b, s, dt):
    """Velocities without contact."""
    if b.is_fixed:
        return s[2], s[3]
    R = mat(s[1])
    J = R @ np.diag(b.inertia) @ R.T
    v = s[2] + dt * sum((-9.81 * np.array([0, 1.0, 0]) for f in b.forces), np.zeros(3))
    return v, s[3] + dt * np.linalg.solve(J, -np.cross(s[3], J @ s[3]))


def step(e, dt):
    s0 = rigid.state(e)
    API.simulate(e, dt)
    tick()
    s1 = rigid.state(e)
    J = {n: mat(s0[n][1]) @ np.diag(b.inertia) @ mat(s0[n][1]).T for n, b in e.bodies.items()}
    imp = {}
    for n, b in e.bodies.items():
        fv, fw = free_velocity(b, s0[n], dt)
        if b.is_fixed:
            expect(np.array_equal(s1[n][2], s0[n][2]) and np.array_equal(s1[n][3], s0[n][3]), f"velocity of fixed {n} changed", "fixed")
            imp[n] = None
        else:
            imp[n] = (b.mass * (s1[n][2] - fv), J[n] @ (s1[n][3] - fw))
    return s0, s1, imp, J


def energy(e, s0, s, J):
    return sum(0.5 * b.mass * s[n][2] @ s[n][2] + 0.5 * s[n][3] @ J[n] @ s[n][3] for n, b in e.bodies.items() if not b.is_fixed)


def laws(case):
    a, b, g, support, mu, eps, v, w, grav, order, dt = case
    e = setup(case)
    # the solver's own parameters for high accuracy; the laws do not depend on them
    e.params.absolute_tolerance, e.params.relative_tolerance, e.params.max_iterations, e.params.too_small_merit_change = 1e-12, 0.0, 3000, 1e-12
    s0, s1, imp, J = step(e, dt)
    cps = e.contact_points
    expect(len(cps) > 0, "no contact", "none")
    common(e, s0, s1, imp, J, dt, eps, mu)
    if len(cps) != 1:
        observe((case, len(cps)))
        return
    c = cps[0]
    first, second = c.bodyA.name, c.bodyB.name
    pB, LB = imp["B"]
    n = c.n if second == "B" else -c.n  # impulse on B along the normal pointing to B
    lam = pB @ n
    ft = pB - lam * n
    rest = LB - np.cross(c.p - s0["B"][0], pB)
    tau = rest @ n
    tol = 1e-7
    expect(lam >= -tol, f"attracting impulse {lam}", "sign")
    expect(np.abs(rest - tau * n).max() < tol, f"torque impulse {rest} is not along the normal {n}", "torque")
    f = np.sqrt(ft @ ft + tau * tau)
    expect(f <= mu * lam + tol, f"friction impulse {f} exceeds {mu} x {lam}", "cone")
    vel = {k: point_velocity(e.bodies["B"], s["B"], c.p) - point_velocity(e.bodies["A"], s["A"], c.p) for k, s in (("pre", s0), ("post", dict(s1, A=(s0["A"][0],) + s1["A"][1:], B=(s0["B"][0],) + s1["B"][1:])))}
    pre, post = vel["pre"] @ n, vel["post"] @ n
    target = -eps * pre
    tr = 1e-4
    exact = mu < 1  # the sweeps need not converge for large friction
    expect(not exact or post - target >= -tr, f"normal velocity {post} after the impact, {pre} before, restitution {eps}", "restitution")
    if lam > 1e-6 and exact:
        expect(abs(post - target) < tr, f"normal velocity {post} after the impact, {pre} before, restitution {eps}", "restitution")
    wt = vel["post"] - post * n
    wtau = (s1["B"][3] - s1["A"][3]) @ n
    slip = np.sqrt(wt @ wt + wtau * wtau)
    expect(ft @ wt + tau * wtau <= 1e-7, f"friction {ft}, {tau} does work on the slip {wt}, {wtau}", "dissipation")
    if not exact:
        pass
    elif f < mu * lam - 1e-5:
        expect(slip < 1e-4, f"slip {slip} although the friction {f} is below its limit {mu * lam}", "stick")
    elif lam > 1e-3 and mu > 0 and slip > 1e-3:
        expect(f >= mu * lam - 1e-5, f"slipping with friction {f} below its limit {mu * lam}", "slide")
    observe((case, round(lam, 3), round(f, 3), slip > 1e-4))


def common(e, s0, s1, imp, J, dt, eps, mu):
    pA, pB = imp["A"], imp["B"]
    if pA is not None:
        expect(close(pA[0] + pB[0], np.zeros(3), 1e-8), f"impulses {pA[0]} and {pB[0]} do not balance", "momentum")
        L = np.cross(s0["A"][0], pA[0]) + pA[1] + np.cross(s0["B"][0], pB[0]) + pB[1]
        expect(close(L, np.zeros(3), 1e-8), f"angular impulses leave {L}", "angular")
    moving = np.abs(s0["A"][2]).max() > 0 and e.bodies["A"].is_fixed
    if (eps == 0 or mu == 0) and not moving and dt < 1e-5 and len(e.contact_points) == 1:
        k0, k1 = energy(e, s0, s0, J), energy(e, s0, s1, J)
        expect(k1 <= k0 * (1 + 1e-6) + 1e-5, f"kinetic energy grows from {k0} to {k1}", "energy")


def default(case):
    """With the parameters an engine is created with."""
    a, b, g, support, mu, eps, v, w, grav, order, dt = case
    e = setup(case)
    s0, s1, imp, J = step(e, dt)
    expect(len(e.contact_points) > 0, "no contact", "none")
    common(e, s0, s1, imp, J, dt, eps, mu)
    worst, speed = 0.0, 0.0
    for c in e.contact_points:
        X, Y = c.bodyA.name, c.bodyB.name
        pre = c.n @ (point_velocity(c.bodyB, s0[Y], c.p) - point_velocity(c.bodyA, s0[X], c.p))
        t = {k: (s0[k][0],) + s1[k][1:] for k in s1}
        post = c.n @ (point_velocity(c.bodyB, t[Y], c.p) - point_velocity(c.bodyA, t[X], c.p))
        worst = min(worst, post + eps * pre)
        speed = max(speed, -pre)
    many = len(e.contact_points) > 1
    expect(mu >= 1 or worst >= -(0.3 if many else 0.2) * speed - 0.005, f"a contact approaches with {-worst} after the step, fastest approach before was {speed}", "approach")
    observe((case, len(e.contact_points), round(worst, 2)))


def swap(case):
    """The creation order does not matter for one contact."""
    res = []
    for order in ("AB", "BA"):
        c = case[:9] + (order,) + case[10:]
        e = setup(c)
        e.params.absolute_tolerance, e.params.relative_tolerance, e.params.max_iterations, e.params.too_small_merit_change = 1e-12, 0.0, 3000, 1e-12
        step(e, case[10])
        res.append((len(e.contact_points), rigid.state(e)))
    (k0, a), (k1, b) = res
    if k0 == 1:
        expect(k1 == 1 and all(close(x, y, 1e-6) for n in a for x, y in zip(a[n], b[n])), f"creation order changes the impact: {a} / {b}", "swap")
    observe((case, k0))


PAIRS = [(0.0, 0.0), (0.25, 0.5), (0.6, 1.0), (0.6, 0.0)]
FLYER = [("tet", 3), ("cube", 40), ("tet", 77), ("rod", 12)]


def crowd(case):
    """Impacts that have no free body in common do not influence each other: each ends as if it were alone, with its own pair of materials."""
    shared, flip, who, mats = case

    def run(members):
        e = world()
        e.params.use_bounce = True
        e.params.absolute_tolerance, e.params.relative_tolerance, e.params.max_iterations, e.params.too_small_merit_change = 1e-12, 0.0, 3000, 1e-12
        top = MESH["plate"][0][:, 1].max()
        todo = []
        for i in members:
            mu, eps = PAIRS[mats[i]]
            API.create_surfaces_interaction(e, *(("m", f"k{i}") if not flip else (f"k{i}", "m")), eps, np.array([mu, 0.9, 0.1]))
            b, g = FLYER[who[i]]
            at = np.array([(-1.1, 0.0, -1.1), (1.1, 0.0, -1.0), (0.1, 0.0, 1.1)][i]) if shared else np.array([20.0 * i, 0.0, 3.0])
            W = MESH[b][0] @ mat(np.array(ICO[g])).T
            off = at + np.array([0, top, 0]) - W[np.argmin(W[:, 1])] - np.array([0, 0.02, 0])
            if not shared:
                todo.append(lambda i=i, at=at: rigid.body(e, f"A{i}", "plate", r=at, fixed=True, material="m"))
            todo.append(lambda i=i, b=b, off=off, g=g: rigid.body(e, f"B{i}", b, r=off, q=ICO[g], v=(0.5, -1.0, 0.2 * i), w=(1.0, 2.0, 0.5), material=f"k{i}"))
        if shared:
            todo.insert(0, lambda: rigid.body(e, "A", "plate", fixed=True, material="m"))
        for f in todo[::-1] if flip else todo:
            f()
        API.simulate(e, 1e-6)
        tick()
        n = {i: sum(f"B{i}" in (c.bodyA.name, c.bodyB.name) for c in e.contact_points) for i in members}
        if any("A" not in c.bodyA.name + c.bodyB.name for c in e.contact_points):
            return None, None  # two flyers touch
        return n, {i: rigid.state(e)[f"B{i}"] for i in members}
    n, together = run(range(len(who)))
    if n is None:
        return
    for i in range(len(who)):
        k, alone = run([i])
        expect(k[i] == n[i] and k[i] > 0, f"body {i} has {n[i]} contacts in the crowd, {k[i]} alone", "crowd")
        expect(k[i] != 1 or all(close(x, y, 1e-6) for x, y in zip(together[i], alone[i])), f"body {i} ends with {together[i][2:]} in the crowd, alone with {alone[i][2:]}", "crowd")
    observe((case, tuple(n.values())))


FAMILIES = dict(laws=laws, default=default, swap=swap, crowd=crowd)


def explore(ctx):
    q = ctx.quick
    gs = (3, 40, 77) if q else (3, 12, 29, 40, 58, 77, 91, 110)
    pairs = [(a, b) for a in ("plate", "cube") for b in (("cube", "tet", "rod") if q else ("cube", "tet", "rod", "brick"))]
    V = [(0, -1, 0), (.5, -1, .2), (0.1, 1, 0), (0.004, -0.05, 0.01), (3.0, -25.0, 4.0)]
    W = [(0, 0, 0), (1, 2, .5)]
    kinds = [(support, mu, eps) for support in ("free", "fixed", "moving") for mu in (0.0, 0.2, 0.5, 1.0) for eps in (0.0, 0.5, 1.0)]
    cases = [(a, b, g, s, mu, eps, v, w, grav, order, dt) for a, b in pairs for g in gs for s, mu, eps in kinds for v in V for w in W
             for grav, order, dt in ((False, "AB", 1e-6), (True, "BA", 0.01))]
    ctx.run("default", cases[::2] if q else cases, procs=8)
    ctx.run("laws", cases[::3] if q else cases, procs=8)
    ctx.run("swap", [c for c in cases[::7] if c[9] == "AB"], procs=8)
    C = [(sh, fl, who, m) for sh in (False, True) for fl in (False, True) for k in (2, 3) for who in itertools.product(range(len(FLYER)), repeat=k) if not sh or len(set(who) & {1, 3}) == 0
         for m in itertools.permutations(range(len(PAIRS)), k)]
    ctx.run("crowd", C[::11] if q else C, procs=8)
