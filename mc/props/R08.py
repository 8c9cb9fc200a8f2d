"""R08 hinge joints: placement, velocity constraints, conservation, drift."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import rigid
from mc.core import close, expect, observe, tick
from mc.groups import hamilton, icosa, mat, octa
from mc.props.R02 import SHAPES
from mc.props.R06 import free_velocity

LEVEL = "model_checking"
RULE = ("All placements of a hinge over frames, body orientations, origins and axes; one step of all linkages up to four links (chains, "
        "stars, with free or fixed roots, in every creation order of bodies and hinges) from all velocity patterns; drifted linkages over "
        "several steps with stabilization; linkages that touch a fixed or free floor, in all orientations, velocities and with two friction "
        "coefficients: hinges stay together and contacts apart in the same step, and without friction the velocities are the exact least correction.")
ASSUMPTIONS = ["linked bodies are further apart than the envelope; contacts with a floor in the family touching, exact velocities there for a single hinge and at most 4 contacts", "acyclic linkages", "velocity laws with solver tolerance 1e-11"]
ROTS = list(octa())[::2] + list(icosa())[24:]
_w = {}


def world(env=0.001):
    if "e" not in _w:
        e = rigid.engine(res=3, envelope=env)
        for n, (V, T) in SHAPES.items():
            rigid.add_shape(e, n, V, T)
        from mc import geo
        rigid.add_shape(e, "link", *geo.box(1, .2, .3))
        API.create_gravity_force(e, "g", 9.81, np.array([0.0, 1.0, 0.0]))
        _w["e"] = (e, dict(vars(e.params)))
    e, params = _w["e"]
    e.bodies.clear()
    e.hinges.clear()
    e.contact_points = []
    for k, v in params.items():
        setattr(e.params, k, v)
    return e


def sockets(h):
    P, C = h.parent, h.child
    RP, RC = mat(P.q), mat(C.q)
    ez = np.array([0.0, 0.0, 1.0])
    return (RP @ h.socket_p.r + P.r, RC @ h.socket_c.r + C.r, RP @ mat(h.socket_p.q) @ ez, RC @ mat(h.socket_c.q) @ ez,
            RP @ mat(h.socket_p.q), RC @ mat(h.socket_c.q))


def placement(case):
    shape, qp, qc, o, s, mode, moved = case
    e = world()
    rigid.body(e, "p", shape, r=(1.0, -2.0, 0.5), q=ROTS[qp])
    rigid.body(e, "c", "tet", r=(4.0, 1.0, 2.0), q=ROTS[qc])
    API.create_hinge(e, "h")
    o, s = np.array(o, float), np.array(s, float)
    o0, s0 = o.copy(), s.copy()
    API.set_hinge(e, "h", "p", "c", o, s, mode)
    tick()
    expect(np.array_equal(o, o0) and np.array_equal(s, s0), "the arguments were modified", "args")
    P = e.bodies["p"]
    if mode == "world":
        wo, ws = o, s
    elif mode == "body":
        wo, ws = mat(P.q) @ o + P.r, mat(P.q) @ s
    else:
        wo, ws = mat(ROTS[qp]) @ o + np.array((1.0, -2.0, 0.5)), mat(ROTS[qp]) @ s
    ws = ws / np.linalg.norm(ws)
    h = e.hinges["h"]
    rp, rc, np_, nc, RP, RC = sockets(h)
    tol = 1e-6
    expect(close(rp, wo, tol) and close(rc, wo, tol), f"sockets at {rp}, {rc}, requested {wo} ({mode})", f"origin:{mode}")
    expect(close(np_, ws, tol) and close(nc, ws, tol), f"axes {np_}, {nc}, requested {ws} ({mode})", f"axis:{mode}")
    expect(close(RP, RC, tol), "joint frames of the two bodies differ", "frames")
    expect(close(mat(P.q) @ h.axis_p, ws, tol) and close(mat(h.child.q) @ h.axis_c, ws, tol) and close(h.arm_p, h.socket_p.r) and close(h.arm_c, h.socket_c.r),
           "arms and axes disagree with the sockets", "arms")
    if moved:
        # the sockets belong to the bodies: they follow them
        before = [mat(e.bodies[n].q).T @ (x - e.bodies[n].r) for n, x in (("p", rp), ("c", rc))]
        API.set_orientation(e, "p", np.array(ROTS[(qp + 31) % len(ROTS)]))
        API.set_position(e, "c", np.array([9.0, 9.0, 9.0]))
        r2 = sockets(h)
        expect(close(mat(e.bodies["p"].q).T @ (r2[0] - e.bodies["p"].r), before[0]) and close(mat(e.bodies["c"].q).T @ (r2[1] - e.bodies["c"].r), before[1]),
               "sockets do not move with the bodies", "follow")
    observe((shape, mode, wo, ws), 3)


TREES = {2: [((0, 1),), ((1, 0),)], 3: [((0, 1), (1, 2)), ((0, 1), (0, 2)), ((1, 0), (2, 1)), ((2, 0), (1, 2))],
         4: [((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3)), ((1, 0), (1, 2), (3, 2)), ((0, 1), (1, 2), (1, 3))]}
AX = [(0, 0, 1.0), (0, 1.0, 0), (1.0, 0, 0), (1.0, 1.0, 0), (0.0, 2.0, -1.0), (1.0, -2.0, 2.0)]


def linkage(e, case):
    n, edges, roots, order, horder, rot, ax, vel, grav = case
    R = mat(np.array(ROTS[rot]))
    P = [np.array([1.3 * i, 0.0, 0.0]) for i in range(n)]
    if any(sum(1 for a in edges if i in a) > 2 for i in range(n)):  # star
        P = [np.zeros(3), np.array([1.3, 0, 0]), np.array([-1.3, 0, 0]), np.array([0, 0.9, 0])][:n]
        if edges == ((0, 1), (1, 2), (1, 3)):
            P = [np.array([1.3, 0, 0]), np.zeros(3), np.array([-1.3, 0, 0]), np.array([0, 0.9, 0])]
    P = [R @ p + np.array([0.0, 5.0, 0.0]) for p in P]
    rng = [(0.0, 0.0, 0.0), (1.0, -2.0, 0.5), (-0.5, 0.25, 3.0), (2.0, 1.0, -1.0)]
    for i in order:
        k = {"rest": 0, "a": (i + 1) % 4, "b": (2 * i + 3) % 4, "first": 1 if i == 0 else 0}[vel]
        rigid.body(e, f"L{i}", "link", r=P[i], q=ROTS[rot], v=np.array(rng[k]), w=np.array(rng[(k * 3 + 2) % 4]) if vel != "rest" else (0, 0, 0),
                   density=1.0 + i, fixed=i in roots, forces=["g"] if grav else [])
        if i in roots:
            API.set_velocity(e, f"L{i}", np.zeros(3))
            API.set_spin(e, f"L{i}", np.zeros(3))
    for j in horder:
        a, b = edges[j]
        API.create_hinge(e, f"H{j}")
        mid = 0.5 * (P[a] + P[b])
        API.set_hinge(e, f"H{j}", f"L{a}", f"L{b}", mid, R @ np.array(AX[(ax + j) % len(AX)]))


def rates(e, s0, vel):
    """The largest rate at which the hinges of a linkage come apart."""
    m = 0.0
    for h in e.hinges.values():
        P, C = h.parent.name, h.child.name
        RP, RC = mat(s0[P][1]), mat(s0[C][1])
        ap, ac, ax = RP @ h.arm_p, RC @ h.arm_c, RP @ h.axis_p
        dv = vel[P][0] + np.cross(vel[P][1], ap) - vel[C][0] - np.cross(vel[C][1], ac)
        dw = vel[P][1] - vel[C][1]
        m = max(m, np.abs(dv).max(), np.abs(dw - (dw @ ax) * ax).max() / np.abs(ax).max())
    return m


def step(case):
    e = world()
    dt = 1e-6 if case[8] is False else 0.01
    linkage(e, case)
    e.params.time_step = dt
    e.params.absolute_tolerance, e.params.relative_tolerance, e.params.max_iterations, e.params.too_small_merit_change = 1e-11, 0.0, 3000, 1e-13
    s0 = rigid.state(e)
    API.simulate(e, dt)
    tick()
    s1 = rigid.state(e)
    if not expect(not e.contact_points, "contacts between the links", "contacts"):
        return
    vel = {n: (s1[n][2], s1[n][3]) for n in s1}
    imp = {}
    for n, b in e.bodies.items():
        R = mat(s0[n][1])
        J = R @ np.diag(b.inertia) @ R.T
        fv, fw = free_velocity(b, s0[n], dt)
        imp[n] = None if b.is_fixed else (b.mass * (vel[n][0] - fv), J @ (vel[n][1] - fw))
        if b.is_fixed:
            expect(all(np.array_equal(x, y) for x, y in zip(s0[n], s1[n])), f"fixed {n} moved", "fixed")
    # the solver converges for a single hinge; for longer chains its r-factors may shrink to zero before
    lim = 1e-4 if len(e.hinges) == 1 else 0.8 * rates(e, s0, {n: free_velocity(b, s0[n], dt) for n, b in e.bodies.items()})
    r = rates(e, s0, vel)
    expect(r <= lim, f"anchors and axes move apart at a rate of {r}, limit {lim}", "rates")
    if not any(b.is_fixed for b in e.bodies.values()):
        expect(close(sum(x[0] for x in imp.values()), np.zeros(3), 1e-7), "hinge forces change the momentum", "momentum")
        expect(close(sum(x[1] + np.cross(s0[n][0], x[0]) for n, x in imp.items()), np.zeros(3), 1e-6), "hinge forces change the angular momentum", "angular")
    if len(e.hinges) == 1:
        h = e.hinges["H" + str(case[4][0])]
        for b, arm, axis in ((h.parent, h.arm_p, h.axis_p), (h.child, h.arm_c, h.axis_c)):
            if imp[b.name] is None:
                continue
            R = mat(s0[b.name][1])
            t = imp[b.name][1] - np.cross(R @ arm, imp[b.name][0])
            expect(abs(t @ (R @ axis)) < 1e-6, f"torque {t @ (R @ axis)} about the free axis", "torque")
    k0 = sum(0.5 * b.mass * s0[n][2] @ s0[n][2] + 0.5 * s0[n][3] @ rigid.inertia_world(b) @ s0[n][3] for n, b in e.bodies.items())
    k1 = sum(0.5 * b.mass * s1[n][2] @ s1[n][2] + 0.5 * s1[n][3] @ rigid.inertia_world(b) @ s1[n][3] for n, b in e.bodies.items())
    if not case[8]:
        expect(k1 <= k0 * (1 + 1e-3) + 1e-6, f"hinges raise the kinetic energy from {k0} to {k1}", "energy")
    observe((case[0], case[1], k0 - k1, [vel[n][0] for n in sorted(vel)]), 3)


def gaps(e):
    g, a = 0.0, 0.0
    for h in e.hinges.values():
        rp, rc, n_p, n_c, _, _ = sockets(h)
        g, a = max(g, np.abs(rp - rc).max()), max(a, np.linalg.norm(np.cross(n_p, n_c)))
    return g, a


def drift(case):
    """A linkage pulled apart closes again with stabilization; the mechanism still moves."""
    link, reduction, sep, steps, dt = case
    e = world()
    linkage(e, link)
    e.params.use_pre_stabilization = True
    e.params.gap_reduction = reduction
    e.params.time_step = dt
    last = f"L{link[0] - 1}"
    if last in [f"L{i}" for i in link[2]]:
        last = "L0"
    API.set_position(e, last, API.get_position(e, last) + np.array(sep))
    API.set_orientation(e, last, np.array(hamilton((1.0, 0.02, -0.03, 0.01), e.bodies[last].q)))
    g0, a0 = gaps(e)
    for k in range(steps):
        API.simulate(e, dt)
        tick()
        g, a = gaps(e)
        expect(g < 2.0 * g0 + 0.02 and a < 3.0 * a0 + 0.05, f"step {k}: gap {g} (initially {g0}), axis error {a} (initially {a0})", "grow")
    expect(g < 0.4 * g0 and a < 0.6 * a0 + 0.01, f"gap {g} of {g0}, axis error {a} of {a0} after {steps} steps", "close")
    observe((case[:3], g, a), 3)


def hinge_rows(e, names, s0):
    rows = []
    for h in e.hinges.values():
        P, C = h.parent.name, h.child.name
        RP, RC = mat(s0[P][1]), mat(s0[C][1])
        ax = RP @ h.axis_p
        U = np.linalg.svd(ax[None, :])[2][1:]
        A = np.zeros((5, 6 * len(names)))
        for n, arm, sign in ((P, RP @ h.arm_p, 1.0), (C, RC @ h.arm_c, -1.0)):
            i = 6 * names.index(n)
            A[:3, i:i + 3] = sign * np.eye(3)
            A[:3, i + 3:i + 6] = -sign * np.array([[0, -arm[2], arm[1]], [arm[2], 0, -arm[0]], [-arm[1], arm[0], 0]])
            A[3:, i + 3:i + 6] = sign * U
        rows.append(A)
    return np.vstack(rows)


def touching(case):
    """A linkage on a floor: hinges and contacts hold in the same step."""
    link, floor, mu, depth, first = case
    from mc import geo
    from mc.props import R06, R10
    from mc.props.R04 import MESH
    e = R06.world()
    e.hinges.clear()
    if "link" not in e.shapes:
        rigid.add_shape(e, "link", *geo.box(1, .2, .3))
    API.create_surfaces_interaction(e, "default", "f", 0.0, np.array([mu] * 3))
    grav = link[8]
    dt = 0.01 if grav else 1e-6

    def plate(y):
        rigid.body(e, "F", "plate", r=(0.05, y - MESH["plate"][0][:, 1].max(), -0.03), fixed=floor == "fixed", material="f", density=4.0)
    linkage(e, link)
    low = min(rigid.world_vertices(b)[:, 1].min() for b in e.bodies.values() if not b.is_fixed) + depth
    if first:
        linked = dict(e.bodies)
        e.hinges.clear()
        e.bodies.clear()
        plate(low)
        linkage(e, link)
    else:
        plate(low)
    for n, b in e.bodies.items():
        if n != "F" and not b.is_fixed:
            API.set_velocity(e, n, b.v - np.array([0, 0.8, 0]))
    names, S = R10.system(e)
    s0 = rigid.state(e)
    free = {n: free_velocity(b, s0[n], dt) for n, b in e.bodies.items()}
    e.params.time_step = dt
    e.params.absolute_tolerance, e.params.relative_tolerance, e.params.max_iterations, e.params.too_small_merit_change = 1e-11, 0.0, 2000 if len(e.hinges) == 1 else 200, 1e-13
    API.simulate(e, dt)
    tick()
    s1 = rigid.state(e)
    if any("F" not in (c.bodyA.name, c.bodyB.name) for c in e.contact_points):
        observe((case, "links touch"))
        return
    vel = {n: s1[n][2:] for n in s1}
    J = R10.rows(e, names, s0)
    u0, uf, u1 = (np.concatenate([np.concatenate(v[n]) for n in names]) for v in ({n: s0[n][2:] for n in names}, free, vel))
    before, after = rates(e, s0, free), rates(e, s0, vel)
    speed = max(before, -(J @ uf).min(initial=0))
    one = len(e.hinges) == 1 and len(J) <= 4
    expect(after <= (1e-2 if one else 0.8) * speed + 1e-6, f"hinges of a linkage in contact come apart at a rate of {after}, {before} before", "touching:rates")
    approach = -(J @ u1).min(initial=0)
    expect(approach <= (1e-2 if one else 0.8) * speed + 1e-6, f"a contact of a linkage approaches at {approach} after the step", "touching:approach")
    for n, b in e.bodies.items():
        if b.is_fixed:
            expect(all(np.array_equal(x, y) for x, y in zip(s0[n], s1[n])), f"fixed {n} moved", "fixed")
    if not any(b.is_fixed for b in e.bodies.values()):
        dp = sum(b.mass * (vel[n][0] - free[n][0]) for n, b in e.bodies.items())
        expect(close(dp, np.zeros(3), 1e-7), f"hinges and contacts change the momentum by {dp}", "touching:momentum")
    if not grav:
        inv = np.linalg.pinv(S)
        k0, k1 = (0.5 * np.sum((inv @ u) ** 2) for u in (u0, u1))
        expect(k1 <= k0 * (1 + 1e-3) + 1e-6, f"hinges and contacts raise the kinetic energy from {k0} to {k1}", "touching:energy")
    if mu == 0 and one and len(J) and after < 1e-4 * speed and approach < 1e-4 * speed:
        A = hinge_rows(e, names, s0)
        y = S @ (np.linalg.pinv(A @ S) @ (-A @ uf))
        _, sv, Vt = np.linalg.svd(A @ S)
        N = Vt[(sv > 1e-9).sum():].T
        sol = R10.least(S @ N, J, -J @ (uf + y))
        if sol is not None:
            ref = uf + y + sol
            expect(np.abs(u1 - ref).max() < 1e-2 * (1 + speed), f"velocities {u1} of a touching linkage differ from the least change {ref} by {np.abs(u1 - ref).max()}", "touching:velocity")
    observe((case, len(J), round(before, 2)))


FAMILIES = dict(touching=touching, placement=placement, step=step, drift=drift)


def links(q):
    for n, trees in TREES.items():
        for edges in trees:
            for roots in ((), (0,), (n - 1,)):
                orders = [tuple(range(n)), tuple(reversed(range(n)))] + ([] if q else [tuple(range(1, n)) + (0,)])
                for order in orders:
                    for horder in itertools.permutations(range(len(edges))) if len(edges) < 3 or not q else [tuple(range(3)), (2, 0, 1)]:
                        yield n, edges, roots, order, horder


def explore(ctx):
    q = ctx.quick
    os_ = [(0.0, 0.0, 0.0), (1.5, -0.25, 3.0)]
    axs = [(0, 0, 1.0), (0, 0, -1.0), (1.0, 0, 0), (0, -1.0, 0), (1.0, 2.0, -2.0), (0.3, -0.3, 0.3)]
    cases = [(s, qp, (qp * 5 + 17) % len(ROTS), o, a, m, (qp + i) % 3 == 0) for s in SHAPES for qp in range(0, len(ROTS), 4 if q else 1) for o in os_ for i, a in enumerate(axs)
             for m in ("world", "body", "model")]
    ctx.run("placement", cases, procs=8)
    rots = (0, 7, 60) if q else range(0, len(ROTS), 9)
    cases = [(n, ed, ro, o, h, rot, ax, vel, grav) for n, ed, ro, o, h in links(q) for rot in rots for ax in range(0, len(AX), 2 if q else 1)
             for vel in ("a", "b", "first") for grav in (False, True)]
    ctx.run("step", cases[::11] if q else cases[::13], procs=8)
    base = [(n, ed, ro, tuple(range(n)), tuple(range(len(ed))), rot, ax, "rest", False) for n, trees in TREES.items() if n < 4 or not q for ed in trees for ro in ((), (0,)) for rot in (0, 60) for ax in ((0, 4) if q else range(6))]
    ctx.run("drift", [(b, red, sep, 40, 0.01) for b in base for red in (0.5, 0.2) for sep in ((0.03, 0.02, 0.0), (0.0, -0.02, 0.04))], procs=8)
    T = [(n, ed, ro, o, h, rot, ax, vel, grav) for n, ed, ro, o, h in links(True) if n < 4 or not q for rot in ((0, 7, 33, 60) if q else range(0, len(ROTS), 5)) for ax in range(len(AX))
         for vel in ("rest", "a", "b") for grav in (False, True)]
    T = [(t, floor, mu, depth, first) for t in T for floor in ("fixed", "free") for mu in (0.0, 0.3) for depth in (0.02, 0.0) for first in (False, True)]
    ctx.run("touching", T[::331] if q else T[::43], procs=8)
