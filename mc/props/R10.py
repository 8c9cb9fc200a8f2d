"""R10 frictionless contact response and drift stabilization against the exact least correction."""
import itertools

import numpy as np
from scipy.optimize import nnls

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import rigid
from mc.core import expect, observe, tick
from mc.groups import icosa, mat
from mc.props.R04 import MESH
from mc.props.R06 import free_velocity, world

LEVEL = "model_checking"
RULE = ("All combinations of scene (pairs, stacks, neighbours, bystanders) x shapes x orientations x penetration depth x velocity x "
        "stabilization mode x stabilization parameters x time step; velocities and positions after one real step are compared with the "
        "exact solution of the least change problem over the detected contacts (computed by active sets, independent of the solver).")
ASSUMPTIONS = ["no friction and no bounce (the subject of R06)", "at most 4 contacts for the exact comparison (with more, the adaptive step sizes can shrink to nothing before the solution is reached); with more, the change of velocity is a sum of pushes along the contact normals", "solver iterated to high accuracy; 1e-2 relative agreement (2e-2 in scenes of three bodies)"]
ICO = list(icosa())
FEW = 4  # contacts up to which the sweep is accurate; beyond, its step sizes may shrink before it has arrived
STACK = {
    "ground": [("A", "plate", True), ("B", None, False)],
    "pair": [("A", "plate", False), ("B", None, False)],
    "moving": [("A", "plate", True), ("B", None, False)],
    "beside": [("A", "plate", True), ("B", None, False), ("C", "cube", False)],
    "tower": [("A", "plate", True), ("B", None, False), ("C", "brick", False)],
    "bystander": [("A", "plate", True), ("B", None, False), ("C", "tet", False)],
}


def setup(case):
    scene, shape, g, depth, v, w, grav, mode, par, dt = case
    e = world()
    API.create_surfaces_interaction(e, "m", "m", 0.0, np.zeros(3))
    p = e.params
    p.time_step = dt
    p.use_pre_stabilization, p.use_post_stabilization = mode in ("pre", "both"), mode in ("post", "both")
    p.gap_reduction, p.min_gap_value, p.max_gap_value = par
    p.absolute_tolerance, p.relative_tolerance, p.max_iterations, p.too_small_merit_change = 1e-10, 0.0, 1500, 1e-12
    q = ICO[g]
    R = mat(np.array(q))
    top = MESH["plate"][0][:, 1].max()
    W = MESH[shape][0] @ R.T
    off = np.array([0.13, top, -0.07]) - W[np.argmin(W[:, 1])] - np.array([0, depth, 0])
    at = dict(A=(np.zeros(3), np.array([1.0, 0, 0, 0])), B=(off, q))
    if scene == "beside":  # on the plate next to B without touching it
        at["B"] = (off + (-1.3, 0, 0.2), q)
        C = MESH["cube"][0]
        at["C"] = (np.array([1.0, top - C[:, 1].min() - 0.5 * depth, 0.1]), (1, 0, 0, 0))
    elif scene == "tower":
        C = MESH["brick"][0]
        at["C"] = (np.array([off[0] + W[np.argmax(W[:, 1])][0], off[1] + W[:, 1].max() - C[:, 1].min() - depth, off[2] + W[np.argmax(W[:, 1])][2]]), (1, 0, 0, 0))
    elif scene == "bystander":
        at["C"] = (np.array([30.0, 5, 1]), ICO[7])
    for n, s, fixed in STACK[scene]:
        r, qq = at[n]
        rigid.body(e, n, s or shape, r=r, q=qq, fixed=fixed, material="m", density=dict(A=3.0, B=1.0, C=0.5)[n],
                   v=(0.2, 0.1, 0.0) if n == "A" and scene == "moving" else v if n == "B" else (0, -0.1, 0.3) if n == "C" else (0, 0, 0),
                   w=w if n == "B" else (0.2, 0, -0.1) if n == "C" else (0, 0, 0), forces=["g"] if grav and n != "A" else [])
    return e


def least(M, J, h):
    """argmin 1/2 x.M x subject to J x >= h (block diagonal M given as list of inverse square roots), None if infeasible."""
    G = J @ M
    keep = np.abs(G).max(axis=1) > 1e-12
    if (h[~keep] > 1e-9).any():
        return None
    G, h = G[keep], h[keep]
    if not len(h) or h.max() <= 0:
        return np.zeros(M.shape[0])
    E = np.vstack([G.T, h[None, :]])
    f = np.zeros(len(E))
    f[-1] = 1.0
    u, res = nnls(E, f, maxiter=200 * E.shape[1])
    r = E @ u - f
    if res < 1e-9 or abs(r[-1]) < 1e-12:
        return None
    return M @ (-r[:-1] / r[-1])


def system(e):
    """Contact rows and inverse square roots of the masses, from the detected contacts and the state before the step."""
    names = list(e.bodies)
    S = np.zeros((6 * len(names), 6 * len(names)))
    for i, n in enumerate(names):
        b = e.bodies[n]
        if not b.is_fixed:
            R = mat(b.q)
            S[6 * i:6 * i + 3, 6 * i:6 * i + 3] = np.eye(3) / np.sqrt(b.mass)
            S[6 * i + 3:6 * i + 6, 6 * i + 3:6 * i + 6] = R @ np.diag(1 / np.sqrt(b.inertia)) @ R.T
    return names, S


def rows(e, names, s0):
    J = np.zeros((len(e.contact_points), 6 * len(names)))
    for k, c in enumerate(e.contact_points):
        for b, sign in ((c.bodyA, -1), (c.bodyB, 1)):
            i = 6 * names.index(b.name)
            J[k, i:i + 3] += sign * c.n
            J[k, i + 3:i + 6] += sign * np.cross(c.p - s0[b.name][0], c.n)
    return J


def spin_of(q0, q1):
    """rotation vector of q1 q0^-1 measured by the tangent of the half angle"""
    w0, v0, w1, v1 = q0[0], q0[1:], q1[0], q1[1:]
    w = w1 * w0 + v1 @ v0
    v = -w1 * v0 + w0 * v1 - np.cross(v1, v0)
    return 2 * v / w


def pushed(S, J, change, what):
    """The change is a combination of pushes along the contact normals."""
    inv = np.linalg.pinv(S)
    keep = np.abs(np.diag(S)) > 0
    _, res = nnls((J @ S).T[keep], (inv @ change)[keep], maxiter=100 * len(J) + 100)
    size = np.linalg.norm((inv @ change)[keep])
    expect(res < 1e-6 * (1 + size), f"{what}: change {change} is no sum of pushes along the normals (off by {res})", "cone")


def response(case):
    scene, shape, g, depth, v, w, grav, mode, par, dt = case
    e = setup(case)
    P = e.params
    names, S = system(e)
    s0 = rigid.state(e)
    API.simulate(e, dt)
    tick()
    s1 = rigid.state(e)
    J = rows(e, names, s0)
    gap = np.array([c.g for c in e.contact_points])
    u0 = np.concatenate([np.concatenate(s0[n][2:]) for n in names])
    free = np.concatenate([np.concatenate(free_velocity(e.bodies[n], s0[n], dt)) for n in names])
    u1 = np.concatenate([np.concatenate(s1[n][2:]) for n in names])
    if not len(gap):  # whether every contact is found is the subject of R04
        observe((case, 0))
        return
    few = len(gap) <= FEW
    want = np.zeros(len(gap))
    if mode in ("pre", "both"):
        for k in range(len(gap)):
            if gap[k] < -P.min_gap_value and J[k] @ u0 <= 0.0:
                want[k] = min(P.max_gap_value, P.gap_reduction * -gap[k]) / dt
    marginal = mode in ("pre", "both") and (np.abs(J @ u0) < 1e-9).any() and np.abs(u0).max() > 0
    sol = least(S, J, want - J @ free)
    scale = (2e-2 if len(names) > 2 else 1e-2) * (1 + np.abs(want).max(initial=0) + np.abs(u0).max())
    for i, n in enumerate(names):
        if e.bodies[n].is_fixed:
            expect(np.array_equal(s1[n][2], s0[n][2]) and np.array_equal(s1[n][3], s0[n][3]), f"velocity of fixed {n} changed", "fixed")
    pushed(S, J, u1 - free, mode)
    if sol is not None and not marginal and few:
        ref = free + sol
        expect((J @ ref - want).min(initial=0) > -1e-7 * (1 + np.abs(want).max(initial=0)), "reference violates a contact", "harness")
        expect(np.abs(u1 - ref).max() < scale, f"{mode}: velocities {u1} differ from the least change {ref} by {np.abs(u1 - ref).max()}", "velocity")
    # positions: the step with the new velocity followed by the least displacement out of the penetrations
    d = np.zeros(6 * len(names))
    for i, n in enumerate(names):
        if e.bodies[n].is_fixed:
            expect(np.array_equal(s1[n][0], s0[n][0]) and np.array_equal(s1[n][1], s0[n][1]), f"fixed {n} was displaced", "fixed")
            continue
        d[6 * i:6 * i + 3] = s1[n][0] - s0[n][0] - dt * s1[n][2]
        q = np.asarray(s0[n][1])
        x = dt * s1[n][3] / 2
        mid = np.concatenate([[q[0] - x @ q[1:]], q[1:] + x * q[0] + np.cross(x, q[1:])])
        mid = mid / np.linalg.norm(mid)
        d[6 * i + 3:6 * i + 6] = spin_of(mid, s1[n][1])
    push = np.where(gap < -P.min_gap_value, -gap, 0.0)
    if mode in ("none", "pre") or not push.any():
        expect(np.abs(d).max() < 1e-9, f"{mode}: positions moved by {np.abs(d).max()} beyond the velocities", "displacement")
    else:
        sol = least(S, J, push)
        if few:
            pushed(S, J, d, mode + " displacement")
        if sol is not None and few:
            tol = 2e-3 * push.max() + 0.1 * np.abs(sol).max() ** 2
            expect(np.abs(d - sol).max() < tol, f"{mode}: displacement {d} differs from the least one {sol} by {np.abs(d - sol).max()}", "displacement")
        expect(np.abs(d).max() > 1e-6, "nothing is pushed out", "displacement")
    observe((case, len(gap), np.round(u1, 3)))


FAMILIES = dict(response=response)


def explore(ctx):
    q = ctx.quick
    V = (((0, 0, 0), (0, 0, 0)), ((0.3, -1.0, 0.1), (0.5, 0, 1.0)), ((0, 2.0, 0), (0, 0.3, 0)))
    par = ((0.5, 0.001, 0.01), (0.2, 0.03, 0.005), (1.0, 0.0, 1.0))
    cases = [(sc, sh, g, d, v, w, gr, mode, p, dt) for sc in STACK for sh in ("cube", "tet", "brick") for g in (range(0, 120, 11) if q else range(120))
             for d in (0.02, 0.08) for v, w in V for gr in (0, 1) for mode in ("none", "pre", "post", "both") for p in par for dt in (0.01, 0.05)]
    ctx.run("response", cases[::29] if q else cases[::31], procs=8)
