"""K02 Jacobian, gradient and Hessian of the inverse kinematics objective are exact derivatives."""
import copy
import itertools

import numpy as np

import rainbow.simulators.inverse_kinematics.api as IK
from mc.core import close, expect, observe, tick
from mc.props.K01 import ANG, CODES, VEC, build, factors, path, product, trees

LEVEL = "model_checking"
RULE = ("All trees of up to 4 (5) bones x Euler codes x angle lattice x tools x goals (reached, near, far) x chain lists (as made, several on one bone, ending in inner bones, backwards): analytic derivatives against "
        "exact derivatives of a product of matrices (one or two factors replaced by their derivative), entry by entry; finite "
        "differences against the same with their truncation order; all histories of changing goals, tools, angles and bones of one skeleton up to depth 3 (4).")
ASSUMPTIONS = ["poses are updated before derivatives are requested, as documented"]


def derivatives(bones, chains):
    """Exact J, gradient, Hessian and objective."""
    n = 3 * len(bones)
    J = np.zeros((3 * len(chains), n))
    f, g, H = 0.0, np.zeros(n), np.zeros((n, n))
    for row, (leaf, tool, goal) in enumerate(chains):
        p = path(bones, leaf)
        F = factors(bones, p)
        th = np.append(np.array(tool, float), 1.0)
        e = (product(F) @ th)[:3]
        r = np.array(goal) - e
        f += 0.5 * r @ r
        idx = [(b, k) for b in p for k in range(3)]
        d = {i: (product(F, (i,)) @ th)[:3] for i in idx}
        for i in idx:
            J[3 * row:3 * row + 3, 3 * i[0] + i[1]] = d[i]
            g[3 * i[0] + i[1]] -= d[i] @ r
        for a, i in enumerate(idx):
            for j in idx[a:]:
                h = d[i] @ d[j] - (product(F, (i, j)) @ th)[:3] @ r
                H[3 * i[0] + i[1], 3 * j[0] + j[1]] += h
                if i != j:
                    H[3 * j[0] + j[1], 3 * i[0] + i[1]] += h
    return f, J, g, H


LISTS = ("made", "doubled", "inner", "backwards")


def chains_of(s, kind):
    """The chains to the ends; each of them twice; further ones that end in inner bones; the last first."""
    ch = IK.make_chains(s)
    more = {"made": [], "backwards": [], "doubled": [(c, len(c.bones)) for c in ch], "inner": [(c, k) for c in ch for k in range(1, len(c.bones))]}[kind]
    for c, k in more:
        c = copy.copy(c)
        c.bones = list(c.bones[:k])
        ch.append(c)
    return ch[::-1] if kind == "backwards" else ch


def exact(case):
    bones, tools, goals, kind = case
    s = build(bones)
    IK.update_skeleton(s)
    ch = chains_of(s, kind)
    spec = []
    for i, c in enumerate(ch):
        c.tool = np.array(tools[i % len(tools)], float)
        c.goal = np.array(goals[i % len(goals)], float) if goals[i % len(goals)] is not None else IK.get_end_effector(c, s)
        spec.append((c.bones[-1], tuple(c.tool), tuple(c.goal)))
    f, J, g, H = derivatives(bones, spec)
    tick()
    fr = IK.compute_objective(ch, s)
    Jr = IK.compute_jacobian(ch, s)
    gr = IK.compute_gradient(ch, s, Jr)
    J2 = Jr.copy()
    Hr = IK.compute_hessian(ch, s, Jr)
    tol = 1e-9 * (1 + f)
    expect(abs(fr - f) <= tol, f"objective {fr}, expected {f}", "objective")
    expect(close(Jr, J, 1e-9), f"Jacobian\n{Jr}\nexpected\n{J}", "jacobian")
    expect(close(gr, g, tol), f"gradient {gr}, expected {g}", "gradient")
    expect(close(Hr, H, tol), f"Hessian differs by {np.abs(Hr - H).max()} at {np.unravel_index(np.abs(Hr - H).argmax(), H.shape)}: {Hr.flat[np.abs(Hr - H).argmax()]}, expected {H.flat[np.abs(Hr - H).argmax()]}", "hessian")
    expect(np.array_equal(Jr, J2), "the Jacobian passed in was modified", "args")
    observe((tuple(b[:2] for b in bones), f, g), 4)


def finite(case):
    bones, tools, goals, kind = case
    s = build(bones)
    IK.update_skeleton(s)
    ch = chains_of(s, kind)
    spec = []
    for i, c in enumerate(ch):
        c.tool, c.goal = np.array(tools[i % len(tools)], float), np.array(goals[i % len(goals)], float)
        spec.append((c.bones[-1], tuple(c.tool), tuple(c.goal)))
    f, J, g, H = derivatives(bones, spec)
    before = IK.get_joint_angles(s)
    pose = [(b.t_wcs.copy(), b.q_wcs.copy()) for b in s.bones]
    for what, fn, want, hs, lim in (("gradient", IK.compute_finite_difference_gradient, g, (1e-2, 1e-4), (5e-3, 1e-5)), ("hessian", IK.compute_finite_difference_hessian, H, (1e-2, 1e-3), (5e-2, 1e-3))):
        for h, l in zip(hs, lim):
            got = fn(ch, s, h)
            tick()
            expect(np.abs(got - want).max() <= l * (1 + 3 * f), f"finite difference {what} with step {h} differs by {np.abs(got - want).max()}", f"fd:{what}")
            expect(np.allclose(IK.get_joint_angles(s), before, rtol=0, atol=1e-12), f"finite difference {what} changes the joint angles", f"angles:{what}")
            expect(all(close(b.t_wcs, p[0], 1e-12) and close(b.q_wcs, p[1], 1e-12) for b, p in zip(s.bones, pose)), f"finite difference {what} leaves poses that do not belong to the joint angles", f"pose:{what}")
    observe((tuple(b[:2] for b in bones), f), 4)


def descent(case):
    """Newton's and gradient steps with the analytic derivatives reduce the objective."""
    bones, tools, goals, kind = case
    s = build(bones)
    IK.update_skeleton(s)
    ch = chains_of(s, kind)
    for i, c in enumerate(ch):
        c.tool, c.goal = np.array(tools[i % len(tools)], float), np.array(goals[i % len(goals)], float)
    f = IK.compute_objective(ch, s)
    for it in range(6):
        J = IK.compute_jacobian(ch, s)
        g = IK.compute_gradient(ch, s, J)
        if g @ g < 1e-16:
            break
        a = IK.get_joint_angles(s)
        step = 1.0
        while True:
            IK.set_joint_angles(s, a - step * g)
            IK.update_skeleton(s)
            tick()
            n = IK.compute_objective(ch, s)
            if n <= f - 1e-4 * step * (g @ g) or step < 1e-9:
                break
            step *= 0.5
        if not expect(step >= 1e-9, f"the gradient is no descent direction (objective {f})", "descent"):
            break
        f = n
    observe((tuple(b[:2] for b in bones), f), 4)


MOVES = (("goal", 0), ("goal", 1), ("tool", 0), ("tool", 1), ("pose", 0), ("pose", 1), ("grow", 0))


def changes(case):
    """Histories on one skeleton: goals, tools, angles and bones change one at a time, the derivatives follow at once."""
    bones, ops, fd = case
    bones = list(bones)
    s = build(bones)
    IK.update_skeleton(s)
    ch = IK.make_chains(s)
    goals, tools = ((1.0, 0.5, -0.25), (4.0, -2.0, 1.0)), ((0.3, -1.0, 2.0), (0.0, 0.0, 0.5))
    for c in ch:
        c.goal, c.tool = np.array(goals[0]), np.array(tools[0])
    for n in range(len(ops) + 1):
        if n:
            op, i = ops[n - 1]
            if op == "goal":
                ch[0].goal = np.array(goals[i]) + n
            elif op == "tool":
                ch[-1].tool = np.array(tools[i])
            elif op == "pose":
                k = (n + i) % len(bones)
                a = tuple(x + 0.4 + i for x in bones[k][2])
                for j in range(3):
                    IK.set_angle(3 * k + j, a[j], s)
                bones[k] = bones[k][:2] + (a,) + bones[k][3:]
                IK.update_skeleton(s)
            else:
                bones.append((0, CODES[n], ANG[4], VEC[3]))
                IK.add_bone(s, 0, *ANG[4], *VEC[3], euler_code=CODES[n])
                IK.update_skeleton(s)
                ch = IK.make_chains(s)
                leaves = [k for k in range(len(bones)) if all(b[0] != k for b in bones)]
                if not expect(sorted(c.bones[-1] for c in ch) == leaves and all(list(c.bones) == path(bones, c.bones[-1]) for c in ch), f"chains {[c.bones for c in ch]} of a grown skeleton", "chains"):
                    return
                for c in ch:
                    c.goal, c.tool = np.array(goals[1]), np.array(tools[1])
        f, J, g, H = derivatives(bones, [(c.bones[-1], tuple(c.tool), tuple(c.goal)) for c in ch])
        Jr = IK.compute_jacobian(ch, s)
        tick()
        tol = 1e-9 * (1 + f)
        expect(abs(IK.compute_objective(ch, s) - f) <= tol, f"objective after {ops[:n]}", "changes:objective")
        expect(close(Jr, J, 1e-9), f"Jacobian after {ops[:n]}", "changes:jacobian")
        expect(close(IK.compute_gradient(ch, s, Jr), g, tol), f"gradient after {ops[:n]}", "changes:gradient")
        expect(close(IK.compute_hessian(ch, s, Jr), H, tol), f"Hessian after {ops[:n]}", "changes:hessian")
        if fd:
            expect(np.abs(IK.compute_finite_difference_gradient(ch, s, 1e-2) - g).max() <= 5e-3 * (1 + 3 * f), f"finite difference gradient after {ops[:n]}", "changes:fd")
            expect(np.abs(IK.compute_finite_difference_hessian(ch, s, 1e-2) - H).max() <= 5e-2 * (1 + 3 * f), f"finite difference Hessian after {ops[:n]}", "changes:fd")
    observe((tuple(b[:2] for b in bones), f), 4)


FAMILIES = dict(exact=exact, finite=finite, descent=descent, changes=changes)


def explore(ctx):
    q = ctx.quick
    goals = [((10.0, 0.0, 0.0),), ((1.0, 0.5, -0.25), (0.0, 2.0, 1.0)), (None,)]
    tools = [((0.0, 0.0, 0.0),), ((0.3, -1.0, 2.0), (0.0, 0.0, 1.0), (-0.7, 0.4, 0.0))]
    cases = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for ti, t in enumerate(trees(n)):
            for ci in range(12):
                for ai in range(0, len(ANG), 1):
                    b = tuple((t[i], CODES[(ci + 5 * i + ti) % 12], ANG[(ai + 3 * i) % len(ANG)], VEC[(ci + i + ai) % len(VEC)]) for i in range(n))
                    cases += [(b, to, go, ki) for to in tools for go in goals for ki in LISTS]
    ctx.run("exact", cases[::5] if q else cases, procs=8)
    reached = [c for c in cases if c[2][0] is not None]
    B = [tuple((t[i], CODES[(3 + 5 * i) % 12], ANG[(4 + 3 * i) % len(ANG)], VEC[i % len(VEC)]) for i in range(len(t))) for t in ((-1,), (-1, 0), (-1, 0, 1), (-1, 0, 0))]
    ctx.run("changes", [(b, o, False) for b in B for n in (2, 3 if q else 4) for o in itertools.product(MOVES, repeat=n)], procs=8)
    ctx.run("changes", [(b, o, True) for b in B[:3] for o in itertools.product(MOVES, repeat=1 if q else 2)], procs=8)
    ctx.run("finite", reached[::293 if q else 61], procs=8)
    ctx.run("descent", reached[::131 if q else 23], procs=8)
