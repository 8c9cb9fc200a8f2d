"""K01 forward kinematics, chains and joint angles of skeletons."""
import itertools

import numpy as np

import rainbow.simulators.inverse_kinematics.api as IK
from mc.core import close, expect, observe, tick
from mc.groups import mat

LEVEL = "model_checking"
RULE = ("All trees of up to 4 (5) bones (every parent array) x every Euler code in every position x a lattice of angles; world poses against "
        "products of 4x4 matrices, chains against paths in the tree, angle vectors against a dictionary; all histories of up to 4 (5) "
        "operations (add bones, set angles, update, derivative queries, illegal calls) against a model.")
ASSUMPTIONS = ["bones are added through the API"]
CODES = ("XZX", "XYX", "YXY", "YZY", "ZYZ", "ZXZ", "XZY", "XYZ", "YXZ", "YZX", "ZYX", "ZXY")
AX = dict(X=0, Y=1, Z=2)
ANG = [(0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.0, -0.7, 0.0), (0.0, 0.0, 1.1), (0.3, -1.2, 2.0), (np.pi / 2, np.pi, -np.pi / 2), (7.0, -4.0, 0.2), (-2.5, 1.5, 3.0), (2, 0, -1), (0, 0.5, 3)]
VEC = [(1.0, 0.0, 0.0), (0.0, 0.5, -2.0), (0.0, 0.0, 0.0), (1.0, 2.0, 3.0), (-1.0, 0.25, 0.0), (0, 2, -1)]


def rot(axis, a, order=0):
    """Rotation about a coordinate axis and its derivatives as 4x4 matrices."""
    i, j = [(1, 2), (2, 0), (0, 1)][AX[axis]]
    M = np.zeros((4, 4))
    c, s = [(np.cos(a), np.sin(a)), (-np.sin(a), np.cos(a)), (-np.cos(a), -np.sin(a))][order]
    M[i, i], M[i, j], M[j, i], M[j, j] = c, -s, s, c
    if order == 0:
        M[AX[axis], AX[axis]] = M[3, 3] = 1.0
    return M


def factors(bones, path):
    """[(bone or None, angle number, function of derivative order)] of the matrix product along a path."""
    out = []
    for b in path:
        parent, code, ang, t = bones[b]
        T = np.eye(4)
        T[:3, 3] = t
        out.append((None, None, lambda o, T=T: T))
        for k in range(3):
            out.append((b, k, lambda o, c=code[k], a=ang[k]: rot(c, a, o)))
    return out


def product(F, orders=()):
    M = np.eye(4)
    cnt = {}
    for o in orders:
        cnt[o] = cnt.get(o, 0) + 1
    for b, k, f in F:
        M = M @ f(cnt.get((b, k), 0) if b is not None else 0)
    return M


def path(bones, b):
    p = []
    while b != -1:
        p.append(b)
        b = bones[b][0]
    return p[::-1]


def build(bones):
    s = IK.create_skeleton()
    for i, (p, code, a, t) in enumerate(bones):
        if p == -1:
            IK.create_root(s, *a, *t, euler_code=code)
        else:
            IK.add_bone(s, p, *a, *t, euler_code=code)
    return s


def trees(n):
    return [(-1,) + p for p in itertools.product(*[range(i) for i in range(1, n)])]


def check_pose(s, bones, what=""):
    for i in range(len(bones)):
        M = product(factors(bones, path(bones, i)))
        # the origin of a bone is where its parent puts it
        b = s.bones[i]
        expect(close(b.t_wcs, M[:3, 3], 1e-9), f"{what}bone {i} at {b.t_wcs}, expected {M[:3, 3]}", "origin")
        expect(close(mat(b.q_wcs), M[:3, :3], 1e-9), f"{what}bone {i} has orientation {b.q_wcs}", "orientation")


def fk(case):
    bones = case
    s = build(bones)
    tick()
    kids = {i: [j for j in range(len(bones)) if bones[j][0] == i] for i in range(len(bones))}
    for i, b in enumerate(s.bones):
        expect(b.idx == i and b.parent == bones[i][0] and list(b.children) == kids[i], f"bone {i}: idx {b.idx}, parent {b.parent}, children {b.children}", "topology")
        expect(b.is_root() == (i == 0) and b.has_parent() == (i != 0) and b.is_end_effector() == (not kids[i]), f"bone {i}: root/leaf flags", "flags")
    IK.update_skeleton(s)
    check_pose(s, bones)
    leaves = [i for i in range(len(bones)) if not kids[i]]
    chains = IK.make_chains(s)
    expect([list(c.bones) for c in chains] == [path(bones, i) for i in leaves], f"chains {[list(c.bones) for c in chains]}, expected {[path(bones, i) for i in leaves]}", "chains")
    for c in chains:
        for tool in ((0.0, 0.0, 0.0), (0.3, -1.0, 2.0)):
            c.tool = np.array(tool)
            e = IK.get_end_effector(c, s)
            M = product(factors(bones, path(bones, c.bones[-1])))
            expect(close(e, M[:3, :3] @ np.array(tool) + M[:3, 3], 1e-9), f"end effector of {c.bones} with tool {tool}: {e}", "effector")
    ang = np.concatenate([b[2] for b in bones])
    expect(np.array_equal(IK.get_joint_angles(s), ang), "joint angles", "angles")
    # the reversed angles through the vector and the single setters
    for single in (False, True):
        new = ang[::-1] * (0.5 if single else 1.0)
        if single:
            for i, a in enumerate(new):
                IK.set_angle(i, a, s)
        else:
            IK.set_joint_angles(s, new)
        expect(np.array_equal(IK.get_joint_angles(s), new) and all(IK.get_angle(i, s) == a for i, a in enumerate(new)), "joint angles set and read differ", "angles")
        IK.update_skeleton(s)
        check_pose(s, [b[:2] + (tuple(new[3 * i:3 * i + 3]),) + b[3:] for i, b in enumerate(bones)], "after setting angles: ")
    observe((tuple(b[0] for b in bones), s.bones[-1].t_wcs, s.bones[-1].q_wcs), 3)


OPS = [("root", 0), ("root", 1), ("add", 0, 2), ("add", 1, 3), ("add", 2, 1), ("add", 7, 1), ("add", -1, 1), ("code", "XXY"), ("code", "zyz"), ("code", ""),
       ("angle", 1, 0.5), ("angle", 4, -1.25), ("angle", 6, 2.0), ("angles", 3), ("update",), ("query", "fdg"), ("query", "fdh"), ("query", "jac"), ("query", "obj")]


def history(case):
    """Returns a key of the model state after checking every step."""
    s = IK.create_skeleton()
    bones, fresh = [], True
    for op in case:
        before = [(b.idx, b.parent, tuple(b.children), b.alpha, b.beta, b.gamma, b.euler_code) for b in s.bones]
        n = len(bones)
        fail = False
        try:
            if op[0] == "root":
                bad = n > 0
                IK.create_root(s, *ANG[4 + 4 * op[1]], *VEC[op[1]], euler_code=CODES[op[1] * 5])
                if not bad:
                    bones.append((-1, CODES[op[1] * 5], ANG[4 + 4 * op[1]], VEC[op[1]]))
                    fresh = False
            elif op[0] == "add":
                bad = not 0 <= op[1] < n
                IK.add_bone(s, op[1], *ANG[op[2]], *VEC[op[2]], euler_code=CODES[op[2] + 5])
                if not bad:
                    bones.append((op[1], CODES[op[2] + 5], ANG[op[2]], VEC[op[2]]))
                    fresh = False
            elif op[0] == "code":
                bad = True
                if n:
                    IK.add_bone(s, 0, 0, 0, 0, 1, 1, 1, euler_code=op[1])
                else:
                    IK.create_root(s, 0, 0, 0, 1, 1, 1, euler_code=op[1])
            else:
                bad = False
                if op[0] == "angle" and op[1] < 3 * n:
                    IK.set_angle(op[1], op[2], s)
                    b = bones[op[1] // 3]
                    a = list(b[2])
                    a[op[1] % 3] = op[2]
                    bones[op[1] // 3] = b[:2] + (tuple(a),) + b[3:]
                    fresh = False
                elif op[0] == "angles":
                    v = np.arange(3.0 * n) * 0.4 - op[1]
                    IK.set_joint_angles(s, v)
                    bones = [b[:2] + (tuple(v[3 * i:3 * i + 3]),) + b[3:] for i, b in enumerate(bones)]
                    v[:] = 99.0
                    fresh = fresh and n == 0
                elif op[0] == "update" and n:
                    IK.update_skeleton(s)
                    fresh = True
                elif op[0] == "query" and n:
                    ch = IK.make_chains(s)
                    if op[1] == "fdg":
                        IK.compute_finite_difference_gradient(ch, s, 0.01)
                    elif op[1] == "fdh":
                        IK.compute_finite_difference_hessian(ch, s, 0.01)
                    else:
                        J = IK.compute_jacobian(ch, s)
                        IK.compute_gradient(ch, s, J)
                        IK.compute_hessian(ch, s, J)
                        IK.compute_objective(ch, s)
        except RuntimeError:
            fail = True
        tick()
        expect(fail == bad, f"{op} after {case[:case.index(op)]}: {'rejected' if fail else 'accepted'}", f"reject:{op[0]}")
        now = [(b.idx, b.parent, tuple(b.children), b.alpha, b.beta, b.gamma, b.euler_code) for b in s.bones]
        if fail or op[0] in ("query", "update"):
            expect(now == before, f"{op} changed the skeleton", f"changed:{op[0]}")
        if not expect(len(s.bones) == len(bones), f"{op}: {len(s.bones)} bones, expected {len(bones)}", "count"):
            return None
        if bones:
            a = np.concatenate([b[2] for b in bones])
            expect(np.allclose(IK.get_joint_angles(s), a, rtol=0, atol=1e-12), f"angles after {op}: {IK.get_joint_angles(s)}, expected {a}", "angles")
            if fresh:
                check_pose(s, bones, f"after {op}: ")
    return tuple(bones), fresh


FAMILIES = dict(fk=fk, history=history)


def explore(ctx):
    q = ctx.quick
    cases = []
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for ti, t in enumerate(trees(n)):
            for ci in range(12):
                for ai in range(len(ANG)):
                    cases.append(tuple((t[i], CODES[(ci + 5 * i + ti) % 12], ANG[(ai + 3 * i) % len(ANG)], VEC[(ci + i + ai) % len(VEC)]) for i in range(n)))
    for c1, c2 in itertools.product(CODES, CODES):
        for a1, a2 in itertools.product(ANG, ANG):
            cases.append(((-1, c1, a1, VEC[1]), (0, c2, a2, VEC[3])))
    ctx.run("fk", cases, procs=8)
    ctx.bfs("history", lambda h: OPS, history, 4 if q else 5, max_states=400000)
