"""R13 a robot read from URDF stands in its zero configuration, with the stated masses and joints."""
import itertools
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import logging

import igl
import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as PROC
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import mat
from mc.props.R08 import sockets
from mc.props.R11 import ROOT

logging.disable(logging.CRITICAL)
LEVEL = "model_checking"
RULE = ("All kinematic trees up to the size bound x joint, inertial and collision origins x mesh scales x axes x formats x element orders x decorations with "
        "virtual links and joints of other types, links that share a mesh file, files read again after changes, written as URDF files to a scratch folder and read by the real importer; world vertices, body frames, masses "
        "and hinges compared with forward kinematics at the zero configuration by homogeneous matrices. Also the robot of the repository.")
ASSUMPTIONS = ["revolute joints form one tree over the links with meshes; positive mesh scales; inertia tensors aligned with the inertial frame (others are documented as unsupported)"]

ORIGINS = [None, ("0.5 -1 2", None), (None, "0.3 -0.7 1.1"), ("-1.5 0.25 0.75", "1.5707963267948966 0 -1.5707963267948966"), ("1 2 3", "-2.5 1.2 0.4")]
SCALES = [None, "1 1 1", "0.5 0.5 0.5", "2 0.5 1.25"]
AXES = [None, "0 0 1", "0 -1 0", "3 4 0", "-1 2 0.5"]
MESHES = ["box", "tet", "wedge"]


def rpy(a):
    r, p, y = a
    c, s = np.cos, np.sin
    X = np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]])
    Y = np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]])
    Z = np.array([[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]])
    return Z @ Y @ X


def numbers(t, default):
    return np.array([float(x) for x in t.split()]) if t else np.array(default, float)


def frame(o):
    H = np.eye(4)
    if o is not None:
        H[:3, 3] = numbers(o[0], (0, 0, 0))
        H[:3, :3] = rpy(numbers(o[1], (0, 0, 0)))
    return H


def move(H, V):
    return V @ H[:3, :3].T + H[:3, 3]


def origin(o):
    if o is None:
        return ""
    return "<origin" + (f' xyz="{o[0]}"' if o[0] else "") + (f' rpy="{o[1]}"' if o[1] else "") + "/>"


def solid(name):
    if name == "box":
        return geo.box(1.0, 0.6, 0.4, (0.1, -0.2, 0.3))
    if name == "tet":
        return np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], float), np.array([(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)])
    V, T = geo.box(1.0, 1.0, 1.0, (0, 0, 0))
    V = np.array(V, float)
    V[:, 0] *= 1 + 0.5 * (V[:, 1] > 0)
    return V, T


def write(folder, case, shape="wedge"):
    """The URDF file of a case; returns the reference placement of everything, computed with matrices."""
    tree, jo, io, co, sc, ax, fmt, order, extra, ref = case
    n = len(tree) + 1
    names = [f"L{i}" for i in range(n)]
    os.makedirs(folder + "/pkg/meshes", exist_ok=True)
    links, joints = [], []
    W, want = {}, {}
    for i in range(n):
        mesh = MESHES[i % 3] if "shared" not in extra else shape
        V, T = solid(mesh)
        V, T = np.asarray(V, float), np.asarray(T)
        path = f"meshes/{mesh}_{i}.{fmt}" if "shared" not in extra else f"meshes/all.{fmt}"
        igl.write_triangle_mesh(folder + "/pkg/" + path, V, T)
        k = (lambda L, a, i=i: L[(a + i) % len(L)] if a >= 0 else L[-1 - a])  # >= 0: rotates along the tree, < 0: the same everywhere
        JO, IO, CO, SC, AX = k(ORIGINS, jo), k(ORIGINS, io), k(ORIGINS, co), k(SCALES, sc), k(AXES, ax)
        mass, I = 1.5 + i, (0.5 + i, 0.25 + i, 0.125 + i)
        file = "package://pkg/" + path if ref == "package" else folder + "/pkg/" + path
        scale = f' scale="{SC}"' if SC else ""
        looks = f'{origin(CO)}<geometry><mesh filename="{file}"{scale}/></geometry>' if "visual" in extra else '<geometry><box size="1 1 1"/></geometry>'
        links.append(f'<link name="{names[i]}"><visual>{looks}</visual>'
                     f'<collision>{origin(CO)}<geometry><mesh filename="{file}"{scale}/></geometry></collision>'
                     f'<inertial>{origin(IO)}<mass value="{mass}"/><inertia ixx="{I[0]}" iyy="{I[1]}" izz="{I[2]}" ixy="0" ixz="0" iyz="0"/></inertial></link>')
        if i == 0:
            W[0] = np.eye(4)
        else:
            p = tree[i - 1]
            W[i] = W[p] @ frame(JO)
            axis = f'<axis xyz="{AX}"/>' if AX else ""
            joints.append(f'<joint name="J{i}" type="revolute">{origin(JO)}<parent link="{names[p]}"/><child link="{names[i]}"/>{axis}<limit effort="1" lower="-1" upper="1" velocity="1"/></joint>')
            a = numbers(AX, (1, 0, 0))
            want["J" + str(i)] = (names[p], names[i], W[i][:3, 3], W[i][:3, :3] @ (a / np.linalg.norm(a)))
        want[names[i]] = (move(W[i] @ frame(CO), V * numbers(SC, (1, 1, 1))), W[i] @ frame(IO), mass, I, geo.signed_volume(V * numbers(SC, (1, 1, 1)), T))
    if "base" in extra:  # the usual virtual link above the root
        links.insert(0, '<link name="world"/>')
        joints.insert(0, f'<joint name="fix" type="fixed"><origin xyz="9 9 9"/><parent link="world"/><child link="{names[0]}"/></joint>')
    if "tool" in extra:
        links.append('<link name="tool"/>')
        joints.append(f'<joint name="grip" type="fixed"><origin xyz="0 0 1"/><parent link="{names[-1]}"/><child link="tool"/></joint>')
    if "dial" in extra:  # a revolute joint to a link without geometry
        links.append('<link name="dial"><inertial><mass value="1"/></inertial></link>')
        joints.append(f'<joint name="spin" type="revolute"><parent link="{names[0]}"/><child link="dial"/><axis xyz="0 0 1"/></joint>')
    if "primitive" in extra:
        links.append('<link name="ball"><collision><geometry><sphere radius="1"/></geometry></collision><inertial><mass value="1"/></inertial></link>')
        joints.append(f'<joint name="weld" type="fixed"><parent link="{names[0]}"/><child link="ball"/></joint>')
    L, J = order
    links = [links[i] for i in (L if len(L) == len(links) else range(len(links)))] if L != "r" else links[::-1]
    joints = [joints[i] for i in (J if len(J) == len(joints) else range(len(joints)))] if J != "r" else joints[::-1]
    body = "\n".join(joints + links if "mixed" in extra else links + joints)
    with open(folder + "/robot.urdf", "w") as f:
        f.write(f'<?xml version="1.0"?>\n<robot name="r">\n{body}\n</robot>\n')
    return want


def check(e, want, tol=1e-9):
    bodies = {k: v for k, v in want.items() if len(v) == 5 and not isinstance(v[0], str)}
    hinges = {k: v for k, v in want.items() if k not in bodies}
    expect(sorted(e.bodies) == sorted(bodies), f"bodies {sorted(e.bodies)}, the file has {sorted(bodies)}", "bodies")
    expect(sorted(e.hinges) == sorted(hinges), f"hinges {sorted(e.hinges)}, the file has {sorted(hinges)}", "hinges")
    for n, (V, H, mass, I, vol) in bodies.items():
        b = e.bodies.get(n)
        if b is None:
            continue
        tick()
        W = rigid.world_vertices(b)
        s = 1 + np.abs(V).max()
        d = np.abs(W[:, None] - V[None]).max(-1)
        expect(max(d.min(0).max(), d.min(1).max()) < tol * s, f"vertices of {n} are off by {max(d.min(0).max(), d.min(1).max())}", "vertices")
        got = geo.signed_volume(W, b.shape.mesh.T)
        expect(close(got, vol, 1e-6 * abs(vol) if vol else 0), f"{n} has volume {got}, its mesh {vol}", "volume")
        expect(close(API.get_position(e, n), H[:3, 3], tol * s), f"centre of mass of {n} at {API.get_position(e, n)}, should be {H[:3, 3]}", "com")
        expect(close(mat(API.get_orientation(e, n)), H[:3, :3], tol), f"{n} is turned otherwise", "orientation")
        expect(close(b.mass, mass, 1e-12 * mass), f"{n} has mass {b.mass}", "mass")
        expect(close(b.inertia, I, 1e-12 * max(I)), f"{n} has inertia {b.inertia}", "inertia")
        expect(abs(np.linalg.norm(b.q) - 1) < 1e-9 and not np.any(b.v) and not np.any(b.w), f"{n} is not at rest", "rest")
    for n, (p, c, o, a) in hinges.items():
        h = e.hinges.get(n)
        if h is None or not expect(h.parent is not None and h.child is not None, f"{n} is not set", "joint"):
            continue
        tick()
        expect((h.parent.name, h.child.name) == (p, c), f"{n} joins {h.parent.name} and {h.child.name}", "joint")
        rp, rc, ap, ac, _, _ = sockets(h)
        s = 1 + np.abs(o).max()
        expect(close(rp, o, tol * s) and close(rc, o, tol * s), f"{n} at {rp}, {rc}, should be at {o}", "joint")
        expect(close(ap, a, tol) and close(ac, a, tol), f"{n} along {ap}, {ac}, should be along {a}", "axis")
    expect(sorted(h.idx for h in e.hinges.values()) == list(range(len(e.hinges))), "indices of the hinges", "hinges")
    observe([np.round(list(API.get_position(e, n)), 9).tolist() for n in sorted(e.bodies)])


def robot(case):
    folder = tempfile.mkdtemp(prefix="urdf")
    try:
        want = write(folder, case)
        e = rigid.engine(2)
        path = "/robot.urdf" if case[-1] == "package" and case[1] == 0 else "robot.urdf"  # absolute means relative to the package
        PROC.read_urdf(e, folder, path)
        check(e, want)
    finally:
        shutil.rmtree(folder)


def again(case):
    """Files read one after another into two engines, with the files changed in between or not: each engine holds what the files said at the time."""
    words, = case
    folder = tempfile.mkdtemp(prefix="urdf")
    try:
        engines, wants, pose = [], [], dict(a=("box", 0, 0), b=("box", 1, 2), c=("wedge", 0, 0), d=("tet", 3, 1))
        for w in words:
            shape, jo, io = pose[w]
            want = write(folder, ((0, 1), jo, io, -2, -3, 1, "obj", ((), ()), ("shared", "visual"), "package"), shape)
            e = rigid.engine(2)
            PROC.read_urdf(e, folder, "robot.urdf")
            engines.append(e)
            wants.append(want)
            for e, want in zip(engines, wants):
                check(e, want)
    finally:
        shutil.rmtree(folder)


def shipped(case):
    """The robot of the repository, and a second one beside other bodies."""
    cwd, = case
    folder = ROOT + "/data/urdf/"
    name = "ur_description/ur5e.urdf"
    if not os.path.exists(folder + name):
        return
    e = rigid.engine(2)
    if cwd == "others":
        rigid.box_shape(e, "b")
        rigid.body(e, "other", "b", r=(5.0, 5.0, 5.0))
        before = API.get_position(e, "other").copy()
    PROC.read_urdf(e, folder, name)
    t = ET.parse(folder + name).getroot()
    def org(x):
        o = x.find("origin") if x is not None else None
        return None if o is None else (o.get("xyz"), o.get("rpy"))
    want, links = {}, {}
    for l in t.findall("link"):
        m = l.find("collision/geometry/mesh")
        if m is not None:
            links[l.get("name")] = l
    rev = {j.find("child").get("link"): j for j in t.findall("joint") if j.get("type") == "revolute"}
    def world(n):
        return np.eye(4) if n not in rev else world(rev[n].find("parent").get("link")) @ frame(org(rev[n]))
    for n, l in links.items():
        m = l.find("collision/geometry/mesh")
        V, T = igl.read_triangle_mesh(folder + m.get("filename").replace("package://", ""))
        i = l.find("inertial")
        I = i.find("inertia")
        want[n] = (move(world(n) @ frame(org(l.find("collision"))), V * numbers(m.get("scale"), (1, 1, 1))), world(n) @ frame(org(i)),
                   float(i.find("mass").get("value")), [float(I.get(k)) for k in ("ixx", "iyy", "izz")], geo.signed_volume(V * numbers(m.get("scale"), (1, 1, 1)), T))
        if n in rev:
            j = rev[n]
            a = numbers(j.find("axis").get("xyz"), (1, 0, 0))
            H = world(n)
            want[j.get("name")] = (j.find("parent").get("link"), n, H[:3, 3], H[:3, :3] @ a / np.linalg.norm(a))
    if cwd == "others":
        expect(np.array_equal(API.get_position(e, "other"), before), "another body was moved", "other")
        del e.bodies["other"]
    check(e, want, 1e-7)


def parts(case):
    """Numbers and frames as the file states them: spaces, signs, exponents, missing attributes."""
    text, value = case
    folder = tempfile.mkdtemp(prefix="urdf")
    try:
        os.makedirs(folder + "/pkg")
        V, T = solid("tet")
        igl.write_triangle_mesh(folder + "/pkg/m.obj", V, T)
        with open(folder + "/r.urdf", "w") as f:
            f.write('<robot name="r">' + "".join(f'<link name="{n}"><collision><geometry><mesh filename="package://pkg/m.obj"/></geometry></collision><inertial><mass value="2"/>'
                    '<inertia ixx="1" iyy="1" izz="1"/></inertial></link>' for n in "ab")
                    + f'<joint name="j" type="revolute"><origin xyz="{text}" rpy="0 0 0"/><parent link="a"/><child link="b"/><axis xyz="0 1 0"/></joint></robot>')
        e = rigid.engine(2)
        PROC.read_urdf(e, folder, "r.urdf")
        tick()
        expect(close(API.get_position(e, "b"), value, 1e-12), f"origin '{text}' puts the link at {API.get_position(e, 'b')}", "numbers")
    finally:
        shutil.rmtree(folder)


FAMILIES = dict(robot=robot, shipped=shipped, again=again, parts=parts)
TREES = [(), (0,), (0, 1), (0, 0), (0, 1, 2), (0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 0, 1, 2), (0, 1, 1, 0)]


def explore(ctx):
    q = ctx.quick
    prod = itertools.product
    cases = []
    nat = ((), ())
    deco = [(), ("base",), ("tool", "dial"), ("base", "tool", "primitive", "mixed")]
    for t in TREES[:8] if q else TREES:
        for jo, io, co in prod(range(5), range(5), range(5)):
            cases.append((t, jo, io, co, (jo + io) % 4, (io + co) % 5, "obj", nat, deco[(jo + co) % 4], "package"))
    for t in TREES[1:4] if q else TREES[1:8]:  # everything alike along the tree, all combinations
        for jo, io, co, sc in prod(range(-5, 0), range(-5, 0), range(-5, 0), range(-4, 0) if not q else (-4, -1)):
            cases.append((t, jo, io, co, sc, -1 - (jo + io) % 5, "obj", nat, (), "package"))
    for t in TREES[4:8] if q else TREES[2:]:  # orders of the elements
        n = len(t) + 1
        for L in itertools.permutations(range(n)):
            for J in itertools.permutations(range(n - 1)):
                if n < 5 or (L[0] + J[0]) % 4 == 0:
                    cases.append((t, 1, 3, 2, 1, 2, "obj", (L, J), ("mixed",) if L[0] == 0 else (), "package"))
    for f, r, a in prod(("obj", "ply", "stl"), ("package", "file"), range(5)):
        cases.append(((0, 1), a, 2, 3, 2, a, f, ("r", "r"), (), r))
    for k in range(5):
        for d in itertools.chain.from_iterable(itertools.combinations(("base", "tool", "dial", "primitive", "mixed"), k) for k in range(6)):
            cases.append(((0, 0, 1), k, 1, 2, 0, 0, "obj", nat, d, "package"))
    for t in TREES[1:4] if q else TREES[1:]:  # links that share one mesh file
        for jo, io, co, sc, x in prod(range(-1, 5), range(5), (-4, -1, 0), (-3, 0), (("shared",), ("visual",), ("shared", "visual"))):
            cases.append((t, jo, io, co, sc, 1, "obj", nat, x, "package"))
    ctx.run("robot", cases, procs=8)
    ctx.run("again", [(w,) for n in range(1, 4) for w in prod("abcd", repeat=n)], procs=8)
    ctx.run("shipped", [("alone",), ("others",)], procs=2)
    ctx.run("parts", [("1 2 3", (1, 2, 3)), ("  1   2\t3 ", (1, 2, 3)), ("-1 +2 .5", (-1, 2, 0.5)), ("1e-3 -2.5E2 0", (1e-3, -250.0, 0)), ("1\n2\n3", (1, 2, 3)), ("0 0 0", (0, 0, 0)), ("-0.0 1. 00.25", (0, 1, 0.25))], procs=2)
