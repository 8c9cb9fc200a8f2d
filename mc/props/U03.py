"""U03 exported scenes and recorded animations contain exactly the engine's bodies, geometry and motion."""
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np
from pxr import Usd, UsdGeom

import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as PROC
from rainbow.util.USD import USD
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import icosa, mat
from mc.props.R08 import sockets

LEVEL = "model_checking"
RULE = ("All combinations of bodies, values, forces, materials, hinges and parameters exported to a file which is parsed again and compared; breadth-first search "
        "over histories of recording calls (add, move, deform, save, wrong calls), the saved stage opened again and evaluated at every recorded time.")
ASSUMPTIONS = ["numbers are exported with eight decimals, or seven digits of the largest entry of a vector", "samples are queried at the times they were recorded"]
ICO = list(icosa())


# ---------------------------------------------------------------------------------------------- scenes as XML

VALUES = [(0.0, 0.0, 0.0), (1.0, -2.5, 3.0), (1e-7, 2e-7, -3e-7), (12345.678901, -0.001, 7.0), (1e9, -1e-3, 2.0), (np.pi, -np.e, np.sqrt(2))]
NAMES = [("a", "b", "c"), ("left arm", "größe", "x-1"), ("a<b", "q&a", "say \"hi\" 'you'")]


def numbers(t):
    return np.array([float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", t)])


def near(text, v, what, key):
    v = np.atleast_1d(np.asarray(v, float))
    got = numbers(text)
    expect(got.shape == v.shape and np.abs(got - v).max() <= 1e-8 + 2e-7 * np.abs(v).max(), f"{what}: '{text}' instead of {v.tolist()}", key)


def scene(case):
    nb, names, vi, qi, kind = case
    N = NAMES[names]
    e = rigid.engine(2)
    API.create_gravity_force(e, "g" + N[0], 9.81 + vi, np.array([0.0, 0.6, 0.8]))
    API.create_damping_force(e, "d" + N[1], 0.125, 1e-3 * (vi + 1))
    API.create_surfaces_interaction(e, N[0], N[1], 0.25, np.array(VALUES[vi]) ** 2)
    API.create_surfaces_interaction(e, N[2], N[2], 1.0, np.array([0.1, 0.2, 0.3]))
    for i in range(nb):
        V, T = geo.box(1.0 + i, 0.5, 0.25) if i % 2 == 0 else (np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1.5)]), np.array([(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]))
        rigid.add_shape(e, "s" + N[i], V, T)
        rigid.body(e, N[i], "s" + N[i], r=VALUES[(vi + i) % 6], q=ICO[(qi + 17 * i) % 120], v=VALUES[(vi + 2 * i + 1) % 6], w=VALUES[(vi + 3) % 6],
                   density=1.0 + 3 * i, fixed=kind == "fixed" and i == 0, material=N[(i + vi) % 3] if vi % 2 else None,
                   forces=[("g" + N[0], "d" + N[1])[k] for k in range(2) if (i + vi) >> k & 1])
    if kind == "hinge":
        for i in range(nb - 1):
            API.create_hinge(e, "h" + N[i])
            API.set_hinge(e, "h" + N[i], N[i], N[i + 1], np.array(VALUES[(vi + 1) % 6]), np.array([0.6, 0.0, 0.8]), "world")
    if kind == "params":
        e.params.use_bounce, e.params.time_step, e.params.max_iterations = True, 1e-5, 7
    before = rigid.flat(e).copy()
    folder = tempfile.mkdtemp(prefix="scene")
    try:
        path = folder + "/scene.xml"
        PROC.write_xml(e, path)
        tick()
        first = open(path, "rb").read()
        PROC.write_xml(e, path)
        expect(open(path, "rb").read() == first, "exported twice, the files differ", "stable")
        expect(np.array_equal(before, rigid.flat(e)), "exporting changed the state", "neutral")
        t = ET.parse(path).getroot()
        judge(e, t)
    finally:
        shutil.rmtree(folder)
    observe(case)


def judge(e, t):
    B = t.findall("bodies/body")
    expect([b.get("name") for b in B] == list(e.bodies), f"bodies {[b.get('name') for b in B]}", "bodies")
    for x in B:
        b = e.bodies.get(x.get("name"))
        if b is None:
            continue
        n = x.get("name")
        near(x.get("pos"), b.r, f"position of {n}", "pos")
        near(x.get("rot"), b.q, f"orientation of {n}", "rot")
        near(x.get("vel"), b.v, f"velocity of {n}", "vel")
        near(x.get("spin"), b.w, f"spin of {n}", "spin")
        near(x.get("mass"), b.mass, f"mass of {n}", "mass")
        near(x.get("inertia"), b.inertia, f"inertia of {n}", "inertia")
        expect(x.get("is_fixed") == str(bool(b.is_fixed)), f"{n} fixed: {x.get('is_fixed')}", "fixed")
        expect(x.get("material") == b.material, f"{n} has material {x.get('material')}", "material")
        expect(x.get("shape") == b.shape.name, f"{n} has shape {x.get('shape')}", "shape")
        expect(int(x.get("idx")) == b.idx, f"{n} has index {x.get('idx')}", "idx")
        expect(sorted(f.get("name") for f in x.findall("apply")) == sorted(f.name for f in b.forces), f"forces of {n}: {[f.get('name') for f in x.findall('apply')]}", "apply")
    S = t.findall("shapes/shape")
    expect([s.get("name") for s in S] == list(e.shapes), "shapes", "shapes")
    for s in S:
        m = e.shapes[s.get("name")].mesh
        v, f = s.findall("vertices/v"), s.findall("triangles/t")
        expect(int(s.find("vertices").get("count")) == len(v) == len(m.V) and int(s.find("triangles").get("count")) == len(f) == len(m.T), "counts", "mesh")
        for i, y in enumerate(v):
            expect(int(y.get("idx")) == i, "vertex index", "mesh")
            got = numbers(y.get("p"))
            expect(got.shape == (3,) and np.abs(got - m.V[i]).max() <= 1e-8 + 2e-7 * np.abs(m.V).max(), f"vertex {i}: {y.get('p')} instead of {m.V[i]}", "mesh")
        for i, y in enumerate(f):
            expect(int(y.get("idx")) == i and numbers(y.get("labels")).tolist() == list(m.T[i]), f"triangle {i}: {y.get('labels')}", "mesh")
    F = {f.get("name"): f for f in t.find("forces")}
    expect(sorted(F) == sorted(e.forces), f"forces {sorted(F)}", "forces")
    for n, f in F.items():
        r = e.forces[n]
        if hasattr(r, "g"):
            near(f.get("g"), r.g, "gravity", "forces")
            near(f.get("up"), r.up, "up", "forces")
        else:
            near(f.get("alpha"), r.alpha, "alpha", "forces")
            near(f.get("beta"), r.beta, "beta", "forces")
    M = t.findall("materials/interaction")
    want = e.surfaces_interactions.storage
    expect(len(M) == len(want), f"{len(M)} interactions of {len(want)}", "materials")
    for x, (k, i) in zip(M, want.items()):
        expect(all(str(m) in x.get("materials") or repr(m)[1:-1] in x.get("materials") for m in k), f"interaction of {x.get('materials')}, should be {k}", "materials")
        near(x.get("friction"), i.mu, f"friction of {k}", "materials")
        near(x.get("restitution"), i.epsilon, f"restitution of {k}", "materials")
    H = t.findall("hinges/hinge")
    expect(sorted(h.get("name") for h in H) == sorted(e.hinges), "hinges", "hinges")
    for x in H:
        h = e.hinges[x.get("name")]
        expect((x.get("parent"), x.get("child")) == (h.parent.name, h.child.name), f"{x.get('name')} joins {x.get('parent')} and {x.get('child')}", "hinges")
        expect((int(x.get("idx")), int(x.get("parent-idx")), int(x.get("child-idx"))) == (h.idx, h.parent.idx, h.child.idx), "indices", "hinges")
        rp, _, ap, _, _, _ = sockets(h)
        got = numbers(x.get("origin"))
        expect(x.get("mode") == "world" and got.shape == (3,) and np.abs(got - rp).max() <= 1e-8 + 2e-7 * (np.abs(rp).max() + np.abs(h.parent.r).max()), f"origin {x.get('origin')} instead of {rp}", "hinges")
        near(x.get("axis"), ap, "axis", "hinges")
    P = {p.get("name"): p for p in t.findall("params/param")}
    for n, v in vars(e.params).items():
        if expect(n in P, f"no parameter {n}", "params"):
            expect(P[n].get("value") == str(v) and P[n].get("type") == type(v).__name__, f"parameter {n}: {P[n].get('value')} instead of {v}", "params")


def named(case):
    """A scene of the repository, exported after some steps."""
    name, steps = case
    from mc.props.R11 import world
    e = world()
    PROC.create_scene(e, name)
    for _ in range(steps):
        API.simulate(e, 0.01)
    folder = tempfile.mkdtemp(prefix="scene")
    try:
        PROC.write_xml(e, folder + "/s.xml")
        tick()
        judge(e, ET.parse(folder + "/s.xml").getroot())
    finally:
        shutil.rmtree(folder)
    observe(case)


# ------------------------------------------------------------------------------------------------ recordings

TET = (np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1.5)]), np.array([(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]))
BOX = geo.box(1.0, 0.5, 0.25)
GEO = dict(t=TET, b=(np.array(BOX[0], float), np.array(BOX[1])))
POSE = [((1.0, -2.0, 3.0), ICO[17]), ((0.5, 0.0, 1e3), ICO[44]), ((-1e-3, 7.0, 0.0), (1.0, 0.0, 0.0, 0.0))]


def deformed(kind, k):
    V = GEO[kind][0]
    return V * np.array([1.0 + k, 1.0, 0.5]) + 0.1 * k


def play(history):
    """The recording and the reference model after a history of calls."""
    folder = tempfile.mkdtemp(prefix="usd")
    model = {}  # name -> (type, geometry, {time: value})
    meta = {}
    try:
        path = folder + "/a.usda"
        u = USD(path)
        for op in history:
            k = op[0]
            tick()
            want, err = None, None
            if k in ("rigid", "mesh"):
                _, n, g = op
                if n in model:
                    if k == "mesh":
                        continue
                    want = ValueError
                else:
                    model[n] = (k, g, {})
                f = lambda: (u.add_rigid_body if k == "rigid" else u.add_mesh)(n, *(x.copy() for x in GEO[g]))
            elif k == "move":
                _, n, p, t = op
                if n not in model:
                    want = ValueError
                elif model[n][0] == "mesh":
                    want = TypeError
                else:
                    model[n][2][t] = p
                f = lambda: u.update_rigid_body(n, np.array(POSE[p][0]), np.array(POSE[p][1], float), t)
            elif k == "deform":
                _, n, p, t = op
                if n in model and model[n][0] == "rigid":
                    continue
                if n not in model:
                    want = ValueError
                    f = lambda: u.set_mesh_positions(n, TET[0], t)
                else:
                    model[n][2][t] = p
                    f = lambda: u.set_mesh_positions(n, deformed(model[n][1], p), t)
            elif k == "bad":
                _, n, what = op
                if n not in model or model[n][0] != "rigid":
                    continue
                want = ValueError
                f = (lambda: u.update_rigid_body(n, np.zeros(2), np.array([1.0, 0, 0, 0]), 9.0)) if what == "t" else (lambda: u.update_rigid_body(n, np.zeros(4), np.array([1.0, 0, 0, 0]), 9.0))
            elif k == "time":
                meta["end"] = op[1]
                f = lambda: u.set_animation_time(op[1])
            elif k == "fps":
                meta["fps"] = op[1]
                f = lambda: u.set_frames_per_second(op[1])
            else:
                f = u.save
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    f()
            except (ValueError, TypeError) as x:
                err = type(x)
            expect(err is want, f"{op} raised {err}, should raise {want}", "errors")
            if k == "save":
                judge_stage(Usd.Stage.Open(path), model, meta, "reopened")
        judge_stage(u.stage, model, meta, "live")
        for n, (kind, g, s) in model.items():
            if kind == "mesh":
                for t, p in s.items():
                    expect(close(u.get_mesh_positions(n, t), deformed(g, p), 1e-6), f"{n} at {t}: {u.get_mesh_positions(n, t)}", "positions")
        try:
            u.get_mesh_positions("nobody", 0.0)
            expect(False, "positions of an unknown mesh", "errors")
        except ValueError:
            pass
        return canon(model, meta)
    finally:
        shutil.rmtree(folder)


def canon(model, meta):
    return repr((sorted((n, k, g, tuple(sorted(s.items()))) for n, (k, g, s) in model.items()), sorted(meta.items())))


def judge_stage(stage, model, meta, what):
    prims = {p.GetName(): UsdGeom.Mesh(p) for p in stage.Traverse() if p.IsA(UsdGeom.Mesh)}
    expect(sorted(prims) == sorted(model), f"{what}: meshes {sorted(prims)}, recorded {sorted(model)}", "meshes")
    for n, (kind, g, s) in model.items():
        m = prims.get(n)
        if m is None:
            continue
        V, T = GEO[g]
        expect(np.array_equal(np.array(m.GetFaceVertexCountsAttr().Get()), [3] * len(T)) and np.array_equal(np.array(m.GetFaceVertexIndicesAttr().Get()), T.ravel()), f"{what}: faces of {n}", "faces")
        x = UsdGeom.Xformable(m)
        for t, p in s.items() if s else ((0.0, None),):
            P = np.array(m.GetPointsAttr().Get(t), float)
            M = np.array(x.ComputeLocalToWorldTransform(t))  # row vectors
            W = P @ M[:3, :3] + M[3, :3]
            if p is None:
                ref = V
            elif kind == "mesh":
                ref = deformed(g, p)
            else:
                r, q = POSE[p]
                ref = V @ mat(np.array(q, float)).T + np.array(r)
            expect(W.shape == ref.shape and np.abs(W - ref).max() <= 1e-6 * (1 + np.abs(ref).max()), f"{what}: {n} at time {t} is off by {np.abs(W - ref).max() if W.shape == ref.shape else 'its shape'}", "geometry")
        times = set(m.GetPointsAttr().GetTimeSamples()) | {t for o in x.GetOrderedXformOps() for t in o.GetTimeSamples()}
        expect(times == set(s), f"{what}: {n} has samples at {sorted(times)}, recorded {sorted(s)}", "times")
    if "end" in meta:
        expect(stage.GetStartTimeCode() == 0 and stage.GetEndTimeCode() == meta["end"], f"{what}: animation {stage.GetStartTimeCode()}..{stage.GetEndTimeCode()}", "duration")
    if "fps" in meta:
        expect(stage.GetFramesPerSecond() == meta["fps"], f"{what}: {stage.GetFramesPerSecond()} frames per second", "fps")


def recording(case):
    observe(play(case))


def key(history):
    model, meta, last = {}, {}, None
    for op in history:
        k = op[0]
        if k in ("rigid", "mesh") and op[1] not in model:
            model[op[1]] = (k, op[2], {})
        elif k == "move" and model.get(op[1], ("",))[0] == "rigid" or k == "deform" and model.get(op[1], ("",))[0] == "mesh":
            model[op[1]][2][op[3]] = op[2]
        elif k in ("time", "fps"):
            meta["end" if k == "time" else k] = op[1]
        last = k if k == "save" else last
    return canon(model, meta) + str(last)


FAMILIES = dict(scene=scene, named=named, recording=recording, saved=recording)
OPS = [("rigid", "A", "t"), ("rigid", "B", "b"), ("mesh", "A", "b"), ("mesh", "C", "t"), ("move", "A", 0, 0.0), ("move", "A", 1, 1.0), ("move", "A", 2, 0.0), ("move", "B", 1, 2.5),
       ("deform", "C", 1, 0.0), ("deform", "C", 2, 1.0), ("deform", "C", 0, 1.0), ("deform", "A", 1, 0.0), ("bad", "A", "t"), ("time", 10.0), ("fps", 30.0), ("save",)]


def explore(ctx):
    q = ctx.quick
    kinds = ("plain", "fixed", "hinge", "params")
    ctx.run("scene", list(itertools.product((1, 2, 3), range(3), range(6), (0, 17, 63, 99) if q else range(0, 120, 5), kinds)), procs=8)
    ctx.run("named", [(n, s) for n in ["pillar", "arch", "dome", "cube_hinge_chain", "ur5"] + ([] if q else ["tower", "gear_train", "glasses", "temple", "box_stack"]) for s in ((0,) if n in ("ur5", "gear_train", "glasses") else (0, 2))], procs=8)
    ctx.bfs("recording", lambda h: OPS, key, 3 if q else 4)
    pre = (("rigid", "A", "t"), ("mesh", "C", "t"))
    ctx.run("saved", [pre + h + (("save",),) for h in itertools.product(OPS[4:], repeat=3 if q else 4)], procs=8)
