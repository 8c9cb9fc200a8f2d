"""G01 surface generators and mesh transformations."""
import itertools
import math

import numpy as np

import rainbow.geometry.surface_mesh as MESH
import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3
from mc import geo
from mc.core import close, expect, fresh, observe, tick
from mc.groups import axes13, icosa, mat, octa

LEVEL = "exploration"
RULE = ("Every generator called twice with its first result overwritten. "
        "Every generator with every slices/segments count up to the bound and a lattice of sizes: full topological check (each directed edge once, its reverse once), closed form volume and "
        "extents; every mesh transformation over group elements and lattice vectors; every convex hull of point subsets of a lattice.")
ASSUMPTIONS = ["sizes from a small lattice; slices and segments up to the stated bound"]


def ngon(n, r):
    return 0.5 * n * r * r * math.sin(2 * math.pi / n)


def frusta(prof, n):
    """volume of an n-sided sweep of the profile (radius, height)"""
    v = 0.0
    for (r0, h0), (r1, h1) in zip(prof, prof[1:]):
        v += 0.5 * n * math.sin(2 * math.pi / n) * (h1 - h0) * (r0 * r0 + r0 * r1 + r1 * r1) / 3
    return v


def solid(name, V, T, vol, chi=2, used=True):
    V, T = np.asarray(V, float), np.asarray(T)
    tick(len(T))
    expect(V.ndim == 2 and V.shape[1] == 3 and T.ndim == 2 and T.shape[1] == 3, f"{name}: array shapes {V.shape} {T.shape}")
    expect(np.isfinite(V).all() and T.min() >= 0 and T.max() < len(V), f"{name}: bad entries")
    if used:
        expect(set(T.ravel().tolist()) == set(range(len(V))), f"{name}: unused vertices")
    bad = geo.closed_manifold(T)
    expect(bad is None, f"{name}: not closed: {bad}")
    expect(geo.euler(T) == chi, f"{name}: Euler characteristic {geo.euler(T)} != {chi}")
    expect(geo.components(T) == 1, f"{name}: not connected")
    A = geo.areas(V, T)
    expect(A.min() > 1e-9 * A.max(), f"{name}: degenerate triangle {int(A.argmin())}")
    D = np.linalg.norm(V[:, None] - V[None], axis=2) + 1e9 * np.eye(len(V))
    expect(D.min() > 1e-9, f"{name}: coincident vertices")
    got = geo.signed_volume(V, T)
    expect(got > 0, f"{name}: faces point inwards (volume {got})")
    if vol is not None:
        expect(close(got, vol, 1e-9), f"{name}: volume {got}, expected {vol}")
    observe((name, len(V), len(T), round(got, 6)))
    return V, T


def extents(name, V, lo, hi):
    expect(close(V.min(0), lo) and close(V.max(0), hi), f"{name}: extents {V.min(0)} {V.max(0)}, expected {lo} {hi}")


def radial(name, V):
    return np.hypot(V[:, 0], V[:, 2])


def cylinder(case):
    r, h, n, s = case
    V, T = solid(f"cylinder{case}", *MESH.create_cylinder(r, h, n, s), ngon(n, r) * h)
    R = radial("cyl", V)
    expect(all(abs(x - r) < 1e-9 or (x < 1e-9 and abs(abs(y) - h / 2) < 1e-9) for x, y in zip(R, V[:, 1])), "vertices are not on the cylinder")
    expect(close(np.unique(np.round(V[:, 1], 9)), np.linspace(-h / 2, h / 2, s + 1), 1e-7), "rings are not equidistant")
    expect(len(V) == n * (s + 1) + 2, "number of vertices")
    if n % 4 == 0:
        extents("cylinder", V, (-r, -h / 2, -r), (r, h / 2, r))


def cone(case):
    r, h, n = case
    V, T = solid(f"cone{case}", *MESH.create_cone(r, h, n), ngon(n, r) * h / 3)
    R = radial("cone", V)
    expect(close(sorted(R), [0, 0] + [r] * n) and close(V[:, 1].max(), h) and close(V[:, 1].min(), 0), "vertices are not on the cone")
    expect(all(abs(y) < 1e-9 for y, x in zip(V[:, 1], R) if x > 1e-6), "rim is not in the base plane")


def conical(case):
    r0, r1, h, n = case
    V, T = solid(f"conical{case}", *MESH.create_conical(r0, r1, h, n), frusta([(r0, 0), (r1, h)], n))
    R = radial("conical", V)
    expect(all(abs(x - (r0 if abs(y) < 1e-9 else r1)) < 1e-9 or x < 1e-9 for x, y in zip(R, V[:, 1])), "vertices are not on the conical")
    expect(close(V[:, 1].max(), h) and close(V[:, 1].min(), 0), "height of the conical")


def arc(s, r, dh=lambda i: 0.0):
    return [(r * math.sin(math.pi * i / (s - 1)), -r * math.cos(math.pi * i / (s - 1)) + dh(i)) for i in range(s)]


def sphere(case):
    r, n, s = case
    V, T = solid(f"sphere{case}", *MESH.create_sphere(r, n, s), frusta(arc(s, r), n))
    expect(close(np.linalg.norm(V, axis=1), np.full(len(V), r)), "vertices are not on the sphere")
    expect(len(V) == n * (s - 2) + 2, "number of vertices")
    N = geo.normals(V, T)
    expect(np.all(np.sum(N * V[T].mean(1), axis=1) > 0), "a face points inwards")


def ellipsoid(case):
    a, b, c, n, s = case
    V, T = solid(f"ellipsoid{case}", *MESH.create_ellipsoid(a, b, c, n, s), frusta(arc(s, 1.0), n) * a * b * c)
    expect(close(np.sum((V / np.array([a, b, c])) ** 2, axis=1), np.ones(len(V))), "vertices are not on the ellipsoid")


def capsule(case):
    r, h, n, s = case
    V, T = solid(f"capsule{case}", *MESH.create_capsule(r, h, n, s), None)
    ax = np.clip(V[:, 1], -h / 2, h / 2)
    d = np.sqrt(V[:, 0] ** 2 + V[:, 2] ** 2 + (V[:, 1] - ax) ** 2)
    expect(close(d, np.full(len(V), r)), "vertices are not on the capsule")
    expect(close(V[:, 1].min(), -h / 2 - r) and close(V[:, 1].max(), h / 2 + r), "extent of the capsule")
    if s % 2 == 0:
        expect(close(geo.signed_volume(V, T), frusta(arc(s, r, lambda i: -h / 2 if i < s / 2 else h / 2), n)), "volume of the capsule")


def box(case):
    w, h, d = case
    V, T = solid(f"box{case}", *MESH.create_box(w, h, d), w * h * d)
    extents("box", V, (-w / 2, -h / 2, -d / 2), (w / 2, h / 2, d / 2))
    expect(len(V) == 8 and len(T) == 12, "size of a box")


def cuboid(case):
    shear, taper, g, off = case
    # front face ccw p0..p3 seen from the front (+z), back face p4..p7 behind it; sheared and tapered
    base = [(-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1), (-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1)]
    P = np.array(base, float)
    P[:4, :2] *= taper
    P[:, 0] += shear * P[:, 1]
    P = P @ mat(octa()[g]).T + np.array(off)
    s2 = taper
    V, T = solid(f"cuboid{case}", *MESH.create_cuboid(*P), 2 * 4 * (1 + s2 + s2 * s2) / 3)
    expect(close(V, P), "corners of the cuboid are not the given points")


def torus(case):
    R, r, i, k = case
    V, T = solid(f"torus{case}", *MESH.create_torus(R, r, i, k), None, chi=0)
    d = np.hypot(np.hypot(V[:, 0], V[:, 1]) - R, V[:, 2])
    expect(close(d, np.full(len(V), r)), "vertices are not on the torus")
    # exact: Pappus for the polygonal section, swept with k sides
    a = 0.5 * i * r * r * math.sin(2 * math.pi / i)
    v = 0.0
    th = [2 * math.pi * q / i for q in range(i)]
    pts = [(R + r * math.cos(t), r * math.sin(t)) for t in th]
    v = abs(sum((p[0] ** 2 + p[0] * q[0] + q[0] ** 2) * (q[1] - p[1]) / 3 for p, q in zip(pts, pts[1:] + pts[:1]))) * 0.5 * k * math.sin(2 * math.pi / k)
    expect(close(geo.signed_volume(V, T), v, 1e-9), f"torus volume {geo.signed_volume(V, T)}, expected {v}")
    expect(len(V) == i * k and a > 0, "size of the torus")


def sweep(case):
    prof, n = case
    V, T = solid(f"sweep{case}", *MESH.profile_sweep([V3.make(r, h, 0.0) for r, h in prof], n), None)
    expect(close(geo.signed_volume(V, T), frusta(prof, n)), "volume of the sweep")


def sweepbad(case):
    prof, n = case
    tick()
    try:
        MESH.profile_sweep([V3.make(r, h, 0.0) for r, h in prof], n)
    except Exception:
        observe(case)
        return
    expect(False, f"sweep of {len(prof)} points in {n} slices was accepted")


def hull(case):
    P = [np.array(p, float) for p in case]
    V, T = MESH.create_convex_hull(P)
    V, T = np.asarray(V), np.asarray(T)
    tick()
    expect(geo.closed_manifold(T) is None, f"hull is not closed: {geo.closed_manifold(T)}")
    vol = geo.signed_volume(V, T)
    expect(vol > 0, "hull is inside out")
    pts = {tuple(p) for p in P}
    expect(all(tuple(v) in pts for v in V), "hull vertex is not an input point")
    for t in T:
        n = np.cross(V[t[1]] - V[t[0]], V[t[2]] - V[t[0]])
        expect(all(np.dot(n, p - V[t[0]]) <= 1e-9 for p in P), "an input point is outside of the hull")
    observe((len(V), len(T), round(vol, 6)))


MESHES = dict(box=lambda: MESH.create_box(1.0, 2.0, 3.0), cone=lambda: MESH.create_cone(1.0, 2.0, 5), sphere=lambda: MESH.create_sphere(1.0, 5, 5),
              torus=lambda: MESH.create_torus(2.0, 0.5, 3, 5))


def ops(case):
    name, seq = case
    V0, T0 = MESHES[name]()
    m = MESH.Mesh(V0, T0)
    m.V += 0.25  # own copy, off-centre
    expect(not np.shares_memory(m.V, V0) and not np.shares_memory(m.T, T0), "Mesh keeps a reference to the caller's arrays")
    V, T = np.array(m.V), np.array(T0)
    for op, arg in seq:
        tick()
        if op == "translate":
            MESH.translate(m, np.array(arg, float))
            V = V + np.array(arg)
        elif op == "rotate":
            R = mat(icosa()[arg])
            MESH.rotate(m, np.array(icosa()[arg]))
            V = V @ R.T
        elif op == "scale":
            MESH.scale(m, *arg)
            V = V * np.array(arg)
        elif op == "unit":
            MESH.scale_to_unit(m)
            lo, hi = V.min(0), V.max(0)
            V = (V - (lo + hi) / 2) / (hi - lo).max() + (lo + hi) / 2
            expect(close((m.V.max(0) - m.V.min(0)).max(), 1.0), "scale_to_unit does not give a unit box")
        elif op == "sort":
            a = np.array(arg, float)
            MESH.axis_sort(m, a)
            p = m.V @ a
            expect(np.all(np.diff(p) >= -1e-9), "axis sort does not order the vertices along the axis")
            means = np.mean(m.T, axis=1)
            expect(np.all(np.diff(means) >= -1e-9), "axis sort does not order the triangles by their vertices")
        lo, hi = MESH.aabb(m)
        expect(close(lo, V.min(0)) and close(hi, V.max(0)), f"bounding box after {op}")
        expect(geo.soup(m.V, m.T, 6) == geo.soup(V, T, 6), f"surface changed by {op}{arg}: not the transformed triangles")
        if op == "sort":
            V, T = np.array(m.V), np.array(m.T)
    observe((name, seq))


MAKE = dict(create_cylinder=(1.0, 2.0, 5, 2), create_cone=(1.0, 2.0, 5), create_conical=(1.0, 0.5, 2.0, 5), create_sphere=(1.0, 5, 5), create_ellipsoid=(1.0, 2.0, 3.0, 5, 5),
            create_capsule=(1.0, 2.0, 5, 6), create_box=(1.0, 2.0, 3.0), create_torus=(2.0, 0.5, 5, 6))


def freshness(case):
    name, = case
    if name in MAKE:
        fresh(lambda: getattr(MESH, name)(*MAKE[name]), name)
        fresh(lambda: getattr(MESH, name)(*MAKE[name][:2 if name != "create_conical" and name[-3:] not in ("box", "oid") else 3]), name)
    elif name == "sweep":
        fresh(lambda: MESH.profile_sweep([np.array(p) for p in ((0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 1.0, 0.0), (0.0, 1.0, 0.0))], 5), "profile_sweep")
    elif name == "hull":
        fresh(lambda: MESH.create_convex_hull([np.array(p, float) for p in itertools.product((0, 1), repeat=3)]), "create_convex_hull")
    else:
        fresh(lambda: MESH.create_cuboid(*np.array([(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], float)), "create_cuboid")


FAMILIES = dict(freshness=freshness, cylinder=cylinder, cone=cone, conical=conical, sphere=sphere, ellipsoid=ellipsoid, capsule=capsule, box=box, cuboid=cuboid,
                torus=torus, sweep=sweep, sweepbad=sweepbad, hull=hull, ops=ops)


def explore(ctx):
    q = ctx.quick
    N = range(3, 10 if q else 17)
    S = (0.25, 1.0, 3.5)
    ctx.run("freshness", [(n,) for n in (*MAKE, "sweep", "hull", "cuboid")])
    ctx.run("cylinder", [(r, h, n, s) for r in S for h in S for n in N for s in range(1, 5)], procs=8)
    ctx.run("cone", [(r, h, n) for r in S for h in S for n in N], procs=8)
    ctx.run("conical", [(r, t, h, n) for r in S for t in (0.1, 1.0, 5.0) for h in S for n in N], procs=8)
    ctx.run("sphere", [(r, n, s) for r in S for n in N for s in range(3, 9)], procs=8)
    ctx.run("ellipsoid", [(a, b, c, n, s) for a in (0.5, 2.0) for b in (0.5, 1.0) for c in (1.0, 3.0) for n in (3, 4, 5, 8, 12) for s in (3, 4, 5, 12)], procs=8)
    ctx.run("capsule", [(r, h, n, s) for r in S for h in S for n in (3, 4, 5, 8, 12) for s in (4, 5, 6, 7, 8, 12)], procs=8)
    ctx.run("box", itertools.product((0.1, 1.0, 2.0, 7.5), repeat=3), procs=4)
    ctx.run("cuboid", [(sh, tp, g, off) for sh in (0.0, 0.5, -1.0) for tp in (0.5, 1.0, 2.0) for g in range(48) for off in ((0, 0, 0), (1, -2, 3))], procs=8)
    ctx.run("torus", [(R, r, i, k) for R in (1.0, 2.0, 5.0) for r in (0.25, 0.75) for i in N for k in N], procs=8)
    lv = (0.5, 1.0, 2.0)
    ctx.run("sweep", [(((0.0, -1.0),) + tuple((r, float(i)) for i, r in enumerate(rs)) + ((0.0, len(rs) + 1.0),), n) for k in range(1, 4 if q else 5)
                      for rs in itertools.product(lv, repeat=k) for n in (3, 4, 7)], procs=8)
    ctx.run("sweepbad", [(((0.0, 0.0), (0.0, 1.0)), 5), (((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), 2), (((0.0, 0.0), (1.0, 0.0), (0.0, 1.0)), 1), (((0.0, 0.0),), 4)])
    lat = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)] + [(0.5, 0.5, 0.5), (2, 0.3, 0.4), (0.2, 0.1, -1)]
    full = [c for k in (4, 5, 6) for c in itertools.combinations(lat, k) if np.linalg.matrix_rank(np.array(c)[1:] - np.array(c)[0]) == 3]
    ctx.run("hull", full, procs=8)
    base = [("translate", (1.0, -2.0, 0.5)), ("rotate", 7), ("rotate", 33), ("scale", (2.0, 0.5, 1.5)), ("unit", None), ("sort", (1, 0, 0)), ("sort", (1, -1, 2))]
    d = 3 if q else 4
    ctx.run("ops", [(m, s) for m in MESHES for k in range(1, d + 1) for s in itertools.product(base, repeat=k) if k < 3 or m != "sphere"], procs=8)
    ctx.run("ops", [(m, (("sort", tuple(float(x) for x in a)),)) for m in MESHES for a in axes13()], procs=4)
    ctx.run("ops", [(m, (("rotate", g),)) for m in MESHES for g in range(120)], procs=4)
