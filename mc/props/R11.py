"""R11 procedurally assembled scenes are sound: exact geometry, no overlap, everything supported, right bookkeeping."""
import itertools
import os

import numpy as np
from scipy.spatial import cKDTree
from scipy.spatial.distance import cdist

import rainbow
import rainbow.geometry.surface_mesh as MESH
import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as PROC
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import hamilton, icosa, mat, same_rotation

LEVEL = "model_checking"
RULE = ("Every combination of dimensions, counts, placement and density on a lattice, for each scene generator: the returned list of names against the "
        "bodies really created, closed outward convex blocks, mass = density x volume, exhaustive pairwise separation (separating axes), a path of "
        "touching blocks from every block to the ground, exact dimensions, places of pillars and poles, sizes of falling objects, contents of named scenes and rotational symmetry; scenes are also built twice in one engine.")
ASSUMPTIONS = ["pantheon and colosseum walls thick enough for consecutive polygonal rings to overlap", "distance grids of the lowest resolution (they do not enter the judged quantities)"]
ICO = list(icosa())
POSES = [((0.0, 0.0, 0.0), (1.0, 0, 0, 0)), ((1.5, -0.25, 3.0), tuple(map(float, ICO[40]))), ((0.0, 2.0, 0.0), tuple(map(float, ICO[7])))]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(rainbow.__file__ or list(rainbow.__path__)[0] + "/x")))


def world():
    os.chdir(ROOT)
    e = rigid.engine(2)
    for m in ("stone", "wood"):
        API.create_surfaces_interaction(e, m, m, 0.0, np.array([0.5, 0.5, 0.5]))
    return e


def uniq(D):
    D = D / np.linalg.norm(D, axis=1)[:, None]
    s = np.sign(D[np.arange(len(D)), np.argmax(np.abs(D) > 1e-6, axis=1)])
    return np.unique(np.round(D * s[:, None], 7), axis=0)


class Block:
    """World geometry of a body, expressed in the frame of the scene."""

    def __init__(self, e, n, r, R):
        b = e.bodies[n]
        self.n, self.T, self.body = n, np.asarray(b.shape.mesh.T), b
        self.V = (rigid.world_vertices(b) - r) @ R
        self.lo, self.hi = self.V.min(0), self.V.max(0)
        V, T = self.V, self.T
        N = np.cross(V[T[:, 1]] - V[T[:, 0]], V[T[:, 2]] - V[T[:, 0]])
        L = np.linalg.norm(N, axis=1)
        N = N[L > 1e-12] / L[L > 1e-12][:, None]
        self.convex = ((V @ N.T).max(0) - np.einsum("ij,ij->i", N, V[T[L > 1e-12][:, 0]])).max()
        self.N = uniq(N)
        self.E = uniq(np.concatenate([V[T[:, i]] - V[T[:, (i + 1) % 3]] for i in range(3)]))


def separation(A, B):
    """Largest separation over all candidate axes (negative = overlap), exact in sign for convex blocks."""
    def along(N):
        a, b = A.V @ N.T, B.V @ N.T
        return np.maximum(b.min(0) - a.max(0), a.min(0) - b.max(0)).max()
    s = along(np.vstack([A.N, B.N]))
    if s < -1e-7:
        C = np.cross(A.E[:, None, :], B.E[None]).reshape(-1, 3)
        C = C[np.linalg.norm(C, axis=1) > 1e-6]
        if len(C):
            s = max(s, along(C / np.linalg.norm(C, axis=1)[:, None]))
    return s


def bookkeeping(e, names, before, density, material, free=True):
    ok = expect(all(isinstance(n, str) for n in names), "the result is not a list of names", "names")
    if not ok:
        return False
    expect(len(set(names)) == len(names), "a name is listed twice", "names")
    created = [n for n in e.bodies if n not in before]
    if not expect(sorted(created) == sorted(names), f"{len(names)} names for {len(created)} bodies", "names"):
        return False
    for n in names:
        b = e.bodies[n]
        if free is not None:
            expect(bool(b.is_fixed) == (not free), f"{n} fixed={b.is_fixed}", "type")
        expect(b.material == material, f"{n} is made of {b.material}", "material")
        V, T = np.asarray(b.shape.mesh.V), np.asarray(b.shape.mesh.T)
        vol = geo.signed_volume(V, T)
        expect(close(b.mass, density * vol, 1e-6 * max(1.0, density * vol)), f"{n}: mass {b.mass}, density x volume {density * vol}", "mass")
        expect(close(b.v, np.zeros(3), 0) and close(b.w, np.zeros(3), 0), f"{n} is created moving", "moving")
    return True


def masonry(e, names, pose, support, key=""):
    r, R = np.array(pose[0]), mat(np.array(pose[1]))
    B = [Block(e, n, r, R) for n in names]
    size = max(np.max([b.hi for b in B], axis=0) - np.min([b.lo for b in B], axis=0))
    for b in B:
        bad = geo.closed_manifold(b.T)
        expect(bad is None, f"{b.n}: {bad}", "closed" + key)
        expect(geo.signed_volume(b.V, b.T) > 0, f"{b.n} is inside out", "outward" + key)
        expect(b.convex < 1e-7 * size, f"{b.n} is not convex by {b.convex}", "convex" + key)
    near = {i: [] for i in range(len(B))}
    pad = support + 1e-6
    lo, hi = np.array([b.lo for b in B]), np.array([b.hi for b in B])
    for i in range(len(B)):
        cand = np.nonzero(np.all((lo[i] <= hi[i + 1:] + pad) & (hi[i] >= lo[i + 1:] - pad), axis=1))[0]
        for j in cand + i + 1:
            s = separation(B[i], B[j])
            tick()
            expect(s > -1e-7 * size, f"{B[i].n} and {B[j].n} overlap by {-s}", "overlap" + key)
            if s < pad:
                near[i].append(j), near[j].append(i)
    bottom = min(b.lo[1] for b in B)
    expect(close(bottom, 0.0, 1e-9 * size), f"the lowest block is at {bottom}", "ground" + key)
    seen = [i for i, b in enumerate(B) if b.lo[1] < 1e-6]
    got = set(seen)
    while seen:
        for j in near[seen.pop()]:
            if j not in got:
                got.add(j), seen.append(j)
    expect(len(got) == len(B), f"{len(B) - len(got)} of {len(B)} blocks are not connected to the ground", "support" + key)
    return B


def extent(B, lo, hi, key):
    L, H = np.min([b.lo for b in B], axis=0), np.max([b.hi for b in B], axis=0)
    for ax in range(3):
        if lo[ax] is not None:
            expect(close(L[ax], lo[ax], 1e-9 * (1 + abs(lo[ax]))), f"axis {ax} starts at {L[ax]}, expected {lo[ax]}", key)
        if hi[ax] is not None:
            expect(close(H[ax], hi[ax], 1e-9 * (1 + abs(hi[ax]))), f"axis {ax} ends at {H[ax]}, expected {hi[ax]}", key)


def symmetric(B, angle, key):
    V = np.vstack([b.V for b in B])
    c, s = np.cos(angle), np.sin(angle)
    W = V @ np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]).T
    a = np.unique(np.round(V, 6), axis=0)
    d = cKDTree(a).query(W)[0].max()
    expect(d < 1e-5, f"turning by 1/{2 * np.pi / angle:.0f} changes the building by {d}", key)


def ring(B, n, width_in, width_out, ri, ro, key):
    """All blocks of a ring lie between the inner apothem ri and the outer apothem ro, n per layer."""
    for b in B:
        c = b.V.mean(0)
        d = np.array([c[0], 0, c[2]])
        d /= np.linalg.norm(d)
        t = np.array([d[2], 0, -d[0]])
        x, y = b.V @ d, b.V @ t
        expect(close(x.min(), ri, 1e-9 * ro) and close(x.max(), ro, 1e-9 * ro), f"{b.n} spans radii {x.min()}..{x.max()}", key)
        for rad, w in ((ri, width_in), (ro, width_out)):
            yy = y[np.abs(x - rad) < 1e-6 * ro]
            expect(len(yy) and close([yy.min(), yy.max()], [-w / 2, w / 2], 1e-9 * ro), f"{b.n} is {np.ptp(yy) if len(yy) else None} wide at {rad}, expected {w}", key)


def pillar(case):
    w, h, d, stones, pose, density = case
    e = world()
    names = PROC.create_pillar(e, np.array(POSES[pose][0]), np.array(POSES[pose][1]), w, h, d, stones, density, "stone")
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == stones + 4, f"{len(names)} bodies for {stones} stones", "count")
    B = masonry(e, names, POSES[pose], 0.0)
    extent(B, (-w / 2, 0, None), (w / 2, h, None), "size")
    z = max(max(-b.lo[2], b.hi[2]) for b in B)
    expect(d / 2 - 1e-9 <= z <= max(d, 0.9 * w) / 2 + 1e-9, f"half depth {z}", "size")
    full = [b for b in B if np.allclose([b.lo[0], b.hi[0], b.lo[2], b.hi[2]], [-w / 2, w / 2, -d / 2, d / 2])]
    expect(len(full) >= 2, "socle and abacus do not have the width and depth asked for", "size")
    # walking up: every block starts where another ends, without gaps
    lev = sorted((round(b.lo[1], 9), round(b.hi[1], 9)) for b in B)
    for (a0, a1), (b0, b1) in zip(lev, lev[1:]):
        expect(close(a1, b0, 1e-8), f"a block ends at {a1}, the next starts at {b0}", "stacked")
    shaft = lev[2:-2]
    expect(np.ptp([b - a for a, b in shaft]) < 1e-8, f"shaft stones have heights {shaft}", "stones")
    observe([len(names), e.bodies[names[0]].mass])


def arch(case):
    w, h, d, piers, stones, pose, density = case
    e = world()
    names = PROC.create_arch(e, np.array(POSES[pose][0]), np.array(POSES[pose][1]), w, h, d, piers, stones, density, "stone")
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == 2 * piers + stones, f"{len(names)} bodies", "count")
    B = masonry(e, names, POSES[pose], 0.0)
    top = h - w / 2 + w / 2 * np.cos(np.pi / stones / 2)
    extent(B, (-w / 2, 0, -d / 2), (w / 2, top, d / 2), "size")
    ro, ri = w / 2, w / 2 - w / 5
    vol = 2 * (w / 5) * (h - w / 2) * d + stones * 0.5 * np.sin(np.pi / stones) * (ro ** 2 - ri ** 2) * d
    got = sum(b.body.mass for b in B) / density
    expect(close(got, vol, 1e-6 * vol), f"volume of the stones {got}, of the arch {vol}", "volume")
    V = np.vstack([b.V for b in B]) - np.array([0, h - w / 2, 0])
    inside = (np.hypot(V[:, 0], np.maximum(V[:, 1], 0)) < ri * np.cos(np.pi / stones / 2) - 1e-9)
    expect(not inside.any(), "a stone reaches into the opening", "opening")


def dome(case):
    ro, ri, layers, seg, pose, density = case
    e = world()
    names = PROC.create_dome(e, np.array(POSES[pose][0]), np.array(POSES[pose][1]), ro, ri, layers, seg, density, "stone")
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == layers * seg, f"{len(names)} bodies", "count")
    B = masonry(e, names, POSES[pose], 0.0)
    dome_shape(B, ro, ri, layers, seg, 0.0)


def dome_shape(B, ro, ri, layers, seg, base):
    V = np.vstack([b.V for b in B]) - np.array([0, base, 0])
    rad = np.linalg.norm(V, axis=1)
    expect(np.minimum(np.abs(rad - ro), np.abs(rad - ri)).max() < 1e-9 * ro, "a corner lies on neither sphere", "spheres")
    up = np.degrees(np.arcsin(V[:, 1] / rad))
    want = 90.0 / (layers + 1) * np.arange(layers + 1)
    got = np.unique(np.round(up, 6))
    expect(len(got) == len(want) and np.allclose(got, want, atol=1e-5), f"layers at elevations {got}", "layers")
    symmetric(B, 2 * np.pi / seg, "symmetry")


def tower(case):
    ro, ri, h, layers, seg, cubes, safety, pose, density = case
    e = world()
    names = PROC.create_tower(e, np.array(POSES[pose][0]), np.array(POSES[pose][1]), ro, ri, h, layers, seg, cubes, density, "stone", safety)
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == layers * seg, f"{len(names)} bodies", "count")
    B = masonry(e, names, POSES[pose], 0.0)
    extent(B, (None, 0, None), (None, h, None), "size")
    t = 2 * np.tan(np.pi / seg) * safety
    ring(B, seg, t * ri, t * (ri if cubes else ro), ri, ro, "bricks")
    lev = sorted({(round(b.lo[1], 8), round(b.hi[1], 8)) for b in B})
    expect(len(lev) == layers and np.allclose([y - x for x, y in lev], h / layers), f"layers at {lev}", "layers")
    symmetric(B, 2 * np.pi / seg, "symmetry")
    if layers > 1:  # bonded masonry: joints of consecutive layers are offset by half a brick
        ang = [np.sort([np.arctan2(*b.V.mean(0)[[0, 2]]) % (2 * np.pi / seg) for b in B if abs(b.lo[1] - l[0]) < 1e-6]) for l in lev[:2]]
        off = (ang[1][0] - ang[0][0]) % (2 * np.pi / seg) / (2 * np.pi / seg)
        expect(abs(off - 0.5) < 1e-6, f"joints of consecutive layers are offset by {off} bricks", "bond")


def colosseum(case):
    ro, ri, h, levels, n, safety, pose, density = case
    e = world()
    names = PROC.create_colosseum(e, np.array(POSES[pose][0]), np.array(POSES[pose][1]), ro, ri, h, levels, n, density, "stone", safety)
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == levels * n * (2 * 5 + 9 + 1), f"{len(names)} bodies", "count")
    aw = 2 * np.tan(np.pi / n) * ri * safety
    B = masonry(e, names, POSES[pose], aw / 2 * (1 - np.cos(np.pi / 18)))
    extent(B, (None, 0, None), (None, h, None), "size")
    symmetric(B, 2 * np.pi / n, "symmetry")
    V = np.vstack([b.V for b in B])
    rr = np.hypot(V[:, 0], V[:, 2])
    expect(close(rr.min(), ri, 1.5e-1 * ri) and rr.min() >= ri - 1e-9, f"inner radius {rr.min()}", "size")


def pantheon(case):
    ro, ri, h, layers, seg, pose, density = case
    e = world()
    names = PROC.create_pantheon(e, np.array(POSES[pose][0]), np.array(POSES[pose][1]), ro, ri, h, layers, seg, density, "stone")
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == 2 * layers * seg, f"{len(names)} bodies", "count")
    # a polygonal dome reaches its wall only if its corner radius does
    B = masonry(e, names, POSES[pose], 0.0 if ro * np.cos(np.pi / seg) > ri else 2 * ro)
    base = h - ro
    D, W = [b for b in B if b.lo[1] > base - 1e-6], [b for b in B if b.hi[1] < base + 1e-6]
    expect(len(D) == layers * seg and len(W) == layers * seg, f"{len(W)} blocks in the wall, {len(D)} in the dome", "parts")
    if len(D):
        dome_shape(D, ro, ri, layers, seg, base)
    if len(W):
        t = 2 * np.tan(np.pi / seg) * 0.99
        ring(W, seg, t * ri, t * ro, ri, ro, "bricks")


def stack(case):
    w, h, d, k, density = case
    e = world()
    names = PROC.create_box_stack(e, w, h, d, k, density, "stone")
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == k, f"{len(names)} bodies", "count")
    B = masonry(e, names, POSES[0], 0.0)
    extent(B, (None, 0, None), (None, k * h, None), "size")
    for i, b in enumerate(B):
        expect(close(b.body.mass, density * w * h * d, 1e-9), "box of the wrong size", "size")
        a = i * np.pi / 4
        R = np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
        L = b.V @ R
        expect(close(L.max(0) - L.min(0), (w, h, d), 1e-9), f"box {i} is not turned by {i} eighths", "turn")


def temple(case):
    I, K, w, h, d, stones, density = case
    e = world()
    key = f":temple:{I},{K},{w},{h},{d},{stones}" if w > d or I == 2 else ""
    names = PROC.create_temple(e, I, K, w, h, d, stones, density, "stone")
    if not bookkeeping(e, names, (), density, "stone"):
        return
    B = masonry(e, names, POSES[0], 0.0, key)
    tw, td = (2 * I - 1) * w + 6 * w, (2 * K - 1) * d + 6 * d
    extent(B, (-tw / 2, 0, -td / 2), (tw / 2, None, td / 2), "size")
    pillars = 2 * I + 2 * (K - 2) + len(range(3, K - 3, 3)) * (I - 2)
    drums = [b for b in B if len(b.V) > 10]
    expect(len(drums) == pillars * (stones + 2), f"{len(drums)} round stones for {pillars} pillars of {stones} stones", "pillars")
    # the pillars stand on their grid: all of the border, and every third row of the inside
    x, z = (lambda i: 2 * i * w - (2 * I - 1) * w / 2 + w / 2), (lambda k: 2 * k * d - (2 * K - 1) * d / 2 + d / 2)
    spots = [(i, k) for i in range(I) for k in range(K) if i in (0, I - 1) or k in (0, K - 1)] + [(i, k) for k in range(3, K - 3, 3) for i in range(1, I - 1)]
    at = np.unique(np.round(np.array([b.V.mean(0)[[0, 2]] for b in drums]), 6), axis=0)
    want = np.array([(x(i), z(k)) for i, k in spots])
    expect(len(at) == len(want) and cKDTree(want).query(at)[0].max() < 1e-6, f"pillars stand at {at.tolist()}", "spots")
    # the building is symmetric under left/right reflection
    V = np.unique(np.round(np.vstack([b.V for b in B if len(b.V) <= 10]), 6), axis=0)
    dist = cKDTree(V).query(V * np.array((-1, 1, 1)))[0].max()
    expect(dist < 1e-5, f"the left and right halves differ by {dist}", "mirror")


def invalid(case):
    what, args = case
    e = world()
    rigid.body(e, "old", None, r=(9, 9, 9))
    shapes, bodies = list(e.shapes), list(e.bodies)
    try:
        getattr(PROC, what)(e, *[np.array(a) if isinstance(a, tuple) else a for a in args], "stone")
    except (RuntimeWarning, RuntimeError, ValueError, ZeroDivisionError):
        tick()
    else:
        expect(False, f"{what}{args} is accepted", "accepted")
    expect(list(e.shapes) == shapes and list(e.bodies) == bodies, f"{what}{args} is rejected but leaves parts behind", "partial")


BUILD = {
    "pillar": (lambda e, p: PROC.create_pillar(e, *p, 1.0, 5.0, 1.0, 2, 2.0, "stone")),
    "arch": (lambda e, p: PROC.create_arch(e, *p, 2.0, 3.0, 0.5, 2, 3, 2.0, "stone")),
    "dome": (lambda e, p: PROC.create_dome(e, *p, 5.0, 4.0, 2, 4, 2.0, "stone")),
    "tower": (lambda e, p: PROC.create_tower(e, *p, 5.0, 4.0, 3.0, 2, 4, False, 2.0, "stone")),
    "pantheon": (lambda e, p: PROC.create_pantheon(e, *p, 5.0, 4.0, 8.0, 1, 4, 2.0, "stone")),
    "lattice": (lambda e, p: PROC.create_lattice(e, *p, lattice_shapes(e, 2), 4.0, 2.0, 4.0, 2, 1, 2, 2.0, "stone", False)),
}


def lattice_shapes(e, n):
    out = []
    for i in range(n):
        name = API.generate_unique_name(f"s{i}")
        V, T = geo.box(0.5 + 0.2 * i, 0.4, 0.3, (0.7, -0.2, 0.1))
        rigid.add_shape(e, name, V, T)
        out.append(name)
    return out


def snapshot(e, names):
    return [(e.bodies[n].mass, tuple(e.bodies[n].inertia), rigid.world_vertices(e.bodies[n]).copy(), e.bodies[n].material, e.bodies[n].is_fixed) for n in names]


def same(A, B):
    return len(A) == len(B) and all(abs(a[0] - b[0]) < 1e-12 and np.allclose(a[1], b[1], atol=1e-12) and np.allclose(a[2], b[2], atol=1e-12) and a[3:] == b[3:] for a, b in zip(A, B))


def several(case):
    """Sequences of generators in one engine: each builds what it builds in an empty engine, without touching the earlier ones."""
    e = world()
    seen, snaps = [], []
    for what, pose in case:
        p = tuple(np.array(x) for x in POSES[pose])
        before = set(e.bodies)
        names = BUILD[what](e, p)
        if not bookkeeping(e, names, before, 2.0, "stone"):
            return
        f = world()
        ref = snapshot(f, BUILD[what](f, tuple(np.array(x) for x in POSES[pose])))
        expect(same(snapshot(e, names), ref), f"{what} depends on what was built before", "history")
        for (w, ns), s in zip(seen, snaps):
            expect(same(snapshot(e, ns), s), f"building {what} changed the {w}", "disturbs")
        expect(close(p[0], POSES[pose][0], 0) and close(p[1], POSES[pose][1], 0), f"{what} modified its arguments", "arguments")
        seen.append((what, names)), snaps.append(snapshot(e, names))


def lattice(case):
    n, I, J, K, size, pose, qb, rand, density = case
    e = world()
    shapes = lattice_shapes(e, n)
    r, q = (np.array(x) for x in POSES[pose])
    if rand is not None:
        np.random.seed(rand)
    names = PROC.create_lattice(e, r, q, shapes, *size, I, J, K, density, "stone", rand is not None, None if qb is None else np.array(ICO[qb]))
    if not bookkeeping(e, names, (), density, "stone"):
        return
    expect(len(names) == I * J * K, f"{len(names)} bodies", "count")
    R = mat(q)
    left = {(i, j, k) for i in range(I) for j in range(J) for k in range(K)}
    cell = np.array(size) / (I, J, K)
    for m in names:
        c = (R.T @ (API.get_position(e, m) - r)) / cell - 0.5
        ijk = tuple(int(x) for x in np.round(c))
        expect(np.abs(c - ijk).max() < 1e-9 and ijk in left, f"a body at cell {c}", "cells")
        left.discard(ijk)
        expect(e.bodies[m].shape.name == shapes[sum(ijk) % n], f"cell {ijk} holds {e.bodies[m].shape.name}", "shapes")
        Q = API.get_orientation(e, m)
        expect(abs(np.linalg.norm(Q) - 1) < 1e-9, "not a unit quaternion", "unit")
        if rand is None:
            want = hamilton(q, (1, 0, 0, 0) if qb is None else np.array(ICO[qb]))
            expect(same_rotation(Q, want), f"orientation {Q}, expected {want}", "orientation")
    if rand is not None and len(names) > 1:
        qs = [API.get_orientation(e, m) for m in names]
        expect(not any(same_rotation(a, b, 1e-6) for a, b in itertools.combinations(qs, 2)), "two bodies share a random orientation", "random")


def containers(case):
    what, a, b, I, J, K, density = case
    e = world()
    np.random.seed(5)
    if what == "sandbox":
        names = PROC.create_sandbox(e, a, b, 2 * a, I, J, K, density, "stone")
    elif what == "funnel":
        names = PROC.create_funnel(e, a, b, 2.0, 3.0, 4.0, I, J, K, density, "stone")
    elif what == "glasses":
        names = PROC.create_glasses(e, a, b, 2.0, 3.0, 4.0, I, J, K, density, "stone")
    elif what == "jacks":
        names = PROC.create_jack_lattice(e, np.array(POSES[1][0]), np.array(POSES[1][1]), 2.0, 3.0, 4.0, I, J, K, density, "stone", True)
    else:
        names = PROC.create_poles(e, a, 0.02 * b, I + 2, K + 1, 2.0, 3.0, 4.0, I, J, K, density, "stone")
    if not bookkeeping(e, names, (), density, "stone", None):
        return
    fixed, free = [n for n in names if e.bodies[n].is_fixed], [n for n in names if not e.bodies[n].is_fixed]
    expect(len(free) == I * J * K, f"{len(free)} falling bodies", "count")
    Z = np.zeros(3), np.eye(3)
    F = [Block(e, n, *Z) for n in fixed]
    G = [rigid.world_vertices(e.bodies[n]) for n in free]
    com = np.array([API.get_position(e, n) for n in free])
    if what == "jacks":
        com = (com - np.array(POSES[1][0])) @ mat(np.array(POSES[1][1]))
        lo, hi = np.zeros(3), np.array((2.0, 3.0, 4.0))
    else:
        w = (a, b, 2 * a) if what == "sandbox" else (2.0, 3.0, 4.0)
        y0 = dict(sandbox=1.5 * b + 0.1 * b, funnel=3 * a, glasses=1.25 * a, poles=2 * a)[what]
        lo = np.array((-w[0] / 2, y0, -w[2] / 2))
        hi = lo + w
    cells = (hi - lo) / (I, J, K)
    ijk = (com - lo) / cells - 0.5
    expect(np.abs(ijk - np.round(ijk)).max() < 1e-9 and len({tuple(x) for x in np.round(ijk).astype(int).tolist()}) == len(free)
           and ijk.min() > -0.1 and (ijk.max(0) < np.array((I, J, K)) - 0.9).all(), "falling bodies do not fill the cells of their grid", "cells")
    if what in ("funnel", "jacks"):  # jacks fit their cells in every orientation
        size = 0.9 * cells.min()
        for n in free:
            V = np.asarray(e.bodies[n].shape.mesh.V)
            expect(np.linalg.norm(V, axis=1).max() <= size / 2 * 1.001, f"a jack of radius {np.linalg.norm(V, axis=1).max()} in a cell of {cells.min()}", "fits")
    for n in free:  # the others are scaled to fill their cell, none is much larger or much smaller
        V = np.asarray(e.bodies[n].shape.mesh.V)
        D = cdist(V[::1 + len(V) // 500], V).max() / cells.min()
        expect(0.4 < D <= np.sqrt(3) * (1.001 if what == "poles" else 0.901), f"a falling body of diameter {D} times its cell", "fits")
    if what == "jacks":
        expect(not fixed, "jacks are free", "fixed")
        return
    for V in G:
        expect(V[:, 1].min() > max(b.hi[1] for b in F) - 1e-9, "a falling body starts below the top of the container", "above")
    if what == "sandbox":
        th = 0.1 * b
        expect(len(F) == 5, f"{len(F)} walls", "walls")
        cav_lo, cav_hi = np.array((-a / 2, th, -a)), np.array((a / 2, th + b, a))
        for A, B in itertools.combinations(F, 2):
            s = separation(A, B)
            expect(s > -1e-9, f"walls overlap by {-s}", "walls")
        for A in F:
            expect(np.max(np.maximum(A.lo - cav_hi, cav_lo - A.hi)) > -1e-9, "a wall stands in the box", "cavity")
            expect(A.lo[1] > -1e-9, "a wall reaches below the ground", "walls")
        for ax, side in ((0, 0), (0, 1), (1, 0), (2, 0), (2, 1)):  # every side but the top is closed, flush and gap free
            plane = (cav_lo, cav_hi)[side][ax]
            o = [x for x in range(3) if x != ax]
            ok = any(abs((A.hi if side == 0 else A.lo)[ax] - plane) < 1e-9 and all(A.lo[x] < cav_lo[x] + 1e-9 and A.hi[x] > cav_hi[x] - 1e-9 for x in o) for A in F)
            expect(ok, f"side {ax},{side} of the box is open", "closed")
    elif what == "funnel":
        expect(len(F) == 1, f"{len(F)} funnels", "walls")
        expect(close(F[0].lo, (-b, a, -b), 1e-6 * (a + b)) and close(F[0].hi, (b, 2 * a, b), 1e-6 * (a + b)), f"funnel spans {F[0].lo}..{F[0].hi}", "size")
        V = F[0].V
        low, high = V[V[:, 1] < a + 1e-6 * a], V[V[:, 1] > 2 * a - 1e-6 * a]
        expect(np.hypot(high[:, 0], high[:, 2]).max() > np.hypot(low[:, 0], low[:, 2]).max(), "the funnel opens downwards", "upright")
    elif what == "glasses":
        expect(len(F) == 1, f"{len(F)} glasses", "walls")
        expect(close(F[0].lo, (-b, 0, -b), 1e-6 * (a + b)) and close(F[0].hi, (b, a, b), 1e-6 * (a + b)), f"glass spans {F[0].lo}..{F[0].hi}", "size")
    else:
        n = np.array((I + 2, K + 1))
        expect(len(F) == n.prod(), f"{len(F)} poles", "walls")
        for A in F:
            expect(close([A.lo[1], A.hi[1]], [0, a], 1e-9) and A.hi[0] - A.lo[0] <= 0.04 * b + 1e-9, "a pole of the wrong size", "size")
        for A, B in itertools.combinations(F, 2):
            expect(separation(A, B) > 1e-3, "poles overlap", "walls")
        c = np.array([(A.lo + A.hi) / 2 for A in F])[:, [0, 2]]
        # one pole in every cell of the grid of poles, in its lowest corner
        at = (c - (-1.0, -2.0) - 0.02 * b) / (np.array((2.0, 4.0)) / n)
        expect(np.abs(at - np.round(at)).max() < 1e-6 and {tuple(t) for t in np.round(at).astype(int).tolist()} == set(itertools.product(range(n[0]), range(n[1]))),
               f"poles at {c.tolist()}", "grid")


def rocks(case):
    size, I, J, K, density = case
    e = world()
    np.random.seed(7)
    names = PROC.create_rock_slide(e, *size, I, J, K, density, "stone")
    if not bookkeeping(e, names, (), density, "stone", None):
        return
    fixed = [n for n in names if e.bodies[n].is_fixed]
    expect(len(fixed) == 1, f"{len(fixed)} landscapes", "walls")
    expect(len(names) == 21 + I * J * K, f"{len(names)} bodies", "count")


def ground(case):
    pose, density = case
    e = world()
    r, q = (np.array(x) for x in POSES[pose])
    PROC.create_ground(e, r, q, density, "wood")
    if not expect(len(e.bodies) == 1, f"{len(e.bodies)} bodies", "count"):
        return
    bookkeeping(e, list(e.bodies), (), density, "wood", False)
    b = Block(e, list(e.bodies)[0], r, mat(q))
    expect(close(b.hi[1], 0, 1e-9) and b.lo[1] < -0.1 and (b.lo[[0, 2]] < -10).all() and (b.hi[[0, 2]] > 10).all(), f"ground spans {b.lo}..{b.hi}", "size")
    expect(close(b.lo[[0, 2]], -b.hi[[0, 2]], 1e-9), "the ground is not centred", "size")


CONTENT = {"chainmail": (1, 2, 0, 4), "sandbox": (5, 1, 0, 0), "rock_slide": (1, 1, 0, 0), "gear_train": (1, 2, 2, 0), "cube_hinge_chain": (0, 2, 2, 0), "ur5": (0, 2, 2, 0),
           "poles": (3, 1, 0, 0), "glasses": (2, 1, 0, 0), "funnel": (2, 1, 0, 0)}


def euler(T):
    T = np.asarray(T)
    return len(np.unique(T)) - len(np.unique(np.sort(np.vstack([T[:, [0, 1]], T[:, [1, 2]], T[:, [2, 0]]]), axis=1), axis=0)) + len(T)


GROUND = ("pillar", "arch", "dome", "tower", "colosseum", "pantheon", "funnel", "glasses", "poles", "temple", "box_stack")


def scene(case):
    name, = case
    names = PROC.get_scene_names()
    if not expect(name in names and len(set(names)) == len(names), f"{name} is not listed once in {names}", "names"):
        return
    e = world()
    np.random.seed(3)
    PROC.create_scene(e, name)
    expect(len(e.bodies) >= 2, f"{len(e.bodies)} bodies", "empty")
    kinds = {}
    for f in e.forces.values():
        kinds[f.force_type if hasattr(f, "force_type") else type(f).__name__] = f
    g = [f for f in e.forces.values() if hasattr(f, "g")]
    d = [f for f in e.forces.values() if hasattr(f, "alpha")]
    if expect(len(g) == 1 and len(d) == 1 and len(e.forces) == 2, f"forces {list(e.forces)}", "forces"):
        expect(close(g[0].g, 9.81, 0) and close(g[0].up, (0, 1, 0), 0), f"gravity {g[0].g} {g[0].up}", "forces")
        for b in e.bodies.values():
            fs = list(b.forces)
            expect(len(fs) == 2 and any(f is g[0] for f in fs) and any(f is d[0] for f in fs), f"{b.name} has forces {fs}", "forces")
    lows = {n: rigid.world_vertices(b)[:, 1].min() for n, b in e.bodies.items()}
    if name in GROUND:
        tops = {n: rigid.world_vertices(b)[:, 1].max() for n, b in e.bodies.items()}
        gr = [n for n, b in e.bodies.items() if b.is_fixed and tops[n] < 1e-9]
        expect(len(gr) == 1, f"{len(gr)} ground bodies", "ground")
        expect(all(lows[n] > -1e-9 for n in lows if n not in gr), "a body starts in the ground", "ground")
    rings = sum(euler(b.shape.mesh.T) == 0 for b in e.bodies.values())
    fixed = sum(b.is_fixed for b in e.bodies.values())
    free = len(e.bodies) - fixed
    least = CONTENT.get(name, (1 if name in GROUND else 0, 1, 0, 0))  # what the name promises: fixed, free, hinges, rings
    expect(all(x >= y for x, y in zip((fixed, free, len(e.hinges), rings), least)), f"{fixed} fixed, {free} free bodies, {len(e.hinges)} hinges, {rings} rings", "content")
    for b in e.bodies.values():
        expect(np.isfinite(b.mass) and b.mass > 0 and (np.asarray(b.inertia) > 0).all(), f"{b.name}: mass {b.mass}, inertia {b.inertia}", "mass")
        expect(abs(np.linalg.norm(b.q) - 1) < 1e-9, f"{b.name}: |q| = {np.linalg.norm(b.q)}", "unit")
    observe([len(e.bodies), len(e.hinges)])


FAMILIES = dict(pillar=pillar, arch=arch, dome=dome, tower=tower, colosseum=colosseum, pantheon=pantheon, stack=stack, temple=temple,
                invalid=invalid, several=several, lattice=lattice, containers=containers, rocks=rocks, ground=ground, scene=scene)

P0 = ((0.0, 0.0, 0.0), (1.0, 0.0, 0.0, 0.0))
INVALID = [("create_arch", (*P0, *a)) for a in [
    (0.0, 3.0, 0.5, 3, 5, 1.0), (-1.0, 3.0, 0.5, 3, 5, 1.0), (2.0, 0.0, 0.5, 3, 5, 1.0), (2.0, -3.0, 0.5, 3, 5, 1.0), (2.0, 3.0, 0.0, 3, 5, 1.0),
    (2.0, 3.0, -0.5, 3, 5, 1.0), (2.0, 3.0, 0.5, 0, 5, 1.0), (2.0, 3.0, 0.5, -1, 5, 1.0), (2.0, 3.0, 0.5, 3, 2, 1.0), (2.0, 3.0, 0.5, 3, 1, 1.0),
    (2.0, 3.0, 0.5, 3, 4, 1.0), (2.0, 3.0, 0.5, 3, 6, 1.0), (2.0, 3.0, 0.5, 3, 5, 0.0), (2.0, 3.0, 0.5, 3, 5, -2.0), (2.0, 1.0, 0.5, 3, 5, 1.0), (2.0, 0.5, 0.5, 3, 5, 1.0)]]
INVALID += [("create_pantheon", (*P0, 5.0, 4.0, h, 2, 4, 1.0)) for h in (5.0, 4.5, 0.0)]
INVALID += [("create_temple", (3, K, 1.0, 3.0, 1.0, 2, 1.0)) for K in (2, 3, 5, 6, 8, 9)]
LIGHT = ["pillar", "arch", "dome", "tower", "pantheon", "temple", "box_stack", "cube_hinge_chain", "gear_train", "glasses", "ur5", "chainmail", "sandbox", "rock_slide", "colosseum", "poles"]
HEAVY = ["funnel"]


def explore(ctx):
    prod = itertools.product
    q = ctx.quick
    ctx.run("pillar", list(prod((0.5, 1.0, 2.0), (1.0, 5.0), (0.5, 1.0, 2.0), (1, 2, 3) if q else (1, 2, 3, 5, 8), range(3), (1.0, 2.5)))[::3 if q else 1], procs=8)
    ctx.run("arch", [(*a, *b) for a, b in prod(((2.0, 3.0), (2.0, 1.25), (1.0, 4.0)), prod((0.25, 2.0), (1, 2, 4), (3, 5, 9) if q else (3, 5, 7, 9, 15), range(3), (1.0, 2.5)))], procs=8)
    ctx.run("dome", [(*a, *b) for a, b in prod(((5.0, 4.0), (2.0, 1.9), (3.0, 1.0)), prod((1, 2, 4) if q else (1, 2, 3, 4, 5, 7), (3, 4, 11) if q else (3, 4, 5, 6, 7, 11, 16), range(3), (1.0,) if q else (1.0, 2.5)))], procs=8)
    ctx.run("tower", [(*a, *b) for a, b in prod(((5.0, 4.0, 8.0), (2.0, 1.9, 0.5), (3.0, 1.0, 2.0)), prod((1, 2, 5) if q else (1, 2, 3, 4, 5, 6), (3, 4, 11) if q else (3, 4, 5, 6, 7, 11, 16), (True, False), (0.99, 0.8), range(1, 3) if q else range(3), (1.0,)))], procs=8)
    ctx.run("colosseum", [(*a, *b) for a, b in prod(((5.0, 4.0, 7.0), (4.0, 3.0, 15.0)), prod((1, 2) if q else (1, 2, 3), (6, 12) if q else (6, 7, 9, 12), (0.99, 0.9), (1,) if q else range(3), (1.0,))) if 0.9 * a[2] / b[0] > 1.1 * np.tan(np.pi / b[1]) * a[1]], procs=8)
    ctx.run("pantheon", [(*a, *b) for a, b in prod(((5.0, 4.0, 8.0), (2.0, 1.5, 2.5)), prod((1, 2, 4), (3, 4, 11), range(3), (1.0, 2.5)))], procs=8)
    ctx.run("stack", list(prod((0.5, 2.0), (0.25, 1.0), (0.5, 1.0), (1, 2, 3, 5, 9), (1.0, 2.5))), procs=8)
    T = [(I, K, w, h, w, s, 1.5) for I, K, w, h, s in prod((3, 4) if q else (3, 4, 5, 6), (4, 7) if q else (4, 7, 10), (0.7, 1.0), (3.0, 4.0), (1, 2))]
    T += [(3, 7, 0.7, 3.0, 1.0, 1, 1.5), (3, 10, 0.6, 3.0, 1.1, 1, 1.5)]
    T += [(2, 4, 1.0, 3.0, 1.0, 1, 1.5), (3, 4, 1.0, 4.0, 0.5, 1, 1.5), (4, 7, 1.0, 4.0, 0.5, 1, 1.5), (3, 4, 1.0, 3.0, 1.3, 1, 1.5)]
    ctx.run("temple", T, procs=8)
    ctx.run("invalid", INVALID, procs=4)
    one = list(prod(sorted(BUILD), (0, 1)))
    ctx.run("several", [list(s) for s in prod(one, repeat=2)] + ([] if q else [list(s) for s in prod(one, repeat=3)][::3]), procs=8)
    L = list(prod((1, 2, 3), (1, 2, 3), (1, 2), (1, 2, 3), ((4.0, 2.0, 3.0), (1.0, 1.0, 1.0)), range(3), (None, 5, 40), (None, 1, 2), (1.0, 2.5)))
    ctx.run("lattice", L[::7] if q else L, procs=8)
    C = list(prod(("sandbox", "funnel", "glasses", "jacks", "poles"), (1.0, 4.0), (2.0, 5.0), (1, 2, 3), (1, 2), (1, 2, 3), (1.0, 2.5)))
    ctx.run("containers", C[::5] if q else C, procs=8)
    ctx.run("rocks", [((8.0, 4.0, 2.0), *n, 1.0) for n in ((1, 1, 1), (2, 3, 1))] + ([] if q else [((4.0, 4.0, 4.0), *n, 2.5) for n in itertools.product((1, 2, 3), repeat=3)]), procs=8)
    ctx.run("ground", list(prod(range(3), (1.0, 2.5))), procs=4)
    ctx.run("scene", [(n,) for n in LIGHT[::-1] + ([] if q else HEAVY)], procs=8)
