"""G02 tetrahedral meshes: construction, adjacency, boundary, subdivision, circulators."""
import itertools

import numpy as np

import rainbow.geometry.grid3 as GRID
import rainbow.geometry.volume_mesh as VM
from mc import geo
from mc.core import close, expect, fresh, observe, tick

LEVEL = "exploration"
RULE = ("Every function called twice with its first result overwritten and on refilled grids and arrays. "
        "All beams with 2..4 (5) nodes per axis and a lattice of sizes; EVERY non-empty sub-complex of the five tetrahedra of a cell (both fill patterns), every sub-complex of up to 4 of the 10 "
        "tetrahedra of two neighbouring cells, each under even node permutations, vertex relabelings and element orders; adjacency/boundary/incidence compared with a dictionary of faces.")
ASSUMPTIONS = ["elements are positively oriented, as the mesh constructors produce them"]
EVEN = [p for p in itertools.permutations(range(4)) if sum(p[a] > p[b] for a in range(4) for b in range(a + 1, 4)) % 2 == 0]
OUT = {0: (1, 2, 3), 1: (0, 3, 2), 2: (0, 1, 3), 3: (0, 2, 1)}  # outward faces of a positive tetrahedron, opposite of the key


def vol(V, t):
    a, b, c, d = (V[i] for i in t)
    return float(np.dot(np.cross(b - a, c - a), d - a)) / 6


def cyc(t):
    t = [int(x) for x in t]
    k = t.index(min(t))
    return tuple(t[k:] + t[:k])


def faces(T):
    d = {}
    for e, t in enumerate(T):
        for v in range(4):
            d.setdefault(frozenset(int(t[i]) for i in range(4) if i != v), []).append((e, v))
    return d


def topology(V, T):
    """check neighbours, boundary and incidence of a mesh against a dictionary of faces"""
    T = np.array(T)
    keep = T.copy()
    F = faces(T)
    N = VM.compute_neighbors(T)
    S, O = VM.compute_surface(T, N)
    tick(len(T))
    expect(np.array_equal(T, keep), "the elements were modified")
    expect(np.shape(N) == T.shape, "shape of the neighbour table")
    nb = 0
    for f, own in F.items():
        for e, v in own:
            others = [x for x, _ in own if x != e]
            want = others[0] if others else -1
            expect(N[e, v] == want, f"neighbour of element {e} across the face opposite node {v} is {N[e, v]}, expected {want}")
            nb += not others
    expect(len(S) == nb and len(O) == nb, f"{len(S)} boundary triangles, expected {nb}")
    want = sorted((cyc([T[e][i] for i in OUT[v]]), e, v) for f, own in F.items() if len(own) == 1 for e, v in own)
    got = sorted((cyc(s), int(o[0]), int(o[1])) for s, o in zip(S, O))
    expect(got == want, f"boundary {got[:3]} ..., expected {want[:3]} ...")
    C = VM.VertexTetrahedronCirculator(V, T)
    for i in range(len(V)):
        want = sorted(e for e, t in enumerate(T) if i in t)
        expect(sorted(int(x) for x in C.tetrahedra(i)) == want, f"elements around node {i} are {list(C.tetrahedra(i))}, expected {want}")
    v = VM.compute_volumes(V, T)
    expect(close(v, [vol(V, t) for t in T]), "signed volumes")
    return F, N, S, O


def subcomplex(case):
    origin, picks, perm, relabel, rev = case
    I, J, K = origin
    V, T = VM.create_beam(I, J, K, float(I - 1), float(J - 1), float(K - 1))
    T = np.array([[t[p] for p in EVEN[perm]] for t in T])[list(picks)]
    if rev:
        T = T[::-1].copy()
    if relabel:
        n = len(V)
        new = [(i * 5 + 3) % n for i in range(n)] if np.gcd(5, n) == 1 else list(range(n))[::-1]
        W = np.zeros_like(V)
        W[new] = V
        V, T = W, np.array(new)[T]
    F, N, S, O = topology(V, T)
    observe((tuple(sorted(len(o) for o in F.values())), len(S), picks, perm, relabel, rev))


def conforming(name, V, T, total, lo, hi):
    v = np.array([vol(V, t) for t in T])
    expect(v.min() > 1e-9 * total, f"{name}: element {int(v.argmin())} has volume {v.min()}")
    expect(close(v.sum(), total), f"{name}: volumes add up to {v.sum()}, expected {total}")
    for f, own in faces(T).items():
        expect(len(own) <= 2, f"{name}: face {sorted(f)} belongs to {len(own)} elements")
        if len(own) == 1:
            P = V[list(f)]
            expect(any(np.all(np.abs(P[:, a] - x) < 1e-9) for a in range(3) for x in (lo[a], hi[a])), f"{name}: face {sorted(f)} is open inside of the box")
    return v


def beam(case):
    I, J, K, size = case
    w, h, d = size
    V, T = VM.create_beam(I, J, K, w, h, d)
    V, T = np.asarray(V), np.asarray(T)
    expect(len(V) == I * J * K and len(T) == 5 * (I - 1) * (J - 1) * (K - 1), "number of nodes and elements")
    expect(set(T.ravel().tolist()) == set(range(len(V))), "an unused node")
    lo, hi = np.array([-w, -h, -d]) / 2, np.array([w, h, d]) / 2
    expect(close(V.min(0), lo) and close(V.max(0), hi), "extents of the beam")
    want = sorted((-w / 2 + w * i / (I - 1), -h / 2 + h * j / (J - 1), -d / 2 + d * k / (K - 1)) for i in range(I) for j in range(J) for k in range(K))
    expect(close(sorted(map(tuple, np.round(V, 10))), np.round(want, 10), 1e-8), "nodes are not the regular lattice")
    conforming("beam", V, T, w * h * d, lo, hi)
    F, N, S, O = topology(V, T)
    expect(geo.closed_manifold(S) is None, f"surface is not closed: {geo.closed_manifold(S)}")
    expect(close(geo.signed_volume(V, np.array(S)), w * h * d), "surface does not enclose the volume of the beam")
    observe((case, len(S)))


def subdivide(case):
    I, J, K, size, picks, levels = case
    V, T = VM.create_beam(I, J, K, *size)
    if picks is not None:
        T = T[list(picks)]
    V, T = np.asarray(V, float), np.asarray(T)
    for _ in range(levels):
        V0, T0 = V.copy(), T.copy()
        v0 = [vol(V, t) for t in T]
        V1, T1 = VM.create_loop_subdivision(V, T)
        tick(len(T1))
        expect(np.array_equal(V, V0) and np.array_equal(T, T0), "subdivision modified its input")
        expect(len(T1) == 8 * len(T0), "subdivision does not give eight elements per element")
        edges = {frozenset((int(t[a]), int(t[b]))) for t in T0 for a in range(4) for b in range(a)}
        expect(len(V1) == len(V0) + len(edges), f"{len(V1) - len(V0)} new nodes for {len(edges)} edges")
        mids = {tuple(np.round((V0[a] + V0[b]) / 2, 9) + 0.0) for a, b in map(tuple, edges)}
        expect(close(V1[:len(V0)], V0) and {tuple(np.round(x, 9) + 0.0) for x in V1[len(V0):]} == mids, "new nodes are not the edge midpoints")
        v1 = np.array([vol(V1, t) for t in T1])
        expect(v1.min() > 0, "subdivision gives a non-positive element")
        # every child lies in exactly one parent; eight per parent, each of an eighth of the volume
        cent = V1[T1].mean(1)
        count = np.zeros(len(T0), int)
        for c, v in zip(cent, v1):
            inside = [e for e, t in enumerate(T0) if min(vol(np.vstack([V0, c]), [len(V0) if n == k else t[n] for n in range(4)]) for k in range(4)) > 0]
            expect(len(inside) == 1, "a child element is not inside exactly one parent")
            for e in inside:
                count[e] += 1
                expect(close(v, v0[e] / 8), f"a child has volume {v}, its parent {v0[e]}")
        expect(np.all(count == 8), f"children per parent: {count}")
        F0, F1 = faces(T0), faces(T1)
        expect(all(len(o) <= 2 for o in F1.values()), "a face belongs to three elements")
        expect(sum(len(o) == 1 for o in F1.values()) == 4 * sum(len(o) == 1 for o in F0.values()), "subdivision opens or closes faces")
        V, T = V1, np.asarray(T1)
    topology(V, T)
    observe((case, len(V), len(T)))


def grid(case):
    I, J, K, lo, hi = case
    G = GRID.create(np.array(lo), np.array(hi), I, J, K) if hasattr(GRID, "create") else GRID.Grid(np.array(lo), np.array(hi), I, J, K)
    G.values = np.arange(I * J * K, dtype=float) ** 2
    V, T, A = VM.from_grid3d(G)
    tick()
    conforming("grid", np.asarray(V), np.asarray(T), float(np.prod(np.array(hi) - np.array(lo))), lo, hi)
    expect(close(A, G.values) and not np.shares_memory(A, G.values), "attributes are not a copy of the grid values")
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        n = G.get_linear_index(i, j, k)
        x = np.array(lo) + (np.array(hi) - np.array(lo)) * np.array([i / (I - 1), j / (J - 1), k / (K - 1)])
        expect(close(V[n], x), f"mesh node {n} is not grid node {(i, j, k)}")
    observe(case)


def render(case):
    I, J, K, size, scale = case
    V, T = VM.create_beam(I, J, K, *size)
    F = VM.to_triangles(T)
    tick(len(T))
    expect(len(F) == 4 * len(T), "four triangles per element")
    for e, t in enumerate(T):
        S = np.array(F[4 * e:4 * e + 4])
        expect(geo.closed_manifold(S) is None and close(geo.signed_volume(V, S), vol(V, t)), f"faces of element {e}")
    W, F = VM.to_tetrahedrons(V, T, scale)
    expect(len(W) == 4 * len(T) and len(F) == 4 * len(T), "size of the exploded mesh")
    for e, t in enumerate(T):
        S = np.array(F[4 * e:4 * e + 4])
        c = V[t].mean(0)
        expect(set(S.ravel().tolist()) == set(range(4 * e, 4 * e + 4)), "exploded elements share nodes")
        expect(close(sorted(map(tuple, np.round(W[4 * e:4 * e + 4], 9))), sorted(map(tuple, np.round(c + scale * (V[t] - c), 9))), 1e-8), "exploded element is not the scaled element")
        expect(geo.closed_manifold(S) is None and close(geo.signed_volume(W, S), vol(V, t) * scale ** 3), "exploded element is not outward oriented")
    observe(case)


def freshness(case):
    I, J, K = case
    V, T = VM.create_beam(I, J, K, 1.0, 2.0, 3.0)
    V, T = np.array(V), np.array(T)
    N = np.array(VM.compute_neighbors(T.copy()))
    fresh(lambda: VM.create_beam(I, J, K, 1.0, 2.0, 3.0), "create_beam")
    fresh(lambda: VM.to_triangles(T.copy()), "to_triangles")
    fresh(lambda: VM.to_tetrahedrons(V.copy(), T.copy(), 0.9), "to_tetrahedrons")
    fresh(lambda: VM.compute_neighbors(T.copy()), "compute_neighbors")
    fresh(lambda: VM.compute_surface(T.copy(), N.copy()), "compute_surface")
    fresh(lambda: VM.compute_volumes(V.copy(), T.copy()), "compute_volumes")
    fresh(lambda: VM.create_loop_subdivision(V.copy(), T.copy()), "create_loop_subdivision")

    def grid():
        G = GRID.Grid(np.zeros(3), np.ones(3), I, J, K)
        G.values = np.arange(I * J * K, dtype=float)
        return VM.from_grid3d(G)
    fresh(grid, "from_grid3d")
    # the same grid, filled again
    G = GRID.Grid(np.zeros(3), np.ones(3), I, J, K)
    for c in (1.0, -2.0):
        G.values = np.arange(I * J * K, dtype=float) * c
        expect(close(VM.from_grid3d(G)[2], G.values), "attributes are those of an earlier filling of the grid", "stale")
    # the same arrays, filled with another mesh
    for W in (V, V * (1.0, 2.0, 0.5), V + 1.0):
        buf = V.copy() if W is V else buf
        buf[:] = W
        expect(close(VM.compute_volumes(buf, T), [vol(W, t) for t in T]), "volumes of an earlier content of the array", "stale")


FAMILIES = dict(freshness=freshness, subcomplex=subcomplex, beam=beam, subdivide=subdivide, grid=grid, render=render)


def explore(ctx):
    q = ctx.quick
    subs = [c for k in range(1, 6) for c in itertools.combinations(range(5), k)]
    ctx.run("freshness", itertools.product((2, 3), repeat=3))
    ctx.run("subcomplex", [((2, 2, 2), s, p, r, v) for s in subs for p in range(12) for r in (0, 1) for v in (0, 1)], procs=8)
    pairs = [c for k in range(1, 5 if q else 11) for c in itertools.combinations(range(10), k)]
    ctx.run("subcomplex", [(o, s, p, 1, 0) for o in ((3, 2, 2), (2, 3, 2), (2, 2, 3)) for s in pairs for p in ((0, 5) if q else range(0, 12, 3))], procs=8)
    N = range(2, 5 if q else 7)
    sizes = [(1.0, 1.0, 1.0), (2.0, 0.5, 3.0)]
    ctx.run("beam", [(i, j, k, s) for i in N for j in N for k in N for s in sizes], procs=8)
    ctx.run("subdivide", [(2, 2, 2, sizes[1], s, 1) for s in subs] + [(3, 2, 2, sizes[0], s, 1) for s in pairs if len(s) < 4]
            + [(i, j, k, sizes[1], None, 1) for i in (2, 3) for j in (2, 3) for k in (2, 3)]
            + [(2, 2, 2, sizes[0], s, 2) for s in subs[:5 if q else None]], procs=8)
    ctx.run("grid", [(i, j, k, lo, hi) for i in (2, 3, 4) for j in (2, 3) for k in (2, 3, 4) for lo, hi in (((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), ((-3.0, 1.0, -2.0), (-1.0, 4.0, 0.5)))], procs=4)
    ctx.run("render", [(i, j, k, s, c) for i in (2, 3) for j in (2, 3) for k in (2, 4) for s in sizes for c in (0.9, 0.5, 1.0)], procs=4)
