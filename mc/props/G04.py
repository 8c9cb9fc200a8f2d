"""G04 regular grids: indexing, trilinear reconstruction, gradients, signed distance sampling."""
import itertools

import numpy as np

import rainbow.geometry.grid3 as GRID
from mc.core import close, expect, fresh, observe, tick

LEVEL = "model_checking"
RULE = ("Every grid with 2..4 (2..5) nodes per axis, several boxes (negative, positive and zero-touching origins, anisotropic "
        "spacing), every node index including one beyond each end, and a lattice of points inside every cell, on cell "
        "boundaries and outside; nodal data from all multilinear monomials and from a one-hot basis; oracle: independent "
        "multilinear interpolation and exact distances to convex polyhedra; all histories of two (three) refillings of one grid.")
ASSUMPTIONS = ["gradients compared away from cell faces where they are unique (everywhere for globally multilinear fields)"]

BOXES = [((-1.0, -1.0, -1.0), (1.0, 1.0, 1.0)), ((0.0, 0.0, 0.0), (1.0, 2.0, 0.5)), ((2.0, -3.0, 0.25), (3.5, 1.0, 4.25)),
         ((-5.0, -0.1, 10.0), (-4.0, 0.3, 13.0))]


def make(box, dims):
    return GRID.Grid(np.array(box[0]), np.array(box[1]), *dims)


def indexing(case):
    box, dims = case
    g = make(box, dims)
    lo, hi = np.array(box[0]), np.array(box[1])
    I, J, K = dims
    sp = (hi - lo) / (np.array(dims) - 1)
    seen = set()
    nodes = GRID.get_nodes_array(g)
    expect(nodes.shape == (I * J * K, 3), "number of nodes")
    for k in range(-1, K + 1):
        for j in range(-1, J + 1):
            for i in range(-1, I + 1):
                tick()
                valid = 0 <= i < I and 0 <= j < J and 0 <= k < K
                expect(bool(g.is_valid_node_index(i, j, k)) == valid, f"validity of node {(i, j, k)}")
                c = lo + sp * (i, j, k)
                expect(close(g.get_node_coord(i, j, k), c), f"coordinates of node {(i, j, k)}")
                if valid:
                    idx = g.get_linear_index(i, j, k)
                    expect(0 <= idx < I * J * K and idx not in seen, f"linear index of {(i, j, k)} is not a bijection")
                    seen.add(idx)
                    expect(close(nodes[idx], c), "node table disagrees with the node coordinates")
    GRID.eval_on_grid(g, lambda p: 1000 * p[0] + 10 * p[1] + p[2])
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        c = lo + sp * (i, j, k)
        expect(close(np.ravel(g.get_node_value(i, j, k))[0], c @ (1000, 10, 1)), "sampled value stored at another node")
    # cells
    for f in itertools.product((-0.75, 0.25, 0.5, 0.9), repeat=3):
        for i, j, k in itertools.product(range(I), range(J), range(K)):
            p = lo + sp * (np.array([i, j, k]) + f)
            want = tuple(int(min(max(np.floor(a), 0), n - 2)) for a, n in zip(np.array([i, j, k]) + f, dims))
            got = tuple(int(x) for x in g.get_enclosing_cell_idx(p))
            tick()
            expect(got == want, f"cell of {p}: {got} instead of {want}")
    observe((box, dims))


def fieldvals(kind):
    if kind[0] == "mono":
        a, b, c = kind[1]
        f = lambda p: 0.5 + 3.0 * p[0] ** a * p[1] ** b * p[2] ** c
        df = lambda p: 3.0 * np.array([a * p[1] ** b * p[2] ** c, b * p[0] ** a * p[2] ** c, c * p[0] ** a * p[1] ** b])
        return f, df
    return None, None


def field(case):
    """Reconstruction of nodal data; kind 'mono' = a globally multilinear function, 'hot' = one node set to one."""
    box, dims, kind, flat = case
    g = make(box, dims)
    lo, hi = np.array(box[0]), np.array(box[1])
    sp = (hi - lo) / (np.array(dims) - 1)
    I, J, K = dims
    f, df = fieldvals(kind)
    vals = np.zeros(dims)
    for n in itertools.product(range(I), range(J), range(K)):
        vals[n] = f(lo + sp * n) if f else float(n == kind[1])
    GRID.eval_on_grid(g, (lambda p: f(p)) if f else (lambda p: vals[tuple(np.rint((p - lo) / sp).astype(int))]))
    if flat:
        g.values = np.ravel(g.values)
    for cell in itertools.product(range(I - 1), range(J - 1), range(K - 1)):
        for s in FR:
            p = lo + sp * (np.array(cell) + s)
            inside = all(0 < x < 1 for x in s)
            edge = all(x >= 0 for x, c in zip(s, cell)) and all(x <= 1 for x in s)
            if not edge:  # outside: only beyond the grid, where the closest cell is extrapolated
                if not all((x >= 0 or c == 0) and (x <= 1 or c == n - 2) for x, c, n in zip(s, cell, dims)):
                    continue
            v, gr = 0.0, np.zeros(3)
            for d in itertools.product((0, 1), repeat=3):
                w = [si if di else 1 - si for si, di in zip(s, d)]
                dw = [(1 if di else -1) / h for di, h in zip(d, sp)]
                val = vals[cell[0] + d[0], cell[1] + d[1], cell[2] + d[2]]
                v += val * w[0] * w[1] * w[2]
                gr += val * np.array([dw[0] * w[1] * w[2], w[0] * dw[1] * w[2], w[0] * w[1] * dw[2]])
            tick()
            got = np.ravel(GRID.get_value(g, p))
            if not expect(got.size == 1 and close(got[0], v, 1e-7), f"value at {p.tolist()}: {got} instead of {v}"):
                return
            if all(0 < x < 1 or x > 1.1 or x < -0.1 for x in s) or f:
                gg = GRID.get_gradient(g, p)
                if not expect(close(gg, gr, 1e-6), f"gradient at {p.tolist()}: {gg} instead of {gr}"):
                    return
                if f:
                    expect(close(gg, df(p), 1e-6), "gradient of a multilinear field")
    observe((box, dims, kind))


FR = [tuple(s) for s in itertools.product((-1.5, 0.0, 0.25, 0.8, 1.0, 2.25), repeat=3)]


def inside(case):
    box, b = case
    g = make(box, (2, 3, 4))
    lo, hi = np.array(box[0]), np.array(box[1])
    for t in itertools.product((-0.5, 0.01, 0.2, 0.5, 0.8, 0.99, 1.3), repeat=3):
        p = lo + (hi - lo) * t
        m = min((p - lo).min(), (hi - p).min())
        tick()
        if abs(m - b) > 1e-9:
            expect(bool(GRID.is_inside(g, p, b)) == (m > b), f"containment of {p} with boundary {b}")
    for p, want in ((lo, b == 0), (hi, b == 0), ((lo + hi) / 2, ((hi - lo) / 2).min() > b)):
        if abs(((hi - lo) / 2).min() - b) > 1e-9:
            expect(bool(GRID.is_inside(g, p, b)) == want, f"containment of {p} with boundary {b}")
    observe((box, b))


def reject(case):
    kind = case
    z, o = np.zeros(3), np.ones(3)
    tick()
    bad = dict(swap=lambda: GRID.Grid(o, z, 2, 2, 2), I=lambda: GRID.Grid(z, o, 1, 2, 2), J=lambda: GRID.Grid(z, o, 2, 1, 2),
               K=lambda: GRID.Grid(z, o, 2, 2, 1), y=lambda: GRID.Grid(np.array([0., 2, 0]), o, 2, 2, 2),
               b=lambda: GRID.is_inside(GRID.Grid(z, o, 2, 2, 2), z, -0.1))[kind]
    try:
        bad()
        ok = False
    except ValueError:
        ok = True
    expect(ok, "ill-formed grid request accepted")
    observe(kind)


def seg(p, a, b, c):
    """Distance from p to triangle abc (independent, by Voronoi regions)."""
    n = np.cross(b - a, c - a)
    best = np.inf
    q = p - n * (n @ (p - a)) / (n @ n)
    l = np.linalg.solve(np.column_stack([b - a, c - a, n]), q - a)
    if l[0] >= 0 and l[1] >= 0 and l[0] + l[1] <= 1:
        best = np.linalg.norm(p - q)
    for u, v in ((a, b), (b, c), (c, a)):
        t = np.clip((p - u) @ (v - u) / ((v - u) @ (v - u)), 0, 1)
        best = min(best, np.linalg.norm(p - u - t * (v - u)))
    return best


MESH = dict(
    box=(list(itertools.product((0, 1), repeat=3)),
         [(0, 1, 3), (0, 3, 2), (4, 6, 7), (4, 7, 5), (0, 4, 5), (0, 5, 1), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4), (1, 5, 7), (1, 7, 3)]),
    tet=([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]),
    octa=([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)],
          [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]))


def sdf(case):
    kind, scale, off, dims, bd = case
    V, F = MESH[kind]
    V = np.array(V, float) * np.array(scale) + np.array(off)
    F = np.array(F, dtype=np.int64)
    g = GRID.create_signed_distance(V.copy(), F.copy(), *dims, boundary=bd)
    expect(close(g.min_coord, V.min(axis=0) - bd) and close(g.max_coord, V.max(axis=0) + bd), "grid box is not the enlarged mesh box")
    expect((g.I, g.J, g.K) == tuple(dims), "grid resolution")
    for i, j, k in itertools.product(*map(range, dims)):
        p = g.get_node_coord(i, j, k)
        d = min(seg(p, *V[f]) for f in F)
        ins = all(np.cross(V[f[1]] - V[f[0]], V[f[2]] - V[f[0]]) @ (p - V[f[0]]) <= 1e-12 for f in F)
        tick()
        want = -d if ins else d
        got = float(np.ravel(g.get_node_value(i, j, k))[0])
        expect(close(got, want, 1e-6), f"signed distance at {p.tolist()}: {got} instead of {want}")
        expect(close(float(np.ravel(GRID.get_value(g, p))[0]), want, 1e-6), "reconstruction at a node differs from the nodal distance")
        observe(round(want, 4))


def refill(case):
    """Histories of one grid: whatever was asked before, answers are those of its present values."""
    box, dims, how, fills = case
    g = make(box, dims)
    lo, hi = np.array(box[0]), np.array(box[1])
    pts = [lo + (hi - lo) * f for f in ((0.0, 0.0, 0.0), (0.3, 0.7, 0.45), (0.9, 0.1, 0.6), (1.0, 1.0, 1.0))]
    N = np.array(GRID.get_nodes_array(make(box, dims)))
    for c in fills:
        want = N @ np.array(c) + 1.0
        if how == "eval":
            GRID.eval_on_grid(g, lambda p: p @ np.array(c) + 1.0)
        elif how == "assign" or g.values is None:
            g.values = want.copy()
        else:
            g.values[:] = want.reshape(np.shape(g.values))
        tick()
        for p in pts:
            expect(close(np.ravel(GRID.get_value(g, p))[0], p @ np.array(c) + 1.0), f"value at {p} after refilling with {c}", "stale")
            expect(close(np.ravel(GRID.get_gradient(g, p)), c), f"gradient at {p} after refilling with {c}", "stale")
        for i, j, k in itertools.product(*map(range, dims)):
            expect(close(np.ravel(g.get_node_value(i, j, k))[0], want[g.get_linear_index(i, j, k)]), "node value after refilling", "stale")
    observe((how, len(fills), dims))


def freshness(case):
    box, dims = case
    g = make(box, dims)
    GRID.eval_on_grid(g, lambda p: p @ np.array((1.0, 2.0, 3.0)))
    mid = (np.array(box[0]) + np.array(box[1])) / 2
    fresh(lambda: GRID.get_nodes_array(g), "get_nodes_array")
    fresh(lambda: g.get_node_coord(1, 0, 1), "get_node_coord")
    fresh(lambda: GRID.get_gradient(g, mid), "get_gradient")
    lo, hi = np.array(box[0]), np.array(box[1])
    a, b = GRID.Grid(lo, hi, *dims), GRID.Grid(lo, hi, *dims)
    GRID.eval_on_grid(a, lambda p: p @ np.array((1.0, 2.0, 3.0)))
    GRID.eval_on_grid(b, lambda p: p @ np.array((-1.0, 1.0, 0.5)))
    p = lo + (hi - lo) * 0.375
    expect(close(np.ravel(GRID.get_value(a, p))[0], p @ (1.0, 2.0, 3.0)) and close(np.ravel(GRID.get_value(b, p))[0], p @ (-1.0, 1.0, 0.5)), "two grids share their values", "shared")
    expect(close(lo, box[0], 0) and close(hi, box[1], 0), "the corners of the box were modified", "shared")
    V, F = (np.array(x, t) for x, t in zip(MESH["tet"] if "tet" in MESH else list(MESH.values())[0], (float, np.int64)))
    D = [GRID.create_signed_distance(V.copy(), F.copy(), 3, 3, 3, boundary=0.1) for _ in range(2)]
    keep = np.array(D[1].values)
    D[0].values = D[0].values + 1.0
    D[0].values[:] = 0
    expect(np.array_equal(keep, D[1].values), "two signed distance fields share their values", "shared")
    expect(np.array_equal(keep, GRID.create_signed_distance(V.copy(), F.copy(), 3, 3, 3, boundary=0.1).values), "a signed distance field returns what an earlier caller did to it", "shared")


FAMILIES = dict(refill=refill, freshness=freshness, indexing=indexing, field=field, inside=inside, reject=reject, sdf=sdf)


def explore(ctx):
    n = (2, 3, 4) if ctx.quick else (2, 3, 4, 5)
    dims = list(itertools.product(n, repeat=3))
    ctx.run("indexing", itertools.product(BOXES, dims), procs=8)
    mono = [("mono", m) for m in itertools.product((0, 1), repeat=3)]
    fd = [d for d in dims if d in ((2, 2, 2), (3, 2, 4), (2, 4, 3), (4, 3, 2), (3, 3, 3))] if ctx.quick else dims
    ctx.run("field", [(b, d, m, fl) for b in BOXES for d in fd for m in mono for fl in (False, True)][:: 1], procs=8)
    hot = [(b, d, ("hot", h), True) for b in (BOXES[2:3] if ctx.quick else BOXES) for d in ((2, 2, 2), (3, 2, 4), (2, 3, 2))
           for h in itertools.product(*map(range, d))]
    ctx.run("field", hot, procs=8)
    ctx.run("freshness", list(itertools.product(BOXES, fd)))
    C = [(1.0, 2.0, 3.0), (0.0, -1.0, 0.5), (0.0, 0.0, 0.0)]
    ctx.run("refill", [(b, d, h, s) for b in BOXES for d in fd for h in ("eval", "assign", "inplace") for n in (2, 3) for s in itertools.product(C, repeat=n)], procs=8)
    ctx.run("inside", [(b, w) for b in BOXES for w in (0.0, 0.05, 0.1, 0.5, 1.0)])
    ctx.run("reject", ["swap", "I", "J", "K", "y", "b"])
    ctx.run("sdf", [(m, s, o, d, b) for m in MESH for s in ((1, 1, 1), (0.1, 2, 0.5)) for o in ((0, 0, 0), (-3, 0.5, 10))
                    for d in ((2, 2, 2), (3, 5, 4), (6, 6, 6)) for b in (0.0, 0.1, 0.5, 2.0)], procs=8)
