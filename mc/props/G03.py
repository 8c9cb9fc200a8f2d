"""G03 barycentric coordinates and tetrahedra."""
import itertools

import numpy as np

import rainbow.geometry.barycentric as B
import rainbow.geometry.tetrahedron as T
from mc import groups as G
from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("Every edge/triangle/tetrahedron with corners on the integer lattice (up to the bound), moved by rotations of the "
        "icosahedral group and translations, times every barycentric lattice point (inside, on the boundary, outside) and "
        "off-plane offsets; oracle: the exact coordinates the point was built from.")
ASSUMPTIONS = ["non-degenerate simplices; the boundary itself is judged only where the coordinates are exactly representable"]


def place(pts, q, off, scale):
    R = G.mat(q)
    return [scale * (R @ np.array(p, float)) + np.array(off) for p in pts]


def lattice(n, step, lo, hi):
    r = [lo + step * k for k in range(int(round((hi - lo) / step)) + 1)]
    for w in itertools.product(r, repeat=n - 1):
        last = 1.0 - sum(w)
        if lo - 1e-9 <= last <= hi + 1e-9:
            yield tuple(w) + (last,)


def simplex(case):
    pts, q, off, scale, step = case
    n = len(pts)
    X = place(pts, q, off, scale)
    copies = [x.copy() for x in X]
    fn = {2: B.compute_barycentric_edge, 3: B.compute_barycentric_triangle, 4: B.compute_barycentric_tetrahedron}[n]
    ins = {2: B.is_inside_edge, 3: B.is_inside_triangle, 4: B.is_inside_tetrahedron}[n]
    perp = [np.zeros(3)]
    if n == 2:
        u = X[1] - X[0]
        a = np.cross(u, [1, 0, 0]) if abs(u[0]) <= abs(u).max() * 0.9 else np.cross(u, [0, 1, 0])
        perp += [a, -0.5 * a + np.cross(u, a) / np.linalg.norm(u)]
    if n == 3:
        nn = np.cross(X[1] - X[0], X[2] - X[0])
        perp += [nn, -2 * nn]
    for w in lattice(n, step, -0.5, 1.5):
        p0 = sum(wi * x for wi, x in zip(w, X))
        for o in perp:
            p = p0 + o
            got = np.array(fn(*X, p))
            tick()
            if not expect(got.shape == (n,) and close(got, w, 1e-7), f"coordinates {got} of the point built with {w}"):
                return
            expect(abs(got.sum() - 1) < 1e-7, "coordinates do not sum to one")
            if min(w) > 1e-6:
                expect(bool(ins(*got)), f"interior point {w} (computed {got.tolist()}) classified as outside")
            elif min(w) < -1e-6:
                expect(not ins(*got), f"exterior point {w} classified as inside")
    expect(all(np.array_equal(a, b) for a, b in zip(X, copies)), "corner modified")
    observe((pts, q, scale))


def classify(case):
    w = case
    ins = {2: B.is_inside_edge, 3: B.is_inside_triangle, 4: B.is_inside_tetrahedron}[len(w)]
    tick()
    expect(bool(ins(*w)) == (min(w) >= 0), f"coordinates {w} classified as {'inside' if ins(*w) else 'outside'}")
    observe(w)


def tetra(case):
    pts, q, off, scale = case
    X = place(pts, q, off, scale)
    A, Bv, C = X[1] - X[0], X[2] - X[0], X[3] - X[0]
    vol = float(np.linalg.det(np.array([A, Bv, C]))) / 6
    L = max(np.linalg.norm(a - b) for a in X for b in X)
    tick(4)
    got = T.compute_signed_volume(*X)
    expect(abs(got - vol) <= 1e-9 * L ** 3, f"signed volume {got} instead of {vol}")
    expect(bool(T.is_left_orientation(*X)) == (vol < 0), "orientation")
    c, r = T.compute_circumscribed_sphere(*X)
    for x in X:
        expect(abs(np.linalg.norm(c - x) - r) <= 1e-6 * L * max(1, r / L), "circumscribed sphere misses a corner")
    c, r = T.compute_inscribed_sphere(*X)
    area = 0.0
    for f in itertools.combinations(range(4), 3):
        a, b, d = (X[k] for k in f)
        nn = np.cross(b - a, d - a)
        area += np.linalg.norm(nn) / 2
        dist = abs(np.dot(nn / np.linalg.norm(nn), c - a))
        expect(abs(dist - abs(r)) <= 1e-7 * L, f"inscribed sphere of radius {r} is {dist} from a face plane")
    expect(abs(abs(r) - 3 * abs(vol) / area) <= 1e-7 * L, "inscribed radius")
    if vol > 0:
        expect(r > 0, "inscribed radius of a right-oriented tetrahedron is not positive")
        gr = B.compute_barycentric_derivatives_tetrahedron(*X)
        J = np.linalg.inv(np.column_stack([A, Bv, C]))
        ref = [-(J[0] + J[1] + J[2]), J[0], J[1], J[2]]
        for i in range(4):
            expect(close(np.array(gr[i]) * L, ref[i] * L, 1e-7), f"gradient of coordinate {i + 1}")
    observe((vol, r))


def samples(case):
    N = case
    S = T.generate_sample_points(N)
    tick()
    want = sorted(tuple(x / (N - 1) for x in w) for w in itertools.product(range(N), repeat=4) if sum(w) == N - 1)
    expect(len(S) == len(want) and close(sorted(map(tuple, S.tolist())), want), "sample points are not the whole lattice, each once")
    I = T.generate_interior_sample_points(N)
    wi = [w for w in want if min(w) > 0]
    expect(len(I) == len(wi) and (not wi or close(sorted(map(tuple, I.tolist())), wi)),
           f"interior sample points for N={N}: {len(I)} instead of {len(wi)} strictly interior lattice points")
    observe(N)


def guard(case):
    tick()
    try:
        T.generate_sample_points(case)
        ok = False
    except ValueError:
        ok = True
    expect(ok, "fewer than two layers accepted")
    observe(case)


FAMILIES = dict(simplex=simplex, classify=classify, tetra=tetra, samples=samples, guard=guard)


def explore(ctx):
    lat = list(itertools.product((0, 1, 2), repeat=3))
    edges = [((0, 0, 0), b) for b in itertools.product((-2, -1, 0, 1, 3), repeat=3) if any(b)]
    tris = [((0, 0, 0), b, c) for b in lat for c in itertools.product((-1, 0, 1), repeat=3)
            if np.linalg.norm(np.cross(b, c)) > 0]
    tets = [((0, 0, 0), b, c, d) for b, c, d in itertools.product(
        [p for p in itertools.product((-1, 0, 1), repeat=3) if any(p)], repeat=3)
        if abs(np.linalg.det(np.array([b, c, d], float))) > 0.5]
    ico = G.icosa()
    poses = [((1.0, 0, 0, 0), (0, 0, 0), 1.0), (ico[7], (0.3, -10, 2), 0.1), (ico[41], (-1, 2, 5), 30.0), (ico[88], (0, 0, 0), 1.0),
             (tuple(G.quat((1, 2, 3), 0.7)), (0.1, 0.2, 0.3), 1.0)]
    qk = ctx.quick
    ctx.run("simplex", [(e, *p, 0.125) for e in edges for p in (poses + [(q, (0.1, 0.7, -0.3), 1.0) for q in ico[::6]])], procs=8)
    ctx.run("simplex", [(e, *p, 0.1) for e in edges[::3] for p in poses], procs=8)
    ctx.run("simplex", [(t, *p, 0.25) for t in (tris[::2] if qk else tris) for p in poses], procs=8)
    ctx.run("simplex", [(t, *p, 0.1) for t in tris[:: 40 if qk else 8] for p in poses], procs=8)
    ctx.run("simplex", [(t, *p, 0.25) for t in (tets[::60] if qk else tets[::9]) for p in poses], procs=8)
    ctx.run("simplex", [(t, *p, 0.2) for t in (tets[::97] if qk else tets[::31]) for p in poses], procs=8)
    for n, step in ((2, 0.125), (3, 0.125), (4, 0.25)):
        ctx.run("classify", list(lattice(n, step, -1.0, 2.0)))
    ctx.run("tetra", [(t, *p) for t in (tets[::3] if qk else tets) for p in poses], procs=8)
    ctx.run("samples", list(range(2, 10)))
    ctx.run("guard", [-1, 0, 1])
