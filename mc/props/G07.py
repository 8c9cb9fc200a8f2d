"""G07 mean curvature of sampled fields."""
import itertools

import numpy as np

import rainbow.geometry.grid3 as GRID
import rainbow.geometry.mean_curvature as MC
from mc.core import close, expect, observe, tick

LEVEL = "exploration"
RULE = ("Every quadratic field with coefficients from a lattice on every grid shape of the bound: the finite differences are exact for quadratics, so every interior node is compared with the closed "
        "form divergence of the unit normal, and every boundary node with zero.")
ASSUMPTIONS = ["nodes where the gradient is shorter than 0.5 are not judged beyond finiteness and the clamp"]


def quadratic(case):
    shape, box, g, H = case
    I, J, K = shape
    lo, hi = (np.array(b, float) for b in box)
    G = GRID.Grid(lo, hi, I, J, K)
    A = np.array([[H[0], H[3], H[4]], [H[3], H[1], H[5]], [H[4], H[5], H[2]]], float)
    g = np.array(g, float)
    h = (hi - lo) / (np.array(shape) - 1)
    vals = np.zeros(I * J * K)
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        x = lo + h * np.array([i, j, k])
        vals[G.get_linear_index(i, j, k)] = g @ x + 0.5 * x @ A @ x + 0.3
    G.values = vals.copy()
    R = MC.create_from_sdf(G)
    expect(np.array_equal(G.values, vals), "the field was modified")
    expect((R.I, R.J, R.K) == shape and close(R.min_coord, lo) and close(R.max_coord, hi), "the curvature grid is not congruent to the field")
    kmax = 1 / h.min()
    for i, j, k in itertools.product(range(I), range(J), range(K)):
        tick()
        v = R.values[R.get_linear_index(i, j, k)]
        if 0 in (i, j, k) or i == I - 1 or j == J - 1 or k == K - 1:
            expect(v == 0.0, f"boundary node {(i, j, k)} has curvature {v}")
            continue
        d = g + A @ (lo + h * np.array([i, j, k]))
        l = np.linalg.norm(d)
        expect(np.isfinite(v) and abs(v) <= kmax + 1e-12, f"curvature {v} exceeds the resolution of the grid")
        if l > 0.5 + 1e-9:
            want = (np.trace(A) * l * l - d @ A @ d) / l ** 3
            expect(close(v, np.clip(want, -kmax, kmax), 1e-7), f"node {(i, j, k)}: curvature {v}, divergence of the normal is {want}")
    observe((case,))


FAMILIES = dict(quadratic=quadratic)


def explore(ctx):
    q = ctx.quick
    gs = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, -1, 0.5)] + ([] if q else [(1, 1, 1), (-1, 0, 3)])
    Hs = [h for h in itertools.product((-0.5, 0.0, 1.0), repeat=6)][::1 if not q else 4]
    boxes = [((-1, -1, -1), (1, 1, 1)), ((0.5, 1.0, -3.0), (2.0, 1.75, -1.0))]
    shapes = [(3, 3, 3), (4, 3, 5)] + ([] if q else [(5, 6, 4)])
    ctx.run("quadratic", [(s, b, g, h) for s in shapes for b in boxes for g in gs for h in Hs], procs=8)
