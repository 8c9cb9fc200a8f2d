"""S02 friction projections return the nearest point of the friction set."""
import itertools
import os

os.environ["NUMBA_DISABLE_JIT"] = "1"
from types import SimpleNamespace as NS

import numpy as np

import rainbow.simulators.prox_rigid_bodies.prox_operators as RO
import rainbow.simulators.proximal_contact.proximal_operators as PO
from mc.core import close, expect, observe, tick
from mc.groups import icosa, mat

LEVEL = "model_checking"
RULE = ("All points of an icosahedral and cubic lattice of directions x radii (inside, on, outside, zero, huge, tiny) x friction coefficients "
        "x normal forces for sphere, origin and ellipsoid; nearest point by closed form, feasibility, the variational inequality against "
        "a boundary lattice, idempotence and non-expansiveness over all pairs.")
ASSUMPTIONS = ["compiled operators are executed as Python code (compilation switched off)", "the ellipsoid projection is judged at its bisection tolerance"]
DIRS = [np.array(d, float) / np.linalg.norm(d) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [mat(np.array(q))[:, 0] for q in list(icosa())[::7]]
DIRS += [np.array((0.98, 0.01, -0.19)), np.array((1e-9, 1.0, 1e-9))]


def sphere(case):
    mod, mu, xn = case
    f = {"contact": PO.prox_sphere, "rigid": RO.prox_sphere}[mod]
    r = mu * max(xn, 0.0)
    pts = []
    for d in DIRS:
        for s in (0.0, 1e-12, 0.3 * r, 0.999 * r, r, 1.001 * r, 3.0 * r, 1.0, 1e6):
            z = s * d
            x = np.array(f(z[0], z[1], z[2], mu, xn), float)
            tick()
            n = np.linalg.norm(z)
            want = z if n <= r else z * (r / n)
            expect(x.shape == (3,) and close(x, want, 1e-12), f"projection of {z} on radius {r}: {x}, expected {want}", f"sphere:{mod}")
            y = np.array(f(x[0], x[1], x[2], mu, xn), float)
            expect(close(y, x, 1e-12), f"projection is not idempotent at {z}", f"idempotent:{mod}")
            pts.append((z, x))
    for (z0, x0), (z1, x1) in itertools.combinations(pts[::5], 2):
        expect(np.linalg.norm(x0 - x1) <= np.linalg.norm(z0 - z1) * (1 + 1e-9) + 1e-12, f"expansive at {z0}, {z1}", f"expansive:{mod}")
    observe((mod, mu, xn))


def origin(case):
    mu, xn, i = case
    z = 2.0 * DIRS[i]
    tick()
    expect(np.array_equal(np.array(PO.prox_origin(z[0], z[1], z[2], mu, xn), float), np.zeros(3)), f"prox_origin({z})", "origin")


PARAMS = NS(params=NS(ellipsoid_max_iterations=500, ellipsoid_tolerance=1e-12, ellipsoid_expansion=1.5))


def ellipsoid(case):
    mus, xn = case
    R = np.array(mus) * max(xn, 0.0)
    bd = np.array([R * d for d in DIRS])
    for d in DIRS:
        for s in (0.0, 0.3, 0.99, 1.01, 2.0, 10.0, 1e4):
            z = s * R.max() * d if R.max() > 0 else s * d
            x = np.array(PO.prox_ellipsoid(PARAMS, z[0], z[1], z[2], *mus, xn), float)
            tick()
            if not R.any():
                expect(np.array_equal(x, np.zeros(3)), f"without friction {z} -> {x}", "ellipsoid:zero")
                continue
            tol = 1e-6 * max(1.0, R.max(), np.linalg.norm(z))
            f0 = np.sum((z / R) ** 2)
            f1 = np.sum((x / R) ** 2)
            expect(f1 <= 1 + 1e-6, f"projection {x} of {z} outside the ellipsoid {R} ({f1})", "ellipsoid:feasible")
            if f0 <= 1 - 1e-9:
                expect(close(x, z, 1e-9), f"inner point {z} moved to {x}", "ellipsoid:inner")
            elif f0 > 1 + 1e-6:
                expect(abs(f1 - 1) < 1e-5, f"projection {x} of the outer point {z} inside the ellipsoid {R}", "ellipsoid:boundary")
            # z - x is in the normal cone: no other point of the ellipsoid is in that direction
            expect(((z - x) @ (bd - x).T).max() <= tol * max(1.0, np.linalg.norm(z - x)), f"{x} is not the nearest point to {z} of the ellipsoid {R}", "ellipsoid:nearest")
    observe((mus, xn))


FAMILIES = dict(sphere=sphere, origin=origin, ellipsoid=ellipsoid)


def explore(ctx):
    q = ctx.quick
    xs = (-1.0, 0.0, 1e-9, 0.1, 1.0, 50.0, 1e5)
    ctx.run("sphere", [(m, mu, x) for m in ("contact", "rigid") for mu in (0.0, 1e-3, 0.2, 0.5, 1.0, 3.0) for x in xs], procs=8)
    ctx.run("origin", [(mu, x, i) for mu in (0.0, 0.5) for x in xs for i in range(len(DIRS))])
    ms = [(a, b, c) for a in (0.1, 0.5, 1.0) for b in (0.1, 0.5, 1.0) for c in (0.1, 0.5, 1.0)] + [(0.0, 0.0, 0.0)]
    if not q:
        ms += list(itertools.product((0.05, 0.3, 0.8, 2.0), repeat=3))
    ctx.run("ellipsoid", [(m, x) for m in ms for x in (-1.0, 0.0, 0.1, 1.0, 50.0)], procs=8)
