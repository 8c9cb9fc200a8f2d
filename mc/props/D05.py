"""D05 contact detection, contact Jacobian and contact response of the soft body simulator."""
import itertools

import numpy as np
from scipy.optimize import nnls

from mc import geo, soft
from mc.core import close, expect, observe, tick
from mc.groups import icosa, mat
from mc.soft import API, MODELS, SOLVER

LEVEL = "model_checking"
RULE = ("All pairs of convex tetrahedral meshes x icosahedral orientations x approach directions x depths x rigid or deformed shapes x "
        "broad phase (spatial hashing, bounding volume trees): every contact is judged against exact point-mesh distances and "
        "barycentric coordinates, presence against vertex penetration; both broad phases, creation orders, moved worlds and earlier "
        "steps must agree; contact Jacobians against velocities; drops on a fixed or clamped ground with every solver; crowds of boxes and plates of several materials in all creation orders; histories of moves, squeezes and changes of type against engines built there.")
ASSUMPTIONS = ["distance fields of 16 cells along the longest side; the gap tolerance is one cell",
               "a contact is demanded when a vertex is deeper than 0.05 inside", "worlds of two or three bodies without self contact"]
RESN = 16
ICO = list(icosa())
MESH = dict(cube=soft.beam(2, 2, 2, 1.0, 1.0, 1.0), brick=soft.beam(2, 2, 3, 1.0, 0.5, 2.0), plate=soft.beam(3, 2, 3, 3.0, 0.5, 3.0), rod=soft.beam(2, 4, 2, 0.4, 2.5, 0.4),
            tet=(np.array([[0, 0, 0], [2, 0, 0], [0, 1.5, 0], [0, 0, 2.5]], float) - 0.3, np.array([[0, 1, 2, 3]])))
_w = {}


def make(bodies, env, hashing, mats=None):
    """bodies: list of (name, mesh)."""
    e = soft.engine(RESN, envelope=env, use_spatial_hashing=hashing)
    API.create_material(e, "m")
    API.set_elasticity(e, "m", 10.0, 0.3)
    API.set_mass_density(e, "m", 1.0)
    API.set_constitutive_model(e, "m", API.SVK)
    API.create_surfaces_interaction(e, "m", "m", 0.5)
    for n, s in bodies:
        V, T = MESH[s]
        API.create_soft_body(e, n, V, T)
        API.set_material(e, n, "m")
        API.set_gravity(e, n, (0.0, 0.0, 0.0))
    return e


def world(a, b, env, hashing):
    k = (a, b, env, hashing)
    if k not in _w:
        if len(_w) > 12:
            _w.clear()
        _w[k] = make([("A", a), ("B", b)], env, hashing)
    return _w[k]


def cell(name):
    V = MESH[name][0]
    return 1.25 * np.ptp(V, axis=0).max() / (RESN - 1)


def pose(e, name, R, r, S=np.eye(3)):
    x0 = API.get_material_coordinates(e, name)
    API.set_spatial_coordinates(e, name, x0 @ S.T @ R.T + np.array(r))
    API.set_velocity(e, name, np.zeros(3))


def detect(e):
    API.simulate(e, 1e-12)
    tick()
    return e.contact_points


def judge(e, tag, sizes, slack=1.0):
    env = e.params.envelope
    X = {n: b.x for n, b in e.bodies.items()}
    F = {n: b.surface for n, b in e.bodies.items()}
    seen = set()
    for c in e.contact_points:
        A, B = c.bodyA, c.bodyB
        ok = A is not B and e.bodies.get(A.name) is A and e.bodies.get(B.name) is B
        if not expect(ok, f"{tag}: contact between {A.name} and {B.name}", "bodies"):
            continue
        expect(close(np.linalg.norm(c.n), 1.0) and np.isfinite(c.p).all() and np.isfinite(c.g), f"{tag}: normal {c.n}, point {c.p}, gap {c.g}", "finite")
        for body, om, idx in ((A, c.omegaA, c.idx_tetA), (B, c.omegaB, c.idx_tetB)):
            expect(0 <= idx < len(body.T) and abs(np.sum(om) - 1) < 1e-8, f"{tag}: weights {om} of element {idx}", "weights")
            expect(close(body.x[body.T[idx]].T @ om, c.p, 1e-7), f"{tag}: contact point {c.p} is not where the weights {om} place it", "weights")
        h = cell(sizes[A.name]) * slack
        dB = abs(float(geo.signed_distances(c.p, X[B.name], F[B.name])[0]))
        near = geo.signed_distances([c.p] + [c.p + x * u for u in np.eye(3) for x in (h, -h)], X[A.name], F[A.name])
        dA = near[0]
        expect(dB < 1e-6, f"{tag}: contact point {c.p} is {dB} off the surface of {B.name}", "surface")
        expect(abs(c.g - dA) < h, f"{tag}: gap {c.g}, distance to {A.name} is {dA}", "gap")
        expect(c.g <= env + 1e-12, f"{tag}: gap {c.g} outside the envelope {env}", "envelope")
        grad = (near[1::2] - near[2::2]) / (2 * h)
        if np.linalg.norm(grad) > 0.9:
            expect(c.n @ grad > 0.5, f"{tag}: normal {c.n}, distance to {A.name} grows along {grad}", "normal")
        key = (A.name, B.name, tuple(c.p))
        expect(key not in seen, f"{tag}: contact point {c.p} twice", "duplicate")
        seen.add(key)
    return X, F


def place(case):
    a, b, g, d, gap, env = case
    n = np.zeros(3)
    n[abs(d) - 1] = np.sign(d)
    R = mat(np.array(ICO[g]))
    W = MESH[b][0] @ R.T
    h = (MESH[a][0] @ n).max() + (-(W @ n)).max() + gap
    off = n * h + np.array([0.07, -0.05, 0.03]) * (1 - np.abs(n)) - (MESH[b][0].mean(axis=0) @ R.T - MESH[a][0].mean(axis=0)) * (1 - np.abs(n))
    return off, R


def deepest(X, F):
    return min(geo.signed_distances(X["B"], X["A"], F["A"]).min(), geo.signed_distances(X["A"], X["B"], F["B"]).min())


def pair(case):
    spec, gi, hashing = case
    a, b, g, d, gap, env = spec
    e = world(a, b, env, hashing)
    off, R = place(spec)
    G = mat(np.array(ICO[gi]))
    pose(e, "A", G, (0, 0, 0))
    pose(e, "B", G @ R, G @ off)
    cps = detect(e)
    X, F = judge(e, "pair", dict(A=a, B=b))
    if gap > env + 1e-6:
        expect(not cps or max(c.g for c in cps) <= env and gap <= env + max(cell(a), cell(b)), f"{len(cps)} contacts, bodies are {gap} apart", "apart")
    pen = deepest(X, F)
    if pen < -0.05:
        key = f"{a}:{b}:{g}:{d}:{gap}:{env}:{gi}:{hashing}"
        if expect(len(cps) > 0, f"no contact although a vertex is {-pen} deep", f"missed:{key}"):
            expect(min(c.g for c in cps) < pen + 0.5 * (cell(a) + cell(b)) + 0.03, f"deepest contact {min(c.g for c in cps)}, a vertex is {-pen} deep", f"shallow:{key}")
    observe((case, len(cps), np.sign(pen)))


STRETCH = dict(sx=np.diag([1.2, 1, 1]), sz=np.diag([1, 1, 0.8]), uni=np.eye(3) * 1.15, shear=np.array([[1, 0.15, 0], [0, 1, 0], [0, 0.1, 1.0]]))


def deformed(case):
    """Affinely deformed bodies: gap within the stretch, the normal is the normal of the deformed surface."""
    spec, sa, sb, hashing = case
    a, b, g, d, gap, env = spec
    e = world(a, b, env, hashing)
    off, R = place(spec)
    pose(e, "A", np.eye(3), (0, 0, 0), STRETCH[sa])
    pose(e, "B", R, off, STRETCH[sb])
    cps = detect(e)
    n = np.zeros(3)
    X, F = {k: v.x for k, v in e.bodies.items()}, {k: v.surface for k, v in e.bodies.items()}
    judge(e, "deformed", dict(A=a, B=b), 1.6)
    pen = deepest(X, F)
    if pen < -0.08:
        expect(len(cps) > 0, f"no contact although a vertex is {-pen} deep", f"missed:{a}:{b}:{g}:{d}:{gap}:{env}:{sa}:{sb}:{hashing}")
    observe((case, len(cps)))


def jacobian(case):
    """Rows of the contact Jacobian measure the relative velocity of the contact point."""
    spec, hashing, s = case
    a, b, g, d, gap, env = spec
    e = world(a, b, env, hashing)
    off, R = place(spec)
    pose(e, "A", np.eye(3), (0, 0, 0), STRETCH[s])
    pose(e, "B", R, off)
    cps = detect(e)
    if not cps:
        return
    J = SOLVER.compute_jacobian_matrix(e, {}, False)
    u = np.array([[np.sin(2.3 * i + j), np.cos(1.1 * i * j + i), 0.3 * i - j] for i in range(e.number_of_nodes) for j in [1]])
    w = J.dot(u.reshape(-1))
    tick()
    expect(w.shape == (4 * len(cps),), f"{w.shape} rows for {len(cps)} contacts", "shape")
    for k, c in enumerate(cps):
        A, B = c.bodyA, c.bodyB
        va = u[A.T[c.idx_tetA] + A.offset].T @ c.omegaA
        vb = u[B.T[c.idx_tetB] + B.offset].T @ c.omegaB
        rel = vb - va
        got = w[4 * k:4 * k + 4]
        expect(abs(got[0] - c.n @ rel) < 1e-9 * (1 + np.abs(rel).max()), f"normal velocity {got[0]}, expected {c.n @ rel}", "normal velocity")
        tang = rel - c.n * (c.n @ rel)
        expect(abs(np.hypot(got[1], got[2]) - np.linalg.norm(tang)) < 1e-9 * (1 + np.abs(rel).max()), f"sliding velocity {got[1:3]}, expected size {np.linalg.norm(tang)}", "sliding velocity")
        expect(abs(got[3]) < 1e-12, "torsional row of a point contact", "torsion")
    t = J.T.dot(np.ones(4 * len(cps))).reshape(-1, 3).sum(axis=0)
    expect(np.abs(t).max() < 1e-9 * len(cps), "a contact impulse changes the total momentum", "action reaction")
    observe((case, len(cps), w), 5)


def summary(e):
    return sorted((c.bodyA.name, c.bodyB.name) + tuple(np.round(np.concatenate([c.p, c.n, [c.g]]), 6) + 0.0) for c in e.contact_points)


def agree(case):
    """Both broad phases, creation orders, a bystander and earlier steps give the same deep contacts."""
    spec = case
    a, b, g, d, gap, env = spec
    off, R = place(spec)
    at = dict(A=(a, np.eye(3), np.zeros(3)), B=(b, R, off), C=("cube", mat(np.array(ICO[(g + 13) % 120])), off + (40.0, 0.3, 0.9)))
    ref = None
    for hashing in (True, False):
        for order in (("A", "B"), ("B", "A"), ("C", "B", "A"), ("history",)):
            names = order if order != ("history",) else ("A", "B")
            e = make([(n, at[n][0]) for n in names], env, hashing)
            if order == ("history",):
                for where in (np.array([50.0, 0, 0]), off * 0.9, -off):
                    pose(e, "A", np.eye(3), (0, 0, 0))
                    pose(e, "B", R, where)
                    detect(e)
                    if where[0] == 50.0:
                        expect(not e.contact_points, "contacts of bodies 50 units apart", "apart")
            for n in names:
                pose(e, n, at[n][1], at[n][2])
            detect(e)
            judge(e, "agree", {n: at[n][0] for n in names})
            got = summary(e)
            if ref is None:
                ref = got
            same = len(ref) == len(got) and all(x[:2] == y[:2] and np.abs(np.array(x[2:]) - np.array(y[2:])).max() < 1e-5 for x, y in zip(ref, got))
            expect(same, f"{len(got)} contacts when created as {order} with {'hashing' if hashing else 'trees'}, {len(ref)} otherwise", f"agree:{'hash' if hashing else 'bvh'}:{order[0]}")
    observe((case, len(ref)))


SPOTS = {k: (np.array(o, float), g) for k, (o, g) in dict(far=((9, 9, 9), 0), up=((0.1, 0.05, 0.93), 0), down=((0.0, -0.1, -0.95), 31), left=((-0.92, 0.15, 0.2), 77), mid=((0, 0, 0), 0), tilt=((0.05, 0.02, 0.0), 41)).items()}


def history(case):
    """However the bodies came to be where they are, the contacts are those of an engine that has them there from the start."""
    hashing, shapes, start, ops = case
    names = "ABC"[:len(shapes)]
    size = dict(zip(names, shapes))

    def build(spots, fixed):
        e = make(list(size.items()), 0.1, hashing)
        for n in names:
            if n in fixed:
                API.set_type(e, n, "fixed")
            pose(e, n, mat(np.array(ICO[SPOTS[spots[n]][1]])), SPOTS[spots[n]][0], STRETCH["sz"] if (n, "squash") in fixed else np.eye(3))
        return e
    spots, fixed = dict(zip(names, start)), {"A"}
    run = build(spots, fixed)
    for i, (n, k) in enumerate((("A", start[0]),) + ops):
        if k == "type":
            fixed ^= {n}
            API.set_type(run, n, "fixed" if n in fixed else "free")
        else:
            if k == "squash":
                fixed ^= {(n, "squash")}
            else:
                spots[n] = k
        for m in names:
            if m == n or m not in fixed:
                pose(run, m, mat(np.array(ICO[SPOTS[spots[m]][1]])), SPOTS[spots[m]][0], STRETCH["sz"] if (m, "squash") in fixed else np.eye(3))
        detect(run)
        e = build(spots, fixed)
        detect(e)
        a, b = summary(run), summary(e)
        same = len(a) == len(b) and all(x[:2] == y[:2] and np.abs(np.array(x[2:]) - np.array(y[2:])).max() < 1e-5 for x, y in zip(a, b))
        if not expect(same, f"{len(a)} contacts after {ops[:i]}, an engine built there has {len(b)}", f"history:{'hash' if hashing else 'bvh'}:{'fixed' if n in fixed else 'free'}"):
            break
        observe((i, len(b)))


GEM = (np.array([[0.5, 0.07, 0.03], [-0.5, 0.02, -0.04], [0.01, 0.55, 0.02], [0.05, -0.5, -0.06], [-0.03, 0.04, 0.6], [0.06, -0.02, -0.5]]),
       np.array([[4, 5, b, a] for a, b in ((0, 2), (2, 1), (1, 3), (3, 0))]))


def twin(hashing, shape, env):
    k = ("twin", hashing, shape, env)
    if k not in _w:
        V, T = MESH[shape] if shape in MESH else GEM
        MESH["twin"] = (np.concatenate([V, V + [0, 0, 4.0]]), np.concatenate([T, T + len(V)]))
        _w[k] = make([("A", "twin")], env, hashing)
    return _w[k]


def crossing(X, S, Y, U):
    """Smallest margin by which an edge of one surface crosses a triangle of the other: positive if one clearly does, negative if none."""
    best = -np.inf
    for P, F, Q, G in ((X, S, Y, U), (Y, U, X, S)):
        E = np.array([[P[f[i]], P[f[(i + 1) % 3]]] for f in F for i in range(3)])
        for g in G:
            a, b, c = Q[g]
            n = np.cross(b - a, c - a)
            n = n / np.linalg.norm(n)
            h0, h1 = (E[:, 0] - a) @ n, (E[:, 1] - a) @ n
            with np.errstate(divide="ignore", invalid="ignore"):
                t = h0 / (h0 - h1)
                H = E[:, 0] + t[:, None] * (E[:, 1] - E[:, 0])
                m = np.where(h0 * h1 < 0, 1.0, -1.0) * np.minimum(abs(h0), abs(h1))
                for p, q in ((a, b), (b, c), (c, a)):
                    m = np.minimum(m, (H - p) @ np.cross(n, q - p) / np.linalg.norm(q - p))
            best = max(best, np.nanmax(m))
    return best


def selfcontact(case):
    """A body of two parts: contacts with itself exactly when its parts run into each other."""
    shape, g, d, gap, gi, hashing = case
    e = twin(hashing, shape, 0.01)
    b = e.bodies["A"]
    k = len(b.x0) // 2
    n = np.zeros(3)
    n[abs(d) - 1] = np.sign(d)
    R, G = mat(np.array(ICO[g])), mat(np.array(ICO[gi]))
    lo, up = b.x0[:k], (b.x0[k:] - b.x0[k:].mean(axis=0)) @ R.T
    h = (lo @ n).max() + (-(up @ n)).max() + gap
    up = up + lo.mean(axis=0) + n * h + np.array([0.07, -0.05, 0.03]) * (1 - np.abs(n))
    x = np.concatenate([lo, up]) @ G.T
    API.set_spatial_coordinates(e, "A", x)
    API.set_velocity(e, "A", np.zeros(3))
    cps = detect(e)
    F = b.surface
    F1, F2 = F[F.max(axis=1) < k], F[F.min(axis=1) >= k]
    m = crossing(x, F1, x, F2)
    key = f"{shape}:{g}:{d}:{gap}:{gi}"
    if m < -1e-6:
        expect(not cps, f"{len(cps)} contacts of a body that does not touch itself", "self:false")
    pen = min(geo.signed_distances(x[k:], x, F1).min(), geo.signed_distances(x[:k], x, F2).min())
    if hashing and m > 1e-3 and pen < -0.12:
        expect(len(cps) > 0, f"no self contact, a vertex of one part is {-pen} deep in the other", "self:missed")
    for c in cps:
        expect(c.bodyA is b and c.bodyB is b, "self contact of other bodies", "self:bodies")
        i, j = b.T[c.idx_tetA].min() < k, b.T[c.idx_tetB].min() < k
        expect(i != j, f"contact of a part with itself at {c.p}", "self:part")
        dist = geo.signed_distance(c.p, x, F1 if i else F2)
        expect(abs(c.g - dist) < 0.4, f"gap {c.g}, distance to the other part is {dist}", "self:gap")
    observe((case, len(cps), m > 0))


def cones(e, b, p, mu_of, slide=None):
    """How far the impulse p on body b is outside the sum of the friction cones (circumscribed 16-gons) of its contacts."""
    cols = []
    exact = slide and not any(c.n @ (c.bodyB.u[c.bodyB.T[c.idx_tetB]].T @ c.omegaB - c.bodyA.u[c.bodyA.T[c.idx_tetA]].T @ c.omegaA) < -1e-4 for c in e.contact_points)
    observe(("exact", bool(exact)))
    for c in e.contact_points:
        if c.bodyA is not b and c.bodyB is not b:
            continue
        n = c.n if c.bodyB is b else -c.n
        s = np.cross(n, np.eye(3)[np.argmin(np.abs(n))])
        s = s / np.linalg.norm(s)
        t = np.cross(n, s)
        mu = mu_of(c)
        if exact:
            u = c.bodyB.u[c.bodyB.T[c.idx_tetB]].T @ c.omegaB - c.bodyA.u[c.bodyA.T[c.idx_tetA]].T @ c.omegaA
            u = (u - n * (n @ u)) * (1 if c.bodyB is b else -1)
            if np.linalg.norm(u) > slide:  # sliding: the friction is all there and against the motion
                cols.append(n - mu * u / np.linalg.norm(u))
                continue
        cols += [n] if mu == 0.0 else [n + mu / np.cos(np.pi / 16) * (np.cos(a) * s + np.sin(a) * t) for a in np.arange(16) * np.pi / 8]
    return nnls(np.array(cols).T, p)[1] if cols else np.linalg.norm(p)


MU = {("m0", "m1"): 0.0, ("m0", "m2"): 0.2, ("m0", "m3"): 0.6, ("m1", "m1"): 0.3, ("m1", "m2"): 0.1, ("m2", "m2"): 0.5, ("m3", "m3"): 0.4, ("m1", "m3"): 0.05, ("m2", "m3"): 0.0, ("m0", "m0"): 1.0}
GROUNDS = dict(plate=[("g", 9.0, 0.0, "m0")], tiles=[("g", 3.0, -3.0, "m0"), ("h", 3.0, 0.0, "m1"), ("i", 3.0, 3.0, "m2")])


def stage(ground, boxes, order, scheme, hashing, G):
    """Boxes (name, z, material, speed) sliding along x on fixed plates (name, width, z, material)."""
    e = soft.engine(8, envelope=0.02, use_spatial_hashing=hashing, proximal_solver=scheme, time_step=0.01, absolute_tolerance=1e-8, relative_tolerance=1e-12, max_iterations=1000, too_small_merit_change=0.0)
    for k in range(4):
        API.create_material(e, f"m{k}")
        API.set_elasticity(e, f"m{k}", 200.0, 0.3)
        API.set_mass_density(e, f"m{k}", 1.0)
        API.set_viscosity(e, f"m{k}", 1.0)
        API.set_constitutive_model(e, f"m{k}", API.SVK)
    for i, ((m, n), mu) in enumerate(MU.items()):
        API.create_surfaces_interaction(e, *((m, n) if i % 2 else (n, m)), mu)
    plates = {n: (w, z, m) for n, w, z, m in GROUNDS[ground]}
    boxes = {n: (z, m, v) for n, z, m, v in boxes}
    for n in order:
        if n in plates:
            w, z, m = plates[n]
            V, T = soft.beam(2, 2, 2, 4.0, 1.0, w)
            API.create_soft_body(e, n, (V + [0, 0, z]) @ G.T, T)
            API.set_type(e, n, "fixed")
            API.set_gravity(e, n, np.zeros(3))
        elif n in boxes:
            z, m, v = boxes[n]
            V, T = MESH["cube"]
            API.create_soft_body(e, n, (V + [0.1, 0.98, z]) @ G.T, T)
            API.set_gravity(e, n, G @ np.array([0.0, -2.0, 0.0]))
            API.set_velocity(e, n, G @ np.array([v, -0.2, 0.0]))
        else:
            continue
        API.set_material(e, n, m)
    return e


def crowd(case):
    """Several boxes and plates of several materials: every body feels the friction of its own contacts."""
    ground, mats, zs, order, scheme, hashing, gi, steps = case
    G = mat(np.array(ICO[gi]))
    e = stage(ground, list(zip("abc", zs, mats, (0.5, -0.7, 0.6))), order, scheme, hashing, G)
    mu_of = lambda c: MU[tuple(sorted((c.bodyA.material_description.name, c.bodyB.material_description.name)))]
    hit = set()
    for step in range(steps):
        before = {n: e.bodies[n].u.copy() for n in "abc"}
        API.simulate(e, 0.01)
        tick()
        for n in "abc":
            b, u0 = e.bodies[n], before[n]
            mass = soft.node_mass(b.x0, b.T, 1.0)[:, None]
            p = (mass * (b.u - u0)).sum(axis=0) - 0.01 * mass.sum() * (G @ np.array([0, -2.0, 0])) + 0.01 * (mass * u0).sum(axis=0)
            rest = cones(e, b, p, mu_of, 1e-3)
            expect(rest < 1e-5 + 1e-3 * np.linalg.norm(p), f"step {step}: contact impulse {p} on {n} is {rest} off what its contacts can exert", "friction")
            if any(c.bodyA is b or c.bodyB is b for c in e.contact_points):
                hit.add(n)
    expect(len(hit) == 3, f"only {hit} touch the ground", "touch")
    observe((case, np.round(e.bodies["a"].u.mean(axis=0), 3)))


def drop(case):
    """A box on the ground: no creeping through, no momentum from nothing, tilted worlds alike."""
    scheme, hashing, ground, gi, post, mu, steps = case
    e = soft.engine(RESN, envelope=0.02, use_spatial_hashing=hashing, proximal_solver=scheme, use_post_stabilization=post, time_step=0.01, absolute_tolerance=1e-8, relative_tolerance=1e-12, max_iterations=1000, too_small_merit_change=0.0)
    API.create_material(e, "m")
    API.set_elasticity(e, "m", 200.0, 0.3)
    API.set_mass_density(e, "m", 1.0)
    API.set_viscosity(e, "m", 1.0)
    API.set_constitutive_model(e, "m", API.SVK)
    API.create_surfaces_interaction(e, "m", "m", mu)
    G = mat(np.array(ICO[gi]))
    Vg, Tg = soft.beam(2, 2, 2, 4.0, 1.0, 4.0)
    V, T = MESH["cube"]
    API.create_soft_body(e, "ground", Vg @ G.T, Tg)
    API.create_soft_body(e, "box", (V + [0.1, 1.02, -0.05]) @ G.T, T)
    for n in ("ground", "box"):
        API.set_material(e, n, "m")
        API.set_gravity(e, n, G @ np.array([0.0, -2.0, 0.0]) if n == "box" else np.zeros(3))
    x0 = e.bodies["ground"].x0.copy()
    if ground == "fixed":
        API.set_type(e, "ground", "fixed")
    elif ground == "clamped":
        API.create_dirichlet_conditions(e, "ground", lambda p: -1.0)
    elif ground == "half":
        API.create_dirichlet_conditions(e, "ground", lambda p: (p @ G)[1] + 0.2)
    v0 = G @ np.array([0.3, -1.0, 0.0])
    API.set_velocity(e, "box", v0)
    g, b = e.bodies["ground"], e.bodies["box"]
    m = soft.node_mass(b.x0, b.T, 1.0)
    mg = soft.node_mass(g.x0, g.T, 1.0)
    touched = False
    low = []
    for step in range(steps):
        u0, ug0, x0b, xg0 = b.u.copy(), g.u.copy(), b.x.copy(), g.x.copy()
        API.simulate(e, 0.01)
        tick()
        touched |= bool(e.contact_points)
        if ground in ("fixed", "clamped"):
            expect(np.abs(g.x - x0).max() < 1e-12 and not np.asarray(g.u).any(), "the ground moves", "ground")
        # nodal impulses of box and ground: elastic and damping forces cancel within a body
        p = (m[:, None] * (b.u - u0)).sum(axis=0) - 0.01 * m.sum() * (G @ np.array([0, -2.0, 0])) + 0.01 * (soft.node_mass(b.x0, b.T, 1.0)[:, None] * u0).sum(axis=0)
        if not e.contact_points:
            expect(np.abs(p).max() < 1e-9, f"step {step}: momentum changes by {p} without contact", "momentum")
        elif ground == "free":
            q = (mg[:, None] * (g.u - ug0)).sum(axis=0) + 0.01 * (mg[:, None] * ug0).sum(axis=0)
            expect(np.abs(p + q).max() < 1e-9, f"step {step}: contact changes the total momentum by {p + q}", "momentum")
        if e.contact_points:
            # the contacts found at the start of the step do not approach at its end
            worst = 0.0
            for c in e.contact_points:
                A, B = c.bodyA, c.bodyB
                rel = B.u[B.T[c.idx_tetB]].T @ c.omegaB - A.u[A.T[c.idx_tetA]].T @ c.omegaA
                worst = min(worst, c.n @ rel)
            if scheme == "gauss_seidel":
                expect(worst > -0.25, f"step {step}: contact approaches at {-worst} after the solve", "approach")
            up = G @ np.array([0, 1.0, 0])
            expect(p @ up > -1e-3, f"step {step}: contact pulls the box by {p @ up}", "pull")
            rest = cones(e, b, p, lambda c: mu, 1e-3)
            expect(rest < 1e-5 + 1e-3 * np.linalg.norm(p), f"step {step}: contact impulse {p} is {rest} outside the friction cones", "cone")
        low.append(((b.x @ G)[:, 1]).min() - 0.5)
    if ground != "free":
        expect(touched, "the box never touches the ground", "touch")
        expect(min(low) > -0.08, f"the box sinks to {min(low)} below the surface", "sink")
        expect(np.abs(np.array(low[-5:])).max() < 0.2, f"the box ends {low[-1]} above the surface", "bounce")
    observe((case, np.round(low[-1], 3)))


FAMILIES = dict(pair=pair, deformed=deformed, jacobian=jacobian, agree=agree, selfcontact=selfcontact, drop=drop, crowd=crowd, history=history)


SCHEMES = ("gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid")


def explore(ctx):
    q = ctx.quick
    names = list(MESH)
    gaps = (-0.12, -0.06, 0.03, 0.15, 0.5)
    spec = lambda gs, ds, gp, env=0.1: [(a, b, g, d, gap, env) for a in names for b in names for g in gs for d in ds for gap in gp]
    part = lambda cases, k: cases[::k] if q else cases
    ctx.run("pair", part([(s, gi, h) for s in spec(range(1, 120, 23) if q else range(0, 120, 5), (1, 2, -3), gaps) for gi in ((0, 31) if q else (0, 31, 77)) for h in (True, False)], 7), procs=8)
    ctx.run("deformed", part([(s, sa, sb, h) for s in spec((5, 77) if q else range(1, 120, 13), (1, -2, 3), (-0.12, 0.02)) for sa in STRETCH for sb in STRETCH for h in (True, False)], 13), procs=8)
    ctx.run("jacobian", part([(s, h, st) for s in spec((5, 77), (1, -2), (-0.12, 0.02)) for h in (True, False) for st in STRETCH], 5), procs=8)
    ctx.run("agree", part(spec((5,) if q else (5, 41, 101), (1, -3), (-0.1, 0.02)), 3), procs=8)
    ctx.run("selfcontact", [(s, g, d, gap, gi, h) for s in ("gem", "tet", "cube") for g in (range(1, 120, 17) if q else range(120)) for d in (1, -2, 3)
                            for gap in (-0.2, -0.1, 0.05, 0.4) for gi in (0, 31) for h in (True, False)], procs=8)
    ctx.run("drop", part([(s, h, gr, gi, post, mu, 20 if q else 60) for s in ("gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid") for h in (True, False)
                          for gr in ("fixed", "clamped", "half", "free") for gi in (0, 31) for post in (False, True) for mu in (0.0, 0.5)], 13), procs=8)
    C = [("plate", m, (-3.0, 0.0, 3.0), "".join(o), sch, h, 0, 3 if q else 8) for o in itertools.permutations("gabc")
         for m in itertools.product(("m1", "m2", "m3"), repeat=3) for sch in SCHEMES for h in (True, False)]
    C += [("tiles", m, zs, o, sch, h, gi, 3 if q else 8) for o in ("gahbic", "ighabc", "cbaghi", "bghica") for m in itertools.product(("m1", "m2", "m3"), repeat=3)
          for zs in ((-1.5, 0.2, 1.7), (-3.0, -1.4, 1.5)) for sch in SCHEMES for h in (True, False) for gi in (0, 31)]
    ctx.run("crowd", C[::229] if q else C[::29], procs=8)
    O = [(n, k) for n in "ABC" for k in (*SPOTS, "type", "squash")]
    H = [(h, sh, st, ops) for h in (True, False) for sh, st, k in ((("cube", "tet"), ("mid", "far"), 2), (("brick", "cube"), ("far", "mid"), 2), (("cube", "cube", "tet"), ("mid", "up", "far"), 3))
         for ops in itertools.product([o for o in O if o[0] in "ABC"[:k]], repeat=2 if q else 3)]
    ctx.run("history", H[::17] if q else H[::23], procs=8)
