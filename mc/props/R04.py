"""R04 contact points of the rigid body simulator."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import hamilton, icosa, mat, octa

LEVEL = "model_checking"
RULE = ("All pairs of convex polyhedra x icosahedral relative orientations x approach directions x depths (separated, inside the envelope, "
        "penetrating): every contact point is judged against exact point-mesh distances, presence/absence against vertex penetration and "
        "separating planes; the same worlds in every creation order, after common rigid motions, with a third body and after earlier steps.")
ASSUMPTIONS = ["distance fields of 16 cells along the longest side; the gap tolerance is one cell",
               "a contact is demanded when a vertex is deeper than 0.05 inside (edge-edge crossings are listed separately)"]
MESH = dict(cube=geo.box(1, 1, 1), brick=geo.box(1, .5, 2), plate=geo.box(3, .5, 3), rod=geo.box(.4, 2.5, .4),
            tet=(np.array([[0, 0, 0], [2, 0, 0], [0, 1.5, 0], [0, 0, 2.5]], float) - 0.3, np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])),
            rod3=geo.box(.2, 3, .2))
RESN = 16
ICO = list(icosa())
_w = {}


def world(env):
    if env not in _w:
        e = rigid.engine(res=RESN, envelope=env)
        for n, (V, T) in MESH.items():
            rigid.add_shape(e, n, V, T)
        _w[env] = e
    e = _w[env]
    e.bodies.clear()
    e.contact_points = []
    return e


def cell(name):
    V = MESH[name][0]
    ext = V.max(axis=0) - V.min(axis=0)
    return 1.25 * ext.max() / (RESN - 1)


def detect(e):
    API.simulate(e, 1e-12)
    tick()
    return e.contact_points


def judge(e, tag):
    """Every contact point is geometrically sound."""
    env = e.params.envelope
    W = {n: rigid.world_vertices(b) for n, b in e.bodies.items()}
    seen = set()
    for c in e.contact_points:
        A, B = c.bodyA, c.bodyB
        ok = A is not B and e.bodies.get(A.name) is A and e.bodies.get(B.name) is B
        if not expect(ok, f"{tag}: contact between {A.name} and {B.name}", "bodies"):
            continue
        expect(close(np.linalg.norm(c.n), 1.0) and np.isfinite(c.p).all() and np.isfinite(c.g), f"{tag}: normal {c.n}, point {c.p}, gap {c.g}", "finite")
        dB = abs(geo.signed_distance(c.p, W[B.name], B.shape.mesh.T))
        dA = geo.signed_distance(c.p, W[A.name], A.shape.mesh.T)
        h = cell(A.shape.name)
        expect(dB < 1e-6, f"{tag}: contact point {c.p} is {dB} off the surface of {B.name}", "surface")
        expect(abs(c.g - dA) < h, f"{tag}: gap {c.g}, distance to {A.name} is {dA}", "gap")
        expect(c.g <= env + 1e-12, f"{tag}: gap {c.g} outside the envelope {env}", "envelope")
        D = np.array([[geo.signed_distance(c.p + x * u, W[A.name], A.shape.mesh.T) for x in (h, -h)] for u in np.eye(3)])
        grad = (D[:, 0] - D[:, 1]) / (2 * h)
        if np.linalg.norm(grad) > 0.9:  # away from the ridges of the distance
            expect(c.n @ grad > 0.5, f"{tag}: normal {c.n}, distance to {A.name} grows along {grad}", "normal")
        key = (frozenset((A.name, B.name)), tuple(c.p))
        expect(key not in seen, f"{tag}: contact point {c.p} twice", "duplicate")
        seen.add(key)
    return W


def place(case):
    """Poses of the two bodies: B slides along an axis of A to the given gap of their slabs."""
    a, b, g, d, gap, env = case
    n = np.zeros(3)
    n[abs(d) - 1] = np.sign(d)
    R = mat(np.array(ICO[g]))
    W = MESH[b][0] @ R.T
    h = (MESH[a][0] @ n).max() + (-(W @ n)).max() + gap
    off = n * h + np.array([0.07, -0.05, 0.03]) * (1 - np.abs(n)) - (MESH[b][0].mean(axis=0) @ R.T - MESH[a][0].mean(axis=0)) * (1 - np.abs(n))
    return off, ICO[g]


def pair(case):
    a, b, g, d, gap, env = case
    e = world(env)
    off, q = place(case)
    rigid.body(e, "A", a)
    rigid.body(e, "B", b, r=off, q=q)
    cps = detect(e)
    W = judge(e, "pair")
    A, B = e.bodies["A"], e.bodies["B"]
    if gap > env + 1e-6:
        expect(not cps or max(c.g for c in cps) <= env and gap <= env + max(cell(a), cell(b)), f"{len(cps)} contacts, bodies are {gap} apart", "apart")
    pen = min([geo.signed_distance(p, W["A"], A.shape.mesh.T) for p in W["B"]] + [geo.signed_distance(p, W["B"], B.shape.mesh.T) for p in W["A"]])
    if pen < -0.05:
        if expect(len(cps) > 0, f"no contact although a vertex is {-pen} deep", f"missed:{a}:{b}:{g}:{d}:{gap}:{env}"):
            expect(min(c.g for c in cps) < pen + 0.5 * (cell(a) + cell(b)) + 0.03, f"deepest contact {min(c.g for c in cps)}, a vertex is {-pen} deep", f"shallow:{a}:{b}:{g}:{d}:{gap}:{env}")
    if 0 < pen < env - max(cell(a), cell(b)):
        pass  # closeness without penetration: only soundness is judged
    observe((case, len(cps), np.sign(pen)))


def edges(case):
    """Two long rods crossing edge against edge: no vertex is inside, the bodies overlap by depth."""
    turn, depth, env, off = case
    e = world(env)
    c, s = np.cos(np.pi / 8), np.sin(np.pi / 8)
    qa = (c, 0.0, s, 0.0)
    t = np.radians(turn) / 2
    qb = hamilton((np.cos(t), 0.0, 0.0, np.sin(t)), qa)
    rigid.body(e, "A", "rod3", q=qa)
    rigid.body(e, "B", "rod3", r=(0.0, off, 0.2 * np.sqrt(2.0) - depth), q=qb)
    cps = detect(e)
    judge(e, "edges")
    expect(len(cps) > 0, f"no contact although the rods cross {depth} deep", f"edges:{turn}:{depth}:{env}:{off}")
    observe((case, len(cps)))


def contacts(e, back=None):
    out = []
    for c in e.contact_points:
        p, n = c.p, c.n
        if back is not None:
            R, r = back
            p, n = (p - r) @ R, n @ R
        out.append((c.bodyA.name, c.bodyB.name) + tuple(np.round(np.concatenate([p, n, [c.g]]), 5) + 0.0))
    return sorted(out)


def same(x, y):
    return len(x) == len(y) and all(a[:2] == b[:2] and np.abs(np.array(a[2:]) - np.array(b[2:])).max() < 1e-4 for a, b in zip(x, y))


def orders(case):
    """Creation order, a third body and earlier steps do not change the contacts of a pair."""
    a, b, g, d, gap, env = case
    off, q = place(case)
    poses = dict(A=(a, (0, 0, 0), (1, 0, 0, 0)), B=(b, off, q), C=("cube", tuple(np.array(off) + (0.4, 0.3, 0.9)), ICO[(g + 13) % 120]), T=(b, off, q), U=(a, (0, 0, 0), (1, 0, 0, 0)))
    ref = None
    for order in (("A", "B"), ("B", "A"), ("A", "B", "C"), ("C", "B", "A"), ("B", "C", "A"), ("A", "B", "T"), ("T", "A", "B"), ("B", "U", "A"), ("history",)):
        e = world(env)
        names = order if order != ("history",) else ("A", "B")
        for n in names:
            s, r, qq = poses[n]
            rigid.body(e, n, s, r=r, q=qq)
        if order == ("history",):
            for pos in ((50.0, 0, 0), (0.2, 0.1, 0.0), tuple(-np.array(off))):
                API.set_position(e, "B", np.array(pos, float))
                detect(e)
                if pos[0] == 50.0:
                    expect(not e.contact_points, "contacts of bodies 50 units apart", "apart")
            API.set_orientation(e, "B", np.array(q, float), True)
            API.set_position(e, "B", np.array(off, float), True)
        detect(e)
        twin = {"T": "B", "U": "A"}.get(next((n for n in order if n in ("T", "U")), None))
        if twin is None:
            judge(e, "orders")
        got = [c for c in contacts(e) if c[0] in "AB" and c[1] in "AB"]
        if twin:  # a third body in the place of one of the two has the same contacts with the other
            n = "T" if twin == "B" else "U"
            o = "A" if twin == "B" else "B"
            also = sorted(tuple({n: twin}.get(x, x) for x in c[:2]) + c[2:] for c in contacts(e) if set(c[:2]) == {n, o})
            expect(same(got, also), f"{len(got)} contacts of {o} and {twin}, {len(also)} with its twin", f"twin:{len(order)}:{order[0]}")
        if ref is None:
            ref = got
        expect(same(ref, got), f"{len(got)} contacts between A and B when created as {order}, {len(ref)} otherwise: {ref[:2]} / {got[:2]}", f"order:{len(order)}:{order[0]}")
    observe((case, len(ref)))


def moved(case):
    """The contacts move along when the whole world is moved."""
    (a, b, g, d, gap, env), gi, r = case
    off, q = place(case[0])
    e = world(env)
    rigid.body(e, "A", a)
    rigid.body(e, "B", b, r=off, q=q)
    detect(e)
    ref = contacts(e)
    G = mat(np.array(ICO[gi]))
    e = world(env)
    rigid.body(e, "A", a, r=r, q=ICO[gi])
    rigid.body(e, "B", b, r=G @ off + np.array(r), q=hamilton(ICO[gi], q))
    detect(e)
    judge(e, "moved")
    got = contacts(e, (G, np.array(r)))
    m0, m1 = min((c[8] for c in ref), default=9), min((c[8] for c in got), default=9)
    tol = max(cell(a), cell(b))
    if min(m0, m1) < 0.1 - tol:
        expect(abs(m0 - m1) < tol, f"{len(ref)} contacts with deepest gap {m0}, {len(got)} with {m1} after moving the world", "moved")
    observe((case, len(ref)))


SPOTS = [((0.0, 0.0, 0.0), 0), ((0.0, 0.0, 0.97), 0), ((5.0, 0.0, 0.0), 7), ((0.3, -0.2, 1.9), 0)]


def history(case):
    """However the bodies came to be where they are, the contacts are those of a scene built there."""
    shapes, start, ops = case

    def build(spots, kind, shape):
        e = world(0.1)
        for n, k in spots.items():
            rigid.body(e, n, shape[n], r=SPOTS[k][0], q=ICO[SPOTS[k][1]])
            API.set_body_type(e, n, kind[n])
        return e
    names = "ABC"[:len(shapes)]
    spots, kind, shape = dict(zip(names, start)), {n: "fixed" if i == 0 else "free" for i, n in enumerate(names)}, dict(zip(names, shapes))
    want = []
    for op in (None,) + ops:
        if op is not None:
            n, k = op
            spots, kind, shape = dict(spots), dict(kind), dict(shape)
            if k == "type":
                kind[n] = "free" if kind[n] == "fixed" else "fixed"
            elif k == "shape":
                shape[n] = "brick" if shape[n] == "cube" else "cube"
            else:
                spots[n] = k
        e = build(spots, kind, shape)
        detect(e)
        want.append(contacts(e))
    e = build(dict(zip(names, start)), {n: "fixed" if i == 0 else "free" for i, n in enumerate(names)}, dict(zip(names, shapes)))
    detect(e)
    shape, at = dict(zip(names, shapes)), dict(zip(names, start))
    got = [contacts(e)]
    for n, k in ops:
        if k == "type":
            API.set_body_type(e, n, "free" if e.bodies[n].is_fixed else "fixed")
        elif k == "shape":
            shape[n] = "brick" if shape[n] == "cube" else "cube"
            API.connect_shape(e, n, shape[n])
        else:
            at[n] = k
        if k != "type":
            r, g = SPOTS[at[n]]
            API.set_orientation(e, n, np.array(ICO[g], float), True)
            API.set_position(e, n, np.array(r, float), True)
        detect(e)
        got.append(contacts(e))
    for i, (a, b) in enumerate(zip(got, want)):
        if not expect(same(a, b), f"{len(a)} contacts after {ops[:i]}, a scene built there has {len(b)}", f"history:{'fixed' if i and ops[i - 1][0] == 'A' else 'free'}"):
            break
    observe((case, tuple(len(c) for c in want)))


FAMILIES = dict(pair=pair, history=history, orders=orders, moved=moved, edges=edges)


def explore(ctx):
    q = ctx.quick
    names = ["cube", "brick", "plate", "rod", "tet"]
    gaps = (-0.12, -0.06, 0.03, 0.15, 0.5)
    ctx.run("pair", [(a, b, g, d, gap, env) for a in names for b in names for g in (range(1, 120, 13) if q else range(0, 120, 3)) for d in (1, 2, -3)
                     for gap in gaps for env in ((0.1,) if q else (0.1, 0.02))], procs=8)
    if q:  # the recorded misses of the deeper tier
        ctx.run("pair", [("cube", "tet", 0, -3, -0.12, 0.02), ("cube", "tet", 81, 1, -0.12, 0.02), ("cube", "tet", 81, 1, -0.06, 0.02),
                         ("cube", "tet", 96, -3, -0.12, 0.02), ("brick", "brick", 21, 2, -0.12, 0.02), ("brick", "brick", 96, 2, -0.12, 0.02),
                         ("brick", "brick", 75, 2, -0.12, 0.02), ("brick", "tet", 81, 1, -0.12, 0.02), ("rod", "tet", 6, 1, -0.12, 0.02),
                         ("rod", "tet", 57, -3, -0.12, 0.02)])
    ctx.run("orders", [(a, b, g, d, gap, 0.1) for a in names for b in names for g in ((5, 77) if q else range(0, 120, 11)) for d in (-1, 3)
                       for gap in (-0.1, 0.02)], procs=8)
    ctx.run("moved", [((a, b, g, d, gap, 0.1), gi, r) for a in names for b in names for g in ((5, 101) if q else range(2, 120, 9)) for d in (2,)
                      for gap in (-0.1, 0.02) for gi, r in ((31, (0.0, 0.0, 0.0)), (0, (10.0, -7.0, 3.0)), (88, (-2.0, 4.0, 1.0)))], procs=8)
    H = []
    for shapes, start in ((("cube", "cube"), (0, 1)), (("cube", "brick"), (0, 2)), (("cube", "cube", "tet"), (0, 2, 3))):
        ops = [(n, k) for n in "ABC"[:len(shapes)] for k in (0, 1, 2, 3, "type", "shape") if not (k == "shape" and n == "C")]
        for d in (1, 2, 3):
            H += [(shapes, start, o) for o in itertools.product(ops, repeat=d) if d < 3 or len(shapes) == 2 or not q]
    ctx.run("history", H[::3] if q else H, procs=8)
    ctx.run("edges", [(t, dp, 0.1, off) for t in (90,) for dp in (0.1, 0.05) for off in (0.0, 0.3, 0.7)], procs=8)
