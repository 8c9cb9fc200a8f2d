"""R12 gears mesh, mail rings are linked, chains hang together: mechanisms are generated with the right geometry and joints."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_rigid_bodies.scenes as PROC
from rainbow.simulators.prox_rigid_bodies.scenes.create_gear_train import GearFactory
from mc import geo, rigid
from mc.core import close, expect, observe, tick
from mc.groups import mat
from mc.props.R08 import sockets
from mc.props.R11 import Block, bookkeeping, separation, world

LEVEL = "model_checking"
RULE = ("All gears over modules, tooth numbers and pressure angles; all ordered pairs of gears over contact directions and all phases of a tooth "
        "(overlap and backlash of the exact profiles measured in each); every mail, chain and train over sizes, with linking numbers and exact clearances of "
        "all pairs of rings and the joint axes of every hinge.")
ASSUMPTIONS = ["stretch large enough for the rings to be clear of each other (stretch (R - 2r) >= sqrt(2) r)"]
_g = {}


def gear(m, Z, alpha):
    k = (m, Z, alpha)
    if k not in _g:
        _g[k] = GearFactory.make_gear_specs(m=m, Z=Z, alpha=alpha)
    return _g[k]


def area(P):
    x, y = P[:, 0], P[:, 1]
    return 0.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))


def crossings(P, Q):
    """Number of proper crossings between two closed polylines."""
    A, B = P[:, None], np.roll(P, -1, 0)[:, None]
    C, D = Q[None], np.roll(Q, -1, 0)[None]
    def o(a, b, c):
        return (b[..., 0] - a[..., 0]) * (c[..., 1] - a[..., 1]) - (b[..., 1] - a[..., 1]) * (c[..., 0] - a[..., 0])
    return int(((o(A, B, C) * o(A, B, D) < -1e-18) & (o(C, D, A) * o(C, D, B) < -1e-18)).sum())


def inside(p, P):
    a, b = P, np.roll(P, -1, 0)
    c = (a[None, :, 1] > p[:, 1:]) != (b[None, :, 1] > p[:, 1:])
    with np.errstate(divide="ignore", invalid="ignore"):
        x = a[:, 0] + (p[:, 1:] - a[:, 1]) / (b[:, 1] - a[:, 1]) * (b[:, 0] - a[:, 0])
    return (c & (p[:, :1] < x)).sum(1) % 2 == 1


def boundary_distance(p, P):
    a, b = P[None], np.roll(P, -1, 0)[None]
    d = b - a
    L = np.maximum((d * d).sum(-1), 1e-300)
    t = np.clip(((p[:, None] - a) * d).sum(-1) / L, 0, 1)
    return np.linalg.norm(p[:, None] - a - t[..., None] * d, axis=-1).min(1)


def turn(P, phi, c=(0.0, 0.0)):
    R = np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])
    return P @ R.T + np.array(c)


def profile(case):
    m, Z, alpha, width = case
    g = gear(m, Z, alpha)
    tick()
    Rp = m * Z / 2
    want = {"pitch radius": Rp, "top radius": Rp + m, "root radius": Rp - 1.25 * m, "base radius": Rp * np.cos(np.radians(alpha)),
            "module": m, "number of teeth": Z, "pressure angle": alpha, "tooth height": 2.25 * m, "pitch": np.pi * m, "tooth thickness": np.pi * m / 2}
    for k, v in want.items():
        expect(close(g[k], v, 1e-12 * (1 + abs(v))), f"{k} is {g[k]}, should be {v}", "specs")
    P = np.column_stack((g["x"], g["y"]))
    rad = np.hypot(*P.T)
    expect(close(rad.max(), Rp + m, 1e-9 * Rp) and close(rad.min(), Rp - 1.25 * m, 1e-9 * Rp), f"profile spans radii {rad.min()}..{rad.max()}", "radii")
    expect(area(P) > 0, "the profile runs clockwise", "profile")
    n = len(P)
    i, j = np.triu_indices(n, 2)
    A, B, C, D = P[i], P[(i + 1) % n], P[j], P[(j + 1) % n]
    def o(a, b, c):
        return (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])
    bad = (o(A, B, C) * o(A, B, D) < -1e-18) & (o(C, D, A) * o(C, D, B) < -1e-18)
    expect(not bad.any(), "the profile crosses itself", "profile")
    # Z-fold symmetry
    T = turn(P, 2 * np.pi / Z)
    d = np.abs(T[:, None] - P[None]).max(-1).min(1).max()
    expect(d < 1e-9 * Rp, f"turning by one tooth moves the profile by {d}", "teeth")
    # teeth and gaps share the pitch circle equally, and a tooth starts at angle zero (neutral position)
    ang = []
    for a, b in zip(P, np.roll(P, -1, 0)):
        ra, rb = np.hypot(*a), np.hypot(*b)
        if (ra - Rp) * (rb - Rp) < 0:
            t = (Rp - ra) / (rb - ra)
            x = a + t * (b - a)
            ang.append((np.arctan2(x[1], x[0]) % (2 * np.pi), rb > ra))
    expect(len(ang) == 2 * Z, f"{len(ang)} flanks cross the pitch circle", "teeth")
    up = np.sort([a for a, u in ang if u])
    dn = np.sort([a for a, u in ang if not u])
    if len(up) == Z and len(dn) == Z:
        e = min(abs(x - y) for x in (up[0], up[-1] - 2 * np.pi) for y in (0.0,))
        expect(e < 0.02 / Z, f"the first tooth starts at angle {e}", "neutral")
        th = (dn - up) % (2 * np.pi)
        th = np.array([min((y - x) % (2 * np.pi) for y in dn) for x in up])
        expect(np.abs(th - np.pi / Z).max() < 0.01 / Z, f"a tooth spans {th[0]} of the pitch circle, should be {np.pi / Z}", "thickness")
    # involute flanks: between base and tip circle the tooth narrows as an involute does
    inv = lambda r: np.tan(np.arccos(g["base radius"] / r)) - np.arccos(g["base radius"] / r)
    for f in (0.4, 0.8):
        R = Rp + f * m
        hits = []
        for a, b in zip(P, np.roll(P, -1, 0)):
            ra, rb = np.hypot(*a), np.hypot(*b)
            if (ra - R) * (rb - R) < 0:
                x = a + (R - ra) / (rb - ra) * (b - a)
                hits.append((np.arctan2(x[1], x[0]) % (2 * np.pi), rb > ra))
        up = np.sort([a for a, u in hits if u])
        dn = np.sort([a for a, u in hits if not u])
        if expect(len(up) == Z and len(dn) == Z, f"{len(hits)} flanks at radius {R}", "teeth"):
            th = min((y - up[0]) % (2 * np.pi) for y in dn)
            ref = np.pi / Z - 2 * (inv(R) - inv(Rp))
            expect(abs(th - ref) < 0.02 / Z, f"a tooth spans {th} at {f} modules above the pitch circle, an involute {ref}", "involute")
    V, T = GearFactory.make_gear_mesh(g, width)
    bad = geo.closed_manifold(T)
    expect(bad is None, f"mesh: {bad}", "mesh")
    vol = geo.signed_volume(V, T)
    expect(close(vol, area(P) * width, 1e-9 * vol), f"volume {vol}, profile area x width {area(P) * width}", "mesh")
    expect(close([V[:, 2].min(), V[:, 2].max()], [-width / 2, width / 2], 0), "not centred", "mesh")
    observe(P)
    if not bad:
        expect(geo.euler(T) == 2 and len(geo.components(T)) == 1 if hasattr(geo.components(T), "__len__") else geo.euler(T) == 2, "not a ball", "mesh")


def meshing(case):
    """Two gears placed by make_gears_assembly at one phase: teeth interlock without overlap and with little play."""
    Z1, Z2, m, alpha, omega, phase, cx, cy = case
    g1, g2 = gear(m, Z1, alpha), gear(m, Z2, alpha)
    theta = phase * 2 * np.pi / Z1
    x, y, phi = GearFactory.make_gears_assembly(g1, g2, cx, cy, theta, omega)
    tick()
    R = m * (Z1 + Z2) / 2
    expect(close([x, y], [cx + R * np.cos(omega), cy + R * np.sin(omega)], 1e-9 * (R + abs(cx) + abs(cy))), f"driven gear at {x, y}", "place")
    step = 0.01
    _, _, phi2 = GearFactory.make_gears_assembly(g1, g2, cx, cy, theta + step, omega)
    d = (phi2 - phi + Z1 / Z2 * step) % (2 * np.pi / Z2)
    expect(min(d, 2 * np.pi / Z2 - d) < 1e-9, f"turning the drive gear by {step} turns the driven one by {phi2 - phi}", "ratio")
    P1 = turn(np.column_stack((g1["x"], g1["y"])), theta, (cx, cy))
    P2 = turn(np.column_stack((g2["x"], g2["y"])), phi, (x, y))
    observe([x, y, phi])
    depth = 0.0
    for A, B in ((P1, P2), (P2, P1)):
        near = A[np.hypot(*(A - B.mean(0)).T) < m * (max(Z1, Z2) / 2 + 2)]
        if len(near):
            i = inside(near, B)
            if i.any():
                depth = max(depth, boundary_distance(near[i], B).max())
    # the tips of small gears cut into the radial part of the flanks below the base circle (their teeth are not undercut)
    expect(depth <= (0.006 if min(Z1, Z2) >= 12 else 0.06) * m, f"teeth overlap by {depth}", "overlap")
    # backlash: turning the driven gear a little either way drives its teeth into the other gear
    base = np.column_stack((g2["x"], g2["y"]))
    for s in (-1, 1):
        Q = turn(base, phi + s * 0.16 / Z2, (x, y))
        d = 0.0
        for A, B in ((P1, Q), (Q, P1)):
            i = inside(A, B)
            if i.any():
                d = max(d, boundary_distance(A[i], B).max())
        expect(d > 0.02 * m, f"the driven gear turns freely by {s * 0.16 / Z2}", "backlash")


def incompatible(case):
    (m1, a1), (m2, a2) = case
    g1, g2 = gear(m1, 12, a1), gear(m2, 15, a2)
    try:
        GearFactory.make_gears_assembly(g1, g2, 0.0, 0.0, 0.0, 0.0)
        expect((m1, a1) == (m2, a2), f"gears {case} are paired", "incompatible")
    except ValueError:
        expect((m1, a1) != (m2, a2), f"gears {case} are refused", "refused")
    tick()


def train(case):
    n, seed, density = case
    e = world()
    np.random.seed(seed)
    names = PROC.create_gear_train(e, n, density, "stone")
    if not bookkeeping(e, names, (), density, "stone", None):
        return
    tick()
    gears = [x for x in names if not e.bodies[x].is_fixed]
    if not expect(len(gears) == n and len(names) == n + 1 and len(e.hinges) == n, f"{len(gears)} gears, {len(e.hinges)} hinges", "count"):
        return
    base = next(x for x in names if e.bodies[x].is_fixed)
    floor = rigid.world_vertices(e.bodies[base])[:, 1].max()
    hinge = {h.child.name: h for h in e.hinges.values()}
    expect(sorted(hinge) == sorted(gears) and all(h.parent.name == base for h in hinge.values()), "hinges do not connect each gear to the base", "hinges")
    prev = None
    observe([list(API.get_position(e, x)) for x in gears])
    for x in gears:
        V = rigid.world_vertices(e.bodies[x])
        expect(V[:, 1].min() > floor, "a gear reaches into the base", "floor")
        mid = (V.max(0) + V.min(0))[1] / 2
        # the axis of the gear: its profile is symmetric about the vertical line through its centre of mass
        c = API.get_position(e, x)
        rad = np.hypot(V[:, 0] - c[0], V[:, 2] - c[2])
        top = rad.max()
        Z = 2 * top - 2  # module one
        expect(close(Z, round(Z), 1e-6), f"top radius {top} of no gear of module one", "gear")
        Z = int(round(Z))
        a = 2 * np.pi / Z
        W = V - c
        T = W @ np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]]).T
        rim = rad > top - 1e-6
        d = np.array([np.abs(W - t).max(1).min() for t in T[rim]]).max()
        expect(d < 1e-6, f"a gear does not stand on the vertical axis ({d})", "upright")
        if x in hinge:
            rp, rc, ap, ac, _, _ = sockets(hinge[x])
            for r, s in ((rp, ap), (rc, ac)):
                expect(abs(abs(s[1]) - 1) < 1e-9, f"hinge axis {s}, the gear turns about the vertical axis", "axis")
                expect(np.hypot(r[0] - c[0], r[2] - c[2]) < 1e-6, f"hinge {r} off the axis of its gear {c}", "anchor")
        if prev is not None:
            pc, pZ, pmid, pV, ph = prev
            expect(close(np.hypot(c[0] - pc[0], c[2] - pc[2]), (Z + pZ) / 2, 1e-6), f"centres of meshing gears {np.hypot(c[0] - pc[0], c[2] - pc[2])} apart", "pitch")
            ov = min(mid + ph / 2, pmid + ph / 2) - max(mid - ph / 2, pmid - ph / 2)
            expect(ov > 0.1 * ph, f"consecutive gears share {ov} of their width", "width")
        prev = (c, Z, mid, V, V[:, 1].max() - V[:, 1].min())


def mail(case):
    R, r, cols, rows, stretch, pinned, density = case
    e = world()
    names = PROC.create_chainmail(e, R, r, cols, rows, stretch, density, "stone", pinned)
    if not bookkeeping(e, names, (), density, "stone", None):
        return
    tick()
    n = (rows + 1) * (cols + 1) + (rows + 1) * cols + rows * (cols + 1)
    expect(len(names) == n, f"{len(names)} rings", "count")
    C, N = [], []
    for x in names:  # centre and axis of every ring from its world geometry
        V = rigid.world_vertices(e.bodies[x])
        c = (V.max(0) + V.min(0)) / 2
        ax = np.argmin(V.max(0) - V.min(0))
        C.append(c)
        N.append(np.eye(3)[ax])
        ext = V.max(0) - V.min(0)
        big = np.delete(ext, ax)
        expect(close(big, [2 * (R + r)] * 2, 2e-2 * R) and close(ext[ax], 2 * r, 2e-2 * R), f"a ring of extent {ext}", "ring")
    C, N = np.array(C), np.array(N)
    observe(C)
    expect(close(C.mean(0), np.zeros(3), 1e-6 * R * (cols + rows)), f"the mail is centred at {C.mean(0)}", "centre")
    flat = [i for i in range(n) if abs(N[i][1]) > 0.5]
    expect(len(flat) == (rows + 1) * (cols + 1), f"{len(flat)} lying rings", "count")
    # clearance and linking of every pair of rings, from their centre circles
    t = np.linspace(0, 2 * np.pi, 360, endpoint=False) + 0.00123
    circ = []
    for c, a in zip(C, N):
        u, v = [np.eye(3)[i] for i in range(3) if abs(a[i]) < 0.5]
        circ.append(c + R * (np.cos(t)[:, None] * u + np.sin(t)[:, None] * v))
    linked = {i: set() for i in range(n)}
    for i, j in itertools.combinations(range(n), 2):
        if np.linalg.norm(C[i] - C[j]) > 2 * (R + r) + 1e-9:
            continue
        tick()
        # distance from the points of circle i to circle j, exact in the second
        d = circ[i] - C[j]
        h = d @ N[j]
        p = d - h[:, None] * N[j]
        rho = np.linalg.norm(p, axis=1)
        gap = np.hypot(rho - R, h).min()
        expect(gap > 2 * r - 1e-3 * R, f"rings {i} and {j} overlap by {2 * r - gap}", "overlap")
        # linked iff circle i crosses the disc of j an odd number of times
        s = h * np.roll(h, -1) < 0
        f = h[s] / (h[s] - np.roll(h, -1)[s])
        x = p[s] + f[:, None] * (np.roll(p, -1, 0)[s] - p[s])
        if (np.linalg.norm(x, axis=1) < R).sum() % 2:
            linked[i].add(j), linked[j].add(i)
    for i in range(n):  # lying rings are linked exactly to their neighbours in the mail, standing rings to the two they join
        near = {j for j in range(n) if (i in flat) != (j in flat) and np.linalg.norm(C[i] - C[j]) < 0.5 * (2 * R + (2 * R - 4 * r) * min(max(stretch, 0), 1)) + 1e-6 * R}
        expect(linked[i] == near, f"ring {i} is linked to {sorted(linked[i])}, should be to {sorted(near)}", "linked")
        if i not in flat:
            expect(len(near) == 2, f"standing ring {i} joins {len(near)} rings", "linked")
    pins = [i for i, x in enumerate(names) if e.bodies[x].is_fixed]
    if pinned:
        ext = C.max(0)
        corner = [i for i in flat if close(np.abs(C[i][[0, 2]]), ext[[0, 2]], 1e-6 * R)]
        expect(sorted(pins) == sorted(corner) and len(pins) == len({tuple(np.round(C[i], 6)) for i in corner}), f"fixed rings {pins}, corners {corner}", "pins")
    else:
        expect(not pins, f"fixed rings {pins}", "pins")


def chain(case):
    edge, k, density, steps = case
    e = world()
    names = PROC.create_cube_hinge_chain(e, edge, k, density, "stone")
    if not bookkeeping(e, names, (), density, "stone", None):
        return
    tick()
    expect(len(names) == k and len(e.hinges) == k - 1, f"{len(names)} cubes, {len(e.hinges)} hinges", "count")
    expect([e.bodies[n].is_fixed for n in names] == [True] + [False] * (k - 1), "the first cube is not the only fixed one", "fixed")
    B = [Block(e, n, np.zeros(3), np.eye(3)) for n in names]
    ext = edge * np.sqrt(2)
    for b in B:
        expect(close(b.hi - b.lo, (ext, ext, edge), 1e-9 * edge), f"cube of extent {b.hi - b.lo}", "size")
        expect(close(b.body.mass, density * edge ** 3, 1e-9 * density * edge ** 3), "mass", "size")
    lo, hi = min(b.lo[0] for b in B), max(b.hi[0] for b in B)
    expect(close(lo, -hi, 1e-9 * edge), f"the chain spans {lo}..{hi}", "centre")
    for a, b in itertools.combinations(B, 2):
        expect(separation(a, b) > 0.01 * edge, "cubes touch", "overlap")
    links = {tuple(sorted((h.parent.name, h.child.name))): h for h in e.hinges.values()}
    for a, b in zip(B, B[1:]):
        h = links.get(tuple(sorted((a.n, b.n))))
        if not expect(h is not None, f"{a.n} and {b.n} are not linked", "hinges"):
            continue
        rp, rc, ap, ac, _, _ = sockets(h)
        mid = (a.V.mean(0) + b.V.mean(0)) / 2
        for r, s in ((rp, ap), (rc, ac)):
            expect(close(r, mid, 1e-6 * edge) and abs(abs(s[2]) - 1) < 1e-9, f"hinge at {r} axis {s}, cubes meet at {mid}", "joint")
    if steps:
        API.create_gravity_force(e, "g", 9.81, np.array([0.0, 1.0, 0.0]))
        for n in names:
            API.connect_force(e, n, "g")
        e.params.use_post_stabilization = False
        e.params.max_iterations, e.params.absolute_tolerance, e.params.relative_tolerance = 1000, 1e-11, 0.0
        for _ in range(steps):
            API.simulate(e, 0.001)
        for h in e.hinges.values():
            rp, rc, ap, ac, _, _ = sockets(h)
            expect(np.linalg.norm(rp - rc) < 1e-3 * edge and abs(ap @ ac) > 1 - 1e-6, f"a hinge came apart by {np.linalg.norm(rp - rc)}", "swing")
        for n in names[1:]:
            expect(abs(API.get_position(e, n)[2]) < 1e-6 * edge, "the chain leaves its plane", "swing")
        if k > 1:
            expect(API.get_position(e, names[-1])[1] < -1e-9, "the chain does not fall", "swing")
    observe([list(API.get_position(e, n)) for n in names])


FAMILIES = dict(profile=profile, meshing=meshing, incompatible=incompatible, train=train, mail=mail, chain=chain)


def explore(ctx):
    q = ctx.quick
    prod = itertools.product
    ctx.run("profile", list(prod((0.5, 1.0, 2.0), (7, 8, 12, 15, 28, 40, 60) if q else range(6, 81), (20.0, 14.5, 25.0), (1.0, 10.0))), procs=8)
    Zs = (7, 12, 15, 28)
    ctx.run("meshing", [(a, b, m, 20.0, om, ph, *c) for a, b in prod(Zs, Zs) for m, c in ((1.0, (0.0, 0.0)), (0.5, (3.0, -2.0)))
                        for om in (np.arange(8) * np.pi / 4 + 0.1).tolist() for ph in (np.arange(6 if q else 24) / (6 if q else 24)).tolist()], procs=8)
    ctx.run("incompatible", list(prod([(1.0, 20.0), (2.0, 20.0), (1.0, 14.5), (2.0, 14.5)], repeat=2)), procs=2)
    ctx.run("train", list(prod(range(1, 5) if q else range(1, 9), range(3) if q else range(25), (1.0, 2.5))), procs=8)
    M = [(R, r, c, k, s, p, d) for (R, r), s in (((2.0, 0.5), 0.75), ((2.0, 0.5), 1.0), ((2.0, 0.3), 0.5), ((1.0, 0.1), 0.5), ((1.0, 0.1), 2.0))
         for c, k in prod((1, 2, 3) if q else (1, 2, 3, 4, 5), repeat=2) for p in (True, False) for d in (1.0, 2.5)]
    ctx.run("mail", M, procs=8)
    ctx.run("chain", list(prod((10.0, 0.5), (1, 2, 3, 5), (1.0, 2.5), (0, 5 if q else 40))), procs=8)
