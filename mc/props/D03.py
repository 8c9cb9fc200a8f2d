"""D03 mass, damping, gravity, traction and boundary conditions of soft bodies."""
import itertools

import numpy as np

from mc import soft
from mc.core import close, expect, observe, tick
from mc.groups import rodrigues
from mc.props.D02 import MESHES, deform
from mc.soft import API, SOLVER
import rainbow.simulators.prox_soft_bodies.types as TYPES

LEVEL = "model_checking"
RULE = ("All worlds of one to three bodies over six meshes x densities x viscosities x lumped or consistent matrices x order of the "
        "set-up calls; mass matrix, inverse, damping, gravity and traction forces and energies against dense references; element arrays, their products and prescribed nodes against dense matrices; instances of one mesh in different sizes that share a material or not; all "
        "half-space and ball selections of boundary nodes and triangles against a geometric oracle.")
ASSUMPTIONS = ["densities are positive"]
NAMES = sorted(MESHES)
ORD = list(itertools.permutations(("rho", "c", "mat")))


def world(spec, order=0, lumped=True):
    """spec: list of (mesh, rho, c)."""
    e = soft.engine()
    for i, (m, rho, c) in enumerate(spec):
        V, T = MESHES[m]
        API.create_soft_body(e, f"b{i}", V + np.array([6.0 * i, -i, 0]), T)
        e.bodies[f"b{i}"].is_lumped = lumped
        API.create_material(e, f"m{i}")
        for what in ORD[order]:
            if what == "rho":
                API.set_mass_density(e, f"m{i}", rho)
            elif what == "c":
                API.set_viscosity(e, f"m{i}", c)
            else:
                API.set_material(e, f"b{i}", f"m{i}")
    return e


def blocks(e, f):
    n = e.number_of_nodes
    M = np.zeros((n, n))
    for b in e.bodies.values():
        M[b.offset:b.offset + len(b.x), b.offset:b.offset + len(b.x)] = f(b)
    return M


def inertia(case):
    spec, order, lumped = case
    e = world(spec, order, lumped)
    par = {f"b{i}": s for i, s in enumerate(spec)}
    n = e.number_of_nodes
    expect(n == sum(len(MESHES[s[0]][0]) for s in spec), f"{n} nodes", "nodes")
    M = SOLVER.compute_mass_matrix(e, {}, False).toarray()
    tick()
    want = np.kron(blocks(e, lambda b: soft.mass(b.x0, b.T, par[b.name][1], lumped)), np.eye(3))
    S = max(s[1] for s in spec)
    expect(np.abs(M - want).max() <= 1e-10 * S, "mass matrix", "mass")
    W = SOLVER.compute_inverse_mass_matrix(e, {}, False).toarray()
    tick()
    expect(np.abs(W @ want - np.eye(3 * n)).max() <= 1e-8, "W is not the inverse of the mass matrix", "inverse")
    # damping and gravity
    u = np.array([[np.sin(3 * i + j) for j in range(3)] for i in range(n)])
    for un in (u, np.tile([1.0, -2.0, 0.5], (n, 1)), np.zeros((n, 3))):
        fd = SOLVER.compute_damping_forces(un, e, {}, False)
        tick()
        ref = -blocks(e, lambda b: soft.mass(b.x0, b.T, par[b.name][2], lumped)) @ un
        expect(close(fd, ref, 1e-10), f"damping forces {fd[:3]}, expected {ref[:3]}", "damping")
    for i in range(len(spec)):
        API.set_gravity(e, f"b{i}", (0.5 * i, -9.82 + i, 1.0))
    fg = SOLVER.compute_external_forces(e, {}, False)
    for i, b in enumerate(e.bodies.values()):
        ref = soft.node_mass(b.x0, b.T, spec[i][1])[:, None] * np.array([0.5 * i, -9.82 + i, 1.0])
        expect(close(fg[b.offset:b.offset + len(b.x)], ref, 1e-10), f"gravity forces on {b.name}", "gravity")
    # energies
    for i, b in enumerate(e.bodies.values()):
        API.set_velocity(e, b.name, np.array([1.0, 2.0 * i, -1.0]))
    ek = SOLVER.compute_kinetic_energy(e, {}, False)
    ep = SOLVER.compute_potential_energy(e, {}, False)
    tick()
    mk = mp = 0.0
    for i, b in enumerate(e.bodies.values()):
        m = soft.node_mass(b.x0, b.T, spec[i][1])
        mk += m.sum() * (2.0 + 4.0 * i * i) / 2
        mp -= (m[:, None] * b.x).sum(axis=0) @ np.array([0.5 * i, -9.82 + i, 1.0])
    expect(abs(ek - mk) <= 1e-9 * (1 + mk), f"kinetic energy {ek}, expected {mk}", "kinetic")
    expect(abs(ep - mp) <= 1e-9 * (1 + abs(mp)), f"potential energy {ep}, expected {mp}", "potential")
    observe((spec, lumped, mk, mp, np.round(np.diag(M)[::3], 6)))


def change(case):
    """Parameters may be changed at any time, bodies may share materials: forces follow the current parameters."""
    ops, two = case
    e = soft.engine()
    for i in range(2 if two else 1):
        V, T = MESHES[("two", "tet")[i]]
        API.create_soft_body(e, f"b{i}", V + 6.0 * i, T)
    mats = dict(p=[1000, 0.0], q=[1000, 0.0])
    for m in mats:
        API.create_material(e, m)
    of = {}
    for op in ops:
        if op[0] == "rho":
            API.set_mass_density(e, op[1], op[2])
            mats[op[1]][0] = op[2]
        elif op[0] == "c":
            API.set_viscosity(e, op[1], op[2])
            mats[op[1]][1] = op[2]
        else:
            if op[1] not in e.bodies:
                return
            API.set_material(e, op[1], op[2])
            of[op[1]] = op[2]
        tick()
    par = {n: mats[of[n]] if n in of else [1000, 0] for n in e.bodies}
    M = SOLVER.compute_mass_matrix(e, {}, False).toarray()[::3, ::3]
    expect(close(M, blocks(e, lambda b: soft.mass(b.x0, b.T, par[b.name][0])), 1e-10), f"mass {M.sum()} does not follow the density after {ops}", "stale mass")
    u = np.array([[np.sin(3 * i + j) for j in range(3)] for i in range(e.number_of_nodes)])
    fd = SOLVER.compute_damping_forces(u, e, {}, False)
    expect(close(fd, -blocks(e, lambda b: soft.mass(b.x0, b.T, par[b.name][1])) @ u, 1e-10), f"damping does not follow the viscosity after {ops}", "stale damping")
    fg = SOLVER.compute_external_forces(e, {}, False)
    want = np.vstack([soft.node_mass(b.x0, b.T, par[b.name][0])[:, None] * b.gravity for b in e.bodies.values()])
    expect(close(fg, want, 1e-10), "gravity does not follow the density", "stale gravity")
    observe(([par[n] for n in e.bodies],))


def instances(case):
    """Bodies made from the same mesh in different sizes and poses, sharing a material or not."""
    mesh, sizes, shared, lumped, order = case
    e = soft.engine()
    V, T = MESHES[mesh]
    G = [rodrigues((1, 2, 3), 0.9 * i) * s for i, s in enumerate(sizes)]
    par = {}
    for i in order:
        API.create_soft_body(e, f"b{i}", V @ G[i].T + np.array([6.0 * i, -i, 0]), T)
        e.bodies[f"b{i}"].is_lumped = lumped[i]
        m = "m0" if shared else f"m{i}"
        if m not in e.materials:
            API.create_material(e, m)
        par[f"b{i}"] = (3.0, 2.0, 1e3) if shared else (1.0 + i, 0.5 * i, 1e3 * (i + 1))
        API.set_mass_density(e, m, par[f"b{i}"][0])
        API.set_viscosity(e, m, par[f"b{i}"][1])
        API.set_elasticity(e, m, par[f"b{i}"][2], 0.3)
        API.set_constitutive_model(e, m, API.SVK)
        API.set_material(e, f"b{i}", m)
    n = e.number_of_nodes
    at = lambda b: slice(b.offset, b.offset + len(b.x))
    want = np.kron(blocks(e, lambda b: soft.mass(b.x0, b.T, par[b.name][0], b.is_lumped)), np.eye(3))
    for k in range(2):  # a second assembly gives the same
        M = SOLVER.compute_mass_matrix(e, {}, False).toarray()
        W = SOLVER.compute_inverse_mass_matrix(e, {}, False).toarray()
        tick()
        expect(close(M, want, 1e-10), f"mass matrix of instances of {mesh}, off by {np.abs(M - want).max()}", "instances:mass")
        expect(np.abs(W @ want - np.eye(3 * n)).max() <= 1e-8, "inverse mass matrix of instances", "instances:inverse")
    u = np.array([[np.sin(3 * i + j) for j in range(3)] for i in range(n)])
    x = np.vstack([deform(b.x, b.T, ("lin", "mix" if i else "sx")) for i, b in enumerate(e.bodies.values())])
    fd, fe, fg = SOLVER.compute_damping_forces(u, e, {}, False), SOLVER.compute_elastic_forces(x, e, {}, False), SOLVER.compute_external_forces(e, {}, False)
    for b in e.bodies.values():
        rho, c, E = par[b.name]
        expect(close(fd[at(b)], -soft.mass(b.x0, b.T, c, b.is_lumped) @ u[at(b)], 1e-10), f"damping forces on instance {b.name}", "instances:damping")
        expect(close(fg[at(b)], soft.node_mass(b.x0, b.T, rho)[:, None] * b.gravity, 1e-10), f"gravity forces on instance {b.name}", "instances:gravity")
        ref = soft.elastic("SVK", x[at(b)], b.x0, b.T, *soft.lame(E, 0.3))
        expect(close(fe[at(b)], ref, 1e-7 * (1 + np.abs(ref).max())), f"elastic forces on instance {b.name}", "instances:elastic")
    observe((case, want.sum()))


PHI = [(k, a, s, o) for k in ("half",) for a in range(3) for s in (1, -1) for o in (-0.75, -0.25, 0.0, 0.3, 0.5, 1.0)] + \
      [("ball", r, c, 0) for r in (0.1, 0.6, 1.0, 3.0) for c in range(3)]


def phi_of(p):
    if p[0] == "half":
        return lambda x: p[2] * x[p[1]] - p[3]
    c = [np.zeros(3), np.array([1.0, 0, 0]), np.array([0.25, 0.5, 0.25])][p[2]]
    return lambda x: np.linalg.norm(x - c) - p[1]


def conditions(case):
    mesh, p, d, load = case
    e = soft.engine()
    V, T = MESHES[mesh]
    API.create_soft_body(e, "other", V + 9.0, T)
    API.create_soft_body(e, "b", V, T)
    API.set_material(e, "b", "default")
    API.set_material(e, "other", "default")
    b = e.bodies["b"]
    phi = phi_of(p)
    x = deform(b.x0, b.T, d) @ rodrigues((1, 1, 0), 0.5).T + 1.0
    API.set_spatial_coordinates(e, "b", x)  # conditions are selected in material coordinates, whatever the shape now
    sel = [i for i in range(len(b.x0)) if phi(b.x0[i]) <= 0]
    API.create_dirichlet_conditions(e, "b", phi)
    tick()
    expect(sorted(c.idx for c in b.dirichlet_conditions) == sel, f"Dirichlet nodes {sorted(c.idx for c in b.dirichlet_conditions)}, expected {sel}", "dirichlet")
    expect(all(np.array_equal(c.value, b.x0[c.idx]) for c in b.dirichlet_conditions) and not e.bodies["other"].dirichlet_conditions, "Dirichlet values", "dirichlet")
    L = np.array(load, float)
    API.create_traction_conditions(e, "b", phi, L)
    L[:] = 77.0
    tris = [t for t in soft.boundary(b.T).values() if all(i in sel for i in t)]
    expect(sorted(tuple(sorted((c.i, c.j, c.k))) for c in b.traction_conditions) == sorted(tuple(sorted(t)) for t in tris), "loaded triangles", "triangles")
    f = SOLVER.compute_traction_forces(SOLVER.get_position_vector(e), e, {}, False)
    tick()
    want = soft.traction(x, tris, [load] * len(tris))
    expect(close(f[b.offset:b.offset + len(x)], want, 1e-10), f"traction forces {f[b.offset:b.offset + len(x)]}, expected {want}", "traction")
    expect(not f[:b.offset].any(), "traction on another body", "traction")
    # a second load adds up
    API.create_traction_conditions(e, "b", phi, np.array([0.0, 0.0, -1.0]))
    f2 = SOLVER.compute_traction_forces(SOLVER.get_position_vector(e), e, {}, False)
    expect(close(f2[b.offset:b.offset + len(x)], want + soft.traction(x, tris, [(0, 0, -1.0)] * len(tris)), 1e-10), "two loads on the same triangles", "traction")
    observe((mesh, p, d, len(sel), len(tris), want), 5)


def arrays(case):
    """Element arrays stand for the assembled matrix; prescribed values are enforced on exactly the chosen nodes."""
    mesh, lumped, seed, fixed, fmt = case
    V, T = MESHES[mesh]
    n = len(V)
    A = ((np.arange(len(T) * 144) * (2 * seed + 3) // 2) % 7 - 3.0).reshape(len(T), 4, 4, 3, 3)
    if lumped:
        A *= np.eye(4)[None, :, :, None, None]
    D = np.zeros((3 * n, 3 * n))
    for e, t in enumerate(T):
        for i in range(4):
            for j in range(4):
                D[3 * t[i]:3 * t[i] + 3, 3 * t[j]:3 * t[j] + 3] += A[e, i, j]
    keep = A.copy()
    x = ((np.arange(3 * n) * (seed + 2)) % 9 - 4.0).reshape(n, 3)
    U = SOLVER.ElementArrayUtil
    expect(np.array_equal(U.prod_mat_vec(T, A, x), (D @ x.ravel()).reshape(n, 3)), "product with an N-by-3 array", "product")
    expect(np.array_equal(U.prod_mat_vec(T, A, x.ravel()), D @ x.ravel()), "product with a vector", "product")
    S = U.assembly_csr(n, T, A)
    expect(S.shape == D.shape and np.array_equal(S.toarray(), D), "assembled matrix", "assembly")
    expect(np.array_equal(A, keep), "element array modified", "assembly")
    tick(3)
    M, b = (S.copy() if fmt == "csr" else S.tolil() if fmt == "lil" else D.copy()), x.ravel().copy()
    val = {i: np.array([i + 1.0, -2.0 * i - seed, 0.5]) for i in fixed}
    SOLVER.Native.apply_dirichlet_conditions([TYPES.DirichletCondition(i, v) for i, v in val.items()], M, b)
    tick()
    M = M if fmt == "dense" else M.toarray()
    W, c = D.copy(), x.ravel().copy()
    for i, v in val.items():
        W[3 * i:3 * i + 3] = 0
        W[3 * i:3 * i + 3, 3 * i:3 * i + 3] = np.eye(3)
        c[3 * i:3 * i + 3] = v
    expect(np.array_equal(M, W) and np.array_equal(b, c), f"system after prescribing the nodes {fixed}", "dirichlet")
    observe((case, float(np.abs(D).sum())))


FAMILIES = dict(arrays=arrays, instances=instances, inertia=inertia, change=change, conditions=conditions)


def explore(ctx):
    q = ctx.quick
    base = [(m, rho, c) for m in NAMES for rho, c in ((1.0, 0.0), (1000.0, 2.5), (0.3, 100.0))]
    specs = [(a,) for a in base] + [(base[i], base[(i * 7 + 4) % len(base)]) for i in range(len(base))] + \
            [(base[i], base[(i * 5 + 1) % len(base)], base[(i * 11 + 2) % len(base)]) for i in range(len(base))]
    ctx.run("inertia", [(s, o, l) for s in specs for o in range(6) for l in (True, False)][:: 3 if q else 1], procs=8)
    ops = [("rho", "p", 5.0), ("rho", "p", 0.25), ("rho", "q", 7.0), ("c", "p", 3.0), ("c", "q", 0.5), ("mat", "b0", "p"), ("mat", "b0", "q"), ("mat", "b1", "p")]
    ctx.run("change", [(h, two) for n in range(1, 4 if q else 5) for h in itertools.product(ops, repeat=n) for two in (False, True)], procs=8)
    D = [("lin", "rest"), ("lin", "mix"), ("bend", 0), ("node", 1, 2, 0.1)]
    ctx.run("conditions", [(m, p, d, l) for m in NAMES for p in PHI for d in D for l in ((1.0, 0, 0), (0.5, -2.0, 3.0))], procs=8)
    ctx.run("arrays", [(m, l, sd, f, fm) for m in NAMES for l in (False, True) for sd in range(1, 3 if q else 6) for k in (0, 1, 2) for f in itertools.permutations(range(min(len(MESHES[m][0]), 4 if q else 8)), k)
                       for fm in ("csr", "lil", "dense")], procs=8)
    ctx.run("instances", [(m, z, sh, l, o) for m in NAMES for k in (2, 3) for z in itertools.product((0.5, 1.0, 2.0), repeat=k) for sh in (False, True)
                          for l in ((True,) * k, (False,) * k, (True, False, True)[:k]) for o in (tuple(range(k)), tuple(range(k))[::-1])][:: 5 if q else 1], procs=8)
