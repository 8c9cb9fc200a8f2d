"""D02 elastic forces of soft bodies are the exact gradient of the elastic energy."""
import numpy as np

from mc import soft
from mc.core import close, expect, observe, tick
from mc.groups import mat, octa, rodrigues
from mc.soft import API, MODELS, SOLVER
import rainbow.simulators.prox_soft_bodies.mechanics as MECH

LEVEL = "model_checking"
RULE = ("All combinations of constitutive model x mesh x deformation (rest, rigid motions, stretches, shears, bending, single node "
        "moves along every axis) x material constants; engine forces and energies against an independent dense reference and "
        "against balance, rest and frame indifference laws; strain measures and Cauchy stresses of all stacks of up to three deformation gradients; tabulated materials; inverted elements must be rejected.")
ASSUMPTIONS = ["Poisson ratio below one half", "elements keep a positive volume (others must be rejected)"]
MESHES = dict(tet=soft.TET, skew=soft.SKEW, two=soft.TWO, fan=soft.FAN, beam=soft.beam(2, 2, 2, 1.0, 2.0, 0.5), bar=soft.beam(3, 2, 2, 2.0, 1.0, 1.0))
CONST = [(100.0, 0.3), (1e5, 0.45), (1.0, 0.0), (6.9e5, 0.018)]
ROT = [("id", np.eye(3)), ("r1", rodrigues((1, 2, 3), 0.7)), ("r2", rodrigues((0, 1, 0), np.pi)), ("r3", rodrigues((-1, 1, 0), 2.2)), ("r4", rodrigues((0, 0, 1), np.pi / 2))]


def linear(name):
    return dict(rest=np.eye(3), sx=np.diag([1.3, 1, 1]), sy=np.diag([1, 0.6, 1]), big=np.diag([2.5, 2.0, 1.7]), small=np.eye(3) * 0.4,
                shear=np.array([[1, 0.5, 0], [0, 1, 0], [0.2, 0, 1.0]]), mix=np.array([[1.2, 0.3, -0.2], [0.1, 0.8, 0.4], [-0.3, 0.2, 1.1]]),
                tiny=np.eye(3) + 1e-6 * np.array([[1, 2, 0], [0, -1, 3], [1, 0, 0.5]]), flat=np.diag([1, 1, 0.02]))[name]


LIN = ("rest", "sx", "sy", "big", "small", "shear", "mix", "tiny", "flat")


def deform(x0, T, d):
    k = d[0]
    if k == "lin":
        return x0 @ linear(d[1]).T
    if k == "node":
        x = x0.copy()
        x[d[1] % len(x), d[2]] += d[3]
        return x
    if k == "bend":
        x = x0.copy()
        s = x[:, d[1]]
        x[:, (d[1] + 1) % 3] += 0.2 * s * s
        x[:, (d[1] + 2) % 3] += 0.1 * np.sin(3 * s)
        return x
    raise ValueError(d)


DEF = [("lin", n) for n in LIN] + [("node", n, a, s) for n in range(6) for a in range(3) for s in (0.1, -0.1)] + [("bend", a) for a in range(3)]


def setup(mesh, model, E, nu, where=(0, 0, 0), n=1):
    e = soft.engine()
    API.create_material(e, "stuff")
    API.set_elasticity(e, "stuff", E, nu)
    API.set_constitutive_model(e, "stuff", MODELS[model])
    V, T = MESHES[mesh]
    for i in range(n):
        API.create_soft_body(e, f"b{i}", V + np.array(where) + 5.0 * i, T)
        API.set_material(e, f"b{i}", "stuff")
    return e


def forces(e):
    return SOLVER.compute_elastic_forces(SOLVER.get_position_vector(e), e, {}, False)


def gradient(case):
    mesh, model, (E, nu), d, ri = case
    e = setup(mesh, model, E, nu)
    b = e.bodies["b0"]
    lam, mu = soft.lame(E, nu)
    R, t = ROT[ri][1], np.array([3.0, -1.0, 0.5]) * (ri > 0)
    x = deform(b.x0, b.T, d) @ R.T + t
    if soft.vols(x, b.T).min() <= 1e-9:
        return
    API.set_spatial_coordinates(e, "b0", x)
    f = forces(e)
    tick()
    want = soft.elastic(model, x, b.x0, b.T, lam, mu)
    S = max(np.abs(soft.stress(model, soft.def_grad(x[q], b.x0[q]), lam, mu)).max() for q in b.T) + E * 1e-6
    S *= (np.ptp(b.x0, axis=0).max() ** 2)
    cond = max(np.linalg.cond(soft.def_grad(x[q], b.x0[q])) for q in b.T)
    tol = 1e-9 * (S + E) * cond
    expect(np.abs(f - want).max() <= tol, f"elastic forces\n{f}\nexpected\n{want}", f"force:{model}")
    expect(np.abs(f.sum(axis=0)).max() <= tol, f"elastic forces sum to {f.sum(axis=0)}", f"balance:{model}")
    expect(np.abs(np.cross(x, f).sum(axis=0)).max() <= tol * 10, f"elastic forces exert a torque {np.cross(x, f).sum(axis=0)}", f"torque:{model}")
    if d == ("lin", "rest"):
        expect(np.abs(f).max() <= tol, f"forces at rest: {f}", f"rest:{model}")
    # the discrete energy is the potential of the forces
    en = SOLVER.compute_elastic_energy(e, {}, False)
    expect(abs(en - soft.energy(model, x, b.x0, b.T, lam, mu)) <= 1e-9 * (abs(en) + S + E), f"elastic energy {en}, expected {soft.energy(model, x, b.x0, b.T, lam, mu)}", f"energy:{model}")
    if d[0] != "lin" or d[1] not in ("flat",):
        h = 1e-5
        for node in range(min(len(x), 4)):
            for c in range(3):
                y = x.copy()
                y[node, c] += h
                API.set_spatial_coordinates(e, "b0", y)
                ep = SOLVER.compute_elastic_energy(e, {}, False)
                y[node, c] -= 2 * h
                API.set_spatial_coordinates(e, "b0", y)
                em = SOLVER.compute_elastic_energy(e, {}, False)
                tick()
                expect(abs((ep - em) / (2 * h) + f[node, c]) <= 1e-5 * (S + E), f"force {f[node, c]} on node {node} but the energy changes at rate {(ep - em) / (2 * h)}", f"potential:{model}")
    observe((mesh, model, nu, d, np.round(f / (S + E), 5)), 5)


def indifferent(case):
    """Rigid motions rotate the forces and keep the energy; scaling Young's modulus scales both."""
    mesh, model, (E, nu), d = case
    e = setup(mesh, model, E, nu)
    b = e.bodies["b0"]
    x = deform(b.x0, b.T, d)
    if soft.vols(x, b.T).min() <= 1e-9:
        return
    API.set_spatial_coordinates(e, "b0", x)
    f0, e0 = forces(e), SOLVER.compute_elastic_energy(e, {}, False)
    cond = max(np.linalg.cond(soft.def_grad(x[q], b.x0[q])) for q in b.T)
    tol = 1e-9 * (E + np.abs(f0).max()) * cond
    for name, R in ROT:
        for t in ((0, 0, 0), (10.0, -3.0, 2.0)):
            API.set_spatial_coordinates(e, "b0", x @ R.T + np.array(t))
            f, en = forces(e), SOLVER.compute_elastic_energy(e, {}, False)
            tick()
            expect(np.abs(f - f0 @ R.T).max() <= tol, f"forces are not rotated with the body ({name}, {t})", f"frame:{model}")
            expect(abs(en - e0) <= tol * 10, f"energy changes from {e0} to {en} by a rigid motion ({name}, {t})", f"frame energy:{model}")
    API.set_spatial_coordinates(e, "b0", x)
    API.set_elasticity(e, "stuff", 2.5 * E, nu)
    expect(np.abs(forces(e) - 2.5 * f0).max() <= tol * 3, "forces are not proportional to Young's modulus", f"scale:{model}")
    observe((mesh, model, nu, d, e0 / E), 5)


def several(case):
    """Bodies do not influence each other: forces of a body in a crowd equal those alone."""
    mesh, models, d, const = case
    C = [(100.0 * (i + 1), 0.1 + 0.1 * i) for i in range(3)] if const == "different" else [(100.0, 0.1), (100.0, 0.4), (300.0, 0.1)]
    e = soft.engine()
    want = []
    off = 0
    for i, m in enumerate(models):
        API.create_material(e, f"m{i}")
        API.set_elasticity(e, f"m{i}", *C[i])
        API.set_constitutive_model(e, f"m{i}", MODELS[m])
        V, T = MESHES[mesh[i % len(mesh)]]
        API.create_soft_body(e, f"b{i}", V + 10.0 * i, T)
        API.set_material(e, f"b{i}", f"m{i}")
    en = 0.0
    for i, m in enumerate(models):
        b = e.bodies[f"b{i}"]
        lam, mu = soft.lame(*C[i])
        x = deform(b.x0 - 10.0 * i, b.T, d[i % len(d)]) + 10.0 * i
        if soft.vols(x, b.T).min() <= 1e-9:
            return
        API.set_spatial_coordinates(e, f"b{i}", x)
        want.append(soft.elastic(m, x, b.x0, b.T, lam, mu))
        en += soft.energy(m, x, b.x0, b.T, lam, mu)
    f = forces(e)
    tick()
    expect(close(f, np.vstack(want), 1e-8), "forces of bodies in a world of several bodies", "several")
    got = SOLVER.compute_elastic_energy(e, {}, False)
    expect(abs(got - en) <= 1e-8 * (1 + abs(en)) * 10, f"total elastic energy {got}, expected {en}", "several")
    observe((mesh, models, d, const, en), 5)


def inverted(case):
    """Flat and inverted elements are refused, whatever the other elements look like."""
    mesh, model, el, s = case
    e = setup(mesh, model, 100.0, 0.3)
    b = e.bodies["b0"]
    x = b.x0.copy()
    t = b.T[el % len(b.T)]
    for node in range(4):
        # push the node through the opposite face
        o = [t[i] for i in range(4) if i != node]
        c = x[o].mean(axis=0)
        y = x.copy()
        y[t[node]] = c + s * (x[t[node]] - c)
        if soft.vols(y, b.T).min() > -1e-12 and s < 0:
            continue
        API.set_spatial_coordinates(e, "b0", y)
        bad = False
        try:
            forces(e)
        except RuntimeError:
            bad = True
        tick()
        expect(bad, f"element {t} with volume {soft.vols(y, b.T).min()} accepted", "inverted")
    observe((mesh, model, el, s))


def measures(case):
    """Strain measures and the Cauchy stress that belongs to the second Piola-Kirchhoff stress."""
    names, si, ri = case
    S0 = [np.eye(3), np.diag([1.0, -2.0, 0.5]), np.array([[2.0, 0.3, -1.0], [0.3, 0.0, 0.7], [-1.0, 0.7, 1.0]])][si]
    F = np.array([ROT[(ri + i) % len(ROT)][1] @ linear(n) for i, n in enumerate(names)])
    S = np.array([S0 * (i + 1.0) for i in range(len(F))])
    F0, S1 = F.copy(), S.copy()
    sig = MECH.cauchy_stress_tensor(F, S)
    for f, sc, sg in zip(F, S, sig):
        tick()
        C = MECH.right_cauchy_strain_tensor(f)
        G = MECH.green_strain_tensor(f)
        expect(close(C, f.T @ f, 1e-12), f"right Cauchy tensor of {f}", "measures")
        expect(close(G, (f.T @ f - np.eye(3)) / 2, 1e-12), f"Green strain of {f}", "measures")
        expect(close(sg * np.linalg.det(f), f @ sc @ f.T, 1e-9), f"Cauchy stress of {f}", "measures")
        # the force on a deformed area is the same in both descriptions: sigma (cof F n) = F S n
        expect(close(sg @ (np.linalg.det(f) * np.linalg.inv(f).T), f @ sc, 1e-9), f"Nanson's formula for {f}", "measures")
    expect(np.array_equal(F, F0) and np.array_equal(S, S1), "operand modified", "measures")
    observe((case, np.round(sig, 6).tolist()))


STUFF = ("cartilage", "cortical bone", "cancellous bone", "rubber", "concrete", "copper", "steel", "aluminium", "glass")


def stuff(case):
    """Tabulated materials are physical whatever way their name is written; stiffness from them is positive."""
    name, how = case
    E, nu, rho = MECH.create_material_parameters(name if how is None else getattr(name, how)())
    tick()
    expect((E, nu, rho) == tuple(MECH.create_material_parameters(name)), f"{name} depends on its spelling", "stuff")
    expect(E > 0 and -1 < nu < 0.5 and rho > 0, f"{name}: {(E, nu, rho)}", "stuff")
    lam, mu = MECH.first_lame(E, nu), MECH.second_lame(E, nu)
    expect(close(E, mu * (3 * lam + 2 * mu) / (lam + mu), 1e-12) and close(nu, lam / (2 * (lam + mu)), 1e-12), f"{name}: Lame parameters {lam}, {mu}", "stuff")
    observe((case, E))


FAMILIES = dict(measures=measures, stuff=stuff, gradient=gradient, indifferent=indifferent, several=several, inverted=inverted)


def explore(ctx):
    q = ctx.quick
    cases = [(m, mo, c, d, r) for m in MESHES for mo in MODELS for c in CONST for d in DEF for r in range(len(ROT))]
    ctx.run("gradient", cases[::7] if q else cases, procs=8)
    cases = [(m, mo, c, d) for m in MESHES for mo in MODELS for c in CONST[:2] for d in DEF]
    ctx.run("indifferent", cases[::5] if q else cases, procs=8)
    import itertools
    ctx.run("measures", [(n, si, ri) for k in (1, 2, 3) for n in itertools.product(LIN, repeat=k) for si in range(3) for ri in range(len(ROT))][::3 if q else 1], procs=8)
    ctx.run("stuff", [(n, h) for n in STUFF for h in (None, "upper", "title", "lower")], procs=1)
    ctx.run("several", [(me, ms, ds, c) for me in (("tet",), ("two", "tet"), ("beam", "skew", "fan")) for n in (2, 3)
                        for ms in itertools.product(MODELS, repeat=n) for ds in ((("lin", "mix"), ("bend", 0), ("node", 1, 2, 0.1)), (("node", 0, 0, -0.1), ("lin", "shear"), ("lin", "rest")))
                        for c in ("different", "shared")], procs=8)
    ctx.run("inverted", [(m, mo, el, s) for m in MESHES for mo in MODELS for el in range(3 if q else 8) for s in (-0.1, -1.0)], procs=8)
