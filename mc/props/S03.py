"""S03 parallel contact solvers: independent of the schedule, equal to their serial definition, and solving the contact laws."""
import itertools
import json
import os
import subprocess
import sys
from types import SimpleNamespace as NS

import numpy as np
import networkx as nx
import scipy.sparse as sp

if __name__ != "__main__":
    import mc.sched as sched
import rainbow.simulators.proximal_contact.blocking as BLOCKING
import rainbow.simulators.proximal_contact.prox_solvers as SOLVERS

if __name__ != "__main__":
    from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("All contact topologies of up to 3 (4) contacts over 4 bodies (and tetrahedra of soft bodies) x velocity patterns x friction x scheme. Every "
        "parallel loop is executed under a controlled scheduler in all orders of its iterations while the cells each iteration touches are "
        "recorded: independence of all pairs of iterations covers every interleaving. Sweeps are compared with serial definitions, "
        "converged solutions with the contact laws, and the compiled code on 1..8 threads with the controlled execution.")
ASSUMPTIONS = ["compiled functions are executed as Python code under the scheduler; the compiled versions are compared with it on the listed problems",
               "loops of up to four iterations are permuted completely", "converged solutions are judged on contact graphs without cycles (slow convergence otherwise)"]
SCHEMES = ("gauss_seidel", "parallel_gauss_seidel", "parallel_jacobi", "parallel_jacboi_hybrid")
POS = np.array([[0, 0, 0], [1.0, 0.2, 0], [0.1, 1.1, 0.3], [-0.4, 0.3, 1.2]])
PAIRS = list(itertools.combinations(range(4), 2))
VEL = {"fall": lambda i: (0, -1.0 * i, 0, 0, 0, 0.3 * i), "mix": lambda i: ((1.0, -2.0, 0.5, 0.3, 0, 1.0), (-1.0, 0.5, 1.5, 0, 2.0, 0), (0.5, 1.0, -1.0, 0, 0, -1.0), (0, 0.25, -2.0, 1.0, 1.0, 0))[i],
       "apart": lambda i: tuple(2.0 * POS[i]) + (0, 0, 0), "hit": lambda i: tuple(-2.0 * POS[i]) + (0.1 * i, 0, 0.5)}
MASS = (1.0, 2.0, 0.5, 4.0)


def star(a):
    return np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])


def problem(kind, pairs, vel, fixed):
    """J, WJT, b and contact points of a small system."""
    K = len(pairs)
    if kind == "rigid_body":
        J = np.zeros((4 * K, 24))
        Wd = np.concatenate([np.zeros(6) if i == fixed else np.array([1 / MASS[i]] * 3 + [6.0 / MASS[i]] * 3) for i in range(4)])
        u = np.concatenate([np.zeros(6) if i == fixed else np.array(VEL[vel](i), float) for i in range(4)])
        bodies = [NS(idx=i) for i in range(4)]
        for k, (a, b) in enumerate(pairs):
            n = POS[b] - POS[a]
            n = n / np.linalg.norm(n)
            s = np.cross(n, (0.3, -0.5, 0.8))
            s /= np.linalg.norm(s)
            t = np.cross(n, s)
            p = 0.5 * (POS[a] + POS[b]) + (0.1 * ((k % 3) - 1)) * s + 0.05 * k * t
            for m, sg in ((a, -1), (b, 1)):
                r = p - POS[m]
                for i, d in enumerate((n, s, t)):
                    J[4 * k + i, 6 * m:6 * m + 3] = sg * d
                    J[4 * k + i, 6 * m + 3:6 * m + 6] = sg * np.cross(r, d)
                J[4 * k + 3, 6 * m + 3:6 * m + 6] = sg * n
        cps = [NS(bodyA=bodies[a], bodyB=bodies[b]) for a, b in pairs]
    else:
        # four bodies of two tetrahedra sharing one node: 7 nodes each
        T = np.array([[0, 1, 2, 3], [3, 4, 5, 6]])
        bodies = [NS(idx=i, T=T, offset=7 * i) for i in range(4)]
        J = np.zeros((4 * K, 3 * 28))
        Wd = np.repeat([0.0 if (i // 7 == fixed and i % 7 < 2) else 1.0 / (1 + i % 3) for i in range(28)], 3)
        u = np.concatenate([np.tile(np.array(VEL[vel](i), float)[:3], 7) for i in range(4)])
        cps = []
        for k, (a, b) in enumerate(pairs):
            n = POS[b] - POS[a]
            n = n / np.linalg.norm(n)
            s = np.cross(n, (0.3, -0.5, 0.8))
            s /= np.linalg.norm(s)
            t = np.cross(n, s)
            ta, tb = k % 2, (k // 2) % 2
            w = np.array([0.4, 0.3, 0.2, 0.1])
            for m, tet, sg in ((a, ta, -1), (b, tb, 1)):
                for v, x in zip(T[tet] + 7 * m, w):
                    for i, d in enumerate((n, s, t)):
                        J[4 * k + i, 3 * v:3 * v + 3] = sg * x * d
            cps.append(NS(bodyA=bodies[a], bodyB=bodies[b], idx_tetA=ta, idx_tetB=tb))
    W = sp.diags(Wd)
    J = sp.csr_matrix(J)
    return J, sp.csr_matrix(W.dot(J.T)), J.dot(u), cps


def params(n, tol=0.0):
    return NS(max_iterations=n, absolute_tolerance=tol, relative_tolerance=0.0, nu_reduce=0.7, nu_increase=1.3, too_small_merit_change=1e-13)


def run(case, n, tol=0.0, stats=None):
    kind, pairs, vel, fixed, mu, scheme, friction = case
    J, WJT, b, cps = problem(kind, pairs, vel, fixed)
    e = NS(contact_points=cps, simulator_type=kind, params=params(n, tol))
    mus = np.array([mu * (1 + 0.25 * k) for k in range(len(pairs))])
    x, st = SOLVERS.solve(J, WJT, b.copy(), mus.copy(), getattr(SOLVERS, friction), e, {} if stats is None else stats, stats is not None, scheme=scheme)
    return np.array(x, float), J, WJT, b, mus, cps, st


def schedules(case):
    """Every order of the parallel iterations gives the same bits, and no two iterations conflict."""
    sched.RACES.clear()
    ref = None
    for perm in itertools.permutations(range(4)):
        sched.ORDER[0] = lambda n, p=perm: [i for i in p if i < n] if n <= 4 else [i + 4 * j for j in range((n + 3) // 4) for i in p if i + 4 * j < n]
        sched.LOOPS.clear()
        x = run(case, 3)[0]
        tick()
        if not expect(not sched.RACES, f"{case[5]}: {sched.RACES[:1]}", "race:" + case[5]):
            break
        if ref is None:
            ref = x
        if not expect(np.array_equal(ref, x), f"{case[5]}: order {perm} of the contacts gives {x}, ascending order {ref}", "order:" + case[5]):
            break
        if case[5].startswith("parallel") and perm == (0, 1, 2, 3):
            observe((case[5], tuple(sched.LOOPS)))
    sched.ORDER[0] = None


def prox(friction, z, mu, xn):
    if friction == "prox_origin":
        return np.zeros(3)
    r = mu * max(xn, 0.0)
    n = np.linalg.norm(z)
    return z if n <= r else z * (r / n)


def definition(case):
    """One and more sweeps against the serial definition of the scheme."""
    kind, pairs, vel, fixed, mu, scheme, friction = case
    J, WJT, b, cps = problem(kind, pairs, vel, fixed)
    K = len(pairs)
    mus = np.array([mu * (1 + 0.25 * k) for k in range(K)])
    A = (J @ WJT).toarray()
    d = np.diag(A).copy()
    d[d == 0] = 1.0
    r = 0.1 / d
    x = np.zeros(4 * K)
    sol, last = x.copy(), np.inf
    order = list(range(K))
    if scheme == "parallel_gauss_seidel":
        order = [s // 4 for g in BLOCKING.greedy_graph_coloring(BLOCKING.build_contact_graph(cps, kind)).values() for s, _ in g]
    for it in range(1, 5):
        old = x.copy()
        z_all = x - r * (A @ x + b)
        for k in order:
            B = slice(4 * k, 4 * k + 4)
            z = (x - r * (A @ x + b))[B] if "gauss" in scheme else z_all[B]
            new_n = max(0.0, z[0])
            lim = old[4 * k] if scheme == "parallel_jacobi" else new_n
            f = prox(friction, z[1:], mus[k], lim)
            x[4 * k] = new_n
            x[4 * k + 1:4 * k + 4] = f
        merit = np.abs(x - sol).max() if K else 0.0
        if merit > last:
            r = r * 0.7
            x = sol.copy()
        else:
            if last - merit < 1e-13:
                r = r * 1.3
            last = merit
            sol = x.copy()
        got = run(case, it)[0]
        tick()
        expect(close(got, sol, 1e-10), f"{scheme} after {it} sweeps: {got}, by definition {sol}", "sweep:" + scheme)
    observe((scheme, sol), 4)


def solution(case):
    kind, pairs, vel, fixed, mu, scheme, friction = case
    st = {}
    x, J, WJT, b, mus, cps, st = run(case, 1500, 1e-9, st)
    tick()
    pre = scheme + "_"
    v = J @ (WJT @ x) + b
    tol = 0.02      # approach velocities are about 2
    for k in range(len(pairs)):
        l, f = x[4 * k], x[4 * k + 1:4 * k + 4]
        vn, vf = v[4 * k], v[4 * k + 1:4 * k + 4]
        expect(l >= 0, f"{scheme}: contact {k} pulls with {l}", "pull:" + scheme)
        expect(vn >= -tol, f"{scheme}: contact {k} still approaches with {vn}", "approach:" + scheme)
        expect(l * max(vn, 0) < tol * max(1, l), f"{scheme}: contact {k} separates with {vn} under impulse {l}", "complementarity:" + scheme)
        lim = 0.0 if friction == "prox_origin" else mus[k] * l
        expect(np.linalg.norm(f) <= lim * (1 + 1e-6) + 1e-6, f"{scheme}: friction {f} beyond {lim}", "cone:" + scheme)
        if friction == "prox_origin":
            continue
        if np.linalg.norm(f) < lim - 0.01:
            expect(np.abs(vf).max() < 2 * tol, f"{scheme}: contact {k} slides with {vf} although friction {f} is below the limit {lim}", "stick:" + scheme)
        elif lim > 1e-3:
            c = vf @ f
            expect(c <= tol * max(1.0, np.linalg.norm(f)), f"{scheme}: friction {f} does not oppose sliding {vf}", "oppose:" + scheme)
    observe((case[1:5], x, st[pre + "iterations"]), 3)


COMPILED = [("rigid_body", ((0, 1), (1, 2), (2, 3), (0, 3)), "hit", None, 0.5), ("rigid_body", ((0, 1), (0, 2), (0, 3)), "fall", 0, 0.25),
            ("rigid_body", ((0, 1), (2, 3), (1, 2)), "mix", 3, 0.5), ("soft_body", ((0, 1), (1, 2), (2, 3), (0, 1)), "hit", 0, 0.5)]


def compiled(case):
    """The compiled code on a number of threads computes what the scheduler executes."""
    threads, = case
    env = dict(os.environ, NUMBA_NUM_THREADS=str(threads), OMP_NUM_THREADS=str(threads))
    env.pop("NUMBA_DISABLE_JIT", None)
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__)], env=env, capture_output=True, text=True)
    tick()
    if not expect(p.returncode == 0, f"compiled solvers fail on {threads} threads: {p.stderr.strip().splitlines()[-1:]}", f"compiled:{threads}"):
        return
    out = json.loads(p.stdout.strip().splitlines()[-1])
    i = 0
    for prob in COMPILED:
        for scheme in SCHEMES:
            x = run(prob + (scheme, "prox_sphere"), 40)[0]
            expect(close(np.array(out[i]), x, 1e-8), f"{scheme} on {threads} threads gives {out[i]}, the scheduler {x} for {prob}", "conformance:" + scheme)
            tick()
            i += 1


FAMILIES = dict(schedules=schedules, definition=definition, solution=solution, compiled=compiled)


def topologies(k):
    return itertools.product(PAIRS, repeat=k)


def explore(ctx):
    q = ctx.quick
    ctx.run("compiled", [(n,) for n in ((1, 4) if q else (1, 2, 3, 8))], procs=4)
    top = [t for k in (1, 2, 3) for t in topologies(k)]
    four = list(topologies(4))[::13 if q else 1]
    small = [t for i, t in enumerate(top) if len(t) < 3 or i % 3 == 0] if q else top
    trees = [t for t in top if len(set(t)) == len(t) and nx.is_forest(nx.Graph(list(t)))]
    ctx.run("schedules", [(kind, t, "hit", f, 0.5, s, fr) for kind, f in (("rigid_body", None), ("rigid_body", 0), ("soft_body", 1)) for t in small[::2] + four[::4] for s in SCHEMES
                          for fr in ("prox_sphere",)], procs=8)
    ctx.run("definition", [(kind, t, v, f, mu, s, fr) for kind, f in (("rigid_body", None), ("rigid_body", 0), ("soft_body", 1)) for t in (small[::2] + four[::3] if q else top + four)
                           for v in (("mix", "hit") if q else ("fall", "mix", "apart", "hit")) for mu, fr in ((0.5, "prox_sphere"), (0.5, "prox_origin")) for s in SCHEMES], procs=8)
    ctx.run("solution", [("rigid_body", t, v, f, mu, s, fr) for f in (None, 0) for t in (trees[::2] if q else trees) for v in (("hit",) if q else ("mix", "hit"))
                         for mu, fr in ((0.2, "prox_sphere"), (0.5, "prox_origin")) for s in SCHEMES], procs=8)


if __name__ == "__main__":
    res = []
    for prob in COMPILED:
        for scheme in SCHEMES:
            res.append(run(prob + (scheme, "prox_sphere"), 40)[0].tolist())
    print(json.dumps(res))
