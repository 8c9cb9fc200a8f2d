"""S01 contact graphs and colourings are valid for every graph and every outcome of the random choices."""
import itertools
from types import SimpleNamespace as NS

import networkx as nx
import numpy as np

import rainbow.simulators.proximal_contact.blocking as B
from mc.core import expect, observe, tick

LEVEL = "model_checking"
RULE = ("Contact graphs: all assignments of up to 4 contacts to pairs of 4 bodies (rigid) and to tetrahedra of meshes with shared nodes, faces "
        "and edges (soft). Greedy colouring: all labelled graphs up to 6 nodes. Random colouring: all labelled graphs up to 5 nodes (6 with at most 6 edges), "
        "all outcomes of every random choice (depth first over choice points) for iteration limits 1..3.")
ASSUMPTIONS = ["random outcomes are drawn from the global numpy generator (choice, randint, rand, permutation, shuffle are intercepted)"]


class Oracle:
    """Replays a sequence of choices; beyond its end the first option is taken and recorded."""

    def __init__(self, path):
        self.path, self.arity = list(path), []

    def pick(self, n):
        k = len(self.arity)
        self.arity.append(n)
        if k >= len(self.path):
            self.path.append(0)
        return self.path[k]

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if np.isscalar(a) else list(a)
        if size is not None:
            return np.array([a[self.pick(len(a))] if len(a) > 1 else a[0] for _ in range(int(np.prod(size)))]).reshape(size)
        return a[self.pick(len(a))] if len(a) > 1 else a[0]

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        return self.choice(list(range(lo, hi)), size)

    def rand(self):
        return (0.0, 0.5, 0.999)[self.pick(3)]

    def permutation(self, a):
        a = list(range(a)) if np.isscalar(a) else list(a)
        out = []
        while a:
            out.append(a.pop(self.pick(len(a)) if len(a) > 1 else 0))
        return np.array(out)

    def shuffle(self, a):
        a[:] = self.permutation(a)

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in ("choice", "randint", "rand", "random", "permutation", "shuffle")}
        for n in ("choice", "randint", "rand", "permutation", "shuffle"):
            setattr(np.random, n, getattr(self, n))
        np.random.random = lambda *a: self.rand()
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def graph(n, mask):
    G = nx.Graph()
    G.add_nodes_from(np.arange(n))
    E = [e for i, e in enumerate(itertools.combinations(range(n), 2)) if mask >> i & 1]
    G.add_edges_from(E)
    return G, E


def judge(n, E, groups, what):
    seen = {}
    for c, members in groups.items():
        for m in members:
            expect(m not in seen, f"{what}: contact {m} appears twice", what + ":twice")
            seen[m] = c
    expect(sorted(seen) == list(range(n)), f"{what}: contacts {sorted(seen)} of {n} are coloured", what + ":missing")
    for a, b in E:
        expect(seen.get(a) != seen.get(b), f"{what}: neighbours {a}, {b} both have colour {seen.get(a)}", what + ":improper")


def greedy(case):
    n, mask = case
    G, E = graph(n, mask)
    groups = B.greedy_graph_coloring(G)
    tick()
    blocks = {}
    for c, bl in groups.items():
        blocks[c] = []
        for s, e in bl:
            expect(s % 4 == 0 and e == s + 4, f"block ({s}, {e})", "block")
            blocks[c].append(s // 4)
    judge(n, E, blocks, "greedy")
    expect(sorted(G.nodes()) == list(range(n)) and G.number_of_edges() == len(E), "the graph was modified", "greedy:graph")
    observe({c: sorted(b) for c, b in blocks.items()})


def random(case):
    n, mask, iters = case
    G, E = graph(n, mask)
    path, leaves = [], 0
    while True:
        with Oracle(path) as o:
            groups = B.random_graph_coloring(G, max_iter=iters)
        tick()
        leaves += 1
        groups = {int(c): [int(k) for k in v] for c, v in groups.items()}
        judge(n, E, groups, "random")
        observe((groups,))
        # next path in depth first order
        path = o.path[:len(o.arity)]
        while path and path[-1] == o.arity[len(path) - 1] - 1:
            path.pop()
        if not path:
            break
        path[-1] += 1
    observe((n, mask, leaves))


def rigid_graph(case):
    bodies = [NS(idx=i) for i in range(5)]
    cps = [NS(bodyA=bodies[a], bodyB=bodies[b]) for a, b in case]
    G = B.build_contact_graph(cps, "rigid_body")
    tick()
    want = {(i, j) for i, j in itertools.combinations(range(len(case)), 2) if set(case[i]) & set(case[j])}
    got = {tuple(sorted((int(a), int(b)))) for a, b in G.edges()}
    expect(sorted(int(k) for k in G.nodes()) == list(range(len(case))), f"nodes {list(G.nodes())}", "nodes")
    expect(got == want, f"contacts {case}: edges {got}, expected {want}", "edges:rigid")
    observe(sorted(got))


# bodies with tetrahedra: T0 and T1 share a face, T0 and T2 one node, T0 and T3 nothing
TETS = np.array([[0, 1, 2, 3], [1, 2, 3, 4], [3, 5, 6, 7], [8, 9, 10, 11]])


def soft_graph(case):
    cps_, = case
    bodies = [NS(idx=i, T=TETS, offset=12 * i) for i in range(3)]
    cps = [NS(bodyA=bodies[a], bodyB=bodies[b], idx_tetA=s, idx_tetB=t) for a, b, s, t in cps_]
    G = B.build_contact_graph(cps, "soft_body")
    tick()
    nodes = [{(a, int(v)) for v in TETS[s]} | {(b, int(v)) for v in TETS[t]} for a, b, s, t in cps_]
    want = {(i, j) for i, j in itertools.combinations(range(len(cps_)), 2) if nodes[i] & nodes[j]}
    got = {tuple(sorted((int(a), int(b)))) for a, b in G.edges()}
    expect(got == want and len(G) == len(cps_), f"contacts {cps_}: edges {got}, expected {want}", "edges:soft")
    observe(sorted(got))


def unknown(case):
    bodies = [NS(idx=i) for i in range(3)]
    tick()
    try:
        B.build_contact_graph([NS(bodyA=bodies[0], bodyB=bodies[1])] * case[0], "cloth")
    except ValueError:
        return
    expect(False, "an unknown simulator type is accepted", "type")


FAMILIES = dict(greedy=greedy, random=random, rigid_graph=rigid_graph, soft_graph=soft_graph, unknown=unknown)


def explore(ctx):
    q = ctx.quick
    ctx.run("unknown", [(1,), (2,)])
    ctx.run("greedy", [(n, m) for n in range(0, 7) for m in range(1 << n * (n - 1) // 2)], procs=8)
    sparse = [m for m in range(1024) if bin(m).count("1") <= (5 if q else 7)]
    cases = [(n, m, it) for n in range(0, 5) for m in range(1 << n * (n - 1) // 2) for it in ((1, 2) if n == 4 else (1, 2, 3))]
    cases += [(5, m, 1) for m in range(1024)] + [(5, m, 2) for m in sparse]
    if not q:
        cases += [(4, m, 3) for m in range(63)] + [(6, m, 1) for m in range(1 << 15) if bin(m).count("1") <= 6]
    ctx.run("random", cases, procs=8)
    pairs = list(itertools.combinations(range(4), 2)) + [(1, 0), (3, 2), (2, 1)]
    ctx.run("rigid_graph", [c for k in range(0, 4 if q else 5) for c in itertools.product(pairs, repeat=k)], procs=8)
    one = [(a, b, s, t) for a, b in ((0, 1), (1, 0), (1, 2), (0, 2)) for s in range(4) for t in range(4)]
    two = [((x, y),) for x in one for y in one]
    three = [((x, y, z),) for x in one[::5] for y in one[::3] for z in one[:: 7 if q else 2]]
    ctx.run("soft_graph", two + three, procs=8)
