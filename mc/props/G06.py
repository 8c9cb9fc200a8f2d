"""G06 broad phase primitives: axis aligned boxes and the time stamped spatial hash grid."""
import itertools

import numpy as np

import rainbow.geometry.spatial_hashing as SH
from rainbow.geometry.aabb import AABB
from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("All pairs of boxes with corners on the lattice and several enlargements against an interval oracle; every sequence of "
        "insertions over a small alphabet of cells, objects and non-decreasing time stamps, for every choice of the random "
        "offset table up to a constant/linear/colliding family, against a dictionary of cells; every sequence of up to three settings of a grid.")
ASSUMPTIONS = ["the random offset table is enumerated through structured tables (constant, coordinate dependent, all-colliding)",
               "time stamps never decrease"]

R = {}


class Dice:
    """Stands in for np.random.randint while a grid is built (the real table has 1e9 entries)."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.orig = np.random.randint

        def fake(low, high=None, size=None, dtype=int):
            hi = low if high is None else high
            if size is None or np.prod(size, dtype=float) < 1e7:
                return self.orig(low, high, size)
            base = dict(zero=np.array(0), max=np.array(hi - 1), mid=np.array(hi // 2))
            if self.kind in base:
                return np.broadcast_to(base[self.kind], size)
            n = size[0] if np.ndim(size) else size
            col = dict(lin=np.arange(n) % hi, rev=(hi - 1 - np.arange(n)) % hi, mix=(np.arange(n) * 617) % hi)[self.kind]
            shape = tuple(np.ravel(size))
            return np.broadcast_to(col.reshape((-1,) + (1,) * (len(shape) - 1)), shape)
        np.random.randint = fake
        return self

    def __exit__(self, *a):
        np.random.randint = self.orig


def overlap(case):
    a0, a1, b0, b1, bd = case
    A, Bx = AABB(a0, a1), AABB(b0, b1)
    tick()
    e = 2 * bd
    want = all(a0[i] <= b1[i] + e and b0[i] <= a1[i] + e for i in range(3))
    margin = min(abs(a0[i] - b1[i] - e) for i in range(3)), min(abs(b0[i] - a1[i] - e) for i in range(3))
    if bd == 0.0 or min(margin) > 1e-9:
        expect(bool(AABB.is_overlap(A, Bx, bd)) == want, f"overlap of {a0}-{a1} and {b0}-{b1} with {bd} is {want}")
        expect(bool(AABB.is_overlap(Bx, A, bd)) == want, "overlap is not symmetric")
    expect(np.array_equal(A.min_point, a0) and np.array_equal(A.max_point, a1) and np.array_equal(Bx.min_point, b0)
           and np.array_equal(Bx.max_point, b1), "a box was modified by the overlap test")
    observe((want, tuple(np.sign(np.array(a1) - b0)), tuple(np.sign(np.array(b1) - a0)), bd))


def enclose(case):
    pts = [np.array(p, float) for p in case]
    for V in (pts, np.array(pts)):
        A = AABB.create_from_vertices(V)
        tick()
        expect(close(A.min_point, np.min(np.array(pts), axis=0)) and close(A.max_point, np.max(np.array(pts), axis=0)), "box is not tight")
    observe((A.min_point, A.max_point))


def history(case):
    kind, size, ops = case
    with Dice(kind):
        g = SH.HashGird()
    if size:
        g.set_hash_table_size(size)
    box = AABB([0, 0, 0], [1, 1, 1])
    seen = []  # (cell, object, stamp)
    for n, (cell, dt, body) in enumerate(ops):
        stamp = (seen[-1][2] if seen else 1) + dt
        obj = (n, body, box)
        live = [o for c, o, s in seen if c == cell and s == stamp]
        got = list(g.insert(*cell, n, body, box, stamp))
        tick()
        ids = [(o[0], o[1]) for o in got]
        for o in live:
            expect((o[0], o[1]) in ids, f"object {o[:2]} inserted in cell {cell} at the same time is not reported")
        allowed = {(o[0], o[1]) for c, o, s in seen if s == stamp} | {(n, body)}
        expect(set(ids) <= allowed, f"objects of an earlier time stamp are reported: {sorted(set(ids) - allowed)}")
        expect(len(set(ids)) == len(ids), "an object is reported twice")
        seen.append((cell, obj, stamp))
        observe((cell, dt, sorted((a in [o[0] for o in live]) for a, _ in ids)))


def cellhist(case):
    c = SH.HashCell()
    cur, t = [], 0
    for n, dt in enumerate(case):
        t += dt
        if dt > 0:
            cur = []
        c.add(n, t)
        cur.append(n)
        tick()
        expect(list(c.object_list) == cur and c.size == len(cur), f"cell holds {c.object_list}, expected {cur}")
        expect(c.time_stamp == t, "time stamp of the cell")
    observe((tuple(case), len(cur)))


def hashing(case):
    kind, size, cell = case
    with Dice(kind):
        g = SH.HashGird()
    g.set_hash_table_size(size)
    h = g.get_prefect_hash_value(*cell)
    tick()
    expect(isinstance(h, int) and h == g.get_prefect_hash_value(*cell), "hash is not a deterministic integer")
    h2 = g.insert(*cell, 0, 0, AABB([0, 0, 0], [1, 1, 1]), 1)
    expect(len(list(h2)) == 0, "first object in an empty grid reports others")
    observe((kind, size, cell, h))


def cellsize(case):
    V = np.array(case[0], float) * case[1]
    Tr = np.array(case[2])
    e = [np.linalg.norm(V[t[i]] - V[t[(i + 1) % 3]]) for t in Tr for i in range(3)]
    tick()
    expect(close(SH.HashGird.compute_optial_cell_size(V, Tr), 2.2 * np.mean(e)), "cell size is not 2.2 times the mean edge length")
    observe(round(float(np.mean(e)), 6))


def settings(case):
    """Histories of settings of one hash grid, next to a second one that is never set."""
    with Dice("zero"):
        g, other = SH.HashGird(), SH.HashGird()
    start = size, cell = g.hash_table_size, g.cell_size
    for op, x in case:
        if op == "size":
            g.set_hash_table_size(x)
            size = x
        elif op == "more":
            g.increment_hash_table_size(x)
            size += x
        else:
            g.set_cell_size(x)
            cell = x
        tick()
        expect(g.hash_table_size == size and g.cell_size == cell, f"after {case}: table {g.hash_table_size}, cell {g.cell_size}, expected {size}, {cell}")
    expect((other.hash_table_size, other.cell_size) == start, "another grid changed")
    observe((size, cell))


FAMILIES = dict(settings=settings, overlap=overlap, enclose=enclose, history=history, cellhist=cellhist, hashing=hashing, cellsize=cellsize)


def explore(ctx):
    iv = [(0.0, 1.0), (1.0, 2.0), (1.5, 3.0), (0.25, 0.5), (-2.0, -0.5), (1.0, 1.0), (1.25, 1.5)]
    sel = iv if not ctx.quick else iv[:6]
    A = [((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), ((1.0, -2.0, 0.25), (1.5, -0.5, 0.5))]
    ctx.run("overlap", [(a0, a1, tuple(x[0] for x in c), tuple(x[1] for x in c), b) for a0, a1 in A
                        for c in itertools.product(sel, repeat=3) for b in (0.0, 0.1, 0.25, 1.0)], procs=8)
    lat = list(itertools.product((-1, 0, 2.5), repeat=3))
    ctx.run("enclose", [(a, b, c) for a in lat for b in lat[::2] for c in lat[::3]], procs=4)
    cells = [(0, 0, 0), (1, 0, 0), (-1, 2, 0), (1000, 0, 0)]
    ops = [(c, dt, b) for c in cells[:3] for dt in (0, 1) for b in (0,)] + [((1000, 0, 0), 0, 1), ((0, 0, 0), 2, 1)]
    n = 4 if ctx.quick else 5
    for kind, size in (("zero", 0), ("lin", 0), ("max", 1), ("mix", 7)):
        ctx.run("history", [(kind, size, h) for h in itertools.product(ops, repeat=n)], procs=8)
    for n in range(1, 9):
        ctx.run("cellhist", itertools.product((0, 1, 3), repeat=n) if n < 7 else itertools.product((0, 1), repeat=n), procs=4)
    S = [("size", 7), ("size", 1000), ("more", 5), ("more", 12), ("cell", 0.5), ("cell", 2.0)]
    ctx.run("settings", [s for n in range(1, 4) for s in itertools.product(S, repeat=n)], procs=4)
    ctx.run("hashing", [(k, s, c) for k in ("zero", "max", "mid", "lin", "rev", "mix") for s in (1, 7, 1000, 5000)
                        for c in itertools.product((-1001, -1, 0, 3, 1000), repeat=3)], procs=8)
    ctx.run("cellsize", [(V, s, T) for s in (0.01, 1.0, 25.0) for V, T in (
        (((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))),
        (((0, 0, 0), (3, 0, 0), (0, 4, 0)), ((0, 1, 2),)), (((0, 0, 0), (3, 0, 0), (0, 4, 0), (5, 5, 5)), ((0, 1, 2), (3, 1, 0))))])
