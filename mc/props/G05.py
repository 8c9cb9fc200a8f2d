"""G05 k-DOP bounding volume hierarchies."""
import itertools

import numpy as np

import rainbow.geometry.kdop as KDOP
import rainbow.geometry.kdop_bvh as BVH
from mc.core import close, expect, observe, tick
from mc.groups import mat, octa

LEVEL = "model_checking"
RULE = ("Every number of elements up to the bound x every chunk size x both slab sets x envelopes x element types, every pair of two such trees over a lattice of offsets, and every sequence of refits to "
        "other placements up to depth 3; the reported pairs are compared with all pairs of elements.")
ASSUMPTIONS = ["3 (axes) and 4 (diagonals) slab directions, the ones the library defines", "borderline pairs whose slabs meet within 1e-9 are not judged"]
DIRS = {3: np.eye(3), 4: np.array([[1, 1, 1], [1, 1, -1], [1, -1, 1], [1, -1, -1]], float)}


def strip(n, width=3):
    """n elements along a bent strip, with gaps and a vertical wave"""
    V, T = [], []
    for i in range(n):
        c = np.array([1.5 * i, 0.4 * (i % 3), 0.3 * ((i * 7) % 5)])
        base = [(0, 0, 0), (1, 0.2, 0.1), (0.3, 1, -0.2), (0.2, 0.4, 0.9)][:width]
        T.append([len(V) + k for k in range(width)])
        V += [c + np.array(b, float) for b in base]
    return np.array(V), np.array(T)


def slabs(P, K, env):
    d = P @ DIRS[K].T
    return d.min(0) - env, d.max(0) + env


def brute(VA, TA, VB, TB, K, env):
    sure, maybe = set(), set()
    A = [slabs(VA[t], K, env) for t in TA]
    B = [slabs(VB[t], K, env) for t in TB]
    for i, (al, au) in enumerate(A):
        for j, (bl, bu) in enumerate(B):
            g = max((bl - au).max(), (al - bu).max())
            if g < -1e-9:
                sure.add((i, j))
            elif g < 1e-9:
                maybe.add((i, j))
    return sure, maybe


def place(V, k):
    q = octa()[(5 * k) % 48]
    return V @ mat(q).T + np.array([[0, 0, 0], [0.7, -0.2, 0.4], [50, 0, 0], [-1.1, 0.9, 0.0]][k % 4], float) * 1.0 + 0.1 * k


def check(tag, a, b, VA, TA, VB, TB, K, env):
    got = [(int(x), int(y)) for x, y in BVH.traversal(a, b)]
    sure, maybe = brute(VA, TA, VB, TB, K, env)
    tick(len(TA) * len(TB))
    miss = sure - set(got)
    expect(not miss, f"{tag}: overlapping elements {sorted(miss)[:5]} are not reported ({len(got)} of {len(sure)} pairs)")
    extra = set(got) - sure - maybe
    expect(not extra, f"{tag}: pairs {sorted(extra)[:5]} are reported although their bounding volumes are disjoint")
    expect(len(got) == len(set(got)), f"{tag}: a pair is reported twice")
    return len(sure)


def pairs(case):
    na, nb, chunk, K, env, off, width = case
    VA, TA = strip(na, width)
    VB, TB = strip(nb, 3)
    VB = VB @ mat(octa()[30]).T + np.array(off)
    a, b = BVH.make_bvh(VA, TA, K, chunk, env), BVH.make_bvh(VB, TB, K, 5, env)
    n = check("pair", a, b, VA, TA, VB, TB, K, env)
    m = check("swapped pair", b, a, VB, TB, VA, TA, K, env)
    expect(m == n, "harness")
    observe((na, nb, chunk, K, n))


def tight(tree, V, K, env):
    lo, hi = slabs(V, K, env)
    expect(close([s.lower for s in tree.root.slabs], lo) and close([s.upper for s in tree.root.slabs], hi), "root volume is not the tight volume of the object", "root")


def refit(case):
    n, chunk, K, env, moves = case
    VA, TA = strip(n)
    VB, TB = strip(4)
    a, b = BVH.make_bvh(VA, TA, K, chunk, env), BVH.make_bvh(VB, TB, K, 7, env)
    tot = []
    for who, k in moves:
        if who == 0:
            WA, WB = place(strip(n)[0], k), VB
            BVH.refit_bvh(WA, TA, a, K, env)
            VA = WA
        else:
            WB = place(strip(4)[0], k)
            BVH.refit_bvh(WB, TB, b, K, env)
            VB = WB
        tight(a, VA, K, env)
        tight(b, VB, K, env)
        tot.append(check(f"after refit {who, k}", a, b, VA, TA, VB, TB, K, env))
    observe((n, chunk, K, env, tuple(tot)))


def selfpairs(case):
    n, chunk, K, env = case
    V, T = strip(n)
    a = BVH.make_bvh(V, T, K, chunk, env)
    k = check("self", a, a, V, T, V, T, K, env)
    expect(k >= n, "an element does not overlap itself")
    tight(a, V, K, env)
    observe((case, k))


def volumes(case):
    K, env, A, Bv = case
    A, Bv = np.array(A, float), np.array(Bv, float)
    a, b = KDOP.make(K, A, env), KDOP.make(K, Bv, env)
    tick()
    for k, P in ((a, A), (b, Bv)):
        lo, hi = slabs(P, K, env)
        expect(close([s.lower for s in k.slabs], lo) and close([s.upper for s in k.slabs], hi), f"bounds of the volume of {P.tolist()}")
    u = KDOP.union(a, b)
    l0, h0 = slabs(A, K, env)
    l1, h1 = slabs(Bv, K, env)
    expect(close([s.lower for s in u.slabs], np.minimum(l0, l1)) and close([s.upper for s in u.slabs], np.maximum(h0, h1)), "union of two volumes")
    g = max((l1 - h0).max(), (l0 - h1).max())
    if abs(g) > 1e-9:
        expect(bool(KDOP.overlap(a, b)) == (g < 0) and bool(KDOP.overlap(b, a)) == (g < 0), f"overlap of two volumes with gap {g}")
    elif g == 0.0 and env == 0.0:
        expect(bool(KDOP.overlap(a, b)) and bool(KDOP.overlap(b, a)), "touching volumes do not overlap")
    observe((K, env, round(g, 6)))


def mixed(case):
    ka, kb = case
    a, b = KDOP.make(ka, np.eye(3)), KDOP.make(kb, np.eye(3))
    tick()
    for f in (KDOP.overlap, KDOP.union):
        try:
            f(a, b)
            ok = True
        except Exception:
            ok = False
        expect(ok == (ka == kb), f"{f.__name__} of volumes with {ka} and {kb} slabs")
    observe((ka, kb))


FAMILIES = dict(pairs=pairs, refit=refit, selfpairs=selfpairs, volumes=volumes, mixed=mixed)


def explore(ctx):
    q = ctx.quick
    chunks = (1, 3, 4, 5, 7, 15, 255)
    offs = [(x, y, z) for x in (0.0, 2.0, 7.0) for y in (-1.5, 0.5) for z in (0.0, 1.2)] + [(100.0, 0.0, 0.0)]
    ctx.run("pairs", [(na, nb, c, K, e, o, 3) for na in (range(1, 10) if q else range(1, 18)) for nb in ((1, 3, 8) if q else (1, 2, 3, 5, 8, 13)) for c in chunks for K in (3, 4)
                      for e in (0.0, 0.25) for o in (offs[::3] if q else offs)], procs=8)
    ctx.run("pairs", [(na, 5, c, K, 0.1, o, 4) for na in (1, 2, 5, 8, 9) for c in chunks for K in (3, 4) for o in offs[::2]], procs=8)
    ctx.run("selfpairs", [(n, c, K, e) for n in (list(range(1, 18)) + [33, 130] if q else list(range(1, 34)) + [130, 140, 300]) for c in chunks for K in (3, 4) for e in (0.0, 0.5)], procs=8)
    mv = [(0, k) for k in range(4)] + [(1, 1), (1, 3)]
    ctx.run("refit", [(n, c, K, e, m) for n in (1, 4, 7) for c in (1, 5, 255) for K in (3, 4) for e in (0.0, 0.2) for d in range(1, 3 if q else 4) for m in itertools.product(mv, repeat=d)], procs=8)
    tri = [((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 0, 0), (0, 0, 0)), ((-1, 2, 0.5), (1, 1, 1), (3, -1, 2)), ((0, 0, 1), (1, 1, 1), (1, 0, 2), (0.5, 0.5, 0.5))]
    sh = [tuple(tuple(p[i] + o[i] for i in range(3)) for p in t) for t in tri for o in itertools.product((-1.0, 0.0, 2.0), repeat=3)]
    ctx.run("volumes", [(K, e, t, s) for K in (3, 4) for e in (0.0, 0.1, 1.0) for t in tri for s in sh], procs=8)
    ctx.run("mixed", itertools.product((3, 4), repeat=2))
