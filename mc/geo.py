"""Independent geometric oracles shared by the checks."""
import itertools
import math

import numpy as np


def signed_volume(V, T):
    a, b, c = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    return float(np.sum(a * np.cross(b, c)) / 6.0)


def areas(V, T):
    return 0.5 * np.linalg.norm(np.cross(V[T[:, 1]] - V[T[:, 0]], V[T[:, 2]] - V[T[:, 0]]), axis=1)


def normals(V, T):
    n = np.cross(V[T[:, 1]] - V[T[:, 0]], V[T[:, 2]] - V[T[:, 0]])
    return n / np.linalg.norm(n, axis=1)[:, None]


def closed_manifold(T):
    """None if every directed edge occurs once and its reverse once, otherwise a description."""
    seen = {}
    for n, t in enumerate(T):
        t = [int(x) for x in t]
        if len(set(t)) != 3:
            return f"triangle {n} repeats a vertex: {t}"
        for i in range(3):
            e = (t[i], t[(i + 1) % 3])
            if e in seen:
                return f"directed edge {e} used by triangles {seen[e]} and {n}"
            seen[e] = n
    for a, b in seen:
        if (b, a) not in seen:
            return f"edge {(a, b)} of triangle {seen[(a, b)]} is open"
    return None


def euler(T):
    v = {int(x) for t in T for x in t}
    e = {tuple(sorted((int(t[i]), int(t[(i + 1) % 3])))) for t in T for i in range(3)}
    return len(v) - len(e) + len(T)


def components(T):
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for t in T:
        r = find(int(t[0]))
        for x in t[1:]:
            parent[find(int(x))] = r
    return len({find(x) for x in list(parent)})


def soup(V, T, nd=7):
    """The oriented triangles as a multiset of coordinates (cyclic rotation normalised)."""
    out = []
    for t in T:
        p = [tuple(round(float(c), nd) + 0.0 for c in V[i]) for i in t]
        k = p.index(min(p))
        out.append(tuple(p[k:] + p[:k]))
    return sorted(out)


def moments(V, T):
    """volume, centroid and inertia tensor about the origin by decomposition into tetrahedra with the origin"""
    vol, first, C = 0.0, np.zeros(3), np.zeros((3, 3))
    for t in T:
        a, b, c = V[t[0]], V[t[1]], V[t[2]]
        d = float(np.dot(a, np.cross(b, c)))
        vol += d / 6
        s = a + b + c
        first += d / 24 * s
        C += d / 120 * (np.outer(a, a) + np.outer(b, b) + np.outer(c, c) + np.outer(s, s))
    com = first / vol
    return vol, com, np.trace(C) * np.eye(3) - C


def point_segment(p, a, b):
    d = b - a
    t = np.clip(np.dot(p - a, d) / np.dot(d, d), 0, 1)
    return float(np.linalg.norm(a + t * d - p))


def point_triangle(p, a, b, c):
    n = np.cross(b - a, c - a)
    l = np.linalg.norm(n)
    if l > 1e-14:
        n = n / l
        q = p - np.dot(p - a, n) * n
        if all(np.dot(np.cross(y - x, q - x), n) >= -1e-12 for x, y in ((a, b), (b, c), (c, a))):
            return float(abs(np.dot(p - a, n)))
    return min(point_segment(p, a, b), point_segment(p, b, c), point_segment(p, c, a))


def winding(p, V, T):
    """generalised winding number of a closed oriented surface around p (1 inside, 0 outside)"""
    w = 0.0
    for t in T:
        a, b, c = V[t[0]] - p, V[t[1]] - p, V[t[2]] - p
        la, lb, lc = np.linalg.norm(a), np.linalg.norm(b), np.linalg.norm(c)
        num = np.dot(a, np.cross(b, c))
        den = la * lb * lc + np.dot(a, b) * lc + np.dot(b, c) * la + np.dot(c, a) * lb
        w += 2 * math.atan2(num, den)
    return w / (4 * math.pi)


def signed_distance(p, V, T):
    d = min(point_triangle(p, V[t[0]], V[t[1]], V[t[2]]) for t in T)
    return -d if winding(p, V, T) > 0.5 else d


def signed_distances(P, V, T):
    """signed distances of many points at once (same definitions as signed_distance)"""
    P = np.atleast_2d(np.asarray(P, float))
    A, B, C = (V[np.asarray(T)[:, i]] for i in range(3))
    N = np.cross(B - A, C - A)
    N = N / np.linalg.norm(N, axis=1)[:, None]
    X = P[:, None, :]
    h = np.einsum("pti,ti->pt", X - A, N)
    Q = X - h[:, :, None] * N
    inside = np.ones(h.shape, bool)
    D = np.full(h.shape, np.inf)
    for a, b in ((A, B), (B, C), (C, A)):
        d = b - a
        inside &= np.einsum("pti,pti->pt", np.cross(d[None], Q - a), np.broadcast_to(N, Q.shape)) >= -1e-12
        t = np.clip(np.einsum("pti,ti->pt", X - a, d) / np.einsum("ti,ti->t", d, d), 0, 1)
        D = np.minimum(D, np.linalg.norm(a + t[:, :, None] * d - X, axis=2))
    D = np.where(inside, np.minimum(D, np.abs(h)), D).min(axis=1)
    a, b, c = A - X, B - X, C - X
    la, lb, lc = (np.linalg.norm(z, axis=2) for z in (a, b, c))
    dot = lambda x, y: np.einsum("pti,pti->pt", x, y)
    w = 2 * np.arctan2(dot(a, np.cross(b, c)), la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb).sum(axis=1) / (4 * math.pi)
    return np.where(w > 0.5, -D, D)


def segseg(p1, q1, p2, q2):
    d1, d2, r = q1 - p1, q2 - p2, p1 - p2
    a, e, f = np.dot(d1, d1), np.dot(d2, d2), np.dot(d2, r)
    c, b = np.dot(d1, r), np.dot(d1, d2)
    den = a * e - b * b
    s = np.clip((b * f - c * e) / den, 0, 1) if den > 1e-14 else 0.0
    t = (b * s + f) / e
    if t < 0:
        t, s = 0.0, np.clip(-c / a, 0, 1)
    elif t > 1:
        t, s = 1.0, np.clip((b - c) / a, 0, 1)
    return float(np.linalg.norm(p1 + s * d1 - p2 - t * d2))


def tri_tri(A, B):
    """distance of two triangles that do not intersect"""
    d = min(segseg(A[i], A[(i + 1) % 3], B[j], B[(j + 1) % 3]) for i in range(3) for j in range(3))
    d = min([d] + [point_triangle(p, *B) for p in A] + [point_triangle(p, *A) for p in B])
    return d


def box(w=1.0, h=1.0, d=1.0, c=(0, 0, 0)):
    """an own box mesh, outward oriented"""
    V = np.array(list(itertools.product((-0.5, 0.5), repeat=3))) * np.array([w, h, d]) + np.array(c, float)
    quads = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    T = np.array([t for q in quads for t in ((q[0], q[1], q[2]), (q[0], q[2], q[3]))])
    return V, T
