"""Finite rotation alphabets: exact unit quaternions of the binary polyhedral groups and angle/axis lattices."""
import itertools
import math

import numpy as np

S2 = math.sqrt(0.5)
PHI = (1 + math.sqrt(5)) / 2


def tetra():
    out = []
    for i in range(4):
        for s in (1.0, -1.0):
            q = [0.0] * 4
            q[i] = s
            out.append(tuple(q))
    out += [tuple(0.5 * s for s in sg) for sg in itertools.product((1, -1), repeat=4)]
    return out


def octa():
    """Binary octahedral group, 48 elements: 24 rotations of the cube, both signs."""
    out = tetra()
    for i, j in itertools.combinations(range(4), 2):
        for si, sj in itertools.product((1, -1), repeat=2):
            q = [0.0] * 4
            q[i], q[j] = si * S2, sj * S2
            out.append(tuple(q))
    return out


def icosa():
    """Binary icosahedral group, 120 elements."""
    out = tetra()
    even = [p for p in itertools.permutations(range(4))
            if sum(1 for a in range(4) for b in range(a + 1, 4) if p[a] > p[b]) % 2 == 0]
    for s in itertools.product((1, -1), repeat=3):
        base = (0.0, s[0] * 0.5, s[1] * 0.5 / PHI, s[2] * 0.5 * PHI)
        for p in even:
            out.append(tuple(base[p[i]] for i in range(4)))
    return sorted(set(out))


def axes13():
    """13 axes of the cube (faces, edges, vertices) and two generic ones."""
    out = []
    for a in itertools.product((-1, 0, 1), repeat=3):
        if a > (0, 0, 0):
            out.append(tuple(float(x) for x in a))
    return out + [(0.3, -0.5, 2.0), (1.0, 2.0, -3.0)]


# ---- independent reference implementation (plain numpy, Rodrigues / Hamilton) ----
def mat(q):
    """Rotation matrix of a unit quaternion via the generic Rodrigues form."""
    w, v = q[0], np.array(q[1:], dtype=float)
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + 2 * w * K + 2 * K @ K


def rodrigues(axis, rad):
    u = np.array(axis, dtype=float)
    u = u / math.sqrt(float(u @ u))
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.eye(3) + math.sin(rad) * K + (1 - math.cos(rad)) * K @ K


def hamilton(a, b):
    a0, a1, a2, a3 = a
    b0, b1, b2, b3 = b
    return np.array([a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3,
                     a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2,
                     a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1,
                     a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0])


def quat(axis, rad):
    u = np.array(axis, dtype=float)
    u = u / math.sqrt(float(u @ u))
    return np.concatenate([[math.cos(rad / 2)], math.sin(rad / 2) * u])


def same_rotation(p, q, tol=1e-9):
    p, q = np.asarray(p, float), np.asarray(q, float)
    return min(np.abs(p - q).max(), np.abs(p + q).max()) <= tol
