"""Small soft body worlds (public API) and an independent dense reference of their mechanics."""
import numpy as np

import rainbow.simulators.prox_soft_bodies.api as API
import rainbow.simulators.prox_soft_bodies.solver as SOLVER
from mc.props.G06 import Dice

MODELS = dict(COR=API.COR, SVK=API.SVK, SNH=API.SNH)


def engine(res=8, **params):
    with Dice("lin"):
        e = API.create_engine()
    e.params.resolution = res
    for k, v in params.items():
        if not hasattr(e.params, k):
            raise AttributeError(k)
        setattr(e.params, k, v)
    return e


TET = (np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float), np.array([[0, 1, 2, 3]]))
SKEW = (np.array([[0.1, 0, 0], [1.5, 0.2, -0.1], [0.3, 0.8, 0], [-0.2, 0.1, 0.6]], float), np.array([[2, 1, 3, 0]]))
TWO = (np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0.3, 0.2, -2.0]], float), np.array([[0, 1, 2, 3], [0, 2, 1, 4]]))
FAN = (np.array([[0, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0.25], [0, -1, 0]], float),
       np.array([[0, 1, 2, 3], [0, 2, 4, 3], [0, 4, 5, 3], [0, 5, 1, 3]]))


def beam(i=2, j=2, k=2, w=1.0, h=1.0, d=1.0):
    import rainbow.geometry.volume_mesh as VM
    return VM.create_beam(i, j, k, w, h, d)


def vols(x, T):
    p = x[T]
    return np.einsum("ei,ei->e", p[:, 1] - p[:, 0], np.cross(p[:, 2] - p[:, 0], p[:, 3] - p[:, 0])) / 6


def lame(E, nu):
    return nu * E / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def grad_shape(X0):
    """Gradients of the four linear shape functions of a tetrahedron."""
    A = np.linalg.inv(np.vstack([np.ones(4), X0.T]))
    return A[:, 1:]


def def_grad(X, X0):
    return X.T @ grad_shape(X0)


def psi(model, F, lam, mu):
    if model == "COR":
        s = np.linalg.svd(F, compute_uv=False)
        return mu * ((s - 1) ** 2).sum() + lam / 2 * (s.sum() - 3) ** 2
    if model == "SVK":
        G = (F.T @ F - np.eye(3)) / 2
        return mu * (G * G).sum() + lam / 2 * np.trace(G) ** 2
    m, l = 4 / 3 * mu, lam + 5 / 6 * mu
    a, J, I = 1 + 3 * m / (4 * l), np.linalg.det(F), (F * F).sum()
    return m / 2 * (I - 3) + l / 2 * (J - a) ** 2 - m / 2 * np.log(I + 1)


def stress(model, F, lam, mu):
    """First Piola-Kirchhoff stress, derived independently of the implementation."""
    if model == "COR":
        U, s, Vt = np.linalg.svd(F)
        return U @ np.diag(2 * mu * (s - 1) + lam * (s.sum() - 3)) @ Vt
    if model == "SVK":
        G = (F.T @ F - np.eye(3)) / 2
        return F @ (2 * mu * G + lam * np.trace(G) * np.eye(3))
    m, l = 4 / 3 * mu, lam + 5 / 6 * mu
    a, J, I = 1 + 3 * m / (4 * l), np.linalg.det(F), (F * F).sum()
    return m * (1 - 1 / (I + 1)) * F + l * (J - a) * J * np.linalg.inv(F).T


def energy(model, x, x0, T, lam, mu):
    return sum(psi(model, def_grad(x[t], x0[t]), lam, mu) * v for t, v in zip(T, vols(x0, T)))


def elastic(model, x, x0, T, lam, mu):
    f = np.zeros((len(x), 3))
    for t, v in zip(T, vols(x0, T)):
        f[t] -= v * grad_shape(x0[t]) @ stress(model, def_grad(x[t], x0[t]), lam, mu).T
    return f


def node_mass(x0, T, rho):
    m = np.zeros(len(x0))
    for t, v in zip(T, vols(x0, T)):
        m[t] += rho * v / 4
    return m


def mass(x0, T, rho, lumped=True):
    M = np.zeros((len(x0), len(x0)))
    for t, v in zip(T, vols(x0, T)):
        M[np.ix_(t, t)] += rho * v * (np.eye(4) / 4 if lumped else (np.ones((4, 4)) + np.eye(4)) / 20)
    return M


def traction(x, tris, loads):
    f = np.zeros((len(x), 3))
    for t, l in zip(tris, loads):
        f[list(t)] += np.linalg.norm(np.cross(x[t[1]] - x[t[0]], x[t[2]] - x[t[0]])) / 2 * np.array(l) / 3
    return f


def boundary(T):
    """Outward oriented surface triangles as sorted tuples -> oriented tuple."""
    out = {}
    for a, b, c, d in np.asarray(T).tolist():
        for f in ((b, c, d), (a, d, c), (a, b, d), (a, c, b)):
            k = tuple(sorted(f))
            if k in out:
                del out[k]
            else:
                out[k] = f
    return out


def same_mesh(x0, T, V, T2, tol=1e-12):
    """Permutation p with x0[p[i]] = V[i] and equal sets of positively oriented elements, or None."""
    V, T2 = np.asarray(V, float), np.asarray(T2)
    if x0.shape != V.shape or np.asarray(T).shape != T2.shape:
        return None
    p = []
    for v in V:
        h = np.where(np.abs(x0 - v).max(axis=1) <= tol * (1 + np.abs(v).max()))[0]
        if len(h) != 1:
            return None
        p.append(int(h[0]))
    if len(set(p)) != len(p):
        return None

    def canon(t):
        t = list(t)
        s = sorted(t)
        par = sum(1 for i in range(4) for j in range(i) if t[j] > t[i]) % 2
        return tuple(s), par
    if sorted(canon(t) for t in np.asarray(T).tolist()) != sorted(canon([p[i] for i in t]) for t in T2.tolist()):
        return None
    return p
