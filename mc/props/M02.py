"""M02 rotation parameterisations: exponential map, its derivatives, interpolation."""
import cmath
import itertools
import math

import numpy as np

import rainbow.math.expmap as E
import rainbow.math.functions as F
import rainbow.math.quaternion as Q
from mc import groups as G
from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("Rotation vectors on the lattice axis(15) x angle (10 degree steps to +-900 degrees plus neighbourhoods of every "
        "branch point 0, series cut-off, pi, 2pi, k*pi), every pair of the binary octahedral group plus "
        "near-parallel/near-antipodal perturbations for interpolation with t on a lattice; reference: closed forms and "
        "complex steps through the independent Rodrigues formula.")
ASSUMPTIONS = ["derivatives compared with exact (complex step) derivatives of an independent closed form, tolerance 1e-10"]


def rotvec(case):
    """exp: vector -> rotation; reparameterisation keeps the rotation and bounds the angle by pi; log inverts."""
    axis, ang = case
    u = np.array(axis, float) / np.linalg.norm(axis)
    v = ang * u
    v0 = v.copy()
    R = G.rodrigues(u, ang)
    tick()
    expect(close(E.to_matrix(v), R, 1e-10), "matrix of the rotation vector is not the rotation it denotes")
    q = E.exp(v)
    expect(close(G.mat(q), R, 1e-10), "quaternion of the rotation vector is another rotation")
    expect(abs(np.linalg.norm(q) - 1) < 1e-9, "quaternion of a rotation vector is not of unit length")
    q2 = E.to_quaternion(v, False)
    expect(close(G.mat(q2), R, 1e-10), "quaternion without reparameterisation is another rotation")
    w = E.reparameterization(v)
    expect(np.linalg.norm(w) <= math.pi + 1e-9, "reparameterised vector is longer than pi")
    expect(close(G.mat(G.quat(w, np.linalg.norm(w))) if np.linalg.norm(w) > 1e-300 else np.eye(3), R, 1e-10),
           "reparameterisation changes the rotation")
    if abs(ang) <= math.pi - 1e-9:
        expect(close(w, v), "a rotation vector within pi is changed")
    expect(np.array_equal(v, v0), "the rotation vector was modified")
    observe(R)


def logarithm(case):
    """log of a unit quaternion denotes the same rotation; of an angle below pi it is the rotation vector itself."""
    axis, ang = case
    q = G.quat(axis, ang)
    if abs(abs(ang) - math.pi) < 1e-15 or q[0] == 0.0:
        key = "log:halfturn"
        q[0] = 0.0
    else:
        key = None
    tick()
    R = G.mat(q)
    v = E.log(q)
    n = np.linalg.norm(v)
    expect(close(G.rodrigues(v, n) if n > 0 else np.eye(3), R, 1e-7), "log does not denote the rotation it was given", key)
    if abs(ang) < math.pi - 1e-9:
        u = np.array(axis, float) / np.linalg.norm(axis)
        expect(close(v, ang * u, 1e-7), "log(exp(v)) != v")
    expect(close(G.mat(E.exp(E.to_expmap(q))), R, 1e-7), "exp(log(q)) is another rotation", key)
    observe(R)


def series(s, k):
    """sum (-s)^n / (2n + k)!: cos, sin(x)/x, (1 - cos x)/x^2 for k = 0, 1, 2 with s = x^2, analytic in s."""
    if abs(s) < 4.0:
        return sum((-s) ** n / math.factorial(2 * n + k) for n in range(20))
    x = cmath.sqrt(s)
    return (cmath.cos(x), cmath.sin(x) / x, (1 - cmath.cos(x)) / s)[k]


def quat_at(x):
    """Quaternion of the rotation vector x, continued to complex x (complex steps give exact derivatives)."""
    s = (x @ x) / 4
    return np.concatenate([[series(s, 0)], 0.5 * series(s, 1) * x])


def matrix_at(x):
    s = x @ x
    K = np.array([[0, -x[2], x[1]], [x[2], 0, -x[0]], [-x[1], x[0], 0]])
    return np.eye(3) + series(s, 1) * K + series(s, 2) * (K @ K)


def derivative(case):
    axis, ang = case
    u = np.array(axis, float) / np.linalg.norm(axis)
    v = ang * u
    tick()

    h = 1e-20
    for i in range(3):
        x = v + 1j * h * np.eye(3)[i]
        expect(close(E.dQdv_i(v, i), quat_at(x).imag / h, 1e-10), f"dQ/dv_{i} differs from the derivative of the quaternion")
        if abs(ang) <= math.pi - 1e-4:
            expect(close(E.dRdv_i(v, i), matrix_at(x).imag / h, 1e-10), f"dR/dv_{i} differs from the derivative of the matrix")
    # kinematics: rotating with angular velocity omega changes v at rate dvdt; check through dR/dv
    if abs(ang) <= math.pi - 1e-2:
        for om in ((1.0, 0, 0), (0, -2.0, 0.5), (0.3, 0.2, 1.0)):
            om = np.array(om, float)
            vd = E.dvdt(om, v)
            Rdot = matrix_at(v + 1j * h * vd).imag / h
            W = np.array([[0, -om[2], om[1]], [om[2], 0, -om[0]], [-om[1], om[0], 0]])
            expect(close(Rdot, W @ matrix_at(v).real, 1e-10), "dv/dt does not generate the angular velocity")
    observe(v)


def interpolate(case):
    a, b, t = np.array(case[0], float), np.array(case[1], float), case[2]
    a0, b0 = a.copy(), b.copy()
    tick()
    s = Q.slerp(a, b, t)
    expect(np.array_equal(a, a0) and np.array_equal(b, b0), "an operand was modified")
    tc = min(max(t, 0.0), 1.0)
    bb = b if float(a @ b) >= 0 else -b
    d = min(1.0, abs(float(a @ b)))
    expect(abs(np.linalg.norm(s) - 1) < 1e-6, f"interpolated orientation is not a rotation: {s}")
    if tc == 0.0:
        expect(G.same_rotation(s, a, 1e-6), "interpolation at 0 is not the first orientation")
    if tc == 1.0:
        expect(G.same_rotation(s, b, 1e-6), "interpolation at 1 is not the second orientation")
    if d > 1e-9:  # unique shortest arc
        th = math.acos(d)
        if th > 1e-6:
            ref = (math.sin((1 - tc) * th) * a + math.sin(tc * th) * bb) / math.sin(th)
        else:
            ref = a + (bb - a) * tc
        expect(G.same_rotation(s, ref, 2e-7), "interpolation leaves the shortest arc or its constant rate")
    L = Q.lerp(a, b, t)
    expect(close(L, (1 - tc) * a + tc * b), "linear interpolation")
    observe(s)


def sincs(case):
    x = case
    r = F.sinc(np.array(x))
    tick()
    ref = 1.0 if x == 0 else math.sin(x) / x
    expect(abs(float(r) - ref) < 1e-12, "sinc")
    observe(round(ref, 9))


FAMILIES = dict(rotvec=rotvec, logarithm=logarithm, derivative=derivative, interpolate=interpolate, sincs=sincs)


def explore(ctx):
    st = 10 if ctx.quick else 3
    angs = [math.radians(d) for d in range(-900, 901, st)]
    pts = [0.0, 1e-6, math.pi, 2 * math.pi, 3 * math.pi, 4 * math.pi]
    eps = [0.0] + [s * 10.0 ** -k for k in (2, 3, 5, 7, 9, 12) for s in (1, -1)]
    near = [p + e for p in pts for e in eps] + [1e-6 - 1e-9, 1e-6 + 1e-9, 1e-4]
    axes = G.axes13()
    ctx.run("rotvec", [(a, x) for a in axes for x in angs + near], procs=8)
    # logarithm: every octahedral / icosahedral element is covered through its axis and angle
    la = [math.radians(d) for d in range(-360, 361, st)] + [p + e for p in (0.0, math.pi, -math.pi, 2 * math.pi) for e in eps
                                                            if abs(p + e) <= 2 * math.pi]
    ctx.run("logarithm", [(a, x) for a in axes for x in la], procs=8)
    da = [math.radians(d) for d in range(-175, 176, st)] + [0.0, 1e-8, 1e-7, 9e-7, 9.9e-7, 1.1e-6, 1e-4, 1e-3, -1e-7] + [3.5, 5.0, 6.0]
    ctx.run("derivative", [(a, x) for a in axes for x in da], procs=8)
    o = G.octa()
    ts = [0.0, 0.25, 0.5, 1.0] if ctx.quick else [-0.5, 0.0, 0.125, 0.25, 0.5, 0.7, 1.0, 1.5]
    pairs = list(itertools.product(o, o)) if not ctx.quick else list(itertools.product(o[::2], o))
    ctx.run("interpolate", [(a, b, t) for a, b in pairs for t in ts], procs=8)
    rel = [s * 10.0 ** -k for k in range(1, 10) for s in (1, -1)]
    base = [tuple(G.quat((1, 2, 3), 0.8)), (1.0, 0.0, 0.0, 0.0)]
    pert = [(p, tuple(sg * G.hamilton(G.quat(ax, e), p)), t) for p in base for e in rel for sg in (1, -1)
            for ax in ((1, 0, 0), (1, 1, -2)) for t in (-1.0, 0.0, 0.3, 0.5, 0.75, 1.0, 2.0)]
    ctx.run("interpolate", pert, procs=4)
    ctx.run("sincs", [s * 10.0 ** -k * m for k in range(0, 12) for m in (1, 3, 0.99999, 1.00001) for s in (1, -1)] + [0.0])
