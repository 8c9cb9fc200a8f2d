"""R09 the friction and restitution of a contact are those declared for its two materials."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import rigid
from mc.core import close, expect, observe, tick
from mc.groups import mat
from mc.props import R06

LEVEL = "model_checking"
RULE = ("Every subset of declared material pairs, with the names given in either order and declared in either sequence, every assignment of "
        "materials to two bodies and both creation orders, for several choices of names (differing in case, sorted around default, prefixes of each other); the coefficients in effect are measured from a sliding impact of the real "
        "simulator and compared with a dictionary of unordered pairs and the default behaviour.")
ASSUMPTIONS = ["single contact impacts that slide (fast tangential motion) and bounce"]
PAIRS = [("m", "k"), ("m", "m"), ("k", "k"), ("m", "default"), ("default", "k")]
LEXICON = [("Zinc", "apple"), ("steel", "Steel"), ("zz", "aa"), ("a", "a "), ("", "0"), ("Default", "default2"), ("1", "10")]
CONFUSING = ["a", "ab", "b", "bc", "c", "A", "a,b"]
COEF = {("k", "m"): (0.1, 0.5), ("m", "m"): (0.3, 0.25), ("k", "k"): (0.0, 0.75), ("default", "m"): (0.2, 0.0), ("default", "k"): (0.05, 0.375)}


def impact(case):
    sub, flip, rev, matA, matB, order, bounce, (m, k) = case
    call = dict(m=m, k=k, default="default")
    decl = [(PAIRS[i], COEF[tuple(sorted(PAIRS[i]))]) for i in sub]
    measure([tuple(call[x] for x in (p[::-1] if flip else p)) + c for p, c in (reversed(decl) if rev else decl)], call[matA], call[matB], order, bounce)


def named(case):
    """Two of the names take part in declarations that are easily confused."""
    decl, matA, matB, order = case
    measure(decl, matA, matB, order, True)


def measure(decl, matA, matB, order, bounce):
    e = R06.world()
    ref = {("default", "default"): (1.0, 0.0)}
    for A, B, mu, eps in decl:
        API.create_surfaces_interaction(e, A, B, eps, np.array([mu, 9.0, 9.0]))
        ref[tuple(sorted((A, B)))] = (mu, eps)
    known = {x for k in ref for x in k}
    if matA not in known or matB not in known:
        return
    mu, eps = ref.get(tuple(sorted((matA, matB))), ref["default", "default"])
    e.params.use_bounce = bounce
    e.params.absolute_tolerance, e.params.relative_tolerance, e.params.max_iterations, e.params.too_small_merit_change = 1e-12, 0.0, 3000, 1e-12
    e.params.time_step = 1e-6
    V = R06.MESH["tet"][0]
    q = R06.ICO[40]
    W = V @ mat(np.array(q)).T
    i = np.argmin(W[:, 1])
    off = np.array([0.13, 0.25, -0.07]) - W[i] + np.array([0, -0.02, 0])
    for n in order:
        if n == "A":
            rigid.body(e, "A", "plate", fixed=True, material=matA)
        else:
            rigid.body(e, "B", "tet", r=off, q=q, v=(20.0, -1.0, 5.0), material=matB)
    s0, s1, imp, J = R06.step(e, 1e-6)
    cps = e.contact_points
    if not expect(len(cps) == 1, f"{len(cps)} contacts", "setup"):
        return
    c = cps[0]
    n = c.n if c.bodyB.name == "B" else -c.n
    p, L = imp["B"]
    lam = p @ n
    ft = p - lam * n
    tau = (L - np.cross(c.p - s0["B"][0], p)) @ n
    f = np.sqrt(ft @ ft + tau * tau)
    pre = R06.point_velocity(c.bodyB, s0["B"], c.p) @ n
    post = (s1["B"][2] + np.cross(s1["B"][3], c.p - s0["B"][0])) @ n
    wt = s1["B"][2] + np.cross(s1["B"][3], c.p - s0["B"][0]) - post * n
    if mu < 1:
        expect(abs(f / lam - mu) < 1e-4, f"materials {matA}, {matB} with {ref}: friction coefficient in effect is {f / lam}, declared {mu}", "mu")
        want = eps if bounce else 0.0
        expect(abs(-post / pre - want) < 1e-3, f"materials {matA}, {matB} with {ref}, bounce {bounce}: restitution in effect is {-post / pre}, declared {want}", "eps")
    else:
        expect(f <= mu * lam + 1e-6, f"friction {f} beyond {mu} x {lam}", "mu")
        expect(f > 0.5 * mu * lam, f"friction in effect {f / lam}, default is {mu}", "mu")
    observe((mu, f / lam, post, decl, matA, matB, order), 3)


FAMILIES = dict(impact=impact, named=named)


def explore(ctx):
    subs = [c for k in range(6) for c in itertools.combinations(range(5), k)]
    cases = [(s, fl, rv, a, b, o, bn, ("m", "k")) for s in subs for fl in (False, True) for rv in (False, True) for a in ("default", "m", "k") for b in ("default", "m", "k")
             for o in ("AB", "BA") for bn in (True, False)]
    if ctx.quick:
        cases = [c for c in cases if c[2] == c[1] or len(c[0]) == 2]
    # the same with names that sort differently without their case, around "default", or begin alike
    cases += [(s, fl, fl, a, b, "AB", True, mk) for mk in LEXICON for s in subs if len(s) in ((1, 2) if ctx.quick else (1, 2, 3, 5)) for fl in (False, True)
              for a in ("default", "m", "k") for b in ("default", "m", "k") if a != "default" or b != "default"]
    ctx.run("impact", cases, procs=8)
    # pairs of pairs of names
    pairs = list(itertools.combinations_with_replacement(CONFUSING, 2))
    cases = []
    for p, r in itertools.permutations(pairs, 2):
        if ctx.quick and len({*p, *r}) < 3:
            continue
        for x in (p, p[::-1]):
            cases.append(((p + (0.125, 0.5), r[::-1] + (0.25, 0.25)), x[0], x[1], "AB"))
        cases.append(((p + (0.125, 0.5), r + (0.25, 0.25)), p[0], r[1], "BA"))
    ctx.run("named", cases, procs=8)
