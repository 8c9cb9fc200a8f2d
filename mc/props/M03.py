"""M03 bivariate polynomials: evaluation, interpolation, derivatives, textual form."""
import itertools

import numpy as np

import rainbow.math.polynomial as P
from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("All coefficient vectors over {-2,0,1} for order 1 and 2, over magnitudes from 1e-7 to 1e300 for order 1 and over {-1,0,0.5} on a lattice of orders 3..5, all "
        "derivative sequences of length <= 4 applied to each, every point of an integer/half-integer lattice; "
        "interpolation on every permutation class of the triangular node lattice; oracle: exact dictionary polynomials.")
ASSUMPTIONS = ["coefficients in the enumerated alphabets; interpolation nodes on unisolvent lattices"]

PTS = [(x, y) for x in (-2.0, -0.5, 0.0, 1.0, 3.0) for y in (-1.5, 0.0, 1.0, 2.0)]


def build(order, coef):
    p = P.Poly(2, order)
    p.coefficients = np.array(coef, dtype=np.float64)
    ref = {}
    for c, (i, j) in zip(coef, p.powers):
        ref[(int(i), int(j))] = ref.get((int(i), int(j)), 0) + c
    return p, ref


def ev(ref, x, y):
    return sum(c * x ** i * y ** j for (i, j), c in ref.items())


def dref(ref, d):
    out = {}
    for (i, j), c in ref.items():
        k = (i, j)[d]
        if k:
            n = (i - 1, j) if d == 0 else (i, j - 1)
            out[n] = out.get(n, 0) + c * k
    return out


def parse(text):
    """Independent reader of the displayed form: terms separated by ' + ' / ' - '."""
    ref = {}
    toks = text.split()
    sign, cur = 1.0, None
    terms = []
    for t in toks:
        if t in "+-" and len(t) == 1:
            if cur is not None:
                terms.append((sign, cur))
            cur = []
            sign = 1.0 if t == "+" else -1.0
        else:
            cur = (cur or []) if cur is not None else []
            cur.append(t)
    if cur:
        terms.append((sign, cur))
    for s, f in terms:
        c, pw = s, [0, 0]
        for t in f:
            neg = t.startswith("-")
            if neg:
                t, c = t[1:], -c
            if t[0] in "xy":
                k = int(t.split("^")[1]) if "^" in t else 1
                pw["xy".index(t[0])] += k
            else:
                c *= float(t)
        ref[tuple(pw)] = ref.get(tuple(pw), 0) + c
    return ref


def clean(ref):
    return {k: v for k, v in ref.items() if v != 0}


def poly(case):
    order, coef, seq = case
    p, ref = build(order, coef)
    expect(sorted(map(tuple, p.powers.tolist())) == sorted((i, j) for i in range(order + 1) for j in range(order + 1 - i)),
           "the monomials are not exactly those up to the order")
    before = p.coefficients.copy(), p.powers.copy()
    q, r = p, ref
    for d in seq:
        q = P.derivative(q)
        expect(len(q) == 2, "number of partial derivatives")
        q = q[d]
        r = dref(r, d)
    for x, y in PTS:
        v = ev(r, x, y)
        tick()
        size = max(1.0, ev({k: abs(c) for k, c in r.items()}, abs(x), abs(y)))
        expect(close(q(np.array([x, y])) / size, v / size), f"value at {(x, y)} after derivatives {seq}")
        expect(close(P.evaluate(q, np.array([x, y])) / size, v / size), "evaluate")
    txt = str(q)
    expect(clean(parse(txt)) == clean(r), f"the text {txt!r} denotes another polynomial than {clean(r)}")
    expect(np.array_equal(before[0], p.coefficients) and np.array_equal(before[1], p.powers), "operand modified")
    observe((sorted(clean(r).items()), txt))


def interp(case):
    order, shift, scale, perm, cols = case
    nodes = [(i, j) for i in range(order + 1) for j in range(order + 1 - i)]
    nodes = nodes[perm:] + nodes[:perm]
    if perm % 2:
        nodes = nodes[::-1]
    x = np.array(nodes, float) * scale + np.array(shift)
    # the polynomials to recover
    coefs = [[((3 * k + 7 * c) % 5 - 2) * 0.5 for k in range(len(nodes))] for c in range(max(cols, 1))]
    refs = [build(order, co) for co in coefs]
    v = np.array([[ev(r, *pt) for _, r in refs] for pt in x])
    if cols == 0:
        v = v[:, 0]
    x0, v0 = x.copy(), v.copy()
    out = P.interpolate(order, x, v)
    expect(len(out) == max(cols, 1), "one polynomial per column")
    expect(np.array_equal(x, x0) and np.array_equal(v, v0), "data modified")
    for q, (p, r) in zip(out, refs):
        for pt in x:
            tick()
            expect(close(q(pt), ev(r, *pt), 1e-7), "does not interpolate the data")
        for pt in PTS:
            expect(close(q(np.array(pt)), ev(r, *pt), 1e-5), "is not the unique interpolating polynomial")
        observe(np.round(q.coefficients, 4))


def guards(case):
    kind = case
    tick()
    bad = dict(
        order0=lambda: P.interpolate(0, np.zeros((3, 2)), np.zeros(3)),
        few=lambda: P.interpolate(1, np.eye(2), np.zeros(2)),
        fewv=lambda: P.interpolate(1, np.array([[0., 0], [1, 0], [0, 1]]), np.zeros(2)),
        neg=lambda: P.Poly(2, -1), dim=lambda: P.Poly(4, 1), dim0=lambda: P.Poly(0, 1),
        pt=lambda: P.Poly(2, 1)(np.zeros(3)))[kind]
    try:
        bad()
        ok = False
    except ValueError:
        ok = True
    observe(kind)
    expect(ok, "ill-posed request is not rejected")


def terms(case):
    """The number of monomials of a given order, counted by listing them."""
    dim, order = case
    tick()
    n = sum(1 for e in itertools.product(range(order + 1), repeat=dim) if sum(e) <= order)
    got = P.Helpers.number_of_monomial_terms(dim, order)
    expect(got == n, f"{got} monomials of order {order} in {dim} variables, expected {n}", "terms")
    observe((case, n))


FAMILIES = dict(poly=poly, interp=interp, guards=guards, terms=terms)


def explore(ctx):
    seqs = [s for n in range(4) for s in itertools.product((0, 1), repeat=n)]
    ctx.run("poly", [(1, c, s) for c in itertools.product((-2, 0, 1), repeat=3) for s in seqs[:7]], procs=8)
    ctx.run("poly", [(2, c, s) for c in itertools.product((-2, 0, 1), repeat=6) for s in (seqs if not ctx.quick else seqs[:7])],
            procs=8)
    ctx.run("poly", [(1, c, s) for c in itertools.product((1e-7, -1e9 - 0.5, 1e16, 0.1 + 0.2, -1e300, 123456.789), repeat=3) for s in seqs[:3]], procs=8)
    for order in (0, 3, 4, 5):
        n = (order + 1) * (order + 2) // 2
        base = []
        for k in range(n):
            for c in (-1, 1, 0.5, -2.5, 3):
                e = [0] * n
                e[k] = c
                base.append(tuple(e))
                for m in range(k):
                    if ctx.quick and (k + m) % 3:
                        continue
                    f = list(e)
                    f[m] = -1
                    base.append(tuple(f))
        base += [tuple((a * k) % 7 - 3 for k in range(n)) for a in (1, 2, 3, 4, 5, 6)]
        ctx.run("poly", [(order, c, s) for c in base for s in (seqs[:7] if ctx.quick else seqs)], procs=8)
    ctx.run("interp", [(o, sh, sc, pm, cl) for o in (1, 2, 3, 4) for sh in ((0.0, 0.0), (-1.0, 0.5), (0.25, -2.0))
                       for sc in (1.0, 0.5, -1.0) for pm in range((o + 1) * (o + 2) // 2) for cl in (0, 1, 2, 3)], procs=8)
    ctx.run("guards", ["order0", "few", "fewv", "neg", "dim", "dim0", "pt"])
    ctx.run("terms", [(d, o) for d in (1, 2, 3) for o in range(13)])
