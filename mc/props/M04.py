"""M04 vectors and orientations written as text."""
import itertools
import warnings

import numpy as np

import rainbow.math.quaternion as Q
import rainbow.math.vector3 as V3
from mc import groups as G
from mc.core import close, expect, observe, tick

LEVEL = "model_checking"
RULE = ("Every well-formed text built from the number alphabet (all sign/integer/fraction/exponent shapes up to the bound, "
        "every rendering Python gives a float), every keyword in every capitalisation, arrays of 3..5 numbers, axis "
        "rotations; and every single-character mutation of well-formed texts; oracle: the value the text denotes, "
        "computed independently (float(), Rodrigues).")
ASSUMPTIONS = ["numbers are decimal literals without superfluous leading zeros, as printed by Python"]


def call(fn, text):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return fn(text)
        except (AssertionError, ValueError):
            return None


def array(case):
    nums, sep = case
    text = "[" + sep.join(nums) + "]"
    want = np.array([float(x) for x in nums])
    tick()
    if len(nums) >= 3:
        got = call(V3.from_string, text)
        expect(got is not None, f"{text!r} is rejected as a vector")
        if got is not None:
            expect(got.shape == (3,) and np.array_equal(got, want[:3]), f"{text!r} gives {got}")
            observe(got, 12)
    if len(nums) >= 4:
        got = call(Q.from_string, text)
        expect(got is not None, f"{text!r} is rejected as an orientation")
        if got is not None:
            expect(got.shape == (4,) and np.array_equal(got, want[:4]), f"{text!r} gives {got}")
    if len(nums) < 3:
        expect(call(V3.from_string, text) is None, f"{text!r} has too few entries but is accepted")
    if len(nums) < 4:
        expect(call(Q.from_string, text) is None, f"{text!r} has too few entries but is accepted")


def rotation(case):
    kind, num, space = case
    axis = dict(x=(1, 0, 0), y=(0, 1, 0), z=(0, 0, 1))[kind.lower()[1]]
    text = kind + ":" + space + num
    got = call(Q.from_string, text)
    tick()
    expect(got is not None, f"{text!r} is rejected")
    if got is not None:
        d = float(num)
        R = G.rodrigues(axis, np.deg2rad(d))
        expect(abs(np.linalg.norm(got) - 1) < 1e-9 and close(G.mat(got), R, 1e-7 if abs(d) < 1e5 else 1e9), f"{text!r} gives {got}")
        observe(got)


def general(case):
    num, axis, kw = case
    text = f"{kw}: {num}:[{','.join(axis)}]"
    got = call(Q.from_string, text)
    tick()
    expect(got is not None, f"{text!r} is rejected")
    if got is not None:
        R = G.rodrigues([float(a) for a in axis], np.deg2rad(float(num)))
        expect(abs(np.linalg.norm(got) - 1) < 1e-9 and close(G.mat(got), R, 1e-7), f"{text!r} gives {got}")
        observe(got)


def rand(case):
    lo, hi, draw = case
    text = f"rand:{lo}:{hi}"
    calls = []
    orig = np.random.uniform

    def fake(low=0.0, high=1.0, size=None):
        calls.append((low, high, size))
        return np.full(3 if size is None else size, low + draw * (high - low))
    np.random.uniform = fake
    try:
        got = call(V3.from_string, text)
    finally:
        np.random.uniform = orig
    tick()
    expect(got is not None, f"{text!r} is rejected")
    if got is not None:
        a, b = float(lo), float(hi)
        expect(got.shape == (3,) and np.all(got >= min(a, b) - 1e-12) and np.all(got <= max(a, b) + 1e-12),
               f"{text!r} gives {got} out of range")
        if calls:
            expect(close(got, np.full(3, a + draw * (b - a))), f"{text!r}: range of the draw is {calls}")
        observe(got)


KEY = dict(ones=(1, 1, 1), zero=(0, 0, 0), i=(1, 0, 0), j=(0, 1, 0), k=(0, 0, 1))


def keyword(case):
    got = call(V3.from_string, case)
    tick()
    expect(got is not None and np.array_equal(got, KEY[case.lower()]), f"{case!r} gives {got}")
    if got is not None:
        got += 5.0   # results must be independent objects
        again = V3.from_string(case)
        expect(np.array_equal(again, KEY[case.lower()]), "a shared constant can be corrupted by the caller")
    observe(case)


def ident(case):
    got = call(Q.from_string, case)
    tick()
    expect(got is not None and np.array_equal(got, (1, 0, 0, 0)), f"{case!r} gives {got}")
    observe(case)


def denote(text):
    """Independent recogniser: value of the text as vector / orientation, or None when it is not well formed."""
    import re
    t = text.lower()
    num = r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:e[+-][0-9]+)?"
    vec = quat = None
    if t in KEY and t == text.lower():
        vec = np.array(KEY[t], float)
    if t == "identity" and t == text.lower():
        quat = np.array([1.0, 0, 0, 0])
    m = re.fullmatch(rf"\[({num}(?:,{num})*)\]", t)
    if m:
        v = np.array([float(x) for x in m.group(1).split(",")])
        if len(v) >= 3:
            vec = v[:3]
        if len(v) >= 4:
            quat = v[:4]
    m = re.fullmatch(rf"(r[xyz]):({num})", t)
    if m:
        ax = dict(x=(1, 0, 0), y=(0, 1, 0), z=(0, 0, 1))[m.group(1)[1]]
        big = abs(float(m.group(2))) > 1e4      # round-off of the angle reduction dominates
        quat = "any" if big else ("rot", G.rodrigues(ax, np.deg2rad(float(m.group(2)))))
    m = re.fullmatch(rf"ru:({num}):\[({num}),({num}),({num})\]", t)
    if m and any(float(m.group(i)) for i in (2, 3, 4)):
        big = abs(float(m.group(1))) > 1e4
        quat = "any" if big else ("rot", G.rodrigues([float(m.group(i)) for i in (2, 3, 4)], np.deg2rad(float(m.group(1)))))
    if t.startswith("rand"):
        vec = "any"
    if t.startswith("ru"):
        quat = "any" if quat is None else quat
    return vec, quat


def mutant(case):
    """A text obtained by one edit: if it still is well formed its value must be right, and whatever is accepted must
    not silently denote something else than its plain reading."""
    vec, quat = denote(case)
    tick()
    got = call(V3.from_string, case)
    squeezed = denote("".join(case.split()))
    if isinstance(vec, np.ndarray):
        expect(got is not None and np.array_equal(got, vec), f"{case!r} gives vector {got}, denotes {vec}")
    elif got is not None and squeezed[0] is None:
        # more tolerant reading is fine as long as the leading numbers agree
        lead = [x for x in case.strip("[] ").split(",")]
        try:
            ok = np.array_equal(got, [float(x) for x in lead[:3]])
        except ValueError:
            ok = False
        expect(ok, f"{case!r} is not a vector but gives {got}")
    gq = call(Q.from_string, case)
    if isinstance(quat, np.ndarray):
        expect(gq is not None and np.array_equal(gq, quat), f"{case!r} gives orientation {gq}, denotes {quat}")
    elif isinstance(quat, tuple):
        expect(gq is not None and close(G.mat(gq), quat[1], 1e-7), f"{case!r} gives orientation {gq}")
    elif gq is not None and quat is None and squeezed[1] is None:
        lead = [x for x in case.strip("[] ").split(",")]
        try:
            ok = np.array_equal(gq, [float(x) for x in lead[:4]])
        except ValueError:
            ok = False
        expect(ok, f"{case!r} is not an orientation but gives {gq}")
    observe((case if got is not None or gq is not None else "rejected"))


FAMILIES = dict(array=array, rotation=rotation, general=general, rand=rand, keyword=keyword, ident=ident, mutant=mutant)


def numbers(quick):
    ints = ["0", "1", "7", "10", "105", "360"]
    fr = ["", ".0", ".5", ".05", ".50", ".25", ".007", ".125", ".333333"]
    ex = ["", "e+0", "e+2", "e-3", "e-05", "e+01"]
    out = [s + i + f + e for s in ("", "-") for i in ints for f in fr for e in ex]
    out += [str(v) for v in (1e-05, 1.5e+16, -2.5e-07, 0.1 + 0.2, 1 / 3, -1e22, 123456.789, 0.05, 100.001)]
    out += [f"{v:.{d}f}" for v in (0.05, 1.05, -2.004, 45.0) for d in (1, 2, 3, 6)]
    return list(dict.fromkeys(out))


def explore(ctx):
    N = numbers(ctx.quick)
    seps = [",", ", ", " ,"]
    arr = [((a, b, c), s) for a in N for b, c in (("0.5", "-2"), ("1.3e-10", "0.05")) for s in seps[:2]]
    arr += [((b, a, c), ",") for a in N for b, c in (("0.5", "-2"),)]
    arr += [((b, c, a), ",") for a in N for b, c in (("0", "-2.0"),)]
    arr += [((b, c, d, a), sp) for a in N for b, c, d in (("0", "-2.0", "1.01"), ("0.70", "0.05", "3")) for sp in seps]
    arr += [(tuple(x), ",") for n in (1, 2, 3, 4, 5) for x in itertools.product(("0", "-1.5", "2.05", "3e-07"), repeat=n)]
    ctx.run("array", arr, procs=8)
    kinds = ["rx", "ry", "rz", "Rx", "RY", "rZ", "RX"]
    ctx.run("rotation", [(k, n, s) for k in kinds for n in N if abs(float(n)) < 1e6 for s in ("", " ")], procs=8)
    axes = [("1", "0", "0"), ("0", "-1", "0"), ("0", "0", "2.5"), ("0.05", "1.05", "-3"), ("1e-03", "2", "0.5"), ("-1", "-1", "-1")]
    ctx.run("general", [(n, a, k) for n in N if abs(float(n)) < 1e4 for a in axes for k in ("ru", "RU", "Ru")], procs=8)
    ctx.run("rand", [(a, b, d) for a in ("0", "-1", "0.05", "-2.005", "1e-05") for b in ("0", "1", "10.05", "2.50", "1e+02")
                     for d in (0.0, 0.5, 0.999)])
    kw = [w for k in KEY for w in {k, k.upper(), k.capitalize()}]
    ctx.run("keyword", kw)
    ctx.run("ident", ["identity", "Identity", "IDENTITY", "iDENTITY"])
    seeds = ["[1,2,3]", "[1.5,-2,0.05]", "[1,-2,1.3e-10,4.0]", "rx:1.3", "ry:-90.05", "rz:1e+02", "ru:90:[0,0,1]",
             "ru:-30.5:[1,-2,0.5]", "ones", "zero", "i", "identity", "[0.1,0.2,0.3,0.04,5]"]
    alpha = "0123459.-+e,[]:rxyzuijka " if ctx.quick else "0123456789.-+e,[]:rxyzuandijkost "
    mut = set()
    for s in seeds:
        for p in range(len(s) + 1):
            for c in alpha:
                mut.add(s[:p] + c + s[p:])
                if p < len(s):
                    mut.add(s[:p] + c + s[p + 1:])
            if p < len(s):
                mut.add(s[:p] + s[p + 1:])
            if p + 1 < len(s):
                mut.add(s[:p] + s[p + 1] + s[p] + s[p + 2:])
    ctx.run("mutant", sorted(mut), procs=8)
