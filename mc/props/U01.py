"""U01 priority queue with updatable priorities."""
import itertools

from rainbow.util.heap import Heap
from mc.core import expect, observe, tick

LEVEL = "model_checking"
RULE = ("Every sequence of push/update/pop operations up to the depth bound over 3 keys and 3 priorities (freshly created "
        "and re-used priority objects), each followed by a complete drain; oracle: a dictionary.")
ASSUMPTIONS = ["ties between equal priorities may be resolved in any order"]
OLD = [0.25, 1.5, 700.0]


def history(case):
    h = Heap()
    ref = {}

    def pop():
        got = h.pop()
        tick()
        if not ref:
            expect(got is None, f"pop of an empty queue gives {got!r}")
        else:
            expect(got in ref and ref[got] == min(ref.values()), f"pop gives {got!r}, queue was {ref}")
            ref.pop(got, None)
    for op in case:
        if op == "pop":
            pop()
        else:
            kind, idx, v, fresh = op
            val = float(str(OLD[v])) if fresh else OLD[v]
            (h.push if kind == "push" else h.update)(idx, val)
            ref[idx] = val
            tick()
        expect(bool(h) == bool(ref), f"emptiness: queue says {bool(h)}, content {ref}")
        observe(sorted(ref.items()))
    for _ in range(len(ref) + 2):
        pop()
        expect(bool(h) == bool(ref), "emptiness while draining")
    expect(h.pop() is None and not h, "an entry survives the drain")


FAMILIES = dict(history=history)


def explore(ctx):
    ops = [("push" if (i + v) % 2 else "update", i, v, True) for i in (1, 2, 3) for v in (0, 1, 2)] + ["pop"]
    d = 5 if ctx.quick else 6
    for n in range(1, d + 1):
        ctx.run("history", itertools.product(ops, repeat=n), procs=8)
    ops2 = [(k, i, v, f) for i in (1, 2) for v in (0, 1) for k, f in (("push", False), ("update", True))] + ["pop"]
    n = 5 if ctx.quick else 7
    ctx.run("history", itertools.product(ops2, repeat=n), procs=8)
    if not ctx.quick:
        ops3 = [("update", i, v, False) for i in (1, 2) for v in (0, 2)] + ["pop"]
        ctx.run("history", itertools.product(ops3, repeat=8), procs=8)
