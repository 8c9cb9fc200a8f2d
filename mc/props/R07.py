"""R07 simulate() divides the requested time into time steps (rigid and soft simulators)."""
import itertools
import math
from fractions import Fraction

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
import rainbow.simulators.prox_soft_bodies.api as SOFT
import rainbow.simulators.prox_soft_bodies.types as SOFTTYPES
from mc import rigid
from mc.core import close, expect, observe, tick
from mc.props.G06 import Dice

LEVEL = "model_checking"
RULE = ("All pairs (duration, time step) over a lattice of decimal fractions (where the duration is, is not, and almost is a multiple of "
        "the step) and all sequences of up to 3 calls, through a recording stepper put in the engine; real worlds stepped as a whole "
        "and in parts; both simulators; non-positive durations rejected.")
ASSUMPTIONS = ["durations are decimal fractions; one step more or less is judged with exact rational arithmetic"]


class Recorder:
    def __init__(self):
        self.dts, self.log, self.flags = [], [], []

    def step(self, dt, engine, flag=False):
        self.dts.append(dt)
        self.flags.append(flag)


_soft = []


def engine(kind):
    if kind == "rigid":
        return rigid.engine(), API.simulate
    if not _soft:
        with Dice("lin"):
            _soft.append(SOFT.create_engine())
    return _soft[0], SOFT.simulate


def partition(case):
    kind, step, times = case
    e, simulate = engine(kind)
    rec = e.stepper = Recorder()
    h = float(step)
    e.params.time_step = h
    total = 0
    for T in times:
        rec.dts.clear()
        simulate(e, float(T))
        tick()
        d = rec.dts
        exact = Fraction(T) / Fraction(step)
        n = math.ceil(exact)
        expect(all(0 < x <= h * (1 + 1e-12) for x in d), f"step sizes {d[:3]}..{d[-2:]} with time step {h}", "size")
        expect(abs(sum(d) - float(T)) <= 1e-9 * float(T), f"simulate({T}) advances the time by {sum(d)}", "sum")
        expect(len(d) == n, f"simulate({T}) with time step {step} takes {len(d)} steps, the smallest is {min(d)}; expected {n}", "count:" + kind)
        expect(all(abs(x - h) <= 1e-9 * h for x in d[:n - 1]), f"full steps first: {d}", "full")
        total += len(d)
    observe((kind, step, times))
    e.stepper = None
    if kind == "rigid":
        e.stepper = rec


def rejected(case):
    kind, T = case
    e, simulate = engine(kind)
    rec = e.stepper = Recorder()
    e.params.time_step = 0.1
    try:
        simulate(e, T)
        ok = True
    except ValueError:
        ok = False
    tick()
    expect(not ok and not rec.dts, f"simulate({T}) was accepted")
    observe(case)
    e.stepper = None


def world(pre):
    e = rigid.engine(use_pre_stabilization=pre, use_bounce=False, envelope=0.05)
    rigid.box_shape(e, "cube")
    rigid.box_shape(e, "slab", 4, 1, 4)
    API.create_gravity_force(e, "g", 9.81, np.array([0.0, 1.0, 0.0]))
    rigid.body(e, "floor", "slab", (0, -0.5, 0), fixed=True)
    rigid.body(e, "box", "cube", (0.1, 0.49, 0.0), v=(0, -0.1, 0), forces=["g"])
    rigid.body(e, "free", "cube", (9, 9, 9), q=(0.5, 0.5, 0.5, 0.5), v=(0.5, 1, 2), w=(1, 2, 3), forces=["g"])
    return e


def compose(case):
    """Simulating the parts of a duration one after the other is simulating the whole."""
    pre, step, parts = case
    a, b = world(pre), world(pre)
    a.params.time_step = b.params.time_step = float(step)
    API.simulate(a, float(sum(Fraction(p) for p in parts)))
    for p in parts:
        API.simulate(b, float(p))
    tick(len(parts) + 1)
    for n in a.bodies:
        for what, x, y in zip("rqvw", rigid.state(a)[n], rigid.state(b)[n]):
            expect(close(x, y, 1e-6), f"{what} of {n}: {x} in one call, {y} in {len(parts)} calls", f"compose:{what}")
    s = rigid.state(a)["box"]
    expect(np.abs(s[0] - (0.1, 0.49, 0.0)).max() < 0.2 and np.abs(s[2]).max() < 2.0, f"resting box thrown to {s[0]} with velocity {s[2]}", "compose:rest")
    observe((case, rigid.flat(a)), 3)


FAMILIES = dict(partition=partition, rejected=rejected, compose=compose)


def explore(ctx):
    q = ctx.quick
    steps = ["0.1", "0.01", "0.05", "0.03", "0.25", "0.001", "1", "0.7", "0.0033"] + ([] if q else ["0.02", "0.04", "0.06", "0.0001", "0.3", "1.1"])
    kmax = 60 if q else 400
    cases = []
    for kind in ("rigid", "soft"):
        for st in steps:
            for k in range(1, kmax + 1):
                f = Fraction(st)
                for num in (f * k, f * k + f / 2, f * k - f / 4, f / k):
                    dec = num.limit_denominator(10 ** 12)
                    s = f"{float(dec):.12g}"
                    cases.append((kind, st, (s,)))
        for st in steps:
            for parts in itertools.product((1, 3, 7), repeat=3):
                cases.append((kind, st, tuple(f"{float(Fraction(st) * p):.12g}" for p in parts)))
    ctx.run("partition", cases, procs=8)
    ctx.run("rejected", [(k, T) for k in ("rigid", "soft") for T in (0, 0.0, -0.0, -1e-9, -1, -100.0)])
    cs = [(pre, st, tuple(f"{float(Fraction(st) * p):.12g}" for p in parts)) for pre in (False, True) for st in ("0.01", "0.1", "0.05")
          for n in (1, 2, 3) for parts in itertools.product((1, 3, 6) if q else (1, 2, 3, 6, 7), repeat=n)]
    ctx.run("compose", cs, procs=8)
