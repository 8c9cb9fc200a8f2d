"""U02 engines do not influence each other, runs are reproducible, and profiling neither disturbs a run nor misreports it."""
import itertools

import numpy as np

import rainbow.simulators.prox_rigid_bodies.api as API
from mc import rigid, soft
from mc.core import close, expect, observe, tick
from mc.groups import icosa
from mc.soft import API as SOFT

LEVEL = "model_checking"
RULE = ("All interleavings of the set-up and the steps of two engines (of the same and of different simulators), every state compared bit for bit with that of the "
        "engine run alone; all subsets of steps run with profiling; every log entry compared with the state and contacts it describes; all sequences of operations on one engine, with engines created before and after compared with fresh ones; all sequences of timer calls against a controlled clock.")
ASSUMPTIONS = ["steps are taken one after another in one thread", "the random offsets of the spatial hash are fixed"]
ICO = list(icosa())
N = 4


def r_world(**kw):
    e = rigid.engine(6, time_step=0.01, **kw)
    API.create_surfaces_interaction(e, "m", "m", 0.3, np.array([0.5, 0.5, 0.5]))
    API.create_gravity_force(e, "g", 9.81, np.array([0.0, 1.0, 0.0]))
    API.create_damping_force(e, "d", 0.1, 0.2)
    rigid.box_shape(e, "plate", 4.0, 0.5, 4.0)
    rigid.box_shape(e, "box", 1.0, 0.8, 0.6)
    return e


def r_drop():
    e = r_world()
    rigid.body(e, "ground", "plate", r=(0, -0.25, 0), fixed=True, material="m")
    rigid.body(e, "box", "box", r=(0.1, 0.39, 0.2), v=(1.0, -1.0, 0.5), w=(0.1, 0.7, 0.2), forces=("g",), material="m")
    return e


def r_bounce():
    e = r_world(use_bounce=True, use_post_stabilization=True)
    rigid.body(e, "a", "plate", r=(0, -0.25, 0), material="m", forces=("g", "d"))
    rigid.body(e, "b", "box", r=(0.1, 0.37, 0.2), q=(np.cos(0.2), 0, np.sin(0.2), 0), v=(0.0, -2.0, 0.5), material="m", forces=("g",))
    rigid.body(e, "c", "box", r=(1.2, 0.38, 0.2), v=(-0.5, -1.0, 0.0), forces=("g", "d"))
    return e


def r_hinge():
    e = r_world()
    rigid.body(e, "p", "box", fixed=True)
    rigid.body(e, "c", "box", r=(2.0, 0.1, 0.0), q=ICO[17], w=(0.0, 0.3, 1.0), forces=("g", "d"))
    API.create_hinge(e, "h")
    API.set_hinge(e, "h", "p", "c", np.array([1.0, 0.0, 0.0]), np.array([0.0, 0.6, 0.8]), "world")
    return e


def r_spin():
    e = r_world()
    API.create_gravity_force(e, "g2", 3.0, np.array([0.6, 0.0, 0.8]))
    API.create_gravity_force(e, "unused", 50.0, np.array([0.0, 0.0, 1.0]))
    rigid.body(e, "a", "box", q=ICO[40], v=(1, 2, 3), w=(3.0, -2.0, 1.0), forces=("d",))
    rigid.body(e, "b", "box", r=(5.0, 1.0, -2.0), q=ICO[11], w=(0.0, 2.0, 1.0), forces=("g", "g2"), density=3.0)
    rigid.body(e, "c", "box", r=(9.0, 1.0, 3.0), forces=("g2",), density=0.5)
    return e


def s_world(**kw):
    e = soft.engine(8, time_step=0.001, envelope=0.05, **dict(dict(max_iterations=20), **kw))
    SOFT.create_material(e, "m")
    SOFT.set_elasticity(e, "m", 1e3, 0.3)
    SOFT.set_mass_density(e, "m", 10.0)
    SOFT.create_surfaces_interaction(e, "m", "m", 0.5)
    return e


def s_add(e, name, at, mesh=None, v=(0, 0, 0)):
    V, T = mesh or soft.beam(2, 2, 2, 1.0, 1.0, 1.0)
    SOFT.create_soft_body(e, name, V, T)
    SOFT.set_material(e, name, "m")
    SOFT.set_spatial_coordinates(e, name, SOFT.get_material_coordinates(e, name) + np.array(at))
    SOFT.set_velocity(e, name, np.array(v, float))


def s_pair(**kw):
    e = s_world(**kw)
    s_add(e, "a", (0, 0, 0))
    s_add(e, "b", (0.07, 0.97, 0.03), v=(0.5, -1.0, 0.0))
    SOFT.create_dirichlet_conditions(e, "a", lambda p: p[1] + 0.4)
    return e


def s_tree():
    return s_pair(use_spatial_hashing=False, use_post_stabilization=True, max_iterations=200)


def s_beam():
    e = s_world()
    s_add(e, "a", (0, 0, 0), soft.beam(3, 2, 2, 2.0, 1.0, 1.0))
    SOFT.set_constitutive_model(e, "m", SOFT.SNH)
    SOFT.create_dirichlet_conditions(e, "a", lambda p: p[0] + 0.9)
    SOFT.set_viscosity(e, "m", 3.0) if hasattr(SOFT, "set_viscosity") else None
    return e


BUILD = dict(drop=r_drop, bounce=r_bounce, hinge=r_hinge, spin=r_spin, pair=s_pair, tree=s_tree, beam=s_beam)
RIGID = ("drop", "bounce", "hinge", "spin")


def step(name, e, prof=False):
    (API if name in RIGID else SOFT).simulate(e, e.params.time_step, prof)


def state(name, e):
    if name in RIGID:
        return rigid.flat(e)
    return np.concatenate([np.concatenate([b.x, b.u]) for b in e.bodies.values()]).ravel()


_solo = {}


def solo(name):
    if name not in _solo:
        e = BUILD[name]()
        out = [state(name, e)]
        for _ in range(N):
            step(name, e)
            out.append(state(name, e))
        _solo[name] = out
    return _solo[name]


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def interleave(case):
    """word: letters a and b; the first of each letter sets the engine up, the others are steps."""
    names, word, prof = case
    eng, count = {}, {"a": 0, "b": 0}
    for i, c in enumerate(word):
        n = names[0] if c == "a" else names[1]
        if c not in eng:
            eng[c] = BUILD[n]()
        else:
            step(n, eng[c], bool(prof >> i & 1))
            count[c] += 1
        tick()
        for k, e in eng.items():
            m = names[0] if k == "a" else names[1]
            now = state(m, e)
            if not expect(same(now, solo(m)[count[k]]), f"after {word[:i + 1]} engine {k} ({m}) is off by {np.abs(now - solo(m)[count[k]]).max()} from its run alone after {count[k]} steps", "isolated"):
                return
        observe((names, tuple(sorted(count.items())), len(eng)))


def residuals(e, s, prefix, key):
    if prefix + "iterations" not in s:
        return
    r, it, code = np.asarray(s[prefix + "residuals"]), s[prefix + "iterations"], s[prefix + "exitcode"]
    p = e.params
    expect(len(r) == p.max_iterations and 0 <= it <= p.max_iterations and code in (0, 1, 2), f"{len(r)} residuals, {it} iterations, exit code {code}", key)
    n = min(it + 1, p.max_iterations)
    expect(np.isfinite(r[:n]).all() and (r[:n] >= 0).all(), f"residuals {r[:n]}", key)
    expect((code == 0) == (it == p.max_iterations), f"exit code {code} after {it} of {p.max_iterations} iterations", key)
    if code:
        expect(np.isinf(r[n:]).all(), f"residuals {r} after {it} iterations", key)
    if code == 1:
        expect(r[it] < p.absolute_tolerance, f"exit code 1 at residual {r[it]}", key)
    if code != 1:
        expect((r[:n - 1] >= p.absolute_tolerance).all() and r[n - 1] >= p.absolute_tolerance, f"exit code {code} although a residual of {r[:n].min()} was reached", key)


def potential(e):
    total = 0.0
    for b in e.bodies.values():
        if not b.is_fixed:
            for f in b.forces:
                if hasattr(f, "g"):
                    total += b.mass * f.g * (f.up @ b.r)
    return total


def profiled(case):
    """Profiling any subset of the steps leaves the states alone, and each entry tells what happened in its step."""
    name, mask = case
    e = BUILD[name]()
    get_log = API.get_log if name in RIGID else SOFT.get_log
    want, copies = 0, []
    for k in range(N):
        on = bool(mask >> k & 1)
        step(name, e, on)
        want += on
        tick()
        expect(same(state(name, e), solo(name)[k + 1]), f"profiling {mask:b} changed the state after step {k} by {np.abs(state(name, e) - solo(name)[k + 1]).max()}", "neutral")
        L = [s for s in get_log(e) if "dt" in s]  # (the soft body stepper logs its set-up, too)
        if not expect(len(L) == want, f"{len(L)} log entries after {want} profiled steps", "entries"):
            return
        if not on:
            continue
        s = L[-1]
        copies.append((len(L) - 1, {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in s.items()}))
        expect(close(s["dt"], e.params.time_step, 0), f"dt {s['dt']}", "dt")
        expect(s["contact_points"] == len(e.contact_points), f"{s['contact_points']} contact points, the step had {len(e.contact_points)}", "contacts")
        pen = max([0.0] + [-c.g for c in e.contact_points])
        expect(close(s["max_penetration"], pen, 1e-12), f"penetration {s['max_penetration']}, the deepest contact has {pen}", "penetration")
        for t, v in s.items():
            if "timer" in t or t.endswith("_time"):
                expect(np.isfinite(v) and v >= 0, f"{t}: {v}", "times")
        expect(s["stepper_time"] > 0, "no time passed", "times")
        main = "" if name in RIGID else "gauss_seidel_"
        residuals(e, s, main, "residuals")
        residuals(e, s, "post_stabilization_", "residuals")
        if name in RIGID:
            kin = rigid.kinetic(e)
            expect(close(s["kinetic_energy"], kin, 1e-9 * (1 + kin)), f"kinetic energy {s['kinetic_energy']}, should be {kin}", "kinetic")
            pot = potential(e)
            expect(close(s["potential_energy"], pot, 1e-9 * (1 + abs(pot))), f"potential energy {s['potential_energy']}, should be {pot}", "potential")
            if e.contact_points or e.hinges:
                expect(main + "iterations" in s, "the solver left no entry", "solver")
        else:
            el, pot = 0.0, 0.0
            for b in e.bodies.values():
                m = b.material_description
                lam, mu = soft.lame(m.E, m.nu)
                model = "SNH" if name == "beam" else "COR"
                T = np.asarray(b.T)
                el += soft.energy(model, b.x, b.x0, T, lam, mu)
                pot += -(soft.vols(b.x0, T) * m.rho) @ (b.x[T].mean(1) @ b.gravity)
            rest = sum(soft.energy("SNH" if name == "beam" else "COR", b.x0, b.x0, np.asarray(b.T), *soft.lame(b.material_description.E, b.material_description.nu)) for b in e.bodies.values())
            base = soft_rest(name)
            expect(close(s["elastic_energy"] - base, el - rest, 1e-6 * (1 + abs(el))), f"elastic energy {s['elastic_energy'] - base}, should be {el - rest} above that at rest", "elastic")
            expect(close(s["potential_energy"], pot, 1e-9 * (1 + abs(pot))), f"potential energy {s['potential_energy']}, should be {pot}", "potential")
            if e.contact_points:
                expect(main + "iterations" in s, "the solver left no entry", "solver")
    L = [s for s in get_log(e) if "dt" in s]
    for i, c in copies:
        expect(set(c) == set(L[i]) and all(np.array_equal(c[k], L[i][k]) for k in c), f"entry {i} changed later", "kept")
    observe((name, mask))


_rest = {}


def soft_rest(name):
    """Elastic energy the simulator reports for the undeformed bodies (a constant of the model)."""
    if name not in _rest:
        e = BUILD[name]()
        for b in list(e.bodies):
            SOFT.set_spatial_coordinates(e, b, SOFT.get_material_coordinates(e, b))
        _rest[name] = soft.SOLVER.compute_elastic_energy(e, {}, False)
    return _rest[name]


def repeated(case):
    """The same set-up gives the same run, whatever was done before in the process."""
    name, noise = case
    if noise == "random":
        np.random.seed(5)
        np.random.random(17)
    elif noise == "discard":
        for n in BUILD:
            step(n, BUILD[n]())
    elif noise == "profile":
        e = BUILD[name]()
        step(name, e, True)
        step(name, e, True)
    elif noise == "params":
        e = BUILD[name]()
        e.params.time_step *= 3
        e.params.max_iterations = 1
        e.params.envelope = 0.5
        step(name, e)
    elif noise == "error":
        e = BUILD[name]()
        for bad in (0.0, -1.0):
            try:
                (API if name in RIGID else SOFT).simulate(e, bad)
            except ValueError:
                pass
    e = BUILD[name]()
    expect(same(state(name, e), solo(name)[0]), "another initial state", "repeat")
    for k in range(N):
        step(name, e)
        tick()
        expect(same(state(name, e), solo(name)[k + 1]), f"after {noise} the run differs in step {k} by {np.abs(state(name, e) - solo(name)[k + 1]).max()}", "repeat")
    observe((name, noise))


def timer(case):
    """All sequences of start, end and waiting against a clock we control."""
    import time
    from rainbow.util.timer import Timer
    now, real = [100.0], time.perf_counter
    time.perf_counter = lambda: now[0]
    try:
        t = Timer("t", 3)
        begun, last, total = None, 0, 0
        for op in case:
            if op == "s":
                t.start()
                begun = now[0]
            elif op == "e":
                try:
                    t.end()
                    expect(begun is not None, f"{case}: end without start", "timer")
                    last = now[0] - (begun or 0)
                    total += last
                except RuntimeError:
                    expect(begun is None, f"{case}: end refused", "timer")
                begun = None
            else:
                now[0] += float(op)
            tick()
            expect(close([t.elapsed, t.total], [last, total], 1e-12), f"{case}: elapsed {t.elapsed}, total {t.total}, should be {last}, {total}", "timer")
        txt = str(t)
        expect("t:" in txt and f"{last:.3f}" in txt and f"{total:.3f}" in txt, f"{case}: '{txt}'", "timer")
    finally:
        time.perf_counter = real
    observe((last, total))


def snapshot(x, path=()):
    """The content of an engine, as nested tuples."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tobytes() if x.size < 1e6 else tuple(x[(0,) * (x.ndim - 1)][:5]))
    if isinstance(x, (type(None), bool, int, float, str, np.generic)):
        return repr(x)
    if isinstance(x, type) or callable(x) and not hasattr(x, "__dict__"):
        return repr(x)
    if id(x) in path:
        return "^"
    path = path + (id(x),)
    if isinstance(x, dict):
        return tuple((str(k), snapshot(v, path)) for k, v in x.items())
    if isinstance(x, (list, tuple, set)):
        return tuple(snapshot(v, path) for v in x)
    if callable(x):
        return getattr(x, "__qualname__", "?")
    if hasattr(x, "__dict__"):
        return (type(x).__name__,) + snapshot(vars(x), path)
    return type(x).__name__


def differing(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (a and a[0] == "array"):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differing(x, y, f"{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
    return f"{path}: {str(b)[:60]} instead of {str(a)[:60]}"


def tweak(e):
    for k, v in vars(e.params).items():
        if isinstance(v, bool):
            setattr(e.params, k, not v)
        elif isinstance(v, (int, float)):
            setattr(e.params, k, v * 2 + 1)


def loosen(e):
    for i in e.surfaces_interactions.storage.values():
        i.mu[:] = 0.123
        i.epsilon = 0.5


R_OPS = dict(params=tweak, interaction=loosen, material=lambda e: API.create_surfaces_interaction(e, "default", "x", 0.5, np.array([0.1, 0.2, 0.3])),
             force=lambda e: API.create_gravity_force(e, "G", 1.0, np.array([1.0, 0, 0])), shape=lambda e: rigid.box_shape(e, "S"),
             body=lambda e: API.create_rigid_body(e, "B"), move=lambda e: API.set_position(e, "B", np.array([1.0, 2, 3])), spin=lambda e: e.bodies["B"].w.__iadd__(1.0),
             hinge=lambda e: API.create_hinge(e, "H"), connect=lambda e: API.connect_shape(e, "B", "S"), run=lambda e: API.simulate(e, 0.01, True))
S_OPS = dict(params=tweak, interaction=loosen, density=lambda e: SOFT.set_mass_density(e, "default", 3.0), elastic=lambda e: SOFT.set_elasticity(e, "default", 7.0, 0.1),
             model=lambda e: SOFT.set_constitutive_model(e, "default", SOFT.SNH), viscosity=lambda e: SOFT.set_viscosity(e, "default", 2.0),
             body=lambda e: SOFT.create_soft_body(e, "B", *soft.TET), gravity=lambda e: SOFT.set_gravity(e, "B", (1.0, 0, 0)), pull=lambda e: e.bodies["B"].gravity.__iadd__(1.0),
             clamp=lambda e: SOFT.create_dirichlet_conditions(e, "B", lambda p: -1.0), load=lambda e: SOFT.create_traction_conditions(e, "B", lambda p: -1.0, np.ones(3)),
             material=lambda e: SOFT.create_material(e, "x"), run=lambda e: SOFT.simulate(e, 0.001, True))
_fresh = {}


def fresh(kind):
    return rigid.engine(6) if kind == "rigid" else soft.engine(6)


def defaults(case):
    """Whatever is done to one engine, engines created before and after it are those a fresh process would have."""
    kind, word, others = case
    if not _fresh:
        for k in ("rigid", "soft"):
            _fresh[k] = snapshot(fresh(k))
    before = {k: fresh(k) for k in ("rigid", "soft")}
    old = BUILD[others]()
    was = snapshot(old)
    e = fresh(kind)
    for op in word:
        try:
            (R_OPS if kind == "rigid" else S_OPS)[op](e)
        except (KeyError, ValueError, RuntimeError, AttributeError, TypeError):
            pass  # calls that need something that is not there
        tick()
    now = snapshot(old)
    expect(now == was, f"{word} in one engine changed another ({others}): {differing(was, now)}", "leak")
    for k, b in before.items():
        expect(snapshot(b) == _fresh[k], f"{word} in a {kind} engine changed another: {differing(_fresh[k], snapshot(b))}", "leak")
        c = snapshot(fresh(k))
        expect(c == _fresh[k], f"{word} in a {kind} engine changed what a new {k} engine holds: {differing(_fresh[k], c)}", "leak")
    observe((kind, word))


FAMILIES = dict(defaults=defaults, timer=timer, interleave=interleave, profiled=profiled, repeated=repeated)


def explore(ctx):
    q = ctx.quick
    pairs = list(itertools.product(BUILD, repeat=2))
    few = [p for p in pairs if set(p) <= {"drop", "hinge", "pair"}]
    def words(k):
        return ["".join("a" if i in c else "b" for i in range(2 * k)) for c in map(set, itertools.combinations(range(2 * k), k))]
    C = [(p, w, pr) for p in pairs for w in words(3) for pr in ((0,) if q else (0, 0b110100))][::5 if q else 1]
    C += [(p, w, 0) for p in few for w in words(3 if q else 5)]
    ctx.run("interleave", C, procs=8)
    ctx.run("timer", [w for n in range(1, 6 if q else 8) for w in itertools.product("se14", repeat=n)], procs=8)
    ctx.run("profiled", [(n, m) for n in BUILD for m in range(2 ** N)], procs=8)
    ctx.run("repeated", [(n, z) for n in BUILD for z in ("none", "random", "discard", "profile", "params", "error")], procs=8)
    W = [(k, w, o) for k, ops, o in (("rigid", R_OPS, "bounce"), ("soft", S_OPS, "beam")) for n in range(1, 3 if q else 4) for w in itertools.product(ops, repeat=n)]
    W += [(k, tuple(ops), o) for k, ops, o in (("rigid", R_OPS, "bounce"), ("soft", S_OPS, "beam"))]
    ctx.run("defaults", W[::2] + W[-2:] if q else W, procs=8)
