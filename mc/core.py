"""
Shared explorer.

A property module (mc/props/<ID>.py) defines
    LEVEL, RULE, ASSUMPTIONS and
    FAMILIES : dict  name -> run(case)        executes ONE case on the real code and checks it
    explore(ctx)                              enumerates the cases (ctx.run / ctx.bfs)
A case is a plain Python literal, so that every violation is a replayable artefact: `./check ID --replay FILE`
re-executes exactly that case on the current tree without the explorer.

run(case) reports with
    fail(msg, key=...)     the property is broken for this case (key identifies the finding)
    tick(n)                n steps of the real code were executed and compared with the reference
    observe(x)             an observed abstract state/outcome (counted as distinct states)
An exception escaping run(case) is a failure of the case as well (the code under test crashed).
"""
import ast
import collections
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Failure(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class HarnessError(Exception):
    """The harness (not the code under test) is broken: reported as an error of the check."""


class _Acc:
    def __init__(self):
        self.ticks = 0
        self.states = set()
        self.failures = []


ACC = _Acc()


def tick(n=1):
    ACC.ticks += n


def canon(x, nd=6):
    """Canonical plain form of an observation (floats rounded, -0.0 normalised)."""
    if isinstance(x, np.ndarray):
        return canon(x.tolist(), nd)
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, nd) for v in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v, nd)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(str(canon(v, nd)) for v in x))
    if isinstance(x, (float, np.floating)):
        if x != x:
            return "nan"
        r = round(float(x), nd)
        return 0.0 if r == 0 else r
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    return x


def observe(x, nd=6):
    h = hashlib.blake2b(repr(canon(x, nd)).encode(), digest_size=8).digest()
    ACC.states.add(h)
    return h


def fail(msg, key=None):
    """Record a failure and go on with the case."""
    ACC.failures.append((msg, key))


def require(cond, msg, key=None):
    if not cond:
        raise Failure(msg() if callable(msg) else msg, key)


def expect(cond, msg, key=None):
    if not cond:
        fail(msg() if callable(msg) else msg, key)
    return cond


def close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.max(np.abs(a - b)) <= tol * (1.0 + np.max(np.abs(b))))


def arrays(x):
    """All arrays, lists and numbers reachable in a result."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in arrays(y)]
    if isinstance(x, dict):
        return [a for y in x.values() for a in arrays(y)]
    return [np.asarray(x)] if isinstance(x, (int, float, np.number)) else []


def fresh(call, what):
    """Two equal calls give equal results that share nothing: what a caller does with the first never shows in the second."""
    r = arrays(call())
    before = [a.copy() for a in r]
    for a in r:
        if a.flags.writeable and a.dtype.kind in "if":
            a += 1
    again = arrays(call())
    tick()
    expect(len(before) == len(again) and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(before, again)),
           f"{what} returns what an earlier caller did to its result", "fresh")


def plain(x):
    """Turn numpy things in a case into plain literals."""
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    return x


def run_one(fn, case):
    """Run one case; returns list of (msg, key)."""
    ACC.failures = []
    try:
        fn(case)
    except Failure as e:
        ACC.failures.append((e.msg, e.key))
    except HarnessError:
        raise
    except Exception as e:  # the code under test crashed
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/rainbow/" in f.filename),
                     f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}:{tb[-1].lineno}")
        ACC.failures.append((f"unexpected {type(e).__name__}: {e} at {where}", f"exception:{type(e).__name__}:{where}"))
    out = ACC.failures
    ACC.failures = []
    return out


def _worker(args):
    name, fn, cases = args
    global ACC
    ACC = _Acc()
    bad = []
    for case in cases:
        f = run_one(fn, case)
        if f:
            bad.append((case, f))
            if len(bad) > 200:
                break
    return len(cases), ACC.ticks, ACC.states, bad


class Ctx:
    def __init__(self, pid, module, tier, seed):
        self.pid, self.module, self.tier, self.seed = pid, module, tier, seed
        self.quick = tier != "thorough"
        self.traces = 0
        self.ticks = 0
        self.states = set()
        self.violations = []  # (family, case, msg, key)
        self.samples = []
        self.families = collections.OrderedDict()
        self.capped = False
        self.t0 = time.time()

    # -- exhaustive enumeration of an explicit, finite list of cases -----------------------------
    def run(self, name, cases, procs=1, chunk=None):
        fn = self.module.FAMILIES[name]
        cases = list(cases)
        t0 = time.time()
        s0, k0 = len(self.states), self.ticks
        if cases and len(self.samples) < 12:
            self.samples.append(f"{name}: {str(plain(cases[len(cases) // 2]))[:300]}")
        if procs > 1 and len(cases) > 1:
            chunk = chunk or max(1, min(200, len(cases) // (procs * 4) or 1))
            jobs = [(name, fn, cases[i:i + chunk]) for i in range(0, len(cases), chunk)]
            with mp.get_context("fork").Pool(procs) as pool:
                results = list(pool.imap_unordered(_worker, jobs))
        else:
            results = [_worker((name, fn, cases))]
        for n, ticks, states, bad in results:
            self.traces += n
            self.ticks += ticks
            self.states |= states
            for case, fs in bad:
                for msg, key in fs:
                    self.violations.append((name, case, msg, key or f"{name}:{plain(case)!r}"))
        f = self.families.setdefault(name, dict(cases=0, steps=0, new_states=0, wall_s=0.0))
        f["cases"] += len(cases)
        f["steps"] += self.ticks - k0
        f["new_states"] += len(self.states) - s0
        f["wall_s"] = round(f["wall_s"] + time.time() - t0, 2)

    # -- breadth first search over operation histories -------------------------------------------
    def bfs(self, name, enabled, key_of, depth, max_states=10**9):
        """
        enabled(history) -> list of operations; FAMILIES[name](history) replays the WHOLE history on a fresh real
        object next to the reference model, compares after every operation;
        key_of(history) -> canonical reference-model state (used to merge histories with equal futures).
        """
        fn = self.module.FAMILIES[name]
        t0 = time.time()
        s0, k0 = len(self.states), self.ticks
        seen = {key_of(())}
        frontier = [()]
        n_hist = 0
        for d in range(depth):
            nxt = []
            hists = [h + (op,) for h in frontier for op in enabled(h)]
            n_hist += len(hists)
            procs = 8 if len(hists) > 400 else 1
            chunk = max(1, min(250, len(hists) // (procs * 4) or 1))
            jobs = [(name, fn, hists[i:i + chunk]) for i in range(0, len(hists), chunk)]
            if procs > 1:
                with mp.get_context("fork").Pool(procs) as pool:
                    results = list(pool.imap_unordered(_worker, jobs))
            else:
                results = [_worker(j) for j in jobs]
            for n, ticks, states, bad in results:
                self.traces += n
                self.ticks += ticks
                self.states |= states
                for case, fs in bad:
                    for msg, key in fs:
                        self.violations.append((name, case, msg, key or f"{name}:{plain(case)!r}"))
            if self.violations and len(self.violations) > 200:
                break
            for h in hists:
                k = key_of(h)
                if k not in seen:
                    seen.add(k)
                    nxt.append(h)
            if len(seen) > max_states:
                self.capped = True
                break
            frontier = nxt
            if not frontier:
                break
        if frontier or n_hist:
            self.samples.append(f"{name}: {str(plain(hists[len(hists) // 2]))[:300]}" if n_hist and hists else name)
        self.families[name] = dict(histories=n_hist, model_states=len(seen), depth=d + 1, steps=self.ticks - k0,
                                   new_states=len(self.states) - s0, wall_s=round(time.time() - t0, 2))
        for k in seen:
            self.states.add((name, k))


def load_known():
    path = os.path.join(ROOT, "known_findings.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            # finding: property=<id> key=<key> | what fails
            head, _, what = line[len("finding:"):].partition("|")
            parts = dict(p.split("=", 1) for p in head.split() if "=" in p)
            known[(parts["property"], parts["key"])] = what.strip()
    return known


def report(ctx):
    pid = ctx.pid
    known = load_known()
    shown, new = set(), []
    for fam, case, msg, key in ctx.violations:
        k = (pid, key.replace(" ", ""))
        if k in known:
            shown.add(k)
        else:
            new.append((fam, case, msg, key))
    for k in sorted(k for k in known if k[0] == pid):
        if k in shown:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    done = set()
    for fam, case, msg, key in new:
        if key in done or len(done) >= 10:
            continue
        done.add(key)
        path = os.path.join(rdir, f"{pid}-{len(done)}.json")
        json.dump({"property": pid, "family": fam, "case": repr(plain(case)), "message": msg, "key": key,
                   "how": f"./check {pid} --replay {path}"}, open(path, "w"), indent=1)
        print(f"  {fam}: {str(plain(case))[:400]}\n    {msg[:1200]}")
        print(f"VIOLATION property={pid} replay={path}")
    m = ctx.module
    cov = {"samples": ctx.samples[:12] or ["-"], "exhaustive": not ctx.capped, "families": ctx.families}
    if m.LEVEL == "model_checking":
        cov.update(states=len(ctx.states), transitions=ctx.ticks, traces_validated_against_impl=ctx.traces,
                   bounds=m.RULE)
    else:
        cov.update(evaluations=ctx.ticks, distinct_nontrivial=len(ctx.states), rule=m.RULE, cases=ctx.traces)
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": m.LEVEL, "coverage": cov,
          "assumptions": m.ASSUMPTIONS, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{ctx.tier}] traces={ctx.traces} steps={ctx.ticks} states={len(ctx.states)} "
          f"new_violations={len(new)} known={len(shown)} wall={ev['wall_s']}s")
    for n, d in ctx.families.items():
        print("   ", n, d)
    return 1 if new else 0


def main(argv):
    import importlib
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    module = importlib.import_module(f"mc.props.{pid}")
    if len(argv) > 2 and argv[1] == "--replay":
        art = json.load(open(argv[2]))
        fs = run_one(module.FAMILIES[art["family"]], ast.literal_eval(art["case"]))
        for msg, key in fs:
            print(f"  {art['family']}: {msg}\nVIOLATION property={pid} replay={argv[2]}")
        return 1 if fs else 0
    ctx = Ctx(pid, module, "thorough" if tier == "thorough" else "quick", seed)
    module.explore(ctx)
    if ctx.traces == 0 or len(ctx.states) < 2:
        raise HarnessError("vacuous exploration")
    return report(ctx)
