"""A controlled scheduler for numba's parallel loops.

Importing this module before the code under test replaces numba.njit/jit by decorators that keep the Python function. A function declared
parallel=True gets its array arguments wrapped in Tracked arrays, and every prange in it (i) visits its iterations in the order given by
the current schedule and (ii) records which memory cells each iteration reads and writes. Two iterations that never touch a common cell of
which one writes are independent: all interleavings of the loop are then equivalent to the visited one (one representative per
Mazurkiewicz trace), otherwise `races` lists the conflict."""
import builtins
import functools
import sys

import numba
import numpy as np

assert not any(m.startswith("rainbow.simulators.proximal_contact") for m in sys.modules), "mc.sched must be imported first"

ORDER = [None]      # function n -> sequence of iterations (None: ascending)
CUR = [None]        # (reads, writes) of the running iteration
RACES = []          # descriptions
LOOPS = []          # number of iterations of every parallel loop executed
DEPTH = [0]


class Tracked(np.ndarray):
    def __new__(cls, a):
        t = np.asarray(a).view(cls)
        t._name = object()
        t._ids = np.arange(t.size).reshape(t.shape)
        return t

    def __array_finalize__(self, obj):
        self._name = None
        self._ids = None

    def _log(self, k, ids):
        if CUR[0] is not None and self._name is not None:
            CUR[0][k].update((id(self._name), int(i)) for i in np.ravel(ids))

    def plain(self):
        return self.view(np.ndarray)

    def __getitem__(self, key):
        key = strip(key)
        res = self.plain()[key]
        if self._ids is None:
            return res
        ids = self._ids[key]
        if isinstance(res, np.ndarray) and res.base is not None and np.may_share_memory(res, self.plain()) and not fancy(key):
            t = res.view(Tracked)
            t._name, t._ids = self._name, ids
            return t
        self._log(0, ids)
        return res

    def __setitem__(self, key, value):
        key = strip(key)
        if self._ids is not None:
            self._log(1, self._ids[key])
        self.plain()[key] = strip(value)

    def copy(self, order="C"):
        if self._ids is not None:
            self._log(0, self._ids)
        return self.plain().copy() if CUR[0] is not None else Tracked(self.plain().copy())

    def dot(self, other, out=None):
        if self._ids is not None:
            self._log(0, self._ids)
        if isinstance(other, Tracked) and other._ids is not None:
            other._log(0, other._ids)
        return self.plain().dot(strip(other))

    def __array_ufunc__(self, ufunc, method, *inputs, out=(), **kw):
        for a in inputs:
            if isinstance(a, Tracked) and a._ids is not None:
                a._log(0, a._ids)
        for a in out:
            if isinstance(a, Tracked) and a._ids is not None:
                a._log(1, a._ids)
        if out:
            kw["out"] = tuple(strip(a) for a in out)
        r = getattr(ufunc, method)(*(strip(a) for a in inputs), **kw)
        return out[0] if out else r

    def __array_function__(self, func, types, args, kwargs):
        note(args)
        note(kwargs)
        return func(*strip(args), **strip(kwargs))


def fancy(key):
    return any(isinstance(k, (list, np.ndarray, range)) for k in (key if isinstance(key, tuple) else (key,)))


def note(a):
    if isinstance(a, Tracked):
        if a._ids is not None:
            a._log(0, a._ids)
    elif isinstance(a, (tuple, list)):
        for x in a:
            note(x)
    elif isinstance(a, dict):
        note(list(a.values()))


def strip(a):
    if isinstance(a, Tracked):
        return a.plain()
    if isinstance(a, tuple):
        return tuple(strip(x) for x in a)
    if isinstance(a, list):
        return [strip(x) for x in a]
    if isinstance(a, dict):
        return {k: strip(v) for k, v in a.items()}
    return a


def prange(*args):
    its = list(builtins.range(*(int(a) for a in args)))
    if DEPTH[0] == 0 or CUR[0] is not None:      # not in a parallel function, or nested
        yield from its
        return
    order = ORDER[0](len(its)) if ORDER[0] else builtins.range(len(its))
    seen = []
    LOOPS.append(len(its))
    for k in order:
        CUR[0] = (set(), set())
        seen.append((its[k], CUR[0]))
        yield its[k]
        CUR[0] = None
    for i in builtins.range(len(seen)):
        for j in builtins.range(i):
            (a, (ra, wa)), (b, (rb, wb)) = seen[i], seen[j]
            if wa & wb or wa & rb or wb & ra:
                RACES.append(f"iterations {b} and {a} of a parallel loop touch {len(wa & wb)} common cells for writing, {len(wa & rb | wb & ra)} for reading and writing")


def _decorator(*args, parallel=False, **kw):
    def wrap(f):
        if not parallel:
            return f

        @functools.wraps(f)
        def run(*a, **k):
            DEPTH[0] += 1
            try:
                r = f(*(Tracked(x) if isinstance(x, np.ndarray) else x for x in a), **{n: Tracked(x) if isinstance(x, np.ndarray) else x for n, x in k.items()})
            finally:
                DEPTH[0] -= 1
                CUR[0] = None
            return strip(r)
        return run
    return wrap(args[0]) if args and callable(args[0]) else wrap


numba.njit = numba.jit = _decorator
numba.prange = prange
