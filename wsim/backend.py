"""The symmetry backend behind a seam: every public function of spglib counts its outermost calls and may be told to fail."""
import functools
import importlib
import sys
import types

SEARCH = ("get_symmetry_dataset", "find_primitive", "standardize_cell", "refine_cell", "get_symmetry", "get_spacegroup", "get_magnetic_symmetry_dataset",
          "get_magnetic_symmetry", "get_symmetry_layerdataset", "get_layergroup", "get_ir_reciprocal_mesh", "get_pointgroup")
REDUCE = ("niggli_reduce", "delaunay_reduce")


class State:
    def __init__(self):
        self.reset()

    def reset(self, rules=()):
        self.depth = 0
        self.calls = []
        self.count = 0
        self.rules = list(rules)
        self.limit = None
        self.fired = []


S = State()


class BackendDied(Exception):
    """An error of the backend's own kind."""


def error(kind):
    import spglib

    if kind == "SpglibError":
        return getattr(spglib, "SpglibError", RuntimeError)("injected")
    return {"RuntimeError": RuntimeError, "ValueError": ValueError, "TypeError": TypeError, "MemoryError": MemoryError, "OSError": OSError}[kind]("injected")


def _wrap(name, fn):
    @functools.wraps(fn)
    def call(*a, **k):
        if S.depth:
            return fn(*a, **k)
        n = S.count
        S.count += 1
        if S.limit is not None and n > S.limit[0]:
            raise S.limit[1]
        S.calls.append(name)
        rule = next((r for r in S.rules if r["at"] <= n < r["at"] + r["times"]), None)
        if rule is not None:
            S.fired.append([n, name, rule["how"]])
            if rule["how"] == "None":
                return None
            raise error(rule["how"])
        S.depth += 1
        try:
            return fn(*a, **k)
        finally:
            S.depth -= 1

    call.__wsim__ = fn
    return call


def install():
    """Before the library is imported."""
    import spglib

    assert "wulfric" not in sys.modules
    new = {}
    for name in SEARCH + REDUCE:
        fn = getattr(spglib, name, None)
        if callable(fn):
            new[fn] = _wrap(name, fn)
    for m in list(sys.modules.values()):
        if isinstance(m, types.ModuleType) and (m.__name__ == "spglib" or m.__name__.startswith("spglib.")):
            for k, v in list(vars(m).items()):
                try:
                    w = new.get(v)
                except TypeError:
                    continue
                if w is not None:
                    setattr(m, k, w)
    importlib.invalidate_caches()
    return sorted(f.__name__ for f in new)
