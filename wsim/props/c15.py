"""A missing optional package disables only the features that need it."""
import contextlib
import importlib.abc
import io
import os
import sys
import types

from . import common as P
from .. import backend as B
from .. import calls as K
from ..canon import canon, diff, digest

TIMEOUT = 150
NEEDS_LIBRARY = False
PACKAGES = ["plotly", "spglib", "scipy", "pytest", "hypothesis"]
PARTS = {"plotly": ["plotly.graph_objects", "plotly.subplots"], "scipy": ["scipy.spatial"], "spglib": [], "pytest": [], "hypothesis": []}
NEED = {"wigner": {"scipy"}, "brillouin": {"scipy"}, "figure": {"plotly"}, "!ws": {"plotly", "scipy"}, "!bz": {"plotly", "scipy"}, "!engine": {"plotly"}}


def prepare():
    """Everything but the library is loaded once; each run then hides what it declares missing."""
    import numpy  # noqa: F401
    import scipy.spatial  # noqa: F401

    K.warm_plotly()
    import spglib  # noqa: F401


def warm():
    """The source files in the page cache."""


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=6) for _ in range(2)]
    missing = []
    for p in PACKAGES:
        if rng.random() < 0.4:
            mode = rng.choice(["absent", "absent", "broken", "none"])
            if PARTS[p] and rng.random() < 0.35:
                mode = rng.choice(["part", "noname"])
            if p == "hypothesis":
                mode = rng.choice(["absent", "none"])
            missing.append({"p": p, "how": mode, "part": rng.choice(PARTS[p]) if PARTS[p] else None, "when": "later" if rng.random() < 0.2 else "import"})
    calls = []
    special = ["!ws", "!bz", "!engine", "!test", "!names", "!star", "!reimport"]
    for _ in range(rng.choice([6, 10, 16])):
        r = rng.random()
        if calls and r < 0.25:
            c = dict(rng.choice(calls))
        elif r < 0.45:
            c = {"f": rng.choice(special), "s": rng.randrange(2), "sd": None, "a": {}}
        else:
            c = K.pick(rng, structs, slow=0.08)
            c["sd"] = None
        if c["f"] in ("wigner", "brillouin", "!ws", "!bz", "lepage") and sum(1 for x in calls if x["f"] == c["f"]) > 1:
            c = {"f": "!names", "s": 0, "sd": None, "a": {}}
        calls.append(c)
    return {"structs": structs, "missing": missing, "calls": calls, "first": rng.choice([None, None, "wulfric.cell", "wulfric.io", "wulfric.kpoints", "wulfric._plotly_engine", "wulfric._spglib_interface"])}


def _ws(w, c):
    import wulfric

    pe = wulfric.PlotlyEngine()
    pe.plot_wigner_seitz_cell(w.cell(c), legend_group="a")
    return pe.fig.to_plotly_json()


def _bz(w, c):
    import wulfric

    pe = wulfric.PlotlyEngine()
    pe.plot_brillouin_zone(w.cell(c), legend_group="a")
    return pe.fig.to_plotly_json()


def _engine(w, c):
    import wulfric

    pe = wulfric.PlotlyEngine(rows=2)
    pe.plot_cell(w.cell(c), legend_group="a")
    return [type(pe).__name__, len(pe.fig.data) > 0]


def _test(w, c):
    """The test runner, when one of its packages is missing; otherwise it would run all the tests."""
    import importlib.util

    import wulfric

    try:
        import pytest  # noqa: F401

        ready = importlib.util.find_spec("hypothesis") is not None
    except ImportError:
        ready = False
    if ready:
        return "skipped"
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        wulfric.test()
    t = f.getvalue()
    return "named" if ("pytest" in t or "hypothesis" in t) else "printed " + t[:100]


def _names(w, c):
    import wulfric

    out = []
    for m in ("", ".cell", ".crystal", ".kpoints", ".geometry", ".io", ".constants"):
        mod = importlib.import_module("wulfric" + m)
        out.append([m, sorted(getattr(mod, "__all__", None) or [n for n in vars(mod) if not n.startswith("_")])])
    return out


def _star(w, c):
    d = {}
    exec("from wulfric import *\nimport wulfric.cell, wulfric.crystal, wulfric.io, wulfric.kpoints, wulfric.geometry, wulfric.constants", d)
    return sorted(k for k in d if not k.startswith("_"))


def _reimport(w, c):
    import importlib

    import wulfric

    return importlib.import_module("wulfric") is wulfric and wulfric.__version__


SPECIAL = {"!ws": _ws, "!bz": _bz, "!engine": _engine, "!test": _test, "!names": _names, "!star": _star, "!reimport": _reimport}


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.rules = {}
        self.hits = 0

    def find_spec(self, name, path=None, target=None):
        r = self.rules.get(name) or self.rules.get(name.split(".")[0] + ".*")
        if r is None:
            return None
        self.hits += 1
        if r == "broken":
            raise ImportError(f"cannot load the compiled part of {name}", name=name)
        raise ModuleNotFoundError(f"No module named {name!r}", name=name)


def hide(blocker, m):
    p, how = m["p"], m["how"]
    names = [n for n in sys.modules if n == p or n.startswith(p + ".")]
    if p == "pytest":
        names += [n for n in sys.modules if n.startswith("_pytest")]
    if how in ("absent", "broken", "none"):
        for n in names:
            del sys.modules[n]
        blocker.rules[p] = blocker.rules[p + ".*"] = "broken" if how == "broken" else "absent"
        if how == "none":
            sys.modules[p] = None
    elif how == "part":
        for n in names:
            if n == m["part"] or n.startswith(m["part"] + "."):
                del sys.modules[n]
        parent = sys.modules.get(p)
        leaf = m["part"].split(".")[1]
        if parent is not None and leaf in vars(parent):
            delattr(parent, leaf)
        blocker.rules[m["part"]] = "broken"
    elif how == "noname":
        stub = types.ModuleType(m["part"])
        stub.__path__ = []
        sys.modules[m["part"]] = stub
        parent = sys.modules.get(p)
        if parent is not None:
            setattr(parent, m["part"].split(".")[1], stub)


def run(plan, missing):
    B.install() if not any(m["p"] == "spglib" and m["when"] == "import" for m in missing) else None
    blocker = Blocker()
    sys.meta_path.insert(0, blocker)
    for m in missing:
        if m["when"] == "import":
            hide(blocker, m)
    import importlib

    try:
        if plan["first"]:
            importlib.import_module(plan["first"])
        import wulfric
    except BaseException as e:  # noqa: BLE001
        return {"import": [type(e).__name__, str(e)[:300]]}
    if not os.path.realpath(wulfric.__file__).startswith("/repo/"):
        raise RuntimeError("wulfric is not imported from /repo")
    for m in missing:
        if m["when"] != "import":
            hide(blocker, m)
    out = []
    for c in plan["calls"]:
        fn = SPECIAL.get(c["f"])
        w = P.outcome(lambda: K.World(plan["structs"]))
        if w[0] != "ok":
            out.append({"r": ["exc", w[1], w[2], []], "mro": w[3], "used": False})
            continue
        B.S.reset()
        r = P.outcome(lambda: fn(w[1], c) if fn else K.invoke(w[1], c))
        rec = ["ok", canon(r[1]), []] if r[0] == "ok" else ["exc", r[1], r[2], []]
        out.append({"r": rec, "mro": r[3] if r[0] == "exc" else [], "used": bool(B.S.calls)})
    return {"import": None, "calls": out, "constants": K.constants(), "hits": blocker.hits}


def execute(plan, ctx):
    ref = ctx.fork(run, plan, [], timeout=100)
    got = ctx.fork(run, plan, plan["missing"], timeout=100)
    if "error" in (ref[0], got[0]):
        raise RuntimeError(str(ref[1] if ref[0] == "error" else got[1]))
    return {"ref": ref, "got": got}


def judge(plan, hist, ctx):
    if hist["ref"][0] != "ok":
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    ref = hist["ref"][1]
    names = [f"{m['p']} ({m['how']}{' ' + m['part'] if m['how'] in ('part', 'noname') else ''}{', after the import' if m['when'] != 'import' else ''})" for m in plan["missing"]]
    where = "without " + ", ".join(names) if names else "with every package"
    if ref["import"]:
        return {"violations": [{"class": "import", "msg": f"the import fails in a full installation: {ref['import']}"}]}
    if hist["got"][0] != "ok":
        return {"violations": [{"class": "died", "msg": f"{where}: the process ended with {hist['got']}"}]}
    got = hist["got"][1]
    if got["import"]:
        return {"violations": [{"class": "import", "msg": f"{where}: import wulfric raises {got['import']}"}]}
    viol, keys, stats = [], [], {}
    faults = {f"{m['p']} {m['how']} {m['when']}": 1 for m in plan["missing"]}
    # what the library may still do without: packages lost after the import, and half-working ones
    half = [m["when"] != "import" or m["how"] == "noname" or m["part"] == "plotly.graph_objects" and m["how"] == "part" for m in plan["missing"]]
    gone = {m["p"] for m, h in zip(plan["missing"], half) if not h}
    later = {m["p"] for m, h in zip(plan["missing"], half) if h}
    d = diff(ref["constants"], got["constants"], 0.0)
    if d:
        viol.append({"class": "constants", "msg": f"{where}: the constants differ: {d}"})
    for c, a, b in zip(plan["calls"], ref["calls"], got["calls"]):
        need = set(NEED.get(c["f"], ()))
        if a["used"]:
            need.add("spglib")
        what = f"{K.show(c)} {where}"
        k = "unneeded"
        if c["f"] == "!test":
            if (gone | later) & {"pytest", "hypothesis"} and b["r"][0] == "ok" and b["r"][1][1] == "skipped":
                pass
            elif b["r"][0] == "ok" and b["r"][1][1] not in ("named", "skipped"):
                viol.append({"class": "test", "msg": f"{what}: the test runner does not name the missing package: {b['r'][1]}"})
            elif b["r"][0] == "exc" and "ImportError" not in b["mro"]:
                viol.append({"class": "test", "msg": f"{what}: the test runner raises {b['r'][1]}: {b['r'][2]}"})
            k = "test"
        elif need & gone:
            k = "needed"
            if b["r"][0] == "ok":
                viol.append({"class": "invented", "msg": f"{what}: needs {sorted(need & gone)} and returned {K.brief(b['r'])}"})
            elif a["r"][0] == "ok" and "ImportError" not in b["mro"]:
                viol.append({"class": "error", "msg": f"{what}: needs {sorted(need & gone)} and raised {b['r'][1]}: {b['r'][2]} instead of ImportError"})
            elif a["r"][0] == "exc" and "ImportError" not in b["mro"] and a["r"][1] != b["r"][1]:
                viol.append({"class": "error", "msg": f"{what}: raised {b['r'][1]}: {b['r'][2]}, and with every package {a['r'][1]}"})
        else:
            early = a["r"][0] == "exc" and gone  # a refused call may be refused for the missing package first
            if (need & later or early) and b["r"][0] == "exc" and "ImportError" in b["mro"]:
                k = "later"
            else:
                d = K.same(b["r"], a["r"])
                if d:
                    viol.append({"class": "affected", "msg": f"{what}: does not need them and differs: {d}"})
        stats[k] = stats.get(k, 0) + 1
        keys.append(digest([c["f"], c["a"], sorted(faults), k]))
    return {"violations": viol, "keys": keys, "nontrivial": keys if plan["missing"] else [], "faults": faults, "stats": stats,
            "sample": {"missing": names, "calls": [c["f"] for c in plan["calls"]]}, "log": digest([b["r"][:2] for b in got["calls"]])}


def shrink(plan):
    for cs in P.drop_each(plan["calls"]):
        yield dict(plan, calls=cs)
    for m in P.drop_each(plan["missing"]):
        yield dict(plan, missing=m)
    if plan["first"]:
        yield dict(plan, first=None)
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
