"""Every call ends after a bounded number of steps, whatever it is given and whatever fails; nothing piles up behind many calls."""
import gc
import io
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from . import common as P
from . import c16, c19
from .. import backend as B
from .. import calls as K
from .. import crystals as C
from .. import trace
from ..canon import digest

TIMEOUT = 200
HOWS = ["None", "RuntimeError", "SpglibError", "MemoryError"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
NASTY = ["nan", "inf", "-inf", 0.0, -0.0, 1e-300, 1e300, 1e16, 1e-17, 5e-324, -1.0]
LIMIT = 2_500_000  # lines of the library; the longest calls on the unchanged tree take 200 000
TEXTS = ["line", "", " ", "1 2 3", "0.5 0.5 0.5 T T F", "Fe O", "1 1", "Direct", "Selective dynamics", "-1.0", "1e400", "nan nan nan", "\x00", "9999999", "1 2", "Cartesian", "0 0 0"]


def prepare():
    B.install()


def warm():
    K.warm_plotly()
    import scipy.spatial  # noqa: F401


# -------------------------------------------------------------------------------------------- plans
def hostile(rng, s):
    """The structure with something wrong or extreme about it."""
    s = P.json.loads(P.json.dumps(s))
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(12)
        cell, pos = s["cell"], s["atoms"]["positions"]
        if k == 0:
            cell[rng.randrange(3)][rng.randrange(3)] = rng.choice(NASTY)
        elif k == 1 and pos:
            pos[rng.randrange(len(pos))][rng.randrange(3)] = rng.choice(NASTY + [1e9, -1e12])
        elif k == 2:
            f = rng.choice([1e-12, 1e-8, 1e-4, 1e4, 1e8, 1e150])
            s["cell"] = [[x if isinstance(x, str) else x * f for x in r] for r in cell]
        elif k == 3:
            i, j = rng.sample(range(3), 2)
            f = rng.choice([7, 100, 1000, 12345, 1e6])
            if not any(isinstance(x, str) for r in cell for x in r):
                cell[i] = [a + f * b for a, b in zip(cell[i], cell[j])]
        elif k == 4:
            i, j = rng.sample(range(3), 2)
            e = rng.choice([0.0, 1e-15, 1e-9, 1e-6, 1e-4])
            if not any(isinstance(x, str) for r in cell for x in r):
                cell[i] = [b * rng.choice([1, 1, 2]) + e for b in cell[j]]
        elif k == 5 and pos:
            pos.append(list(pos[0]))
            for q, v in s["atoms"].items():
                if q != "positions" and v:
                    v.append(v[0])
        elif k == 6:
            s["cell"] = [[0.0] * 3] * 3 if rng.random() < 0.3 else [[rng.choice([0, 1, -1, 2]) for _ in range(3)] for _ in range(3)]
        elif k == 7 and s["atoms"].get("names"):
            n = s["atoms"]["names"]
            s["atoms"]["names"] = rng.choice([[n[0]] * len(n), ["Fe1"] * len(n), [""] * len(n), [f"{x}1" for x in n], ["Fe", "Fe1", "Fe2", "Fe1", "Fe"] * len(n)])[: len(n)]
        elif k == 8:
            s["atoms"] = {q: v[: rng.choice([0, 1])] for q, v in s["atoms"].items()}
        elif k == 9 and pos and len(pos) < 30:
            m = rng.choice([20, 45])
            s["atoms"] = {q: (v * (m // max(1, len(v)) + 1))[:m] for q, v in s["atoms"].items() if v}
            s["atoms"]["positions"] = [[round(rng.random(), 4) for _ in range(3)] for _ in range(m)]
        elif k == 10 and s["atoms"].get("names"):
            s["atoms"]["names"][rng.randrange(len(s["atoms"]["names"]))] = rng.choice(["", "\u00e9", "Q" * 3000, "123", "X" * 40, " Fe ", "Fe" * 500])
        else:
            s["cell"] = [[x if isinstance(x, str) else round(x) for x in r] for r in cell]
    return s


def numbers(x):
    if isinstance(x, str) and x in ("nan", "inf", "-inf"):
        return float(x)
    return [numbers(y) for y in x] if isinstance(x, list) else x


def real(s):
    return {**s, "cell": numbers(s["cell"]), "atoms": {**s["atoms"], "positions": numbers(s["atoms"]["positions"])}}


RAW = ["kp", "kp", "sd", "bad-kp", "bad-convention", "bad-load", "engine", "species", "unique", "validate", "labels", "comment", "logo", "legend", "examples"]
EXTRA = ["niggli", "niggli_tol", "lepage", "lepage", "load", "dump", "kpoints", "engine", "vectors"]


def extra(rng):
    k = rng.choice(EXTRA)
    if k == "niggli":
        return {"x": k, "max": rng.choice([0, 1, 7, 100, 1000])}
    if k == "niggli_tol":
        return {"x": "niggli_raw", "max": rng.choice([1, 30, 400]), "eps": rng.choice([0.0, 1e-16, 1e-5, 1.0, 1e6, "nan", -1e-5])}
    if k == "lepage":
        return {"x": k, "tol": rng.choice([0, 1e-9, 1e-4, 0.01, 1, 89, 1e9, -1, "nan", "inf"]), "limit": rng.choice([2.0, 2.0, 0.0, 5.0, 10.0]), "no_niggli": rng.random() < 0.6, "all": rng.random() < 0.4}
    if k == "load":
        n = rng.choice([0, 1, 5, 8, 12, 60, 2000])
        return {"x": k, "lines": [rng.choice(TEXTS) for _ in range(min(n, 60))], "times": max(1, n // 60), "crlf": rng.random() < 0.2, "die": rng.choice([None, None, 0, 3, 9]),
                "count": rng.choice([None, 0, 5, 10**6, 10**12, -3])}
    if k == "dump":
        return {"x": k, "decimals": rng.choice([0, 3, 17, 60, 300]), "comment": rng.choice(["x", "\n" * 50, "y" * 100000]), "mode": rng.choice(["Direct", "Cartesian", "?"])}
    if k == "kpoints":
        return {"x": k, "n": rng.choice([0, 1, 50, 3000]), "coords": [[rng.choice([0.0, 0.5, 1e300, "nan", "inf", 1e-300]) for _ in range(3)] for _ in range(rng.choice([2, 3, 6]))],
                "path": rng.choice(["K1-K2", "K1-K1", "K1-K2|K2-K1", "K1-K2-" * 30 + "K1", "|", "-", "--", "K1", "K1-K2|", ""])}
    if k == "engine":
        kind = rng.choice(["points", "line", "vector", "cell", "lattice", "atoms", "kpath", "wigner"])
        return {"x": k, "kind": kind, "c": c19.content(rng, kind, rng.choice([1, 1e-9, 1e9])), "show": rng.random() < 0.7}
    return {"x": k, "a": [rng.choice(NASTY) for _ in range(3)], "b": [rng.choice(NASTY) for _ in range(3)], "r": [rng.choice([0, 1, 3]) for _ in range(3)]}


def gen(rng, tier, index):
    if index % 6 == 5:
        return pile(rng)
    if index % 6 == 2:
        return sweep(rng)
    structs = [P.json.loads(P.json.dumps(K.structure(rng, max_atoms=12)))]
    for _ in range(rng.choice([1, 2, 2])):
        structs.append(hostile(rng, structs[0]))
    ops = []
    for _ in range(rng.choice([3, 5, 8])):
        i = rng.randrange(1, len(structs)) if rng.random() < 0.85 else 0
        if rng.random() < 0.4:
            o = extra(rng)
            o["s"] = i
        else:
            o = K.pick(rng, structs, even=True, slow=0.04, i=i if structs[i]["atoms"]["positions"] else 0)
        r = rng.random()
        if r < 0.15:
            o["backend"] = {"at": rng.choice([0, 0, 1]), "times": rng.choice([1, 3, 10**9]), "how": rng.choice(HOWS)}
        elif r < 0.27:
            o["strike"] = {"u": rng.random(), "exc": rng.choice(sorted(EXC))}
        ops.append(o)
    return {"kind": "end", "structs": structs, "ops": ops}


def sweep(rng):
    """One structure with something extreme about it, given to every function in turn."""
    s = P.json.loads(P.json.dumps(K.structure(rng, max_atoms=6)))
    pos = s["atoms"]["positions"]
    x = rng.choice(["nan", "inf", "-inf", 1e300, -1e300, 1e16, -1e16, 1e9, -1e12, 1e-300, -5e-324])
    r = rng.random()
    if r < 0.6 and pos:
        pos[rng.randrange(len(pos))][rng.randrange(3)] = x
        if rng.random() < 0.3:
            pos[rng.randrange(len(pos))] = [x, x, x]
    elif r < 0.85:
        s["cell"][rng.randrange(3)][rng.randrange(3)] = x
    else:
        s = hostile(rng, s)
    ops = []
    names = sorted(n for n in K.T if K.T[n][0] > 0 and "slow" not in K.tags(n))
    rng.shuffle(names)
    for n in names:
        ops.append(K.pick(rng, [s], only=[n], i=0))
    return {"kind": "end", "structs": [s], "ops": ops}


def pile(rng):
    """Some calls, repeated many times on structures that are always new."""
    base = [P.json.loads(P.json.dumps(K.structure(rng, max_atoms=3)))]
    ops = []
    while len(ops) < rng.choice([1, 2, 3]):
        o = K.pick(rng, base, without=("slow",), even=True)
        if rng.random() < 0.25:
            o = {"x": "raw", "s": 0, "what": rng.choice(RAW)}
        r = rng.random()
        if r < 0.2 and "x" not in o and "sym" in K.tags(o["f"]):
            o["backend"] = {"at": 0, "times": 10**9, "how": rng.choice(["None", "SpglibError"])}
        ops.append(o)
    return {"kind": "pile", "structs": base, "ops": ops, "cycles": 330, "names": rng.random() < 0.5}


# ----------------------------------------------------------------------------------------- counting
class StepLimit(BaseException):
    pass


class Slow(BaseException):
    pass


class Counter:
    """Counts the lines of the library that are executed by this process and stops at a limit or at a chosen line."""

    TOOL = 4

    def __init__(self):
        import wulfric

        self.root = os.path.dirname(wulfric.__file__)
        self.n = 0
        self.limit = None
        self.at = None
        self.exc = None
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "wsim")
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.register_callback(self.TOOL, m.events.JUMP, self.line)

    def line(self, code, *a):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.at:
            raise EXC[self.exc]("injected")
        if self.n > self.limit:
            self.where = f"{os.path.basename(code.co_filename)} in {code.co_name}"
            raise StepLimit

    def run(self, fn, limit, at=None, exc=None):
        self.n, self.limit, self.at, self.exc, self.where = 0, limit, at, exc, None
        m = sys.monitoring
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        try:
            return P.outcome(fn)
        finally:
            m.set_events(self.TOOL, 0)


class Source(io.StringIO):
    """A stream that counts how often it is asked."""

    def __init__(self, text, die):
        super().__init__(text, newline=None)
        self.asked = 0
        self.die = die

    def tick(self):
        self.asked += 1
        if self.die is not None and self.asked > self.die:
            raise OSError(5, "Input/output error")
        if self.asked > 100000:
            raise StepLimit

    def readline(self, *a):
        self.tick()
        return super().readline(*a)

    def read(self, *a):
        self.tick()
        return super().read(*a)

    def __next__(self):
        self.tick()
        return super().__next__()

    def readlines(self, *a):
        self.tick()
        return super().readlines(*a)


def do(w, o):
    """One call; extreme arguments are made here."""
    import wulfric

    if "f" in o:
        return K.invoke(w, o)
    cell, atoms = w.cells[o["s"]], w.atom[o["s"]]
    k = o["x"]
    f = lambda x: float(x) if isinstance(x, str) else x  # noqa: E731
    if k == "niggli":
        return wulfric.cell.get_niggli(cell, implementation="wulfric", max_iterations=o["max"])
    if k == "niggli_raw":
        return wulfric.cell.get_niggli(cell, eps_relative=f(o["eps"]), implementation="wulfric", max_iterations=o["max"])
    if k == "lepage":
        return wulfric.lepage(cell, angle_tolerance=f(o["tol"]), give_all_results=o["all"], no_niggli=o["no_niggli"], _limit=o["limit"])
    if k == "load":
        lines = list(o["lines"]) * o["times"]
        if o["count"] is not None and len(lines) > 6:
            lines[:8] = ["c", "1.0", "1 0 0", "0 1 0", "0 0 1", "Fe", str(o["count"]), "Direct"]
        return wulfric.io.load_poscar(Source(("\r\n" if o["crlf"] else "\n").join(lines), o["die"]))
    if k == "dump":
        return wulfric.io.dump_poscar(cell, atoms, io.StringIO(), comment=o["comment"], decimals=o["decimals"], mode=o["mode"])
    if k == "kpoints":
        kp = wulfric.Kpoints(cell, coordinates=numbers(o["coords"]), n=o["n"])
        kp.path = o["path"]
        return [kp.labels, kp.ticks(), kp.points(), kp.flat_points(), kp.hs_table()]
    if k == "engine":
        pe = wulfric.PlotlyEngine()
        c19.plot(pe, o["kind"], o["c"])
        return o["show"] and pe.show()
    if k == "vectors":
        a, b = numbers(o["a"]), numbers(o["b"])
        r = [P.outcome(lambda: wulfric.geometry.get_angle(a, b)), P.outcome(lambda: wulfric.geometry.get_spherical(a)), P.outcome(lambda: wulfric.cell.get_lattice_points(cell, range=tuple(o["r"])))]
        return len(r)
    # calls that are refused, and objects that are dropped
    what = o["what"]
    if what == "kp":
        kp = wulfric.Kpoints(cell, coordinates=[[0, 0, 0], [0.5, 0, 0]], n=3)
        kp.add_hs_point("A", [0.5, 0.5, 0])
        kp.path = "A-K1"
        return kp.copy().points()
    if what == "sd":
        return wulfric.get_spglib_data(cell, atoms)
    if what == "bad-kp":
        kp = wulfric.Kpoints(cell, coordinates=[[0, 0, 0], [0.5, 0, 0]], n=3)
        P.outcome(lambda: kp.add_hs_point("K1", [0.5, 0.5, 0]))
        kp.path = "A-K1"
    if what == "bad-convention":
        return wulfric.crystal.get_primitive(cell, atoms, convention="nothing")
    i = o.get("i", 0)  # strings that are new in every cycle
    if what == "species":
        return [P.outcome(lambda: wulfric.crystal.get_atom_species(x)) for x in (f"Fe{i}", f"X{i}x", f"cr_{i}")]
    if what == "unique":
        return wulfric.crystal.get_unique_names({"names": [f"Fe{i}", f"Fe{i}", f"O{i}"], "positions": [[0, 0, 0]] * 3}, strategy="all" if i % 2 else "repeated-only")
    if what == "validate":
        return P.outcome(lambda: wulfric.crystal.validate_atoms({"names": [f"Fe{i}"], "positions": [[0, 0, 0]], f"q{i}": [1]}, raise_errors=True))
    if what == "labels":
        kp = wulfric.Kpoints(cell, coordinates=[[0, 0, 0], [0.5, 0, 0.001 * i]], names=[f"A{i}", f"B{i}"], labels=[f"$A_{i}$", f"b{i}"])
        kp.add_hs_point(f"C{i}", [0.5, 0.5, 0.001 * i], f"c{i}")
        kp.path = f"A{i}-B{i}-C{i}|B{i}-A{i}"
        return [kp.labels, kp.path_string, kp.hs_table(), kp.points()]
    if what == "comment":
        f = io.StringIO()
        wulfric.io.dump_poscar(cell, {"names": [f"Fe{i}"], "species": ["Fe"], "positions": [[0, 0, 0.0001 * i]]}, f, comment=f"number {i}")
        return wulfric.io.load_poscar(io.StringIO(f.getvalue()))
    if what == "logo":
        return wulfric.logo(info=[f"line {i}", "x" * (i % 7)], line_length=70 + i % 40, flat=i % 2 == 0, comment=f"#{i} ")
    if what == "examples":
        return [P.outcome(lambda: wulfric.cell.sc_get_example(f"no {i}")), P.outcome(lambda: wulfric.crystal.hpkot_get_example(f"no {i}"))]
    if what == "legend":
        pe = wulfric.PlotlyEngine()
        pe.plot_points([[0, 0, 0], [1, 1, 0.01 * i]], legend_group=f"g{i}", legend_label=f"l{i}", colors="#%06x" % i)
        return pe.x_range
    if what == "bad-load":
        return wulfric.io.load_poscar(io.StringIO("c\n1.0\n1 0\n"))
    pe = wulfric.PlotlyEngine()
    pe.plot_points([[0, 0, 0], [1, 1, 1]], legend_group="a")
    return pe.x_range


def stub():
    import plotly.graph_objects as go

    go.Figure.show = lambda self, *a, **k: None  # the browser


def world(structs):
    w = K.World([])
    for s in structs:
        try:
            c, a = K.World.make(real(s))
        except (ValueError, OverflowError):
            c, a = real(s)["cell"], {"positions": []}
        w.cells.append(c)
        w.atom.append(a)
    return w


def limit(o, n):
    k = LIMIT + 2000 * n * n
    if (o.get("f") or o.get("x")) == "lepage":
        k *= 6
    if "f" in o and o["f"] == "niggli":
        k += 2000 * min(o["a"].get("max_iterations", 0), 1000)
    if o.get("x", "").startswith("niggli"):
        k = 60_000 + 2000 * o["max"]
    return k


def tame(o):
    """The default limit of a reduction is too many steps to wait for."""
    if o.get("f") == "niggli" and o["a"].get("max_iterations", 0) > 1000:
        return {**o, "a": {**o["a"], "max_iterations": 1000}}
    return o


# ---------------------------------------------------------------------------------------------- end
def alarmed(signum, frame):
    raise Slow


def ending(plan):
    stub()
    w = world(plan["structs"])
    count = Counter()
    signal.signal(signal.SIGPROF, alarmed)
    out = []
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    for o in plan["ops"]:
        o = tame(o)
        n = len(plan["structs"][o["s"]]["atoms"]["positions"])
        rounds = [None]
        if o.get("strike"):
            rounds = ["strike", None]
        for r in rounds:
            w2 = world(plan["structs"]) if "f" not in o or "inplace" in K.tags(o["f"]) else w
            if o.get("sd") is not None:
                if P.outcome(lambda: w2.data(o["s"], o["sd"]))[0] != "ok":
                    o = {**o, "sd": None}
            B.S.reset([o["backend"]] if o.get("backend") else ())
            B.S.limit = (1000, StepLimit)
            signal.setitimer(signal.ITIMER_PROF, 30)
            at = None
            if r:
                at = 1 + int(o["strike"]["u"] * (out[-1]["n"] if out else 500))
            got = count.run(lambda: do(w2, o), limit(o, n), at, r and o["strike"]["exc"])
            signal.setitimer(signal.ITIMER_PROF, 0)
            out.append({"o": o.get("f") or o["x"], "how": got[0] if got[0] == "ok" else got[1], "n": count.n, "limit": limit(o, n), "where": count.where, "struck": bool(r), "fired": len(B.S.fired), "asked": B.S.count,
                        "atoms": n})
            B.S.reset()
            if out[-1]["how"] in ("StepLimit", "Slow"):
                return out
    return out


# --------------------------------------------------------------------------------------------- pile
def piling(plan):
    """Allocated blocks after a third, two thirds and all of the cycles."""
    stub()
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    rng = random.Random(11)
    base = world(plan["structs"])
    fresh = 0
    levels = []
    done = {}
    n = plan["cycles"]
    marks = {n // 3, 2 * n // 3, n}
    fds = threads = None
    base_cell = np.array(base.cells[0], dtype=float)
    for i in range(1, 5 * n + 1):
        if i == n + 1:
            if not grows(levels, n // 3):
                break
            marks = {3 * n, 5 * n}  # a store of limited size fills up
        fresh += 1
        s = 1 + fresh * 1e-3
        w = K.World([])
        w.cells = [(base_cell * s).tolist() if i % 2 else base_cell * s]
        w.atom = [{k: (v.copy() if isinstance(v, np.ndarray) else list(v)) for k, v in dict(base.atom[0]).items()}]
        if plan.get("names") and w.atom[0].get("names") is not None:
            w.atom[0]["names"] = [f"{x}_{i}" for x in w.atom[0]["names"]]
        for o in plan["ops"]:
            if o.get("sd") is not None and P.outcome(lambda: w.data(0, o["sd"]))[0] != "ok":
                o = {**o, "sd": None}
            if o.get("x") == "raw":
                o = {**o, "i": i}
            B.S.reset([o["backend"]] if o.get("backend") else ())
            r = P.outcome(lambda: do(w, o))
            done[r[0]] = done.get(r[0], 0) + 1
            del r
            B.S.reset()
        del w
        if i in marks:
            for _ in range(3):
                gc.collect()
            B.S.reset()
            levels.append(sys.getallocatedblocks())
            if fds is None:
                fds, threads = len(P.open_fds()), threading.active_count()
    return {"levels": levels, "fds": [fds, len(P.open_fds())], "threads": [threads, threading.active_count()], "done": done, "rng": rng.random()}


def grows(levels, third):
    a, b, c = levels[:3]
    return b - a > 0.8 * third and c - b > 0.8 * third


def execute(plan, ctx):
    if plan["kind"] == "pile":
        return {"pile": ctx.fork(piling, plan, timeout=150)}
    return {"end": parts(plan, plan["ops"], ctx)}


def parts(plan, ops, ctx):
    """Extreme numbers can kill the process inside of another package: the other calls are then made in processes of their own."""
    r = ctx.fork(ending, {**plan, "ops": ops}, timeout=150)
    if r[0] != "exit" or len(ops) < 2:
        return ("ok", []) if r[0] == "exit" else r
    out = []
    for half in (ops[:len(ops) // 2], ops[len(ops) // 2:]):
        r = parts(plan, half, ctx)
        if r[0] != "ok":
            return r
        out += r[1]
        if r[1] and r[1][-1]["how"] in ("StepLimit", "Slow"):
            break
    return "ok", out


def judge(plan, hist, ctx):
    r = hist.get("end") or hist["pile"]
    if r[0] == "error":
        raise RuntimeError(r[1])
    if r[0] != "ok":  # inside of another package: the alarm would have stopped a loop of the library
        return {"violations": [], "stats": {"skipped": 1}, "log": digest(["skip"])}
    viol, keys, faults = [], [], {}
    if plan["kind"] == "pile":
        p = r[1]
        names = [o.get("f") or o.get("what") or o["x"] for o in plan["ops"]]
        n = plan["cycles"]
        if len(p["levels"]) == 5 and p["levels"][3] - p["levels"][2] > 1.6 * n and p["levels"][4] - p["levels"][3] > 1.6 * n:
            viol.append({"class": "piles up", "msg": f"memory blocks after {n // 3}, {2 * n // 3}, {n}, {3 * n} and {5 * n} repetitions of {names} on new structures: {p['levels']}"})
        if p["fds"][1] > p["fds"][0]:
            viol.append({"class": "files", "msg": f"open files after repetitions of {names}: {p['fds']}"})
        if p["threads"][1] > p["threads"][0]:
            viol.append({"class": "threads", "msg": f"threads after repetitions of {names}: {p['threads']}"})
        for o in plan["ops"]:
            if o.get("backend"):
                faults["backend " + o["backend"]["how"]] = faults.get("backend " + o["backend"]["how"], 0) + plan["cycles"]
        keys = [digest([names, sorted(p["done"]), [o.get("a") for o in plan["ops"]]])]
        return {"violations": viol, "keys": keys, "nontrivial": keys, "faults": faults, "stats": {"repeated calls": plan["cycles"] * len(plan["ops"])},
                "sample": {"names": names, "levels": p["levels"]}, "log": digest([names, sorted(p["done"].items())])}
    i = 0
    for g in r[1]:
        if g["struck"]:
            faults["strike"] = faults.get("strike", 0) + 1
        if g["fired"]:
            faults["backend"] = faults.get("backend", 0) + g["fired"]
        keys.append(digest([g["o"], g["how"], g["struck"], bool(g["fired"]), g["n"].bit_length()]))
        if g["how"] in ("StepLimit", "Slow"):
            viol.append({"class": "endless", "msg": f"{g['o']} on a structure of {g['atoms']} atoms did not end within {g['n']} steps (limit {g['limit']}) and {g['asked']} calls of spglib, then in {g['where']}; calls before: {[x['o'] for x in r[1][:-1]]}"})
        i += 1
    return {"violations": viol, "keys": keys, "nontrivial": keys, "faults": faults, "stats": {"steps": sum(g["n"] for g in r[1]), "calls": len(r[1])},
            "sample": [[g["o"], g["how"], g["n"]] for g in r[1]], "log": digest([[g["o"], g["how"], g["n"]] for g in r[1]])}


def shrink(plan):
    for x in P.drop_each(plan["ops"]):
        if x:
            yield dict(plan, ops=x)
    for i, o in enumerate(plan["ops"]):
        for k in ("backend", "strike"):
            if o.get(k):
                yield dict(plan, ops=plan["ops"][:i] + [{q: v for q, v in o.items() if q != k}] + plan["ops"][i + 1:])
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
