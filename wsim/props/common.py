"""Helpers shared by the property modules."""
import gc
import io
import json
import os
import sys
import warnings

import numpy as np

from .. import crystals as C
from ..canon import canon, digest

DISK_W = ["ENOSPC", "EIO", "EDQUOT", "EFBIG"]
DISK_O = ["EACCES", "EROFS", "ENOSPC", "EMFILE", "EIO", "EPERM"]
DISK_C = ["EIO", "ENOSPC", "EDQUOT"]
DISK_R = ["EIO", "ESTALE"]


def outcome(fn):
    try:
        return ["ok", fn()]
    except BaseException as e:  # noqa: BLE001
        return ["exc", type(e).__name__, str(e)[:300], [k.__name__ for k in type(e).__mro__]]


COMMENTS = ["structure", "", " padded  comment ", "Fe2O3 \u00e5ngstr\u00f6m \u2014 test", "a\nb", "a\r\nb", "x\ry", "\u6c34", "1 2 3", "tab\tinside", "# !" * 20]


def big_structure(rng, n):
    cell = [[round(rng.uniform(4, 9) if i == j else rng.uniform(-1, 1), 4) for j in range(3)] for i in range(3)]
    names = [rng.choice(["Fe", "O", "Si", "C"]) for _ in range(n)]
    return {"cell": cell, "atoms": {"names": names, "positions": [[round(rng.uniform(-0.5, 1.5), rng.choice([2, 5, 9])) for _ in range(3)] for _ in range(n)]}}


def dump_args(rng, big=True):
    """Literal arguments of a dump_poscar call that ought to succeed."""
    if big and rng.random() < 0.25:
        s = big_structure(rng, rng.choice([1, 40, 150, 400, 900, 2500]))
    else:
        s = C.make(rng, max_atoms=12)
    s = {"cell": s["cell"], "atoms": {k: v for k, v in s["atoms"].items() if k in ("names", "species", "positions", "charge")}}
    if rng.random() < 0.12:  # molecules in large boxes, small units
        k = rng.choice([0.1, 30.0, 300.0, 2500.0])
        s["cell"] = [[x * k for x in r] for r in s["cell"]]
    if rng.random() < 0.12:  # atoms far away from the first cell
        for p in s["atoms"]["positions"]:
            if rng.random() < 0.5:
                p[rng.randrange(3)] += rng.choice([-3, 12, -37, 150, -999, 4000, -20000])
    return {"cell": s["cell"], "atoms": s["atoms"], "cform": rng.choice(C.CELL_FORMS), "pform": rng.choice(C.POS_FORMS),
            "sugar": rng.random() < 0.2, "comment": rng.choice(COMMENTS), "decimals": rng.choice([0, 1, 2, 3, 5, 6, 8, 8, 10, 12, 16]),
            "mode": rng.choice(["Direct", "Cartesian"])}


def build(d):
    import wulfric

    cell = C.build_cell(d["cell"], d.get("cform", "list"))
    atoms = C.build_atoms(d["atoms"], d.get("pform", "list"))
    if d.get("sugar"):
        atoms = wulfric.add_sugar(atoms)
    return cell, atoms


def slow_threads(delay=0.25):
    """Every thread that is started from here on gets the processor only later, as on a busy machine."""
    import threading
    import time

    real = threading.Thread.run
    threading.Thread.run = lambda self: (time.sleep(delay), real(self))[1]


def do_dump(d, target):
    import wulfric

    cell, atoms = build(d)
    kw = {"decimals": d["decimals"], "mode": d["mode"]}
    if d["comment"] is not None:
        kw["comment"] = d["comment"]
    if "mode_kw" in d:
        kw["mode"] = d["mode_kw"]
    wulfric.io.dump_poscar(cell, atoms, target, **kw)


FIGS = ["points", "line", "vector", "cell"]


def make_figure(spec):
    import wulfric

    pe = wulfric.PlotlyEngine()
    for k in spec["plots"]:
        if k == "points":
            pe.plot_points([[0, 0, 0], [1, 2, 3]], legend_label="pts", legend_group="g1")
        elif k == "line":
            pe.plot_line([0, 0, 0], [1, 0, 3], legend_group="g2")
        elif k == "vector":
            pe.plot_vector([0, 0, 0], [1, 1, 1], vector_label="v", legend_group="g3")
        elif k == "cell":
            pe.plot_cell(np.diag([3.0, 4.0, 5.0]), legend_group="g4")
    return pe


def do_save(spec, target):
    pe = make_figure(spec)
    pe.save(target, kwargs_write_html={"include_plotlyjs": spec["js"], "div_id": "figure"})


def fault_rules(rng, fault, events):
    """Fills in the position of a fault from the recorded events of the undisturbed call."""
    return fault


def place(fault, events):
    """A fault {"ops","u","action",...} is placed on the int(u*n)-th of the n matching calls of the undisturbed run."""
    if "nth" in fault:
        return fault
    n = sum(1 for e in events if e["op"] in fault["ops"])
    f = {k: v for k, v in fault.items() if k != "u"}
    f["nth"] = int(fault["u"] * n) if n else 0
    return f


def short_rules(rng):
    """Benign disturbances: short transfers and EINTR."""
    out = []
    k = rng.randrange(4)
    if k & 1:
        out.append({"ops": ["read", "write"], "nth": rng.choice([0, 0, 1, 3]), "times": rng.choice([1, 5, 100000]), "action": "short", "arg": rng.choice([1, 7, 64, 1000])})
        if out[0]["arg"] == 1:
            out[0]["times"] = min(out[0]["times"], 2000)
    if k & 2:
        for _ in range(rng.choice([1, 3])):
            out.insert(0, {"ops": rng.choice([["read", "write"], ["open"], ["read", "write", "open"]]), "nth": rng.randrange(6), "times": rng.choice([1, 2]), "action": "eintr"})
    return out


def arm(ctx, prefixes, rules, blk=0):
    so = ctx.simos
    so.reset()
    for p in prefixes:
        so.prefix(p)
    so.rules(rules)
    if blk:
        so.blksize(blk)
    so.enable(True)


def disarm(ctx):
    ctx.simos.enable(False)


def tree(path):
    """Every file and directory below path, with the bytes of the files."""
    out = {}
    for d, dirs, files in os.walk(path):
        for n in sorted(dirs):
            out[os.path.relpath(os.path.join(d, n), path) + "/"] = None
        for n in sorted(files):
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


def clip(b, n=60):
    if b is None:
        return "no file"
    return f"{len(b)} bytes {b[:n]!r}" if len(b) > n else repr(b)


def open_fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((int(n), os.readlink(f"/proc/self/fd/{n}")))
        except OSError:
            pass
    return sorted(out)


def drop_each(lst, key=None):
    """Shrinking a list: without one half, then without each element."""
    n = len(lst)
    if n > 3:
        yield lst[: n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


def shrink_atoms(d, minimum=1):
    """Smaller versions of {"cell","atoms"}."""
    at = d["atoms"]
    n = len(at["positions"])
    cuts = []
    if n > 4:
        cuts += [list(range(n // 2)), list(range(n // 2, n))]
    if n <= 12:
        cuts += [[j for j in range(n) if j != i] for i in range(n)]
    for keep in cuts:
        if len(keep) >= minimum:
            yield {**d, "atoms": {k: [v[i] for i in keep] for k, v in at.items()}}
    for k in at:
        if k not in ("positions", "names"):
            yield {**d, "atoms": {q: v for q, v in at.items() if q != k}}


def with_key(plan, **kw):
    p = dict(plan)
    p.update(kw)
    return p
