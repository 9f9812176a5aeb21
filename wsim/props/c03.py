"""What was dumped is what is loaded, under any benign I/O disturbance."""
import io
import os

import numpy as np

from . import common as K
from .. import crystals as C
from ..canon import digest

TIMEOUT = 90


def gen(rng, tier, index):
    steps = []
    targets = rng.sample(["abs", "rel", "default", "stringio", "textio", "lines"], rng.choice([1, 1, 2, 3]))
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        steps.append({"args": K.dump_args(rng), "target": rng.choice(targets), "wrules": K.short_rules(rng), "rrules": K.short_rules(rng),
                      "blk": rng.choice([0, 0, 16, 64, 1000]), "loads": rng.choice([1, 1, 2]), "load_as": rng.choice(["same", "dir", "stream"])})
    return {"steps": steps, "prior": rng.choice([None, None, 20, 3000, 100000])}


class OnlyLines:
    """A file-like object with nothing but readlines()."""

    def __init__(self, text):
        self.text = text

    def readlines(self):
        return io.StringIO(self.text).readlines()


class OnlyWrite:
    """A file-like object with nothing but write()."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)


def run(plan, d, ctx):
    import wulfric

    os.chdir(d)
    streams = {}
    hist = []
    for st in plan["steps"]:
        t = st["target"]
        name = "POSCAR" if t == "default" else "out"
        rec = {}
        start = 0
        if t in ("abs", "rel", "default"):
            target = os.path.join(d, name) if t == "abs" else name
        elif t == "lines":
            target = OnlyWrite()
        else:
            if t not in streams:
                streams[t] = io.StringIO() if t == "stringio" else open(os.path.join(d, "stream"), "w+", encoding="utf-8")
            target = streams[t]
            target.seek(0, 2)
            start = target.tell()
        K.arm(ctx, [d], st["wrules"], st["blk"])
        rec["dump"] = K.outcome(lambda: K.do_dump(st["args"], target))
        rec["fired"] = dict(ctx.simos.fired())
        rec["trace"] = [(e["op"], e["action"], e["ret"]) for e in ctx.simos.events()][:200]
        K.disarm(ctx)
        rec["loads"] = []
        for _ in range(st["loads"]):
            if t in ("abs", "rel", "default"):
                src = target
                if st["load_as"] == "dir" and t == "default":
                    src = d
                elif st["load_as"] == "dir" and t == "rel":
                    src = os.path.join(".", name)
            elif t == "lines":
                src = OnlyLines("".join(target.parts))
            else:
                target.seek(start)
                src = target
            K.arm(ctx, [d], st["rrules"], st["blk"])
            own = None
            if st["load_as"] == "stream" and isinstance(src, str):
                try:
                    own = src = open(src, encoding="utf-8")
                except OSError as e:
                    rec["loads"].append(["exc", type(e).__name__, str(e), []])
                    continue
            r = K.outcome(lambda: wulfric.io.load_poscar(src) if not (t == "default" and st["load_as"] == "same") else wulfric.io.load_poscar())
            if own is not None:
                own.close()
            for k, v in ctx.simos.fired().items():
                rec["fired"][k] = rec["fired"].get(k, 0) + v
            K.disarm(ctx)
            if r[0] == "ok":
                cell, atoms, comment = r[1]
                r = ["ok", np.array(cell, float).tolist(), list(map(str, atoms["names"])), np.array(atoms["positions"], float).reshape(-1, 3).tolist(), comment]
            rec["loads"].append(r)
        hist.append(rec)
    return hist


def execute(plan, ctx):
    d = os.path.join(ctx.scratch, "d")
    os.makedirs(d)
    if plan["prior"] is not None:
        for n in ("out", "POSCAR"):
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"9.9 9.9 9.9\n" * plan["prior"])
    return run(plan, d, ctx)


def squash(s):
    return " ".join(s.split())


def compare(a, r):
    """Difference between the dumped arguments and a loaded structure, or None."""
    _, cell, names, pos, comment = r
    dec = a["decimals"]
    eps = 0.502 * 10.0 ** (-dec) + 1e-12
    c0 = np.array(a["cell"], float)
    cell = np.array(cell)
    if cell.shape != (3, 3):
        return f"cell has shape {cell.shape}"
    if np.abs(cell - c0).max() > eps + 1e-14 * np.abs(c0).max():
        return f"cell {cell.tolist()} differs from {c0.tolist()} at {dec} decimals"
    sp = a["atoms"].get("species") or [C.species_of(x) for x in a["atoms"]["names"]]
    p0 = np.array(a["atoms"]["positions"], float).reshape(-1, 3)
    pos = np.array(pos, float).reshape(-1, 3)
    if len(pos) != len(p0) or len(names) != len(p0):
        return f"{len(pos)} positions and {len(names)} names for {len(p0)} atoms"
    if [x for i, x in enumerate(names) if i == 0 or names[i - 1] != x] != list(dict.fromkeys(names)):
        return f"species are not grouped: {names}"
    for s in sorted(set(sp) | set(names)):
        i0 = [i for i, x in enumerate(sp) if x == s]
        i1 = [i for i, x in enumerate(names) if x == s]
        if len(i0) != len(i1):
            return f"{len(i0)} atoms of {s} became {len(i1)}"
        x0, x1 = p0[i0], pos[i1]
        if a["mode"] == "Cartesian":
            x0, x1 = x0 @ c0, x1 @ cell
            tol = eps + 1e-9 * (1 + np.abs(x0).max())
        else:
            tol = eps + 1e-14 * np.abs(x0).max()
        if np.abs(x0 - x1).max() > tol:
            k = int(np.abs(x0 - x1).max(axis=1).argmax())
            return f"atom {k} of {s} was at {x0[k].tolist()} and is at {x1[k].tolist()} ({a['mode']}, {dec} decimals)"
    want = squash(a["comment"].replace("\n", " ").replace("\r", " "))
    if not isinstance(comment, str) or squash(comment) != want:
        return f"comment {want!r} became {comment!r}"
    return None


def judge(plan, hist, ctx):
    viol, keys, nontriv, faults, stats = [], [], [], {}, {}
    for i, rec in enumerate(hist):
        st = plan["steps"][i]
        a = st["args"]
        for k, v in rec["fired"].items():
            faults[k] = faults.get(k, 0) + v
        what = f"step {i} ({st['target']}, {a['mode']}, write {st['wrules']}, read {st['rrules']}, block {st['blk']})"
        if rec["dump"][0] == "exc":
            viol.append({"class": "dump-raised", "msg": f"{what}: dump raised {rec['dump'][1:3]}"})
            continue
        rc = np.round(np.array(a["cell"], float), a["decimals"])
        flat = abs(np.linalg.det(rc)) < 1e-3 * np.prod(np.linalg.norm(rc, axis=1) + 1e-9)
        for r in rec["loads"]:
            if flat:
                stats["flat-after-rounding"] = stats.get("flat-after-rounding", 0) + 1
                continue
            if r[0] == "exc":
                viol.append({"class": "load-raised", "msg": f"{what}: load raised {r[1:3]}"})
                continue
            stats["round-trips"] = stats.get("round-trips", 0) + 1
            dff = compare(a, r)
            if dff:
                viol.append({"class": "differs", "msg": f"{what}: {dff}"})
        k = digest([st["target"], a["mode"], a["decimals"], rec["trace"], st["load_as"], st["blk"], len(a["atoms"]["positions"])])
        keys.append(k)
        if rec["fired"]:
            nontriv.append(k)
    return {"violations": viol, "keys": keys, "nontrivial": nontriv, "faults": faults, "stats": stats,
            "sample": [{"target": s["target"], "mode": s["args"]["mode"], "atoms": len(s["args"]["atoms"]["positions"]), "fired": h["fired"], "trace": [e[0] for e in h["trace"]][:8]}
                       for s, h in zip(plan["steps"], hist)],
            "log": digest([(h["dump"], h["loads"], h["trace"]) for h in hist])}


def shrink(plan):
    for s in K.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    if plan["prior"] is not None:
        yield dict(plan, prior=None)
    for i, st in enumerate(plan["steps"]):
        def put(**kw):
            return dict(plan, steps=plan["steps"][:i] + [dict(st, **kw)] + plan["steps"][i + 1:])
        for r in K.drop_each(st["wrules"]):
            yield put(wrules=r)
        for r in K.drop_each(st["rrules"]):
            yield put(rrules=r)
        for a in K.shrink_atoms(st["args"]):
            yield put(args=a)
        for k, v in (("decimals", 8), ("mode", "Direct"), ("comment", "c"), ("cform", "list"), ("pform", "list"), ("sugar", False)):
            if st["args"][k] != v:
                yield put(args=dict(st["args"], **{k: v}))
        if st["blk"]:
            yield put(blk=0)
        if st["loads"] > 1:
            yield put(loads=1)
