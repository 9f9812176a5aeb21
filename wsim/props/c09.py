"""A result never depends on what was called or edited before."""
import gc
import pickle

import numpy as np

from . import common as P
from .. import calls as K
from ..canon import canon, diff, digest

TIMEOUT = 120
EDITS = ["nudge", "swap", "name", "cellnum", "types", "types", "species", "addkey", "delkey", "permute", "scale", "extra", "cellsign", "tiny", "tiny", "celltiny", "celltiny"]


def warm():
    K.warm_plotly()


def gen(rng, tier, index):
    structs = [K.structure(rng, max_atoms=8)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        structs.append(K.sib(rng, structs[0]) if rng.random() < 0.7 else K.structure(rng, max_atoms=8))
    fs = None
    if rng.random() < 0.5:
        fs = [K.pick(rng, structs, slow=0.05)["f"] for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.25:  # the same question again and again, with small edits in between
        c = K.pick(rng, structs, slow=0.12, even=True)
        ops = [{"op": "call", "c": c}]
        for _ in range(rng.choice([1, 2, 3])):
            ops.append({"op": "edit_input", "s": c["s"], "how": rng.choice(["tiny", "celltiny", "celltiny", "cellnum", "nudge"] if rng.random() < 0.7 else EDITS), "u": rng.random(), "v": rng.random()})
            ops.append({"op": "call", "c": c})
        return {"structs": structs, "ops": P.json.loads(P.json.dumps(ops))}
    ops = []
    n = rng.choice([3, 5, 8, 12])
    ncalls = 0
    for _ in range(n):
        r = rng.random()
        if r < 0.55 or not ncalls:
            if ncalls and rng.random() < 0.35:
                c = P.json.loads(P.json.dumps(rng.choice([o for o in ops if o["op"] == "call"])["c"]))
                if rng.random() < 0.5:
                    c["s"] = rng.randrange(len(structs))
            else:
                c = K.pick(rng, structs, only=fs if rng.random() < 0.7 else None, slow=0.04)
            ops.append({"op": "call", "c": c})
            ncalls += 1
        elif r < 0.72:
            ops.append({"op": "edit_result", "k": rng.randrange(ncalls), "u": rng.random(), "v": rng.random(), "all": rng.random() < 0.5})
        elif r < 0.9:
            i = rng.randrange(len(structs))
            ops.append({"op": "edit_input", "s": i, "how": rng.choice(EDITS), "u": rng.random(), "v": rng.random()})
        elif r < 0.95:
            ops.append({"op": "restore", "s": rng.randrange(len(structs))})
        else:
            i = rng.randrange(len(structs))
            ops.append({"op": "replace", "s": i, "new": K.sib(rng, structs[i])})
    if ops[-1]["op"] != "call":
        ops.append({"op": "call", "c": P.json.loads(P.json.dumps(rng.choice([o for o in ops if o["op"] == "call"])["c"]))})
    return {"structs": structs, "ops": ops}


def containers(x, out, depth=0):
    """Mutable parts of a returned value."""
    if depth > 6:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            out.append(x)
        if x.dtype == object:
            for y in x.ravel():
                containers(y, out, depth + 1)
    elif isinstance(x, dict):
        out.append(x)
        for y in x.values():
            containers(y, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        if isinstance(x, list):
            out.append(x)
        for y in x:
            containers(y, out, depth + 1)
    elif isinstance(x, set):
        out.append(x)
    elif type(x).__module__.split(".")[0] == "wulfric":
        for y in vars(x).values():
            containers(y, out, depth + 1)


def mutate(x, v):
    if isinstance(x, np.ndarray):
        i = int(v * x.size) % x.size
        old = x.flat[i]
        x.flat[i] = (not old) if x.dtype.kind == "b" else old + 1 if x.dtype.kind in "iuf" else "edited"
    elif isinstance(x, dict):
        x["edited"] = [1, 2, 3]
    elif isinstance(x, set):
        x.add("edited")
    elif x and v < 0.5:
        x[int(v * 2 * len(x)) % len(x)] = "edited"
    else:
        x.append("edited")


def edit_input(w, s, how, u, v, spec):
    """An in-place edit of the caller's own objects."""
    cell, atoms = w.cells[s], w.atom[s]
    pos = atoms.get("positions") if isinstance(atoms, dict) else None
    n = len(pos) if pos is not None else 0
    i = int(u * n) % n if n else 0
    j = int(v * 3) % 3
    if how == "nudge" and n:
        pos[i][j] = float(pos[i][j]) + 0.13
    elif how == "tiny" and n:
        pos[i][j] = float(pos[i][j]) + 7e-4 * 10.0 ** -int(u * 1000 % 8)
    elif how == "celltiny" and not isinstance(cell, tuple) and not isinstance(cell[0], tuple):
        cell[int(u * 3)][j] = float(cell[int(u * 3)][j]) + 7e-4 * 10.0 ** -int(u * 1000 % 8)
    elif how == "extra" and n and len(atoms.get("charge") or []) == n:
        atoms["charge"][i] = 7.5
    elif how == "swap" and n > 1:
        k = (i + 1) % n
        for q in ("names", "species"):
            if q in atoms and isinstance(atoms[q], list) and len(atoms[q]) == n:
                atoms[q][i], atoms[q][k] = atoms[q][k], atoms[q][i]
    elif how == "name" and n and len(atoms.get("names") or []) == n:
        atoms["names"][i] = "Zn" if v < 0.5 else "Mo7"
    elif how == "species" and n:
        if len(atoms.get("species") or []) == n:
            atoms["species"][i] = "Zn"
        else:
            atoms["species"] = ["Zn" if k == i else "O" for k in range(n)]
    elif how == "types" and n and len(atoms.get("spglib_types") or []) == n and v < 0.7:
        atoms["spglib_types"][i] = 1 if atoms["spglib_types"][i] != 1 else 2
    elif how == "types" and n:
        atoms["spglib_types"] = [1 + (k == i) for k in range(n)]
    elif how == "addkey":
        atoms["tag"] = list(range(n))
    elif how == "delkey":
        for q in ("spglib_types", "species", "charge", "tag"):
            if q in atoms:
                del atoms[q]
                break
    elif how == "permute" and n > 1:
        for q in atoms:
            if isinstance(atoms[q], list):
                atoms[q].reverse()
            elif isinstance(atoms[q], np.ndarray):
                atoms[q][:] = atoms[q][::-1].copy()
    elif how in ("cellnum", "scale", "cellsign") and not isinstance(cell, tuple):
        for a in range(3):
            for b in range(3):
                if how == "scale":
                    cell[a][b] = cell[a][b] * 1.07
                elif how == "cellsign":
                    cell[a][b] = -cell[a][b]
        if how == "cellnum":
            cell[i % 3][j] = cell[i % 3][j] + 0.11


def restore(w, s, spec):
    cell, atoms = w.cells[s], w.atom[s]
    if not isinstance(cell, tuple):
        for a in range(3):
            for b in range(3):
                cell[a][b] = spec["cell"][a][b]
    if not isinstance(atoms, dict):
        return
    for q in list(atoms):
        if q not in spec["atoms"]:
            del atoms[q]
    _, fresh = w.make(spec)
    for q in fresh:
        if q in atoms and isinstance(atoms[q], list) and len(atoms[q]) == len(fresh[q]):
            atoms[q][:] = fresh[q]
        else:
            atoms[q] = fresh[q]


def state(w, res, const):
    out = {"inputs": [[canon(a), canon(b)] for a, b in zip(w.cells, w.atom)], "stored": {str(k): canon(v) for k, v in w.stored.items()},
           "results": {k: canon(v) for k, v in res.items()}}
    if const:
        out["constants"] = K.constants()
    return out


def differs(a, b, skip_input=None, skip_result=None):
    for i, (x, y) in enumerate(zip(a["inputs"], b["inputs"])):
        if i != skip_input:
            d = diff(x, y, 0.0)
            if d:
                return "argument", f"input {i} changed: {d}"
        elif skip_input is not None:
            d = diff(x[0], y[0], 0.0)
            if d:
                return "argument", f"the cell of input {i} changed: {d}"
    for k in b["stored"]:
        if k in a["stored"]:
            d = diff(a["stored"][k], b["stored"][k], 0.0)
            if d:
                return "stored", f"stored spglib data {k} changed: {d}"
    for k in a["results"]:
        if k in b["results"] and k != skip_result:
            d = diff(a["results"][k], b["results"][k], 0.0)
            if d:
                return "alias", f"the earlier result of op {k} changed: {d}"
    if "constants" in a and "constants" in b:
        d = diff(a["constants"], b["constants"], 0.0)
        if d:
            return "constant", f"a constant of the package changed: {d}"
    return None


def history(plan):
    w = K.World([])
    spec = [P.json.loads(P.json.dumps(s)) for s in plan["structs"]]
    for s in spec:
        c, a = K.World.make(s)
        w.cells.append(c)
        w.atom.append(a)
    made = {}  # provenance of stored data
    keep = {}
    calls = []  # op index of each call
    out = []
    const0 = K.constants()
    for n, op in enumerate(plan["ops"]):
        rec = {"bad": None}
        if op["op"] == "call":
            c = dict(op["c"])
            tg = K.tags(c["f"])
            if c.get("sd") is not None:
                k = (c["s"], tuple(c["sd"]))
                if k not in w.stored:
                    snap = pickle.dumps((w.cells[c["s"]], w.atom[c["s"]]))
                    try:
                        w.data(*k)
                        made[k] = snap
                    except Exception:  # noqa: BLE001
                        c["sd"] = None
            rec["c"] = c
            rec["in"] = pickle.dumps((w.cells[c["s"]], w.atom[c["s"]]))
            rec["sdin"] = made.get((c["s"], tuple(c["sd"]))) if c.get("sd") is not None else None
            before = state(w, keep, False)
            got = []
            with K.Warned() as wd:
                rec["r"] = K.record(w, c, wd, got)
            after = state(w, keep, False)
            inplace = "inplace" in tg
            rec["bad"] = differs(before, after, skip_input=c["s"] if inplace else None)
            calls.append(n)
            if rec["r"][0] == "ok" and not (tg & {"alias", "inplace"}):
                keep[n] = got[0]
        elif op["op"] == "edit_result":
            k = calls[op["k"]] if op["k"] < len(calls) else None
            if k in keep:
                parts = []
                containers(keep[k], parts)
                if parts:
                    before = state(w, keep, False)
                    x = parts[int(op["u"] * len(parts)) % len(parts)]
                    for y in parts if op.get("all") else [x]:
                        mutate(y, op["v"])
                    after = state(w, keep, False)
                    rec["bad"] = differs(before, after, skip_result=k)
                    rec["did"] = type(x).__name__
        elif op["op"] == "edit_input":
            before = {k: canon(v) for k, v in keep.items()}
            sb = {str(k): canon(v) for k, v in w.stored.items()}
            edit_input(w, op["s"], op["how"], op["u"], op["v"], spec[op["s"]])
            a = {"inputs": [], "stored": sb, "results": before}
            b = {"inputs": [], "stored": {str(k): canon(v) for k, v in w.stored.items()}, "results": {k: canon(v) for k, v in keep.items()}}
            rec["bad"] = differs(a, b)
        elif op["op"] == "restore":
            restore(w, op["s"], spec[op["s"]])
        else:
            i = op["s"]
            spec[i] = op["new"]
            w.cells[i] = w.atom[i] = None  # the new object may get the identity of the old one
            gc.collect()
            w.cells[i], w.atom[i] = K.World.make(op["new"])
        out.append(rec)
    d = diff(const0, K.constants(), 0.0)
    return {"ops": out, "constants": d}


def pristine(rec):
    """The same call first in a process that has done nothing else."""
    c = dict(rec["c"])
    w = K.World([])
    cell, atoms = pickle.loads(rec["in"])
    w.cells, w.atom = [cell], [atoms]
    c["s"] = 0
    if c.get("sd") is not None:
        c2, a2 = pickle.loads(rec["sdin"])
        w2 = K.World([])
        w2.cells, w2.atom = [c2], [a2]
        w.stored[(0, tuple(c["sd"]))] = w2.data(0, tuple(c["sd"]))
    with K.Warned() as wd:
        return K.record(w, c, wd)


def execute(plan, ctx):
    h = ctx.fork(history, plan, timeout=100)
    if h[0] != "ok":
        return {"skip": h}
    ref = {}
    todo = [n for n, r in enumerate(h[1]["ops"]) if "r" in r]
    if len(todo) > 8:
        todo = todo[:2] + todo[-6:]
    for n in todo:
        ref[n] = ctx.fork(pristine, h[1]["ops"][n])
    return {"h": h[1], "ref": ref}


def judge(plan, hist, ctx):
    if "skip" in hist:
        if hist["skip"][0] == "error":
            raise RuntimeError(hist["skip"][1])
        return {"violations": [], "stats": {"skipped": 1}, "log": "skip"}
    viol = []
    h = hist["h"]
    stats, faults = {}, {}
    for n, (op, rec) in enumerate(zip(plan["ops"], h["ops"])):
        name = op["op"] if op["op"] != "call" else op["c"]["f"]
        if rec["bad"]:
            what = f"op {n} {K.show(rec['c'], plan['structs']) if 'c' in rec else op}"
            viol.append({"class": rec["bad"][0], "msg": f"{what}: {rec['bad'][1]}"})
        if op["op"] != "call":
            faults[op["op"]] = faults.get(op["op"], 0) + 1
        else:
            stats["call:" + name] = stats.get("call:" + name, 0) + 1
    if h["constants"]:
        viol.append({"class": "constant", "msg": f"a constant of the package changed: {h['constants']}"})
    for n, r in hist["ref"].items():
        if r[0] != "ok":
            if r[0] == "error":
                raise RuntimeError(r[1])
            continue
        d = K.same(h["ops"][n]["r"], r[1])
        if d:
            viol.append({"class": "history", "msg": f"op {n} {K.show(h['ops'][n]['c'], plan['structs'])} after {[o['op'] if o['op'] != 'call' else o['c']['f'] for o in plan['ops'][:n]]}: {d}"})
    key = digest([[o["op"], o.get("how"), o.get("c", {}).get("f"), o.get("s", o.get("c", {}).get("s"))] for o in plan["ops"]] + [len(plan["structs"])])
    return {"violations": viol, "keys": [key], "nontrivial": [key] if len(plan["ops"]) > 1 else [], "stats": stats, "faults": faults,
            "sample": [o["op"] if o["op"] != "call" else o["c"]["f"] for o in plan["ops"]],
            "log": digest([r.get("r", [0])[:2] for r in h["ops"]])}


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops) - 1, -1, -1):
        rest = [dict(o) for o in ops[:i] + ops[i + 1:]]
        if ops[i]["op"] == "call":
            k = sum(1 for o in ops[:i] if o["op"] == "call")
            rest = [o for o in rest if not (o["op"] == "edit_result" and o["k"] == k)]
            for o in rest:
                if o["op"] == "edit_result" and o["k"] > k:
                    o["k"] -= 1
        if rest:
            yield dict(plan, ops=rest)
    for i, s in enumerate(plan["structs"]):
        for a in P.shrink_atoms(s):
            yield dict(plan, structs=plan["structs"][:i] + [a] + plan["structs"][i + 1:])
        for k, v in (("cform", "list"), ("pform", "list"), ("sugar", False)):
            if s.get(k) != v:
                yield dict(plan, structs=plan["structs"][:i] + [dict(s, **{k: v})] + plan["structs"][i + 1:])
